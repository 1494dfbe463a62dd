// A machine that performs operations on elements, next to the polynomials that these elements should be.
#pragma once
#include "modules.hpp"

namespace ref {
template <typename Ring>
struct Machine {
  using E = Element<Ring>;
  pbt::Case& c;
  World<Ring> W;
  std::vector<E> v;
  std::vector<Model<Ring>> m;

  Machine(pbt::Case& c) : c(c), W(c, c.range(1, 3)) {
    const int n = c.range(2, 4);
    auto last = W.gen_module();
    for (int i = 0; i < n; i++) {
      if (c.flip()) last = W.gen_module();
      c.log() << " v" << i << "=";
      v.push_back(W.gen_element(last));
      m.push_back(W.value(v.back()));
    }
    c.log() << ": ";
  }
  void check(const char* what) {
    for (size_t i = 0; i < v.size(); i++) {
      const auto got = W.value(v[i]);
      REQUIRE(got == m[i], what << ": v" << i << " is " << str<Ring>(got) << " instead of " << str<Ring>(m[i]));
      REQUIRE(static_cast<bool>(v[i]) == !m[i].empty(), what << ": v" << i << " is zero, or not");
    }
  }
  // The generators that a sum or product has
  void check_module(size_t k, const std::set<Mono>& want, const char* what) {
    REQUIRE(W.generators(*v[k].module()) == want, what << " is an element of " << *v[k].module());
  }
  bool product_ok(size_t i, size_t j) {
    return degree<Ring>(m[i]) + degree<Ring>(m[j]) <= 6 && v[i].module()->rank() * v[j].module()->rank() <= 60 && bits(i) + bits(j) < 2000;
  }
  size_t bits(size_t i) {
    size_t b = 0;
    for (auto& x : v[i].coefficients())
      if constexpr (std::is_same_v<Ring, NumberField>) {
        for (auto& y : x.num_vector()) b = std::max(b, mpz_sizeinbase(y.get_mpz_t(), 2));
        b = std::max(b, mpz_sizeinbase(x.den().get_mpz_t(), 2));
      } else
        b = std::max(b, mpz_sizeinbase(mpq_class(x).get_num_mpz_t(), 2) + mpz_sizeinbase(mpq_class(x).get_den_mpz_t(), 2));
    return b;
  }
  std::set<Mono> sum(size_t i, size_t j) {
    auto s = W.generators(*v[i].module());
    for (auto& x : W.generators(*v[j].module())) s.insert(x);
    return s;
  }
  std::set<Mono> products(size_t i, size_t j) {
    std::set<Mono> s;
    for (auto& x : W.generators(*v[i].module()))
      for (auto& y : W.generators(*v[j].module())) {
        s.insert(x * y);
        W.real(x * y);
      }
    return s;
  }

  template <typename T>
  void scalar(size_t k, size_t i, const T& s, bool divide) {
    const mpq_class e = exact(s);
    c.log() << "v" << k << " = v" << i << (divide ? " / " : " * ") << e << "; ";
    c.cls(divide ? "divide by scalar" : "multiply by scalar");
    const auto M = v[i].module();
    bool error = divide && e == 0 && M->rank();
    Model<Ring> want;
    if (!(divide && e == 0)) want = scale<Ring>(m[i], W.rational(divide ? mpq_class(1 / e) : e));
    if constexpr (std::is_same_v<Ring, IntegerRing>)
      for (auto& [_, x] : want) error = error || x.get_den() != 1;
    if (divide && e == 0 && !error) return;
    const int how = static_cast<int>(c.draw(2));
    bool thrown = false;
    try {
      E r = v[i];
      if (divide)
        switch (how) {
          case 0: r = v[i] / s; break;
          case 1: REQUIRE(&(r /= s) == &r, "does not return the element itself"); break;
          default: r = E(v[i]) / s;
        }
      else
        switch (how) {
          case 0: r = v[i] * s; break;
          case 1: REQUIRE(&(r *= s) == &r, "does not return the element itself"); break;
          default: r = s * v[i];
        }
      REQUIRE(r.module() == M, "scalar multiplication changed the module");
      v[k] = r;
      m[k] = want;
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    REQUIRE(thrown == error, (thrown ? "threw" : "did not throw"));
  }

  void step() {
    const size_t n = v.size();
    const size_t i = c.draw(n - 1), j = c.draw(n - 1), k = c.draw(n - 1);
    switch (c.weighted({4, 4, 5, 3, 3, 3, 2, 4, 4, 2, 2, 2, 2})) {
      case 0: {
        const auto s = sum(i, j);
        c.log() << "v" << i << " += v" << j << "; ";
        REQUIRE(&(v[i] += v[j]) == &v[i], "does not return the element itself");
        m[i] = add<Ring>(m[i], Model<Ring>(m[j]));
        check_module(i, s, "sum");
        return check("after +=");
      }
      case 1: {
        const auto s = sum(i, j);
        c.log() << "v" << i << " -= v" << j << "; ";
        REQUIRE(&(v[i] -= v[j]) == &v[i], "does not return the element itself");
        m[i] = add<Ring>(m[i], neg<Ring>(m[j]));
        check_module(i, s, "difference");
        return check("after -=");
      }
      case 2: {
        if (!product_ok(i, j)) return;
        c.log() << "v" << i << " *= v" << j << "; ";
        c.cls(i == j ? "square" : "product");
        const auto s = products(i, j);
        const bool zero = m[i].empty() || m[j].empty();
        REQUIRE(&(v[i] *= v[j]) == &v[i], "does not return the element itself");
        m[i] = mul<Ring>(m[i], Model<Ring>(m[j]));
        if (!zero) check_module(i, s, "product");
        return check("after *=");
      }
      case 3: {
        const auto s = sum(i, j);
        c.log() << "v" << k << " = v" << i << " + v" << j << "; ";
        const auto want = add<Ring>(m[i], m[j]);
        v[k] = v[i] + v[j];
        m[k] = want;
        check_module(k, s, "sum");
        return check("after +");
      }
      case 4: {
        const auto s = sum(i, j);
        c.log() << "v" << k << " = v" << i << " - v" << j << "; ";
        const auto want = add<Ring>(m[i], neg<Ring>(m[j]));
        v[k] = v[i] - v[j];
        m[k] = want;
        check_module(k, s, "difference");
        return check("after -");
      }
      case 5: {
        if (!product_ok(i, j)) return;
        c.log() << "v" << k << " = v" << i << " * v" << j << "; ";
        const auto s = products(i, j);
        const bool zero = m[i].empty() || m[j].empty();
        const auto want = mul<Ring>(m[i], m[j]);
        v[k] = v[i] * v[j];
        m[k] = want;
        if (!zero) check_module(k, s, "product");
        return check("after *");
      }
      case 6: {
        c.log() << "v" << k << " = -v" << i << "; ";
        const auto M = v[i].module();
        const auto want = neg<Ring>(m[i]);
        v[k] = -v[i];
        m[k] = want;
        REQUIRE(v[k].module() == M, "negation changed the module");
        return check("after negation");
      }
      case 7:
      case 8: {
        if (bits(i) > 2000) return;
        const bool divide = c.flip();
        switch (c.weighted({3, 1, 1, 1})) {
          case 0: with_native(c, gen_long(c), [&](auto s) { scalar(k, i, s, divide); }); break;
          case 1: scalar(k, i, gen_mpz(c, 60), divide); break;
          case 2: scalar(k, i, gen_mpq(c, 30), divide); break;
          default:
            if constexpr (std::is_same_v<Ring, NumberField>) {
              // Scalars that are not rational
              const auto s = W.gen_coefficient(30);
              c.log() << "v" << k << " = v" << i << (divide ? " / " : " * ") << s << "; ";
              c.cls("algebraic scalar");
              if (divide && s == 0) return;
              const auto want = scale<Ring>(m[i], W.lift(divide ? 1 / s : s));
              if (divide)
                v[k] = v[i] / s;
              else
                v[k] = c.flip() ? v[i] * s : s * v[i];
              m[k] = want;
            } else if constexpr (std::is_same_v<Ring, IntegerRing>) {
              // Divide by something that divides all the coefficients
              mpz_class g;
              for (auto& x : v[i].coefficients()) g = gcd(g, x);
              scalar(k, i, g, divide);
            }
        }
        return check("after an operation with a scalar");
      }
      case 9: {
        const Mono x = W.gen_mono(2);
        if (degree<Ring>(m[i]) + degree(x) > 6) return;
        c.log() << "v" << k << " = v" << i << " * " << str(x) << "; ";
        c.cls("multiply by real number");
        const Real r = W.real(x);
        std::set<Mono> s;
        for (auto& y : W.generators(*v[i].module())) {
          s.insert(x * y);
          W.real(x * y);
        }
        const auto want = mul<Ring>(m[i], Model<Ring>{{x, W.rational(1)}});
        const bool zero = m[i].empty();
        switch (c.draw(2)) {
          case 0: v[k] = v[i] * *r; break;
          case 1: v[k] = *r * v[i]; break;
          default: {
            E e = v[i];
            e *= *r;
            v[k] = e;
          }
        }
        m[k] = want;
        if (!zero) check_module(k, s, "product");
        return check("after * RealNumber");
      }
      case 10: {
        c.log() << "v" << k << " = v" << i << "; ";
        switch (c.draw(3)) {
          case 0: v[k] = v[i]; break;
          case 1: {
            E copy(v[i]);
            v[k] = std::move(copy);
            copy = v[i];
            v[k] = copy;
            break;
          }
          case 2: {
            // Also assign to what has been moved from
            if (i != k) {
              E moved(std::move(v[k]));
              v[k] = v[i];
              moved = std::move(v[k]);
              v[k] = std::move(moved);
            }
            break;
          }
          default: {
            E a(v[i]), b(v[k]);
            std::swap(a, b);
            v[k] = b;
          }
        }
        m[k] = Model<Ring>(m[i]);
        return check("after assignment");
      }
      case 11: {
        auto s = W.generators(*v[i].module());
        for (auto& x : W.gen_monos(2, 3)) s.insert(x);
        c.log() << "v" << i << ".promote(";
        for (auto& x : s) c.log() << str(x) << " ";
        c.log() << "); ";
        v[i].promote(W.module(s));
        check_module(i, s, "promoted element");
        return check("after promote");
      }
      default:
        c.log() << "v" << i << ".simplify(); ";
        v[i].simplify();
        return check("after simplify");
    }
  }
};

// Observe elements, in the same way again and again, in between operations that change them
template <typename Ring, typename F>
void observe(pbt::Case& c, F&& f) {
  Machine<Ring> machine(c);
  const int n = c.range(1, 10);
  size_t big = 0;
  for (int k = 0; k < n; k++) {
    const size_t i = c.draw(machine.v.size() - 1);
    c.log() << "observe v" << i << "; ";
    f(machine, i);
    machine.step();
    for (auto& x : machine.m) big = std::max(big, x.size());
  }
  for (size_t i = 0; i < machine.v.size(); i++) f(machine, i);
  c.nontrivial(n >= 3 && big >= 2);
}
}  // namespace ref
