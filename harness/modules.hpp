// Modules and their elements next to a model: polynomials in the random
// numbers of a pool with coefficients in the base ring.
#pragma once
#include <algorithm>
#include <map>
#include <set>

#include "../exact-real/element.hpp"
#include "../exact-real/integer_ring.hpp"
#include "../exact-real/module.hpp"
#include "../exact-real/number_field.hpp"
#include "../exact-real/rational_field.hpp"
#include "fields.hpp"
#include "reals.hpp"

namespace ref {
using eantic::renf_elem_class;
using exactreal::Element;
using exactreal::IntegerRing;
using exactreal::Module;
using exactreal::NumberField;
using exactreal::RationalField;

// A product of random numbers: their indices in the pool and exponents; empty for 1.
using Mono = std::map<size_t, int>;

inline Mono operator*(const Mono& a, const Mono& b) {
  Mono r = a;
  for (auto& [i, e] : b) r[i] += e;
  return r;
}
inline int degree(const Mono& m) {
  int d = 0;
  for (auto& [i, e] : m) d += e;
  return d;
}
inline std::string str(const Mono& m) {
  std::string s;
  for (auto& [i, e] : m) s += (s.empty() ? "x" : "*x") + std::to_string(i) + (e > 1 ? "^" + std::to_string(e) : "");
  return s.empty() ? "1" : s;
}

// A coefficient, exactly: a rational for ℤ and ℚ; an element of the number field otherwise
template <typename Ring>
using Coeff = std::conditional_t<std::is_same_v<Ring, NumberField>, renf_elem_class, mpq_class>;

template <typename Ring>
using Model = std::map<Mono, Coeff<Ring>>;

template <typename Ring>
Model<Ring> trim(Model<Ring> m) {
  for (auto it = m.begin(); it != m.end();)
    it = it->second == 0 ? m.erase(it) : std::next(it);
  return m;
}
template <typename Ring>
Model<Ring> add(Model<Ring> a, const Model<Ring>& b) {
  for (auto& [m, c] : b) {
    auto [it, fresh] = a.emplace(m, c);
    if (!fresh) it->second = it->second + c;
  }
  return trim<Ring>(std::move(a));
}
template <typename Ring>
Model<Ring> scale(Model<Ring> a, const Coeff<Ring>& s) {
  for (auto& [m, c] : a) c = c * s;
  return trim<Ring>(std::move(a));
}
template <typename Ring>
Model<Ring> neg(Model<Ring> a) {
  for (auto& [m, c] : a) c = -c;
  return a;
}
template <typename Ring>
Model<Ring> mul(const Model<Ring>& a, const Model<Ring>& b) {
  Model<Ring> r;
  for (auto& [m, c] : a)
    for (auto& [n, d] : b) {
      const Coeff<Ring> p = c * d;
      auto [it, fresh] = r.emplace(m * n, p);
      if (!fresh) it->second = it->second + p;
    }
  return trim<Ring>(std::move(r));
}
template <typename Ring>
int degree(const Model<Ring>& a) {
  int d = 0;
  for (auto& [m, c] : a) d = std::max(d, degree(m));
  return d;
}
// The largest monomial with respect to the lexicographic order of exponents, and its coefficient
template <typename Ring>
const std::pair<const Mono, Coeff<Ring>>& leading(const Model<Ring>& a) {
  auto less = [](const Mono& x, const Mono& y) {
    auto at = [](const Mono& m, size_t i) { auto it = m.find(i); return it == m.end() ? 0 : it->second; };
    for (size_t i = 0; i < 16; i++)
      if (at(x, i) != at(y, i)) return at(x, i) < at(y, i);
    return false;
  };
  auto best = a.begin();
  for (auto it = a.begin(); it != a.end(); it++)
    if (less(best->first, it->first)) best = it;
  return *best;
}
inline std::optional<Mono> divide(const Mono& a, const Mono& b) {
  Mono r = a;
  for (auto& [i, e] : b) {
    if (r.find(i) == r.end() || r[i] < e) return std::nullopt;
    if ((r[i] -= e) == 0) r.erase(i);
  }
  return r;
}
// Exact division of polynomials over the field of fractions of the ring
template <typename Ring>
std::optional<Model<Ring>> divide(Model<Ring> a, const Model<Ring>& b) {
  Model<Ring> quotient;
  while (!a.empty()) {
    const auto [m, c] = leading<Ring>(a);
    const auto& [n, d] = leading<Ring>(b);
    const auto q = divide(m, n);
    if (!q) return std::nullopt;
    const Coeff<Ring> e = c / d;
    quotient = add<Ring>(quotient, {{*q, e}});
    a = add<Ring>(a, mul<Ring>({{*q, Coeff<Ring>(-e)}}, b));
    if (a.find(m) != a.end()) throw std::logic_error("reference division is wrong");
  }
  return quotient;
}

template <typename Ring>
struct World {
  using M = std::shared_ptr<const Module<Ring>>;
  using E = Element<Ring>;
  using Elem = typename Ring::ElementClass;
  using Q = Coeff<Ring>;

  pbt::Case& c;
  Pool P;
  Field field;
  boost::intrusive_ptr<const eantic::renf_class> K;
  // The precision of enclosures
  long precision = HIGH;
  std::map<const RealNumber*, Mono> known;
  std::map<Mono, Real> reals;

  bool mixed = true;
  // In one out of how many modules there are many generators (or never.)
  int many = 0, many_max = 70;

  World(pbt::Case& c, int n, int many = 0, int many_max = 70) : c(c), P(c, n, true, true), many(many), many_max(many_max) {
    if constexpr (std::is_same_v<Ring, NumberField>) {
      field = gen_field(c);
      K = field.make();
      c.log() << field.polynomial << " ";
      c.cls("number field");
    } else
      c.cls(std::is_same_v<Ring, IntegerRing> ? "integers" : "rationals");
  }

  Ring ring() const {
    if constexpr (std::is_same_v<Ring, NumberField>)
      return NumberField(K);
    else
      return {};
  }
  // The number for a monomial
  const Real& real(const Mono& m) {
    auto it = reals.find(m);
    if (it != reals.end()) return it->second;
    Real r = RealNumber::rational(1);
    for (auto& [i, e] : m)
      for (int k = 0; k < e; k++) r = *r * *P.reals[i];
    known[&*r] = m;
    return reals[m] = r;
  }
  Mono gen_mono(int maxdegree) {
    if (P.reals.empty() || c.chance(1, 4)) return {};
    return P.gen_factors(maxdegree);
  }
  std::set<Mono> gen_monos(int maxrank, int maxdegree) {
    std::set<Mono> s;
    if (many && !P.reals.empty() && c.chance(1, many)) {
      const size_t n = c.flip() ? c.range(6, std::min(20, many_max)) : c.range(6, many_max);
      c.cls("many generators");
      // The degree such that there are sufficiently many of these
      int d = 1;
      for (double count = 1; d < 2 || count < 3. * static_cast<double>(n); d++) count *= static_cast<double>(P.bases.size() + static_cast<size_t>(d)) / d;
      for (size_t i = 0; i < 5 * n && s.size() < n; i++) s.insert(gen_mono(d));
      return s;
    }
    const int n = c.range(0, maxrank);
    for (int i = 0; i < n; i++) s.insert(gen_mono(maxdegree));
    return s;
  }
  M module(const std::set<Mono>& s, const Ring& ring) {
    std::vector<Real> basis;
    for (auto& m : s) basis.insert(basis.begin() + (basis.empty() ? 0 : c.draw(basis.size())), real(m));
    return Module<Ring>::make(basis, ring);
  }
  M module(const std::set<Mono>& s) { return module(s, ring()); }
  // A module with up to maxrank generators
  M gen_module(int maxrank = 4, int maxdegree = 2) {
    const auto s = gen_monos(maxrank, maxdegree);
    c.log() << "<";
    for (auto& m : s) c.log() << str(m) << " ";
    c.log() << ">";
    return module(s, gen_ring());
  }
  // The ring or, for number fields, sometimes the rationals as a number field
  Ring gen_ring() {
    if constexpr (std::is_same_v<Ring, NumberField>)
      if (mixed && c.chance(1, 5)) {
        c.log() << "over QQ ";
        c.cls("number field and rationals");
        return NumberField();
      }
    return ring();
  }
  // Get to know all products of up to seven random numbers
  void learn() {
    std::set<Mono> level{Mono{}};
    for (int d = 0; d < 8; d++) {
      std::set<Mono> next;
      for (auto& m : level) {
        real(m);
        for (size_t i = m.empty() ? 0 : m.rbegin()->first; i < P.reals.size(); i++) next.insert(m * Mono{{i, 1}});
      }
      level = next;
    }
  }
  // Get to know a product of many random numbers
  void factor(const RealNumber& x) {
    Mono m;
    Real rest = x.shared_from_this();
    for (size_t i = 0; i < P.reals.size(); i++)
      while (auto q = *rest / *P.reals[i]) {
        m[i]++;
        rest = *q;
      }
    real(m);
  }
  // The generators of a module
  std::vector<Mono> monos(const Module<Ring>& m) {
    std::vector<Mono> r;
    for (auto& b : m.basis()) {
      if (!known.count(&*b)) learn();
      if (!known.count(&*b)) factor(*b);
      REQUIRE(known.count(&*b), "unexpected generator " << *b);
      r.push_back(known[&*b]);
    }
    return r;
  }
  std::set<Mono> generators(const Module<Ring>& m) {
    const auto v = monos(m);
    return {v.begin(), v.end()};
  }
  Q lift(const Elem& x) const {
    if constexpr (std::is_same_v<Ring, NumberField>)
      return x.parent() == *K ? x : renf_elem_class(*K, static_cast<mpq_class>(x));
    else
      return x;
  }
  Q rational(const mpq_class& x) const {
    if constexpr (std::is_same_v<Ring, NumberField>)
      return renf_elem_class(*K, x);
    else
      return x;
  }
  Model<Ring> value(const E& e) {
    Model<Ring> r;
    const auto coefficients = e.coefficients();
    const auto gens = monos(*e.module());
    REQUIRE(coefficients.size() == gens.size(), "number of coefficients does not match the rank");
    for (size_t i = 0; i < gens.size(); i++) r[gens[i]] = lift(coefficients[i]);
    return trim<Ring>(r);
  }
  Elem gen_coefficient(long bits = 40) {
    if constexpr (std::is_same_v<Ring, IntegerRing>)
      return gen_mpz(c, bits);
    else if constexpr (std::is_same_v<Ring, RationalField>)
      return gen_mpq(c, bits);
    else
      return element(*K, gen_coefficients(c, field, bits));
  }
  Elem small(long v) const {
    if constexpr (std::is_same_v<Ring, NumberField>)
      return renf_elem_class(*K, v);
    else
      return Elem(v);
  }
  Elem gen_element_coefficient() {
    switch (c.weighted({12, 12, 16, 4, 1})) {
      case 0: return small(c.around(1));
      case 1: return small(c.around(20));
      case 2: return gen_coefficient(30);
      case 3: return gen_coefficient(150);
      default: {
        // Not in the range of doubles
        Elem x = gen_coefficient(30);
        const mpz_class scale = shl(1, c.range(1000, 2500));
        if constexpr (std::is_same_v<Ring, IntegerRing>)
          x *= scale;
        else if (c.flip())
          x *= rational(scale);
        else
          x /= rational(scale);
        return x;
      }
    }
  }
  // A coefficient of an element of a module
  Elem gen_element_coefficient(const M& m) {
    if constexpr (std::is_same_v<Ring, NumberField>)
      if (m->ring() != ring()) return renf_elem_class(gen_mpq(c, 30));
    return gen_element_coefficient();
  }
  E gen_element(const M& m) {
    std::vector<Elem> coefficients;
    c.log() << "(";
    for (int i = 0; i < m->rank(); i++) {
      coefficients.push_back(gen_element_coefficient(m));
      c.log() << coefficients.back() << " ";
    }
    c.log() << ")";
    return E(m, coefficients);
  }
  E gen_element(int maxrank = 4, int maxdegree = 2) { return gen_element(gen_module(maxrank, maxdegree)); }

  // An enclosure of a coefficient
  En enclose(const Q& x) const {
    if constexpr (std::is_same_v<Ring, NumberField>) {
      static std::map<std::tuple<std::string, bool, long>, std::pair<mpq_class, mpq_class>> roots;
      const std::tuple<std::string, bool, long> key{field.polynomial, field.negative, precision};
      if (roots.size() > 64) roots.clear();
      if (!roots.count(key)) roots[key] = generator(field, precision);
      const auto [lo, hi] = evaluate(coefficients(x), roots[key]);
      return {lo, hi};
    } else
      return {x, x};
  }
  En enclose(const Model<Ring>& x) {
    En r{0, 0};
    for (auto& [m, k] : x) {
      En t = enclose(k);
      for (auto& [i, e] : m)
        for (int j = 0; j < e; j++) t = t * P.enclose(i, precision);
      r = r + t;
    }
    return r;
  }
  // The sign, or 2 if not determined
  int sign(const Model<Ring>& x) {
    if (x.empty()) return 0;
    const En e = enclose(x);
    return e.lo > 0 ? 1 : e.hi < 0 ? -1 : 2;
  }
  // The value if it is rational
  std::optional<mpq_class> as_rational(const Model<Ring>& x) const {
    if (x.empty()) return mpq_class(0);
    if (x.size() > 1 || !x.begin()->first.empty()) return std::nullopt;
    if constexpr (std::is_same_v<Ring, NumberField>) {
      if (!x.begin()->second.is_rational()) return std::nullopt;
      return static_cast<mpq_class>(x.begin()->second);
    } else
      return x.begin()->second;
  }
};

template <typename Ring>
std::string str(const Model<Ring>& x) {
  std::ostringstream os;
  for (auto& [m, c] : x) os << (os.str().empty() ? "" : " + ") << c << "*" << str(m);
  return os.str().empty() ? "0" : os.str();
}

// Call f with one of the rings
template <typename F>
void with_ring(pbt::Case& c, F&& f) {
  switch (c.draw(2)) {
    case 0: return f(IntegerRing());
    case 1: return f(RationalField());
    default: return f(NumberField());
  }
}

inline mpz_class floor(const mpq_class& x) {
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
  return r;
}
inline mpz_class ceil(const mpq_class& x) {
  mpz_class r;
  mpz_cdiv_q(r.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
  return r;
}

// Call f with a machine integer
template <typename F>
void with_native(pbt::Case& c, long v, F&& f) {
  switch (c.draw(7)) {
    case 0: c.cls("int"); return f(static_cast<int>(v));
    case 1: c.cls("short"); return f(static_cast<short>(v));
    case 2: c.cls("unsigned short"); return f(static_cast<unsigned short>(v));
    case 3: c.cls("unsigned int"); return f(static_cast<unsigned int>(v));
    case 4: c.cls("long"); return f(v);
    case 5: c.cls("unsigned long"); return f(static_cast<unsigned long>(v));
    case 6: c.cls("long long"); return f(static_cast<long long>(v));
    default: c.cls("unsigned long long"); return f(static_cast<unsigned long long>(v));
  }
}
template <typename T>
mpq_class exact(const T& v) {
  if constexpr (std::is_same_v<T, mpz_class> || std::is_same_v<T, mpq_class>)
    return mpq_class(v);
  else
    return mpq_class(std::to_string(v));
}
}  // namespace ref
