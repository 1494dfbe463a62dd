// Generators and reference enclosures for real numbers.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <vector>

#include "../exact-real/real_number.hpp"
#include "../exact-real/seed.hpp"
#include "balls.hpp"

namespace ref {
// A precision far beyond what is asked for, and not a multiple of 64.
constexpr long HIGH = 1789;

using exactreal::RealNumber;
using exactreal::Seed;
using Real = std::shared_ptr<const RealNumber>;

// An interval with rational end points
struct En {
  mpq_class lo, hi;
};
inline std::ostream& operator<<(std::ostream& os, const En& e) { return os << "[" << e.lo.get_d() << ", " << e.hi.get_d() << "]"; }
inline En operator*(const En& a, const En& b) {
  mpq_class p[] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  En r{p[0], p[0]};
  for (auto& x : p) {
    if (x < r.lo) r.lo = x;
    if (x > r.hi) r.hi = x;
  }
  return r;
}
inline En operator+(const En& a, const En& b) { return {a.lo + b.lo, a.hi + b.hi}; }
inline En operator*(const mpq_class& a, const En& b) { return En{a, a} * b; }

// What a factory function of RealNumber was asked for.
struct Base {
  enum Kind { UNIT, INTERVAL, DOUBLE } kind;
  unsigned int seed;
  Dy a, b;
  double d = 0;
  Real make() const {
    switch (kind) {
      case UNIT: return RealNumber::random(Seed(seed));
      case INTERVAL: return RealNumber::random(arf(a), arf(b), Seed(seed));
      default: return RealNumber::random(d, Seed(seed));
    }
  }
  bool operator==(const Base& o) const { return kind == o.kind && seed == o.seed && a == o.a && b == o.b && !std::memcmp(&d, &o.d, 8); }
};
inline std::ostream& operator<<(std::ostream& os, const Base& b) {
  switch (b.kind) {
    case Base::UNIT: return os << "random(" << b.seed << ")";
    case Base::INTERVAL: return os << "random(" << b.a << ", " << b.b << ", " << b.seed << ")";
    default: return os << "random(" << std::hexfloat << b.d << std::defaultfloat << ", " << b.seed << ")";
  }
}

inline Base gen_base(pbt::Case& c, bool tame = false) {
  Base b;
  b.seed = c.chance(1, 6) ? static_cast<unsigned>(c.draw(UINT32_MAX)) : static_cast<unsigned>(c.draw(12));
  switch (c.weighted({5, 3, 2})) {
    case 0: b.kind = Base::UNIT; break;
    case 1: {
      b.kind = Base::INTERVAL;
      b.a = gen_dy(c, tame ? 20 : 100, tame ? 10 : 100);
      switch (c.weighted({2, 2, 1})) {
        case 0: b.b = add(b.a, Dy(1 + c.draw(5), c.around(4))); break;
        case 1:
          b.b = gen_dy(c, tame ? 20 : 100, tame ? 10 : 100);
          if (b.a == b.b) b.b = add(b.a, Dy(1, 0));
          if (cmp(b.a, b.b) > 0) std::swap(b.a, b.b);
          break;
        default:
          b.b = add(b.a, Dy(1, b.a.zero() ? mpz_class(-30) : mpz_class(b.a.lead() - c.range(0, tame ? 20 : 150))));
      }
      break;
    }
    default:
      b.kind = Base::DOUBLE;
      if (tame)
        b.d = static_cast<double>(c.around(1 << 20)) / 1024 + 1. / 4096;
      else {
        b.d = gen_double(c);
        // Extreme doubles are exercised by random_close_to_double.
        if (!(std::fabs(b.d) > 1e-200 && std::fabs(b.d) < 1e200)) b.d = 1.5;
      }
  }
  return b;
}

// A real number next to what we know about it: a rational, or a product of
// random numbers (given by their index in the pool.)
struct Num {
  Real p;
  std::optional<mpq_class> rational;
  std::map<size_t, int> factors;
  bool operator==(const Num& o) const { return rational == o.rational && factors == o.factors; }
};

struct Pool {
  pbt::Case& c;
  std::vector<Base> bases;
  std::vector<Real> reals;
  std::map<std::pair<size_t, long>, En> cache;

  static bool scaled(const Dy& a, const Dy& b) { return a.m == b.m; }
  // With independent, there are no relations with rational coefficients between the numbers.
  Pool(pbt::Case& c, int n, bool tame = false, bool independent = false) : c(c) {
    for (int i = 0; i < n; i++) {
      Base b = gen_base(c, tame);
      if (i && c.chance(1, 8)) {
        // A number that is the same as an earlier one as a double
        b.kind = Base::DOUBLE;
        b.d = static_cast<double>(*reals[c.draw(reals.size() - 1)]);
        c.cls("two numbers with the same double");
      }
      if (independent) b.seed = 16 * (b.seed / 16) + static_cast<unsigned>(i);
      Real r = b.make();
      bool fresh = true;
      for (auto& x : reals) fresh = fresh && x != r;
      // Numbers with the same seed can be scaled versions of each other (see products_of_scaled_numbers.)
      for (size_t j = 0; fresh && j < bases.size(); j++)
        if (bases[j].seed == b.seed && scaled(dy(reals[j]->arf(200)), dy(r->arf(200)))) fresh = false;
      if (!fresh) continue;
      c.log() << "x" << bases.size() << "=" << b << " ";
      bases.push_back(b);
      reals.push_back(r);
    }
  }
  // The value of a random number up to a relative error of about 2^-p.
  const En& enclose(size_t i, long p) {
    auto it = cache.find({i, p});
    if (it != cache.end()) return it->second;
    // Deliberately not one of the precisions asked for elsewhere.
    const mpq_class m = q(dy(reals[i]->arf(p)));
    const mpq_class err = abs(m) / mpq_class(shl(1, p - 1));
    return cache[{i, p}] = En{m - err, m + err};
  }
  En enclose(const Num& n, long p) {
    if (n.rational) return {*n.rational, *n.rational};
    int degree = 0;
    for (auto& [i, e] : n.factors) degree += e;
    En r{1, 1};
    if (degree < 20) {
      for (auto& [i, e] : n.factors)
        for (int k = 0; k < e; k++) r = r * enclose(i, p);
      return r;
    }
    // Round outwards, or this would take very long.
    const long prec = p + 40;
    std::function<En(size_t, int)> power = [&](size_t i, int e) -> En {
      if (e == 1) return enclose(i, prec);
      const En x = power(i, e / 2);
      const En y = round(x * x, prec);
      return e % 2 ? round(y * enclose(i, prec), prec) : y;
    };
    for (auto& [i, e] : n.factors) r = round(r * power(i, e), prec);
    return r;
  }
  static En round(const En& x, long prec) {
    auto down = [&](const mpq_class& v) -> mpq_class {
      if (v == 0) return v;
      // The numerator and the denominator of an enclosure of 2^k * v
      const long k = prec + static_cast<long>(mpz_sizeinbase(v.get_den_mpz_t(), 2)) - static_cast<long>(mpz_sizeinbase(v.get_num_mpz_t(), 2));
      mpz_class n = v.get_num(), d = v.get_den();
      if (k >= 0)
        n <<= k;
      else
        d <<= -k;
      mpz_class f;
      mpz_fdiv_q(f.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
      return k >= 0 ? mpq_class(mpq_class(f) / mpq_class(shl(1, k))) : mpq_class(mpq_class(f) * mpq_class(shl(1, -k)));
    };
    return {down(x.lo), mpq_class(-down(mpq_class(-x.hi)))};
  }
  Num base(size_t i) { return {reals[i], {}, {{i, 1}}}; }
  // A product of the given factors, multiplied in random order and with random parentheses
  Num product(const std::map<size_t, int>& factors) {
    std::vector<Real> parts;
    for (auto& [i, e] : factors) {
      // Powers of high degree are built by repeated squaring.
      Real square = reals[i];
      int k = e;
      for (; k > 20; k /= 2) {
        if (k % 2) parts.push_back(square);
        square = *square * *square;
      }
      for (; k; k--) parts.push_back(square);
    }
    if (parts.empty()) return {RealNumber::rational(1), mpq_class(1), {}};
    while (parts.size() > 1) {
      const size_t i = c.draw(parts.size() - 1);
      size_t j = c.draw(parts.size() - 2);
      if (j >= i) j++;
      parts[i] = *parts[i] * *parts[j];
      parts.erase(parts.begin() + j);
    }
    return {parts[0], {}, factors};
  }
  std::map<size_t, int> gen_factors(int maxdegree, bool high = false) {
    std::map<size_t, int> f;
    const int n = c.range(1, maxdegree);
    for (int i = 0; i < n; i++) f[c.draw(bases.size() - 1)]++;
    if (high && c.chance(1, 40)) {
      // A few factors are raised to a high power.
      c.cls("high degree");
      for (auto& [i, e] : f)
        if (c.flip()) e = c.flip() ? (1 << c.range(4, 10)) + c.range(-2, 2) : c.range(10, 1000);
    }
    return f;
  }
  Num gen(int maxdegree = 4, bool rationals = true) {
    if (rationals && c.chance(1, 4)) {
      const mpq_class r = gen_mpq(c, 100);
      c.log() << "rational " << r << " ";
      return {RealNumber::rational(r), r, {}};
    }
    if (c.chance(1, 2)) {
      const size_t i = c.draw(bases.size() - 1);
      c.log() << "x" << i << " ";
      return base(i);
    }
    const auto f = gen_factors(maxdegree, maxdegree >= 4);
    c.log() << "product";
    for (auto& [i, e] : f) c.log() << " x" << i << "^" << e;
    c.log() << " ";
    return product(f);
  }
};

// How the real number compares with x: -1, 0, 1; or 2 if the enclosure is not good enough.
inline int cmp(const En& v, const Dy& x) {
  if (cmp(v.hi, x) < 0) return -1;
  if (cmp(v.lo, x) > 0) return 1;
  if (v.lo == v.hi) return 0;
  return 2;
}
inline int cmp(const En& v, const mpq_class& x) {
  if (v.hi < x) return -1;
  if (v.lo > x) return 1;
  if (v.lo == v.hi) return 0;
  return 2;
}
inline const char* kind(const Num& n) { return n.rational ? "rational" : n.factors.size() == 1 && n.factors.begin()->second == 1 ? "random" : "product"; }
// Check all comparison operators; want is -1, 0, 1.
template <typename L, typename R>
void ordered(const L& a, const R& b, int want, const char* what) {
#define CHECK(op) REQUIRE((a op b) == (want op 0), what << " " #op " is " << (a op b))
  CHECK(<);
  CHECK(<=);
  CHECK(>);
  CHECK(>=);
  CHECK(==);
  CHECK(!=);
#undef CHECK
#define CHECK(op) REQUIRE((b op a) == (0 op want), what << " reversed " #op " is " << (b op a))
  CHECK(<);
  CHECK(<=);
  CHECK(>);
  CHECK(>=);
  CHECK(==);
  CHECK(!=);
#undef CHECK
}
}  // namespace ref
