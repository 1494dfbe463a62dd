// Properties of elements as numbers: order and approximations (E04), equality
// and coefficients (E05), and printing (E06).
#include <boost/lexical_cast.hpp>
#include <boost/numeric/conversion/cast.hpp>
#include <unordered_set>

#include "elsewhere.hpp"
#include "machine.hpp"

using namespace ref;

#define FOR_ALL_RINGS(f) with_ring(c, [&](auto ring) { f<decltype(ring)>(c); })

namespace {
mpz_class pow2(long k) { return shl(1, static_cast<unsigned long>(k)); }

template <typename Ring>
Model<Ring> minus(const World<Ring>& W, const Model<Ring>& a, const mpq_class& s) {
  return add<Ring>(a, {{Mono{}, W.rational(-s)}});
}
template <typename Ring>
Element<Ring> constant(World<Ring>& W, const mpz_class& n) {
  typename Ring::ElementClass v = W.small(1);
  v = v * n;
  return Element<Ring>(W.module({Mono{}}), {v});
}
// An element of which the enclosure is not zero
template <typename Ring>
Element<Ring> nonzero(pbt::Case& c, World<Ring>& W, int maxrank, int maxdegree) {
  auto e = W.gen_element(maxrank, maxdegree);
  if (!e && c.chance(19, 20)) {
    const auto m = W.gen_mono(maxdegree);
    c.log() << "replaced by " << str(m) << " ";
    e = Element<Ring>(W.module({m}), {W.small(1)});
  }
  return e;
}
// Do the values agree in several digits without being the same
bool agree(const En& a, const En& b) { return abs(a.lo - b.lo) * 100000 < abs(a.lo); }
}  // namespace

// ---------------------------------------------------------------- E04
namespace {
template <typename Ring>
void order(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  auto a = nonzero(c, W, 4, 2);
  Element<Ring> b;
  switch (c.weighted({3, 2, 4, 4, 2})) {
    case 0: b = W.gen_element(4, 2); break;
    case 1: {
      // The same element in another module
      b = a;
      auto s = W.generators(*a.module());
      for (auto& m : W.gen_monos(3, 2)) s.insert(m);
      b.promote(W.module(s));
      c.log() << "same";
      break;
    }
    case 2: {
      // A rational that agrees in many digits
      const long k = c.range(1, 700);
      a *= pow2(k);
      const En v = W.enclose(W.value(a));
      const mpz_class n = floor(v.lo) + c.around(1);
      c.log() << "scaled by 2^" << k << " and compared to its integer part or one next to it";
      b = constant(W, n);
      if (c.flip()) b += W.gen_element(W.module({W.gen_mono(2)}));
      break;
    }
    case 3: {
      // Another element that agrees in many digits
      const long k = c.range(1, 700);
      a *= pow2(k);
      c.log() << "scaled by 2^" << k << " plus ";
      b = a + W.gen_element(2, 2);
      break;
    }
    default: {
      // Different multiples of products of random numbers
      auto y = nonzero(c, W, 3, 2);
      const long k = c.range(1, 400);
      const En v = W.enclose(W.value(a)), w = W.enclose(W.value(y));
      if (v.lo <= 0 == v.hi >= 0 || w.lo <= 0 == w.hi >= 0) throw pbt::Discard{};
      const mpz_class n = floor(v.lo / w.lo * pow2(k)) + c.around(1);
      a *= pow2(k);
      b = y * n;
      c.log() << "scaled by 2^" << k << " and compared to a multiple of ";
    }
  }
  const auto x = W.value(a), y = W.value(b);
  const int want = W.sign(add<Ring>(x, neg<Ring>(y)));
  if (want == 2) throw pbt::Discard{};
  c.cls(want ? "different" : "equal");
  c.nontrivial(agree(W.enclose(x), W.enclose(y)) && x.size() + y.size() >= 2);
  ordered(a, b, want, "comparison of elements");
}

template <typename Ring>
void order_with_scalars(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  auto a = W.gen_element(3, 2);
  const bool elsewhere = c.chance(1, 6);
  const pbt::Locale locale(elsewhere);
  if (elsewhere) c.cls("another locale");
  auto check = [&](const auto& s) {
    const mpq_class v = exact(s);
    c.log() << " compared to " << v;
    const auto d = minus(W, W.value(a), v);
    const int want = W.sign(d);
    if (want == 2) throw pbt::Discard{};
    c.cls(want ? "different" : "equal");
    c.nontrivial(agree(W.enclose(W.value(a)), En{v, v}));
    ordered(a, s, want, "comparison with a scalar");
  };
  switch (c.weighted({4, 3, 3})) {
    case 0: {
      const long n = gen_long(c);
      c.log() << " plus " << n;
      return with_native(c, n, [&](auto s) {
        const auto d = c.chance(1, 3) ? W.gen_element(W.module({W.gen_mono(1)})) : Element<Ring>();
        a = d + constant(W, exact(s).get_num() + c.around(1));
        check(s);
      });
    }
    case 1: {
      const long k = c.range(0, 600);
      a *= pow2(k);
      const mpz_class n = floor(W.enclose(W.value(a)).lo) + c.around(1);
      c.log() << " scaled by 2^" << k;
      c.cls("mpz");
      return check(n);
    }
    default: {
      c.cls("mpq");
      const mpz_class d = 1 + abs(gen_mpz(c, 200));
      mpq_class r(floor(W.enclose(W.value(a)).lo * d) + c.around(1), d);
      r.canonicalize();
      return check(r);
    }
  }
}

// Elements that agree with a scalar in thousands of bits
template <typename Ring>
void many_digits(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  W.precision = c.pick(std::vector<long>{3001, 6007, 14009});
  auto a = nonzero(c, W, 3, 2);
  const long k = W.precision - 600 - c.range(0, W.precision / 3);
  a *= pow2(k);
  const mpz_class n = floor(W.enclose(W.value(a)).lo);
  c.log() << " scaled by 2^" << k;
  const bool exact = W.as_rational(W.value(a)).has_value();
  c.nontrivial(!exact);
  c.cls(std::string(exact ? "rational" : "irrational") + " to " + std::to_string(k / 1000) + "000 bits");
  // The integer part has been determined exactly from the enclosure, unless the element is an integer.
  const int l = W.sign(minus(W, W.value(a), n)), u = W.sign(minus(W, W.value(a), n + 1));
  if (l == 2 || u == 2 || l < 0 || u > 0) throw pbt::Discard{};
  switch (c.draw(7)) {
    case 0:
      c.log() << " compared to its integer part";
      ordered(a, n, l, "comparison with the integer part");
      break;
    case 1:
      c.log() << " compared to the next integer";
      ordered(a, mpz_class(n + 1), u, "comparison with the next integer");
      break;
    case 2:
      c.log() << " compared to an element";
      ordered(a, constant(W, n), l, "comparison with an element");
      break;
    case 3:
      c.log() << " minus its integer part";
      a -= constant(W, n);
      ordered(a, 0, l, "comparison with 0");
      ordered(a, 1, u, "comparison with 1");
      REQUIRE(a.floor() == 0 || (u == 0 && a.floor() == 1), "floor is " << a.floor());
      REQUIRE(a.ceil() == 1 || (l == 0 && a.ceil() == 0), "ceil is " << a.ceil());
      break;
    case 4: {
      c.log() << " rounded";
      const mpz_class f = a.floor(), g = a.ceil();
      REQUIRE(f == (u == 0 ? n + 1 : n), "floor is off by " << f - n);
      REQUIRE(g == (l == 0 ? n : n + 1), "ceil is off by " << g - n);
      break;
    }
    case 5: {
      const long p = c.range(300, k);
      c.log() << " to " << p << " bits";
      const Ball v = ball(a.arb(p));
      const En w = W.enclose(W.value(a));
      REQUIRE(cmp(w.hi, v.lo()) >= 0 && cmp(w.lo, v.hi()) <= 0, v << " does not contain the element " << w);
      if (!v.rad.zero()) REQUIRE(!v.mid.zero() && v.mid.lead() - v.rad.lead() - 1 >= p, "accuracy of " << v << " is less than " << p);
      break;
    }
    case 6: {
      // Close to a tie (and slightly above)
      const mpz_class t = (2 * (pow2(52) + c.draw((1ull << 52) - 1)) + 1) * (c.flip() ? 1 : -1);
      a -= constant(W, n);
      if (W.value(a).empty()) break;
      long far = 300;
      if constexpr (!std::is_same_v<Ring, IntegerRing>) {
        a /= pow2(k);
        far = 0;
      }
      a += constant(W, t * pow2(far));
      c.log() << " minus its integer part, scaled, plus " << t << "*2^" << far;
      const mpz_class above = t * pow2(far + 100) + 1;
      const double want = to_double(above, pow2(100), 0), got = static_cast<double>(a);
      REQUIRE(got == want, "closest double is " << std::hexfloat << got << " instead of " << want);
      break;
    }
    default: {
      a -= constant(W, n);
      const long p = c.range(1, 300);
      c.log() << " minus its integer part to " << p << " bits";
      const Ball v = ball(a.arb(p));
      const En w = W.enclose(W.value(a));
      if (W.value(a).empty()) break;
      REQUIRE(cmp(w.hi, v.lo()) >= 0 && cmp(w.lo, v.hi()) <= 0, v << " does not contain the element " << w);
      if (!v.rad.zero()) REQUIRE(!v.mid.zero() && v.mid.lead() - v.rad.lead() - 1 >= p, "accuracy of " << v << " is less than " << p);
    }
  }
}

template <typename Ring>
void order_with_generators(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  auto s = W.gen_monos(4, 2);
  s.insert(W.gen_mono(2));
  const auto M = W.module(s);
  auto g = s.begin();
  std::advance(g, c.draw(s.size() - 1));
  std::vector<typename Ring::ElementClass> coefficients;
  for (long i = 0; i < M->rank(); i++) {
    coefficients.push_back(c.chance(2, 3) ? W.small(0) : c.flip() ? W.small(c.around(1)) : W.gen_element_coefficient());
    if (M->basis()[i] == W.real(*g) && c.flip()) coefficients[i] = W.small(1);
  }
  const Element<Ring> a(M, coefficients);
  const auto x = W.value(a);
  c.log() << str<Ring>(x) << " compared to " << str(*g);
  c.nontrivial(M->rank() >= 2 && x.size() == 1);
  const int want = W.sign(add<Ring>(x, {{*g, W.rational(-1)}}));
  if (want == 2) throw pbt::Discard{};
  c.cls(want ? "different" : "equal");
  ordered(a, *W.real(*g), want, "comparison with a generator");
}

template <typename Ring>
void integer_parts(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  auto a = W.gen_element(4, 2);
  switch (c.weighted({2, 4, 3})) {
    case 0: break;
    case 1: {
      // Close to an integer
      const long k = c.range(1, 600);
      const mpz_class n = floor(W.enclose(W.value(a)).lo * pow2(k)) + c.around(1), t = gen_mpz(c, 100);
      a *= pow2(k);
      a -= constant(W, n);
      c.log() << " scaled by 2^" << k << " minus its integer part or one next to it";
      if constexpr (!std::is_same_v<Ring, IntegerRing>) {
        a /= pow2(k + c.range(0, 100));
        a += constant(W, t);
        c.log() << " scaled back plus " << t;
      }
      break;
    }
    default: {
      c.log() << " an integer or rational";
      a = constant(W, gen_mpz(c, 200));
      if constexpr (!std::is_same_v<Ring, IntegerRing>)
        if (c.flip()) a /= static_cast<long>(c.range(1, 10));
    }
  }
  const auto x = W.value(a);
  const mpz_class f = a.floor(), g = a.ceil();
  const auto v = W.enclose(x);
  c.nontrivial(!x.empty() && abs(v.lo - (floor(v.lo + mpq_class(1, 2)))) < mpq_class(1, 1000) * (abs(v.lo) + 1));
  const int lower = W.sign(minus(W, x, f)), upper = W.sign(minus(W, x, f + 1));
  if (lower == 2 || upper == 2) throw pbt::Discard{};
  REQUIRE(lower >= 0 && upper < 0, "floor is " << f);
  const int l = W.sign(minus(W, x, g - 1)), u = W.sign(minus(W, x, g));
  if (l == 2 || u == 2) throw pbt::Discard{};
  REQUIRE(l > 0 && u <= 0, "ceil is " << g);
  c.cls(lower == 0 ? "integer" : "not an integer");
}

template <typename Ring>
void nearest_double(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  auto a = W.gen_element(3, 2);
  // A double that is a tie or close to one
  auto tie = [&]() {
    mpz_class n = (pow2(53) + c.draw((1ull << 52) - 1)) + c.around(2);
    if (c.flip()) n = 2 * n + c.around(1);
    if (c.flip()) n = -n;
    return n;
  };
  switch (c.weighted({2, 4, 3, 1})) {
    case 0: break;
    case 1: {
      // The difference is far below the last bit
      const long k = c.range(0, 400);
      const mpz_class n = tie() * pow2(k) * 2;
      a = c.flip() ? a + constant(W, n) : constant(W, n + c.around(1));
      c.log() << " plus " << n;
      if constexpr (!std::is_same_v<Ring, IntegerRing>) {
        const long l = c.weighted({3, 1}) ? c.range(1000, 1500) : c.range(0, 1000);
        a /= pow2(l);
        c.log() << " divided by 2^" << l;
        if (c.chance(1, 4)) {
          const mpz_class d = 1 + c.draw(100);
          a /= d;
          c.log() << " * " << d;
        }
      }
      break;
    }
    case 2: {
      // Subnormal, or so
      if constexpr (!std::is_same_v<Ring, IntegerRing>) {
        a = c.flip() ? a : constant(W, 0);
        const mpz_class n = tie();
        a += constant(W, n * pow2(200));
        const long l = 200 + 1000 + c.range(0, 160);
        a /= pow2(l);
        c.log() << " plus " << n << "*2^200 divided by 2^" << l;
        c.cls("subnormal or so");
      }
      break;
    }
    default: {
      const mpz_class n = pow2(1024) - c.draw(3) * pow2(1024 - 54) + c.around(1);
      a += constant(W, c.flip() ? n : mpz_class(-n));
      c.log() << " plus about 2^1024";
      c.cls("about to overflow");
    }
  }
  const auto x = W.value(a);
  const En v = W.enclose(x);
  const double lo = to_double(v.lo.get_num(), v.lo.get_den(), 0), hi = to_double(v.hi.get_num(), v.hi.get_den(), 0);
  if (lo != hi) throw pbt::Discard{};
  const auto r = W.as_rational(x);
  c.cls(r ? "rational" : "irrational");
  c.nontrivial(!x.empty() && (!r || mpz_sizeinbase(r->get_num_mpz_t(), 2) > 53 || mpz_sizeinbase(r->get_den_mpz_t(), 2) > 53));
  const double got = static_cast<double>(a);
  REQUIRE(got == lo, "closest double is " << std::hexfloat << got << " instead of " << lo);
}

template <typename Ring>
void approximation(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80, 30);
  auto a = W.gen_element(5, 2);
  if (c.flip()) {
    // Leading digits cancel
    const long k = c.range(1, 500);
    a *= pow2(k);
    const mpz_class n = floor(W.enclose(W.value(a)).lo);
    a -= constant(W, n);
    c.log() << " scaled by 2^" << k << " minus its integer part";
    c.cls("cancellation");
  }
  const auto x = W.value(a);
  const En v = W.enclose(x);
  const int n = c.range(1, 3);
  c.nontrivial(x.size() >= 2);
  for (int i = 0; i < n; i++) {
    const long p = c.weighted({4, 1}) ? c.range(1, 600) : c.range(1, 70);
    c.log() << " " << p;
    const Ball b = ball(a.arb(p));
    REQUIRE(!b.nan() && b.rad.finite(), "not a finite ball");
    if (x.empty()) {
      REQUIRE(b.mid.zero() && b.rad.zero(), "zero is approximated by " << b);
      continue;
    }
    REQUIRE(cmp(v.hi, b.lo()) >= 0 && cmp(v.lo, b.hi()) <= 0, b << " does not contain the element " << v);
    if (!b.rad.zero()) REQUIRE(!b.mid.zero() && b.mid.lead() - b.rad.lead() - 1 >= p, "accuracy of " << b << " is less than " << p);
  }
}

template <typename Ring>
void sorting(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 20);
  std::vector<Element<Ring>> v;
  const int n = c.range(2, 7);
  for (int i = 0; i < n; i++) {
    if (i && c.chance(1, 4))
      v.push_back(v[c.draw(v.size() - 1)] + W.small(0) * W.gen_element(2, 1));
    else
      v.push_back(W.gen_element(3, 2));
  }
  c.nontrivial(n >= 4);
  std::sort(v.begin(), v.end());
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      REQUIRE(v[i] <= v[j] && !(v[j] < v[i]), "sorted elements " << i << " and " << j << " are not in order");
      const int s = W.sign(add<Ring>(W.value(v[i]), neg<Ring>(W.value(v[j]))));
      REQUIRE(s == 2 || s <= 0, "sorted elements " << i << " and " << j << " are not in order");
    }
}

// Approximations, integer parts and comparisons in between operations
template <typename Ring>
void number_history(pbt::Case& c) {
  const long p = c.range(1, 200);
  c.log() << "observed to " << p << " bits ";
  const int what = static_cast<int>(c.draw(7));
  observe<Ring>(c, [&](Machine<Ring>& machine, size_t i) {
    auto& W = machine.W;
    const auto& a = machine.v[i];
    const auto& x = machine.m[i];
    if (machine.bits(i) > 400) return;
    const En v = W.enclose(x);
    if (what & 1) {
      const Ball b = ball(a.arb(p));
      if (x.empty())
        REQUIRE(b.mid.zero() && b.rad.zero(), "zero is approximated by " << b);
      else {
        REQUIRE(cmp(v.hi, b.lo()) >= 0 && cmp(v.lo, b.hi()) <= 0, "v" << i << ": " << b << " does not contain the element " << v);
        if (!b.rad.zero()) REQUIRE(!b.mid.zero() && b.mid.lead() - b.rad.lead() - 1 >= p, "accuracy of " << b << " is less than " << p);
      }
    }
    if (what & 2) {
      if (floor(v.lo) == floor(v.hi)) REQUIRE(a.floor() == floor(v.lo), "floor of v" << i << " is " << a.floor());
      if (ceil(v.lo) == ceil(v.hi)) REQUIRE(a.ceil() == ceil(v.lo), "ceil of v" << i << " is " << a.ceil());
      const double lo = to_double(v.lo.get_num(), v.lo.get_den(), 0), hi = to_double(v.hi.get_num(), v.hi.get_den(), 0);
      if (lo == hi) REQUIRE(static_cast<double>(a) == lo, "v" << i << " as a double is " << static_cast<double>(a));
    }
    if (what & 4) {
      const size_t j = (i + 1) % machine.v.size();
      int want = W.sign(add<Ring>(x, neg<Ring>(machine.m[j])));
      if (want != 2) ordered(a, machine.v[j], want, "comparison of elements in a history");
      want = W.sign(minus(W, x, 1));
      if (want != 2) ordered(a, 1, want, "comparison of an element with 1 in a history");
    }
  });
}
}  // namespace

RELATION("E04", elements_in_a_history, 800, "at least three operations with elements that are not all trivial") { FOR_ALL_RINGS(number_history); }
RELATION("E04", order_of_elements, 2000, "elements that agree in several digits") { FOR_ALL_RINGS(order); }
RELATION("E04", order_with_scalars, 3000, "an element that agrees with the scalar in several digits") { FOR_ALL_RINGS(order_with_scalars); }
RELATION("E04", thousands_of_bits, 300, "an irrational element") { FOR_ALL_RINGS(many_digits); }
RELATION("E04", order_with_generators, 1500, "a multiple of a generator of a module with several generators") { FOR_ALL_RINGS(order_with_generators); }
RELATION("E04", floor_and_ceil, 2000, "an element close to an integer") { FOR_ALL_RINGS(integer_parts); }
RELATION("E04", closest_double, 3000, "an element that is irrational or has more than 53 bits") { FOR_ALL_RINGS(nearest_double); }
RELATION("E04", ball_is_accurate, 2000, "at least two terms") { FOR_ALL_RINGS(approximation); }
RELATION("E04", sorting_elements, 500, "at least four elements") { FOR_ALL_RINGS(sorting); }

// ---------------------------------------------------------------- E05
namespace {
template <typename Ring>
void equality(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto a = W.gen_element(4, 2);
  const auto x = W.value(a);
  // The same element in another module
  std::set<Mono> s;
  for (auto& [m, _] : x) s.insert(m);
  for (auto& m : W.gen_monos(4, 2)) s.insert(m);
  auto y = x;
  std::vector<typename Ring::ElementClass> coefficients;
  const auto N = W.module(s);
  const auto monos = W.monos(*N);
  bool same = true;
  const size_t change = c.chance(2, 3) ? monos.size() : c.draw(monos.size());
  for (size_t i = 0; i < monos.size(); i++) {
    typename Ring::ElementClass v = W.small(0);
    if (x.count(monos[i]))
      for (long j = 0; j < a.module()->rank(); j++)
        if (a.module()->basis()[j] == N->basis()[i]) v = a[j];
    if (i == change) {
      const auto old = v;
      switch (c.draw(2)) {
        case 0: v = v + W.small(1 - 2 * c.draw(1)); break;
        case 1: v = -v; break;
        default: v = W.gen_element_coefficient();
      }
      same = old == v;
    }
    coefficients.push_back(v);
  }
  const Element<Ring> b(N, coefficients);
  c.log() << " and " << str<Ring>(W.value(b));
  c.cls(same ? a.module() == N ? "equal in the same module" : "equal in different modules" : "different");
  c.nontrivial(x.size() >= 2 && a.module() != N);
  REQUIRE((W.value(b) == x) == same, "reference is wrong");
  REQUIRE((a == b) == same && (b == a) == same && (a != b) != same && (b != a) != same, "equality is wrong");
  if (same) {
    const auto ha = std::hash<Element<Ring>>()(a), hb = std::hash<Element<Ring>>()(b);
    REQUIRE(ha == hb, "hashes of equal elements are " << ha << " and " << hb);
    std::unordered_set<Element<Ring>> set{a};
    REQUIRE(set.count(b) == 1, "equal element not found in a set");
  }
  REQUIRE(static_cast<bool>(a) == !x.empty() && !a == x.empty(), "a non-zero element is zero, or vice versa");
  const Element<Ring> zero;
  REQUIRE(zero.module()->rank() == 0 && zero.coefficients().empty() && !zero, "the default element is not zero");
  REQUIRE((a == zero) == x.empty() && (zero == a) == x.empty(), "comparison to zero is wrong");
}

// Equality with, and conversion to, rationals; also when the rational generator is not 1
template <typename Ring>
void rational_elements(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80);
  std::vector<Real> basis;
  for (auto& m : W.gen_monos(3, 2))
    if (!m.empty()) basis.push_back(W.real(m));
  mpq_class g = 0;
  if (c.chance(7, 8)) {
    do {
      g = c.flip() ? mpq_class(1) : gen_mpq(c, 40);
      if (c.chance(1, 4) && g != 0) g = 1 / g;
    } while (g == 0 && !c.replay);
    if (g == 0) g = 1;
    basis.push_back(RealNumber::rational(g));
  }
  const auto M = Module<Ring>::make(basis, W.ring());
  std::vector<typename Ring::ElementClass> coefficients;
  std::optional<mpq_class> value = mpq_class(0);
  std::optional<typename Ring::ElementClass> coefficient;
  bool others = false;
  const bool rational = c.chance(2, 3);
  for (auto& b : M->basis()) {
    auto x = W.gen_element_coefficient();
    if (static_cast<std::optional<mpq_class>>(*b)) {
      if constexpr (std::is_same_v<Ring, IntegerRing>) {
        // A multiple of the denominator
        if (c.flip()) x *= g.get_den();
      }
      coefficient = x;
      if constexpr (std::is_same_v<Ring, NumberField>) {
        if (x.is_rational()) {
          if (value) *value += static_cast<mpq_class>(x) * g;
        } else
          value = std::nullopt;
      } else if (value)
        *value += mpq_class(x) * g;
    } else {
      if (rational) x = W.small(0);
      if (x != 0) {
        value = std::nullopt;
        others = true;
      }
    }
    coefficients.push_back(x);
  }
  const Element<Ring> a(M, coefficients);
  c.log() << *M << ": ";
  for (auto& x : coefficients) c.log() << x << " ";
  const bool elsewhere = c.chance(1, 6);
  const pbt::Locale locale(elsewhere);
  if (elsewhere) c.cls("another locale");
  c.nontrivial(value && *value != 0 && g != 1);
  c.cls(!value ? "not rational" : value->get_den() == 1 ? "integer" : "rational");
  const auto q = static_cast<std::optional<mpq_class>>(a);
  REQUIRE(q.has_value() == value.has_value() && (!q || *q == *value), "conversion to rational is " << (q ? q->get_str() : "nothing"));
  const auto z = static_cast<std::optional<mpz_class>>(a);
  const bool integer = value && value->get_den() == 1;
  REQUIRE(z.has_value() == integer && (!z || *z == value->get_num()), "conversion to integer is " << (z ? z->get_str() : "nothing"));
  // Equality
  auto equality = [&](const auto& s) {
    const bool want = value && *value == exact(s);
    REQUIRE((a == s) == want && (s == a) == want && (a != s) != want && (s != a) != want, "equality with " << s << " is wrong");
  };
  const mpq_class near = (value ? *value : gen_mpq(c, 40)) + (c.chance(1, 3) ? mpq_class(c.around(1)) : mpq_class(0));
  equality(near);
  const mpz_class n = floor(near);
  equality(n);
  with_native(c, n.fits_slong_p() ? n.get_si() : gen_long(c), equality);
  // The element as a number
  if (value) {
    const double want = to_double(value->get_num(), value->get_den(), 0);
    REQUIRE(static_cast<double>(a) == want, "converts to " << static_cast<double>(a));
    REQUIRE(a.floor() == floor(*value) && a.ceil() == ceil(*value), "floor or ceil is wrong");
    const Ball b = ball(a.arb(c.range(1, 200)));
    REQUIRE(cmp(En{*value, *value}, b.lo()) >= 0 && cmp(En{*value, *value}, b.hi()) <= 0, b << " does not contain " << *value);
  }
  // The inverse of an element is in the module if the inverse is a multiple of the rational generator
  bool unit = false;
  if (coefficient && *coefficient != 0 && !others) {
    unit = true;
    if constexpr (std::is_same_v<Ring, IntegerRing>) unit = mpq_class(1 / (g * g * *coefficient)).get_den() == 1;
  }
  c.cls(unit ? "unit" : "not a unit");
  REQUIRE(a.unit() == unit, "unit() is " << a.unit());
}

template <typename Ring>
void coefficients_of_elements(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto M = W.gen_module(5, 2);
  std::vector<typename Ring::ElementClass> coefficients;
  std::vector<mpq_class> rational;
  for (long i = 0; i < M->rank(); i++) {
    coefficients.push_back(c.chance(1, 4) ? typename Ring::ElementClass() : W.gen_element_coefficient(M));
    const auto& x = coefficients.back();
    c.log() << x << " ";
    if constexpr (std::is_same_v<Ring, NumberField>) {
      const auto v = ref::coefficients(W.lift(x));
      for (size_t j = 0; j < (M->ring() == W.ring() ? W.field.degree : 1); j++) rational.push_back(j < v.size() ? v[j] : mpq_class(0));
    } else
      rational.push_back(x);
  }
  const Element<Ring> a(M, coefficients);
  c.nontrivial(M->rank() >= 2);
  REQUIRE(a.module() == M, "the module is another one");
  REQUIRE(a.coefficients() == coefficients, "the coefficients are not the ones that were given");
  for (long i = 0; i < M->rank(); i++) REQUIRE(a[i] == coefficients[i], "coefficient " << i << " is " << a[i]);
  REQUIRE(a.rationalCoefficients() == rational, "the rational coefficients are wrong");
  // The sum of the generators
  auto sum = M->zero();
  for (long i = 0; i < M->rank(); i++) sum += coefficients[i] * M->gen(i);
  REQUIRE(sum == a && sum.module() == M && sum.coefficients() == coefficients, "the element is not the linear combination of its generators");
  for (const long i : {-1L, static_cast<long>(M->rank()), static_cast<long>(M->rank()) + 1 + static_cast<long>(c.draw(100))}) {
    bool thrown = false;
    try {
      (void)a[i];
    } catch (const std::exception&) {
      thrown = true;
    }
    REQUIRE(thrown, "there is no coefficient " << i);
  }
  // A wrong number of coefficients
  if (c.flip())
    coefficients.push_back(W.small(1));
  else if (!coefficients.empty())
    coefficients.pop_back();
  else
    return;
  bool thrown = false;
  try {
    Element<Ring> b(M, coefficients);
  } catch (const std::logic_error&) {
    thrown = true;
  }
  REQUIRE(thrown, "a wrong number of coefficients was accepted");
  // A single number
  const auto x = W.gen_element_coefficient();
  const Element<Ring> e(x);
  REQUIRE(W.value(e) == trim<Ring>({{Mono{}, W.lift(x)}}) && e.module()->rank() == 1, "the element " << x << " is " << e);
}

// Equality, hashes and conversions in between operations
template <typename Ring>
void equality_history(pbt::Case& c) {
  observe<Ring>(c, [&](Machine<Ring>& machine, size_t i) {
    const auto& a = machine.v[i];
    const auto& x = machine.m[i];
    for (size_t j = 0; j < machine.v.size(); j++) {
      const auto& b = machine.v[j];
      const bool same = x == machine.m[j];
      REQUIRE((a == b) == same && (a != b) != same, "equality of v" << i << " and v" << j << " is wrong");
      if (same) REQUIRE(std::hash<Element<Ring>>()(a) == std::hash<Element<Ring>>()(b), "equal elements v" << i << " and v" << j << " have different hashes");
    }
    REQUIRE(static_cast<bool>(a) == !x.empty() && !a == x.empty(), "v" << i << " is zero, or not");
    const auto r = machine.W.as_rational(x);
    REQUIRE(static_cast<std::optional<mpq_class>>(a) == r, "conversion of v" << i << " to a rational is wrong");
    const auto z = static_cast<std::optional<mpz_class>>(a);
    REQUIRE(z.has_value() == (r && r->get_den() == 1) && (!z || *z == *r), "conversion of v" << i << " to an integer is wrong");
    const mpq_class s = r ? *r : mpq_class(1);
    REQUIRE((a == s) == r.has_value() && (a == mpq_class(s + 1)) == false, "equality of v" << i << " with a rational is wrong");
    bool unit = !x.empty() && x.size() == 1 && x.begin()->first.empty();
    if constexpr (std::is_same_v<Ring, IntegerRing>) unit = unit && abs(*r) == 1;
    REQUIRE(a.unit() == unit, "v" << i << " is a unit, or not");
  });
}
}  // namespace

RELATION("E05", equality_in_a_history, 3000, "at least three operations with elements that are not all trivial") { FOR_ALL_RINGS(equality_history); }
RELATION("E05", equality_across_modules, 6000, "at least two terms in different modules") { FOR_ALL_RINGS(equality); }
RELATION("E05", rational_elements, 6000, "a non-zero rational element of a module with a rational generator other than 1") { FOR_ALL_RINGS(rational_elements); }
RELATION("E05", coefficients, 4000, "at least two generators") { FOR_ALL_RINGS(coefficients_of_elements); }

// ---------------------------------------------------------------- E06
namespace {
// Is text terms in some order, positive ones first
bool matches(const std::string& text, size_t at, std::vector<std::pair<bool, std::string>> terms, bool first, bool negative) {
  if (terms.empty()) return at == text.size();
  for (size_t i = 0; i < terms.size(); i++) {
    const auto [minus, term] = terms[i];
    if (negative && !minus) continue;
    const std::string full = (first ? (minus ? "-" : "") : minus ? " - " : " + ") + term;
    if (text.compare(at, full.size(), full)) continue;
    auto rest = terms;
    rest.erase(rest.begin() + i);
    if (matches(text, at + full.size(), rest, false, minus)) return true;
  }
  return false;
}

// Require that an element is printed as the sum of its terms; return what is printed
template <typename Ring>
std::string check_printing(const Element<Ring>& a, size_t& nterms) {
  const auto M = a.module();
  std::vector<std::pair<bool, std::string>> terms;
  for (long i = 0; i < M->rank(); i++) {
    auto x = a[i];
    if (x == 0) continue;
    const bool minus = x < 0;
    if (minus) x = -x;
    std::ostringstream term;
    if (x == 1)
      term << *M->basis()[i];
    else {
      term << x;
      if (*M->basis()[i] != mpq_class(1)) term << "*" << *M->basis()[i];
    }
    terms.emplace_back(minus, term.str());
  }
  nterms = terms.size();
  std::ostringstream os;
  os << a;
  REQUIRE(terms.empty() ? os.str() == "0" : matches(os.str(), 0, terms, true, false), os.str() << " is not the sum of its terms with positive ones first");
  return os.str();
}

template <typename Ring>
void printing(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  std::vector<Real> basis;
  for (auto& m : W.gen_monos(5, 3))
    if (!m.empty()) basis.push_back(W.real(m));
  if (c.flip()) {
    mpq_class g = c.chance(3, 4) ? mpq_class(1) : gen_mpq(c, 20);
    if (g == 0) g = 1;
    basis.push_back(RealNumber::rational(g));
  }
  const auto M = Module<Ring>::make(basis, W.ring());
  const auto a = W.gen_element(M);
  size_t terms;
  const auto text = check_printing(a, terms);
  c.nontrivial(terms >= 2);
  c.log() << " prints as " << text;
  // It does not matter in which module it is represented
  auto s = a;
  s.simplify();
  std::ostringstream os2;
  os2 << s;
  REQUIRE(os2.str() == text, "prints differently once simplified: " << os2.str());
}

// Elements are printed in between operations
template <typename Ring>
void printing_history(pbt::Case& c) {
  observe<Ring>(c, [&](Machine<Ring>& machine, size_t i) {
    size_t n;
    check_printing(machine.v[i], n);
  });
}
}  // namespace

RELATION("E06", printing_in_a_history, 500, "at least three operations with elements that are not all trivial") { FOR_ALL_RINGS(printing_history); }
RELATION("E06", printing, 2500, "at least two terms") { FOR_ALL_RINGS(printing); }

namespace {
template <typename Ring>
void printing_elsewhere(pbt::Case& c) {
  // Seeds that are not used otherwise
  std::vector<Base> bases;
  const int n = c.range(2, 5);
  for (int i = 0; i < n; i++) {
    Base b = gen_base(c, true);
    if (i && c.flip()) {
      // The same interval with another seed
      b = bases.back();
      c.cls("generators of the same size");
    }
    b.seed = 2000000 + 16 * static_cast<unsigned>(c.draw(1 << 20)) + static_cast<unsigned>(i);
    c.log() << b << " ";
    bases.push_back(b);
  }
  const Field field = gen_field(c);
  std::vector<long> x;
  for (int i = 0; i < n; i++) {
    x.push_back(c.chance(1, 2) ? c.around(1) : c.around(100));
    c.log() << x.back() << " ";
  }
  c.nontrivial(std::count(x.begin(), x.end(), 0) + 2 <= n);
  const bool in_field = std::is_same_v<Ring, NumberField>;
  // Create the generators in an order, and print
  auto print = [&](const std::vector<size_t>& order) {
    boost::intrusive_ptr<const eantic::renf_class> K;
    if (in_field) K = field.make();
    Ring ring;
    if constexpr (std::is_same_v<Ring, NumberField>) ring = NumberField(K);
    std::vector<Real> reals(bases.size());
    for (auto i : order) reals[i] = bases[i].make();
    const auto M = Module<Ring>::make(reals, ring);
    std::vector<typename Ring::ElementClass> coefficients;
    for (auto& g : M->basis()) coefficients.push_back(ring.coerce(typename Ring::ElementClass(x[std::find(reals.begin(), reals.end(), g) - reals.begin()])));
    std::ostringstream os;
    os << Element<Ring>(M, coefficients);
    return os.str();
  };
  std::vector<size_t> order;
  for (size_t i = 0; i < bases.size(); i++) order.insert(order.begin() + c.draw(i), i);
  const std::string there = elsewhere([&]() { return print(order); });
  std::reverse(order.begin(), order.end());
  const std::string other = elsewhere([&]() { return print(order); });
  REQUIRE(there == other, "prints as " << there << " or, with the generators created in another order, as " << other);
}
}  // namespace

RELATION("E06", printing_in_other_processes, 400, "at least two terms") { FOR_ALL_RINGS(printing_elsewhere); }

namespace {
std::string printed(const Real& x) {
  std::ostringstream os;
  os << *x;
  return os.str();
}
// Whether the number shown next to the text is the value up to the digits shown
void shows(const std::string& s, const std::string& prefix, const En& v) {
  const size_t at = s.rfind(prefix);
  REQUIRE(at != std::string::npos, "there is no value in " << s);
  const mpq_class limit(shl(1, 900));
  if (abs(v.lo) > limit || abs(v.lo) * limit < 1) return;
  char* end;
  const double shown = strtod(s.c_str() + at + prefix.size(), &end);
  REQUIRE(end != s.c_str() + at + prefix.size() && std::isfinite(shown), "there is no value in " << s);
  const mpq_class e = mpq_class(shown) - v.lo;
  REQUIRE(abs(e) * 100000 <= abs(v.lo), s << " does not show the value " << v.lo.get_d());
}
}  // namespace

RELATION("E06", generators_show_their_value, 4000, "a number that is not rational") {
  Pool P(c, c.range(1, 4));
  const Num x = P.gen(6);
  const std::string s = printed(x.p);
  if (x.rational) {
    REQUIRE(s == x.rational->get_str(), "prints as " << s);
    return;
  }
  c.nontrivial();
  std::multiset<std::string> want, got;
  for (auto& [i, e] : x.factors) {
    const std::string t = printed(P.reals[i]);
    want.insert(t + (e == 1 ? "" : "^" + std::to_string(e)));
    const En v = P.enclose(i, 100);
    if (t.find("[∼") != std::string::npos)
      shows(t, "[∼", v);
    else if (std::count(t.begin(), t.end(), '(') == 1)
      shows(t, "ℝ(", v);
    else {
      // The number without the random digits looks like the number itself.
      shows(t.substr(0, t.find(' ')), "ℝ(", v);
      c.cls("close to a double");
    }
  }
  std::istringstream parts(s);
  for (std::string part; std::getline(parts, part, '*');) got.insert(part);
  REQUIRE(got == want, "prints as " << s);
}
