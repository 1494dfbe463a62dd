// Properties of the base rings (G01).
#include "../exact-real/integer_ring.hpp"
#include "../exact-real/number_field.hpp"
#include "../exact-real/rational_field.hpp"
#include "balls.hpp"
#include "fields.hpp"

using namespace ref;
using exactreal::Arb;
using exactreal::IntegerRing;
using exactreal::NumberField;
using exactreal::RationalField;
using eantic::renf_elem_class;

namespace {
std::string str(const std::vector<mpq_class>& v) {
  std::string s;
  for (auto& x : v) s += (s.empty() ? "[" : ", ") + x.get_str();
  return s.empty() ? "[]" : s + "]";
}
// Remove the zeros at the end
std::vector<mpq_class> trim(std::vector<mpq_class> v) {
  while (!v.empty() && v.back() == 0) v.pop_back();
  return v;
}
// The product of polynomials in the generator of the field
std::vector<mpq_class> mul(const std::vector<mpq_class>& a, const std::vector<mpq_class>& b, const Field& f) {
  std::vector<mpq_class> r(a.size() + b.size() + 1);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j];
  for (size_t i = r.size(); i-- > f.degree;) {
    if (f.radicand != 0)
      r[i - f.degree] += r[i] * f.radicand;
    else
      r[i - 1] += r[i], r[i - 2] += r[i];
    r[i] = 0;
  }
  return trim(r);
}
mpz_class floor(const mpq_class& x) {
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
  return r;
}
// A value that is an integer, just below, or just above one with some chance
mpq_class gen_near_integer(pbt::Case& c) {
  if (c.flip()) return gen_mpq(c, 120);
  mpq_class r(gen_mpz(c, 150));
  return r + mpq_class(c.around(2), 1 + abs(gen_mpz(c, 200)));
}
template <typename F>
void with_native(pbt::Case& c, F&& f) {
  const long v = gen_long(c);
  switch (c.draw(7)) {
    case 0: c.cls("int"); return f(static_cast<int>(v));
    case 1: c.cls("short"); return f(static_cast<short>(v));
    case 2: c.cls("unsigned short"); return f(static_cast<unsigned short>(v));
    case 3: c.cls("unsigned int"); return f(static_cast<unsigned int>(v));
    case 4: c.cls("long"); return f(v);
    case 5: c.cls("unsigned long"); return f(static_cast<unsigned long>(v));
    case 6: c.cls("long long"); return f(static_cast<long long>(v));
    default: c.cls("unsigned long long"); return f(static_cast<unsigned long long>(v));
  }
}
template <typename T>
mpq_class exact(const T& v) {
  if constexpr (std::is_same_v<T, mpz_class> || std::is_same_v<T, mpq_class>)
    return mpq_class(v);
  else
    return mpq_class(std::to_string(v));
}
// Any scalar that all rings can be multiplied with and divided by
template <typename F>
void with_scalar(pbt::Case& c, F&& f) {
  switch (c.weighted({3, 1, 1})) {
    case 0: return with_native(c, f);
    case 1: c.cls("mpz_class"); return f(gen_mpz(c, 120));
    default: c.cls("mpq_class"); return f(gen_mpq(c, 80));
  }
}
}  // namespace

RELATION("G01", floor_is_below, 12000, "a number that is not an integer") {
  mpz_class got;
  mpq_class lo, hi;
  switch (c.draw(2)) {
    case 0: {
      const mpz_class n = gen_mpz(c);
      c.log() << "ℤ: " << n;
      REQUIRE(IntegerRing::floor(n) == n, "floor is " << IntegerRing::floor(n));
      c.cls("integer");
      return;
    }
    case 1: {
      const mpq_class x = gen_near_integer(c);
      c.log() << "ℚ: " << x;
      c.nontrivial(x.get_den() != 1);
      c.cls(x < 0 ? "negative rational" : "rational");
      got = RationalField::floor(x);
      REQUIRE(got == floor(x), "floor is " << got);
      return;
    }
    default: {
      const Field f = gen_field(c);
      auto K = f.make();
      auto v = gen_coefficients(c, f, 60);
      const auto a = generator(f, 1500);
      if (c.chance(1, 3)) {
        // very close to an integer
        const auto e = evaluate(v, a);
        const long k = c.range(1, 200);
        v[0] -= mpq_class(floor(e.first * mpq_class(shl(1, k))), shl(1, k));
        v[0].canonicalize();
      }
      c.log() << f.polynomial << ": " << str(v);
      const auto e = evaluate(v, a);
      got = NumberField::floor(element(*K, v));
      c.nontrivial(trim(v).size() > 1);
      c.cls(e.first < 0 ? "negative algebraic" : "algebraic");
      REQUIRE(mpq_class(got) <= e.second && e.first < mpq_class(got) + 1, "floor is " << got);
      if (trim(v).size() < 2) REQUIRE(got == floor(v[0]), "floor of a rational is " << got);
    }
  }
}

RELATION("G01", units_and_rationals, 8000, "a number that is neither 0 nor 1") {
  switch (c.draw(2)) {
    case 0: {
      const mpz_class n = gen_mpz(c, 100);
      c.log() << "ℤ: " << n;
      c.nontrivial(n != 0 && n != 1);
      REQUIRE(IntegerRing::unit(n) == (n == 1 || n == -1), "unit is wrong");
      const auto q = IntegerRing::rational(n);
      REQUIRE(q && *q == n, "rational is wrong");
      REQUIRE(IntegerRing().coerce(n) == n, "coerce is wrong");
      return;
    }
    case 1: {
      const mpq_class x = gen_mpq(c, 100);
      c.log() << "ℚ: " << x;
      c.nontrivial(x != 0 && x != 1);
      REQUIRE(RationalField::unit(x) == (x != 0), "unit is wrong");
      const auto q = RationalField::rational(x);
      REQUIRE(q && *q == x, "rational is wrong");
      REQUIRE(RationalField().coerce(x) == x, "coerce is wrong");
      return;
    }
    default: {
      const Field f = gen_field(c);
      auto K = f.make();
      const auto v = trim(gen_coefficients(c, f, 60));
      c.log() << f.polynomial << ": " << str(v);
      c.nontrivial(v.size() > 1);
      const renf_elem_class x = element(*K, v);
      REQUIRE(NumberField::unit(x) == !v.empty(), "unit is wrong");
      const auto q = NumberField::rational(x);
      REQUIRE(q.has_value() == (v.size() < 2), "rational is wrong");
      if (q) REQUIRE(*q == (v.empty() ? mpq_class(0) : v[0]), "rational is " << *q);
      const auto y = NumberField(*K).coerce(x);
      REQUIRE(trim(coefficients(y)) == v && y.parent() == *K, "coerce into its own field is wrong");
      // Rationals of any field are elements of any other field
      const Field g = gen_relative(c, f);
      auto L = g.make();
      bool thrown = false;
      try {
        const auto z = NumberField(L).coerce(x);
        REQUIRE(z.parent() == *L && trim(coefficients(z)) == v, "coercion gave " << z);
      } catch (const std::logic_error&) {
        thrown = true;
      }
      REQUIRE(thrown == (v.size() > 1 && !(f == g)), "coercion to " << g.polynomial << (thrown ? " threw" : " did not throw"));
    }
  }
}

RELATION("G01", arb_encloses, 10000, "a number that is not an integer") {
  const long p = gen_prec(c, 500);
  c.log() << "prec " << p << " ";
  switch (c.draw(2)) {
    case 0: {
      const mpz_class n = gen_mpz(c, 600);
      c.log() << "ℤ: " << n;
      const Ball b = ball(IntegerRing::arb(n, p));
      REQUIRE(contains(b, mpq_class(n)), b << " does not contain the number");
      REQUIRE(cmp(mpq_class(abs(n)) * 4 / mpq_class(shl(1, p)), b.rad) >= 0, b << " is not precise to " << p << " bits");
      return;
    }
    case 1: {
      const mpq_class x = gen_mpq(c, 300);
      c.log() << "ℚ: " << x;
      c.nontrivial(x.get_den() != 1);
      const Ball b = ball(RationalField::arb(x, p));
      REQUIRE(contains(b, x), b << " does not contain the number");
      REQUIRE(cmp(abs(x) * 4 / mpq_class(shl(1, p)), b.rad) >= 0, b << " is not precise to " << p << " bits");
      return;
    }
    default: {
      const Field f = gen_field(c);
      auto K = f.make();
      const auto v = gen_coefficients(c, f, 60);
      c.log() << f.polynomial << ": " << str(v);
      c.nontrivial(trim(v).size() > 1);
      const auto e = evaluate(v, generator(f, 1500 + p));
      const Ball b = ball(NumberField::arb(element(*K, v), p));
      REQUIRE(!b.nan() && cmp(e.second, b.lo()) >= 0 && cmp(e.first, b.hi()) <= 0, b << " does not contain the number");
    }
  }
}

RELATION("G01", scalar_arithmetic, 20000, "the scalar is neither 0 nor 1 and the number is not 0") {
  const bool divide = c.flip();
  const int ring = static_cast<int>(c.draw(2));
  const Field f = gen_field(c);
  std::vector<mpq_class> x;
  mpz_class n = gen_mpz(c, 150);
  // Make divisions in ℤ work out frequently
  if (ring == 0)
    x = {mpq_class(n)};
  else if (ring == 1)
    x = {gen_mpq(c, 80)};
  else
    x = gen_coefficients(c, f, 60);
  with_scalar(c, [&](auto s) {
    const mpq_class e = exact(s);
    if (ring == 0 && divide && c.chance(1, 2)) x[0] = mpz_class(n * e.get_num());
    if (ring == 0 && !divide && c.chance(1, 2)) x[0] = mpz_class(n * e.get_den());
    c.log() << (ring == 0 ? "ℤ" : ring == 1 ? "ℚ" : f.polynomial) << ": " << str(x) << (divide ? " / " : " * ") << e;
    c.nontrivial(e != 0 && e != 1 && !trim(x).empty());
    std::vector<mpq_class> want;
    bool error = divide && e == 0;
    if (!error)
      for (auto& v : x) want.push_back(divide ? mpq_class(v / e) : mpq_class(v * e));
    if (!error && ring == 0 && want[0].get_den() != 1) error = true;
    bool thrown = false;
    try {
      if (ring == 0) {
        mpz_class v = x[0].get_num();
        const mpz_class& r = divide ? IntegerRing::idiv(v, s) : IntegerRing::imul(v, s);
        REQUIRE(error || v == want[0], "is " << v << " instead of " << want[0]);
        REQUIRE(&r == &v, "does not return its argument");
      } else if (ring == 1) {
        mpq_class v = x[0];
        const mpq_class& r = divide ? RationalField::idiv(v, s) : RationalField::imul(v, s);
        REQUIRE(error || v == want[0], "is " << v << " instead of " << want[0]);
        REQUIRE(&r == &v, "does not return its argument");
      } else {
        auto K = f.make();
        renf_elem_class v = element(*K, x);
        const renf_elem_class& r = divide ? NumberField::idiv(v, s) : NumberField::imul(v, s);
        REQUIRE(error || trim(coefficients(v)) == trim(want), "is " << v << " instead of " << str(want));
        REQUIRE(&r == &v, "does not return its argument");
      }
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    c.cls(error ? "impossible" : divide ? "quotient" : "product");
    REQUIRE(thrown == error, (thrown ? "threw" : "did not throw"));
  });
}

RELATION("G01", algebraic_arithmetic, 6000, "both numbers are not rational") {
  const Field f = gen_field(c);
  auto K = f.make();
  const auto x = gen_coefficients(c, f, 60), y = gen_coefficients(c, f, 60);
  c.log() << f.polynomial << ": " << str(x) << " and " << str(y);
  c.nontrivial(trim(x).size() > 1 && trim(y).size() > 1);
  renf_elem_class v = element(*K, x);
  const renf_elem_class s = element(*K, y);
  NumberField::imul(v, s);
  REQUIRE(trim(coefficients(v)) == mul(x, y, f), "product is " << v);
  renf_elem_class w = element(*K, x);
  bool thrown = false;
  try {
    NumberField::idiv(w, s);
    REQUIRE(mul(coefficients(w), y, f) == trim(x), "quotient is " << w);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  REQUIRE(thrown == trim(y).empty(), "division by zero was not detected, or detected wrongly");
}

RELATION("G01", equality_and_composita, 1500, "two different fields that are not trivial") {
  REQUIRE(IntegerRing() == IntegerRing() && !(IntegerRing() != IntegerRing(3)), "ℤ is not unique");
  REQUIRE(RationalField() == RationalField() && !(RationalField() != RationalField(mpq_class(1, 3))), "ℚ is not unique");
  REQUIRE(IntegerRing::compositum(IntegerRing(), IntegerRing()) == IntegerRing() && RationalField::compositum(RationalField(), RationalField()) == RationalField(), "compositum is wrong");
  // Nothing stands for the rationals
  auto pick = [&](auto&& gen) { return c.chance(1, 6) ? std::optional<Field>() : std::optional<Field>(gen()); };
  const auto f = pick([&] { return gen_field(c); });
  const auto g = pick([&] { return f ? gen_relative(c, *f) : gen_field(c); });
  auto make = [&](const std::optional<Field>& f) {
    if (!f) return c.flip() ? NumberField() : NumberField(renf_elem_class(mpq_class(1, 2)));
    auto K = f->make();
    switch (c.draw(2)) {
      case 0: return NumberField(K);
      case 1: return NumberField(*K);
      default: return NumberField(c.flip() ? K->gen() : K->one());
    }
  };
  for (auto& x : {f, g}) {
    if (x)
      c.log() << *x << " ";
    else
      c.log() << "Q ";
  }
  const bool same = f == g;
  c.nontrivial(!same && f && g);
  const NumberField K = make(f), L = make(g);
  REQUIRE((K == L) == same && (K != L) == !same, "equality is wrong");
  if (same) REQUIRE(std::hash<NumberField>()(K) == std::hash<NumberField>()(L), "equal fields have different hashes");
  bool thrown = false;
  try {
    const NumberField M = NumberField::compositum(K, L);
    REQUIRE(M == (f ? K : L), "compositum is not the larger field");
  } catch (const std::logic_error&) {
    thrown = true;
  }
  REQUIRE(thrown == (!same && f && g), "compositum " << (thrown ? "threw" : "did not throw"));
  c.cls(same ? "same field" : thrown ? "two fields" : "field and rationals");
}
