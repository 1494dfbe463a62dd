// Properties of the class Arf (A01 … A04).
#include <algorithm>
#include <climits>
#include <map>
#include <optional>
#include <unordered_set>
#include <vector>

#include "../exact-real/arf.hpp"
#include "ref.hpp"

using namespace ref;
using exactreal::Arf;

// ---------------------------------------------------------------- A01
static long any_exp(pbt::Case& c) {
  switch (c.weighted({4, 3, 2, 1})) {
    case 0: return c.around(70);
    case 1: return c.around(100000);
    case 2: return c.around(1L << 61);
    default: {
      static const long v[] = {LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, INT_MAX, INT_MIN};
      return v[c.draw(5)];
    }
  }
}

RELATION("A01", ctor_mantissa_exponent, 30000, "an even or multi-limb mantissa, or an exponent beyond 32 bits") {
  const mpz_class m = gen_mpz(c, 2000);
  const long e = any_exp(c);
  c.log() << "Arf(mpz " << m << ", " << e << ")";
  c.nontrivial(m != 0 && (mpz_even_p(m.get_mpz_t()) || mpz_size(m.get_mpz_t()) > 1 || e > INT_MAX || e < INT_MIN));
  c.cls(m == 0 ? "zero" : mpz_size(m.get_mpz_t()) > 1 ? "multi-limb" : "single limb");
  c.cls(m < 0 ? "negative" : "non-negative");
  const Arf x(m, e);
  REQUIRE(dy(x) == Dy(m, e), "got " << dy(x) << " instead of " << Dy(m, e));
}

RELATION("A01", ctor_string, 30000, "more than one digit") {
  const int base = c.chance(1, 4) ? static_cast<int>(c.range(37, 62)) : static_cast<int>(c.range(2, 36));
  const mpz_class m = gen_mpz(c, 600);
  const long e = any_exp(c);
  // Write m in the given base ourselves.
  std::string digits;
  mpz_class r = abs(m);
  const bool upper = c.flip();
  const std::string lower36 = "0123456789abcdefghijklmnopqrstuvwxyz", upper36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ",
                    all62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
  const std::string& alphabet = base > 36 ? all62 : upper ? upper36 : lower36;
  while (r > 0) {
    mpz_class d = r % base;
    digits += alphabet[d.get_ui()];
    r /= base;
  }
  if (digits.empty()) digits = "0";
  const int zeros = c.weighted({4, 1, 1});
  digits += std::string(zeros, '0');
  std::reverse(digits.begin(), digits.end());
  const std::string s = (m < 0 ? "-" : "") + digits;
  c.log() << "Arf(\"" << s << "\", " << base << ", " << e << ")";
  c.nontrivial(digits.size() > 1);
  c.cls(base == 2 ? "base 2" : base == 10 ? "base 10" : base == 16 ? "base 16" : base > 36 ? "base > 36" : "other base");
  c.cls(e < 0 ? "negative exponent" : "non-negative exponent");
  const Arf x(s, base, e);
  REQUIRE(dy(x) == Dy(m, e), "got " << dy(x) << " instead of " << Dy(m, e));
}

RELATION("A01", ctor_native, 30000, "a value that does not fit 32 bits or is a double with a fraction") {
  const int what = c.draw(2);
  Arf preset = arf(gen_dy(c));
  if (what == 0) {
    const int v = static_cast<int>(gen_long(c));
    c.log() << "int " << v;
    c.cls("int");
    REQUIRE(dy(Arf(v)) == dy(v), "constructed " << dy(Arf(v)));
    Arf& ret = (preset = v);
    REQUIRE(&ret == &preset && dy(preset) == dy(v), "assigned " << dy(preset));
  } else if (what == 1) {
    const long v = gen_long(c);
    c.log() << "long " << v;
    c.cls("long");
    c.nontrivial(v > INT_MAX || v < INT_MIN);
    REQUIRE(dy(Arf(v)) == dy(v), "constructed " << dy(Arf(v)));
    Arf& ret = (preset = v);
    REQUIRE(&ret == &preset && dy(preset) == dy(v), "assigned " << dy(preset));
  } else {
    double v = gen_double(c);
    if (c.chance(1, 20)) v = c.flip() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    if (c.chance(1, 40)) v = std::numeric_limits<double>::quiet_NaN();
    c.log() << "double " << std::hexfloat << v << std::defaultfloat;
    c.cls(!std::isfinite(v) ? "special double" : std::fabs(v) < std::numeric_limits<double>::min() ? "subnormal double" : "normal double");
    c.nontrivial(v != std::floor(v));
    REQUIRE(dy(Arf(v)) == dy(v), "constructed " << dy(Arf(v)));
    Arf& ret = (preset = v);
    REQUIRE(&ret == &preset && dy(preset) == dy(v), "assigned " << dy(preset));
  }
  REQUIRE(dy(Arf()) == Dy(), "Arf() is not zero");
}

RELATION("A01", value_semantics, 8000, "at least three copies, moves or swaps in the history") {
  // A pool of numbers next to a model of their values; nullopt: moved from.
  std::vector<Arf> pool(4);
  std::vector<std::optional<Dy>> model(4, Dy());
  const int steps = c.range(1, 20);
  int structural = 0;
  for (int s = 0; s < steps; s++) {
    const size_t i = c.draw(pool.size() - 1), j = c.draw(pool.size() - 1);
    switch (c.draw(9)) {
      case 0: {
        Dy v = c.chance(1, 12) ? Dy(c.flip() ? Dy::PINF : Dy::NINF) : gen_dy(c, 300, 1 << 20);
        pool[i] = arf(v);
        model[i] = v;
        c.log() << i << ":=" << v << "; ";
        break;
      }
      case 1: {
        long v = gen_long(c);
        pool[i] = v;
        model[i] = dy(v);
        c.log() << i << ":=long " << v << "; ";
        break;
      }
      case 2:
        if (!model[j]) continue;
        pool[i] = static_cast<const Arf&>(pool[j]);
        model[i] = model[j];
        c.log() << i << "=" << j << "; ";
        structural++;
        break;
      case 3: {
        if (!model[j]) continue;
        Arf copy(pool[j]);
        REQUIRE(dy(copy) == *model[j], "copy is " << dy(copy));
        copy = -7;
        c.log() << "copy " << j << "; ";
        structural++;
        break;
      }
      case 4:
        if (!model[j]) continue;
        if (i == j) {
          // self-move must leave a valid object
          Arf& r = pool[i];
          r = std::move(pool[j]);
          model[i] = std::nullopt;
        } else {
          pool[i] = std::move(pool[j]);
          model[i] = model[j];
          model[j] = std::nullopt;
        }
        c.log() << i << "=move " << j << "; ";
        structural++;
        break;
      case 5: {
        if (!model[j]) continue;
        Arf moved(std::move(pool[j]));
        REQUIRE(dy(moved) == *model[j], "moved is " << dy(moved));
        model[j] = std::nullopt;
        c.log() << "move " << j << "; ";
        structural++;
        break;
      }
      case 6:
        if (!model[i] || !model[j]) continue;
        swap(pool[i], pool[j]);
        std::swap(model[i], model[j]);
        c.log() << "swap " << i << "," << j << "; ";
        structural++;
        break;
      case 7:
        if (!model[j]) continue;
        pool.push_back(pool[j]);
        model.push_back(model[j]);
        c.log() << "push " << j << "; ";
        structural++;
        break;
      case 8:
        if (pool.size() <= 2) continue;
        pool.erase(pool.begin() + i);
        model.erase(model.begin() + i);
        c.log() << "erase " << i << "; ";
        structural++;
        break;
      case 9:
        if (!model[i] || !model[j]) continue;
        std::swap(pool[i], pool[j]);
        std::swap(model[i], model[j]);
        c.log() << "std::swap " << i << "," << j << "; ";
        structural++;
        break;
    }
    for (size_t k = 0; k < pool.size(); k++)
      if (model[k]) REQUIRE(dy(pool[k]) == *model[k], "entry " << k << " is " << dy(pool[k]) << " instead of " << *model[k] << " after step " << s);
  }
  c.nontrivial(structural >= 3);
  c.cls(structural >= 3 ? "3+ structural" : "fewer structural");
}

// ---------------------------------------------------------------- A02
static Dy cmp_operand(pbt::Case& c) {
  switch (c.weighted({8, 2, 1})) {
    case 0: return gen_dy(c, 300, 400);
    case 1: return Dy(gen_mpz(c, 200), any_exp(c));
    default: return Dy(c.flip() ? Dy::PINF : Dy::NINF);
  }
}
// A value that is equal or very close to x.
static Dy close_to(pbt::Case& c, const Dy& x) {
  if (!x.finite()) return c.flip() ? x : -x;
  switch (c.draw(4)) {
    case 0: return x;
    case 1: return Dy(x.m + c.around(1), x.e);
    case 2: {
      const long k = c.range(1, 200);
      return Dy(shl(x.m, k) + c.around(1), x.e - k);
    }
    case 3: return -x;
    default: return Dy(x.m, x.e + c.around(2));
  }
}

RELATION("A02", compare_arf, 40000, "operands with the same leading bit position or an infinity") {
  const Dy a = cmp_operand(c), b = c.chance(2, 3) ? close_to(c, a) : cmp_operand(c);
  const Arf x = arf(a), y = arf(b);
  const int w = cmp(a, b);
  c.log() << a << " vs " << b;
  c.nontrivial(!a.finite() || !b.finite() || (!a.zero() && !b.zero() && a.lead() == b.lead()));
  c.cls(w == 0 ? "equal" : w < 0 ? "less" : "greater");
  REQUIRE((x < y) == (w < 0), "expected order " << w);
  REQUIRE((x > y) == (w > 0), "expected order " << w);
  REQUIRE((x <= y) == (w <= 0), "expected order " << w);
  REQUIRE((x >= y) == (w >= 0), "expected order " << w);
  REQUIRE((x == y) == (w == 0), "expected order " << w);
  REQUIRE((x != y) == (w != 0), "expected order " << w);
  REQUIRE(x == x && !(x < x) && x <= x && !(x != x), "not reflexive");
  const bool sameHash = std::hash<Arf>{}(x) == std::hash<Arf>{}(y);
  if (w == 0) REQUIRE(sameHash, "equal values have distinct hashes");
}

template <typename T>
static void check_compare_int(const Arf& x, const Dy& a, T v, int w) {
  REQUIRE((x < v) == (w < 0), "value " << a << " integer " << v);
  REQUIRE((x > v) == (w > 0), "value " << a << " integer " << v);
  REQUIRE((x <= v) == (w <= 0), "value " << a << " integer " << v);
  REQUIRE((x >= v) == (w >= 0), "value " << a << " integer " << v);
  REQUIRE((x == v) == (w == 0), "value " << a << " integer " << v);
  REQUIRE((x != v) == (w != 0), "value " << a << " integer " << v);
  REQUIRE((v > x) == (w < 0), "value " << a << " integer " << v);
  REQUIRE((v < x) == (w > 0), "value " << a << " integer " << v);
  REQUIRE((v >= x) == (w <= 0), "value " << a << " integer " << v);
  REQUIRE((v <= x) == (w >= 0), "value " << a << " integer " << v);
  REQUIRE((v == x) == (w == 0), "value " << a << " integer " << v);
  REQUIRE((v != x) == (w != 0), "value " << a << " integer " << v);
}

RELATION("A02", compare_integer, 40000, "the number is within 1 of the integer or the integer needs more than 32 bits") {
  const long v = gen_long(c);
  const Dy d = dy(v);
  Dy a;
  switch (c.weighted({2, 4, 3, 1})) {
    case 0: a = d; break;
    case 1: a = close_to(c, d); break;
    case 2: a = gen_dy(c, 100, 100); break;
    default: a = cmp_operand(c); break;
  }
  const Arf x = arf(a);
  c.log() << a << " vs " << v;
  const int w = cmp(a, d);
  c.nontrivial(v > INT_MAX || v < INT_MIN || (cmp(a, Dy(d.m * shl(1, d.e.get_ui()) - 1, 0)) >= 0 && cmp(a, Dy(d.m * shl(1, d.e.get_ui()) + 1, 0)) <= 0));
  c.cls(w == 0 ? "equal" : w < 0 ? "less" : "greater");
  check_compare_int<long>(x, a, v, w);
  if (v >= INT_MIN && v <= INT_MAX) check_compare_int<int>(x, a, static_cast<int>(v), w);
  if (v >= SHRT_MIN && v <= SHRT_MAX) check_compare_int<short>(x, a, static_cast<short>(v), w);
  if (v >= 0 && v <= UINT_MAX) check_compare_int<unsigned int>(x, a, static_cast<unsigned int>(v), w);
  // The interface takes a long: unsigned values beyond LONG_MAX are not representable, see DESIGN.md.
  if (v >= 0) check_compare_int<unsigned long>(x, a, static_cast<unsigned long>(v), w);
}

RELATION("A02", sort_and_set, 3000, "at least four numbers of which two are equal") {
  const int n = c.range(0, 12);
  std::vector<Dy> vals;
  for (int i = 0; i < n; i++) {
    if (!vals.empty() && c.chance(1, 2))
      vals.push_back(close_to(c, vals[c.draw(vals.size() - 1)]));
    else
      vals.push_back(cmp_operand(c));
    c.log() << vals.back() << " ";
  }
  std::vector<Arf> xs;
  for (auto& v : vals) xs.push_back(arf(v));
  std::unordered_set<Arf> set(xs.begin(), xs.end());
  std::map<Arf, int> map;
  for (auto& x : xs) map[x]++;
  std::sort(xs.begin(), xs.end());
  std::stable_sort(vals.begin(), vals.end(), [](const Dy& a, const Dy& b) { return cmp(a, b) < 0; });
  size_t distinct = 0;
  for (size_t i = 0; i < vals.size(); i++) {
    REQUIRE(dy(xs[i]) == vals[i], "sorted position " << i << " is " << dy(xs[i]) << " instead of " << vals[i]);
    if (i == 0 || !(vals[i] == vals[i - 1])) distinct++;
  }
  c.nontrivial(n >= 4 && distinct < vals.size());
  REQUIRE(set.size() == distinct && map.size() == distinct, "containers hold " << set.size() << " and " << map.size() << " of " << distinct);
  for (auto& v : vals) REQUIRE(set.count(arf(v)) && map.count(arf(v)), v << " not found");
}

// ---------------------------------------------------------------- A03
RELATION("A03", sign_and_shift, 30000, "a non-zero shift of a non-zero number") {
  const Dy a = cmp_operand(c);
  const Arf x = arf(a);
  const long k = any_exp(c);
  c.log() << a << " shift " << k;
  c.nontrivial(!a.zero() && k != 0);
  c.cls(a.finite() ? a.zero() ? "zero" : "finite" : "infinite");
  c.cls(k < 0 ? "negative shift" : k > 0 ? "positive shift" : "zero shift");
  {
    const Arf neg = -x;
    REQUIRE(dy(neg) == -a, "-x is " << dy(neg));
    const Arf abs = x.abs();
    REQUIRE(dy(abs) == (a.sign() < 0 ? -a : a), "|x| is " << dy(abs));
    Arf mut = x;
    const Arf neg2 = -mut;
    REQUIRE(dy(neg2) == -a && dy(mut) == a, "-x is " << dy(neg2));
  }
  auto shifted = [&](const mpz_class& by) { return a.finite() ? Dy(a.m, a.e + by) : a; };
  {
    Arf y = x;
    Arf& r = (y <<= k);
    REQUIRE(&r == &y && dy(y) == shifted(k), "x <<= k is " << dy(y));
    const Arf z = x << k;
    REQUIRE(dy(z) == shifted(k), "x << k is " << dy(z));
  }
  {
    Arf y = x;
    Arf& r = (y >>= k);
    REQUIRE(&r == &y && dy(y) == shifted(-mpz_class(k)), "x >>= k is " << dy(y));
    const Arf z = x >> k;
    REQUIRE(dy(z) == shifted(-mpz_class(k)), "x >> k is " << dy(z));
  }
  REQUIRE(dy(x) == a, "operand changed to " << dy(x));
}

RELATION("A03", integer_parts, 30000, "a number that is not an integer") {
  Dy a;
  switch (c.weighted({6, 2, 2})) {
    case 0: a = gen_dy(c, 300, 300); break;
    case 1: a = close_to(c, dy(gen_mpz(c, 200))); break;
    default: a = Dy(gen_mpz(c, 100), c.around(6000)); break;
  }
  const Arf x = arf(a);
  c.log() << a;
  c.nontrivial(a.e < 0);
  c.cls(a.e < 0 ? a.m < 0 ? "negative fraction" : "positive fraction" : "integer");
  mpz_class fl, ce;
  if (a.e >= 0) {
    fl = ce = shl(a.m, a.e.get_ui());
  } else {
    mpz_class ne = -a.e;
    mpz_fdiv_q_2exp(fl.get_mpz_t(), a.m.get_mpz_t(), ne.get_ui());
    ce = fl + 1;
  }
  REQUIRE(x.floor() == fl, "floor is " << x.floor() << " instead of " << fl);
  REQUIRE(x.ceil() == ce, "ceil is " << x.ceil() << " instead of " << ce);
  REQUIRE(dy(x) == a, "operand changed to " << dy(x));
}

RELATION("A03", mantissa_exponent, 30000, "a mantissa of more than one bit and a non-zero exponent") {
  const Dy a = c.chance(1, 3) ? Dy(gen_mpz(c, 1500), c.around(1L << 60)) : gen_dy(c, 300, 400);
  const Arf x = arf(a);
  c.log() << a;
  c.nontrivial(a.bits() > 1 && a.e != 0);
  const mpz_class m = x.mantissa(), e = x.exponent();
  REQUIRE(Dy(m, e) == a, "decomposed into " << m << "p" << e);
  REQUIRE(m == 0 || mpz_odd_p(m.get_mpz_t()), "mantissa " << m << " is not odd");
  if (!a.zero()) {
    const mpz_class lead = a.lead();
    REQUIRE(lead == x.logb(), "logb is " << x.logb() << " instead of " << lead);
  }
  // The parts recompose to the number.
  if (e.fits_slong_p()) REQUIRE(Arf(m, e.get_si()) == x, "parts do not recompose");
}

// ---------------------------------------------------------------- A04
RELATION("A04", to_double, 60000, "the number is not a double, i.e., needs rounding") {
  Dy a;
  switch (c.weighted({4, 5, 3, 3, 1})) {
    case 0: a = gen_dy(c, 200, 400); break;
    case 1: {  // close to a double or to the midpoint of two doubles
      double d = gen_double(c);
      a = dy(d);
      if (c.flip()) {
        double n = std::nextafter(d, c.flip() ? 1e309 : -1e309);
        if (std::isfinite(n)) {
          a = add(a, dy(n));
          a.e -= a.zero() ? 0 : 1;
        }
      }
      if (!c.chance(1, 3) && !a.zero()) {
        long k = c.range(1, 80);
        a = Dy(shl(a.m, k) + c.around(1), a.e - k);
      }
      break;
    }
    case 2: a = Dy(gen_mpz(c, 80), c.range(-1200, -960)); break;
    case 3: a = Dy(gen_mpz(c, 60), c.range(900, 1030)); break;
    default: a = cmp_operand(c); break;
  }
  const Arf x = arf(a);
  c.log() << a;
  const double want = to_double(a);
  const double got = static_cast<double>(x);
  c.nontrivial(a.finite() && dy(want) != a);
  c.cls(!a.finite() ? "infinite" : std::isinf(want) ? "overflow" : want == 0 && !a.zero() ? "underflow to zero" : std::fabs(want) < std::numeric_limits<double>::min() && want != 0 ? "subnormal" : dy(want) == a ? "exact" : "rounded");
  REQUIRE(got == want, std::hexfloat << "got " << got << " instead of " << want << std::defaultfloat);
}

RELATION("A04", double_round_trip, 20000, "not an integer") {
  const double d = gen_double(c);
  c.log() << std::hexfloat << d << std::defaultfloat;
  c.nontrivial(d != std::floor(d));
  REQUIRE(static_cast<double>(Arf(d)) == d, "became " << static_cast<double>(Arf(d)));
}

RELATION("A04", print, 20000, "not an integer, so printed exactly") {
  const Dy a = c.chance(1, 12) ? Dy(c.flip() ? Dy::PINF : Dy::NINF) : c.chance(1, 4) ? Dy(gen_mpz(c, 300), c.around(1L << 40)) : gen_dy(c, 200, 300);
  const Arf x = arf(a);
  std::ostringstream os;
  os << x;
  const std::string s = os.str();
  c.log() << a << " prints as " << s;
  c.nontrivial(a.finite() && a.e < 0);
  std::ostringstream approx;
  if (a.finite()) approx << to_double(a);
  c.cls(!a.finite() ? "infinite" : a.zero() ? "zero" : a.e < 0 ? "fraction" : "integer");
  if (a.kind == Dy::PINF)
    REQUIRE(s == "+∞", s);
  else if (a.kind == Dy::NINF)
    REQUIRE(s == "-∞", s);
  else if (a.zero())
    REQUIRE(s == "0", s);
  else if (a.e >= 0) {
    // An integer is written as its value; the stream's precision applies.
    const auto eq = s.find('=');
    REQUIRE(s.substr(0, eq) == approx.str(), s << " does not start with " << approx.str());
    if (eq != std::string::npos) {
      const auto p = s.find('p', eq);
      REQUIRE(p != std::string::npos && Dy(mpz_class(s.substr(eq + 1, p - eq - 1)), mpz_class(s.substr(p + 1))) == a, s << " is not exact");
    }
  } else {
    const auto eq = s.find('='), p = s.find('p', eq == std::string::npos ? 0 : eq);
    REQUIRE(eq != std::string::npos && p != std::string::npos, s);
    REQUIRE(s.substr(0, eq) == approx.str(), s << " does not start with " << approx.str());
    const Dy parsed(mpz_class(s.substr(eq + 1, p - eq - 1)), mpz_class(s.substr(p + 1)));
    REQUIRE(parsed == a, s << " parses to " << parsed);
    // The exact part can be fed back into the constructor.
    const mpz_class e(s.substr(p + 1));
    if (e.fits_slong_p()) REQUIRE(Arf(s.substr(eq + 1, p - eq - 1), 10, e.get_si()) == x, "does not round trip");
  }
}

RELATION("A04", print_streams, 3000, "at least two numbers") {
  // Printing does not disturb the stream: several numbers in a row.
  const int n = c.range(1, 5);
  std::ostringstream os, expect;
  for (int i = 0; i < n; i++) {
    const Dy a = gen_dy(c, 60, 60);
    c.log() << a << " ";
    std::ostringstream one;
    one << arf(a);
    os << arf(a) << ";";
    expect << one.str() << ";";
  }
  c.nontrivial(n > 1);
  REQUIRE(os.str() == expect.str(), os.str() << " vs " << expect.str());
}
