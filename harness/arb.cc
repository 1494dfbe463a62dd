// Properties of the class Arb (B01, B02, B04).
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>

#include <algorithm>
#include <iomanip>
#include <map>
#include <optional>
#include <utility>
#include <vector>

#include "balls.hpp"
#include "fields.hpp"

using namespace ref;
using exactreal::Arb;
using exactreal::Arf;

// Invoke f with an integer of one of the supported types.
template <typename F>
static void with_integer(pbt::Case& c, F&& f) {
  const long v = gen_long(c);
  switch (c.draw(7)) {
    case 0: c.cls("int"); return f(static_cast<int>(v));
    case 1: c.cls("short"); return f(static_cast<short>(v));
    case 2: c.cls("unsigned short"); return f(static_cast<unsigned short>(v));
    case 3: c.cls("unsigned int"); return f(static_cast<unsigned int>(v));
    case 4: c.cls("long"); return f(v);
    case 5: c.cls("unsigned long"); return f(static_cast<unsigned long>(v));
    case 6: c.cls("long long"); return f(static_cast<long long>(v));
    default: c.cls("unsigned long long"); return f(static_cast<unsigned long long>(v));
  }
}
template <typename T>
static mpz_class z(T v) {
  if constexpr (std::is_signed_v<T>)
    return mpz_class(static_cast<long>(v));
  else
    return mpz_class(static_cast<unsigned long>(v));
}

// ---------------------------------------------------------------- B01
RELATION("B01", exact_constructors, 20000, "a value beyond 32 bits") {
  switch (c.draw(2)) {
    case 0: {
      const mpz_class v = gen_mpz(c, 1000);
      c.log() << "mpz " << v;
      c.cls("mpz");
      c.nontrivial(mpz_sizeinbase(v.get_mpz_t(), 2) > 32);
      const Ball want{Dy(v, 0), Dy()};
      REQUIRE(ball(Arb(v)) == want, "constructed " << ball(Arb(v)));
      Arb x = arb(gen_any_ball(c));
      Arb& ret = (x = v);
      REQUIRE(&ret == &x && ball(x) == want, "assigned " << ball(x));
      break;
    }
    case 1: {
      const Ball preset = gen_any_ball(c);
      with_integer(c, [&](auto v) {
        c.log() << "integer " << z(v);
        c.nontrivial(abs(z(v)) > INT_MAX);
        const Ball want{Dy(z(v), 0), Dy()};
        REQUIRE(ball(Arb(v)) == want, "constructed " << ball(Arb(v)));
        Arb x = arb(preset);
        Arb& ret = (x = v);
        REQUIRE(&ret == &x && ball(x) == want, "assigned " << ball(x));
      });
      break;
    }
    default: {
      const Dy v = c.chance(1, 20) ? Dy(c.flip() ? Dy::PINF : Dy::NINF) : gen_dy(c, 300, 100000);
      c.log() << "Arf " << v;
      c.cls("Arf");
      c.nontrivial(v.bits() > 32);
      REQUIRE(ball(Arb(arf(v))) == (Ball{v, Dy()}), "constructed " << ball(Arb(arf(v))));
    }
  }
}

RELATION("B01", rational_constructor, 30000, "the denominator is not a power of two") {
  const mpq_class v = gen_mpq(c, 400);
  const bool prec = c.flip();
  const long p = prec ? c.range(2, 300) : 64;
  c.log() << "Arb(" << v;
  if (prec) c.log() << ", " << p;
  c.log() << ")";
  const Ball b = ball(prec ? Arb(v, p) : Arb(v));
  c.nontrivial(mpz_popcount(v.get_den_mpz_t()) > 1);
  c.cls(b.exact() ? "exact" : "inexact");
  REQUIRE(contains(b, v), b << " does not contain " << v);
  // The quotient is computed to p bits.
  REQUIRE(v == 0 ? b.exact() : b.exact() || cmp(b.rad, Dy(abs(b.mid.m), b.mid.e + 2 - p)) <= 0, b << " is not precise to " << p << " bits");
  // Numbers that fit need no radius.
  if (mpz_popcount(v.get_den_mpz_t()) == 1 && Dy(v.get_num(), 0).bits() <= p) REQUIRE(b.exact(), b << " should be exact");
}

RELATION("B01", interval_constructor, 30000, "the interval is neither a point nor infinite") {
  Dy lo = gen_dy(c, 200, 200), hi = gen_dy(c, 200, 200);
  if (c.chance(1, 6)) hi = lo;
  if (c.chance(1, 4)) hi = add(lo, Dy(1 + c.draw(100), lo.zero() ? mpz_class(-40) : mpz_class(lo.lead() - c.range(0, 200))));
  if (cmp(lo, hi) > 0) std::swap(lo, hi);
  const int inf = c.weighted({20, 1, 1, 1});
  if (inf & 1) lo = Dy(Dy::NINF);
  if (inf & 2) hi = Dy(Dy::PINF);
  const bool prec = c.flip();
  const long p = prec ? c.range(2, 300) : 0;
  c.log() << "Arb({" << lo << ", " << hi << "}";
  if (prec) c.log() << ", " << p;
  c.log() << ")";
  const Ball b = ball(prec ? Arb(std::pair{arf(lo), arf(hi)}, p) : Arb(std::pair{arf(lo), arf(hi)}));
  c.cls(inf ? "infinite" : lo == hi ? "point" : "interval");
  c.nontrivial(!inf && !(lo == hi));
  REQUIRE(!b.nan() && cmp(b.lo(), lo) <= 0 && cmp(b.hi(), hi) >= 0, b << " does not contain the interval");
  if (!inf) {
    // Not wider than necessary: the midpoint has p bits, the radius 30.
    if (lo == hi && !prec) REQUIRE(b.exact(), b << " is not exact");
    const Dy half = Dy(add(hi, -lo).m, add(hi, -lo).e - 1);
    Dy limit = Dy(half.m * ((1 << 20) + 1), half.e - 20);
    const Dy big = cmp(Dy(abs(lo.m), lo.e), Dy(abs(hi.m), hi.e)) > 0 ? lo : hi;
    if (prec) limit = add(limit, Dy(abs(big.m), big.e + 2 - p));
    REQUIRE(cmp(b.rad, limit) <= 0, b << " is wider than necessary");
  }
}

RELATION("B01", string_constructor, 20000, "a number with digits after the point or a radius") {
  auto number = [&](std::string& s, mpq_class& v, bool sign) {
    std::string digits;
    const int n = c.range(1, c.flip() ? 6 : 40), after = c.chance(1, 3) ? 0 : c.range(0, n);
    mpz_class m = 0;
    for (int i = 0; i < n; i++) {
      if (i == n - after) s += '.';
      const char d = '0' + c.draw(9);
      s += d;
      m = 10 * m + (d - '0');
    }
    if (s.size() && s.back() == '.') s += '0', m *= 1;
    long e = -after;
    if (c.chance(1, 3)) {
      const long k = c.around(30);
      s += "e" + std::to_string(k);
      e += k;
    }
    mpz_class ten = 10, pw;
    mpz_pow_ui(pw.get_mpz_t(), ten.get_mpz_t(), std::labs(e));
    v = e < 0 ? mpq_class(m, pw) : mpq_class(m * pw);
    v.canonicalize();
    if (sign && c.flip()) {
      s = "-" + s;
      v = -v;
    }
  };
  std::string m, r, s;
  mpq_class mid, rad;
  number(m, mid, true);
  const bool radius = c.flip();
  if (radius) {
    number(r, rad, false);
    s = "[" + m + " +/- " + r + "]";
  } else
    s = m;
  const long p = c.range(2, 300);
  c.log() << "Arb(\"" << s << "\", " << p << ")";
  c.nontrivial(radius || m.find('.') != std::string::npos);
  c.cls(radius ? "with radius" : "number");
  const Ball b = ball(Arb(s, p));
  REQUIRE(contains(b, mid - rad) && contains(b, mid + rad), b << " does not contain the interval");
  // FLINT reads both numbers with p bits and stores 30 bits of the radius.
  mpq_class limit = rad * mpq_class((1 << 20) + 1, 1 << 20) + (abs(mid) + rad) / mpq_class(shl(1, p)) * 4;
  REQUIRE(cmp(limit, b.rad) >= 0, b << " is wider than necessary");
}

RELATION("B01", number_field_constructor, 4000, "an irrational element") {
  const Field f = gen_field(c);
  auto K = f.make();
  const int n = c.range(1, 3);
  std::vector<mpq_class> coefficients;
  std::vector<std::pair<long, bool>> calls;
  eantic::renf_elem_class x(*K, 0);
  c.log() << f.polynomial << ": ";
  for (unsigned long i = 0; i < f.degree; i++) coefficients.push_back(gen_mpq(c, 60));
  eantic::renf_elem_class power(*K, 1);
  for (unsigned long i = 0; i < f.degree; i++) {
    x += coefficients[i] * power;
    power *= K->gen();
    c.log() << coefficients[i] << "*a^" << i << " ";
    if (i && coefficients[i] != 0) c.nontrivial();
  }
  c.cls("degree " + std::to_string(f.degree));
  const auto a = generator(f, 9000);
  mpq_class phi = 1, scale = 0;
  for (auto& q : coefficients) {
    scale += abs(q) * phi;
    phi *= f.negative ? -a.first : a.second;
  }
  const auto [lo, hi] = evaluate(coefficients, a);
  // The same element, at several precisions
  for (int i = 0; i < n; i++) {
    const bool prec = c.chance(3, 4);
    const long p = !prec ? 64 : c.chance(1, 12) ? c.range(400, 8000) : c.range(2, 400);
    c.log() << "prec " << p << " ";
    const Ball b = ball(prec ? Arb(x, p) : Arb(x));
    REQUIRE(!b.nan() && cmp(hi, b.lo()) >= 0 && cmp(lo, b.hi()) <= 0, b << " does not contain the element");
    REQUIRE(cmp(mpq_class(scale * 64 / mpq_class(shl(1, p))), b.rad) >= 0, b << " is not precise to " << p << " bits");
  }
}

// ---------------------------------------------------------------- B02
namespace {
using Tri = std::optional<bool>;
std::string str(Tri t) { return t ? *t ? "true" : "false" : "nothing"; }

// The verdicts for two sets given by their bounds.
struct Verdict {
  Tri lt, le, gt, ge, eq, ne;
};
Tri negate(Tri t) { return t ? Tri(!*t) : t; }
Verdict verdict(const Ball& a, const Ball& b) {
  if (a.nan() || b.nan()) return {};
  Verdict v;
  const Dy al = a.lo(), ah = a.hi(), bl = b.lo(), bh = b.hi();
  if (cmp(ah, bl) < 0)
    v.lt = true;
  else if (cmp(al, bh) >= 0)
    v.lt = false;
  if (cmp(al, bh) > 0)
    v.gt = true;
  else if (cmp(ah, bl) <= 0)
    v.gt = false;
  v.le = negate(v.gt);
  v.ge = negate(v.lt);
  if (cmp(ah, bl) < 0 || cmp(bh, al) < 0)
    v.eq = false;
  else if (cmp(al, ah) == 0 && cmp(bl, bh) == 0)
    v.eq = true;
  v.ne = negate(v.eq);
  return v;
}
template <typename T>
void compare(const Arb& a, const T& b, const Verdict& v) {
#define CHECK(op, field)                                                                               \
  {                                                                                                    \
    const Tri got = a op b;                                                                            \
    REQUIRE(got == v.field, #op " returned " << str(got) << " instead of " << str(v.field));           \
  }
  CHECK(<, lt)
  CHECK(<=, le)
  CHECK(>, gt)
  CHECK(>=, ge)
  CHECK(==, eq)
  CHECK(!=, ne)
#undef CHECK
}
void classify(pbt::Case& c, const Verdict& v) {
  c.cls(v.lt ? *v.lt ? "less" : "not less" : "undecided");
  if (v.eq) c.cls(*v.eq ? "equal" : "different");
}
}  // namespace

RELATION("B02", compare_balls, 60000, "at least one of the balls has a radius and the balls touch or overlap") {
  const Ball a = gen_any_ball(c);
  Ball b = gen_any_ball(c);
  const bool finite = a.mid.finite() && a.rad.finite();
  switch (c.weighted({4, 2, 3, 2})) {
    case 0: break;
    case 1: b = a; break;
    case 2:
      if (finite) {
        // touching, or almost so: mid = a.mid ± (a.rad + b.rad) + ε
        if (!b.rad.finite()) b.rad = Dy();
        Dy d = add(a.rad, b.rad);
        if (c.flip()) d = -d;
        b.mid = add(a.mid, d);
        if (c.flip()) b.mid = add(b.mid, Dy(c.around(1), b.mid.zero() ? mpz_class(-100) : mpz_class(b.mid.lead() - c.range(0, 200))));
      }
      break;
    default:
      b.mid = a.mid;
  }
  if (b.mid.kind == Dy::NAN_) b.rad = Dy(Dy::PINF);
  if ((b.mid.kind == Dy::PINF || b.mid.kind == Dy::NINF)) b.rad = Dy();
  c.log() << a << " with " << b;
  const Verdict v = verdict(a, b);
  classify(c, v);
  c.nontrivial((!a.exact() || !b.exact()) && (!v.lt || !v.gt || !v.eq || a.hi() == b.lo() || a.lo() == b.hi()));
  compare(arb(a), arb(b), v);
  compare(arb(b), arb(a), verdict(b, a));
}

RELATION("B02", compare_integers, 40000, "the ball has a radius or the integer is beyond 32 bits") {
  const Ball preset = gen_any_ball(c);
  const int how = c.weighted({2, 3, 2});
  with_integer(c, [&](auto n) {
    Ball a = preset;
    if (how && a.mid.finite() && a.rad.finite()) {
      // next to the integer
      a.mid = Dy(z(n) + (how == 1 ? 0 : c.around(1)), 0);
      if (c.flip()) a.mid = add(a.mid, c.flip() ? a.rad : -a.rad);
    }
    c.log() << a << " with " << z(n);
    const Verdict v = verdict(a, {Dy(z(n), 0), Dy()});
    classify(c, v);
    c.nontrivial(!a.exact() || abs(z(n)) > INT_MAX);
    compare(arb(a), n, v);
  });
}

RELATION("B02", compare_rationals, 40000, "a rational that is not an integer") {
  const mpq_class q = gen_mpq(c, 100);
  Ball a = gen_any_ball(c);
  if (c.flip() && a.mid.finite() && a.rad.finite()) {
    // Close to the rational
    const long p = c.range(10, 150);
    a.mid = round_ratio(q.get_num(), q.get_den(), 0, p, gen_round(c));
    a.rad = c.chance(1, 3) ? Dy() : a.mid.zero() ? Dy(1, -c.range(1, 100)) : Dy(1 + c.draw((1 << 30) - 2), a.mid.lead() - p - 30 + c.around(2));
  }
  c.log() << a << " with " << q;
  c.nontrivial(q.get_den() != 1);
  const Arb x = arb(a);
  // Scale by the denominator to compare with an integer.
  const Verdict v = verdict({Dy(a.mid.kind == Dy::FIN ? Dy(a.mid.m * q.get_den(), a.mid.e) : a.mid), a.rad.finite() ? Dy(a.rad.m * q.get_den(), a.rad.e) : a.rad}, {Dy(q.get_num(), 0), Dy()});
  // A verdict that survives a slightly bigger radius must be reached.
  const Verdict w = verdict({Dy(a.mid.kind == Dy::FIN ? Dy(a.mid.m * q.get_den(), a.mid.e) : a.mid), a.rad.finite() ? Dy(a.rad.m * q.get_den() * ((1 << 20) + 1), a.rad.e - 20) : a.rad}, {Dy(q.get_num(), 0), Dy()});
  classify(c, v);
#define CHECK(op, field)                                                                                              \
  {                                                                                                                   \
    const Tri got = x op q;                                                                                           \
    REQUIRE(!got || got == v.field, #op " returned " << str(got) << " instead of " << str(v.field));                  \
    REQUIRE(got || !w.field, #op " returned nothing instead of " << str(w.field));                                    \
  }
  CHECK(<, lt)
  CHECK(<=, le)
  CHECK(>, gt)
  CHECK(>=, ge)
  CHECK(==, eq)
  CHECK(!=, ne)
#undef CHECK
}

// ---------------------------------------------------------------- B04
RELATION("B04", bounds, 60000, "a ball that is neither exact nor infinite") {
  const Ball b = gen_any_ball(c);
  c.log() << b;
  const Arb x = arb(b);
  c.cls(b.nan() ? "indeterminate" : !b.rad.finite() || !b.mid.finite() ? "infinite" : b.exact() ? "exact" : b.lo().sign() * b.hi().sign() <= 0 ? "contains zero" : "finite");
  c.nontrivial(b.mid.finite() && b.rad.finite() && !b.exact());
  const auto p = static_cast<std::pair<Arf, Arf>>(x);
  const Dy lo = dy(p.first), hi = dy(p.second);
  c.log() << " -> " << lo << ", " << hi;
  if (b.nan()) {
    REQUIRE(lo.kind == Dy::NAN_ && hi.kind == Dy::NAN_, "bounds of an indeterminate are " << lo << ", " << hi);
  } else {
    REQUIRE(lo.kind != Dy::NAN_ && hi.kind != Dy::NAN_ && cmp(lo, b.lo()) <= 0 && cmp(hi, b.hi()) >= 0, "bounds " << lo << ", " << hi << " do not contain " << b);
    if (b.exact() || !b.rad.finite())
      REQUIRE(lo == b.lo() && hi == b.hi(), "bounds " << lo << ", " << hi << " of " << b);
    else {
      const Dy slack = Dy(b.rad.m, b.rad.e + 4);
      REQUIRE(cmp(lo, add(b.lo(), -slack)) >= 0 && cmp(hi, add(b.hi(), slack)) <= 0, "bounds " << lo << ", " << hi << " of " << b << " are too wide");
    }
  }
  REQUIRE(x.is_exact() == b.exact(), "is_exact is " << x.is_exact());
  REQUIRE(x.is_finite() == (b.mid.finite() && b.rad.finite()), "is_finite is " << x.is_finite());
  REQUIRE(dy(static_cast<Arf>(x)) == b.mid, "midpoint is " << dy(static_cast<Arf>(x)));
  const double d = static_cast<double>(x);
  if (b.nan())
    REQUIRE(std::isnan(d), "indeterminate as a double is " << d);
  else
    REQUIRE(d == to_double(b.mid), "midpoint as a double is " << std::hexfloat << d);
  const Ball m = ball(-x);
  REQUIRE(m.mid == -b.mid && m.rad == b.rad, "negated to " << m);
  REQUIRE(ball(x) == b, "changed to " << ball(x));
}

RELATION("B04", midpoint_as_double, 20000, "a midpoint that is not a double") {
  // Midpoints close to ties and to the limits of doubles.
  Dy m;
  const double base = gen_double(c);
  m = dy(base);
  if (c.chance(3, 4) && base != 0) {
    const int k = c.range(52, 60);
    m = add(m, Dy(c.around(5), m.lead() - k));
    if (c.flip()) m = add(m, Dy(c.around(1), m.zero() ? mpz_class(0) : mpz_class(m.lead() - c.range(60, 200))));
  }
  const Ball b{m, gen_rad(c, m)};
  c.log() << b;
  const double want = to_double(m), got = static_cast<double>(arb(b));
  c.nontrivial(!std::isfinite(want) || !(dy(want) == m));
  REQUIRE(got == want, "got " << std::hexfloat << got << " instead of " << want);
}

RELATION("B04", constants, 200, "always") {
  c.nontrivial();
  c.draw(1000);
  const Dy zero, one(1, 0), half(1, -1), pinf(Dy::PINF), ninf(Dy::NINF), nan(Dy::NAN_);
  REQUIRE(ball(Arb::zero()) == (Ball{zero, zero}), ball(Arb::zero()));
  REQUIRE(ball(Arb::one()) == (Ball{one, zero}), ball(Arb::one()));
  REQUIRE(ball(Arb::pos_inf()) == (Ball{pinf, zero}), ball(Arb::pos_inf()));
  REQUIRE(ball(Arb::neg_inf()) == (Ball{ninf, zero}), ball(Arb::neg_inf()));
  REQUIRE(ball(Arb::zero_pm_inf()) == (Ball{zero, pinf}), ball(Arb::zero_pm_inf()));
  REQUIRE(ball(Arb::indeterminate()) == (Ball{nan, pinf}), ball(Arb::indeterminate()));
  REQUIRE(ball(Arb::zero_pm_one()) == (Ball{zero, one}), ball(Arb::zero_pm_one()));
  REQUIRE(ball(Arb::unit_interval()) == (Ball{half, half}), ball(Arb::unit_interval()));
  REQUIRE(ball(Arb()) == (Ball{zero, zero}), ball(Arb()));
}

RELATION("B04", random_elements, 4000, "always") {
  flint_rand_t a, b;
  flint_randinit(a);
  flint_randinit(b);
  const long p = c.range(2, 300), m = c.range(1, 30);
  const int skip = c.draw(50);
  c.log() << "randtest " << p << ", " << m << " after " << skip;
  c.nontrivial();
  Arb x, y, z;
  for (int i = 0; i <= skip; i++) {
    x = Arb::randtest(a, p, m);
    y = Arb::randtest_exact(a, p, m);
  }
  for (int i = 0; i <= skip; i++) {
    arb_randtest(z.arb_t(), b, p, m);
    REQUIRE(i < skip || arb_equal(x.arb_t(), z.arb_t()), "randtest differs from arb_randtest");
    arb_randtest_exact(z.arb_t(), b, p, m);
    REQUIRE(i < skip || arb_equal(y.arb_t(), z.arb_t()), "randtest_exact differs from arb_randtest_exact");
  }
  REQUIRE(y.is_exact(), "not exact");
  flint_randclear(a);
  flint_randclear(b);
}

RELATION("B04", value_semantics, 8000, "at least three copies, moves or swaps in the history") {
  std::vector<Arb> pool(4);
  std::vector<std::optional<Ball>> model(4, Ball{});
  const int steps = c.range(1, 20);
  int structural = 0;
  for (int s = 0; s < steps; s++) {
    const size_t i = c.draw(pool.size() - 1), j = c.draw(pool.size() - 1);
    switch (c.draw(9)) {
      case 0:
        model[i] = gen_any_ball(c);
        pool[i] = arb(*model[i]);
        c.log() << i << ":=" << *model[i] << "; ";
        break;
      case 1: {
        const long v = gen_long(c);
        pool[i] = v;
        model[i] = Ball{Dy(mpz_class(v), 0), Dy()};
        c.log() << i << ":=long " << v << "; ";
        break;
      }
      case 2:
        if (!model[j]) continue;
        pool[i] = static_cast<const Arb&>(pool[j]);
        model[i] = model[j];
        c.log() << i << "=" << j << "; ";
        structural++;
        break;
      case 3: {
        if (!model[j]) continue;
        Arb copy(pool[j]);
        REQUIRE(ball(copy) == *model[j], "copy is " << ball(copy));
        REQUIRE(copy.equal(pool[j]) || model[j]->nan(), "copy is not equal");
        copy = -7;
        c.log() << "copy " << j << "; ";
        structural++;
        break;
      }
      case 4:
        if (!model[j]) continue;
        if (i == j) continue;
        pool[i] = std::move(pool[j]);
        model[i] = model[j];
        model[j].reset();
        c.log() << i << "=move " << j << "; ";
        structural++;
        break;
      case 5: {
        if (!model[j]) continue;
        Arb moved(std::move(pool[j]));
        REQUIRE(ball(moved) == *model[j], "moved to " << ball(moved));
        pool[i] = std::move(moved);
        const auto m = model[j];
        model[j].reset();
        model[i] = m;
        c.log() << i << "=via " << j << "; ";
        structural++;
        break;
      }
      case 6:
        swap(pool[i], pool[j]);
        std::swap(model[i], model[j]);
        c.log() << "swap " << i << " " << j << "; ";
        structural++;
        break;
      case 7: {
        using std::swap;
        swap(pool[i], pool[j]);
        std::swap(model[i], model[j]);
        std::rotate(pool.begin(), pool.begin() + 1, pool.end());
        std::rotate(model.begin(), model.begin() + 1, model.end());
        c.log() << "rotate; ";
        structural++;
        break;
      }
      case 8:
        if (!model[i]) continue;
        pool[i] = -pool[i];
        model[i]->mid = -model[i]->mid;
        c.log() << "negate " << i << "; ";
        break;
      default:
        if (!model[i] || !model[j]) continue;
        REQUIRE(pool[i].equal(pool[j]) == static_cast<bool>(arb_equal(pool[i].arb_t(), pool[j].arb_t())), "equal");
        if (!model[i]->nan() && !model[j]->nan()) REQUIRE(pool[i].equal(pool[j]) == (*model[i] == *model[j]), "equal is wrong for " << *model[i] << " and " << *model[j]);
        break;
    }
    for (size_t k = 0; k < pool.size(); k++)
      if (model[k]) REQUIRE(ball(pool[k]) == *model[k], "element " << k << " is " << ball(pool[k]) << " instead of " << *model[k]);
  }
  c.nontrivial(structural >= 3);
}

RELATION("B04", printing_encloses, 20000, "a ball with a radius") {
  const Ball b = gen_ball(c);
  const int digits = c.range(1, 40);
  std::ostringstream os;
  os << std::setprecision(digits) << arb(b);
  std::string s = os.str();
  c.log() << b << " with " << digits << " digits printed as " << s;
  c.nontrivial(!b.exact());
  // Parse "m", "[m +/- r]" or "[+/- r]"
  auto parse = [](std::string t) {
    bool neg = false;
    mpz_class m = 0;
    long e = 0;
    bool point = false;
    size_t i = 0;
    if (i < t.size() && t[i] == '-') neg = true, i++;
    REQUIRE(i < t.size() && isdigit(t[i]), "cannot parse " << t);
    for (; i < t.size() && t[i] != 'e'; i++) {
      if (t[i] == '.') {
        point = true;
        continue;
      }
      REQUIRE(isdigit(t[i]), "cannot parse " << t);
      m = 10 * m + (t[i] - '0');
      if (point) e--;
    }
    if (i < t.size()) e += std::stol(t.substr(i + 1));
    mpz_class ten = 10, pw;
    mpz_pow_ui(pw.get_mpz_t(), ten.get_mpz_t(), std::labs(e));
    mpq_class v = e < 0 ? mpq_class(m, pw) : mpq_class(m * pw);
    v.canonicalize();
    return neg ? mpq_class(-v) : v;
  };
  mpq_class mid = 0, rad = 0;
  if (s[0] == '[') {
    const auto at = s.find("+/- ");
    REQUIRE(at != std::string::npos && s.back() == ']', "cannot parse");
    if (at > 1) mid = parse(s.substr(1, at - 2));
    rad = parse(s.substr(at + 4, s.size() - at - 5));
  } else
    mid = parse(s);
  REQUIRE(cmp(mpq_class(mid - rad), b.lo()) <= 0 && cmp(mpq_class(mid + rad), b.hi()) >= 0, "printed interval does not contain the ball");
}
