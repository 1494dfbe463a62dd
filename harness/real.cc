// Properties of real numbers (R01 … R08) and seeds (S01).
#include <unistd.h>

#include <random>

#include <algorithm>
#include <atomic>
#include <set>
#include <thread>
#include <unordered_set>

#include "reals.hpp"

using namespace ref;
using exactreal::Arb;
using exactreal::Arf;

// ---------------------------------------------------------------- S01
RELATION("S01", seeds_are_distinct, 4000, "seeds are requested explicitly and implicitly in one history") {
  std::set<unsigned int> seen;
  std::vector<Real> reals;
  bool implicit = false;
  const int n = c.range(2, 30);
  for (int i = 0; i < n; i++) {
    switch (c.draw(4)) {
      case 0: {
        const Seed s;
        c.log() << "Seed() ";
        REQUIRE(seen.insert(s.value).second, "Seed() returned " << s.value << " again");
        break;
      }
      case 1: {
        // Fixed seeds do not influence what is coming
        const unsigned v = static_cast<unsigned>(c.draw(UINT32_MAX));
        c.log() << "Seed(" << v << ") ";
        REQUIRE(Seed(v).value == v, "Seed(" << v << ").value is " << Seed(v).value);
        break;
      }
      case 2: {
        c.log() << "copy ";
        const Seed s;
        const Seed t(s), u = s;
        REQUIRE(t.value == s.value && u.value == s.value, "copied seed differs");
        REQUIRE(seen.insert(s.value).second, "Seed() returned " << s.value << " again");
        break;
      }
      case 3: {
        implicit = true;
        const int what = c.draw(2);
        c.log() << "random" << what << " ";
        Real r = what == 0 ? RealNumber::random() : what == 1 ? RealNumber::random(1.5) : RealNumber::random(Arf(1), Arf(2));
        for (auto& x : reals) REQUIRE(x != r && !(*x == *r), "the same random number was generated again");
        reals.push_back(r);
        break;
      }
      default: {
        implicit = true;
        c.log() << "dropped ";
        RealNumber::random();
      }
    }
  }
  c.nontrivial(implicit && seen.size());
}

RELATION("S01", many_seeds, 2, "at least 2^17 seeds") {
  // Seeds in one long history
  const size_t n = size_t(1) << c.range(12, 20);
  const unsigned mod = 1 + static_cast<unsigned>(c.draw(1000));
  c.log() << n << " seeds, every " << mod << "th for a random number ";
  std::vector<unsigned> seeds;
  std::set<const RealNumber*> distinct;
  std::vector<Real> alive;
  for (size_t i = 0; i < n; i++) {
    if (i % mod == mod - 1 && alive.size() < 100000) {
      alive.push_back(RealNumber::random());
      distinct.insert(&*alive.back());
    } else
      seeds.push_back(Seed().value);
  }
  c.nontrivial(n >= 1 << 17);
  const size_t count = seeds.size();
  REQUIRE(distinct.size() == alive.size(), alive.size() - distinct.size() << " random numbers were generated again");
  std::sort(seeds.begin(), seeds.end());
  auto dup = std::adjacent_find(seeds.begin(), seeds.end());
  REQUIRE(dup == seeds.end(), "Seed() returned " << *dup << " again among " << count << " seeds");
  // None of the explicit seeds is in use by a random number
  for (int i = 0; i < 1000 && !seeds.empty(); i++) {
    const unsigned s = seeds[c.draw(seeds.size() - 1)];
    REQUIRE(!distinct.count(&*RealNumber::random(Seed(s))), "seed " << s << " is also the seed of an earlier random number");
  }
}

RELATION_SCHEDULES("S01", seeds_of_threads_are_distinct, 60, "at least three threads request seeds at the same time") {
  // "different from any previously generated random seed in this process"
  const pbt::Recycle none(false);
  const int nthreads = c.range(2, 8);
  // The simplest case is the largest one as that is the most likely to fail again
  const size_t n = 20000 - c.draw(19999);
  c.log() << nthreads << " threads request " << n << " seeds each ";
  c.nontrivial(nthreads >= 3 && n > 100);
  std::vector<std::vector<unsigned>> seeds(nthreads);
  std::atomic<int> ready{0};
  {
    std::vector<std::thread> threads;
    for (auto& s : seeds) {
      s.resize(n);
      threads.emplace_back([&s, &ready, nthreads]() {
        ready++;
        while (ready < nthreads) std::this_thread::yield();
        for (auto& v : s) v = Seed().value;
      });
    }
    for (auto& t : threads) t.join();
  }
  std::vector<unsigned> all;
  for (auto& s : seeds) all.insert(all.end(), s.begin(), s.end());
  std::sort(all.begin(), all.end());
  const auto dup = std::adjacent_find(all.begin(), all.end());
  REQUIRE(dup == all.end(), "Seed() returned " << *dup << " in two threads");
}

RELATION("S01", seeds_determine_the_number, 2000, "a seed beyond the first dozen") {
  const Base b = gen_base(c);
  c.log() << b << " ";
  c.nontrivial(b.seed > 12);
  std::vector<std::pair<long, Dy>> first;
  {
    Real x = b.make();
    const int n = c.range(1, 5);
    for (int i = 0; i < n; i++) {
      const long p = c.range(0, 300);
      c.log() << p << " ";
      first.push_back({p, dy(x->arf(p))});
    }
  }
  // Other numbers are created in between
  std::vector<Real> other;
  const int n = c.draw(3);
  for (int i = 0; i < n; i++) other.push_back(gen_base(c).make());
  Real y = b.make();
  std::reverse(first.begin(), first.end());
  for (auto& [p, v] : first) REQUIRE(dy(y->arf(p)) == v, "approximation to " << p << " bits changed from " << v << " to " << dy(y->arf(p)));
}

RELATION("S01", seeds_give_different_numbers, 6000, "seeds that are related by their binary representation") {
  Base a = gen_base(c), b = a;
  if (c.flip()) a.seed = b.seed = c.draw(0xffffffff);
  const int relation = c.draw(7);
  switch (relation) {
    case 0: b.seed += 1 + c.draw(3) * c.draw(1 << 20); break;
    case 1: b.seed = -a.seed; break;
    case 2: b.seed = ~a.seed; break;
    case 3: b.seed ^= 1u << c.draw(31); break;
    case 4: b.seed = (a.seed << 16) | (a.seed >> 16); break;
    case 5: b.seed = a.seed << c.range(1, 31); break;
    case 6: b.seed = a.seed >> c.range(1, 31); break;
    default: b.seed &= 0xffffffff >> c.range(1, 31); break;
  }
  if (a.seed == b.seed) b.seed++;
  c.log() << a << " and " << b << " ";
  c.nontrivial(relation != 0);
  Real x = a.make(), y = b.make();
  REQUIRE(x != y && !(*x == *y), "are the same number");
  REQUIRE(dy(x->arf(2000)) != dy(y->arf(2000)), "have the same digits");
  REQUIRE((*x < *y) != (*y < *x), "are not ordered");
}

// ---------------------------------------------------------------- R01
// |v - a| <= 2^-p |v|
static void require_close(const Arf& arf, const long p, const En& v) {
  const Dy a = dy(arf);
  REQUIRE(a.finite(), "arf(" << p << ") is " << a);
  const mpq_class A = q(a), scale = p <= 0 ? mpq_class(shl(1, -p)) : mpq_class(1, shl(1, p));
  mpq_class worst = abs(v.lo - A), other = abs(v.hi - A);
  if (other < worst) worst = other;  // give the benefit of the doubt
  if (v.lo <= A && A <= v.hi) worst = 0;
  mpq_class size = abs(v.lo) > abs(v.hi) ? abs(v.lo) : abs(v.hi);
  REQUIRE(worst <= scale * size, "arf(" << p << ") is " << a << " which is off by more than 2^-" << p << " relative to " << v);
}

RELATION("R01", arf_relative_error, 6000, "a number that is not a dyadic rational") {
  Pool P(c, c.range(1, 4));
  const Num x = P.gen(6);
  c.cls(kind(x));
  const En v = P.enclose(x, HIGH);
  c.nontrivial(!x.rational || mpz_popcount(x.rational->get_den_mpz_t()) > 1);
  const int n = c.range(1, c.chance(1, 40) ? 300 : 8);
  for (int i = 0; i < n; i++) {
    const long p = c.weighted({1, 8, 4}) == 1 ? c.range(0, 140) : c.range(-5, 1200);
    c.log() << p << " ";
    require_close(x.p->arf(p), p, v);
  }
  // Asking again gives the same.
  const long p = c.range(0, 200);
  REQUIRE(dy(x.p->arf(p)) == dy(x.p->arf(p)), "arf(" << p << ") changes");
}

RELATION("R01", approximations_to_thousands_of_bits, 600, "a number that is not a dyadic rational") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(4);
  const long precision = c.pick(std::vector<long>{3001, 6007, 14009});
  const En v = P.enclose(x, precision);
  c.cls(kind(x));
  c.nontrivial(!x.rational || mpz_popcount(x.rational->get_den_mpz_t()) > 1);
  const int n = c.range(1, 4);
  for (int i = 0; i < n; i++) {
    const long p = c.chance(1, 4) ? c.range(0, 200) : c.range(200, precision - 100);
    c.log() << p << " ";
    require_close(x.p->arf(p), p, v);
  }
}

RELATION("R01", rational_value, 4000, "a rational that is not an integer") {
  const mpq_class r = gen_mpq(c, 300);
  c.log() << r;
  const Real x = RealNumber::rational(r);
  c.nontrivial(r.get_den() != 1);
  const auto back = static_cast<std::optional<mpq_class>>(*x);
  REQUIRE(back && *back == r, "is not the rational");
  REQUIRE(static_cast<bool>(*x) == (r != 0), "bool is wrong");
  Pool P(c, 2);
  const Num y = P.gen(4, false);
  REQUIRE(!static_cast<std::optional<mpq_class>>(*y.p), "a random number is rational");
  REQUIRE(static_cast<bool>(*y.p), "a random number is zero");
}

// ---------------------------------------------------------------- R02
static void require_contained(const Arb& arb, const En& v, const char* what) {
  const Ball b = ball(arb);
  REQUIRE(!b.nan() && cmp(v.hi, b.lo()) >= 0 && cmp(v.lo, b.hi()) <= 0, what << " " << b << " does not contain the number " << v);
}

RELATION("R02", arb_contains, 6000, "a number that is not a dyadic rational") {
  Pool P(c, c.range(1, 4));
  const Num x = P.gen(5);
  c.cls(kind(x));
  c.nontrivial(!x.rational || mpz_popcount(x.rational->get_den_mpz_t()) > 1);
  const En v = P.enclose(x, HIGH);
  const int n = c.range(1, 6);
  for (int i = 0; i < n; i++) {
    const long p = c.weighted({4, 1}) ? c.range(1, 1000) : c.range(1, 70);
    c.log() << p << " ";
    const Arb b = x.p->arb(p);
    require_contained(b, v, "arb()");
    if (static_cast<bool>(*x.p)) REQUIRE(arb_rel_accuracy_bits(b.arb_t()) == p, "arb(" << p << ") has accuracy " << arb_rel_accuracy_bits(b.arb_t()));
  }
}

RELATION("R02", balls_to_thousands_of_bits, 600, "a number that is not a dyadic rational") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(4);
  if (x.rational && *x.rational == 0) throw pbt::Discard{};
  const long precision = c.pick(std::vector<long>{3001, 6007, 14009});
  const En v = P.enclose(x, precision);
  c.cls(kind(x));
  c.nontrivial(!x.rational || mpz_popcount(x.rational->get_den_mpz_t()) > 1);
  Arb b = Arb::zero_pm_inf();
  const int n = c.range(1, 4);
  for (int i = 0; i < n; i++) {
    const long p = c.chance(1, 4) ? c.range(1, 200) : c.range(200, precision - 100);
    if (c.flip()) {
      c.log() << p << " ";
      b = x.p->arb(p);
    } else {
      c.log() << "refine " << p << " ";
      x.p->refine(b, p);
    }
    require_contained(b, v, "ball");
    REQUIRE(arb_rel_accuracy_bits(b.arb_t()) >= p, "accuracy is only " << arb_rel_accuracy_bits(b.arb_t()));
  }
}

RELATION("R02", refine_contains, 6000, "at least two refinements of a number that is not a dyadic rational") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(5);
  if (x.rational && *x.rational == 0) throw pbt::Discard{};
  c.cls(kind(x));
  const En v = P.enclose(x, HIGH);
  // A ball that contains the number
  Arb b;
  switch (c.draw(3)) {
    case 0: b = Arb::zero_pm_inf(); break;
    case 1: b = x.p->arb(c.range(1, 200)); break;
    default: {
      const Dy m = round_ratio(v.lo.get_num(), v.lo.get_den(), 0, c.range(2, 60), gen_round(c));
      Ball w{m, Dy(1 + c.draw(1 << 20), m.lead() - c.range(0, 80))};
      b = arb(w);
      if (cmp(v.lo, w.lo()) < 0 || cmp(v.hi, w.hi()) > 0) throw pbt::Discard{};
    }
  }
  c.log() << "starting from " << ball(b) << " ";
  const int n = c.range(1, 6);
  c.nontrivial(n > 1 && (!x.rational || mpz_popcount(x.rational->get_den_mpz_t()) > 1));
  for (int i = 0; i < n; i++) {
    const long p = c.weighted({4, 1}) ? c.range(1, 1000) : c.range(1, 70);
    c.log() << "refine " << p << " ";
    const Ball before = ball(b);
    const bool good = arb_rel_accuracy_bits(b.arb_t()) >= p;
    x.p->refine(b, p);
    const Ball after = ball(b);
    require_contained(b, v, "refine()");
    REQUIRE(arb_rel_accuracy_bits(b.arb_t()) >= p, "accuracy is only " << arb_rel_accuracy_bits(b.arb_t()));
    if (good) REQUIRE(after == before, "a ball that was good enough changed to " << after);
    if (before.rad.finite()) REQUIRE(cmp(after.rad, Dy(before.rad.m, before.rad.e + 2)) <= 0, "the ball grew from " << before << " to " << after);
  }
}

RELATION("R02", huge_exponents, 2500, "an exponent that does not fit into a long") {
  // Products of random numbers in intervals whose end points have exponents just about as big as possible.
  const int n = c.range(1, 8);
  const bool negative = c.flip();
  const bool cancel = c.chance(1, 4);
  Real x;
  Dy value(1, 0);
  mpz_class shift = 0;
  for (int i = 0; i < n; i++) {
    Base b;
    b.kind = Base::INTERVAL;
    b.seed = static_cast<unsigned>(c.draw(3));
    b.a = Dy(1 + c.draw(20), 0);
    if (c.flip()) b.a.m = -b.a.m;
    b.b = add(b.a, Dy(1, b.a.lead() - c.range(1, 30)));
    mpz_class e = shl(1, 61) - 200 - (c.flip() ? mpz_class(c.draw(300)) : mpz_class(static_cast<unsigned long>(c.draw(1ul << 60))));
    if (negative != (cancel && c.flip())) e = -e;
    b.a.e += e;
    b.b.e += e;
    c.log() << b << " * ";
    const Real f = b.make();
    Dy m = dy(f->arf(HIGH));
    m.e -= e;
    REQUIRE(mpz_sizeinbase(m.e.get_mpz_t(), 2) < 20, "the exponent of the random number is off by " << m.e);
    value = mul(value, m);
    shift += e;
    x = x ? *x * *f : f;
  }
  c.cls(mpz_sizeinbase(shift.get_mpz_t(), 2) > 63 ? "exponent of more than 63 bits" : mpz_sizeinbase(shift.get_mpz_t(), 2) > 61 ? "exponent of 62 or 63 bits" : "smaller exponent");
  c.nontrivial(mpz_sizeinbase(shift.get_mpz_t(), 2) > 62);
  // The value up to the power of two (each factor was off by at most 2^-HIGH)
  const mpq_class mid = q(value), err = abs(mid) / mpq_class(shl(1, HIGH - 8));
  const En v{mid - err, mid + err};
  const auto scaled = [&](Dy d) {
    d.e -= shift;
    REQUIRE(d.finite() && mpz_sizeinbase(d.e.get_mpz_t(), 2) < 20, "the exponent is off by " << d.e);
    return d;
  };
  Arb refined = Arb::zero_pm_inf();
  const int rounds = c.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    const long p = c.range(1, c.flip() ? 70 : 1000);
    c.log() << p << " ";
    const Arb b = x->arb(p);
    x->refine(refined, p);
    for (const Arb* arb : {&b, &static_cast<const Arb&>(refined)}) {
      const Ball w = ball(*arb);
      REQUIRE(w.mid.finite() && w.rad.finite(), "the ball is " << w);
      REQUIRE(cmp(v.hi, scaled(w.lo())) >= 0 && cmp(v.lo, scaled(w.hi())) <= 0, "the ball " << w << " does not contain the number " << v << " times 2^" << shift);
      REQUIRE(arb_rel_accuracy_bits(arb->arb_t()) >= p, "the accuracy of the ball " << w << " is only " << arb_rel_accuracy_bits(arb->arb_t()));
    }
    const Dy a = scaled(dy(x->arf(p)));
    REQUIRE(abs(q(a) - mid) <= abs(mid) / mpq_class(shl(1, p)) + err, "arf(" << p << ") is " << a << " instead of " << v);
    // Close by numbers that are not the number
    const Dy below = round_ratio(v.lo.get_num(), v.lo.get_den(), 0, p, Round::FLOOR), above = round_ratio(v.hi.get_num(), v.hi.get_den(), 0, p, Round::CEIL);
    ordered(*x, arf(Dy(below.m, below.e + shift)), 1, "comparison with a lower bound");
    ordered(*x, arf(Dy(above.m, above.e + shift)), -1, "comparison with an upper bound");
  }
  ordered(*x, *RealNumber::rational(0), sgn(mid), "comparison with zero");
  if (sgn(shift) < 0 || mpz_sizeinbase(shift.get_mpz_t(), 2) > 20) {
    const double d = static_cast<double>(*x), want = to_double(Dy(value.m, value.e + shift));
    REQUIRE(d == want, "as a double it is " << d << " instead of " << want);
  }
}

// ---------------------------------------------------------------- R03

RELATION("R03", compare_reals, 4000, "two numbers that are not rational or agree in many digits") {
  Pool P(c, c.range(1, 4));
  const Num x = P.gen(4);
  Num y = P.gen(4);
  if (c.chance(1, 3)) {
    // A rational that agrees with x in many digits
    const En v = P.enclose(x, HIGH);
    const long p = c.range(1, 600);
    const Dy d = round_ratio(v.lo.get_num(), v.lo.get_den(), 0, p, gen_round(c));
    if (v.lo != 0) {
      y = {RealNumber::rational(q(d)), q(d), {}};
      c.log() << "rational " << d;
    }
  }
  const En v = P.enclose(x, HIGH), w = P.enclose(y, HIGH);
  int want = v.hi < w.lo ? -1 : v.lo > w.hi ? 1 : 2;
  if (x == y) want = 0;
  if (want == 2) throw pbt::Discard{};
  c.cls(std::string(kind(x)) + " and " + kind(y));
  c.nontrivial((!x.rational && !y.rational) || abs(v.lo - w.lo) * 1000000 < abs(v.lo));
  ordered(*x.p, *y.p, want, "comparison");
}

RELATION("R03", compare_scalars, 12000, "the number agrees with what it is compared to in many digits") {
  Pool P(c, c.range(1, 3));
  Num x = P.gen(4);
  if (c.chance(1, 4)) {
    const mpz_class n = gen_mpz(c, 80);
    x = {RealNumber::rational(n), mpq_class(n), {}};
    c.log() << "integer " << n << " ";
  }
  c.cls(kind(x));
  const En v = P.enclose(x, HIGH);
  const mpq_class near = v.lo;
  auto close = [&](const mpq_class& o) { c.nontrivial(abs(near - o) * 1000 <= abs(near)); };
  switch (c.draw(3)) {
    case 0: {
      Dy d;
      if (near != 0 && c.chance(3, 4)) {
        d = round_ratio(near.get_num(), near.get_den(), 0, c.range(1, 600), gen_round(c));
        if (c.chance(1, 3)) d = add(d, Dy(c.around(2), d.lead() - c.range(1, 500)));
      } else
        d = gen_dy(c);
      const int want = cmp(v, d);
      if (want == 2) throw pbt::Discard{};
      c.log() << "with Arf " << d;
      close(q(d));
      ordered(*x.p, arf(d), want, "comparison with Arf");
      c.cls(want ? "different" : "equal");
      break;
    }
    case 1: {
      mpq_class r = gen_mpq(c, 100);
      if (c.chance(3, 4)) {
        const mpz_class den = 1 + abs(gen_mpz(c, 300));
        r = mpq_class(mpz_class(near * den), den);
        r.canonicalize();
      }
      if (x.rational && c.flip()) r = *x.rational;
      const int want = cmp(v, r);
      if (want == 2) throw pbt::Discard{};
      c.log() << "with rational " << r;
      close(r);
      ordered(*x.p, r, want, "comparison with a rational");
      c.cls(want ? "different" : "equal");
      break;
    }
    case 2: {
      mpz_class z = c.chance(3, 4) ? mpz_class(near) + c.around(1) : gen_mpz(c, 300);
      const int want = cmp(v, mpq_class(z));
      if (want == 2) throw pbt::Discard{};
      c.log() << "with integer " << z;
      close(z);
      ordered(*x.p, z, want, "comparison with an integer");
      c.cls(want ? "different" : "equal");
      break;
    }
    default: {
      const mpz_class z = mpz_class(near) + c.around(1);
      const long n = c.chance(3, 4) && z.fits_slong_p() ? z.get_si() : gen_long(c);
      c.log() << "with native " << n;
      auto check = [&](auto value) {
        mpz_class w = std::is_signed_v<decltype(value)> ? mpz_class(static_cast<long>(value)) : mpz_class(static_cast<unsigned long>(value));
        close(w);
        const int want = cmp(v, mpq_class(w));
        if (want == 2) throw pbt::Discard{};
        c.cls(want ? "different" : "equal");
        ordered(*x.p, value, want, "comparison with a native integer");
      };
      switch (c.draw(7)) {
        case 0: return check(static_cast<int>(n));
        case 1: return check(n);
        case 2: return check(static_cast<unsigned int>(n));
        case 3: return check(static_cast<unsigned long>(n));
        case 4: return check(static_cast<short>(n));
        case 5: return check(static_cast<unsigned short>(n));
        case 6: return check(static_cast<signed char>(n));
        default: return check(static_cast<unsigned char>(n));
      }
    }
  }
}

RELATION("R03", thousands_of_bits, 1500, "a number that is not rational") {
  // What it is compared to agrees in thousands of bits
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(3);
  const long precision = c.pick(std::vector<long>{3001, 6007, 14009}), p = precision - 200 - c.range(0, precision / 3);
  const En v = P.enclose(x, precision);
  if (v.lo == 0) throw pbt::Discard{};
  c.cls(std::string(kind(x)) + " to " + std::to_string(p / 1000) + "000 bits");
  c.nontrivial(!x.rational);
  const Dy d = round_ratio(v.lo.get_num(), v.lo.get_den(), 0, p, gen_round(c));
  const int want = cmp(v, d);
  if (want == 2) throw pbt::Discard{};
  c.log() << "to " << p << " bits ";
  switch (c.draw(3)) {
    case 0: return ordered(*x.p, arf(d), want, "comparison with Arf");
    case 1: return ordered(*x.p, q(d), want, "comparison with a rational");
    case 2: return ordered(*x.p, *RealNumber::rational(q(d)), want, "comparison with a rational number");
    default: {
      const Ball b{d, Dy()};
      const int got = x.p->cmp(arb(b));
      REQUIRE(got == want, "comparison with a ball is " << got << " instead of " << want);
    }
  }
}

RELATION("R03", compare_balls, 8000, "the ball contains the number or ends close to it") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(4);
  c.cls(kind(x));
  const En v = P.enclose(x, HIGH);
  Ball b = gen_any_ball(c);
  if (v.lo != 0 && c.chance(3, 4)) {
    const Dy d = round_ratio(v.lo.get_num(), v.lo.get_den(), 0, c.range(2, 300), gen_round(c));
    b.rad = Dy(c.draw((1 << 30) - 1), d.lead() - c.range(0, 300));
    switch (c.draw(2)) {
      case 0: b.mid = d; break;
      case 1: b.mid = add(d, b.rad); break;
      default: b.mid = add(d, -b.rad);
    }
  }
  c.log() << "with " << b;
  int want = 0;
  if (!b.nan()) {
    const Dy lo = b.lo(), hi = b.hi();
    const int l = lo.finite() ? cmp(v, lo) : lo.sign() < 0 ? 1 : -1, h = hi.finite() ? cmp(v, hi) : hi.sign() < 0 ? 1 : -1;
    if (l == 2 || h == 2) throw pbt::Discard{};
    want = l < 0 ? -1 : h > 0 ? 1 : 0;
    c.nontrivial(want == 0 || (lo.finite() && abs(v.lo - q(lo)) * 1000 <= abs(v.lo)) || (hi.finite() && abs(v.lo - q(hi)) * 1000 <= abs(v.lo)));
  }
  c.cls(b.nan() ? "indeterminate" : want < 0 ? "left of the ball" : want > 0 ? "right of the ball" : "contained");
  const int got = x.p->cmp(arb(b));
  REQUIRE(got == want, "cmp is " << got << " instead of " << want);
}

RELATION("R03", sorting_is_consistent, 1500, "at least four numbers") {
  Pool P(c, c.range(2, 5));
  std::vector<Num> nums;
  const int n = c.range(2, 9);
  for (int i = 0; i < n; i++) nums.push_back(P.gen(3));
  c.nontrivial(n >= 4);
  std::sort(nums.begin(), nums.end(), [](const Num& a, const Num& b) { return *a.p < *b.p; });
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      REQUIRE(*nums[i].p <= *nums[j].p, "sorted numbers " << i << " and " << j << " are not in order");
      const En v = P.enclose(nums[i], HIGH), w = P.enclose(nums[j], HIGH);
      REQUIRE(v.lo <= w.hi, "sorted numbers " << i << " and " << j << " are not in order");
      REQUIRE((*nums[i].p == *nums[j].p) == (nums[i] == nums[j]), "equality of " << i << " and " << j << " is wrong");
    }
}

// A known finding: numbers with the same seed can be scaled versions of each
// other, so their products can be equal without being the same object.
RELATION("R03", compare_non_finite, 3000, "compared to an infinity") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(4);
  const int kind = c.draw(2);
  c.log() << (kind == 0 ? "+inf" : kind == 1 ? "-inf" : "nan");
  c.nontrivial(kind != 2);
  const Arf y = arf(Dy(kind == 0 ? Dy::PINF : kind == 1 ? Dy::NINF : Dy::NAN_));
  switch (kind) {
    case 0: return ordered(*x.p, y, -1, "comparison to infinity");
    case 1: return ordered(*x.p, y, 1, "comparison to negative infinity");
    default: {
      // Nothing is comparable to NaN
      const RealNumber& r = *x.p;
      REQUIRE(!(r == y) && !(r < y) && !(r > y), "comparable to NaN");
      REQUIRE(!(y == r) && !(y < r) && !(y > r), "NaN is comparable");
      REQUIRE(r != y && y != r, "equal to NaN");
    }
  }
}

RELATION("R03", compare_huge_exponents, 3000, "two numbers whose logarithms differ by a lot") {
  // Products of random numbers in intervals whose end points have big exponents, compared to each other and to rational numbers
  struct Big {
    Real p;
    Dy m;
    mpz_class shift;
    std::map<const RealNumber*, int> factors;
  };
  const auto gen = [&]() {
    Big r;
    r.m = Dy(1, 0);
    const int n = c.range(1, 4);
    for (int i = 0; i < n; i++) {
      Base b;
      b.kind = Base::INTERVAL;
      b.seed = static_cast<unsigned>(c.draw(3));
      b.a = Dy(c.flip() ? 1 : -3, 0);
      b.b = add(b.a, Dy(1, 0));
      if (b.b.zero()) throw pbt::Discard{};
      mpz_class e = shl(1, c.range(4, 61)) - c.range(0, 3);
      if (c.chance(1, 4)) e = 0;
      if (c.flip()) e = -e;
      b.a.e += e;
      b.b.e += e;
      c.log() << b << " * ";
      const Real f = b.make();
      Dy m = dy(f->arf(HIGH));
      m.e -= e;
      REQUIRE(mpz_sizeinbase(m.e.get_mpz_t(), 2) < 20, "the exponent of the random number is off by " << m.e);
      r.m = mul(r.m, m);
      r.shift += e;
      r.factors[&*f]++;
      r.p = r.p ? *r.p * *f : f;
    }
    c.log() << "1, ";
    return r;
  };
  const Big x = gen(), y = gen();
  const Dy v(x.m.m, x.m.e + x.shift), w(y.m.m, y.m.e + y.shift);
  c.nontrivial(mpz_sizeinbase(mpz_class(x.shift - y.shift).get_mpz_t(), 2) > 20);
  // Approximations are off by a relative error of less than 2^-HIGH for each factor
  const Dy d = x.shift == y.shift ? add(x.m, -y.m) : Dy(1, 0);
  const bool same = x.factors == y.factors;
  if (same || (!d.zero() && d.lead() > x.m.lead() - HIGH + 20)) ordered(*x.p, *y.p, same ? 0 : cmp(v, w), "comparison");
  ordered(*x.p, *RealNumber::rational(0), v.sign(), "comparison to the real number zero");
  ordered(*x.p, Arf(0), v.sign(), "comparison to the floating point number zero");
  ordered(*x.p, mpz_class(0), v.sign(), "comparison to the integer zero");
  ordered(*x.p, mpq_class(0), v.sign(), "comparison to the rational zero");
  const mpq_class r = gen_mpq(c, 20);
  c.log() << r;
  if (mpz_sizeinbase(x.shift.get_mpz_t(), 2) > 8 && r != 0) {
    const int want = v.sign() != sgn(r) ? v.sign() : sgn(x.shift) * v.sign();
    ordered(*x.p, r, want, "comparison to a rational");
    ordered(*x.p, *RealNumber::rational(r), want, "comparison to a rational real number");
    if (r.get_den() == 1) ordered(*x.p, r.get_num(), want, "comparison to an integer");
  }
}

RELATION("R03", products_of_scaled_numbers, 1, "always") {
  c.log() << "random(-1, 1, 0) * random(-4, 4, 0) and random(0)^2";
  c.nontrivial();
  const Real x = RealNumber::random(Seed(0)), y = RealNumber::random(Arf(-1), Arf(1), Seed(0)), z = RealNumber::random(Arf(-4), Arf(4), Seed(0));
  const Real a = *x * *x, b = *y * *z;
  const Dy v = dy(a->arf(HIGH)), w = dy(b->arf(HIGH));
  if (!(v == w)) return;
  // Terminates this process when the comparison does not terminate.
  alarm(2);
  const bool lt = *a < *b;
  alarm(0);
  REQUIRE(*a == *b && !lt, "equal numbers are not equal");
}

// ---------------------------------------------------------------- R04
RELATION("R04", random_in_interval, 10000, "an interval that does not have the end points 0 and 1") {
  Base b;
  b.kind = Base::INTERVAL;
  b.seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  const int style = c.weighted({3, 2, 2, 1, 1});
  b.a = gen_dy(c, 200, 400);
  b.b = gen_dy(c, 200, 400);
  if (style == 1) b.b = add(b.a, Dy(1 + c.draw(5), b.a.zero() ? mpz_class(c.around(30)) : mpz_class(b.a.lead() - c.range(0, 300))));
  if (style == 2) b.a = Dy(c.around(3), 0), b.b = Dy(c.around(3), 0);
  if (style == 3) b.b = b.a;
  if (style == 4) b.b = -b.a;
  c.log() << b;
  if (cmp(b.a, b.b) >= 0) {
    c.cls("invalid");
    bool thrown = false;
    try {
      b.make();
    } catch (const std::exception&) {
      thrown = true;
    }
    REQUIRE(thrown, "no exception for an interval without interior");
    std::swap(b.a, b.b);
    if (b.a == b.b) return;
    c.log() << " " << b;
  }
  c.cls(b.a.sign() < 0 ? b.b.sign() > 0 ? "around zero" : "negative" : "positive");
  c.nontrivial(!(b.a.zero() && b.b == Dy(1, 0)));
  const Real x = b.make();
  const Dy m = dy(x->arf(HIGH));
  // The number is in [a, b]
  const mpq_class M = q(m), err = abs(M) / mpq_class(shl(1, HIGH - 1));
  REQUIRE(M + err >= q(b.a) && M - err <= q(b.b), "the number is " << M.get_d());
  REQUIRE(*x >= arf(b.a) && *x <= arf(b.b), "comparisons place the number outside of the interval");
  REQUIRE(x->cmp(Arb(std::pair{arf(b.a), arf(b.b)})) == 0, "the interval does not contain the number");
}

RELATION("R04", numbers_are_spread_over_the_interval, 400, "always") {
  // A hundred numbers are not all in the same quarter of the interval. (They are
  // not distributed evenly, e.g., the numbers in [1, 2] are all less than 3/2.)
  const Dy a = gen_dy(c, 80, 100);
  Dy b = a;
  if (c.flip())
    b = gen_dy(c, 80, 100);
  else
    b = add(a, Dy(c.range(1, 1000), a.e - c.range(-3, 20)));
  const Dy lower = cmp(a, b) < 0 ? a : b, upper = cmp(a, b) < 0 ? b : a;
  if (cmp(lower, upper) == 0) throw pbt::Discard{};
  const unsigned seed = static_cast<unsigned>(c.draw(~0u - 200));
  c.log() << lower << " " << upper << " " << seed << " ";
  c.nontrivial();
  const mpq_class length = q(upper) - q(lower);
  int quarters[4] = {0, 0, 0, 0};
  for (unsigned i = 0; i < 100; i++) {
    const mpq_class x = (q(dy(RealNumber::random(arf(lower), arf(upper), Seed(seed + i))->arf(HIGH))) - q(lower)) * 4 / length;
    const double where = x.get_d();
    quarters[where < 0 ? 0 : where >= 4 ? 3 : static_cast<int>(where)]++;
  }
  for (int i = 0; i < 4; i++) REQUIRE(quarters[i] < 100, "all numbers are in quarter " << i + 1 << " of the interval");
}

RELATION("R04", intervals_with_many_digits, 3000, "an end point that has hundreds of digits more than the other one") {
  Base b;
  b.kind = Base::INTERVAL;
  b.seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  const Dy x = gen_dy(c, c.chance(1, 4) ? 3000 : 60, 100);
  const long far = c.chance(1, 4) ? c.range(1, 500) : c.range(500, 4000);
  const Dy step(1 + c.draw(5), (x.zero() ? mpz_class(0) : x.lead()) - far);
  switch (c.draw(2)) {
    case 0: b.a = x, b.b = add(x, step); break;
    case 1: b.a = add(x, -step), b.b = x; break;
    default: b.a = add(x, step), b.b = add(x, Dy(1, (x.zero() ? mpz_class(0) : x.lead()) - c.range(-3, 300)));
  }
  if (cmp(b.a, b.b) >= 0) throw pbt::Discard{};
  c.log() << b;
  const mpz_class digits = b.a.m == 0 || b.b.m == 0 ? mpz_class(0) : mpz_class(b.a.e - b.b.e);
  c.nontrivial(abs(digits) >= 200);
  c.cls(digits < 0 ? "the lower end has more digits" : digits > 0 ? "the upper end has more digits" : "as many digits");
  const Real r = b.make();
  const long precision = 10007;
  const mpq_class M = q(dy(r->arf(precision))), err = abs(M) / mpq_class(shl(1, precision - 1));
  REQUIRE(M + err >= q(b.a) && M - err <= q(b.b), "the number is not in the interval");
  REQUIRE(*r >= arf(b.a) && *r <= arf(b.b), "comparisons place the number outside of the interval");
}

RELATION("R04", intervals_with_large_exponents, 4000, "exponents beyond 32 bits") {
  Base b;
  b.kind = Base::INTERVAL;
  b.seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  b.a = gen_dy(c, 100, 10);
  b.b = add(b.a, Dy(1 + c.draw(5), b.a.zero() ? mpz_class(c.around(30)) : mpz_class(b.a.lead() - c.range(0, 100))));
  // Zero has no exponent (and the size of the mantissa is the difference of the exponents)
  if (b.a.zero() || b.b.zero()) throw pbt::Discard{};
  mpz_class e = shl(1, c.range(5, 80)) + c.around(300);
  if (c.flip()) e = -e;
  b.a.e += e;
  b.b.e += e;
  c.log() << b;
  c.nontrivial(mpz_sizeinbase(e.get_mpz_t(), 2) > 32);
  const bool representable = mpz_sizeinbase(e.get_mpz_t(), 2) < 62;
  c.cls(!representable ? "exponents beyond 61 bits" : mpz_sizeinbase(e.get_mpz_t(), 2) > 32 ? "exponents beyond 32 bits" : "exponents of up to 32 bits");
  Real x;
  try {
    x = b.make();
  } catch (const std::logic_error&) {
    REQUIRE(!representable, "cannot create a number in the interval");
    return;
  }
  Dy m = dy(x->arf(400)), lo = b.a, hi = b.b;
  REQUIRE(m.finite() && !m.zero(), "the number is " << m);
  for (auto d : {&m, &lo, &hi}) d->e -= e;
  // Otherwise, this could run out of memory.
  REQUIRE(mpz_sizeinbase(m.e.get_mpz_t(), 2) < 20, "the exponent of the number is off by " << m.e);
  const mpq_class M = q(m), err = abs(M) / mpq_class(shl(1, 399));
  REQUIRE(M + err >= q(lo) && M - err <= q(hi), "the number is " << m << " instead of something between " << lo << " and " << hi << " up to a power of two");
  REQUIRE(*x >= arf(b.a) && *x <= arf(b.b), "comparisons place the number outside of the interval");
  // Approximations are consistent
  const long p = c.range(0, 200);
  Dy a = dy(x->arf(p));
  a.e -= e;
  REQUIRE(mpz_sizeinbase(a.e.get_mpz_t(), 2) < 20 && abs(q(a) - M) <= (abs(M) + err) / mpq_class(shl(1, p)) + err, "approximation to " << p << " bits is " << a << " instead of " << m << " up to a power of two");
}

RELATION("R04", intervals_that_share_seeds, 4000, "at least two different intervals with the same seed") {
  const pbt::Recycle recycle(c.flip());
  // Related intervals with few seeds whose numbers are all alive at the same time
  std::vector<std::pair<Base, Real>> all;
  const unsigned first = c.chance(1, 4) ? static_cast<unsigned>(c.draw(UINT32_MAX - 1)) : static_cast<unsigned>(c.draw(30));
  const int n = c.range(2, 10);
  const mpz_class origin = c.chance(1, 3) ? mpz_class(0) : mpz_class(c.around(6));
  bool related = false;
  for (int i = 0; i < n; i++) {
    Base b;
    b.kind = Base::INTERVAL;
    b.seed = first + (c.chance(1, 4) ? 1 : 0);
    const int scale = c.around(c.flip() ? 4 : 60);
    switch (c.weighted({3, 2, 1, 1})) {
      case 0:
        // Starts at the common point
        b.a = Dy(origin, 0);
        b.b = add(b.a, Dy(1 + c.draw(2), scale));
        break;
      case 1:
        // Ends at the common point
        b.b = Dy(origin, 0);
        b.a = add(b.b, -Dy(1 + c.draw(2), scale));
        break;
      case 2:
        // Scaled
        b.a = Dy(origin, scale);
        b.b = Dy(origin + 1, scale);
        break;
      default:
        // Centered at the common point
        b.a = add(Dy(origin, 0), -Dy(1, scale));
        b.b = add(Dy(origin, 0), Dy(1, scale));
    }
    c.log() << b << " ";
    const Real x = b.make();
    REQUIRE(*x >= arf(b.a) && *x <= arf(b.b), "is not in the interval");
    for (auto& [o, y] : all) {
      if (o.seed == b.seed && !(o == b)) related = true;
      if (o == b) REQUIRE(x == y, "a second time is not the same number");
    }
    all.push_back({b, x});
  }
  c.nontrivial(related);
  std::vector<mpq_class> values;
  for (auto& [b, x] : all) {
    const mpq_class m = q(dy(x->arf(HIGH))), err = abs(m) / mpq_class(shl(1, HIGH - 1));
    REQUIRE(m + err >= q(b.a) && m - err <= q(b.b), b << " is not in the interval but at " << m.get_d());
    values.push_back(m);
  }
  for (size_t i = 0; i < all.size(); i++)
    for (size_t j = 0; j < i; j++) {
      const bool same = all[i].second == all[j].second;
      REQUIRE(same == (*all[i].second == *all[j].second), "identity and equality differ");
      REQUIRE(same == (values[i] == values[j]), all[i].first << " and " << all[j].first << (same ? " are the same object but not the same number" : " are the same number but not the same object"));
      if (!same) REQUIRE((*all[i].second < *all[j].second) == (values[i] < values[j]), "the order of the numbers is wrong");
    }
}

RELATION("R04", random_in_unit_interval, 4000, "always") {
  const unsigned seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  c.log() << "random(" << seed << ")";
  c.nontrivial();
  const Real x = RealNumber::random(Seed(seed));
  const Dy m = dy(x->arf(HIGH));
  REQUIRE(m.sign() > 0 && cmp(m, Dy(1, 0)) <= 0, "the number is " << m);
  REQUIRE(*x > 0 && *x < 1, "comparisons place the number outside of the interval");
  const Real y = RealNumber::random(arf(Dy()), arf(Dy(1, 0)), Seed(seed));
  REQUIRE(*y > 0 && *y < 1, "random(0, 1) is not in the interval");
}

RELATION("R04", random_close_to_double, 10000, "a double that is not an integer") {
  double d = gen_double(c);
  if (c.chance(1, 20)) {
    static const double v[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    d = v[c.draw(2)];
  }
  const unsigned seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  c.log() << "random(" << std::hexfloat << d << std::defaultfloat << ", " << seed << ")";
  if (!std::isfinite(d)) {
    c.cls("not finite");
    bool thrown = false;
    try {
      RealNumber::random(d, Seed(seed));
    } catch (const std::exception&) {
      thrown = true;
    }
    REQUIRE(thrown, "no exception for a double that is not finite");
    return;
  }
  c.cls(d == 0 ? "zero" : std::fabs(d) < std::numeric_limits<double>::min() ? "subnormal" : "normal");
  c.nontrivial(d != std::floor(d));
  const Real x = RealNumber::random(d, Seed(seed));
  const Dy m = dy(x->arf(HIGH));
  REQUIRE(to_double(m) == d, "the number is closer to " << std::hexfloat << to_double(m));
  REQUIRE(static_cast<double>(*x) == d, "the number converts to " << std::hexfloat << static_cast<double>(*x));
}

// ---------------------------------------------------------------- R05
RELATION("R05", products_are_canonical, 6000, "a product of at least three factors") {
  Pool P(c, c.range(1, 5));
  const auto f = P.gen_factors(6);
  int degree = 0;
  for (auto& [i, e] : f) {
    c.log() << "x" << i << "^" << e << " ";
    degree += e;
  }
  c.nontrivial(degree >= 3);
  c.cls("degree " + std::to_string(degree));
  const Num a = P.product(f), b = P.product(f);
  REQUIRE(a.p == b.p, "different orders of multiplication give different objects");
  REQUIRE(*a.p == *b.p, "different orders of multiplication give different numbers");
  // Multiplying by one does nothing
  REQUIRE(*RealNumber::rational(1) * *a.p == a.p, "1 * x is not x");
  REQUIRE(*a.p * *RealNumber::rational(1) == a.p, "x * 1 is not x");
  // Another product is another number
  auto g = f;
  const size_t k = c.draw(P.bases.size() - 1);
  g[k]++;
  const Num d = P.product(g);
  REQUIRE(d.p != a.p && !(*d.p == *a.p), "x and x*y are equal");
  REQUIRE(*d.p == *(*a.p * *P.reals[k]) && d.p == *P.reals[k] * *a.p, "products do not commute");
}

RELATION("R05", value_of_products, 5000, "a product of at least two factors") {
  Pool P(c, c.range(1, 4));
  const auto f = P.gen_factors(8, true);
  const Num a = P.product(f);
  for (auto& [i, e] : f) c.log() << "x" << i << "^" << e << " ";
  int degree = 0;
  for (auto& [i, e] : f) degree += e;
  c.nontrivial(degree >= 2);
  const En v = P.enclose(a, HIGH);
  const long p = c.range(1, 600);
  c.log() << p;
  const mpq_class A = q(dy(a.p->arf(p)));
  mpq_class worst = abs(v.lo - A), other = abs(v.hi - A);
  if (other < worst) worst = other;
  if (v.lo <= A && A <= v.hi) worst = 0;
  const mpq_class size = abs(v.lo) > abs(v.hi) ? abs(v.lo) : abs(v.hi);
  REQUIRE(worst * mpq_class(shl(1, p)) <= size, "the product is not the product of its factors to " << p << " bits");
}

RELATION("R05", products_of_high_degree, 1500, "products of degree at least 64 in different factors") {
  Pool P(c, c.range(2, 5), true, true);
  const size_t k = P.reals.size();
  std::function<Real(size_t, int)> power = [&](size_t i, int e) -> Real {
    if (e == 1) return P.reals[i];
    const int a = c.flip() ? e / 2 : 1 + static_cast<int>(c.draw(e - 2));
    const Real x = power(i, a);
    return *x * *(2 * a == e ? x : power(i, e - a));
  };
  auto product = [&](const std::map<size_t, int>& f) {
    std::vector<Real> parts;
    for (auto& [i, e] : f) {
      // Sometimes, in two parts
      const int a = e > 1 && c.flip() ? 1 + static_cast<int>(c.draw(e - 2)) : e;
      parts.push_back(power(i, a));
      if (a != e) parts.push_back(power(i, e - a));
    }
    while (parts.size() > 1) {
      const size_t i = c.draw(parts.size() - 2);
      parts[i] = *parts[i] * *parts.back();
      parts.pop_back();
    }
    return parts[0];
  };
  // Many of these have the same hash
  std::map<std::map<size_t, int>, Real> all;
  std::vector<std::map<size_t, int>> order;
  const int n = c.range(2, 6);
  int least = 1000;
  for (int i = 0; i < n; i++) {
    std::map<size_t, int> f;
    if (!order.empty() && c.chance(2, 3)) {
      // One factor is different
      f = order.back();
      f[c.draw(k - 1)] += c.chance(1, 3) ? -1 : 1;
      for (auto it = f.begin(); it != f.end();) it = it->second <= 0 ? f.erase(it) : std::next(it);
      if (f.empty()) f[0] = 1;
    } else
      for (size_t j = 0; j < k; j++)
        if (c.chance(3, 4)) f[j] = c.pick(std::vector<int>{1, 2, 3, 31, 64, 65, 127}) + static_cast<int>(c.draw(2));
    if (f.empty()) f[0] = 64;
    int degree = 0;
    for (auto& [j, e] : f) {
      c.log() << "x" << j << "^" << e << " ";
      degree += e;
    }
    c.log() << "; ";
    least = std::min(least, degree);
    const Real r = product(f);
    order.push_back(f);
    const auto it = all.emplace(f, r).first;
    REQUIRE(it->second == r, "there are two objects for product " << i);
  }
  c.nontrivial(all.size() >= 2 && least >= 64);
  for (auto& [f, x] : all)
    for (auto& [g, y] : all) {
      REQUIRE((x == y) == (f == g), "two products are one object");
      // Division
      std::map<size_t, int> quotient = f;
      bool divisible = true;
      for (auto& [i, e] : g) {
        if ((quotient[i] -= e) < 0) divisible = false;
        if (!quotient[i]) quotient.erase(i);
      }
      const auto q = *x / *y;
      REQUIRE(q.has_value() == divisible, (divisible ? "does not divide" : "divides"));
      if (divisible) REQUIRE(**q * *y == x && *q == (quotient.empty() ? RealNumber::rational(1) : product(quotient)), "quotient is wrong");
    }
  // The value of one of them: the error in m is far below the last bit asked for
  const auto& [f, x] = *all.begin();
  Dy m(1, 0);
  for (auto& [i, e] : f)
    for (int j = 0; j < e; j++) m = round(mul(m, dy(P.reals[i]->arf(HIGH))), HIGH, Round::NEAR);
  const long p = c.range(1, 300);
  const Dy got = dy(x->arf(p));
  REQUIRE(got.finite() && !got.zero(), "the product is " << got);
  Dy error = add(got, -m);
  if (error.sign() < 0) error = -error;
  Dy size = m.sign() < 0 ? -m : m;
  REQUIRE(cmp(Dy(error.m, error.e + p), add(size, Dy(size.m, size.e - 1000))) <= 0, "the product is not the product of its factors to " << p << " bits");
}

RELATION("R05", products_of_huge_degree, 1500, "products of degree at least 2^16 in different factors") {
  // Products that nobody can approximate anymore
  Pool P(c, c.range(2, 4), true, true);
  const size_t k = P.reals.size();
  const auto power = [&](size_t i, long e) {
    Real r, b = P.reals[i];
    for (; e; e /= 2) {
      if (e & 1) r = !r ? b : c.flip() ? *r * *b : *b * *r;
      if (e > 1) b = *b * *b;
    }
    return r;
  };
  const auto product = [&](const std::map<size_t, long>& f) {
    Real r;
    for (auto& [i, e] : f) {
      const Real x = power(i, e);
      r = !r ? x : c.flip() ? *r * *x : *x * *r;
    }
    return r ? r : RealNumber::rational(1);
  };
  const auto degree = [](const std::map<size_t, long>& f) {
    long d = 0;
    for (auto& [i, e] : f) d += e;
    return d;
  };
  std::map<std::map<size_t, long>, Real> all;
  std::vector<std::map<size_t, long>> order;
  const int n = c.range(2, 4);
  long least = LONG_MAX;
  for (int i = 0; i < n; i++) {
    std::map<size_t, long> f;
    if (!order.empty() && c.chance(2, 3)) {
      f = order.back();
      const size_t at = c.draw(k - 1), other = c.draw(k - 1);
      // Move to another factor, or change the degree
      const long by = c.flip() ? 1L << c.range(0, 24) : c.range(1, 3);
      if (f[at] > by) f[at] -= by;
      if (c.flip()) f[other] += by;
    } else
      for (size_t j = 0; j < k; j++)
        if (c.chance(2, 3)) f[j] = (1L << c.range(0, 28)) + static_cast<long>(c.draw(2)) - 1;
    for (auto it = f.begin(); it != f.end();) it = it->second <= 0 ? f.erase(it) : std::next(it);
    // The degree of a product is an int
    if (f.empty() || degree(f) > INT_MAX) f = {{0, 1L << 16}};
    for (auto& [j, e] : f) c.log() << "x" << j << "^" << e << " ";
    c.log() << "; ";
    least = std::min(least, degree(f));
    const Real r = product(f);
    order.push_back(f);
    const auto it = all.emplace(f, r).first;
    REQUIRE(it->second == r, "there are two objects for product " << i);
  }
  c.nontrivial(all.size() >= 2 && least >= (1L << 16));
  for (auto& [f, x] : all)
    for (auto& [g, y] : all) {
      REQUIRE((x == y) == (f == g), "two products are one object");
      if (degree(f) < degree(g)) REQUIRE(x->deglex(*y), "a product of smaller degree is not smaller");
      REQUIRE(x->deglex(*y) + y->deglex(*x) == (x != y), "products are not strictly ordered");
      std::map<size_t, long> quotient = f;
      bool divisible = true;
      for (auto& [i, e] : g) {
        if ((quotient[i] -= e) < 0) divisible = false;
        if (!quotient[i]) quotient.erase(i);
      }
      const auto q = *x / *y;
      REQUIRE(q.has_value() == divisible, (divisible ? "does not divide" : "divides"));
      if (divisible) REQUIRE(**q * *y == x && *q == product(quotient), "quotient is wrong");
    }
}

RELATION("R05", rational_products, 6000, "both factors are different from 1") {
  const mpq_class a = gen_mpq(c), b = c.chance(1, 5) && a != 0 ? mpq_class(1 / a) : gen_mpq(c);
  c.log() << a << " * " << b;
  c.nontrivial(a != 1 && b != 1);
  const Real x = *RealNumber::rational(a) * *RealNumber::rational(b);
  const auto r = static_cast<std::optional<mpq_class>>(*x);
  REQUIRE(r && *r == a * b, "is wrong");
  REQUIRE(x == RealNumber::rational(a * b), "is not the number " << mpq_class(a * b));
}

RELATION("R05", exact_division, 8000, "the divisor is not rational") {
  Pool P(c, c.range(1, 4));
  auto f = P.gen_factors(5, true);
  auto g = P.gen_factors(4, true);
  if (c.chance(1, 6)) g.clear();
  if (c.chance(1, 8)) f = g;
  const bool multiply = c.chance(2, 3);
  auto h = f;
  if (multiply)
    for (auto& [i, e] : g) h[i] += e;
  for (auto& [i, e] : h) c.log() << "x" << i << "^" << e << " ";
  c.log() << "/ ";
  for (auto& [i, e] : g) c.log() << "x" << i << "^" << e << " ";
  bool divisible = true;
  std::map<size_t, int> quotient = h;
  for (auto& [i, e] : g) {
    quotient[i] -= e;
    if (quotient[i] < 0) divisible = false;
    if (quotient[i] == 0) quotient.erase(i);
  }
  if (h.empty()) h = f, quotient = f;
  const Num a = P.product(h), b = P.product(g);
  c.nontrivial(!g.empty());
  c.cls(divisible ? quotient.empty() ? "unit quotient" : "divisible" : "not divisible");
  const auto r = *a.p / *b.p;
  REQUIRE(r.has_value() == divisible, (divisible ? "does not divide" : "divides"));
  if (divisible) {
    const Num want = P.product(quotient);
    REQUIRE(*r && *r == want.p, "quotient is not the expected number");
    REQUIRE(**r * *b.p == a.p, "quotient times divisor is not the dividend");
  }
}

// ---------------------------------------------------------------- R06
RELATION("R06", unique_representation, 5000, "at least two live handles to the same number") {
  // A history of creating and dropping numbers
  const pbt::Recycle recycle(c.flip());
  std::vector<std::pair<std::string, Real>> live;
  std::map<std::string, Dy> values;
  Pool P(c, c.range(2, 4));
  const int n = c.range(1, 25);
  bool shared = false;
  std::vector<std::pair<std::string, std::function<Real()>>> recipes;
  for (int s = 0; s < n; s++) {
    std::ostringstream key;
    std::function<Real()> make;
    switch (c.weighted({1, 1, 2, 4, 2, 1})) {
      case 0: {
        const Base b = gen_base(c, true);
        key << b;
        make = [=] { return b.make(); };
        break;
      }
      case 1: {
        const mpq_class x = gen_mpq(c, 20);
        key << x;
        make = [=] { return RealNumber::rational(x); };
        break;
      }
      case 2: {
        const auto f = P.gen_factors(3);
        for (auto& [i, e] : f) key << "x" << i << "^" << e;
        make = [=, &P] { return P.product(f).p; };
        break;
      }
      case 3: {
        // Create a number again
        if (recipes.empty()) continue;
        const auto& again = recipes[c.draw(recipes.size() - 1)];
        key << again.first;
        make = again.second;
        break;
      }
      case 4: {
        if (live.empty()) continue;
        const size_t i = c.draw(live.size() - 1);
        c.log() << "drop " << live[i].first << "; ";
        live.erase(live.begin() + i);
        continue;
      }
      default: {
        // Drop everything that is not in the pool
        c.log() << "drop all; ";
        live.clear();
        continue;
      }
    }
    recipes.push_back({key.str(), make});
    const Real r = make();
    c.log() << key.str() << "; ";
    for (auto& [k, other] : live) {
      if (k == key.str()) {
        shared = true;
        REQUIRE(other == r, "two handles to " << k << " differ");
        REQUIRE(*other == *r && !(*other < *r), "two handles to " << k << " do not compare equal");
      }
    }
    const Dy v = dy(r->arf(150));
    const auto it = values.emplace(key.str(), v).first;
    REQUIRE(it->second == v, key.str() << " changed its value from " << it->second << " to " << v);
    live.push_back({key.str(), r});
  }
  c.nontrivial(shared);
  // Different handles are different numbers
  for (auto& a : live)
    for (auto& b : live) REQUIRE((a.second == b.second) == (*a.second == *b.second), a.first << " and " << b.first << " are confused");
  // The values at a precision decide
  for (auto& a : live)
    for (auto& b : live)
      if (a.second != b.second) REQUIRE(!(dy(a.second->arf(400)) == dy(b.second->arf(400))), a.first << " and " << b.first << " are different objects for one value");
}

RELATION("R06", many_products, 40, "more than 2048 different products") {
  // Products come and go, much more than the library keeps around
  const pbt::Recycle recycle(c.flip());
  Pool P(c, c.range(3, 6), false, true);
  const size_t k = P.reals.size();
  const int n = c.range(10, 6000), degree = c.range(6, 14);
  c.log() << n << " products";
  std::map<std::map<size_t, int>, std::weak_ptr<const RealNumber>> known;
  std::map<std::map<size_t, int>, Dy> values;
  std::vector<std::pair<std::map<size_t, int>, Real>> live;
  // Choices are made by a generator with a seed to keep the record of choices short
  std::mt19937 random(static_cast<unsigned>(c.draw(UINT32_MAX)));
  for (int i = 0; i < n; i++) {
    std::map<size_t, int> f;
    const int m = 2 + static_cast<int>(random() % (degree - 1));
    Real r;
    for (int j = 0; j < m; j++) {
      const size_t x = random() % k;
      f[x]++;
      r = r ? random() % 2 ? *r * *P.reals[x] : *P.reals[x] * *r : P.reals[x];
    }
    if (m > 3 && random() % 8 == 0) {
      // Divide by a factor, and come back
      const Real d = P.reals[f.begin()->first];
      const auto q = *r / *d;
      REQUIRE(q, "division by a factor failed in step " << i);
      REQUIRE(**q * *d == r, "quotient times divisor is another object in step " << i);
    }
    auto it = known.find(f);
    if (it != known.end()) {
      const Real old = it->second.lock();
      if (old) REQUIRE(old == r, "two objects for the same product in step " << i);
    }
    known[f] = r;
    if (random() % 16 == 0) {
      const Dy v = dy(r->arf(80));
      const auto at = values.emplace(f, v).first;
      REQUIRE(at->second == v, "a product changed from " << at->second << " to " << v << " in step " << i);
    }
    if (random() % 4 == 0) live.push_back({f, r});
    if (live.size() && random() % 8 == 0) {
      const size_t j = random() % live.size();
      live[j] = live.back();
      live.pop_back();
    }
    if (random() % 1000 == 0) live.clear();
  }
  c.nontrivial(known.size() > 2048);
  c.cls(known.size() > 2048 ? "more than 2048 products" : known.size() > 1024 ? "more than 1024 products" : "up to 1024 products");
  std::map<const RealNumber*, const std::map<size_t, int>*> distinct;
  for (auto& [f, r] : live) {
    const auto it = distinct.emplace(&*r, &f).first;
    REQUIRE(*it->second == f, "one object for different products");
  }
}

RELATION_SCHEDULES("R06", numbers_of_threads, 40, "at least three threads create numbers at the same time") {
  const pbt::Recycle none(false);
  const int nthreads = c.range(2, 8);
  const size_t n = 4000 - c.draw(3999);
  const unsigned pool = static_cast<unsigned>(1 + c.draw(c.flip() ? 5 : 5000));
  // The threads create numbers of several kinds, in different orders
  const uint64_t salt = c.draw(UINT32_MAX);
  c.log() << nthreads << " threads create " << n << " numbers each with seeds up to " << pool << " ";
  c.nontrivial(nthreads >= 3 && n > 100);
  using Name = std::pair<int, unsigned>;
  struct Mine {
    std::vector<std::pair<Name, Real>> numbers;
    std::vector<std::pair<std::pair<Name, Name>, Real>> products;
  };
  std::vector<Mine> mine(nthreads);
  std::atomic<int> ready{0};
  {
    std::vector<std::thread> threads;
    for (int t = 0; t < nthreads; t++)
      threads.emplace_back([&, t]() {
        std::mt19937_64 random(salt + static_cast<uint64_t>(t));
        auto& m = mine[t];
        m.numbers.reserve(n);
        ready++;
        while (ready < nthreads) std::this_thread::yield();
        for (size_t i = 0; i < n; i++) {
          const Name name{static_cast<int>((random() + static_cast<uint64_t>(t)) % 4), static_cast<unsigned>(random() % pool)};
          Real x;
          switch (name.first) {
            case 0: x = RealNumber::random(Seed(name.second)); break;
            case 1: x = RealNumber::random(Arf(2), Arf(3), Seed(name.second)); break;
            case 2: x = RealNumber::random(1024., Seed(name.second)); break;
            default: x = RealNumber::rational(mpq_class(static_cast<long>(name.second) + 2, 1));
          }
          // Some are created and dropped again
          if (random() % 8) m.numbers.emplace_back(name, x);
          if (m.numbers.size() >= 2 && random() % 4 == 0) {
            const auto& a = m.numbers[random() % m.numbers.size()];
            const auto& b = m.numbers[random() % m.numbers.size()];
            if (a.first.first != 3 && b.first.first != 3) m.products.emplace_back(std::minmax(a.first, b.first), *a.second * *b.second);
          }
        }
      });
    for (auto& t : threads) t.join();
  }
  std::map<Name, Real> numbers;
  std::map<std::pair<Name, Name>, Real> products;
  std::map<const RealNumber*, int> distinct;
  for (auto& m : mine) {
    for (auto& [name, x] : m.numbers) REQUIRE(numbers.emplace(name, x).first->second == x, "two threads created different objects for the number " << name.first << ", " << name.second);
    for (auto& [name, x] : m.products) REQUIRE(products.emplace(name, x).first->second == x, "two threads created different objects for a product");
  }
  std::vector<Real> all;
  for (auto& [_, x] : numbers) all.push_back(x);
  for (auto& [_, x] : products) all.push_back(x);
  for (auto& x : all) REQUIRE(++distinct[x.get()] == 1, "two different numbers are the same object " << *x);
  // Monomials can be told apart
  all.erase(std::remove_if(all.begin(), all.end(), [](auto& x) { return static_cast<std::optional<mpq_class>>(*x).has_value(); }), all.end());
  std::sort(all.begin(), all.end(), [](auto& x, auto& y) { return x->deglex(*y); });
  for (size_t i = 0; i + 1 < all.size(); i++) REQUIRE(all[i]->deglex(*all[i + 1]), "deglex does not order " << *all[i] << " and " << *all[i + 1]);
}

RELATION("R06", rationals_are_unique, 6000, "two rationals that are the same as doubles") {
  // Rationals that are hard to tell apart
  const mpq_class a = gen_mpq(c, 200);
  mpq_class b = a;
  switch (c.draw(3)) {
    case 0: break;
    case 1: b = -a; break;
    case 2: b = a * (1 + mpq_class(1, shl(1, c.range(50, 120)))); break;
    default: b = gen_mpq(c, 200);
  }
  c.log() << a << " and " << b;
  c.nontrivial(a != b && a.get_d() == b.get_d());
  const Real x = RealNumber::rational(a), y = RealNumber::rational(b);
  REQUIRE((x == y) == (a == b), "identity is wrong");
  REQUIRE((*x == *y) == (a == b), "== is wrong");
  REQUIRE(*static_cast<std::optional<mpq_class>>(*x) == a && *static_cast<std::optional<mpq_class>>(*y) == b, "value is wrong");
}

// ---------------------------------------------------------------- R07
RELATION("R07", deglex_is_a_monomial_order, 5000, "three distinct numbers that are not rational") {
  Pool P(c, c.range(1, 5));
  auto gen = [&]() {
    if (c.chance(1, 12)) return Num{RealNumber::rational(1), mpq_class(1), {}};
    auto f = P.gen_factors(5, true);
    for (auto& [i, e] : f) c.log() << "x" << i << "^" << e << " ";
    c.log() << "; ";
    return P.product(f);
  };
  const Num n[] = {gen(), gen(), gen()};
  auto degree = [](const Num& n) {
    int d = 0;
    for (auto& [i, e] : n.factors) d += e;
    return d;
  };
  c.nontrivial(!(n[0] == n[1]) && !(n[1] == n[2]) && !(n[0] == n[2]) && degree(n[0]) && degree(n[1]) && degree(n[2]));
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      const RealNumber &a = *n[i].p, &b = *n[j].p;
      if (n[i] == n[j])
        REQUIRE(!a.deglex(b), "a number is smaller than itself");
      else
        REQUIRE(a.deglex(b) != b.deglex(a), "numbers " << i << " and " << j << " are not strictly ordered");
      if (degree(n[i]) < degree(n[j])) REQUIRE(a.deglex(b), "the total degree is not respected");
      for (int k = 0; k < 3; k++) {
        const RealNumber& d = *n[k].p;
        if (a.deglex(b) && b.deglex(d)) REQUIRE(a.deglex(d), "not transitive");
        // Multiplication by anything respects the order
        if (a.deglex(b)) REQUIRE((a * d)->deglex(*(b * d)), "multiplication by number " << k << " does not respect the order of " << i << " and " << j);
      }
    }
}

// ---------------------------------------------------------------- R08
RELATION("R08", nearest_double_of_rationals, 20000, "a rational that is not a double") {
  mpq_class r;
  switch (c.draw(2)) {
    case 0: r = gen_mpq(c, 400); break;
    case 1: {
      // Next to the midpoint of two doubles
      const double d = gen_double(c);
      Dy m = dy(d);
      if (m.zero()) m = Dy(1, -1074);
      const mpz_class ulp = m.lead() - 52 < -1074 ? mpz_class(-1074) : mpz_class(m.lead() - 52);
      m = add(m, Dy(c.flip() ? 1 : -1, ulp - 1));
      r = q(m);
      if (c.flip()) r += mpq_class(c.around(1), shl(1, 1)) * abs(r) / mpq_class(shl(1, c.range(60, 1500)) + (c.flip() ? 1 : 0));
      break;
    }
    default:
      r = gen_mpq(c, 100);
      if (c.flip())
        r /= mpq_class(shl(1, c.range(900, 1200)));
      else
        r *= mpq_class(shl(1, c.range(900, 1100)));
  }
  const double want = to_double(r.get_num(), 1, 0);
  const double w = r == 0 ? 0 : to_double(r.get_num(), r.get_den(), 0);
  (void)want;
  c.log() << r.get_num() << "/" << r.get_den();
  c.nontrivial(!std::isfinite(w) || q(dy(w)) != r);
  c.cls(!std::isfinite(w) ? "overflow" : std::fabs(w) < std::numeric_limits<double>::min() ? "subnormal" : "normal");
  const double got = static_cast<double>(*RealNumber::rational(r));
  REQUIRE(got == w, "got " << std::hexfloat << got << " instead of " << w);
}

RELATION("R08", ties_to_thousands_of_bits, 3000, "always") {
  // A rational, or a random number, that is very close to the midpoint of two doubles
  const double d = gen_double(c);
  Dy m = dy(d);
  if (m.zero()) m = Dy(1, -1074);
  const mpz_class ulp = m.lead() - 52 < -1074 ? mpz_class(-1074) : mpz_class(m.lead() - 52);
  m = add(m, Dy(c.flip() ? 1 : -1, ulp - 1));
  const long far = c.chance(1, 4) ? c.range(60, 800) : c.range(800, 12000);
  const bool above = c.flip();
  const Dy step((above ? 1 : -1) * (1 + static_cast<long>(c.draw(5))), m.lead() - far);
  const Dy end = add(m, step);
  c.nontrivial();
  Real x;
  mpq_class value;
  if (c.flip()) {
    value = q(m) + q(step) / mpq_class(3 + 2 * c.draw(20));
    c.log() << "rational at ";
    c.cls("rational");
    x = RealNumber::rational(value);
  } else {
    const unsigned seed = static_cast<unsigned>(c.draw(UINT32_MAX));
    c.log() << "random number " << seed << " at ";
    c.cls("random number");
    x = above ? RealNumber::random(arf(m), arf(end), Seed(seed)) : RealNumber::random(arf(end), arf(m), Seed(seed));
    // All numbers in the interval round to the same double.
    value = q(m) + q(step) / 2;
  }
  c.log() << m << " and " << step;
  const double want = to_double(value.get_num(), value.get_den(), 0), got = static_cast<double>(*x);
  REQUIRE(got == want, "got " << std::hexfloat << got << " instead of " << want);
}

RELATION("R08", nearest_double_of_reals, 6000, "always") {
  Pool P(c, c.range(1, 4));
  const Num x = P.gen(6, false);
  c.cls(kind(x));
  c.nontrivial();
  const En v = P.enclose(x, HIGH);
  const double lo = to_double(v.lo.get_num(), v.lo.get_den(), 0), hi = to_double(v.hi.get_num(), v.hi.get_den(), 0);
  if (lo != hi) throw pbt::Discard{};
  const double got = static_cast<double>(*x.p);
  REQUIRE(got == lo, "got " << std::hexfloat << got << " instead of " << lo);
  REQUIRE(static_cast<double>(*x.p) == got, "converting again gives something else");
}

// ---------------------------------------------------------------- numbers that come and go
namespace {
// A history in which numbers are created, observed, and dropped, so that other
// numbers take their place in memory.
struct ComingAndGoing {
  pbt::Case& c;
  const pbt::Recycle recycle;
  Pool P;
  std::vector<Num> names;
  std::vector<En> values;
  std::vector<long> precs;
  // The numbers that are alive
  struct Live {
    size_t name;
    Real p;
  };
  std::vector<Live> live;
  int comebacks = 0;

  explicit ComingAndGoing(pbt::Case& c) : c(c), P(c, c.range(1, 4), true) {
    // Mostly of the same kind, so that numbers are of the same size
    const int kind = static_cast<int>(c.draw(3));
    const int n = c.range(2, 6);
    for (int i = 0; i < n; i++) {
      Num x;
      switch (c.chance(1, 5) ? static_cast<int>(c.draw(2)) : kind) {
        case 0: {
          const mpq_class r = gen_mpq(c, 60);
          x = {nullptr, r, {}};
          c.log() << "n" << i << "=" << r << " ";
          break;
        }
        case 1:
          x = {nullptr, {}, {{c.draw(P.bases.size() - 1), 1}}};
          c.log() << "n" << i << "=x" << x.factors.begin()->first << " ";
          break;
        default:
          x = {nullptr, {}, P.gen_factors(4)};
          c.log() << "n" << i << "=";
          for (auto& [j, e] : x.factors) c.log() << "x" << j << "^" << e << " ";
      }
      names.push_back(x);
      values.push_back(P.enclose(x, HIGH));
    }
    const int m = c.range(1, 3);
    for (int i = 0; i < m; i++) precs.push_back(c.flip() ? c.range(1, 80) : c.range(1, 700));
    P.reals.clear();
  }
  Real make(const Num& x) {
    if (x.rational) return RealNumber::rational(*x.rational);
    std::vector<Real> parts;
    for (auto& [i, e] : x.factors)
      for (int k = 0; k < e; k++) parts.push_back(P.bases[i].make());
    while (parts.size() > 1) {
      const size_t i = c.draw(parts.size() - 2);
      parts[i] = *parts[i] * *parts.back();
      parts.pop_back();
    }
    return parts[0];
  }
  long prec() { return precs[c.draw(precs.size() - 1)]; }
  const Live& some() { return live[c.draw(live.size() - 1)]; }

  // Observe in between, given the index of a live number
  template <typename F>
  void run(F&& observe) {
    const int n = c.range(2, 16);
    std::set<size_t> seen;
    for (int i = 0; i < n; i++) {
      if (live.size() && (live.size() >= 4 || c.flip())) {
        const size_t j = c.draw(live.size() - 1);
        c.log() << "drop n" << live[j].name << " ";
        live.erase(live.begin() + static_cast<long>(j));
        if (c.chance(1, 4)) continue;
      }
      const size_t k = c.draw(names.size() - 1);
      if (!seen.insert(k).second) comebacks++;
      c.log() << "create n" << k << " ";
      live.push_back({k, make(names[k])});
      const int observations = static_cast<int>(c.draw(3));
      for (int j = 0; j < observations; j++) {
        const size_t at = c.chance(1, 3) ? c.draw(live.size() - 1) : live.size() - 1;
        c.log() << "observe n" << live[at].name << " ";
        observe(live[at]);
      }
    }
    c.nontrivial(n >= 4 && seen.size() >= 2);
    if (comebacks) c.cls("numbers come back");
  }
  // -1, 0, 1 or 2 if it is not known
  int compare(size_t a, size_t b) const {
    if (names[a] == names[b]) return 0;
    return values[a].hi < values[b].lo ? -1 : values[a].lo > values[b].hi ? 1 : 2;
  }
};
}  // namespace

RELATION("R01", approximations_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  H.run([&](const ComingAndGoing::Live& x) {
    const long p = H.prec();
    c.log() << "arf " << p << " ";
    require_close(x.p->arf(p), p, H.values[x.name]);
  });
}

RELATION("R02", balls_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  std::optional<std::pair<size_t, Arb>> ball;
  H.run([&](const ComingAndGoing::Live& x) {
    const long p = H.prec();
    if (ball && ball->first == x.name && c.flip()) {
      c.log() << "refine " << p << " ";
      if (H.names[x.name].rational && *H.names[x.name].rational == 0) return;
      x.p->refine(ball->second, p);
    } else {
      c.log() << "arb " << p << " ";
      ball = {x.name, x.p->arb(p)};
    }
    require_contained(ball->second, H.values[x.name], "ball");
    if (*x.p) REQUIRE(arb_rel_accuracy_bits(ball->second.arb_t()) >= p, "accuracy is only " << arb_rel_accuracy_bits(ball->second.arb_t()));
  });
}

RELATION("R03", comparisons_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  // Things to compare to
  std::vector<mpq_class> scalars;
  const int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    const En& v = H.values[c.draw(H.values.size() - 1)];
    const mpq_class s = q(round_ratio(v.lo.get_num(), v.lo.get_den(), 0, c.range(1, 90), gen_round(c)));
    c.log() << "s" << i << "=" << s << " ";
    scalars.push_back(s);
  }
  H.run([&](const ComingAndGoing::Live& x) {
    if (c.flip()) {
      const auto& y = H.some();
      const int want = H.compare(x.name, y.name);
      c.log() << "to n" << y.name << " ";
      if (want != 2) ordered(*x.p, *y.p, want, "comparison");
      return;
    }
    const mpq_class& s = scalars[c.draw(scalars.size() - 1)];
    const int want = cmp(H.values[x.name], s);
    c.log() << "to " << s << " ";
    if (want == 2) return;
    if (c.flip())
      ordered(*x.p, s, want, "comparison");
    else
      ordered(*x.p, arf(Dy(s.get_num(), -mpz_class(static_cast<long>(mpz_scan1(s.get_den_mpz_t(), 0))))), want, "comparison");
  });
}

RELATION("R05", products_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  H.run([&](const ComingAndGoing::Live& x) {
    const auto& y = H.some();
    const Num &a = H.names[x.name], &b = H.names[y.name];
    if (a.rational || b.rational) return;
    const bool multiply = c.flip();
    Num want = a;
    bool divisible = true;
    for (auto& [i, e] : b.factors) {
      want.factors[i] += multiply ? e : -e;
      if (want.factors[i] < 0) divisible = false;
      if (want.factors[i] == 0) want.factors.erase(i);
    }
    c.log() << (multiply ? "times" : "by") << " n" << y.name << " ";
    if (want.factors.empty()) want.rational = 1;
    if (multiply) {
      const Real r = *x.p * *y.p;
      REQUIRE(r == H.make(want), "product is not the expected number");
      return;
    }
    const auto r = *x.p / *y.p;
    REQUIRE(r.has_value() == divisible, (divisible ? "does not divide" : "divides"));
    if (divisible) REQUIRE(*r == H.make(want), "quotient is not the expected number");
  });
}

RELATION("R06", numbers_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  H.run([&](const ComingAndGoing::Live& x) {
    const Num& a = H.names[x.name];
    const auto r = static_cast<std::optional<mpq_class>>(*x.p);
    REQUIRE(r == a.rational, "is a rational when it should not, or the other way round");
    for (auto& y : H.live) REQUIRE((y.p == x.p) == (H.names[y.name] == a), "n" << y.name << " is the same object as n" << x.name << ", or the other way round");
    REQUIRE(H.make(a) == x.p, "is another object when created again");
    require_close(x.p->arf(H.precs[0]), H.precs[0], H.values[x.name]);
  });
}

RELATION("R07", orders_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  auto degree = [](const Num& n) {
    int d = 0;
    for (auto& [i, e] : n.factors) d += e;
    return d;
  };
  // How numbers that are alive compared. (Numbers that were dropped may change their place.)
  H.run([&](const ComingAndGoing::Live& x) {
    std::vector<const ComingAndGoing::Live*> all;
    for (auto& y : H.live)
      if (!H.names[y.name].rational) all.push_back(&y);
    if (H.names[x.name].rational) return;
    const auto& y = *all[c.draw(all.size() - 1)];
    const auto& z = *all[c.draw(all.size() - 1)];
    c.log() << "to n" << y.name << " and n" << z.name << " ";
    const Num &a = H.names[x.name], &b = H.names[y.name];
    if (a == b)
      REQUIRE(!x.p->deglex(*y.p), "a number is smaller than itself");
    else
      REQUIRE(x.p->deglex(*y.p) != y.p->deglex(*x.p), "numbers are not strictly ordered");
    if (degree(a) < degree(b)) REQUIRE(x.p->deglex(*y.p) && !y.p->deglex(*x.p), "the total degree is not respected");
    if (x.p->deglex(*y.p) && y.p->deglex(*z.p)) REQUIRE(x.p->deglex(*z.p), "not transitive");
    REQUIRE(x.p->deglex(*y.p) == (*x.p * *z.p)->deglex(*(*y.p * *z.p)), "multiplication does not respect the order");
  });
}

RELATION("R08", doubles_come_and_go, 1500, "at least two different numbers are created in at least four steps") {
  ComingAndGoing H(c);
  H.run([&](const ComingAndGoing::Live& x) {
    const En& v = H.values[x.name];
    const double lo = to_double(v.lo.get_num(), v.lo.get_den(), 0), hi = to_double(v.hi.get_num(), v.hi.get_den(), 0);
    const double got = static_cast<double>(*x.p);
    if (lo == hi) REQUIRE(got == lo, "got " << std::hexfloat << got << " instead of " << lo);
  });
}
