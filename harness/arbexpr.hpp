// Environment in which the generated Arb expression shapes run.
//
// The values in a shape are followed in two ways: exactly, for sample points of
// the operands, and by performing each step with FLINT directly.
#pragma once
#include "balls.hpp"
#include "../exact-real/yap/arb.hpp"

namespace arbexpr {
using namespace ref;
using exactreal::Arb;

constexpr int SAMPLES = 5;

struct Val {
  mpq_class s[SAMPLES];
  bool ok[SAMPLES] = {true, true, true, true, true};
  Arb flint;
  long bits = -1;  // the precision of the last step
};

struct Env {
  pbt::Case& c;
  std::vector<Arb> x;
  std::vector<Ball> b;
  std::vector<Val> v;
  int i[2];
  long l[2];
  unsigned long u[2];
  double d[2];
  Ball s;
  Val sv;
  bool inexact = false, wide = false;

  exactreal::prec prec(bool) {
    exactreal::prec p = gen_prec(c);
    c.log() << "prec " << p << ", ";
    return p;
  }
  // A point in the ball.
  mpq_class point(const Ball& b, int k) {
    if (b.exact()) return q(b.mid);
    switch (k) {
      case 0: return q(b.mid);
      case 1: return q(b.lo());
      case 2: return q(b.hi());
      default: {
        const mpq_class t(static_cast<long>(c.draw(64)), 64);
        const mpq_class lo = q(b.lo()), hi = q(b.hi());
        return c.chance(1, 8) ? lo : c.chance(1, 8) ? hi : mpq_class(lo + t * (hi - lo));
      }
    }
  }
  Val value(const Ball& b) {
    Val r;
    for (int k = 0; k < SAMPLES; k++) r.s[k] = point(b, k);
    r.flint = arb(b);
    return r;
  }
  Val exactly(const Dy& d) {
    Val r;
    for (int k = 0; k < SAMPLES; k++) r.s[k] = q(d);
    r.flint = arb(Ball{d, Dy()});
    return r;
  }
  Val var(int k) { return v[k]; }
  Val num(int n) { return exactly(dy(n)); }
  Val num(long n) { return exactly(dy(n)); }
  Val num(unsigned long n) { return exactly(dy(mpz_class(n))); }
  Val num(double n) { return exactly(dy(n)); }
  Val start() { return sv; }
  Arb startvalue() { return arb(s); }
  Val neg(Val a) {
    for (auto& x : a.s) x = -x;
    arb_neg(a.flint.arb_t(), a.flint.arb_t());
    return a;
  }
  Val op(char o, const Val& a, const Val& b, exactreal::prec p, Round) {
    Val r;
    r.bits = p;
    for (int k = 0; k < SAMPLES; k++) {
      r.ok[k] = a.ok[k] && b.ok[k];
      if (!r.ok[k]) continue;
      switch (o) {
        case '+': r.s[k] = a.s[k] + b.s[k]; break;
        case '-': r.s[k] = a.s[k] - b.s[k]; break;
        case '*': r.s[k] = a.s[k] * b.s[k]; break;
        case '/':
          if (b.s[k] == 0)
            r.ok[k] = false;
          else
            r.s[k] = a.s[k] / b.s[k];
      }
    }
    switch (o) {
      case '+': arb_add(r.flint.arb_t(), a.flint.arb_t(), b.flint.arb_t(), p); break;
      case '-': arb_sub(r.flint.arb_t(), a.flint.arb_t(), b.flint.arb_t(), p); break;
      case '*': arb_mul(r.flint.arb_t(), a.flint.arb_t(), b.flint.arb_t(), p); break;
      case '/': arb_div(r.flint.arb_t(), a.flint.arb_t(), b.flint.arb_t(), p); break;
    }
    if (!arb_is_exact(r.flint.arb_t())) inexact = true;
    return r;
  }
  void check(const Arb& got, const Val& want) {
    const Ball g = ball(got), f = ball(want.flint);
    for (int k = 0; k < SAMPLES; k++)
      if (want.ok[k] && !g.nan()) REQUIRE(contains(g, want.s[k]), g << " does not contain " << want.s[k]);
    if (f.nan() || !f.rad.finite() || !f.mid.finite()) return;
    // Not wider than what single steps with the given precisions produce.
    REQUIRE(!g.nan() && cmp(g.rad, Dy(f.rad.m, f.rad.e + 1)) <= 0, g << " is wider than " << f);
    if (want.bits > 0) REQUIRE(g.mid.bits() <= want.bits, g << " was not rounded to " << want.bits << " bits");
  }
  void unchanged(int except) {
    for (int k = 0; k < static_cast<int>(x.size()); k++)
      if (k != except) REQUIRE(ball(x[k]) == b[k], "operand x" << k << " changed to " << ball(x[k]));
  }
};

struct Shape {
  const char* text;
  void (*run)(Env&);
  char form;
};
std::vector<Shape>& shapes();
struct Add {
  Add(Shape s) { shapes().push_back(s); }
};
}  // namespace arbexpr
using namespace arbexpr;
