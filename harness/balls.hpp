// Exact reference for balls: intervals with dyadic end points.
#pragma once
#include "../exact-real/arb.hpp"
#include "ref.hpp"

namespace ref {
using exactreal::Arb;

struct Ball {
  Dy mid, rad;  // rad >= 0 or +inf
  bool nan() const { return mid.kind == Dy::NAN_; }
  bool exact() const { return rad.zero(); }
  Dy lo() const { return bound(-1); }
  Dy hi() const { return bound(1); }
  bool operator==(const Ball& o) const { return mid == o.mid && rad == o.rad; }

 private:
  Dy bound(int s) const {
    if (!rad.finite()) return Dy(s > 0 ? Dy::PINF : Dy::NINF);
    if (!mid.finite()) return mid;
    return add(mid, s > 0 ? rad : -rad);
  }
};

inline std::ostream& operator<<(std::ostream& os, const Ball& b) { return os << "[" << b.mid << " +/- " << b.rad << "]"; }

inline Ball ball(const ::arb_t x) {
  Ball b;
  b.mid = dy(arb_midref(x));
  arf_t r;
  arf_init(r);
  arf_set_mag(r, arb_radref(x));
  b.rad = dy(r);
  arf_clear(r);
  return b;
}
inline Ball ball(const Arb& x) { return ball(x.arb_t()); }

// An Arb with this midpoint and radius; the radius has at most 30 bits.
inline Arb arb(const Ball& b) {
  Arb x;
  set_arf(arb_midref(x.arb_t()), b.mid);
  if (!b.rad.finite())
    mag_inf(arb_radref(x.arb_t()));
  else
    mag_set_ui_2exp_si(arb_radref(x.arb_t()), b.rad.m.get_ui(), b.rad.e.get_si());
  if (!(ball(x) == b)) throw std::logic_error("harness could not create ball");
  return x;
}

inline Dy gen_rad(pbt::Case& c, const Dy& mid) {
  switch (c.weighted({3, 3, 3, 2, 1})) {
    case 0: return Dy();
    case 1:  // relative to the midpoint
      return mid.finite() && !mid.zero() ? Dy(1 + c.draw((1 << 30) - 2), mid.lead() - c.range(0, 200)) : Dy(1 + c.draw(100), -c.range(0, 100));
    case 2: return Dy(1 + c.draw(7), c.around(10));
    case 3:  // touching zero
      if (mid.finite() && mid.bits() <= 30) return mid.m < 0 ? -mid : mid;
      return Dy(1, 0);
    default: return Dy(1 + c.draw((1 << 30) - 2), c.around(300));
  }
}
inline Ball gen_ball(pbt::Case& c, long maxbits = 150, long maxexp = 100) {
  Ball b;
  b.mid = gen_dy(c, maxbits, maxexp);
  b.rad = gen_rad(c, b.mid);
  return b;
}
// Including the values that are not finite.
inline Ball gen_any_ball(pbt::Case& c) {
  if (c.chance(1, 12)) switch (c.draw(4)) {
      case 0: return {Dy(Dy::PINF), Dy()};
      case 1: return {Dy(Dy::NINF), Dy()};
      case 2: return {Dy(), Dy(Dy::PINF)};
      case 3: return {Dy(Dy::NAN_), Dy(Dy::PINF)};
      default: return {gen_dy(c), Dy(Dy::PINF)};
    }
  return gen_ball(c);
}

// Compare num/den with a finite dyadic number, den > 0.
inline int cmp(const mpz_class& num, const mpz_class& den, const Dy& x) {
  if (x.kind == Dy::PINF) return -1;
  if (x.kind == Dy::NINF) return 1;
  return cmp(Dy(num, 0), Dy(x.m * den, x.e));
}
inline int cmp(const mpq_class& a, const Dy& x) { return cmp(a.get_num(), a.get_den(), x); }
inline bool contains(const Ball& b, const mpq_class& a) { return !b.nan() && cmp(a, b.lo()) >= 0 && cmp(a, b.hi()) <= 0; }
}  // namespace ref
