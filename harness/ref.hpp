// Reference arithmetic that does not use the code under test: exact dyadic
// numbers and correctly rounded operations on top of GMP, and generators.
#pragma once
#include <flint/flint.h>
#include <flint/arb.h>
#include <flint/arf.h>
#include <flint/fmpq.h>
#include <flint/fmpz.h>
#include <gmpxx.h>

#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include <ostream>
#include <string>

#include "../exact-real/arf.hpp"
#include "pbt.hpp"

namespace ref {

// m·2^e with m odd (or m = e = 0); or an infinity; or NaN.
struct Dy {
  enum Kind { FIN, PINF, NINF, NAN_ };
  Kind kind = FIN;
  mpz_class m = 0, e = 0;
  Dy() {}
  Dy(Kind k) : kind(k) {}
  Dy(const mpz_class& m_, const mpz_class& e_) : m(m_), e(e_) { normalize(); }
  void normalize() {
    if (m == 0) {
      e = 0;
      return;
    }
    const auto t = mpz_scan1(m.get_mpz_t(), 0);
    if (t) {
      mpz_tdiv_q_2exp(m.get_mpz_t(), m.get_mpz_t(), t);
      e += static_cast<unsigned long>(t);
    }
  }
  bool finite() const { return kind == FIN; }
  bool zero() const { return kind == FIN && m == 0; }
  int sign() const { return kind == PINF ? 1 : kind == NINF ? -1 : kind == FIN ? sgn(m) : 0; }
  long bits() const { return m == 0 ? 0 : mpz_sizeinbase(m.get_mpz_t(), 2); }
  // exponent of the leading bit: 2^lead <= |x| < 2^(lead+1)
  mpz_class lead() const { return e + (bits() - 1); }
  bool operator==(const Dy& o) const { return kind == o.kind && (kind != FIN || (m == o.m && e == o.e)); }
  bool operator!=(const Dy& o) const { return !(*this == o); }
  Dy operator-() const {
    Dy r = *this;
    if (kind == PINF) r.kind = NINF;
    if (kind == NINF) r.kind = PINF;
    r.m = -r.m;
    return r;
  }
};

inline mpz_class shl(const mpz_class& m, unsigned long k) {
  mpz_class r;
  mpz_mul_2exp(r.get_mpz_t(), m.get_mpz_t(), k);
  return r;
}

// Only for exponents of moderate size.
inline mpq_class q(const Dy& x) {
  if (!x.finite()) throw std::logic_error("q() of non-finite value");
  mpq_class r;
  if (x.e >= 0)
    r = shl(x.m, x.e.get_ui());
  else {
    r.get_num() = x.m;
    mpz_class ne = -x.e;
    r.get_den() = shl(1, ne.get_ui());
  }
  return r;
}

inline Dy dy(const ::arf_t x) {
  if (arf_is_pos_inf(x)) return Dy(Dy::PINF);
  if (arf_is_neg_inf(x)) return Dy(Dy::NINF);
  if (arf_is_nan(x)) return Dy(Dy::NAN_);
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  arf_get_fmpz_2exp(m, e, x);
  mpz_class M, E;
  fmpz_get_mpz(M.get_mpz_t(), m);
  fmpz_get_mpz(E.get_mpz_t(), e);
  fmpz_clear(m);
  fmpz_clear(e);
  return Dy(M, E);
}
inline Dy dy(const exactreal::Arf& x) { return dy(x.arf_t()); }

inline void set_arf(::arf_t x, const Dy& v) {
  if (v.kind == Dy::PINF) return arf_pos_inf(x);
  if (v.kind == Dy::NINF) return arf_neg_inf(x);
  if (v.kind == Dy::NAN_) return arf_nan(x);
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  fmpz_set_mpz(m, v.m.get_mpz_t());
  fmpz_set_mpz(e, v.e.get_mpz_t());
  arf_set_fmpz_2exp(x, m, e);
  fmpz_clear(m);
  fmpz_clear(e);
}
// An Arf with this value, made without using constructors under test.
inline exactreal::Arf arf(const Dy& v) {
  exactreal::Arf x;
  set_arf(x.arf_t(), v);
  return x;
}

inline Dy dy(double d) {
  if (std::isnan(d)) return Dy(Dy::NAN_);
  if (std::isinf(d)) return Dy(d > 0 ? Dy::PINF : Dy::NINF);
  uint64_t b;
  std::memcpy(&b, &d, 8);
  const bool neg = b >> 63;
  long ex = (b >> 52) & 0x7ff;
  uint64_t fr = b & ((1ull << 52) - 1);
  if (ex)
    fr |= 1ull << 52;
  else
    ex = 1;
  mpz_class m = static_cast<unsigned long>(fr);
  if (neg) m = -m;
  return Dy(m, ex - 1075);
}
inline Dy dy(long v) { return Dy(mpz_class(v), 0); }
inline Dy dy(int v) { return Dy(mpz_class(v), 0); }
inline Dy dy(const mpz_class& v) { return Dy(v, 0); }

inline int cmp(const Dy& a, const Dy& b) {
  auto rank = [](const Dy& x) { return x.kind == Dy::PINF ? 2 : x.kind == Dy::NINF ? -2 : sgn(x.m); };
  if (rank(a) != rank(b)) return rank(a) < rank(b) ? -1 : 1;
  if (!a.finite() || a.zero()) return 0;
  const int s = sgn(a.m);
  const mpz_class la = a.lead(), lb = b.lead();
  if (la != lb) return la < lb ? -s : s;
  // Same leading bit; mantissas have a bounded number of bits.
  mpz_class x = a.m, y = b.m;
  if (a.bits() < b.bits())
    x = shl(x, b.bits() - a.bits());
  else
    y = shl(y, a.bits() - b.bits());
  return ::cmp(x, y) < 0 ? -1 : ::cmp(x, y) > 0 ? 1 : 0;
}

using Round = exactreal::Arf::Round;

// Correctly rounded num/den·2^e to p bits.
inline Dy round_ratio(mpz_class n, mpz_class d, mpz_class e, long p, Round mode) {
  if (n == 0) return Dy();
  int s = sgn(n) * sgn(d);
  n = abs(n);
  d = abs(d);
  long shift = p + 2 - (static_cast<long>(mpz_sizeinbase(n.get_mpz_t(), 2)) - static_cast<long>(mpz_sizeinbase(d.get_mpz_t(), 2)));
  if (shift > 0)
    n = shl(n, shift);
  else if (shift < 0)
    d = shl(d, -shift);
  mpz_class qq, r;
  mpz_fdiv_qr(qq.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
  long drop = static_cast<long>(mpz_sizeinbase(qq.get_mpz_t(), 2)) - p;
  // now drop >= 1
  mpz_class low, hi;
  mpz_fdiv_q_2exp(hi.get_mpz_t(), qq.get_mpz_t(), drop);
  mpz_fdiv_r_2exp(low.get_mpz_t(), qq.get_mpz_t(), drop);
  const mpz_class half = shl(1, drop - 1);
  const bool inexact = low != 0 || r != 0;
  bool up = false;
  if (inexact) switch (mode) {
      case Round::DOWN: up = false; break;
      case Round::UP: up = true; break;
      case Round::FLOOR: up = s < 0; break;
      case Round::CEIL: up = s > 0; break;
      case Round::NEAR: {
        int c = ::cmp(low, half);
        if (c == 0 && r != 0) c = 1;
        up = c > 0 || (c == 0 && mpz_odd_p(hi.get_mpz_t()));
        break;
      }
    }
  if (up) hi += 1;
  if (s < 0) hi = -hi;
  return Dy(hi, e - shift + drop);
}

inline Dy round(const Dy& x, long p, Round mode) {
  if (!x.finite() || x.zero()) return x;
  if (x.bits() <= p) return x;
  return round_ratio(x.m, 1, x.e, p, mode);
}

// Exact sum; for exponents of moderate difference.
inline Dy add(const Dy& a, const Dy& b) {
  if (a.zero()) return b;
  if (b.zero()) return a;
  const mpz_class e = a.e < b.e ? a.e : b.e;
  mpz_class da = a.e - e, db = b.e - e;
  return Dy(shl(a.m, da.get_ui()) + shl(b.m, db.get_ui()), e);
}
inline Dy mul(const Dy& a, const Dy& b) { return Dy(a.m * b.m, a.e + b.e); }

// The correctly rounded operations on finite values (division by zero is excluded.)
inline Dy op(char o, const Dy& a, const Dy& b, long p, Round r) {
  switch (o) {
    case '+': return round(add(a, b), p, r);
    case '-': return round(add(a, -b), p, r);
    case '*': return round(mul(a, b), p, r);
    case '/':
      if (b.zero()) throw pbt::Discard{};
      return round_ratio(a.m, b.m, a.e - b.e, p, r);
  }
  throw std::logic_error("unknown operation");
}

// Round to the closest double, ties to even, with gradual underflow.
inline double to_double(const mpz_class& num, const mpz_class& den, const mpz_class& e2) {
  if (num == 0) return 0;
  // Exponent of the leading bit of the quotient.
  Dy down = round_ratio(num, den, e2, 2, Round::DOWN);
  const mpz_class lead = down.lead();
  const int s = sgn(down.m);
  if (lead > 1100) return s * std::numeric_limits<double>::infinity();
  if (lead < -1075) return s * 0.0;
  long p = 53;
  if (lead < -1022) p = 53 - (-1022 - lead.get_si());
  if (p <= 0) {
    // 2^-1075 <= |x| < 2^-1074
    Dy one = round_ratio(num, den, e2, 1, Round::UP);
    // exactly 2^-1075 is a tie with 0
    if (one.lead() == -1075) return s * 0.0;
    return s * std::numeric_limits<double>::denorm_min();
  }
  Dy r = round_ratio(num, den, e2, p, Round::NEAR);
  if (r.lead() >= 1024) return s * std::numeric_limits<double>::infinity();
  return std::ldexp(r.m.get_d(), static_cast<int>(r.e.get_si()));
}
inline double to_double(const Dy& x) {
  if (x.kind == Dy::PINF) return std::numeric_limits<double>::infinity();
  if (x.kind == Dy::NINF) return -std::numeric_limits<double>::infinity();
  return to_double(x.m, 1, x.e);
}

inline std::ostream& operator<<(std::ostream& os, const Dy& x) {
  if (x.kind == Dy::PINF) return os << "+inf";
  if (x.kind == Dy::NINF) return os << "-inf";
  if (x.kind == Dy::NAN_) return os << "nan";
  return os << x.m.get_str() << "p" << x.e.get_str();
}
inline const char* name(Round r) {
  switch (r) {
    case Round::NEAR: return "NEAR";
    case Round::DOWN: return "DOWN";
    case Round::UP: return "UP";
    case Round::FLOOR: return "FLOOR";
    case Round::CEIL: return "CEIL";
  }
  return "?";
}

// --- generators ------------------------------------------------------------

// An integer of varied size and bit pattern; shrinks to 0.
inline mpz_class gen_mpz(pbt::Case& c, long maxbits = 400) {
  mpz_class r;
  switch (c.weighted({8, 6, 4, 2, 2})) {
    case 0: r = c.draw(20); break;
    case 1: r = mpz_class(static_cast<unsigned long>(c.draw(UINT64_MAX))) ; mpz_fdiv_q_2exp(r.get_mpz_t(), r.get_mpz_t(), c.draw(62)); break;
    case 2: {
      long n = c.range(1, maxbits);
      for (long i = 0; i < n; i += 32) r = shl(r, 32) + static_cast<unsigned long>(c.draw(UINT32_MAX));
      mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), n);
      break;
    }
    case 3:  // 2^k + small
      r = shl(1, c.range(0, maxbits)) + c.around(2);
      break;
    case 4: {  // runs of ones and zeros
      long n = c.range(1, 5);
      for (long i = 0; i < n; i++) {
        long k = c.range(1, maxbits / 5 + 1);
        r = shl(r, k);
        if (i % 2 == 0) r += shl(1, k) - 1;
      }
      break;
    }
  }
  if (c.flip()) r = -r;
  return r;
}

inline mpz_class gen_nonzero_mpz(pbt::Case& c, long maxbits = 400) {
  mpz_class r = gen_mpz(c, maxbits);
  return r == 0 ? mpz_class(1) : r;
}

// A rational of varied shape.
inline mpq_class gen_mpq(pbt::Case& c, long maxbits = 200) {
  mpz_class n = gen_mpz(c, maxbits), d;
  switch (c.weighted({4, 4, 2, 2})) {
    case 0: d = 1 + c.draw(20); break;
    case 1: d = abs(gen_nonzero_mpz(c, maxbits)); break;
    case 2: d = shl(1, c.draw(80)); break;
    case 3: d = 1; break;
  }
  mpq_class r(n, d);
  r.canonicalize();
  return r;
}

inline long gen_exp(pbt::Case& c, long moderate = 300) {
  switch (c.weighted({4, 6, 2})) {
    case 0: return 0;
    case 1: return c.around(20);
    default: return c.around(moderate);
  }
}

inline Dy gen_dy(pbt::Case& c, long maxbits = 200, long maxexp = 300) { return Dy(gen_mpz(c, maxbits), gen_exp(c, maxexp)); }

inline double gen_double(pbt::Case& c) {
  switch (c.weighted({4, 4, 4, 2, 1})) {
    case 0: return static_cast<double>(c.around(100));
    case 1: return static_cast<double>(c.around(1 << 20)) / 1024;
    case 2: {
      uint64_t b = c.draw(UINT64_MAX);
      double d;
      std::memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 1.5;
    }
    case 3: {  // subnormals and their neighbours
      uint64_t b = c.draw((1ull << 53) + 10) | (c.draw(1) << 63);
      double d;
      std::memcpy(&d, &b, 8);
      return d;
    }
    default: {
      static const double v[] = {0.0, 1.0, -1.0, 0.5, -0.5, std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::max(), 1 + std::numeric_limits<double>::epsilon(), 1 - std::numeric_limits<double>::epsilon() / 2, -0.0};
      return v[c.draw(11)];
    }
  }
}

inline long gen_long(pbt::Case& c) {
  switch (c.weighted({6, 4, 2})) {
    case 0: return c.around(30);
    case 1: {
      const uint64_t raw = c.draw(UINT64_MAX);
      return static_cast<long>(raw) >> c.draw(62);
    }
    default: {
      static const long v[] = {0, 1, -1, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, INT_MAX, INT_MIN, static_cast<long>(INT_MAX) + 1, static_cast<long>(INT_MIN) - 1, 1L << 53, (1L << 53) + 1};
      return v[c.draw(12)];
    }
  }
}

inline Round gen_round(pbt::Case& c) {
  static const Round r[] = {Round::NEAR, Round::DOWN, Round::UP, Round::FLOOR, Round::CEIL};
  return r[c.draw(4)];
}

// Arf precisions; FLINT documents prec >= 2.
inline long gen_prec(pbt::Case& c, long max = 300) {
  switch (c.weighted({16, 16, 8, 1})) {
    case 0: return c.range(2, 12);
    case 1: return c.range(2, 130);
    case 2: return c.range(2, max);
    default: return c.range(max, 20 * max);
  }
}

}  // namespace ref
