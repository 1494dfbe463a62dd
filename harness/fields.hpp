// Number fields with an explicit generator
#pragma once
#include <e-antic/renfxx.h>

#include <boost/intrusive_ptr.hpp>
#include <algorithm>
#include <ostream>
#include <string>
#include <utility>
#include <vector>

#include "ref.hpp"

namespace ref {
struct Field {
  std::string polynomial;
  std::string embedding;
  unsigned long degree;
  mpz_class radicand;  // the generator is the positive degree-th root of radicand, or, for 0, the golden ratio
  bool negative = false;  // whether the generator is the negative of that root instead
  std::string name = "a";
  boost::intrusive_ptr<const eantic::renf_class> make() const { return eantic::renf_class::make(polynomial, name, embedding); }
  bool operator==(const Field& rhs) const { return degree == rhs.degree && radicand == rhs.radicand && negative == rhs.negative && name == rhs.name; }
  friend std::ostream& operator<<(std::ostream& os, const Field& f) { return os << f.polynomial << (f.negative ? " (negative)" : ""); }
};
inline const Field fields[] = {
    {"a^2 - 2", "1.4 +/- 0.1", 2, 2},
    {"a^2 - a - 1", "1.6 +/- 0.1", 2, 0},
    {"a^3 - 2", "1.26 +/- 0.1", 3, 2},
    {"a^2 - 10000000019", "100000 +/- 1", 2, mpz_class("10000000019")},
    {"a^5 - 7", "1.47 +/- 0.1", 5, 7},
};
// The field of a root of an integer that is 2 modulo 4 (so that its polynomial is irreducible)
inline Field radical(unsigned long degree, const mpz_class& radicand, bool negative, const std::string& name) {
  mpz_class r;
  mpz_root(r.get_mpz_t(), radicand.get_mpz_t(), degree);
  // The root is strictly between r and r + 1.
  const std::string sign = negative ? "-" : "";
  return {name + "^" + std::to_string(degree) + " - " + radicand.get_str(), sign + r.get_str() + ".5 +/- 0.5", degree, radicand, negative, name};
}
// A field that is most often one of the above
inline Field gen_field(pbt::Case& c) {
  if (c.chance(3, 4)) return fields[c.draw(4)];
  const unsigned long degree = 2 + c.draw(3);
  const mpz_class radicand = 4 * abs(gen_mpz(c, 140)) + 2;
  return radical(degree, radicand, degree % 2 == 0 && c.chance(1, 3), c.chance(1, 4) ? "b" : "a");
}
// A field that is easily confused with another one
inline Field gen_relative(pbt::Case& c, const Field& f) {
  if (f.radicand % 4 != 2) return gen_field(c);
  switch (c.draw(5)) {
    case 0: return f;
    case 1: return radical(f.degree, f.radicand, f.degree % 2 == 0 && !f.negative, f.name);
    case 2: return radical(f.degree, f.radicand + 4, f.negative, f.name);
    case 3: return radical(f.degree, f.radicand, f.negative, f.name == "a" ? "b" : "a");
    case 4: return radical(f.degree % 2 ? f.degree : 2 + c.draw(3), f.radicand, false, f.name);
    default: return gen_field(c);
  }
}
// Some fields, often related
inline std::vector<boost::intrusive_ptr<const eantic::renf_class>> gen_fields(pbt::Case& c, size_t n) {
  std::vector<boost::intrusive_ptr<const eantic::renf_class>> ret;
  Field f;
  while (ret.size() < n) {
    f = ret.size() ? gen_relative(c, f) : gen_field(c);
    ret.push_back(f.make());
  }
  return ret;
}
// A rational interval of width <= 2^(1-k) that contains the generator.
inline std::pair<mpq_class, mpq_class> generator(const Field& f, unsigned long k) {
  mpz_class r, n = f.radicand != 0 ? f.radicand : 5;
  n = shl(n, k * f.degree);
  mpz_root(r.get_mpz_t(), n.get_mpz_t(), f.degree);
  mpq_class lo(r, shl(1, k)), hi(r + 1, shl(1, k));
  lo.canonicalize();
  hi.canonicalize();
  if (f.radicand == 0) lo = (1 + lo) / 2, hi = (1 + hi) / 2;
  if (f.negative) return {-hi, -lo};
  return {lo, hi};
}

// An interval that contains the value of a polynomial at a generator
inline std::pair<mpq_class, mpq_class> evaluate(const std::vector<mpq_class>& coefficients, const std::pair<mpq_class, mpq_class>& a) {
  mpq_class lo = 0, hi = 0, plo = 1, phi = 1;
  for (auto& q : coefficients) {
    const mpq_class u = q * plo, v = q * phi;
    lo += u < v ? u : v;
    hi += u < v ? v : u;
    // The generators are not close to zero
    const mpq_class x = plo * a.first, y = plo * a.second, z = phi * a.first, w = phi * a.second;
    plo = std::min({x, y, z, w});
    phi = std::max({x, y, z, w});
  }
  return {lo, hi};
}
// The coefficients of an element as a polynomial in the generator
inline std::vector<mpq_class> coefficients(const eantic::renf_elem_class& x) {
  std::vector<mpq_class> ret;
  const mpz_class den = x.den();
  for (auto& n : x.num_vector()) {
    mpq_class q(n, den);
    q.canonicalize();
    ret.push_back(q);
  }
  return ret;
}
inline eantic::renf_elem_class element(const eantic::renf_class& K, const std::vector<mpq_class>& coefficients) {
  eantic::renf_elem_class x(K, 0), power(K, 1);
  for (auto& q : coefficients) {
    x += q * power;
    power *= K.gen();
  }
  return x;
}
// A list of rational coefficients, often with few non-zero entries
inline std::vector<mpq_class> gen_coefficients(pbt::Case& c, const Field& f, long maxbits) {
  std::vector<mpq_class> ret;
  for (unsigned long i = 0; i < f.degree; i++) ret.push_back(c.chance(1, 3) ? mpq_class(0) : gen_mpq(c, maxbits));
  return ret;
}
}  // namespace ref
