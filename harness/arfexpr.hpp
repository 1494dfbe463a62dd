// Environment in which the generated Arf expression shapes run.
#pragma once
#include "ref.hpp"
#include "../exact-real/yap/arf.hpp"

namespace arfexpr {
using namespace ref;
using exactreal::Arf;

struct Env {
  pbt::Case& c;
  std::vector<Arf> x;
  std::vector<Dy> v;
  int i[2];
  long l[2];
  unsigned long u[2];
  double d[2];
  Dy s;
  bool inexact = false, specials = false;

  exactreal::prec prec(bool finite) {
    exactreal::prec p = gen_prec(c);
    if (!finite && c.chance(1, 12)) p = ARF_PREC_EXACT;
    if (p == ARF_PREC_EXACT)
      c.log() << "prec exact, ";
    else
      c.log() << "prec " << p << ", ";
    return p;
  }
  Round round() {
    const Round r = gen_round(c);
    c.log() << name(r) << ", ";
    return r;
  }
  Dy var(int k) { return v[k]; }
  Dy num(int n) { return dy(n); }
  Dy num(long n) { return dy(n); }
  Dy num(double n) { return dy(n); }
  Dy start() { return s; }
  Arf startvalue() { return arf(s); }
  Dy neg(const Dy& a) { return -a; }
  Dy op(char o, const Dy& a, const Dy& b, exactreal::prec p, Round r) {
    // Rounding to a precision beyond the exact result does nothing.
    const Dy w = ref::op(o, a, b, p == ARF_PREC_EXACT ? LONG_MAX / 8 : p, r);
    if (o == '/') {
      if (!(mul(w, b) == a)) inexact = true;
    } else if (p != ARF_PREC_EXACT && !(w == ref::op(o, a, b, LONG_MAX / 8, r)))
      inexact = true;
    return w;
  }
  void check(const Arf& got, const Dy& want) { REQUIRE(dy(got) == want, "got " << dy(got) << " instead of " << want); }
  // The operands other than an aliased target keep their value.
  void unchanged(int except) {
    for (int k = 0; k < static_cast<int>(x.size()); k++)
      if (k != except) REQUIRE(dy(x[k]) == v[k], "operand x" << k << " changed to " << dy(x[k]));
  }
};

struct Shape {
  const char* text;
  void (*run)(Env&);
  char form;
};
std::vector<Shape>& shapes();
struct Add {
  Add(Shape s) { shapes().push_back(s); }
};
}  // namespace arfexpr
using namespace arfexpr;
