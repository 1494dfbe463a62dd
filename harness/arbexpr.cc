// Properties of arithmetic expressions of Arb (B03); the shapes are generated
// by gen_expr.py.
#include "arbexpr.hpp"

#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace arbexpr {
std::vector<Shape>& shapes() {
  static std::vector<Shape> s;
  return s;
}
}  // namespace arbexpr

static Ball operand(pbt::Case& c, int style) {
  Ball b;
  b.mid = style == 0 ? gen_dy(c, 100, 60) : style == 1 ? Dy(gen_mpz(c, 40), c.around(8)) : Dy(gen_mpz(c, 200), c.around(100));
  if (b.mid.zero() && !c.chance(1, 6)) b.mid = Dy(1, 0);
  switch (c.weighted({3, 5, 1, 1})) {
    case 0: break;
    case 1:
      if (!b.mid.zero()) b.rad = Dy(1 + c.draw((1 << 20) - 2), b.mid.lead() - 20 - c.range(0, 120));
      break;
    case 2: b.rad = Dy(1 + c.draw(7), c.around(4)); break;
    default:
      if (!b.mid.zero()) b.rad = Dy(1 + c.draw(7), b.mid.lead() - 2);
  }
  return b;
}

static void run(pbt::Case& c, const std::string& forms) {
  static std::map<std::string, std::vector<Shape>> cache;
  auto& list = cache[forms];
  if (list.empty()) {
    for (auto& s : shapes())
      if (forms.find(s.form) != std::string::npos) list.push_back(s);
    std::stable_sort(list.begin(), list.end(), [](const Shape& a, const Shape& b) { return strlen(a.text) != strlen(b.text) ? strlen(a.text) < strlen(b.text) : strcmp(a.text, b.text) < 0; });
  }
  const Shape& shape = list[c.draw(list.size() - 1)];
  c.log() << shape.text << " with ";
  Env K{c};
  const int style = c.weighted({5, 2, 2});
  for (int i = 0; i < 4; i++) {
    Ball b = operand(c, style);
    if (i > 0 && c.chance(1, 8)) b = K.b[c.draw(i - 1)];
    K.b.push_back(b);
    c.log() << "x" << i << "=" << b << ", ";
  }
  for (auto& b : K.b) {
    K.x.push_back(arb(b));
    K.v.push_back(K.value(b));
  }
  for (int i = 0; i < 2; i++) {
    K.i[i] = static_cast<int>(gen_long(c));
    if (!K.i[i]) K.i[i] = 3;
    K.l[i] = gen_long(c);
    if (!K.l[i]) K.l[i] = -3;
    K.u[i] = gen_long(c);
    if (!K.u[i]) K.u[i] = 3;
    K.d[i] = gen_double(c);
    if (K.d[i] == 0) K.d[i] = .1;
  }
  c.log() << "i0=" << K.i[0] << ", i1=" << K.i[1] << ", l0=" << K.l[0] << ", l1=" << K.l[1] << ", u0=" << K.u[0] << ", u1=" << K.u[1] << ", d0=" << K.d[0] << ", d1=" << K.d[1] << ", ";
  K.s = operand(c, style);
  K.sv = K.value(K.s);
  c.log() << "out=" << K.s << ", ";
  shape.run(K);
  c.cls(std::string("form ") + shape.form);
  c.cls(K.inexact ? "inexact" : "exact");
  c.nontrivial(K.inexact);
}

RELATION("B03", expressions_enclose, 30000, "at least one step of the evaluation is inexact") { run(c, "CS"); }
RELATION("B03", stored_expressions_enclose, 10000, "at least one step of the evaluation is inexact") { run(c, "E"); }
RELATION("B03", aliased_assignment_encloses, 15000, "at least one step of the evaluation is inexact") { run(c, "L"); }
RELATION("B03", inplace_encloses, 15000, "at least one step of the evaluation is inexact") { run(c, "IA"); }
