// Properties of arithmetic expressions of Arf (A05, A06); the shapes are
// generated by gen_expr.py.
#include "arfexpr.hpp"

#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace arfexpr {
std::vector<Shape>& shapes() {
  static std::vector<Shape> s;
  return s;
}
}  // namespace arfexpr

static void run(pbt::Case& c, const std::string& forms) {
  static std::map<std::string, std::vector<Shape>> cache;
  auto& list = cache[forms];
  if (list.empty()) {
    for (auto& s : shapes())
      if (forms.find(s.form) != std::string::npos) list.push_back(s);
    // The order must not depend on the order of static initialization.
    std::stable_sort(list.begin(), list.end(), [](const Shape& a, const Shape& b) { return strlen(a.text) != strlen(b.text) ? strlen(a.text) < strlen(b.text) : strcmp(a.text, b.text) < 0; });
  }
  const Shape& shape = list[c.draw(list.size() - 1)];
  c.log() << shape.text << " with ";
  Env K{c};
  const int style = c.weighted({5, 2, 2});
  for (int i = 0; i < 4; i++) {
    Dy v = style == 0 ? gen_dy(c, 150, 200) : style == 1 ? Dy(gen_mpz(c, 40), c.around(8)) : Dy(gen_mpz(c, 300), c.around(2000));
    if (v.zero() && !c.chance(1, 6)) v = Dy(1, 0);
    // Exact cancellation and repeated values
    if (i > 0 && c.chance(1, 8)) v = c.flip() ? K.v[c.draw(i - 1)] : -K.v[c.draw(i - 1)];
    K.v.push_back(v);
    c.log() << "x" << i << "=" << v << ", ";
  }
  for (auto& v : K.v) K.x.push_back(arf(v));
  for (int i = 0; i < 2; i++) {
    K.i[i] = static_cast<int>(gen_long(c));
    if (!K.i[i]) K.i[i] = 3;
    K.l[i] = gen_long(c);
    if (!K.l[i]) K.l[i] = -3;
    K.u[i] = K.l[i];
    K.d[i] = gen_double(c);
    if (K.d[i] == 0) K.d[i] = .1;
  }
  c.log() << "i0=" << K.i[0] << ", i1=" << K.i[1] << ", l0=" << K.l[0] << ", l1=" << K.l[1] << ", d0=" << K.d[0] << ", d1=" << K.d[1] << ", ";
  K.s = gen_dy(c, 150, 100);
  c.log() << "out=" << K.s << ", ";
  shape.run(K);
  c.cls(std::string("form ") + shape.form);
  c.cls(K.inexact ? "inexact" : "exact");
  c.nontrivial(K.inexact);
}

RELATION("A05", expressions_round_every_step, 60000, "at least one step of the evaluation is inexact") { run(c, "CS"); }
RELATION("A05", stored_expressions, 20000, "at least one step of the evaluation is inexact") { run(c, "E"); }
RELATION("A06", aliased_assignment, 30000, "at least one step of the evaluation is inexact") { run(c, "L"); }
RELATION("A06", inplace, 30000, "at least one step of the evaluation is inexact") { run(c, "I"); }
RELATION("A06", inplace_aliased, 30000, "at least one step of the evaluation is inexact") { run(c, "A"); }
