#!/usr/bin/env python3
"""Generate C++ expression shapes over Arf (or Arb) together with the matching
reference computation.

  gen_expr.py DIR SEED KIND FILES SHAPES

writes FILES translation units to DIR with SHAPES seeded random shapes each,
next to a fixed catalogue of shapes.  The values that go into the shapes
(operands, precisions, rounding modes) are chosen at run time by the
property-based testing engine.
"""
import random
import sys

OUT, SEED, KIND, FILES, SHAPES = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
T = {"arf": "Arf", "arb": "Arb"}[KIND]

NV = 4  # variables x0 … x3


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.nprec = 0
        self.nround = 0

    # --- trees: ("var", k, how) ("int"|"long"|"double"|"ulong"|"arf", k)
    #            ("op", o, l, r) ("neg", e) ("prec", i, e) ("round", i, e)
    def leaf(self, native):
        r = self.rng
        if native and r.random() < 0.35:
            return (r.choice(["int", "long", "double"] if KIND == "arf" else ["int", "long", "ulong", "double"]), r.randrange(2), r.choice(["const", "rvalue"]))
        return ("var", r.randrange(NV), r.choice(["lvalue", "lvalue", "const", "rvalue"]))

    def bind(self, e, always=False):
        """Maybe wrap in calls that set precision or rounding."""
        r = self.rng
        k = r.random()
        if KIND == "arb":
            if always or k < 0.2:
                e = self.prec(e)
            if always and k < 0.1:
                e = self.prec(e)
            return e
        if always:
            return self.round(self.prec(e)) if k < 0.6 else self.prec(self.round(e))
        if k < 0.12:
            return self.prec(e)
        if k < 0.24:
            return self.round(e)
        if k < 0.34:
            return self.round(self.prec(e))
        return e

    def prec(self, e):
        self.nprec += 1
        return ("prec", self.nprec - 1, e)

    def round(self, e):
        self.nround += 1
        return ("round", self.nround - 1, e)

    def tree(self, depth, native=False, bindable=True):
        """Calls that set parameters compile at the top and in right operands."""
        r = self.rng
        if depth == 0 or r.random() < 0.15:
            e = self.leaf(native)
            if bindable and e[0] == "var" and r.random() < 0.12:
                e = self.bind(e)
            return e
        if r.random() < 0.12:
            return ("neg", self.tree(depth - 1, bindable=False))
        o = r.choice("+-*/+-*")
        # C++ must see an Arf or an expression on one side.
        side = r.random() < 0.5
        a = self.tree(depth - 1, native=side, bindable=False)
        b = self.tree(depth - 1, native=not side)
        e = ("op", o, a, b)
        return self.bind(e) if bindable else e


def isexpr(e):
    return e[0] in ("op", "prec", "round") or (e[0] == "neg" and isexpr(e[1]))


def cpp(e):
    k = e[0]
    if k == "var":
        return {"lvalue": f"x{e[1]}", "const": f"cx{e[1]}", "rvalue": f"{T}(cx{e[1]})"}[e[2]]
    if k in ("int", "long", "ulong", "double"):
        v = f"{k[0]}{e[1]}"
        return v if e[2] == "const" else f"({'unsigned long' if k == 'ulong' else k})({v})"
    if k == "op":
        return f"({cpp(e[2])} {e[1]} {cpp(e[3])})"
    if k == "neg":
        return f"(-{cpp(e[1])})"
    if k in ("prec", "round"):
        other = {"prec": "round", "round": "prec"}[k]
        if e[2][0] == other and (e[1] + e[2][1] + len(str(e))) % 2:
            # both parameters in one call
            return f"{cpp(e[2][2])}({other[0]}{e[2][1]}, {k[0]}{e[1]})"
        return f"{cpp(e[2])}({k[0]}{e[1]})"
    raise Exception(k)


def ref(e, p=None, r=None):
    k = e[0]
    if k == "var":
        return f"K.var({e[1]})"
    if k in ("int", "long", "ulong", "double"):
        return f"K.num({k[0]}{e[1]})"
    if k == "op":
        return f"K.op('{e[1]}', {ref(e[2], p, r)}, {ref(e[3], p, r)}, p{p}, {'r%d' % r if KIND == 'arf' else 'Round::NEAR'})"
    if k == "neg":
        return f"K.neg({ref(e[1], p, r)})"
    if k == "prec":
        return ref(e[2], e[1], r)
    if k == "round":
        return ref(e[2], p, e[1])
    raise Exception(k)


def divs(e, p=None, out=None):
    """Precisions that govern a division: these must be finite."""
    out = set() if out is None else out
    if e[0] == "op":
        if e[1] == "/":
            out.add(p)
        divs(e[2], p, out)
        divs(e[3], p, out)
    elif e[0] == "neg":
        divs(e[1], p, out)
    elif e[0] == "prec":
        divs(e[2], e[1], out)
    elif e[0] == "round":
        divs(e[2], p, out)
    return out


def vars_of(e, how=None):
    if e[0] == "var":
        return {e[1]} if how is None or e[2] in how else set()
    out = set()
    for x in e:
        if isinstance(x, tuple):
            out |= vars_of(x, how)
    return out


def outer(e, kind):
    """The index bound by the outermost calls (what op= uses)."""
    while e[0] in ("prec", "round"):
        if e[0] == kind:
            return e[1]
        e = e[2]
    return None


def emit(f, name, e, form, nprec, nround, rng):
    o = form[1] if len(form) > 1 and form[0] in "IA" else None
    text = cpp(e)
    finite = divs(e)
    target = "out"
    aliased = None
    if form[0] in "LA":  # aliased target
        vs = sorted(vars_of(e, ("lvalue", "const")) or {0})
        aliased = rng.choice(vs)
        target = f"x{aliased}"
    want = ref(e)
    if form[0] in "IA":
        p, r = outer(e, "prec"), outer(e, "round")
        if o == "/":
            finite.add(p)
        start = f"K.var({aliased})" if aliased is not None else "K.start()"
        want = f"K.op('{o}', {start}, {want}, p{p}, {'r%d' % r if KIND == 'arf' else 'Round::NEAR'})"
    body = []
    shown = {"C": f"{T} out = {text}", "S": f"out = {text}", "L": f"{target} = {text}", "I": f"out {o}= {text}", "A": f"{target} {o}= {text}", "E": f"auto e = {text}; out = e, out = e"}[form[0]]
    w = body.append
    w(f"static void {name}(Env& K) {{")
    for i in range(NV):
        w(f"  [[maybe_unused]] {T}& x{i} = K.x[{i}]; [[maybe_unused]] const {T}& cx{i} = K.x[{i}];")
    for i in range(2):
        w(f"  [[maybe_unused]] const int i{i} = K.i[{i}]; [[maybe_unused]] const long l{i} = K.l[{i}]; [[maybe_unused]] const unsigned long u{i} = K.u[{i}]; [[maybe_unused]] const double d{i} = K.d[{i}];")
    for i in range(nprec):
        w(f"  [[maybe_unused]] const exactreal::prec p{i} = K.prec({'true' if i in finite else 'false'});")
    for i in range(nround):
        w(f"  [[maybe_unused]] const Round r{i} = K.round();")
    w(f"  const auto want = {want};")
    if form[0] == "C":
        w(f"  {T} out = {text};")
        w("  K.check(out, want);")
    elif form[0] == "S":
        w(f"  {T} out(cx{rng.randrange(NV)});")
        w(f"  {T}& ret = (out = {text});")
        w('  REQUIRE(&ret == &out, "assignment does not return its target");')
        w("  K.check(out, want);")
    elif form[0] == "L":
        w(f"  {target} = {text};")
        w(f"  K.check({target}, want);")
    elif form[0] == "I":
        w(f"  {T} out = K.startvalue();")
        w(f"  {T}& ret = (out {o}= {text});")
        w('  REQUIRE(&ret == &out, "op= does not return its target");')
        w("  K.check(out, want);")
    elif form[0] == "A":
        w(f"  {T}& ret = ({target} {o}= {text});")
        w(f'  REQUIRE(&ret == &{target}, "op= does not return its target");')
        w(f"  K.check({target}, want);")
    elif form[0] == "E":
        w(f"  auto e = {text};")
        w(f"  {T} one(e);")
        w(f"  {T} two; two = e;")
        w("  K.check(one, want);")
        w("  K.check(two, want);")
    w(f"  K.unchanged({-1 if aliased is None else aliased});")
    w("}")
    w(f'static Add add_{name}({{"{shown}", {name}, \'{form[0]}\'}});')
    f.write("\n".join(body) + "\n\n")


V = lambda k, how="lvalue": ("var", k, how)  # noqa: E731
OP = lambda o, a, b: ("op", o, a, b)  # noqa: E731
P = lambda i, e: ("prec", i, e)  # noqa: E731
R = (lambda i, e: ("round", i, e)) if KIND == "arf" else (lambda i, e: e)  # noqa: E731
NEG = lambda e: ("neg", e)  # noqa: E731


def catalogue():
    """Shapes that are always there."""
    out = []
    for o in "+-*/":
        out.append((R(0, P(0, OP(o, V(0), V(1, "const")))), "C"))
        out.append((P(0, R(0, OP(o, V(0, "rvalue"), V(1)))), "S"))
        # aliasing
        out.append((P(0, R(0, OP(o, V(0), V(0)))), "L"))
        out.append((R(0, P(0, OP(o, V(1), OP(o, V(0), V(1))))), "L"))
        # in place, plain and aliased
        out.append((R(0, P(0, V(0))), "I" + o))
        out.append((P(0, R(0, OP("+", V(0), V(1)))), "I" + o))
        out.append((P(0, R(0, V(0))), "A" + o))
        out.append((R(0, P(0, OP("-", V(1), V(0)))), "A" + o))
        # stored expressions
        out.append((R(0, P(0, OP(o, V(0, "rvalue"), OP("-", V(1), V(2, "rvalue"))))), "E"))
        # native operands on either side
        for ty in (["int", "long", "double"] if KIND == "arf" else ["int", "long", "ulong", "double"]):
            out.append((R(0, P(0, OP(o, V(0), (ty, 0, "rvalue")))), "C"))
            out.append((R(0, P(0, OP(o, (ty, 0, "const"), V(0)))), "C"))
            out.append((R(0, P(0, OP(o, OP("-", V(0), V(1)), (ty, 0, "rvalue")))), "S"))
        # inner bindings beat outer ones
        out.append((R(1, P(1, OP(o, OP("*", V(0), V(1)), R(0, P(0, OP("-", V(2), V(0))))))), "S"))
        out.append((R(1, P(1, OP(o, V(2), R(0, P(0, OP("+", V(0), V(1))))))), "C"))
        out.append((P(1, R(0, OP(o, V(2), P(0, OP("-", V(0), V(1)))))), "S"))
        # calls on terminals do not round
        out.append((R(1, P(1, OP(o, V(1), R(0, P(0, V(0)))))), "C"))
    out.append((NEG(V(0)), "C"))
    out.append((NEG(V(0)), "L"))
    out.append((R(0, P(0, V(0))), "S"))
    out.append((NEG(NEG(V(0))), "S"))
    out.append((P(0, R(0, NEG(OP("+", V(0), V(1))))), "S"))
    out.append((P(0, R(0, OP("-", NEG(V(0)), NEG(OP("/", V(1), V(2)))))), "L"))
    # calls in either order, twice
    out.append((P(1, R(0, P(0, OP("+", V(0), V(1))))), "C"))
    if KIND == "arf":
        out.append((R(1, P(0, R(0, OP("+", V(0), V(1))))), "C"))
        out.append((R(1, R(0, P(0, OP("/", V(0), V(1))))), "I+"))
        out.append((P(1, P(0, R(0, OP("/", V(0), V(1))))), "I-"))
        out.append((P(1, R(1, OP("+", V(1), P(0, R(0, OP("*", V(0), V(1))))))), "A-"))
    else:
        out.append((P(1, P(0, OP("/", V(0), V(1)))), "I-"))
    # deep shapes
    out.append((P(0, R(0, OP("+", OP("*", OP("/", V(0), V(1)), OP("-", V(2), V(3))), OP("/", OP("+", V(0), V(2)), V(3))))), "S"))
    out.append((P(0, R(0, OP("-", V(0), OP("-", V(1), OP("-", V(2), OP("-", V(3), V(0))))))), "L"))
    out.append((P(0, R(0, OP("/", OP("/", OP("/", V(0), V(1)), V(2)), V(3)))), "L"))
    return out


def storable(e, called=False):
    """Calling a temporary Arf or Arb refers to it; so the result must not be
    stored beyond the lifetime of the temporary."""
    if e[0] == "var":
        return (e[0], e[1], "lvalue") if called else e
    return tuple(storable(x, e[0] in ("prec", "round")) if isinstance(x, tuple) else x for x in e)


def count(e, kind):
    m = -1
    if e[0] == kind:
        m = e[1]
    for x in e:
        if isinstance(x, tuple):
            m = max(m, count(x, kind) - 1)
    return m + 1


def main():
    shapes = [(e, form, True) for e, form in catalogue()]
    rng = random.Random(f"{KIND}-{SEED}")
    while len(shapes) < len(catalogue()) + FILES * SHAPES:
        g = Gen(rng)
        e = g.bind(g.tree(rng.choice([2, 2, 3, 3, 4])), always=True)
        if not isexpr(e):
            continue
        form = rng.choice(["C", "S", "L", "E", "I", "A"])
        if form in "IA":
            form += rng.choice("+-*/")
        shapes.append((storable(e) if form == "E" else e, form, False))
    rng2 = random.Random(f"emit-{KIND}-{SEED}")
    parts = [shapes[i::FILES] for i in range(FILES)]
    for i, part in enumerate(parts):
        with open(f"{OUT}/{KIND}_shapes_{i}.cc", "w") as f:
            f.write(f'#include "{KIND}expr.hpp"\n\n')
            for j, (e, form, _) in enumerate(part):
                emit(f, f"s{i}_{j}", e, form, count(e, "prec"), count(e, "round"), rng2)


main()
