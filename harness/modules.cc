// Properties of modules (M01) and of the arithmetic of their elements (E01, E02, E03).
#include <boost/lexical_cast.hpp>
#include <boost/numeric/conversion/cast.hpp>

#include <random>

#include "machine.hpp"

using namespace ref;

namespace {
template <typename Ring>
std::string name() {
  return std::is_same_v<Ring, IntegerRing> ? "ℤ" : std::is_same_v<Ring, RationalField> ? "ℚ" : "K";
}
}  // namespace

// ---------------------------------------------------------------- M01
namespace {
template <typename Ring>
void modules_are_unique(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto s = W.gen_monos(5, 3);
  c.log() << "generators ";
  for (auto& m : s) c.log() << str(m) << " ";
  c.nontrivial(s.size() >= 3);
  const auto M = W.module(s);
  REQUIRE(M->rank() == static_cast<long>(s.size()) && M->basis().size() == s.size(), "rank is " << M->rank());
  REQUIRE(W.generators(*M) == s, "other generators than requested");
  REQUIRE(M->ring() == W.ring(), "another ring than requested");
  const auto& basis = M->basis();
  for (size_t i = 0; i < basis.size(); i++)
    for (size_t j = i + 1; j < basis.size(); j++) REQUIRE(basis[i]->deglex(*basis[j]) && !basis[j]->deglex(*basis[i]), "generators are not sorted");
  // In whatever order the generators are given
  const auto N = W.module(s);
  REQUIRE(M == N && *M == *N && !(*M != *N), "the module is not unique");
  // From a copy of the basis
  auto copy = basis;
  std::reverse(copy.begin(), copy.end());
  REQUIRE(Module<Ring>::make(copy, W.ring()) == M, "the module is not unique");
  if (!std::is_same_v<Ring, NumberField>) REQUIRE(Module<Ring>::make(copy) == M, "the module is not unique");
  // Any other set of generators gives another module
  const auto t = W.gen_monos(5, 3);
  const auto L = W.module(t);
  REQUIRE((L == M) == (s == t) && (*L == *M) == (s == t) && (*L != *M) == (s != t), "modules are confused");
  if constexpr (std::is_same_v<Ring, NumberField>) {
    const auto Q = W.module(s, NumberField());
    REQUIRE(Q != M && !(*Q == *M), "modules over different fields are confused");
    REQUIRE(Q->ring() == NumberField(), "another ring than requested");
    const Field other = gen_relative(c, W.field);
    const auto K = other.make();
    const auto O = W.module(s, NumberField(K));
    REQUIRE((O == M) == (other == W.field) && (*O == *M) == (other == W.field) && (*O != *M) == !(other == W.field), "modules over the fields " << W.field << " and " << other << " are confused");
    REQUIRE(O->ring() == NumberField(K), "another ring than requested");
  }
  // An alias
  const auto A = W.module(s);
  REQUIRE(A == M, "the module is not unique after other modules were created");
  // Printing
  std::string want = name<Ring>() + "-Module(";
  for (size_t i = 0; i < basis.size(); i++) want += (i ? ", " : "") + boost::lexical_cast<std::string>(*basis[i]);
  REQUIRE(boost::lexical_cast<std::string>(*M) == want + ")", "prints as " << *M);
}

// Modules and numbers come and go, much more than the library keeps around
template <typename Ring>
void many(pbt::Case& c) {
  const pbt::Recycle recycle;
  const int n = c.chance(1, 3) ? c.range(1, 100) : c.range(1000, 4000);
  c.log() << n << " modules ";
  // Choices are made by a generator with a seed to keep the record of choices short
  std::mt19937 random(static_cast<unsigned>(c.draw(UINT32_MAX)));
  const unsigned nseeds = 3 + static_cast<unsigned>(c.draw(500)), keep = 2 + static_cast<unsigned>(c.draw(60));
  std::vector<boost::intrusive_ptr<const eantic::renf_class>> Ks;
  if constexpr (std::is_same_v<Ring, NumberField>)
    Ks = gen_fields(c, 3);
  using Key = std::pair<size_t, std::set<std::string>>;
  std::map<Key, std::weak_ptr<const Module<Ring>>> known;
  std::vector<std::pair<Key, std::shared_ptr<const Module<Ring>>>> live;
  size_t recreated = 0;
  for (int i = 0; i < n; i++) {
    // Generators by the name of what they are
    std::map<std::string, Real> gens;
    if (random() % 3 == 0) {
      const mpq_class x(1 + (random() % 40), 7);
      gens[x.get_str()] = RealNumber::rational(x);
    }
    const unsigned k = random() % 3;
    for (unsigned j = 0; j < k; j++) {
      const unsigned s = random() % nseeds, t = random() % nseeds;
      const Real x = RealNumber::random(Seed(s));
      if (random() % 2)
        gens["x" + std::to_string(s)] = x;
      else
        gens["x" + std::to_string(std::min(s, t)) + "*x" + std::to_string(std::max(s, t))] = *x * *RealNumber::random(Seed(t));
    }
    typename Module<Ring>::Basis basis;
    Key key{0, {}};
    for (auto& [name, x] : gens) {
      basis.insert(basis.begin() + (random() % (basis.size() + 1)), x);
      key.second.insert(name);
    }
    Ring ring;
    if constexpr (std::is_same_v<Ring, NumberField>) {
      key.first = random() % 4;
      if (key.first) ring = NumberField(Ks[key.first - 1]);
      for (size_t j = 0; j < key.first; j++)
        if (j && *Ks[j - 1] == *Ks[key.first - 1]) {
          key.first = j;
          break;
        }
    }
    const auto M = Module<Ring>::make(basis, ring);
    REQUIRE(M->basis().size() == gens.size() && M->ring() == ring, "module " << i << " has the wrong rank or ring");
    for (auto& g : M->basis()) REQUIRE(std::find(basis.begin(), basis.end(), g) != basis.end(), "module " << i << " has the wrong generators");
    const auto it = known.find(key);
    if (it != known.end()) {
      const auto old = it->second.lock();
      REQUIRE(!old || old == M, "there are two copies of module " << i);
      if (!old) recreated++;
    }
    known[key] = M;
    if (random() % keep == 0) live.push_back({key, M});
    if (live.size() && random() % keep == 0) {
      const size_t j = random() % live.size();
      live[j] = live.back();
      live.pop_back();
    }
    if (random() % 700 == 0) live.clear();
  }
  c.nontrivial(recreated);
  c.cls(recreated ? "modules were gone before they were created again" : "all modules were kept");
  std::map<const Module<Ring>*, const Key*> distinct;
  for (auto& [k, m] : live) {
    const auto it = distinct.emplace(&*m, &k).first;
    REQUIRE(*it->second == k, "one module for different generators");
  }
}

template <typename Ring>
void bad_generators(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80);
  auto s = W.gen_monos(4, 3);
  std::vector<Real> basis;
  for (auto& m : s) basis.push_back(W.real(m));
  bool bad = false;
  if (c.flip() && !basis.empty()) {
    basis.insert(basis.begin() + c.draw(basis.size()), Real(basis[c.draw(basis.size() - 1)]));
    bad = true;
    c.cls("repeated generator");
  }
  if (c.flip()) {
    const mpq_class r = gen_mpq(c, 60);
    if (r != 0) {
      for (auto& b : basis) bad = bad || static_cast<std::optional<mpq_class>>(*b).has_value();
      basis.insert(basis.begin() + c.draw(basis.size()), RealNumber::rational(r));
      c.log() << "rational " << r << " ";
      c.cls(bad ? "two rationals" : "one rational");
    }
  }
  for (auto& b : basis) c.log() << *b << " ";
  c.nontrivial(bad);
  for (int i = 0; i < 2; i++) {
    bool thrown = false;
    try {
      const auto M = Module<Ring>::make(basis, W.ring());
      REQUIRE(M->basis().size() == basis.size(), "rank is wrong");
    } catch (const std::logic_error&) {
      thrown = true;
    }
    REQUIRE(thrown == bad, (thrown ? "threw" : "did not throw"));
  }
  // The failure has no consequences
  const auto M = W.module(s);
  REQUIRE(W.generators(*M) == s, "other generators than requested");
}

template <typename Ring>
void span_and_submodule(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto s = W.gen_monos(4, 2);
  auto t = W.gen_monos(4, 2);
  if (c.chance(1, 4) && !s.empty()) {
    t = s;
    if (c.flip()) t.erase(t.begin());
  }
  auto u = s;
  u.insert(t.begin(), t.end());
  c.log() << "generators ";
  for (auto& m : s) c.log() << str(m) << " ";
  c.log() << "and ";
  for (auto& m : t) c.log() << str(m) << " ";
  // Over the number field, some modules are defined over the rationals
  const bool trivial_m = std::is_same_v<Ring, NumberField> && c.chance(1, 3), trivial_n = std::is_same_v<Ring, NumberField> && c.chance(1, 3);
  const auto M = W.module(s, trivial_m ? Ring() : W.ring()), N = W.module(t, trivial_n ? Ring() : W.ring());
  const bool subset = std::includes(t.begin(), t.end(), s.begin(), s.end()), superset = std::includes(s.begin(), s.end(), t.begin(), t.end());
  c.nontrivial(!subset && !superset);
  c.cls(subset ? superset ? "same generators" : "subset" : superset ? "superset" : "incomparable");
  REQUIRE(M->submodule(*N) == subset, "submodule is " << !subset);
  REQUIRE(N->submodule(*M) == superset, "submodule is " << !superset);
  REQUIRE(M->submodule(*M), "not a submodule of itself");
  const auto S = Module<Ring>::span(M, N), T = Module<Ring>::span(N, M);
  REQUIRE(W.generators(*S) == u, "span is " << *S);
  if (!s.empty() && !t.empty()) {
    REQUIRE(S == T, "span is not commutative");
    REQUIRE(S->ring() == (trivial_m && trivial_n ? Ring() : W.ring()), "span has the wrong ring");
  } else if (!s.empty() || !t.empty())
    REQUIRE(S == T && S == (s.empty() ? N : M), "span with the trivial module is wrong");
  REQUIRE(M->submodule(*S) && N->submodule(*S), "not a submodule of the span");
  REQUIRE(Module<Ring>::span(S, M) == S || s.empty() || S->ring() != M->ring(), "span is not idempotent");
}

template <typename Ring>
void generators(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80);
  const auto s = W.gen_monos(4, 2);
  std::vector<Real> basis;
  mpq_class q = 0;
  for (auto& m : s)
    if (!m.empty()) basis.push_back(W.real(m));
  if (c.chance(3, 4)) {
    q = c.flip() ? mpq_class(1) : gen_mpq(c, 40);
    if (c.chance(1, 3)) q = q == 0 ? mpq_class(1) : mpq_class(1) / q;
    if (c.chance(1, 4) && q != 0) q = mpq_class(sgn(q) * 1, q.get_den());
    if (q != 0) basis.push_back(RealNumber::rational(q));
  }
  const auto M = Module<Ring>::make(basis, W.ring());
  c.log() << *M;
  c.nontrivial(M->rank() >= 2 && q != 1);
  const auto zero = M->zero();
  REQUIRE(zero.module() == M && !zero && zero.coefficients().size() == M->basis().size() && zero == 0, "zero is wrong");
  for (long i = 0; i < M->rank(); i++) {
    const auto g = M->gen(i);
    REQUIRE(g.module() == M && g, "generator " << i << " is wrong");
    for (long j = 0; j < M->rank(); j++) REQUIRE(g[j] == (i == j ? 1 : 0), "coefficient " << j << " of generator " << i << " is wrong");
    REQUIRE(g == *M->basis()[i], "generator " << i << " is not the generator");
  }
  // There is a 1 if there is a rational generator which is the inverse of an integer or over a field
  const bool one = q != 0 && (!std::is_same_v<Ring, IntegerRing> || abs(q.get_num()) == 1);
  c.cls(one ? "has 1" : "has no 1");
  bool thrown = false;
  try {
    const auto e = M->one();
    REQUIRE(e.module() == M, "1 is in another module");
    REQUIRE(e == 1, "1 is " << e);
    for (long j = 0; j < M->rank(); j++)
      if (!static_cast<std::optional<mpq_class>>(*M->basis()[j])) REQUIRE(e[j] == 0, "1 is " << e);
  } catch (const std::logic_error&) {
    thrown = true;
  }
  REQUIRE(thrown == !one, "one() " << (thrown ? "threw" : "did not throw"));
}

// Elements, their modules, and the generators come and go, much more than the library keeps around.
// Each step gets two elements with integer coefficients.
template <typename Ring>
struct Passing {
  using E = Element<Ring>;
  using Elem = typename Ring::ElementClass;
  // Seeds of the random numbers in a product
  using Factors = std::vector<unsigned>;
  using Polynomial = std::map<Factors, long>;
  using Named = std::pair<E, Polynomial>;

  std::mt19937 random;
  unsigned nseeds;
  std::vector<Ring> rings;
  size_t ring = 0;

  Real real(const Factors& f) {
    Real r = RealNumber::rational(1);
    for (auto s : f) r = *r * *RealNumber::random(Seed(s));
    return r;
  }
  Factors factors() {
    Factors f(random() % 3);
    for (auto& s : f) s = random() % nseeds;
    std::sort(f.begin(), f.end());
    return f;
  }
  std::shared_ptr<const Module<Ring>> module(const Polynomial& p) {
    typename Module<Ring>::Basis basis;
    for (auto& [f, _] : p) basis.insert(basis.begin() + (random() % (basis.size() + 1)), real(f));
    return Module<Ring>::make(basis, rings[ring]);
  }
  Elem coefficient(long v) {
    if constexpr (std::is_same_v<Ring, NumberField>)
      return rings[ring] == Ring() ? Elem(v) : Elem(*rings[ring].parameters, v);
    else
      return Elem(v);
  }
  Named gen() {
    Polynomial p;
    for (unsigned i = 1 + random() % 3; i--;) p[factors()] = static_cast<long>(random() % 11) - 5;
    const auto M = module(p);
    std::vector<Elem> coefficients(p.size());
    for (auto& [f, v] : p) coefficients[std::find(M->basis().begin(), M->basis().end(), real(f)) - M->basis().begin()] = coefficient(v);
    return {E(M, coefficients), p};
  }
  static Polynomial add(Polynomial p, const Polynomial& q, long sign) {
    for (auto& [f, v] : q) p[f] += sign * v;
    return p;
  }
  static Polynomial mul(const Polynomial& p, const Polynomial& q) {
    Polynomial r;
    for (auto& [f, v] : p)
      for (auto& [g, w] : q) {
        Factors h;
        std::merge(f.begin(), f.end(), g.begin(), g.end(), std::back_inserter(h));
        r[h] += v * w;
      }
    return r;
  }
  // Check the value of e and, if exact, that its module has exactly the generators in p
  void check(const E& e, const Polynomial& p, bool exact, const char* what) {
    const auto& basis = e.module()->basis();
    REQUIRE(e.coefficients().size() == basis.size(), what << ": number of coefficients does not match the rank");
    size_t nonzero = 0, expected = 0;
    for (auto& x : e.coefficients())
      if (x != 0) nonzero++;
    for (auto& [f, v] : p) {
      const size_t i = std::find(basis.begin(), basis.end(), real(f)) - basis.begin();
      REQUIRE(i < basis.size() || (v == 0 && !exact), what << ": there is a generator missing in " << e);
      if (v == 0) continue;
      expected++;
      REQUIRE(e[i] == coefficient(v), what << ": wrong coefficient in " << e);
    }
    REQUIRE(nonzero == expected, what << ": wrong terms in " << e);
    REQUIRE(!exact || basis.size() == p.size(), what << ": additional generators in " << e);
  }

  template <typename F>
  static void run(pbt::Case& c, F&& step) {
    const pbt::Recycle recycle;
    const int n = c.chance(1, 3) ? c.range(1, 100) : c.range(600, 1800);
    c.log() << n << " steps ";
    Passing self;
    // Choices are made by a generator with a seed to keep the record of choices short
    self.random.seed(static_cast<unsigned>(c.draw(UINT32_MAX)));
    self.nseeds = 3 + static_cast<unsigned>(c.draw(300));
    const unsigned keep = 2 + static_cast<unsigned>(c.draw(60));
    c.log() << "in " << self.nseeds << " random numbers (" << self.random() << ") ";
    c.nontrivial(n >= 600);
    self.rings.push_back(Ring());
    if constexpr (std::is_same_v<Ring, NumberField>)
      for (auto& K : gen_fields(c, 2)) self.rings.push_back(Ring(K));
    std::vector<std::pair<size_t, Named>> live;
    for (int i = 0; i < n; i++) {
      self.ring = self.random() % self.rings.size();
      const Named a = self.gen();
      Named b = self.gen();
      // With something that has been around for a while
      const size_t j = self.random() % (live.size() + 1);
      if (j < live.size() && live[j].first == self.ring) b = live[j].second;
      step(self, a, b);
      if (self.random() % keep == 0) live.push_back({self.ring, a});
      if (live.size() && self.random() % keep == 0) {
        const size_t k = self.random() % live.size();
        live[k] = live.back();
        live.pop_back();
      }
      if (self.random() % 700 == 0) live.clear();
    }
  }
};

template <typename Ring>
void passing_arithmetic(pbt::Case& c) {
  using P = Passing<Ring>;
  P::run(c, [](P& self, const typename P::Named& a, const typename P::Named& b) {
    self.check(a.first + b.first, P::add(a.second, b.second, 1), true, "sum");
    self.check(a.first - b.first, P::add(a.second, b.second, -1), true, "difference");
    if (a.first && b.first) self.check(a.first * b.first, P::mul(a.second, b.second), true, "product");
  });
}

template <typename Ring>
void passing_promotions(pbt::Case& c) {
  using P = Passing<Ring>;
  P::run(c, [](P& self, const typename P::Named& a, const typename P::Named& b) {
    auto zero = b.second;
    for (auto& [_, v] : zero) v = 0;
    const auto joint = P::add(a.second, zero, 1);
    auto x = a.first;
    x.promote(self.module(joint));
    self.check(x, joint, true, "promoted");
    x.simplify();
    auto simple = a.second;
    for (auto it = simple.begin(); it != simple.end();) it = it->second == 0 ? simple.erase(it) : std::next(it);
    self.check(x, simple, true, "simplified");
    x.promote(a.first.module());
    self.check(x, a.second, true, "promoted back");
  });
}

template <typename Ring>
void passing_modules(pbt::Case& c) {
  using P = Passing<Ring>;
  P::run(c, [](P& self, const typename P::Named& a, const typename P::Named& b) {
    const auto M = a.first.module(), N = b.first.module();
    const auto joint = P::add(a.second, b.second, 1);
    const auto S = Module<Ring>::span(M, N);
    self.check(S->zero(), P::add(joint, joint, -1), true, "span");
    if (self.random() % 2) REQUIRE(S == self.module(joint) && S == Module<Ring>::span(N, M), "the span is not unique");
    const auto includes = [](const auto& x, const auto& y) {
      for (auto& [f, _] : y.second)
        if (!x.second.count(f)) return false;
      return true;
    };
    REQUIRE(M->submodule(*N) == includes(b, a) && N->submodule(*M) == includes(a, b), "inclusion of modules is wrong");
    for (long i = 0; i < M->rank(); i++) REQUIRE(M->gen(i) == *M->basis()[i], "generator " << i << " is wrong");
  });
}
}  // namespace

#define FOR_ALL_RINGS(f) with_ring(c, [&](auto ring) { f<decltype(ring)>(c); })

RELATION("M01", module_is_determined_by_generators, 6000, "at least three generators") { FOR_ALL_RINGS(modules_are_unique); }
RELATION("M01", many_modules, 600, "modules were gone before they were created again") { FOR_ALL_RINGS(many); }
RELATION("M01", spans_of_many_modules, 150, "several hundred modules") { FOR_ALL_RINGS(passing_modules); }
RELATION("M01", invalid_generators_are_rejected, 4000, "the generators are not independent") { FOR_ALL_RINGS(bad_generators); }
RELATION("M01", span_is_the_union, 6000, "modules that are not contained in each other") { FOR_ALL_RINGS(span_and_submodule); }
RELATION("M01", generators_zero_and_one, 4000, "at least two generators and a rational generator other than 1, if any") { FOR_ALL_RINGS(generators); }

// ---------------------------------------------------------------- E01
namespace {
template <typename Ring>
void arithmetic_history(pbt::Case& c) {
  Machine<Ring> machine(c);
  const int n = c.range(1, 12);
  for (int i = 0; i < n; i++) machine.step();
  size_t big = 0;
  for (auto& x : machine.m) big = std::max(big, x.size());
  c.nontrivial(big >= 2 && n >= 3);
}

template <typename Ring>
void ring_axioms(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 8);
  const auto a = W.gen_element(3, 2), b = W.gen_element(3, 2), d = W.gen_element(3, 2);
  c.nontrivial(a && b && d && a.module() != b.module());
  REQUIRE(a + b == b + a, "addition is not commutative");
  REQUIRE((a + b) + d == a + (b + d), "addition is not associative");
  REQUIRE(a * b == b * a, "multiplication is not commutative");
  REQUIRE((a * b) * d == a * (b * d), "multiplication is not associative");
  REQUIRE(a * (b + d) == a * b + a * d, "multiplication is not distributive");
  REQUIRE(a - b == -(b - a) && !(a - a), "subtraction is wrong");
  const Element<Ring> one(W.small(1)), zero;
  REQUIRE(a * one == a && one * a == a && a + zero == a && !(a * zero), "neutral elements are wrong");
}

// Linear combinations of elements with many terms
template <typename Ring>
void sums_of_many_terms(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 2, 300);
  const auto a = W.gen_element(5, 3), b = W.gen_element(5, 3);
  const auto x = W.value(a), y = W.value(b);
  c.nontrivial(x.size() + y.size() >= 10);
  const long s = c.around(30);
  REQUIRE(W.value(a + b) == add<Ring>(x, y), "+ is wrong");
  REQUIRE(W.value(a - b) == add<Ring>(x, neg<Ring>(y)), "- is wrong");
  REQUIRE(W.value(-a) == neg<Ring>(x), "negation is wrong");
  REQUIRE(W.value(a * s) == scale<Ring>(x, W.rational(s)), "multiplication by " << s << " is wrong");
  auto e = a;
  e += b;
  REQUIRE(W.value(e) == add<Ring>(x, y), "+= is wrong");
  e -= a;
  REQUIRE(W.value(e) == y && e == b, "-= is wrong");
  const auto g = W.real(W.gen_mono(3));
  e *= *g;
  REQUIRE(W.value(e) == mul<Ring>(y, {{W.known[&*g], W.rational(1)}}), "multiplication by a generator is wrong");
  REQUIRE(W.value(a) == x && W.value(b) == y, "operands changed");
}

// Elements over fields that are not contained in each other
void different_fields(pbt::Case& c) {
  using E = Element<NumberField>;
  World<NumberField> W(c, c.range(1, 3));
  W.mixed = false;
  const Field other = gen_relative(c, W.field);
  const auto L = other.make();
  const bool same = other == W.field;
  c.log() << "and " << other << " ";
  const auto gen_monos = [&] {
    auto s = W.gen_monos(3, 2);
    if (s.empty()) s.insert(Mono{});
    return s;
  };
  const auto x = W.gen_element(W.module(gen_monos()));
  // An element over the other field, and an enclosure of it
  const auto root = generator(other, W.precision);
  const auto over = c.flip() ? W.generators(*x.module()) : gen_monos();
  const auto M = W.module(over, NumberField(L));
  std::vector<renf_elem_class> coefficients;
  Model<NumberField> model;
  En sum{0, 0};
  for (auto& m : W.monos(*M)) {
    // Often with the same coefficients
    std::vector<mpq_class> v(other.degree);
    const auto i = coefficients.size();
    if (i < static_cast<size_t>(x.module()->rank()) && c.flip())
      v = ref::coefficients(x.coefficients()[i]);
    else
      v = gen_coefficients(c, other, 30);
    v.resize(std::min<size_t>(v.size(), other.degree));
    coefficients.push_back(element(*L, v));
    c.log() << coefficients.back() << " ";
    const auto e = evaluate(v, root);
    En t{e.first, e.second};
    for (auto& [i, n] : m)
      for (int j = 0; j < n; j++) t = t * W.P.enclose(i, W.precision);
    sum = sum + t;
  }
  const E y(M, coefficients);
  const auto known = W.enclose(W.value(x));
  c.nontrivial(!same && x && y);
  c.cls(same ? "same field" : "different fields");
  // There might be no representation for the outcome but nothing wrong is returned
  const auto enclosed = [&](const E& e, const En& want, const std::string& what) {
    const Ball b = ball(e.arb(256));
    REQUIRE(!b.nan() && cmp(want.hi, b.lo()) >= 0 && cmp(want.lo, b.hi()) <= 0, what << " is " << e);
  };
  const auto attempt = [&](const std::string& what, auto&& f) {
    bool thrown = false;
    try {
      f();
    } catch (const std::logic_error&) {
      thrown = true;
    }
    REQUIRE(!same || !thrown, what << " threw for elements over the same field");
    REQUIRE(y.module() == M && y.coefficients() == coefficients, what << " changed its operand");
  };
  const mpq_class minus = -1;
  attempt("sum", [&] { enclosed(x + y, known + sum, "sum"); });
  attempt("difference", [&] { enclosed(x - y, known + minus * sum, "difference"); });
  attempt("product", [&] { enclosed(x * y, known * sum, "product"); });
  const bool differ = known.hi < sum.lo || sum.hi < known.lo;
  attempt("equality", [&] { REQUIRE(!differ || !(x == y), "unequal elements are equal"); });
  attempt("inequality", [&] { REQUIRE(!differ || x != y, "unequal elements are equal"); });
  if (differ) attempt("comparison", [&] { REQUIRE((x < y) == (known.hi < sum.lo), "order is wrong"); });
  const auto inplace = [&](const std::string& what, auto&& f) {
    E z(x);
    bool thrown = false;
    try {
      f(z);
    } catch (const std::logic_error&) {
      thrown = true;
    }
    if (!thrown) return std::optional<E>(z);
    REQUIRE(!same, what << " threw for elements over the same field");
    return std::optional<E>();
  };
  const auto check = [&](const std::optional<E>& z, const En& want, const std::string& what) {
    if (z) enclosed(*z, want, what);
  };
  check(inplace("+=", [&](E& z) { z += y; }), known + sum, "+=");
  check(inplace("-=", [&](E& z) { z -= y; }), known + minus * sum, "-=");
  check(inplace("*=", [&](E& z) { z *= y; }), known * sum, "*=");
  const auto& k = coefficients[c.draw(coefficients.size() - 1)];
  const auto e = evaluate(ref::coefficients(k), root);
  check(inplace("scalar *=", [&](E& z) { z *= k; }), known * En{e.first, e.second}, "scalar *=");
  // From one field to the other
  check(inplace("promote", [&](E& z) { z.promote(W.module(W.generators(*x.module()), NumberField(L))); }), known, "promotion");
}
}  // namespace

RELATION("E01", elements_over_different_fields, 4000, "elements over different fields that are not zero") { different_fields(c); }
RELATION("E01", arithmetic_history, 5000, "at least three steps that lead to an element with two non-zero coefficients") { FOR_ALL_RINGS(arithmetic_history); }
RELATION("E01", elements_come_and_go, 150, "several hundred elements") { FOR_ALL_RINGS(passing_arithmetic); }
RELATION("E01", sums_of_many_terms, 100, "at least ten terms") { FOR_ALL_RINGS(sums_of_many_terms); }
RELATION("E01", ring_axioms, 3000, "elements of different modules that are not zero") { FOR_ALL_RINGS(ring_axioms); }

// ---------------------------------------------------------------- E02
namespace {
template <typename Ring>
void promote_and_simplify(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto e = W.gen_element(5, 3);
  const auto value = W.value(e);
  const auto M = e.module();
  std::set<Mono> used;
  for (auto& [m, _] : value) used.insert(m);
  // To any module that contains the generators that are needed
  auto t = used;
  if (c.flip())
    for (auto& m : W.gen_monos(4, 3)) t.insert(m);
  if (c.flip())
    for (auto& m : W.generators(*M)) t.insert(m);
  c.log() << "promote to ";
  for (auto& m : t) c.log() << str(m) << " ";
  const auto N = W.module(t);
  c.nontrivial(used.size() >= 2 && N != M);
  c.cls(used.size() < static_cast<size_t>(M->rank()) ? "with superfluous generators" : "without superfluous generators");
  auto p = e;
  REQUIRE(&p.promote(N) == &p, "does not return the element itself");
  REQUIRE(p.module() == N, "promoted element is in another module");
  REQUIRE(W.value(p) == value && p == e, "promoted element is " << p);
  auto s = p;
  REQUIRE(&s.simplify() == &s, "does not return the element itself");
  REQUIRE(W.generators(*s.module()) == used, "simplified element is in " << *s.module());
  REQUIRE(W.value(s) == value && s == e, "simplified element is " << s);
  if (N->rank()) REQUIRE(s.module()->ring() == N->ring(), "simplify changed the ring");
  auto q = s;
  q.simplify();
  REQUIRE(q.module() == s.module(), "simplify is not idempotent");
  // and back to where we came from
  q.promote(M);
  REQUIRE(q.module() == M && q.coefficients() == e.coefficients(), "not the original element");
  if constexpr (std::is_same_v<Ring, NumberField>) {
    // Elements defined over the rationals
    const auto L = W.module(used, NumberField());
    std::vector<renf_elem_class> coefficients;
    for (long i = 0; i < L->rank(); i++) coefficients.push_back(renf_elem_class(gen_mpq(c, 30)));
    Element<Ring> r(L, coefficients);
    const auto want = W.value(r);
    r.promote(N);
    REQUIRE(r.module() == N && W.value(r) == want, "promotion to a field extension is wrong");
  }
}

template <typename Ring>
void change_ring(pbt::Case& c) {
  if constexpr (!std::is_same_v<Ring, NumberField>) {
    World<Ring> W(c, c.range(1, 3), 80);
    const auto e = W.gen_element(4, 2);
    c.nontrivial(W.value(e).size() >= 2);
    auto check = [&](const auto& x) {
      REQUIRE(x.module()->basis() == e.module()->basis(), "generators changed");
      for (long i = 0; i < e.module()->rank(); i++) REQUIRE(x[i] == e[i], "coefficient " << i << " changed");
      REQUIRE(static_cast<double>(x) == static_cast<double>(e), "value changed");
    };
    if constexpr (std::is_same_v<Ring, IntegerRing>) check(Element<RationalField>(e));
    check(Element<NumberField>(e));
    REQUIRE(Element<NumberField>(e).module()->ring() == NumberField(), "not over the rationals");
  } else {
    // A single coefficient
    World<Ring> W(c, 1);
    const auto x = W.gen_coefficient(60);
    c.log() << x;
    c.nontrivial(!x.is_rational());
    const Element<NumberField> e(x);
    REQUIRE(W.generators(*e.module()) == std::set<Mono>{Mono{}} && e[0] == x && e.module()->ring() == W.ring(), "is " << e << " in " << *e.module());
  }
}
}  // namespace

namespace {
// An element does not go to a module that misses some of the generators it needs
template <typename Ring>
void missing_generators(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 4), 80);
  const auto e = W.gen_element(5, 3);
  const auto value = W.value(e);
  std::set<Mono> used, t;
  for (auto& [m, _] : value) used.insert(m);
  if (used.empty()) throw pbt::Discard();
  const size_t missing = c.draw(used.size() - 1);
  for (auto& m : W.gen_monos(4, 3)) t.insert(m);
  size_t i = 0;
  for (auto& m : used)
    if (i++ != missing && c.chance(4, 5)) t.insert(m);
  t.erase(*std::next(used.begin(), static_cast<long>(missing)));
  c.log() << "promote to ";
  for (auto& m : t) c.log() << str(m) << " ";
  const auto N = W.module(t);
  c.nontrivial(used.size() >= 2 && !t.empty());
  c.cls(t.empty() ? "trivial module" : N->basis().back()->deglex(*W.real(*std::next(used.begin(), static_cast<long>(missing)))) ? "missing a generator behind the module" : "missing a generator among those of the module");
  auto p = e;
  bool thrown = false;
  try {
    p.promote(N);
  } catch (const std::logic_error&) {
    thrown = true;
  }
  REQUIRE(thrown, "became " << p << " in a module that does not contain it");
}
}  // namespace

RELATION("E02", promotion_needs_the_generators, 3000, "at least two terms and a module that is not trivial") { FOR_ALL_RINGS(missing_generators); }
RELATION("E02", promotion_preserves_the_value, 6000, "at least two non-zero coefficients and another module") { FOR_ALL_RINGS(promote_and_simplify); }
RELATION("E02", promotions_of_many_elements, 150, "several hundred elements") { FOR_ALL_RINGS(passing_promotions); }
RELATION("E02", change_of_rings_preserves_the_value, 3000, "at least two non-zero coefficients, or an irrational one") { FOR_ALL_RINGS(change_ring); }

// ---------------------------------------------------------------- E03
namespace {
template <typename Ring>
bool integral(const Model<Ring>& m) {
  if constexpr (std::is_same_v<Ring, IntegerRing>)
    for (auto& [_, x] : m)
      if (x.get_den() != 1) return false;
  return true;
}

template <typename Ring>
void truediv(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3));
  Element<Ring> b = W.gen_element(3, 2), a = W.gen_element(3, 2);
  if (!b && c.chance(19, 20)) {
    c.log() << " replaced by a generator";
    b = Element<Ring>(W.module({W.gen_mono(2)}), {W.small(1 + c.around(1) * 2)});
  }
  switch (c.weighted({5, 2, 2, 2})) {
    case 0: a *= b; c.cls("multiple"); break;
    case 1: a = a * b + W.gen_element(1, 2); c.cls("with remainder"); break;
    case 2: {
      // All terms but the last can be divided
      a *= b;
      const auto e = W.gen_mono(1);
      W.real(e);
      a += Element<Ring>(W.module({e}), {W.small(c.around(3))});
      c.cls("with remainder");
      break;
    }
    default: c.cls("unrelated");
  }
  c.log() << " " << a << " / " << b;
  const auto x = W.value(a), y = W.value(b);
  if (y.empty()) {
    bool thrown = false;
    try {
      a.truediv(b);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    REQUIRE(thrown, "division by zero was not rejected");
    c.cls("by zero");
    return;
  }
  auto want = divide<Ring>(x, y);
  if (want && !integral<Ring>(*want)) want = std::nullopt;
  c.nontrivial(y.size() >= 2 && !x.empty());
  // Register the generators that can show up
  if (want)
    for (auto& [m, _] : *want) W.real(m);
  const auto got = a.truediv(b);
  REQUIRE(got.has_value() == want.has_value(), "quotient " << (got ? "found" : "not found") << " but " << (want ? str<Ring>(*want) : "there is none"));
  c.cls(want ? "divisible" : "not divisible");
  if (got) {
    for (auto& g : got->module()->basis()) (void)g;
    auto s = *got;
    s.simplify();
    REQUIRE(W.value(s) == *want, "quotient is " << *got << " instead of " << str<Ring>(*want));
    REQUIRE(*got * b == a, "quotient times divisor is not the dividend");
  }
  // The operands did not change
  REQUIRE(W.value(a) == x && W.value(b) == y, "operands changed");
}

template <typename Ring>
void floordiv(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 80, 12);
  Element<Ring> b = W.gen_element(3, 2), a = W.gen_element(3, 2);
  if (!b && c.chance(19, 20)) {
    c.log() << " replaced by a generator";
    b = Element<Ring>(W.module({W.gen_mono(2)}), {W.small(1 + c.around(1) * 2)});
  }
  switch (c.weighted({3, 3, 3, 2})) {
    case 0: break;
    case 1: {
      const mpz_class n = gen_mpz(c, 60);
      a = b * n;
      c.log() << " multiple " << n;
      c.cls("integer multiple");
      break;
    }
    case 2: {
      const mpz_class n = gen_mpz(c, 100);
      const auto e = W.gen_mono(2);
      a = b * n + Element<Ring>(W.module({e}), {W.small(c.around(1))});
      c.log() << " multiple " << n << " plus an element";
      c.cls("close to a multiple");
      break;
    }
    default: {
      // A rational multiple
      const long n = c.around(50), d = c.range(1, 20);
      a = b * n;
      b = b * d;
      c.log() << " multiple " << n << "/" << d;
      c.cls("rational multiple");
    }
  }
  const auto x = W.value(a), y = W.value(b);
  if (y.empty()) {
    bool thrown = false;
    try {
      a.floordiv(b);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    REQUIRE(thrown, "division by zero was not rejected");
    c.cls("by zero");
    return;
  }
  const mpz_class got = a.floordiv(b);
  c.nontrivial(!x.empty() && x.size() + y.size() >= 3);
  // got * y <= x < (got + 1) * y if y is positive
  const auto lower = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got)))), upper = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got) - 1)));
  const int s = W.sign(y), l = W.sign(lower), u = W.sign(upper);
  if (s == 2 || l == 2 || u == 2) throw pbt::Discard{};
  REQUIRE(s > 0 ? l >= 0 && u < 0 : l <= 0 && u > 0, "floor of the quotient is not " << got);
  REQUIRE(W.value(a) == x && W.value(b) == y, "operands changed");
}

// Division of elements with many terms by elements with few terms
template <typename Ring>
void many_terms(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3), 2);
  const auto x = W.gen_element(6, 3);
  W.many = 0;
  const auto y = W.gen_element(2, 2);
  if (!x || !y) throw pbt::Discard{};
  const auto X = W.value(x), Y = W.value(y);
  c.nontrivial(X.size() >= 5);
  const auto a = x * y;
  REQUIRE(W.value(a) == mul<Ring>(X, Y), "the product is wrong");
  const auto q = a.truediv(y);
  REQUIRE(q && W.value(*q) == X, "the quotient is not the other factor");
  if (X.size() <= 20) {
    const auto r = a.truediv(x);
    REQUIRE(r && W.value(*r) == Y, "the quotient is not the smaller factor");
  }
  // A term more
  const auto m = W.gen_mono(4);
  const Model<Ring> term{{m, W.rational(1)}};
  auto want = divide<Ring>(term, Y);
  if constexpr (std::is_same_v<Ring, IntegerRing>)
    if (want)
      for (auto& [n, k] : *want)
        if (k.get_den() != 1) {
          want = std::nullopt;
          break;
        }
  const auto b = a + Element<Ring>(W.module({m}), {W.small(1)});
  const auto r = b.truediv(y);
  REQUIRE(r.has_value() == want.has_value(), (want ? "does not divide" : "divides"));
  if (want) REQUIRE(W.value(*r) == add<Ring>(X, *want), "the quotient of a sum is wrong");
}

// The quotient is close to an integer to thousands of bits
template <typename Ring>
void floordiv_digits(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3));
  W.precision = c.pick(std::vector<long>{3001, 6007, 14009});
  Element<Ring> b = W.gen_element(2, 2), e = W.gen_element(2, 2);
  // A number between 0 and 1
  const long k = c.range(1, 200), far = W.precision - 1200 - c.range(0, W.precision / 3);
  e *= mpz_class(shl(1, k));
  const mpz_class part = floor(W.enclose(W.value(e)).lo);
  e -= Element<Ring>(W.module({Mono{}}), {W.small(1)}) * part;
  const mpz_class n = gen_mpz(c, 100);
  b *= mpz_class(shl(1, far));
  const auto a = c.flip() ? b * n + e : b * n - e;
  c.log() << " scaled by 2^" << k << " minus " << part << ", plus or minus " << n << " times the divisor scaled by 2^" << far;
  const auto x = W.value(a), y = W.value(b);
  if (y.empty()) throw pbt::Discard();
  const mpz_class got = a.floordiv(b);
  c.nontrivial(W.value(e).size() >= 2 || !W.as_rational(y));
  const auto lower = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got)))), upper = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got) - 1)));
  const int s = W.sign(y), l = W.sign(lower), u = W.sign(upper);
  if (s == 2 || l == 2 || u == 2) throw pbt::Discard{};
  c.cls(got == n ? "just above an integer" : got == n - 1 ? "just below an integer" : "other");
  REQUIRE(s > 0 ? l >= 0 && u < 0 : l <= 0 && u > 0, "floor of the quotient is off by " << got - n);
}

// Elements are divided in between operations
template <typename Ring>
void division_history(pbt::Case& c) {
  const bool exact = c.flip();
  observe<Ring>(c, [&](Machine<Ring>& machine, size_t i) {
    auto& W = machine.W;
    const auto& b = machine.v[i];
    const auto& y = machine.m[i];
    if (y.empty() || machine.bits(i) > 400) return;
    for (size_t j = 0; j < machine.v.size(); j++) {
      const auto& a = machine.v[j];
      const auto& x = machine.m[j];
      if (machine.bits(j) > 400) continue;
      if (exact) {
        auto want = divide<Ring>(x, y);
        if (want && !integral<Ring>(*want)) want = std::nullopt;
        if (want)
          for (auto& [m, _] : *want) W.real(m);
        auto got = a.truediv(b);
        REQUIRE(got.has_value() == want.has_value(), "quotient v" << j << " / v" << i << (got ? " found" : " not found"));
        c.cls(want ? "divisible" : "not divisible");
        if (got) {
          got->simplify();
          REQUIRE(W.value(*got) == *want, "quotient v" << j << " / v" << i << " is " << *got << " instead of " << str<Ring>(*want));
        }
      } else {
        const mpz_class got = a.floordiv(b);
        const auto lower = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got)))), upper = add<Ring>(x, scale<Ring>(y, W.rational(-mpq_class(got) - 1)));
        const int s = W.sign(y), l = W.sign(lower), u = W.sign(upper);
        if (s == 2 || l == 2 || u == 2) continue;
        REQUIRE(s > 0 ? l >= 0 && u < 0 : l <= 0 && u > 0, "floor of v" << j << " / v" << i << " is not " << got);
      }
    }
    machine.check("after division");
  });
}
// Quotients with fewer, or many more, terms than the dividend
template <typename Ring>
void telescope(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3));
  using E = Element<Ring>;
  const Mono u = W.gen_mono(2), v = W.gen_mono(2);
  const int k = c.range(1, std::min(6, 14 / std::max({1, degree(u), degree(v)}) - 1));
  auto coefficient = [&]() {
    auto x = c.chance(2, 3) ? W.small(c.around(3)) : W.gen_coefficient(10);
    if (x == 0) x = W.small(1);
    return x;
  };
  const auto a = coefficient(), b = coefficient();
  c.log() << "(" << a << "*" << str(u) << ", " << b << "*" << str(v) << ") to the power " << k + 1 << " ";
  Model<Ring> su{{u, W.lift(a)}}, sv{{v, W.lift(b)}}, one{{Mono{}, W.rational(1)}};
  auto power = [&](const Model<Ring>& x, int n) {
    Model<Ring> r = one;
    for (int i = 0; i < n; i++) r = mul<Ring>(r, x);
    return r;
  };
  // (u - v) * (u^k + u^(k-1)*v + … + v^k) = u^(k+1) - v^(k+1)
  Model<Ring> sum, difference = add<Ring>(su, neg<Ring>(sv)), powers = add<Ring>(power(su, k + 1), neg<Ring>(power(sv, k + 1)));
  for (int i = 0; i <= k; i++) sum = add<Ring>(sum, mul<Ring>(power(su, i), power(sv, k - i)));
  // Turn these into elements
  auto element = [&](const Model<Ring>& x) {
    std::set<Mono> s;
    for (auto& [m, _] : x) s.insert(m);
    if (c.chance(1, 4)) s.insert(W.gen_mono(2));
    const auto M = W.module(s);
    const auto gens = W.monos(*M);
    std::vector<typename Ring::ElementClass> coefficients;
    for (auto& m : gens) {
      auto it = x.find(m);
      if constexpr (std::is_same_v<Ring, IntegerRing>)
        coefficients.push_back(it == x.end() ? mpz_class(0) : it->second.get_num());
      else
        coefficients.push_back(it == x.end() ? W.small(0) : it->second);
    }
    return E(M, coefficients);
  };
  Model<Ring> x = powers, y = c.flip() ? difference : sum;
  if (c.chance(1, 4)) {
    const auto e = W.value(W.gen_element(2, 1));
    if (degree<Ring>(x) + degree<Ring>(e) <= 14) x = mul<Ring>(x, e);
    c.cls("with a cofactor");
  }
  if (c.chance(1, 4)) {
    x = add<Ring>(x, {{W.gen_mono(2), W.rational(c.around(2))}});
    c.cls("with remainder");
  }
  if (y.empty()) throw pbt::Discard{};
  const E dividend = element(x), divisor = element(y);
  c.log() << dividend << " / " << divisor;
  auto want = divide<Ring>(x, y);
  if (want && !integral<Ring>(*want)) want = std::nullopt;
  if (want)
    for (auto& [m, _] : *want) W.real(m);
  c.cls(want ? "divisible" : "not divisible");
  c.nontrivial(y.size() >= 3);
  auto got = dividend.truediv(divisor);
  REQUIRE(got.has_value() == want.has_value(), "quotient " << (got ? "found" : "not found") << " but " << (want ? str<Ring>(*want) : "there is none"));
  if (got) {
    got->simplify();
    REQUIRE(W.value(*got) == *want, "quotient is " << *got << " instead of " << str<Ring>(*want));
  }
}
}  // namespace

RELATION("E03", telescoping_division, 2000, "a divisor with at least three terms") { FOR_ALL_RINGS(telescope); }
RELATION("E03", division_in_a_history, 1000, "at least three operations with elements that are not all trivial") { FOR_ALL_RINGS(division_history); }
RELATION("E03", exact_division, 6000, "a divisor with at least two terms") { FOR_ALL_RINGS(truediv); }
RELATION("E03", division_of_many_terms, 1500, "an element with at least five terms") { FOR_ALL_RINGS(many_terms); }
RELATION("E03", floor_division_to_thousands_of_bits, 300, "a divisor that is not rational or a remainder of several terms") { FOR_ALL_RINGS(floordiv_digits); }
RELATION("E03", floor_division, 5000, "at least three terms") { FOR_ALL_RINGS(floordiv); }
