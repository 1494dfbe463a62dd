// Serialization (C01, C02) and the functions for bindings (P01).
#include "../exact-real/cereal.hpp"
#include "../exact-real/cppyy.hpp"

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <functional>
#include <random>

#include "elsewhere.hpp"
#include "machine.hpp"

using namespace ref;
using exactreal::Arb;
using exactreal::Arf;

#define FOR_ALL_RINGS(f) with_ring(c, [&](auto ring) { f<decltype(ring)>(c); })

namespace {
struct Format {
  int kind;
  // Whether archives are written, or read, in a program with another global locale
  bool writer = false, reader = false;
  template <typename... T>
  std::string save(const T&... values) const {
    const pbt::Locale locale(writer);
    std::stringstream s;
    switch (kind) {
      case 0: { cereal::JSONOutputArchive a(s); a(values...); } break;
      case 1: { cereal::PortableBinaryOutputArchive a(s); a(values...); } break;
      case 2: { cereal::XMLOutputArchive a(s); a(values...); } break;
      default: { cereal::BinaryOutputArchive a(s); a(values...); }
    }
    return s.str();
  }
  // Run f with an archive
  template <typename F>
  std::string output(F&& f) const {
    const pbt::Locale locale(writer);
    std::stringstream s;
    switch (kind) {
      case 0: { cereal::JSONOutputArchive a(s); f(a); } break;
      case 1: { cereal::PortableBinaryOutputArchive a(s); f(a); } break;
      case 2: { cereal::XMLOutputArchive a(s); f(a); } break;
      default: { cereal::BinaryOutputArchive a(s); f(a); }
    }
    return s.str();
  }
  template <typename F>
  void input(const std::string& text, F&& f) const {
    const pbt::Locale locale(reader);
    std::stringstream s(text);
    switch (kind) {
      case 0: { cereal::JSONInputArchive a(s); f(a); } break;
      case 1: { cereal::PortableBinaryInputArchive a(s); f(a); } break;
      case 2: { cereal::XMLInputArchive a(s); f(a); } break;
      default: { cereal::BinaryInputArchive a(s); f(a); }
    }
  }
  template <typename... T>
  void load(const std::string& text, T&... values) const {
    const pbt::Locale locale(reader);
    std::stringstream s(text);
    switch (kind) {
      case 0: { cereal::JSONInputArchive a(s); a(values...); } break;
      case 1: { cereal::PortableBinaryInputArchive a(s); a(values...); } break;
      case 2: { cereal::XMLInputArchive a(s); a(values...); } break;
      default: { cereal::BinaryInputArchive a(s); a(values...); }
    }
  }
};
Format gen_format(pbt::Case& c) {
  static const char* names[] = {"JSON", "portable binary", "XML", "binary"};
  Format f{static_cast<int>(c.weighted({3, 1, 1, 1}))};
  c.cls(names[f.kind]);
  c.log() << names[f.kind] << " ";
  // (XML archives of cereal do not work in other locales.)
  if (f.kind != 2 && c.chance(1, 5)) {
    f.writer = c.flip();
    f.reader = c.chance(2, 3) ? f.writer : !f.writer;
    if (f.writer) c.log() << "written in another locale ";
    if (f.reader) c.log() << "read in another locale ";
    c.cls("another locale");
  }
  return f;
}

Dy gen_any(pbt::Case& c) {
  if (c.chance(1, 8)) return Dy(static_cast<Dy::Kind>(c.range(1, 3)));
  Dy d = gen_dy(c, 400, 500);
  if (c.chance(1, 6)) d = Dy(d.m, d.e + shl(c.around(1), c.range(60, 100)));
  return d;
}
}  // namespace

// ---------------------------------------------------------------- C01
RELATION("C01", floating_point_numbers, 6000, "a number that is not a double") {
  const Format f = gen_format(c);
  std::vector<Dy> values;
  std::vector<Arf> arfs;
  const int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    values.push_back(gen_any(c));
    c.log() << values.back() << " ";
    arfs.push_back(arf(values.back()));
    c.nontrivial(values.back().finite() && values.back() != dy(to_double(values.back())));
    c.cls(values.back().finite() ? "finite" : "not finite");
  }
  const std::string s = f.save(arfs);
  std::vector<Arf> loaded{arf(Dy(3, 5))};
  f.load(s, loaded);
  REQUIRE(loaded.size() == arfs.size(), "lost some numbers");
  for (int i = 0; i < n; i++) REQUIRE(dy(loaded[i]) == values[i], "loaded " << dy(loaded[i]) << " instead of " << values[i] << " from " << s);
}

RELATION("C01", balls, 6000, "a midpoint that is not a double and a positive radius") {
  const Format f = gen_format(c);
  std::vector<Ball> values;
  std::vector<Arb> arbs;
  const int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    Ball b;
    b.mid = gen_any(c);
    // Radii with exponents that fit into a long
    Dy m = b.mid;
    if (m.finite()) m.e %= 5000;
    b.rad = c.chance(1, 10) ? Dy(Dy::PINF) : gen_rad(c, m);
    if (b.rad.finite() && b.rad.bits() > 30) b.rad = Dy(1, 0);
    c.log() << b << " ";
    c.nontrivial(b.mid.finite() && b.mid != dy(to_double(b.mid)) && !b.rad.zero());
    values.push_back(b);
    arbs.push_back(arb(b));
  }
  const std::string s = f.save(arbs);
  std::vector<Arb> loaded{Arb(1)};
  f.load(s, loaded);
  REQUIRE(loaded.size() == arbs.size(), "lost some balls");
  for (int i = 0; i < n; i++) REQUIRE(ball(loaded[i]) == values[i] || (ball(loaded[i]).nan() && values[i].nan() && ball(loaded[i]).rad == values[i].rad), "loaded " << ball(loaded[i]) << " instead of " << values[i] << " from " << s);
}

RELATION("C01", malformed_numbers_are_rejected, 4000, "the text is not a number") {
  // The text of a number with some characters changed
  const Dy d = gen_dy(c);
  const Ball b{d, gen_rad(c, d)};
  const bool is_ball = c.flip();
  Format f{0};
  std::string s = is_ball ? f.save(arb(b)) : f.save(arf(d));
  const size_t at = s.find("\"data\": \"") + 9, end = s.find('"', at);
  // Characters that are not part of any number
  static const std::string alphabet = "xzg.~/";
  std::string data = s.substr(at, end - at);
  const int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    const size_t k = c.draw(data.size() - 1);
    const char ch = alphabet[c.draw(alphabet.size() - 1)];
    if (c.flip())
      data.insert(k, 1, ch);
    else if (data[k] != ' ')
      data[k] = ch;
    else
      data += ch;
  }
  s = s.substr(0, at) + data + s.substr(end);
  c.log() << data;
  c.nontrivial();
  bool rejected = false;
  try {
    if (is_ball) {
      Arb x;
      f.load(s, x);
    } else {
      Arf x;
      f.load(s, x);
    }
  } catch (const std::logic_error&) {
    rejected = true;
  }
  REQUIRE(rejected, "malformed number accepted");
}

namespace {
// The first digits, to see that a number is the same
Dy digits(const Real& r) { return dy(r->arf(301)); }
}  // namespace

RELATION("C01", real_numbers, 3000, "a product of constrained numbers, or an archive that contains a number more than once") {
  const pbt::Recycle recycle(c.flip());
  const Format f = gen_format(c);
  std::optional<Pool> P(std::in_place, c, c.range(1, 4));
  std::vector<Num> nums;
  const int n = c.range(1, 5);
  for (int i = 0; i < n; i++) {
    if (i && c.chance(1, 3)) {
      nums.push_back(nums[c.draw(nums.size() - 1)]);
      c.nontrivial();
      c.log() << "again ";
    } else
      nums.push_back(P->gen(4));
    c.cls(kind(nums.back()));
    if (!nums.back().rational && degree(nums.back().factors) > 1) c.nontrivial();
  }
  std::vector<Real> reals;
  for (auto& x : nums) reals.push_back(x.p);
  const bool null = c.chance(1, 20);
  if (null) reals.push_back(nullptr);
  const std::string s = f.save(reals);
  std::vector<Real> loaded;
  f.load(s, loaded);
  REQUIRE(loaded == reals, "loaded other numbers from " << s);
  // A second time, from the loaded numbers
  std::vector<Real> again;
  f.load(f.save(loaded), again);
  REQUIRE(again == reals, "loaded other numbers the second time");
  // After all references have been dropped, in a different order of creation
  std::vector<Dy> want;
  for (auto& x : nums) want.push_back(digits(x.p));
  std::vector<std::map<size_t, int>> factors;
  std::vector<std::optional<mpq_class>> rationals;
  for (auto& x : nums) {
    factors.push_back(x.factors);
    rationals.push_back(x.rational);
  }
  const auto bases = P->bases;
  P.reset();
  nums.clear();
  reals.clear();
  loaded.clear();
  again.clear();
  f.load(s, loaded);
  REQUIRE(loaded.size() == want.size() + null, "lost some numbers");
  for (int i = 0; i < n; i++) {
    REQUIRE(digits(loaded[i]) == want[i], "number " << i << " has other digits");
    Real r = rationals[i] ? RealNumber::rational(*rationals[i]) : RealNumber::rational(1);
    for (auto& [j, e] : factors[i])
      for (int k = 0; k < e; k++) r = *r * *bases[j].make();
    REQUIRE(r == loaded[i], "number " << i << " is not unique anymore");
  }
}

RELATION("C01", streams_of_numbers, 1500, "at least three numbers that are gone when the archive is closed") {
  // Numbers are created, written to one archive, and dropped. So they might reuse the memory of each other.
  const pbt::Recycle recycle;
  const Format f = gen_format(c);
  std::vector<std::function<Real()>> recipes;
  std::vector<Real> alive;
  const int n = c.range(1, 30);
  int temporary = 0;
  const std::string s = f.output([&](auto& archive) {
    for (int i = 0; i < n; i++) {
      std::function<Real()> make;
      switch (c.weighted({4, 4, 3, 2})) {
        case 0: {
          const mpq_class x = gen_mpq(c, 80);
          c.log() << x << "; ";
          make = [=] { return RealNumber::rational(x); };
          break;
        }
        case 1: {
          const Base b = gen_base(c);
          c.log() << b << "; ";
          make = [=] { return b.make(); };
          break;
        }
        case 2: {
          std::vector<Base> bases;
          const int k = c.range(2, 4);
          for (int j = 0; j < k; j++) {
            bases.push_back(gen_base(c));
            c.log() << bases.back() << " * ";
          }
          c.log() << "1; ";
          make = [=] {
            Real r = RealNumber::rational(1);
            for (auto& b : bases) r = *r * *b.make();
            return r;
          };
          break;
        }
        default:
          if (recipes.empty()) {
            make = [] { return RealNumber::rational(1); };
            break;
          }
          const size_t j = c.draw(recipes.size() - 1);
          c.log() << "number " << j << "; ";
          make = recipes[j];
      }
      recipes.push_back(make);
      const Real x = make();
      archive(x);
      if (c.chance(1, 4))
        alive.push_back(x);
      else
        temporary++;
      if (c.chance(1, 10)) alive.clear();
    }
  });
  c.nontrivial(temporary >= 3);
  if (c.flip()) alive.clear();
  // Load (some of) them, dropping them or not
  std::vector<Real> loaded;
  f.input(s, [&](auto& archive) {
    for (int i = 0; i < n; i++) {
      Real x;
      archive(x);
      REQUIRE(x == recipes[i](), "number " << i << " was loaded as " << *x << " instead of " << *recipes[i]());
      if (c.flip()) loaded.push_back(x);
    }
  });
}

RELATION("C01", constrained_numbers, 3000, "end points with exponents beyond 32 bits, or more than 64 bits") {
  // Numbers in intervals of all sizes
  const Format f = gen_format(c);
  Base b;
  b.kind = Base::INTERVAL;
  b.seed = c.flip() ? static_cast<unsigned>(c.draw(UINT32_MAX)) : static_cast<unsigned>(c.draw(12));
  const long e = c.around((1l << c.range(3, 61)) - 1);
  switch (c.draw(2)) {
    case 0: b.a = gen_dy(c, 200, 10); break;
    case 1: b.a = Dy(c.around(100), 0); break;
    default: b.a = -Dy(1 + c.draw(3), c.range(0, 10));
  }
  b.b = add(b.a, Dy(1 + c.draw(5), b.a.zero() ? mpz_class(c.around(10)) : mpz_class(b.a.lead() - c.range(0, 100))));
  // Zero has no exponent (and the size of the mantissa is the difference of the exponents)
  if (b.a.zero() || b.b.zero()) throw pbt::Discard{};
  b.a.e += e;
  b.b.e += e;
  c.log() << b;
  c.nontrivial(std::labs(e) > (1l << 31) || b.a.bits() > 64 || b.b.bits() > 64);
  c.cls(std::labs(e) > (1l << 31) ? "exponents beyond 32 bits" : "small exponents");
  Real x = b.make();
  const std::string s = f.save(x);
  const std::vector<Dy> want{dy(x->arf(0)), dy(x->arf(53)), dy(x->arf(501))};
  auto same = [&](const Real& y, const char* when) {
    const std::vector<Dy> got{dy(y->arf(0)), dy(y->arf(53)), dy(y->arf(501))};
    REQUIRE(got == want, "number has other digits " << when << " in " << s);
  };
  Real y;
  f.load(s, y);
  REQUIRE(y == x, "loaded another number from " << s);
  x.reset();
  same(y, "when all other references have been dropped");
  y.reset();
  f.load(s, y);
  same(y, "when it is created from the archive");
  REQUIRE(b.make() == y, "the number is not unique anymore");
  y.reset();
  if (!c.chance(1, 4)) return;
  // Load it in another process
  const std::string t = elsewhere([&]() {
    Real z;
    f.load(s, z);
    return f.save(std::vector<Arf>{z->arf(0), z->arf(53), z->arf(501)});
  });
  std::vector<Arf> digits;
  f.load(t, digits);
  for (size_t i = 0; i < want.size(); i++) REQUIRE(digits.size() == want.size() && dy(digits[i]) == want[i], "number has other digits in another process");
}

RELATION("C01", real_numbers_between_processes, 500, "a product of at least three factors") {
  const Format f = gen_format(c);
  // Seeds that are not used otherwise
  std::vector<Base> bases;
  const int n = c.range(1, 4);
  for (int i = 0; i < n; i++) {
    Base b = gen_base(c);
    b.seed = 1000000 + 16 * static_cast<unsigned>(c.draw(1 << 20)) + static_cast<unsigned>(i);
    bases.push_back(b);
    c.log() << b << " ";
  }
  std::vector<std::vector<size_t>> products;
  const int k = c.range(1, 4);
  for (int i = 0; i < k; i++) {
    std::vector<size_t> p;
    const int m = c.range(1, 5);
    for (int j = 0; j < m; j++) p.push_back(c.draw(n - 1));
    products.push_back(p);
    c.log() << "(";
    for (auto j : p) c.log() << "x" << j << " ";
    c.log() << ") ";
    c.nontrivial(m >= 3);
  }
  const bool backwards = c.flip();
  auto create = [&](bool reversed) {
    std::vector<Real> reals(n);
    for (int i = 0; i < n; i++) {
      const int j = reversed ? n - 1 - i : i;
      reals[j] = bases[j].make();
    }
    std::vector<Real> ret;
    for (auto& p : products) {
      Real r = reals[p[0]];
      for (size_t j = 1; j < p.size(); j++) r = *r * *reals[p[j]];
      ret.push_back(r);
    }
    return ret;
  };
  const std::string s = elsewhere([&]() { return f.save(create(false)); });
  std::vector<Real> loaded, reals;
  if (c.flip()) {
    c.cls("numbers exist already");
    reals = create(backwards);
  }
  f.load(s, loaded);
  if (reals.empty()) reals = create(backwards);
  REQUIRE(loaded == reals, "loaded other numbers");
}

// ---------------------------------------------------------------- C02
namespace {
template <typename Ring>
void modules_and_elements(pbt::Case& c) {
  const Format f = gen_format(c);
  World<Ring> W(c, c.range(1, 4), 80);
  using M = std::shared_ptr<const Module<Ring>>;
  using E = Element<Ring>;
  std::vector<E> elements;
  std::vector<M> modules;
  const int n = c.range(1, 4);
  auto m = W.gen_module(4, 3);
  for (int i = 0; i < n; i++) {
    if (c.flip()) m = W.gen_module(4, 3);
    if (c.flip()) modules.push_back(m);
    elements.push_back(W.gen_element(m));
  }
  c.nontrivial(n >= 2 && m->rank() >= 2);
  std::string s;
  std::vector<E> loaded;
  std::vector<M> loaded_modules;
  const bool modules_first = c.flip();
  if (modules_first) {
    s = f.save(modules, elements);
    f.load(s, loaded_modules, loaded);
  } else {
    s = f.save(elements, modules);
    f.load(s, loaded, loaded_modules);
  }
  REQUIRE(loaded_modules == modules, "loaded other modules");
  REQUIRE(loaded.size() == elements.size(), "lost some elements");
  for (int i = 0; i < n; i++) {
    REQUIRE(loaded[i].module() == elements[i].module(), "element " << i << " was loaded in another module");
    REQUIRE(loaded[i].coefficients() == elements[i].coefficients() && loaded[i] == elements[i], "element " << i << " was loaded as " << loaded[i]);
    REQUIRE(loaded[i].module()->ring() == elements[i].module()->ring(), "element " << i << " was loaded over another ring");
  }
  // Single objects
  E e;
  f.load(f.save(elements[0]), e);
  REQUIRE(e.module() == elements[0].module() && e.coefficients() == elements[0].coefficients(), "an element was loaded as " << e);
  M x;
  f.load(f.save(m), x);
  REQUIRE(x == m, "a module was loaded as " << *x);
}

template <typename Ring>
void streams(pbt::Case& c) {
  // Elements of modules that come and go are written to one archive. The library keeps quite some modules around.
  const pbt::Recycle recycle;
  const Format f = gen_format(c);
  using E = Element<Ring>;
  using M = std::shared_ptr<const Module<Ring>>;
  std::vector<boost::intrusive_ptr<const eantic::renf_class>> Ks;
  if constexpr (std::is_same_v<Ring, NumberField>)
    Ks = gen_fields(c, 2);
  const int n = c.chance(1, 2) ? c.range(1, 40) : c.range(1100, 1800);
  c.cls(n > 1024 ? "more than 1024 modules" : "few modules");
  c.log() << n << " elements ";
  // Choices are made by a generator with a seed to keep the record of choices short
  const unsigned seed = static_cast<unsigned>(c.draw(UINT32_MAX));
  const unsigned keep = 1 + static_cast<unsigned>(c.draw(20)), kind = static_cast<unsigned>(c.draw(2));
  const bool bare = c.chance(1, 4);
  const auto create = [&](auto f) {
    std::mt19937 random(seed);
    for (int i = 0; i < n; i++) {
      typename Module<Ring>::Basis gens;
      if (kind != 1) gens.push_back(RealNumber::rational(mpq_class(1 + (random() % 5000), 1009)));
      if (kind != 0) gens.push_back(RealNumber::random(Seed(static_cast<unsigned>(random() % 2000))));
      if (kind == 2 && random() % 2) gens.push_back(*gens.back() * *gens.back());
      Ring ring;
      if constexpr (std::is_same_v<Ring, NumberField>) ring = NumberField(Ks[random() % 2]);
      const M m = Module<Ring>::make(gens, ring);
      std::vector<typename Ring::ElementClass> coefficients;
      for (size_t j = 0; j < gens.size(); j++) coefficients.push_back(ring.coerce(typename Ring::ElementClass(static_cast<int>(random() % 100) - 50)));
      const unsigned r = random() % keep;
      f(i, m, coefficients, r == 0);
    }
  };
  std::vector<M> alive;
  const std::string s = f.output([&](auto& archive) {
    create([&](int, const M& m, const auto& coefficients, bool k) {
      if (bare)
        archive(m);
      else
        archive(E(m, coefficients));
      if (k) alive.push_back(m);
    });
  });
  c.nontrivial(n > 1024);
  if (c.flip()) alive.clear();
  f.input(s, [&](auto& archive) {
    create([&](int i, const M& m, const auto& coefficients, bool) {
      M module;
      if (bare)
        archive(module);
      else {
        E e;
        archive(e);
        module = e.module();
        REQUIRE(e.coefficients() == coefficients, "element " << i << " was loaded as " << e);
      }
      REQUIRE(module == m, "module " << i << " was loaded as " << *module << " instead of " << *m);
    });
  });
}

template <typename Ring>
void between_processes(pbt::Case& c) {
  const Format f = gen_format(c);
  std::vector<Base> bases;
  const int n = c.range(1, 4);
  for (int i = 0; i < n; i++) {
    Base b = gen_base(c, true);
    b.seed = 1000000 + 16 * static_cast<unsigned>(c.draw(1 << 20)) + static_cast<unsigned>(i);
    bases.push_back(b);
    c.log() << b << " ";
  }
  Field field;
  if constexpr (std::is_same_v<Ring, NumberField>) field = gen_field(c);
  // The generators and the coefficients at them, for each element
  std::vector<std::map<Mono, std::vector<mpq_class>>> elements(c.range(1, 4));
  for (auto& terms : elements) {
    c.log() << "; ";
    // Often in the module of another element
    const bool same = &terms != &elements[0] && c.flip();
    std::vector<Mono> monos;
    if (same)
      for (auto& t : elements[0]) monos.push_back(t.first);
    const int k = same ? monos.size() : c.range(0, 4);
    for (int i = 0; i < k; i++) {
      Mono m;
      if (same)
        m = monos[i];
      else {
        const int d = c.range(0, 3);
        for (int j = 0; j < d; j++) m[c.draw(n - 1)]++;
      }
      std::vector<mpq_class> x;
      if constexpr (std::is_same_v<Ring, NumberField>)
        x = gen_coefficients(c, field, 100);
      else if constexpr (std::is_same_v<Ring, RationalField>)
        x = {gen_mpq(c, 100)};
      else
        x = {gen_mpz(c, 100)};
      terms[m] = x;
      c.log() << str(m) << ":";
      for (auto& q : x) c.log() << q << " ";
    }
    if (same && k >= 2) c.cls("elements in the same module");
    c.nontrivial(terms.size() >= 2);
  }
  auto create = [&](bool reversed) {
    Ring ring;
    boost::intrusive_ptr<const eantic::renf_class> K;
    if constexpr (std::is_same_v<Ring, NumberField>) {
      K = field.make();
      ring = NumberField(K);
    }
    std::vector<Real> reals(n);
    for (int i = 0; i < n; i++) {
      const int j = reversed ? n - 1 - i : i;
      reals[j] = bases[j].make();
    }
    std::vector<Element<Ring>> ret;
    for (auto& terms : elements) {
      Element<Ring> sum = Module<Ring>::make({}, ring)->zero();
      for (auto& [m, x] : terms) {
        Real r = RealNumber::rational(1);
        for (auto& [i, e] : m)
          for (int j = 0; j < e; j++) r = *r * *reals[i];
        const auto M = Module<Ring>::make({r}, ring);
        if constexpr (std::is_same_v<Ring, NumberField>)
          sum += Element<Ring>(M, {element(*K, x)});
        else
          sum += Element<Ring>(M, {typename Ring::ElementClass(x[0])});
      }
      ret.push_back(sum);
    }
    return ret;
  };
  using M = std::shared_ptr<const Module<Ring>>;
  const auto modules_of = [](const auto& elements) {
    std::vector<M> ret;
    for (auto& e : elements) ret.push_back(e.module());
    return ret;
  };
  // 0: only elements, 1: the modules first, 2: the modules last
  const int with_modules = c.range(0, 2);
  const std::string s = elsewhere([&]() {
    const auto x = create(false);
    switch (with_modules) {
      case 0: return f.save(x);
      case 1: return f.save(modules_of(x), x);
      default: return f.save(x, modules_of(x));
    }
  });
  const bool reversed = c.flip();
  c.cls(reversed ? "generators in another order" : "generators in the same order");
  std::vector<Element<Ring>> loaded, want;
  std::vector<M> modules;
  if (c.flip()) want = create(reversed);
  switch (with_modules) {
    case 0: f.load(s, loaded); break;
    case 1: f.load(s, modules, loaded); break;
    default: f.load(s, loaded, modules);
  }
  if (want.empty()) want = create(reversed);
  REQUIRE(loaded.size() == want.size(), "lost some elements");
  if (with_modules) REQUIRE(modules.size() == want.size(), "lost some modules");
  for (size_t i = 0; i < want.size(); i++) {
    const auto &e = loaded[i], &w = want[i];
    REQUIRE(e == w && w == e, "loaded " << e << " instead of " << w);
    REQUIRE(e.module()->rank() == w.module()->rank() && (!e.module()->rank() || e.module()->ring() == w.module()->ring()), "loaded in " << *e.module() << " instead of " << *w.module());
    if (with_modules) REQUIRE(modules[i]->submodule(*w.module()) && modules[i]->rank() == w.module()->rank(), "module " << i << " was loaded as " << *modules[i]);
  }
}
}  // namespace

namespace {
// Elements are written to archives in between operations
template <typename Ring>
void saving_history(pbt::Case& c) {
  const Format f = gen_format(c);
  const bool together = c.flip();
  // What has been written before, and what it was then
  std::vector<std::pair<std::string, Model<Ring>>> texts;
  observe<Ring>(c, [&](Machine<Ring>& machine, size_t i) {
    if (together) {
      std::vector<Element<Ring>> loaded;
      f.load(f.save(machine.v), loaded);
      REQUIRE(loaded.size() == machine.v.size(), "lost some elements");
      for (size_t k = 0; k < loaded.size(); k++) {
        REQUIRE(machine.W.value(loaded[k]) == machine.m[k], "v" << k << " was loaded as " << loaded[k]);
        REQUIRE(loaded[k].module() == machine.v[k].module(), "v" << k << " was loaded in the module " << *loaded[k].module());
      }
    } else {
      const std::string s = f.save(machine.v[i]);
      texts.emplace_back(s, machine.m[i]);
      Element<Ring> e;
      f.load(s, e);
      REQUIRE(machine.W.value(e) == machine.m[i] && e == machine.v[i], "v" << i << " was loaded as " << e << " from " << s);
      REQUIRE(e.module() == machine.v[i].module(), "v" << i << " was loaded in the module " << *e.module());
      // Load an old text over an element that is in use
      const auto& [old, m] = texts[c.draw(texts.size() - 1)];
      const size_t k = c.draw(machine.v.size() - 1);
      c.log() << "load into v" << k << "; ";
      f.load(old, machine.v[k]);
      machine.m[k] = m;
    }
    machine.check("after loading");
  });
}
}  // namespace

RELATION("C02", elements_saved_in_a_history, 2000, "at least three operations with elements that are not all trivial") { FOR_ALL_RINGS(saving_history); }
RELATION("C02", modules_and_elements, 2500, "several elements and a module with at least two generators") { FOR_ALL_RINGS(modules_and_elements); }
RELATION("C02", streams_of_elements, 400, "more than 1024 modules") { FOR_ALL_RINGS(streams); }
RELATION("C02", elements_between_processes, 700, "an element with at least two generators") { FOR_ALL_RINGS(between_processes); }

// ---------------------------------------------------------------- P01
namespace bindings = exactreal::cppyy;

namespace {
template <typename Ring>
void elements_in_bindings(pbt::Case& c) {
  World<Ring> W(c, c.range(1, 3));
  auto a = W.gen_element(3, 2);
  const auto b = W.gen_element(3, 2);
  if (c.flip() && b) a *= b;
  const auto x = W.value(a), y = W.value(b);
  c.nontrivial(x.size() >= 2 && y.size() >= 1);
  REQUIRE(W.value(bindings::add(a, b)) == add<Ring>(x, y), "add is wrong");
  REQUIRE(W.value(bindings::sub(a, b)) == add<Ring>(x, neg<Ring>(y)), "sub is wrong");
  REQUIRE(W.value(bindings::mul(a, b)) == mul<Ring>(x, y), "mul is wrong");
  REQUIRE(W.value(bindings::neg(a)) == neg<Ring>(x), "neg is wrong");
  if (b) {
    const std::optional<Element<Ring>> q = bindings::truediv(a, b);
    if (q) REQUIRE(*q * b == a, "truediv is wrong");
    auto want = divide<Ring>(x, y);
    if (want)
      for (auto& [m, k] : *want)
        if constexpr (std::is_same_v<Ring, IntegerRing>)
          if (k.get_den() != 1) {
            want = std::nullopt;
            break;
          }
    REQUIRE(q.has_value() == want.has_value(), "truediv is wrong");
  }
  const auto r = W.as_rational(x);
  const auto q = bindings::optional_rational(a);
  REQUIRE(q == r, "optional_rational is wrong");
  const auto z = bindings::optional_integer(a);
  REQUIRE(z.has_value() == (r && r->get_den() == 1) && (!z || *z == *r), "optional_integer is wrong");
  // Scalars
  const long s = c.around(100);
  REQUIRE(W.value(bindings::mul(a, s)) == scale<Ring>(x, W.rational(s)) && W.value(bindings::mul(s, a)) == scale<Ring>(x, W.rational(s)), "mul with a scalar is wrong");
  // Serialization
  const pbt::Locale locale(c.chance(1, 4));
  const std::string text = bindings::serialize<Element<Ring>, cereal::JSONOutputArchive>(a);
  const auto e = bindings::deserialize<Element<Ring>, cereal::JSONInputArchive>(text);
  REQUIRE(e.module() == a.module() && e.coefficients() == a.coefficients(), "deserialized " << e << " from " << text);
}
}  // namespace

RELATION("P01", elements_in_bindings, 2500, "elements with at least two terms") { FOR_ALL_RINGS(elements_in_bindings); }

RELATION("P01", evaluation_in_bindings, 8000, "results that need to be rounded") {
  const Dy a = gen_dy(c, 200, 100), b = gen_dy(c, 200, 100), d = gen_dy(c, 200, 100);
  const long prec = gen_prec(c);
  const Round round = gen_round(c);
  c.log() << a << " " << b << " " << d << " prec " << prec << " " << name(round);
  const Arf x = arf(a), y = arf(b), z = arf(d);
  // Each operation is rounded once.
  const Dy sum = op('+', a, b, prec, round), product = op('*', a, b, prec, round);
  c.nontrivial(product != mul(a, b));
  REQUIRE(dy(bindings::eval(bindings::add(x, y), prec, round)) == sum, "evaluated sum is wrong");
  REQUIRE(dy(bindings::eval(bindings::sub(x, y), prec, round)) == op('-', a, b, prec, round), "evaluated difference is wrong");
  REQUIRE(dy(bindings::eval(bindings::mul(x, y), prec, round)) == product, "evaluated product is wrong");
  if (!b.zero()) REQUIRE(dy(bindings::eval(bindings::truediv(x, y), prec, round)) == op('/', a, b, prec, round), "evaluated quotient is wrong");
  REQUIRE(dy(bindings::eval(bindings::add(bindings::mul(x, y), z), prec, round)) == op('+', product, d, prec, round), "evaluated sum of products is wrong");
  REQUIRE(dy(bindings::eval(bindings::mul(bindings::add(x, y), z), prec, round)) == op('*', sum, d, prec, round), "evaluated product of sums is wrong");
  REQUIRE(dy(x) == a && dy(y) == b && dy(z) == d, "operands changed");
  // Balls
  Ball u{a, gen_rad(c, a)}, v{b, gen_rad(c, b)};
  if (u.rad.bits() > 30 || !u.rad.finite()) u.rad = Dy();
  if (v.rad.bits() > 30 || !v.rad.finite()) v.rad = Dy();
  const Arb s = arb(u), t = arb(v);
  auto contains = [&](const Arb& got, const Dy& p, const char* what) {
    const Ball w = ball(got);
    REQUIRE(!w.nan() && cmp(w.lo(), p) <= 0 && cmp(p, w.hi()) <= 0, what << " " << w << " does not contain " << p);
  };
  for (const Dy& p : {u.lo(), u.mid, u.hi()})
    for (const Dy& q : {v.lo(), v.mid, v.hi()}) {
      contains(bindings::eval(bindings::add(s, t), prec), add(p, q), "evaluated sum");
      contains(bindings::eval(bindings::sub(s, t), prec), add(p, -q), "evaluated difference");
      contains(bindings::eval(bindings::mul(s, t), prec), mul(p, q), "evaluated product");
      contains(bindings::eval(bindings::add(bindings::mul(s, t), s), prec), add(mul(p, q), p), "evaluated expression");
    }
  if (u.rad.zero() && v.rad.zero()) {
    const Ball w = ball(bindings::eval(bindings::mul(s, t), prec));
    REQUIRE(w.rad.zero() || w.mid.lead() - w.rad.lead() >= prec - 2, "evaluated product " << w << " is not as precise as requested");
  }
}
RELATION("P01", numbers_in_bindings, 3000, "a number that is not rational") {
  Pool P(c, c.range(1, 3));
  const Num x = P.gen(4);
  c.nontrivial(!x.rational);
  const std::string s = bindings::serialize<Real, cereal::JSONOutputArchive>(x.p);
  REQUIRE((bindings::deserialize<Real, cereal::JSONInputArchive>(s) == x.p), "deserialized another number from " << s);
  std::ostringstream os;
  exactreal::operator<<(os, *x.p);
  std::ostringstream want;
  want << *x.p;
  REQUIRE(os.str() == want.str(), "prints as " << os.str());
}
