// A small property-based testing engine.
//
// A test case is a pure function of a finite sequence of integer choices.  The
// random generator, the shrinker, replay files and libFuzzer all drive the same
// property functions by supplying that sequence.  Every choice is made such
// that 0 is the simplest alternative, so that shrinking is generic.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <locale>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};
constexpr size_t MIRROR = 1 << 16;

class Case {
 public:
  // --- choices -----------------------------------------------------------
  // A number in [0, max].
  uint64_t draw(uint64_t max) {
    uint64_t v;
    if (replay) {
      v = pos < input.size() ? input[pos] : 0;
      pos++;
    } else {
      v = next();
    }
    if (max != UINT64_MAX && v > max) v %= max + 1;
    record.push_back(v);
    if (mirror && mirror[0] < MIRROR) mirror[++mirror[0]] = v;
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo))); }
  // An integer in [-n, n], shrinking to 0.
  int64_t around(int64_t n) {
    const int64_t v = range(0, 2 * n);
    return v <= n ? v : n - v;
  }
  bool flip() { return draw(1); }
  // True with probability num/den
  bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  // An index chosen with the given weights (first is simplest.)
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t total = 0;
    for (auto x : w) total += x;
    uint64_t r = draw(total - 1);
    size_t i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }

  // --- bookkeeping -------------------------------------------------------
  void cls(const std::string& label) { classes.push_back(label); }
  void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
  std::ostream& log() { return desc; }

  bool replay = false;
  std::vector<uint64_t> input, record;
  size_t pos = 0;
  uint64_t s[2] = {0, 0};
  uint64_t* mirror = nullptr;  // shared memory copy of record that survives crashes
  std::ostringstream desc;
  std::vector<std::string> classes;
  bool is_nontrivial = false;

  void seed(uint64_t a) {
    auto sm = [&]() {
      uint64_t z = (a += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    };
    s[0] = sm();
    s[1] = sm();
  }

 private:
  uint64_t next() {
    // xoroshiro128+
    const uint64_t s0 = s[0];
    uint64_t s1 = s[1];
    const uint64_t r = s0 + s1;
    s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    s[1] = (s1 << 37) | (s1 >> 27);
    return r ^ (r >> 29);
  }
};

struct Relation {
  const char* property;
  const char* name;
  uint64_t quick;      // number of cases in the quick tier
  const char* rule;    // what makes a case non-trivial
  void (*f)(Case&);
  // The outcome depends on the schedule of threads, so a failure might need several attempts to show up again.
  bool schedules;
};

std::vector<Relation>& relations();

// While this is active, operator new hands out the memory again that has been
// deleted most recently, as common allocators do (AddressSanitizer on its own never does.)
// So anything that remembers the address of an object that is gone gets to see another one there.
class Recycle {
 public:
  explicit Recycle(bool on = true);
  ~Recycle();
  Recycle(const Recycle&) = delete;
  Recycle& operator=(const Recycle&) = delete;

 private:
  const bool before;
};

// While this is active, the global C++ locale groups digits and has a decimal comma.
// (Streams created meanwhile use it.)
class Locale {
 public:
  explicit Locale(bool on = true) {
    struct Punct : std::numpunct<char> {
      char do_thousands_sep() const override { return '.'; }
      char do_decimal_point() const override { return ','; }
      std::string do_grouping() const override { return "\3"; }
    };
    if (on) std::locale::global(std::locale(std::locale::classic(), new Punct()));
  }
  ~Locale() { std::locale::global(before); }
  Locale(const Locale&) = delete;
  Locale& operator=(const Locale&) = delete;

 private:
  const std::locale before;
};

struct Register {
  Register(const char* p, const char* n, uint64_t q, const char* r, void (*f)(Case&), bool schedules = false) { relations().push_back({p, n, q, r, f, schedules}); }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// Define a relation that is checked for a property.
#define RELATION(prop, name, quick, rule)                                                   \
  static void PBT_CAT(rel_, name)(pbt::Case&);                                              \
  static pbt::Register PBT_CAT(reg_, name)(prop, #name, quick, rule, &PBT_CAT(rel_, name)); \
  static void PBT_CAT(rel_, name)([[maybe_unused]] pbt::Case& c)

// A relation whose cases run several threads.
#define RELATION_SCHEDULES(prop, name, quick, rule)                                               \
  static void PBT_CAT(rel_, name)(pbt::Case&);                                                    \
  static pbt::Register PBT_CAT(reg_, name)(prop, #name, quick, rule, &PBT_CAT(rel_, name), true); \
  static void PBT_CAT(rel_, name)([[maybe_unused]] pbt::Case& c)

#define REQUIRE(cond, ...)                                              \
  do {                                                                  \
    bool pbt_ok_ = static_cast<bool>(cond);                             \
    if (!pbt_ok_) {                                                     \
      std::ostringstream pbt_os_;                                       \
      pbt_os_ << #cond << " failed: " << __VA_ARGS__;                   \
      throw pbt::Failure{pbt_os_.str()};                                \
    }                                                                   \
  } while (0)

}  // namespace pbt
