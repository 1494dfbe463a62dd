// Runner for the property-based testing engine: parallel, crash-isolated
// execution, shrinking, replay, statistics.
#include <fcntl.h>
#include <malloc.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <new>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include "pbt.hpp"

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

namespace {
// Deleted blocks by size (in words), while Recycle is active
constexpr size_t RECYCLE_SIZES = 64, RECYCLE_DEPTH = 256;
bool recycling = false;
void* recycled[RECYCLE_SIZES][RECYCLE_DEPTH];
size_t nrecycled[RECYCLE_SIZES];
}  // namespace

// (There is only one thread while recycling.)
void* operator new(size_t n) {
  if (recycling && n < 8 * RECYCLE_SIZES && n % 8 == 0) {
    auto& k = nrecycled[n / 8];
    if (k) {
      void* p = recycled[n / 8][--k];
      ASAN_UNPOISON_MEMORY_REGION(p, n);
      return p;
    }
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept {
  if (recycling && p) {
    const size_t n = malloc_usable_size(p);
    if (n < 8 * RECYCLE_SIZES && n % 8 == 0 && nrecycled[n / 8] < RECYCLE_DEPTH) {
      for (size_t i = 0; i < nrecycled[n / 8]; i++)
        if (recycled[n / 8][i] == p) abort();  // a double free
      ASAN_POISON_MEMORY_REGION(p, n);
      recycled[n / 8][nrecycled[n / 8]++] = p;
      return;
    }
  }
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try {
    return operator new(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace pbt {
std::vector<Relation>& relations() {
  static std::vector<Relation> r;
  return r;
}

Recycle::Recycle(bool on) : before(recycling) { recycling = on; }
Recycle::~Recycle() {
  recycling = before;
  if (recycling) return;
  for (size_t i = 0; i < RECYCLE_SIZES; i++)
    while (nrecycled[i]) {
      void* p = recycled[i][--nrecycled[i]];
      ASAN_UNPOISON_MEMORY_REGION(p, 8 * i);
      free(p);
    }
}
}  // namespace pbt

using namespace pbt;
using std::string;
using std::vector;

namespace {
constexpr int CASE_CPU_SECONDS = 60;
constexpr long MEM_LIMIT_KB = 3000L * 1024;

struct Outcome {
  bool failed = false;
  bool discarded = false;
  string msg;
};

Outcome run_case(const Relation& rel, Case& c) {
  Outcome o;
  try {
    rel.f(c);
  } catch (const Failure& f) {
    o.failed = true;
    o.msg = f.msg;
  } catch (const Discard&) {
    o.discarded = true;
  } catch (const std::exception& e) {
    o.failed = true;
    o.msg = string("unexpected exception: ") + e.what();
  }
  return o;
}

uint64_t fnv(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h ^ (h >> 31);
}

uint64_t case_seed(uint64_t seed, const Relation& rel, uint64_t index) {
  return fnv(std::to_string(seed) + "/" + rel.name + "/" + std::to_string(index));
}

void on_prof(int) { _exit(99); }

void arm_timer(int secs) {
  struct itimerval it = {};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

string json(const string& s) {
  string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

long rss_kb(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  long a = 0, b = 0;
  f >> a >> b;
  return b * 4;
}

string status_text(int st, bool memkill, const string& err) {
  string s;
  if (memkill)
    s = "the case used more than 3 GB of memory";
  else if (WIFSIGNALED(st))
    s = string("killed by signal ") + strsignal(WTERMSIG(st));
  else if (WEXITSTATUS(st) == 99)
    s = "did not terminate within " + std::to_string(CASE_CPU_SECONDS) + " s of CPU time";
  else if (WEXITSTATUS(st) == 77)
    s = "sanitizer report";
  else
    s = "exited with status " + std::to_string(WEXITSTATUS(st));
  // Keep the telling lines of stderr.
  std::istringstream is(err);
  string line;
  int n = 0;
  while (std::getline(is, line) && n < 6)
    if (line.find("runtime error") != string::npos || line.find("ERROR: AddressSanitizer") != string::npos || line.find("Assertion") != string::npos || line.find("terminate called") != string::npos || line.find("what()") != string::npos || line.find("Exception") != string::npos || line.find("    #") == 0) {
      s += " | " + line;
      n++;
    }
  return s;
}

// Run f in a child process.  Returns the exit status.
struct ChildResult {
  int status;
  bool memkill = false;
  string out;
  string err;
};

ChildResult in_child(const std::function<void(int fd)>& f) {
  int p[2], e[2];
  if (pipe(p) || pipe(e)) exit(3);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    close(e[0]);
    dup2(e[1], 2);
    signal(SIGPROF, on_prof);
    f(p[1]);
    _exit(0);
  }
  close(p[1]);
  close(e[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  fcntl(e[0], F_SETFL, O_NONBLOCK);
  ChildResult r;
  char buf[65536];
  auto drain = [&]() {
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) r.out.append(buf, n);
    while ((n = read(e[0], buf, sizeof buf)) > 0)
      if (r.err.size() < (1 << 20)) r.err.append(buf, n);
  };
  int us = 200;
  while (true) {
    drain();
    pid_t w = waitpid(pid, &r.status, WNOHANG);
    if (w == pid) break;
    if (us > 5000 && rss_kb(pid) > MEM_LIMIT_KB) {
      r.memkill = true;
      kill(pid, SIGKILL);
    }
    usleep(us);
    if (us < 20000) us = us * 3 / 2;
  }
  drain();
  close(p[0]);
  close(e[0]);
  return r;
}

struct Verdict {
  bool failed = false;
  string msg, desc;
  vector<uint64_t> record;
};

// Run a single case given by choices in a fresh process.
Verdict run_once(const Relation& rel, const vector<uint64_t>& choices, int cpu) {
  static uint64_t* mirror = static_cast<uint64_t*>(mmap(nullptr, 8 * (MIRROR + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  mirror[0] = 0;
  auto r = in_child([&](int fd) {
    arm_timer(cpu);
    Case c;
    c.replay = true;
    c.input = choices;
    mirror[0] = 0;
    c.mirror = mirror;
    auto o = run_case(rel, c);
    FILE* f = fdopen(fd, "w");
    string d = c.desc.str();
    fprintf(f, "%d %zu %zu %zu\n", o.failed ? 1 : 0, o.msg.size(), d.size(), c.record.size());
    fwrite(o.msg.data(), 1, o.msg.size(), f);
    fwrite(d.data(), 1, d.size(), f);
    for (auto v : c.record) fprintf(f, " %llu", (unsigned long long)v);
    fclose(f);
  });
  Verdict v;
  if (r.memkill || !WIFEXITED(r.status) || WEXITSTATUS(r.status) != 0) {
    v.failed = true;
    v.msg = status_text(r.status, r.memkill, r.err);
    v.record.assign(mirror + 1, mirror + 1 + mirror[0]);
    return v;
  }
  std::istringstream is(r.out);
  int failed;
  size_t a, b, n;
  is >> failed >> a >> b >> n;
  is.get();
  v.msg.resize(a);
  is.read(v.msg.data(), a);
  v.desc.resize(b);
  is.read(v.desc.data(), b);
  v.failed = failed;
  for (size_t i = 0; i < n; i++) {
    uint64_t x;
    is >> x;
    v.record.push_back(x);
  }
  return v;
}

Verdict run_isolated(const Relation& rel, const vector<uint64_t>& choices, int cpu = CASE_CPU_SECONDS) {
  Verdict v = run_once(rel, choices, cpu);
  for (int k = 1; rel.schedules && k < 30 && !v.failed; k++) v = run_once(rel, choices, cpu);
  return v;
}

vector<uint64_t> choices_of(const Relation& rel, uint64_t seed, uint64_t index) {
  // The random stream itself is a valid choice sequence: draws from it are
  // reduced in the same way when it is replayed.
  Case c;
  c.seed(case_seed(seed, rel, index));
  vector<uint64_t> raw;
  for (int i = 0; i < 4096; i++) raw.push_back(c.draw(UINT64_MAX));
  return raw;
}

Verdict shrink(const Relation& rel, vector<uint64_t> best, double budget_s) {
  auto start = std::chrono::steady_clock::now();
  auto expired = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > budget_s; };
  Verdict v = run_isolated(rel, best);
  if (!v.failed) return v;
  if (v.record.size() < best.size()) best = v.record;
  auto attempt = [&](const vector<uint64_t>& cand) {
    Verdict w = run_isolated(rel, cand, 20);
    if (w.failed) {
      vector<uint64_t> rec = w.record.size() <= cand.size() ? w.record : cand;
      if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) {
        best = rec;
        v = w;
        return true;
      }
    }
    return false;
  };
  // Crashing cases do not report the used prefix; cut it by bisection.
  while (best.size() > 1 && !expired()) {
    vector<uint64_t> cand(best.begin(), best.begin() + best.size() / 2);
    if (!attempt(cand)) break;
  }
  bool improved = true;
  while (improved && !expired()) {
    improved = false;
    for (size_t k : {16, 8, 4, 2, 1})
      for (size_t i = best.size(); i-- > 0 && !expired();) {
        if (i + k > best.size()) continue;
        vector<uint64_t> cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (attempt(cand)) improved = true;
      }
    for (size_t i = 0; i < best.size() && !expired(); i++) {
      if (!best[i]) continue;
      vector<uint64_t> cand = best;
      cand[i] = 0;
      if (attempt(cand)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      while (lo + 1 < hi && !expired() && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          improved = true;
          if (i >= best.size()) break;
          hi = best[i];
        } else
          lo = mid;
      }
    }
  }
  return v;
}

void write_replay(const string& path, const Relation& rel, const Verdict& v, uint64_t seed, uint64_t from, uint64_t to) {
  std::ofstream f(path);
  f << "{\n \"property\": " << json(rel.property) << ",\n \"relation\": " << json(rel.name) << ",\n \"message\": " << json(v.msg) << ",\n \"case\": " << json(v.desc) << ",\n \"seed\": " << seed << ",\n";
  if (from != to) f << " \"history_from\": " << from << ",\n \"history_to\": " << to << ",\n";
  f << " \"choices\": [";
  bool first = true;
  for (auto x : v.record) {
    f << (first ? "" : ", ") << x;
    first = false;
  }
  f << "]\n}\n";
}

struct Block {
  size_t rel;
  uint64_t from, to;
};

struct Shared {
  uint64_t index;
};

struct Stats {
  uint64_t evaluations = 0, discarded = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<string, uint64_t> classes;
  vector<string> samples;
  uint64_t nontrivial = 0;
};

// Run cases [from, to) in this process; report to fd.
// A prefix that does not end in the middle of a character
string clip(const string& s, size_t n) {
  if (s.size() <= n) return s;
  while (n && (static_cast<unsigned char>(s[n]) & 0xC0) == 0x80) n--;
  return s.substr(0, n);
}

void run_block(const Relation& rel, uint64_t seed, uint64_t from, uint64_t to, int fd, Shared* sh) {
  FILE* f = fdopen(fd, "w");
  // In half of the blocks, objects appear at the addresses of what was there in earlier cases.
  const Recycle recycle(case_seed(seed, rel, from) & 1);
  std::map<string, uint64_t> classes;
  uint64_t evals = 0, disc = 0;
  vector<uint64_t> hashes;
  vector<string> samples;
  bool failed = false;
  string msg;
  uint64_t i = from;
  for (; i < to; i++) {
    sh->index = i;
    arm_timer(CASE_CPU_SECONDS);
    Case c;
    c.seed(case_seed(seed, rel, i));
    auto o = run_case(rel, c);
    if (o.failed) {
      failed = true;
      msg = o.msg;
      break;
    }
    evals++;
    if (o.discarded) {
      disc++;
      continue;
    }
    for (auto& s : c.classes) classes[s]++;
    if (c.is_nontrivial) {
      string d = c.desc.str();
      hashes.push_back(fnv(d));
      if (i % 97 == 3 || samples.empty())
        if (samples.size() < 2) samples.push_back(clip(d, 400));
    }
  }
  arm_timer(0);
  fprintf(f, "%d %llu %llu %llu %zu %zu %zu %zu\n", failed ? 1 : 0, (unsigned long long)i, (unsigned long long)evals, (unsigned long long)disc, classes.size(), hashes.size(), samples.size(), msg.size());
  for (auto& [k, v] : classes) fprintf(f, "%zu %llu %s\n", k.size(), (unsigned long long)v, k.c_str());
  for (auto h : hashes) fprintf(f, "%llu\n", (unsigned long long)h);
  for (auto& s : samples) {
    fprintf(f, "%zu ", s.size());
    fwrite(s.data(), 1, s.size(), f);
    fputc('\n', f);
  }
  fwrite(msg.data(), 1, msg.size(), f);
  fclose(f);
}

}  // namespace

#ifndef PBT_FUZZER
int main(int argc, char** argv) {
  string prop, out, replaydir = ".", replayfile, only;
  uint64_t seed = 1;
  double scale = 1;
  int jobs = 8;
  bool history = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto next = [&]() { return string(argv[++i]); };
    if (a == "--prop") prop = next();
    else if (a == "--seed") seed = std::stoull(next());
    else if (a == "--scale") scale = std::stod(next());
    else if (a == "--jobs") jobs = std::stoi(next());
    else if (a == "--out") out = next();
    else if (a == "--replaydir") replaydir = next();
    else if (a == "--relation") only = next();
    else if (a == "--replay") replayfile = next();
    else if (a == "--history") history = true;
    else if (a == "--list") {
      for (auto& r : relations()) std::cout << r.property << " " << r.name << " " << r.quick << "\n";
      return 0;
    }
  }

  if (!replayfile.empty()) {
    // A replay file is a list of numbers: choices; or with --history: from, to.
    std::ifstream f(replayfile);
    vector<uint64_t> nums;
    uint64_t x;
    while (f >> x) nums.push_back(x);
    for (auto& rel : relations())
      if (only == rel.name) {
        if (history) {
          Shared* sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
          auto r = in_child([&](int fd) { run_block(rel, seed, nums[0], nums[1], fd, sh); });
          bool failed = r.memkill || !WIFEXITED(r.status) || WEXITSTATUS(r.status) || r.out[0] == '1';
          std::cout << (failed ? "FAIL " : "PASS ") << r.out.substr(0, 4000) << r.err.substr(0, 4000) << "\n";
          return failed ? 1 : 0;
        }
        Verdict v = run_isolated(rel, nums);
        std::cout << (v.failed ? "FAIL " : "PASS ") << v.msg << "\n" << v.desc << "\n";
        return v.failed ? 1 : 0;
      }
    std::cerr << "no such relation\n";
    return 3;
  }

  vector<Block> blocks;
  vector<size_t> chosen;
  for (size_t r = 0; r < relations().size(); r++) {
    auto& rel = relations()[r];
    if (!prop.empty() && prop != rel.property) continue;
    if (!only.empty() && only != rel.name) continue;
    chosen.push_back(r);
    uint64_t n = std::max<uint64_t>(1, static_cast<uint64_t>(rel.quick * scale));
    // Blocks bound how much history cases share in a process.
    uint64_t b = std::min<uint64_t>(std::max<uint64_t>(1, n / 64), 500);
    for (uint64_t i = 0; i < n; i += b) blocks.push_back({r, i, std::min(n, i + b)});
  }
  if (chosen.empty()) {
    std::cerr << "nothing to run\n";
    return 3;
  }
  Shared* shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * (blocks.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Running {
    size_t block;
    int out, err;
    string sout, serr;
    bool memkill = false;
  };
  std::map<pid_t, Running> running;
  std::map<size_t, Stats> stats;
  struct Fail {
    uint64_t from, index;
    string msg;
  };
  std::map<size_t, Fail> fails;
  size_t nextblock = 0;
  char buf[65536];
  auto drain = [&](Running& r) {
    ssize_t n;
    while ((n = read(r.out, buf, sizeof buf)) > 0) r.sout.append(buf, n);
    while ((n = read(r.err, buf, sizeof buf)) > 0)
      if (r.serr.size() < (1 << 20)) r.serr.append(buf, n);
  };
  while (nextblock < blocks.size() || !running.empty()) {
    while (nextblock < blocks.size() && static_cast<int>(running.size()) < jobs) {
      const Block& b = blocks[nextblock];
      auto it = fails.find(b.rel);
      if (it != fails.end() && it->second.from <= b.from) {
        nextblock++;
        continue;
      }
      int p[2], e[2];
      if (pipe2(p, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) return 3;
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        dup2(e[1], 2);
        signal(SIGPROF, on_prof);
        run_block(relations()[b.rel], seed, b.from, b.to, p[1], &shared[nextblock]);
        _exit(0);
      }
      close(p[1]);
      close(e[1]);
      fcntl(p[0], F_SETFL, O_NONBLOCK);
      fcntl(e[0], F_SETFL, O_NONBLOCK);
      running[pid] = {nextblock, p[0], e[0], "", ""};
      nextblock++;
    }
    bool progress = false;
    for (auto it = running.begin(); it != running.end();) {
      Running& r = it->second;
      drain(r);
      int st;
      if (waitpid(it->first, &st, WNOHANG) == it->first) {
        progress = true;
        drain(r);
        close(r.out);
        close(r.err);
        const Block& b = blocks[r.block];
        auto& S = stats[b.rel];
        if (r.memkill || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
          auto f = fails.find(b.rel);
          if (f == fails.end() || f->second.from > b.from) fails[b.rel] = {b.from, shared[r.block].index, status_text(st, r.memkill, r.serr)};
        } else {
          std::istringstream is(r.sout);
          int failed;
          uint64_t idx, evals, disc;
          size_t nc, nh, ns, nm;
          is >> failed >> idx >> evals >> disc >> nc >> nh >> ns >> nm;
          S.evaluations += evals;
          S.discarded += disc;
          for (size_t i = 0; i < nc; i++) {
            size_t len;
            uint64_t n;
            is >> len >> n;
            is.get();
            string k(len, 0);
            is.read(k.data(), len);
            S.classes[k] += n;
          }
          S.nontrivial += nh;
          for (size_t i = 0; i < nh; i++) {
            uint64_t h;
            is >> h;
            S.distinct.insert(h);
          }
          for (size_t i = 0; i < ns; i++) {
            size_t len;
            is >> len;
            is.get();
            string s(len, 0);
            is.read(s.data(), len);
            if (S.samples.size() < 4) S.samples.push_back(s);
          }
          if (ns) is.get(); else is.get();
          if (failed) {
            string m(nm, 0);
            is.read(m.data(), nm);
            auto f = fails.find(b.rel);
            if (f == fails.end() || f->second.from > b.from) fails[b.rel] = {b.from, idx, m};
          }
        }
        it = running.erase(it);
      } else {
        if (rss_kb(it->first) > MEM_LIMIT_KB) {
          r.memkill = true;
          kill(it->first, SIGKILL);
        }
        ++it;
      }
    }
    if (!progress) usleep(2000);
  }

  // Confirm, shrink and save failures.
  int violations = 0;
  std::ostringstream js;
  js << "{\n \"relations\": [\n";
  bool first = true;
  for (size_t r : chosen) {
    auto& rel = relations()[r];
    auto& S = stats[r];
    js << (first ? "" : ",\n") << "  {\"property\": " << json(rel.property) << ", \"name\": " << json(rel.name) << ", \"rule\": " << json(rel.rule) << ", \"evaluations\": " << S.evaluations << ", \"discarded\": " << S.discarded << ", \"nontrivial\": " << S.nontrivial << ", \"distinct_nontrivial\": " << S.distinct.size() << ", \"classes\": {";
    first = false;
    bool cf = true;
    for (auto& [k, v] : S.classes) {
      js << (cf ? "" : ", ") << json(k) << ": " << v;
      cf = false;
    }
    js << "}, \"samples\": [";
    cf = true;
    for (auto& s : S.samples) {
      js << (cf ? "" : ", ") << json(s);
      cf = false;
    }
    js << "]";
    auto f = fails.find(r);
    if (f != fails.end()) {
      const bool timeout = f->second.msg.find("did not terminate") != string::npos;
      auto raw = choices_of(rel, seed, f->second.index);
      Verdict v;
      bool isolated = true, confirmed = true;
      for (int k = 0; k < 3 && isolated; k++) {
        v = run_isolated(rel, raw);
        isolated = v.failed;
      }
      if (isolated) {
        if (!timeout) {
          Verdict w = shrink(rel, v.record, 60);
          if (w.failed) v = w;
        } else if (v.record.size() > 256)
          v.record.resize(256);
      } else {
        // Only fails after other cases ran in the same process.
        Shared* sh = &shared[blocks.size()];
        for (int k = 0; k < 3 && confirmed; k++) {
          auto cr = in_child([&](int fd) { run_block(rel, seed, f->second.from, f->second.index + 1, fd, sh); });
          confirmed = cr.memkill || !WIFEXITED(cr.status) || WEXITSTATUS(cr.status) || (!cr.out.empty() && cr.out[0] == '1');
        }
        v.msg = f->second.msg;
        v.record.clear();
      }
      if (confirmed) {
        violations++;
        mkdir(replaydir.c_str(), 0777);
        string path = replaydir + "/" + rel.property + "-" + rel.name + ".json";
        write_replay(path, rel, v, seed, isolated ? 0 : f->second.from, isolated ? 0 : f->second.index + 1);
        js << ", \"failure\": {\"message\": " << json(v.msg) << ", \"case\": " << json(v.desc) << ", \"replay\": " << json(path) << ", \"original\": " << json(f->second.msg) << "}";
      } else {
        js << ", \"unconfirmed\": " << json(f->second.msg);
      }
    }
    js << "}";
  }
  js << "\n ]\n}\n";
  if (!out.empty()) {
    std::ofstream o(out);
    o << js.str();
  } else
    std::cout << js.str();
  return violations ? 1 : 0;
}
#else
// libFuzzer entry: bytes are decoded as little endian varints of choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const Relation* rel = []() -> const Relation* {
    const char* name = getenv("PBT_RELATION");
    for (auto& r : relations())
      if (name && !strcmp(name, r.name)) return &r;
    fprintf(stderr, "PBT_RELATION not set\n");
    exit(3);
  }();
  Case c;
  c.replay = true;
  size_t i = 0;
  while (i < size) {
    // The low 2 bits of the tag byte say how many bytes the choice has.
    const unsigned tag = data[i] & 3;
    uint64_t v = data[i] >> 2;
    i++;
    const unsigned n = tag == 0 ? 0 : tag == 1 ? 1 : tag == 2 ? 3 : 8;
    for (unsigned k = 0; k < n && i < size; k++, i++) v = (k < 8 ? (v << 8) : v) | data[i];
    c.input.push_back(v);
  }
  auto o = run_case(*rel, c);
  if (o.failed) {
    const char* rd = getenv("PBT_FAILFILE");
    if (rd) {
      std::ofstream f(rd);
      for (auto x : c.record) f << x << " ";
      f.close();
    }
    fprintf(stderr, "PBT-FAILURE %s\n%s\n", o.msg.c_str(), c.desc.str().c_str());
    abort();
  }
  return 0;
}
#endif
