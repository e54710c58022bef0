#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <new>
#include <typeinfo>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0:"
         "detect_container_overflow=1:print_scariness=0:handle_abort=0:"
         "malloc_context_size=5:quarantine_size_mb=16:"
         "max_allocation_size_mb=2048";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:symbolize=0";
}

namespace pbt {

static uint64_t splitmix(uint64_t& x) {
  x += 0x9e3779b97f4a7c15ULL;
  uint64_t z = x;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static constexpr size_t kTapeMax = 1 << 18;
struct SharedTape {
  uint64_t len;
  uint64_t v[kTapeMax];
};
static SharedTape* g_record = nullptr;  // if set, draws are recorded here

uint64_t Source::below(uint64_t n) {
  uint64_t v = 0;
  if (replay) {
    v = pos < tape.size() ? tape[pos] : 0;
    if (n == 0) n = 1;
    if (v >= n) v %= n;
  } else {
    uint64_t r = splitmix(prng);
    v = n <= 1 ? 0 : static_cast<uint64_t>((static_cast<__uint128_t>(r) * n) >> 64);
  }
  ++pos;
  if (pos > kTapeMax - 8) throw Stop{};
  if (g_record) {
    g_record->v[pos - 1] = v;
    g_record->len = pos;
  }
  return v;
}

uint64_t Source::perProcess(uint64_t n) {
  uint64_t v = below(n);
  if (!replay) {
    v = lane % n;
    if (g_record) g_record->v[pos - 1] = v;
  }
  return v;
}

size_t Source::weighted(const std::vector<int>& w) {
  uint64_t total = 0;
  for (int x : w) total += x;
  uint64_t r = below(total);
  for (size_t i = 0; i < w.size(); ++i) {
    if (r < static_cast<uint64_t>(w[i])) return i;
    r -= w[i];
  }
  return w.size() - 1;
}
size_t Source::weighted(std::initializer_list<int> w) {
  return weighted(std::vector<int>(w));
}

bool Source::more(size_t done, size_t avg, size_t max) {
  if (done >= max) return false;
  return below(avg + 1) != 0;
}

void fail(const std::string& oracle, const std::string& detail) {
  throw Failure{oracle, detail};
}
void discard() { throw Discard{}; }

static bool validUtf8(const std::string& s, size_t i, size_t* len) {
  unsigned char c = s[i];
  size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
  if (n == 0 || i + n > s.size()) return false;
  for (size_t k = 1; k < n; ++k)
    if ((static_cast<unsigned char>(s[i + k]) & 0xc0) != 0x80) return false;
  *len = n;
  return true;
}

std::string show(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = 0;
    if (c < 0x20 || c == 0x7f) {
      char b[8];
      if (c == '\n') o += "\\n";
      else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
      ++i;
    } else if (validUtf8(s, i, &n)) {
      o += s.substr(i, n);
      i += n;
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
      ++i;
    }
  }
  return o;
}

std::string hex(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}

static std::string jsonStr(const std::string& raw) {
  std::string s = show(raw), o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else o += c;
  }
  return o + "\"";
}

// The raw system call: some harnesses interpose clock_gettime.
static double now() {
  timespec t{};
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + t.tv_nsec * 1e-9;
}

struct WorkerShm {
  std::atomic<uint64_t> cur;  // current case, ~0 before the first one
  std::atomic<double> curStart;
  std::atomic<uint64_t> evals, discarded, nontrivial;
  std::atomic<int> failed;  // 1: oracle failure at case failIdx
  std::atomic<uint64_t> failIdx;
  char oracle[128];
  char detail[4096];
};
struct RunShm {
  std::atomic<uint64_t> stopAt;  // cases >= stopAt need not run
  WorkerShm w[64];
};

static uint64_t hashId(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
static uint64_t caseSeed(const std::string& id, uint64_t seed, uint64_t i) {
  uint64_t x = seed * 0x2545F4914F6CDD1DULL ^ hashId(id);
  splitmix(x);
  x ^= i * 0x9e3779b97f4a7c15ULL;
  splitmix(x);
  return x;
}

struct Options {
  std::string prop, harness, out, replay, replayOut, tmp;
  uint64_t cases = 0, seed = 1;
  int workers = 8;
  double budget = 300, shrinkBudget = 90;
  bool thorough = false;
};
static Options opt;
static const Property* prop = nullptr;

enum class Outcome { kPass, kFail, kDiscard };

static Outcome runCase(Source& s, Ctx& c, Failure* f) {
  try {
    prop->fn(s, c);
    return Outcome::kPass;
  } catch (const Failure& e) {
    *f = e;
    return Outcome::kFail;
  } catch (const Discard&) {
    return Outcome::kDiscard;
  } catch (const Stop&) {
    return Outcome::kPass;
  } catch (const std::exception& e) {
    // Any other exception would end the process: a crash.
    fprintf(stderr, "what(): %s: %s\n", typeid(e).name(), e.what());
    abort();
  }
}

template <class T>
static T* shared() {
  void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<T*>(p);
}

static void redirect(const std::string& errFile) {
  int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

static void freshScratch(const std::string& dir) {
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
  std::filesystem::create_directories(dir, ec);
}

static void workerMain(RunShm* shm, int w, uint64_t n) {
  redirect(opt.tmp + "/w" + std::to_string(w) + ".err");
  WorkerShm& me = shm->w[w];
  std::string scratch = opt.tmp + "/s" + std::to_string(w);
  freshScratch(scratch);
  setenv("PBT_SCRATCH", scratch.c_str(), 1);
  if (prop->init) prop->init();
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> shapes;
  std::vector<uint64_t> interesting;
  for (uint64_t i = w; i < n; i += opt.workers) {
    if (i >= shm->stopAt.load()) break;
    me.curStart = now();
    me.cur = i;
    Source s;
    s.prng = caseSeed(opt.prop, opt.seed, i);
    s.lane = i % opt.workers;
    Ctx c;
    c.scratch = scratch;
    Failure f;
    Outcome o = runCase(s, c, &f);
    if (o == Outcome::kFail) {
      snprintf(me.oracle, sizeof me.oracle, "%s", f.oracle.c_str());
      snprintf(me.detail, sizeof me.detail, "%s", f.detail.c_str());
      me.failIdx = i;
      me.failed = 1;
      uint64_t cur = shm->stopAt.load();
      while (i < cur && !shm->stopAt.compare_exchange_weak(cur, i)) {}
      break;
    }
    if (o == Outcome::kDiscard) { ++me.discarded; continue; }
    ++me.evals;
    for (auto& [k, v] : c.labels) labels[k] += v;
    if (c.nontrivial) {
      ++me.nontrivial;
      shapes.insert(c.shape);
      if (interesting.size() < 2) interesting.push_back(i);
    }
  }
  std::ofstream st(opt.tmp + "/w" + std::to_string(w) + ".stats");
  for (auto& [k, v] : labels) st << "L " << v << " " << k << "\n";
  for (uint64_t h : shapes) st << "H " << h << "\n";
  for (uint64_t i : interesting) st << "I " << i << "\n";
  st.close();
  me.cur = ~0ULL - 1;  // finished
  _exit(0);
}

struct ChildResult {
  enum Kind { kPass, kOracle, kCrash, kHang, kDiscard } kind = kPass;
  std::string oracle, detail, trace;
  std::vector<uint64_t> tape;
};
struct ChildShm {
  std::atomic<int> done;  // 1 pass 2 fail 3 discard
  char oracle[128];
  char detail[4096];
};
static ChildShm* g_child = nullptr;

static std::string crashLine(const std::string& errFile, int status) {
  std::ifstream in(errFile);
  std::string line, best;
  while (std::getline(in, line)) {
    if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
        line.find("runtime error:") != std::string::npos ||
        line.find("Assertion") != std::string::npos ||
        line.find("assertion") != std::string::npos ||
        line.find("terminate called") != std::string::npos ||
        line.find("what():") != std::string::npos) {
      best += (best.empty() ? "" : " | ") + line.substr(0, 300);
      if (best.size() > 700) break;
    }
  }
  if (best.empty()) best = "(no diagnostic)";
  return cat("process ended with ",
             WIFSIGNALED(status) ? "signal " : "exit status ",
             WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), ": ",
             best);
}

// Runs one case (from a tape or from seeds) in a child process.
static ChildResult runChild(const std::vector<uint64_t>* tape,
                            const std::vector<uint64_t>& seedCases, bool trace,
                            bool keepErr) {
  ChildResult r;
  if (!g_child) g_child = shared<ChildShm>();
  if (!g_record) g_record = shared<SharedTape>();
  memset(static_cast<void*>(g_child), 0, sizeof *g_child);
  g_record->len = 0;
  std::string errFile = opt.tmp + "/child.err", traceFile = opt.tmp + "/child.trace";
  std::error_code ec;
  std::filesystem::remove(traceFile, ec);
  pid_t pid = fork();
  if (pid == 0) {
    redirect(errFile);
    std::string scratch = opt.tmp + "/schild";
    freshScratch(scratch);
    setenv("PBT_SCRATCH", scratch.c_str(), 1);
    if (prop->init) prop->init();
    auto one = [&](Source& s) {
      g_record->len = 0;
      Ctx c;
      c.tracing = trace;
      c.scratch = scratch;
      Failure f;
      if (trace) c.traceOut = fopen(traceFile.c_str(), "w");
      Outcome o = runCase(s, c, &f);
      if (o == Outcome::kFail) {
        snprintf(g_child->oracle, sizeof g_child->oracle, "%s", f.oracle.c_str());
        snprintf(g_child->detail, sizeof g_child->detail, "%s", f.detail.c_str());
        g_child->done = 2;
      } else {
        g_child->done = o == Outcome::kDiscard ? 3 : 1;
      }
      if (c.traceOut) fclose(c.traceOut);
      return o;
    };
    if (tape) {
      Source s;
      s.replay = true;
      s.tape = *tape;
      one(s);
    } else {
      for (uint64_t i : seedCases) {
        Source s;
        s.prng = caseSeed(opt.prop, opt.seed, i);
        s.lane = i % opt.workers;
        if (one(s) == Outcome::kFail) break;
        if (i != seedCases.back()) g_child->done = 0;
      }
    }
    _exit(0);
  }
  double start = now();
  int status = 0;
  bool hang = false;
  double limit = prop->case_timeout_s + (seedCases.size() > 1 ? 300 : 0);
  while (true) {
    pid_t p = waitpid(pid, &status, WNOHANG);
    if (p == pid) break;
    if (now() - start > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    usleep(now() - start < 0.05 ? 300 : 3000);
  }
  r.tape.assign(g_record->v, g_record->v + g_record->len);
  if (trace) {
    std::ifstream t(traceFile);
    std::stringstream ss;
    ss << t.rdbuf();
    r.trace = ss.str();
  }
  if (hang) {
    r.kind = ChildResult::kHang;
    r.oracle = "hang";
    r.detail = cat("no result within ", limit, " s");
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && g_child->done) {
    if (g_child->done == 2) {
      r.kind = ChildResult::kOracle;
      r.oracle = g_child->oracle;
      r.detail = g_child->detail;
    } else {
      r.kind = g_child->done == 3 ? ChildResult::kDiscard : ChildResult::kPass;
    }
  } else {
    r.kind = ChildResult::kCrash;
    r.oracle = "crash";
    r.detail = keepErr ? crashLine(errFile, status) : "";
  }
  return r;
}

static bool failing(const ChildResult& r) {
  return r.kind == ChildResult::kOracle || r.kind == ChildResult::kCrash ||
         r.kind == ChildResult::kHang;
}
static bool sameClass(const ChildResult& a, const ChildResult& b) {
  if (!failing(a) || a.kind != b.kind) return false;
  return a.oracle == b.oracle;
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> tape,
                                    const ChildResult& target, size_t* runs) {
  double deadline = now() + opt.shrinkBudget;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (now() > deadline) return false;
    ++*runs;
    ChildResult r = runChild(&cand, {}, false, false);
    if (!sameClass(r, target)) return false;
    // The tape actually consumed is canonical (clamped and truncated).
    if (!r.tape.empty() && r.tape.size() <= cand.size()) cand = r.tape;
    if (cand.size() > tape.size() ||
        (cand.size() == tape.size() && !(cand < tape)))
      return false;
    tape = cand;
    return true;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    for (size_t block = std::max<size_t>(1, tape.size() / 2); block >= 1; block /= 2) {
      for (size_t i = tape.size(); i >= block && now() < deadline;) {
        i = std::min(i, tape.size());
        if (i < block) break;
        std::vector<uint64_t> c(tape);
        c.erase(c.begin() + (i - block), c.begin() + i);
        if (attempt(c)) { progress = true; }
        if (i == 0) break;
        i -= std::min(i, block > 8 ? block / 2 : (block > 1 ? block : 1));
      }
      if (block == 1) break;
    }
    for (size_t block : {16, 4, 1}) {
      for (size_t i = 0; i + block <= tape.size() && now() < deadline; i += block) {
        bool nz = false;
        for (size_t k = 0; k < block; ++k) nz |= tape[i + k] != 0;
        if (!nz) continue;
        std::vector<uint64_t> c(tape);
        for (size_t k = 0; k < block; ++k) c[i + k] = 0;
        if (attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < tape.size() && now() < deadline; ++i) {
      uint64_t lo = 0, hi = tape[i];
      while (lo < hi && now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c(tape);
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          if (i >= tape.size()) break;
          hi = tape[i];
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return tape;
}

static void writeReplay(const std::string& path, const ChildResult& r,
                        const std::vector<uint64_t>* tape,
                        const std::vector<uint64_t>& seq) {
  std::ofstream o(path);
  o << "# Replay with: tools/replay.py " << path << "\n";
  o << "property: " << opt.prop << "\n";
  o << "harness: " << opt.harness << "\n";
  o << "seed: " << opt.seed << "\n";
  o << "oracle: " << show(r.oracle) << "\n";
  o << "detail: " << show(r.detail) << "\n";
  if (tape) {
    o << "tape:";
    for (uint64_t v : *tape) o << " " << v;
    o << "\n";
  } else {
    o << "sequence:";
    for (uint64_t v : seq) o << " " << v;
    o << "\n";
  }
  std::istringstream in(r.trace);
  std::string line;
  while (std::getline(in, line)) o << "trace: " << show(line) << "\n";
}

static int doReplay() {
  std::ifstream in(opt.replay);
  if (!in) { fprintf(stderr, "cannot read %s\n", opt.replay.c_str()); return 2; }
  std::vector<uint64_t> tape, seq;
  bool haveTape = false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string k;
    ls >> k;
    uint64_t v;
    if (k == "tape:") { haveTape = true; while (ls >> v) tape.push_back(v); }
    else if (k == "sequence:") { while (ls >> v) seq.push_back(v); }
    else if (k == "seed:") { ls >> opt.seed; }
  }
  ChildResult r = runChild(haveTape ? &tape : nullptr, seq, true, true);
  printf("%s", r.trace.c_str());
  if (failing(r)) {
    printf("FAIL oracle=%s\n%s\n", show(r.oracle).c_str(), show(r.detail).c_str());
    std::ifstream e(opt.tmp + "/child.err");
    std::string l;
    int n = 0;
    while (std::getline(e, l) && n++ < 60) printf("  %s\n", l.c_str());
    return 1;
  }
  printf("PASS\n");
  return 0;
}

static int mainRun() {
  double t0 = now();
  RunShm* shm = shared<RunShm>();
  uint64_t n = opt.cases ? opt.cases
                         : (opt.thorough ? prop->thorough_cases : prop->quick_cases);
  shm->stopAt = n;
  std::vector<pid_t> pids(opt.workers, -1);
  for (int w = 0; w < opt.workers; ++w) {
    shm->w[w].cur = ~0ULL;
    shm->w[w].curStart = now();
    pid_t pid = fork();
    if (pid == 0) workerMain(shm, w, n);
    pids[w] = pid;
  }
  struct Found { uint64_t idx; int w; ChildResult::Kind kind; int status; bool init = false; };
  std::vector<Found> found;
  int live = opt.workers;
  bool budgetHit = false;
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < opt.workers; ++w) {
      if (pids[w] < 0) continue;
      int status = 0;
      pid_t p = waitpid(pids[w], &status, WNOHANG);
      if (p == pids[w]) {
        any = true;
        --live;
        pids[w] = -1;
        uint64_t cur = shm->w[w].cur;
        if (shm->w[w].failed) {
          found.push_back({shm->w[w].failIdx.load(), w, ChildResult::kOracle, 0});
          continue;
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && cur == ~0ULL - 1) continue;
        Found f{cur, w, ChildResult::kCrash, status};
        if (cur == ~0ULL) { f.idx = w; f.init = true; }
        found.push_back(f);
        uint64_t s = shm->stopAt.load();
        while (f.idx < s && !shm->stopAt.compare_exchange_weak(s, f.idx)) {}
      } else {
        double started = shm->w[w].curStart;
        uint64_t cur = shm->w[w].cur;
        if (cur != ~0ULL - 1 && now() - started > prop->case_timeout_s + (cur == ~0ULL ? 60 : 0)) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          any = true;
          --live;
          pids[w] = -1;
          Found f{cur == ~0ULL ? static_cast<uint64_t>(w) : cur, w, ChildResult::kHang, status};
          f.init = cur == ~0ULL;
          found.push_back(f);
          uint64_t s = shm->stopAt.load();
          while (f.idx < s && !shm->stopAt.compare_exchange_weak(s, f.idx)) {}
        }
      }
    }
    if (!budgetHit && now() - t0 > opt.budget) {
      budgetHit = true;
      shm->stopAt = 0;
    }
    if (!any) usleep(20000);
  }
  // The failing case index of an oracle failure was stored before the worker
  // overwrote cur with "finished".
  uint64_t evals = 0, disc = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> shapes;
  std::vector<uint64_t> interesting;
  for (int w = 0; w < opt.workers; ++w) {
    evals += shm->w[w].evals;
    disc += shm->w[w].discarded;
    nontriv += shm->w[w].nontrivial;
    std::ifstream st(opt.tmp + "/w" + std::to_string(w) + ".stats");
    std::string line;
    while (std::getline(st, line)) {
      std::istringstream ls(line);
      std::string k;
      uint64_t v;
      ls >> k >> v;
      if (k == "L") {
        std::string rest;
        std::getline(ls, rest);
        labels[rest.substr(1)] += v;
      } else if (k == "H") {
        shapes.insert(v);
      } else if (k == "I") {
        interesting.push_back(v);
      }
    }
  }
  double searchS = now() - t0;

  // Samples: re-run a few non-trivial cases with tracing on.
  std::vector<std::string> samples;
  std::sort(interesting.begin(), interesting.end());
  if (interesting.empty() && evals) interesting.push_back(0);
  for (size_t k = 0; k < interesting.size() && samples.size() < 3; ++k) {
    ChildResult r = runChild(nullptr, {interesting[k]}, true, false);
    std::string t = r.trace;
    if (t.size() > 3000) t = t.substr(0, 3000) + "...";
    samples.push_back(cat("case ", interesting[k], ":\n", t));
  }

  std::string failJson = "null";
  int rc = 0;
  if (!found.empty()) {
    std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
    bool confirmed = false;
    for (const Found& f : found) {
      ChildResult r = runChild(nullptr, {f.idx}, false, true);
      size_t runs = 0;
      std::vector<uint64_t> seq;
      if (failing(r)) {
        std::vector<uint64_t> tape = r.tape;
        size_t orig = tape.size();
        tape = shrink(tape, r, &runs);
        int ok = 0;
        ChildResult last;
        for (int k = 0; k < 3; ++k) {
          last = runChild(&tape, {}, true, true);
          if (sameClass(last, r)) ++ok;
        }
        if (ok == 3) {
          writeReplay(opt.replayOut, last, &tape, {});
          failJson = cat("{\"oracle\": ", jsonStr(last.oracle), ", \"detail\": ",
                         jsonStr(last.detail), ", \"case\": ", f.idx,
                         ", \"tape_len\": ", tape.size(), ", \"original_tape_len\": ", orig,
                         ", \"shrink_runs\": ", runs, ", \"trace\": ", jsonStr(last.trace.substr(0, 6000)), "}");
          confirmed = true;
          rc = 1;
          break;
        }
        // Not always, once shrunk: the case as it was found, which must fail
        // the same way in most of several runs.
        if (r.kind == ChildResult::kHang) continue;
        ok = 0;
        ChildResult kept;
        for (int k = 0; k < 6; ++k) {
          last = runChild(&r.tape, {}, true, true);
          if (!sameClass(last, r)) continue;
          ++ok;
          kept = last;
        }
        if (ok >= 4) {
          writeReplay(opt.replayOut, kept, &r.tape, {});
          failJson = cat("{\"oracle\": ", jsonStr(kept.oracle), ", \"detail\": ", jsonStr(kept.detail), ", \"case\": ", f.idx,
                         ", \"tape_len\": ", r.tape.size(), ", \"failed_of_6\": ", ok, ", \"trace\": ", jsonStr(kept.trace.substr(0, 6000)), "}");
          confirmed = true;
          rc = 1;
          break;
        }
      } else {
        // Depends on what ran before it in the same process.
        for (uint64_t i = f.w; i <= f.idx; i += opt.workers) seq.push_back(i);
        int ok = 0;
        ChildResult last;
        for (int k = 0; k < 3; ++k) {
          last = runChild(nullptr, seq, false, true);
          if (failing(last)) ++ok;
        }
        if (ok == 3) {
          writeReplay(opt.replayOut, last, nullptr, seq);
          failJson = cat("{\"oracle\": ", jsonStr(last.oracle), ", \"detail\": ",
                         jsonStr(last.detail), ", \"case\": ", f.idx, ", \"sequence\": ", seq.size(), "}");
          confirmed = true;
          rc = 1;
          break;
        }
      }
    }
    if (!confirmed) {
      // Not reproducible: never reported as a violation, but never silent.
      failJson = cat("{\"oracle\": \"unreproducible\", \"detail\": ", jsonStr(cat("case ", found[0].idx, " ", shm->w[found[0].w].oracle, " ", shm->w[found[0].w].detail)), "}");
      std::ifstream e(opt.tmp + "/w" + std::to_string(found[0].w) + ".err");
      std::string l;
      while (std::getline(e, l)) fprintf(stderr, "%s\n", l.c_str());
      rc = 3;
    }
  }
  std::ofstream o(opt.out);
  o << "{\"evaluations\": " << evals << ", \"discarded\": " << disc
    << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << shapes.size()
    << ", \"planned\": " << n << ", \"budget_hit\": " << (budgetHit ? "true" : "false")
    << ", \"search_s\": " << searchS << ", \"rule\": " << jsonStr(prop->rule)
    << ", \"labels\": {";
  bool first = true;
  for (auto& [k, v] : labels) {
    o << (first ? "" : ", ") << jsonStr(k) << ": " << v;
    first = false;
  }
  o << "}, \"samples\": [";
  for (size_t k = 0; k < samples.size(); ++k) o << (k ? ", " : "") << jsonStr(samples[k]);
  o << "], \"failure\": " << failJson << "}\n";
  return rc;
}

}  // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  opt.harness = std::filesystem::path(argv[0]).filename();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") opt.prop = next();
    else if (a == "--cases") opt.cases = std::stoull(next());
    else if (a == "--seed") opt.seed = std::stoull(next());
    else if (a == "--workers") opt.workers = std::min(64, std::stoi(next()));
    else if (a == "--out") opt.out = next();
    else if (a == "--replay") opt.replay = next();
    else if (a == "--replay-out") opt.replayOut = next();
    else if (a == "--budget") opt.budget = std::stod(next());
    else if (a == "--shrink-budget") opt.shrinkBudget = std::stod(next());
    else if (a == "--thorough") opt.thorough = true;
    else if (a == "--list") { for (auto& p : kProperties) printf("%s\n", p.id); return 0; }
  }
  for (auto& p : kProperties) if (opt.prop == p.id) prop = &p;
  if (!prop) { fprintf(stderr, "unknown property '%s'\n", opt.prop.c_str()); return 2; }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  opt.tmp = tmpl;
  if (opt.out.empty()) opt.out = opt.tmp + "/out.json";
  if (opt.replayOut.empty()) opt.replayOut = opt.tmp + "/replay.txt";
  int rc = 2;
  try {
    rc = opt.replay.empty() ? mainRun() : doReplay();
  } catch (const std::exception& e) {
    fprintf(stderr, "harness error: %s\n", e.what());
  }
  std::error_code ec;
  std::filesystem::remove_all(opt.tmp, ec);
  return rc;
}
