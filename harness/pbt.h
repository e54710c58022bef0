// A small property-based-testing kernel in the Hypothesis style.
//
// Every random decision of a case is drawn from a Source.  In search mode the
// Source is a seeded PRNG whose draws are recorded; in replay/shrink mode it is
// a list of recorded draws.  Shrinking edits that list (delete blocks, zero
// blocks, lower values), so it works for any generator, including stateful ones.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Source {
  // Uniform in [0, n). n >= 1. Smaller values are "simpler".
  uint64_t below(uint64_t n);
  // Uniform in [lo, hi]; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(
                    below(static_cast<uint64_t>(hi - lo) + 1));
  }
  // True with probability num/den; shrinks towards false.
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  // In [0, n), the same for all cases a worker process runs: for choices that
  // a program makes only once in its life.  Recorded like any other draw.
  uint64_t perProcess(uint64_t n);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  // Weighted choice of an index.
  size_t weighted(std::initializer_list<int> w);
  size_t weighted(const std::vector<int>& w);
  // Number of repetitions: geometric-ish, bounded by max; one flag per step so
  // that deleting draws removes whole steps.  Use: while (s.more(count, avg, max))
  bool more(size_t done, size_t avg, size_t max);

  // --- implementation state
  bool replay = false;
  uint64_t prng = 0;
  uint64_t lane = 0;           // the same for all cases of a process
  std::vector<uint64_t> tape;  // replayed draws
  size_t pos = 0;
};

struct Failure {
  std::string oracle;  // short, stable label of the check that failed
  std::string detail;
};

struct Discard {};  // the case does not belong to the property's domain
struct Stop {};     // the case ends here; what was explored counts

struct Ctx {
  bool tracing = false;
  FILE* traceOut = nullptr;  // flushed line by line: survives a crash
  std::map<std::string, uint64_t> labels;
  bool nontrivial = false;
  uint64_t shape = 0;  // hash of what was exercised, for distinct counting
  std::string scratch;  // private scratch directory of this worker

  void label(const std::string& l) { ++labels[l]; }
  // Marks the case as non-trivial by the property's stated rule.
  void interesting() { nontrivial = true; }
  void mix(uint64_t v) {
    shape = (shape ^ (v + 0x9e3779b97f4a7c15ULL + (shape << 6) + (shape >> 2))) *
            0xff51afd7ed558ccdULL;
  }
  void mix(const std::string& s) {
    mix(std::hash<std::string>{}(s));
  }
  template <class... A>
  void log(const A&... a) {
    if (!tracing) return;
    std::ostringstream o;
    ((o << a), ...);
    if (traceOut) {
      fprintf(traceOut, "%s\n", o.str().c_str());
      fflush(traceOut);
    }
  }
};

[[noreturn]] void fail(const std::string& oracle, const std::string& detail);
[[noreturn]] void discard();

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  ((o << a), ...);
  return o.str();
}

#define PBT_CHECK(cond, oracle, ...)                        \
  do {                                                      \
    if (!(cond)) ::pbt::fail(oracle, ::pbt::cat(__VA_ARGS__)); \
  } while (0)

struct Property {
  const char* id;
  const char* rule;  // what a case is and what makes it non-trivial
  void (*fn)(Source&, Ctx&);
  uint64_t quick_cases;
  uint64_t thorough_cases;
  void (*init)() = nullptr;  // run once per process before cases
  int case_timeout_s = 60;
};

// Each harness binary defines this list.
extern const std::vector<Property> kProperties;

// Printable form of a byte string (UTF-8 text is kept as is).
std::string show(const std::string& s);
std::string hex(const std::string& s);

}  // namespace pbt
#endif
