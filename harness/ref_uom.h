// Reference model of what is learned from choices: contexts, the words chosen
// in them with their counts and times, and a bounded number of contexts.
#ifndef VERIF_REF_UOM_H_
#define VERIF_REF_UOM_H_
#include <cmath>
#include <list>
#include <map>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<std::string> Context;
struct Suggestion {
  std::string candidate;
  bool force = false;
};

struct Learned {
  struct Choice { size_t count = 0; double when = 0; bool force = false; };
  struct Ctxt { size_t total = 0; std::map<std::string, Choice> choices; };
  size_t capacity = 1;
  double half = 1;
  std::list<Context> recent;  // most recent first
  std::map<Context, Ctxt> known;
  bool evicted = false;

  void observe(const Context& k, const std::string& v, double t, bool force) {
    recent.remove(k);
    recent.push_front(k);
    Ctxt& x = known[k];
    ++x.total;
    Choice& c = x.choices[v];
    ++c.count;
    c.when = t;
    c.force = force;
    while (recent.size() > capacity) {
      known.erase(recent.back());
      recent.pop_back();
      evicted = true;
    }
  }
  // All acceptable answers (more than one only where strengths coincide).
  std::vector<Suggestion> suggest(const Context& k, double t, bool* faded, bool* rivals) const {
    std::vector<Suggestion> ok;
    *faded = false;
    *rivals = false;
    auto it = known.find(k);
    if (it == known.end()) return {Suggestion()};
    *rivals = it->second.choices.size() > 1;
    double best = 0;
    std::vector<std::pair<double, Suggestion>> all;
    bool border = false;
    for (auto& [v, c] : it->second.choices) {
      double lives = (t - c.when) / half;
      if (lives > 20 + 1e-7) { *faded = true; continue; }
      if (lives > 20 - 1e-7) border = true;
      double s = static_cast<double>(c.count) / static_cast<double>(it->second.total) * std::pow(0.5, lives);
      all.push_back({s, Suggestion{v, c.force}});
      if (lives <= 20 - 1e-7) best = std::max(best, s);
    }
    for (auto& p : all)
      if (p.first >= best * (1 - 1e-9)) ok.push_back(p.second);
    if (best == 0) { if (border || all.empty()) ok.push_back(Suggestion()); }
    return ok;
  }
};


}  // namespace ref
#endif
