// Reference model of the merged language model, and a generator of dictionary
// text.  Written from the documented merge rules, over parsed rows.
#ifndef VERIF_REF_LM_H_
#define VERIF_REF_LM_H_
#include <locale.h>
#include <stdlib.h>

#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "ref_grid.h"

namespace ref {

// In the C locale, whichever the process is in.
inline double number(const std::string& s) {
  static locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
  return strtod_l(s.c_str(), nullptr, c);
}

struct Row {
  std::string reading, value, score;  // score as written
  double num() const { return score.empty() ? 0 : number(score); }
  std::string line() const { return reading + " " + value + (score.empty() ? "" : " " + score); }
};

static const char kHeader[] = "# format org.openvanilla.mcbopomofo.sorted\n";

// The rows of a reading come in any order (as in the shipped data) when not
// sorted through.
inline std::string dbText(std::vector<Row>& rows, bool header, bool finalNewline, bool sortThrough = true) {
  if (sortThrough) std::stable_sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.line() < b.line(); });
  else std::stable_sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.reading + " " < b.reading + " "; });
  std::string o = header ? kHeader : "";
  for (size_t i = 0; i < rows.size(); ++i) {
    o += rows[i].line();
    if (finalNewline || i + 1 < rows.size()) o += "\n";
  }
  return o;
}

struct LM {
  std::vector<Row> db;  // in file order
  const std::map<std::string, std::vector<Row>>* index = nullptr;  // the same by reading, if db is empty
  std::vector<std::pair<std::string, std::string>> user, excluded;  // value, reading
  std::map<std::string, std::string> repl;
  bool replOn = false;
  std::function<std::string(const std::string&)> macro;
  bool convOn = false;
  std::function<std::string(const std::string&)> conv;

  // In the order offered by the model.
  std::vector<Uni> get(const std::string& key) const {
    if (key == " ") return {{" ", 0}};
    std::set<std::string> out, seen;
    for (auto& e : excluded)
      if (e.second == key) out.insert(e.first);
    auto take = [&](const std::string& v, double sc, std::vector<Uni>& to) {
      if (out.count(v)) return;
      std::string x = v;
      if (replOn) {
        auto it = repl.find(x);
        if (it != repl.end() && !it->second.empty()) x = it->second;
      }
      if (macro) x = macro(x);
      if (sc == -8.0 && x.size() > 6 && x.compare(0, 6, "MACRO@") == 0) return;
      if (convOn && conv) x = conv(x);
      if (seen.insert(x).second) to.push_back({x, sc});
    };
    std::vector<Uni> us, gs;
    for (auto& e : user)
      if (e.second == key) take(e.first, 0, us);
    for (auto& r : db)
      if (r.reading == key) take(r.value, r.num(), gs);
    if (index) {
      auto it = index->find(key);
      if (it != index->end())
        for (auto& r : it->second) take(r.value, r.num(), gs);
    }
    if (key.find('-') == std::string::npos && !gs.empty()) {
      double top = -std::numeric_limits<double>::infinity();
      for (auto& g : gs) top = std::max(top, g.score);
      for (auto& u : us) u.score = top + 0.000000001;
    }
    us.insert(us.end(), gs.begin(), gs.end());
    return us;
  }
  std::vector<Uni> ranked(const std::string& key) const {
    auto v = get(key);
    std::stable_sort(v.begin(), v.end(), [](const Uni& a, const Uni& b) { return a.score > b.score; });
    return v;
  }
};

// The entries of a user data file.
struct Parsed {
  std::vector<std::pair<std::string, std::string>> pairs;
  bool error = false;
};
inline Parsed refParse(const std::string& blob) {
  Parsed p;
  std::string d = blob.substr(0, blob.find('\0'));
  size_t i = 0;
  while (i < d.size()) {
    size_t e = d.find_first_of("\r\n", i);
    if (e == std::string::npos) e = d.size();
    std::string line = d.substr(i, e - i);
    i = e + 1;
    size_t a = line.find_first_not_of(" \t");
    if (a == std::string::npos || line[a] == '#') continue;
    size_t b = line.find_first_of(" \t", a);
    size_t v = b == std::string::npos ? b : line.find_first_not_of(" \t", b);
    if (v == std::string::npos) { p.error = true; return p; }
    size_t ve = line.find_first_of(" \t", v);
    if (ve == std::string::npos) ve = line.size();
    p.pairs.push_back({line.substr(a, b - a), line.substr(v, ve - v)});
  }
  return p;
}

}  // namespace ref
#endif
