// Reference model of the reading grid, written from its documented behaviour:
// a plain list of readings plus a map of pinned segments; everything else is
// recomputed from the language model each time.
#ifndef VERIF_REF_GRID_H_
#define VERIF_REF_GRID_H_
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace ref {

struct Uni {
  std::string value;
  double score;
};

struct Grid {
  static constexpr size_t kMax = 6;
  enum Type { kHigh, kTop };
  struct Pin {
    std::string value;
    Type type;
  };
  struct Seg {
    size_t start, len;
    std::string reading, value;
    bool pinned;
    double score;
  };
  struct Walk {
    std::vector<Seg> segs;
    double score = 0;
    bool unique = true;
    size_t total() const { return segs.empty() ? 0 : segs.back().start + segs.back().len; }
    // The segment that is considered "at" a reading position, and the position
    // past it.
    const Seg* at(size_t cursor, size_t* past = nullptr) const {
      if (segs.empty() || cursor > total()) return nullptr;
      if (cursor == total()) cursor = total() - 1;
      for (auto& s : segs)
        if (cursor < s.start + s.len) {
          if (past) *past = s.start + s.len;
          return &s;
        }
      return nullptr;
    }
    std::string text() const {
      std::string o;
      for (auto& s : segs) o += s.value;
      return o;
    }
  };

  // Ranked (by score, stable) unigrams of a joined reading.
  std::function<const std::vector<Uni>&(const std::string&)> lm;
  std::string sep = "-";
  std::vector<std::string> readings;
  size_t cursor = 0;
  std::map<std::pair<size_t, size_t>, Pin> pins;

  void clear() {
    readings.clear();
    pins.clear();
    cursor = 0;
  }
  std::string join(size_t s, size_t n) const {
    std::string o;
    for (size_t i = 0; i < n; ++i) {
      if (i) o += sep;
      o += readings[s + i];
    }
    return o;
  }
  bool insert(const std::string& r) {
    if (r.empty() || r == sep || lm(r).empty()) return false;
    std::map<std::pair<size_t, size_t>, Pin> np;
    for (auto& [k, v] : pins) {
      if (k.first >= cursor) np[{k.first + 1, k.second}] = v;
      else if (k.first + k.second <= cursor) np[k] = v;
    }
    pins = np;
    readings.insert(readings.begin() + cursor, r);
    ++cursor;
    return true;
  }
  void removeAt(size_t d) {
    std::map<std::pair<size_t, size_t>, Pin> np;
    for (auto& [k, v] : pins) {
      if (k.first > d) np[{k.first - 1, k.second}] = v;
      else if (k.first + k.second <= d) np[k] = v;
    }
    pins = np;
    readings.erase(readings.begin() + d);
  }
  bool backspace() {
    if (cursor == 0) return false;
    --cursor;
    removeAt(cursor);
    return true;
  }
  bool del() {
    if (cursor == readings.size()) return false;
    removeAt(cursor);
    return true;
  }

  struct Cand {
    std::string reading, value;
    size_t start, len;
  };
  // Candidates at a position: longest segments first; among segments of the
  // same length the one starting at the position, then from the left.
  std::vector<Cand> candidates(size_t loc) const {
    std::vector<Cand> out;
    if (readings.empty() || loc > readings.size()) return out;
    if (loc == readings.size()) --loc;
    for (size_t len = kMax; len >= 1; --len) {
      std::vector<size_t> starts;
      if (loc + len <= readings.size()) starts.push_back(loc);
      for (size_t s = loc >= len - 1 ? loc - (len - 1) : 0; s < loc; ++s)
        if (s + len <= readings.size()) starts.push_back(s);
      for (size_t s : starts) {
        std::string r = join(s, len);
        for (auto& u : lm(r)) out.push_back({r, u.value, s, len});
      }
    }
    return out;
  }
  // Order in which segments are considered when a candidate is chosen: those
  // starting at the position (short to long), then from the left.
  bool choose(size_t loc, const std::string* reading, const std::string& value, Type t,
              std::pair<size_t, size_t>* where = nullptr) {
    if (readings.empty() || loc > readings.size()) return false;
    if (loc == readings.size()) --loc;
    std::vector<std::pair<size_t, size_t>> order;
    for (size_t len = 1; len <= kMax && loc + len <= readings.size(); ++len)
      order.push_back({loc, len});
    for (size_t s = loc >= kMax - 1 ? loc - (kMax - 1) : 0; s < loc; ++s)
      for (size_t len = loc - s + 1; len <= kMax && s + len <= readings.size(); ++len)
        order.push_back({s, len});
    for (auto& k : order) {
      std::string r = join(k.first, k.second);
      if (reading && r != *reading) continue;
      bool has = false;
      for (auto& u : lm(r)) has |= u.value == value;
      if (!has) continue;
      for (auto it = pins.begin(); it != pins.end();) {
        bool overlap = it->first.first < k.first + k.second &&
                       k.first < it->first.first + it->first.second;
        if (overlap) it = pins.erase(it);
        else ++it;
      }
      pins[k] = Pin{value, t};
      if (where) *where = k;
      return true;
    }
    return false;
  }
  double segScore(size_t s, size_t n, const std::vector<Uni>& us, bool* pinned = nullptr,
                  std::string* value = nullptr) const {
    auto it = pins.find({s, n});
    if (pinned) *pinned = it != pins.end();
    if (it != pins.end()) {
      if (value) *value = it->second.value;
      return it->second.type == kHigh ? 42.0 : us[0].score;
    }
    if (value) *value = us[0].value;
    return us[0].score;
  }
  Walk walk() const {
    Walk w;
    size_t n = readings.size();
    if (n == 0) return w;
    struct Entry { double score; size_t prevPos; int prevRank; size_t len; };
    std::vector<std::vector<Entry>> best(n + 1);  // two best paths per position
    best[0].push_back({0, 0, -1, 0});
    for (size_t i = 1; i <= n; ++i) {
      std::vector<Entry> all;
      for (size_t len = 1; len <= kMax && len <= i; ++len) {
        size_t s = i - len;
        if (best[s].empty()) continue;
        const auto& us = lm(join(s, len));
        if (us.empty()) continue;
        double sc = segScore(s, len, us);
        for (int r = 0; r < static_cast<int>(best[s].size()); ++r)
          all.push_back({best[s][r].score + sc, s, r, len});
      }
      std::stable_sort(all.begin(), all.end(),
                       [](const Entry& a, const Entry& b) { return a.score > b.score; });
      if (all.size() > 2) all.resize(2);
      best[i] = all;
    }
    if (best[n].empty()) return w;
    w.score = best[n][0].score;
    w.unique = best[n].size() < 2 || best[n][0].score - best[n][1].score > 4e-10;
    size_t pos = n;
    int rank = 0;
    std::vector<Seg> rev;
    while (pos > 0) {
      const Entry& e = best[pos][rank];
      Seg sg;
      sg.start = e.prevPos;
      sg.len = e.len;
      sg.reading = join(sg.start, sg.len);
      sg.score = segScore(sg.start, sg.len, lm(sg.reading), &sg.pinned, &sg.value);
      rev.push_back(sg);
      rank = e.prevRank;
      pos = e.prevPos;
    }
    w.segs.assign(rev.rbegin(), rev.rend());
    return w;
  }
};

}  // namespace ref
#endif
