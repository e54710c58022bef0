// G01, G02, G03: the reading grid (segmentation engine).
#include <algorithm>
#include <memory>
#include <set>

#include "Engine/gramambular2/reading_grid.h"
#include "pbt.h"
#include <cmath>
#include "ref_grid.h"

using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using pbt::Ctx;
using pbt::Source;

namespace {

struct GenLM : public LanguageModel {
  std::map<std::string, std::vector<ref::Uni>> raw;     // in model order
  std::map<std::string, std::vector<ref::Uni>> ranked;  // by score
  std::vector<std::string> alphabet;                    // known readings
  std::vector<std::string> unknown;

  std::vector<Unigram> getUnigrams(const std::string& r) override {
    std::vector<Unigram> out;
    auto it = raw.find(r);
    if (it != raw.end())
      for (auto& u : it->second) out.emplace_back(u.value, u.score);
    return out;
  }
  bool hasUnigrams(const std::string& r) override { return raw.count(r) > 0; }
  void rank() {
    ranked = raw;
    for (auto& [k, v] : ranked)
      std::stable_sort(v.begin(), v.end(),
                       [](const ref::Uni& a, const ref::Uni& b) { return a.score > b.score; });
  }
  const std::vector<ref::Uni>& get(const std::string& r) const {
    static const std::vector<ref::Uni> kNone;
    auto it = ranked.find(r);
    return it == ranked.end() ? kNone : it->second;
  }
};

const char* const kReadings[] = {"ㄇㄚ", "ㄐㄧˋ", "ㄍㄨㄥ", "ㄙ", "ㄉㄜ˙", "ㄋㄧㄢˊ", "ㄓㄨㄥ", "ㄐㄧㄤˇ"};

double genScore(Source& s, double lo, double hi) {
  // A mixture: a coarse lattice (ties happen) and fine values (ties do not).
  if (s.chance(1, 6)) return -static_cast<double>(s.below(static_cast<uint64_t>(-lo) + 1));
  double f = static_cast<double>(s.below(1000003)) / 1000003.0;
  // Like the real data, scores have a fixed number of decimals, so that sums
  // that are not equal differ by more than rounding errors.
  return std::round((hi - (hi - lo) * f) * 1e8) / 1e8;
}

std::shared_ptr<GenLM> genLM(Source& s, const std::string& sep, double lo, double hi) {
  auto lm = std::make_shared<GenLM>();
  size_t n = 1 + s.below(8);
  int valueNo = 0;
  auto values = [&](size_t len, size_t k) {
    std::vector<ref::Uni> us;
    for (size_t i = 0; i < k; ++i) {
      std::string v;
      // Values mostly have one character per reading, as in the real data.
      size_t chars = s.chance(1, 10) ? 1 + s.below(7) : len;
      for (size_t c = 0; c < chars; ++c) {
        static const char* const kChars[] = {"一", "丁", "七", "丈", "三", "上", "下", "不", "且", "丕", "世", "丙"};
        v += kChars[(valueNo++ + s.below(4)) % 12];
      }
      us.push_back({v, genScore(s, lo, hi)});
    }
    // Remove duplicate values: the real model never offers a word twice.
    std::vector<ref::Uni> out;
    std::set<std::string> seen;
    for (auto& u : us)
      if (seen.insert(u.value).second) out.push_back(u);
    return out;
  };
  for (size_t i = 0; i < n; ++i) {
    lm->alphabet.push_back(kReadings[i]);
    lm->raw[kReadings[i]] = values(1, 1 + s.below(4));
  }
  if (s.chance(1, 25)) {  // a crowded reading
    auto& us = lm->raw[kReadings[s.below(n)]];
    size_t k = 10 + s.below(200);
    for (size_t i = 0; i < k; ++i) us.push_back({"字" + std::to_string(i), genScore(s, lo, hi)});
  }
  lm->unknown = {"ㄨㄨ", "", sep};
  size_t phrases = s.below(40);
  for (size_t p = 0; p < phrases; ++p) {
    static const std::vector<int> kLenW{10, 8, 6, 5, 5, 2};
    size_t len = 2 + s.weighted(kLenW);  // up to 7: one more than a segment can span
    std::string r;
    for (size_t i = 0; i < len; ++i) {
      if (i) r += sep;
      r += lm->alphabet[s.below(n)];
    }
    if (lm->raw.count(r)) continue;
    lm->raw[r] = values(len, 1 + s.below(3));
    if (s.chance(1, 4)) {
      // Close competition between the phrase and its single readings.
      double sum = 0;
      size_t b = 0;
      while (b <= r.size() && !sep.empty()) {
        size_t e = r.find(sep, b);
        if (e == std::string::npos) e = r.size();
        double top = -1e9;
        for (auto& u : lm->raw[r.substr(b, e - b)]) top = std::max(top, u.score);
        sum += top;
        b = e + sep.size();
      }
      if (!sep.empty() && sum - 2.5 >= lo && sum + 0.3 <= hi) {  // stay in range
        static const double kDelta[] = {1e-9, 1e-8, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 0.3};
        double d = kDelta[s.below(8)] * (s.coin() ? 1 : -1);
        for (auto& u : lm->raw[r]) u.score = sum + d - (&u - lm->raw[r].data());
      }
    }
  }
  lm->rank();
  return lm;
}

void logLM(Ctx& c, const GenLM& lm) {
  if (!c.tracing) return;
  for (auto& [k, v] : lm.raw) {
    std::string o;
    for (auto& u : v) o += " " + u.value + ":" + std::to_string(u.score);
    c.log("lm ", k, " =", o);
  }
}

ref::Grid makeRef(const std::shared_ptr<GenLM>& lm, const std::string& sep) {
  ref::Grid g;
  g.lm = [lm](const std::string& r) -> const std::vector<ref::Uni>& { return lm->get(r); };
  g.sep = sep;
  return g;
}

std::string walkText(const ReadingGrid::WalkResult& w) {
  std::string o;
  for (auto& n : w.nodes) o += "[" + n->reading() + "=" + n->value() + "]";
  return o;
}

// Validity of the conversion as such; independent of any edit model: only the
// grid's own readings, nodes and the language model are consulted.
double checkWalkValid(ReadingGrid& g, const GenLM& lm, const std::string& sep,
                      const ReadingGrid::WalkResult& w) {
  const auto& rd = g.readings();
  if (rd.empty()) {
    PBT_CHECK(w.nodes.empty() && w.totalReadings == 0, "walk-empty", "conversion of nothing is ", walkText(w));
    return 0;
  }
  size_t pos = 0;
  double total = 0;
  for (auto& n : w.nodes) {
    size_t len = n->spanningLength();
    PBT_CHECK(len >= 1 && len <= 6 && pos + len <= rd.size(), "walk-cover", "segment of length ", len, " at ", pos, " of ", rd.size());
    std::string j;
    for (size_t i = 0; i < len; ++i) j += (i ? sep : "") + rd[pos + i];
    PBT_CHECK(j == n->reading(), "walk-reading", "segment reading ", n->reading(), " but spans ", j);
    const auto& us = lm.get(j);
    bool offered = false;
    for (auto& u : us)
      if (u.value == n->value()) offered = true;
    PBT_CHECK(offered, "walk-value", "value ", n->value(), " is not offered for ", j);
    if (!n->isOverridden()) {
      PBT_CHECK(n->value() == us[0].value, "walk-top", "unpinned segment ", j, " shows ", n->value(), " rather than ", us[0].value);
      PBT_CHECK(std::abs(n->score() - us[0].score) < 1e-12, "walk-score", "unpinned segment score ", n->score());
    }
    total += n->score();
    pos += len;
  }
  PBT_CHECK(pos == rd.size(), "walk-cover", "conversion covers ", pos, " of ", rd.size(), " readings");
  PBT_CHECK(w.totalReadings == rd.size(), "walk-cover", "totalReadings ", w.totalReadings, " of ", rd.size());
  return total;
}

// All segments the model offers must be there, and no others.
void checkNodes(ReadingGrid& g, const GenLM& lm, const std::string& sep) {
  const auto& rd = g.readings();
  PBT_CHECK(g.spans().size() == rd.size(), "spans", "spans ", g.spans().size(), " readings ", rd.size());
  for (size_t p = 0; p < rd.size(); ++p)
    for (size_t len = 1; len <= 6; ++len) {
      auto n = g.spans()[p].nodeOf(len);
      std::string j;
      if (p + len <= rd.size())
        for (size_t i = 0; i < len; ++i) j += (i ? sep : "") + rd[p + i];
      bool want = p + len <= rd.size() && !lm.get(j).empty();
      PBT_CHECK((n != nullptr) == want, "segments", "position ", p, " length ", len, want ? " misses " : " has stale ", want ? j : n->reading());
      if (n) PBT_CHECK(n->reading() == j, "segments", "position ", p, " length ", len, " is ", n->reading(), " want ", j);
    }
}

double bestBySpans(ReadingGrid& g) {
  size_t n = g.readings().size();
  const double kNeg = -1e300;
  std::vector<double> best(n + 1, kNeg);
  best[0] = 0;
  for (size_t p = 0; p < n; ++p)
    for (size_t len = 1; len <= 6 && p + len <= n; ++len) {
      auto node = g.spans()[p].nodeOf(len);
      if (node && best[p] > kNeg) best[p + len] = std::max(best[p + len], best[p] + node->score());
    }
  return best[n];
}

struct Machine {
  Source& s;
  Ctx& c;
  std::shared_ptr<GenLM> lm;
  std::string sep;
  ReadingGrid g;
  ref::Grid m;
  bool withPins, bulk = false;
  size_t midEdits = 0, pins = 0, deletions = 0;

  Machine(Source& src, Ctx& ctx, bool pinsOn, double lo, double hi)
      : s(src), c(ctx), lm(), sep(src.chance(1, 8) ? (src.coin() ? "_" : "") : "-"),
        g((lm = genLM(src, sep, lo, hi))), withPins(pinsOn) {
    g.setReadingSeparator(sep);
    m = makeRef(lm, sep);
    logLM(c, *lm);
  }

  void expectSameShape(const std::string& op) {
    PBT_CHECK(g.length() == m.readings.size(), "length", op, ": length ", g.length(), " want ", m.readings.size());
    PBT_CHECK(g.cursor() == m.cursor, "cursor", op, ": cursor ", g.cursor(), " want ", m.cursor);
    PBT_CHECK(g.readings() == m.readings, "readings", op, ": readings differ");
  }

  void step() {
    std::vector<int> w = {30, 4, 8, 8, 12, withPins ? 16 : 0, withPins ? 4 : 0, withPins ? 4 : 0, 1, bulk ? 0 : 1};
    size_t op = s.weighted(w);
    std::string name;
    switch (op) {
      case 0: {
        std::string r = s.pick(lm->alphabet);
        if (m.cursor < m.readings.size()) ++midEdits;
        bool a = g.insertReading(r), b = m.insert(r);
        name = "insert " + r;
        c.log(name, " at ", m.cursor - (b ? 1 : 0));
        PBT_CHECK(a == b, "op-result", name, " returned ", a);
        break;
      }
      case 1: {
        std::string r = s.pick(lm->unknown);
        // A joined reading is a legal key of the model but then also a single
        // reading of the grid.
        if (s.chance(1, 4)) r = "ㄆㄆ" + sep + "ㄆ";
        name = "insert-unknown " + r;
        c.log(name);
        if (!lm->get(r).empty()) break;
        PBT_CHECK(!g.insertReading(r), "op-result", name, " was accepted");
        break;
      }
      case 2: {
        if (m.cursor < m.readings.size()) ++midEdits;
        bool a = g.deleteReadingBeforeCursor(), b = m.backspace();
        name = "backspace";
        deletions += b;
        c.log(name, " cursor now ", m.cursor);
        PBT_CHECK(a == b, "op-result", name, " returned ", a);
        break;
      }
      case 3: {
        bool a = g.deleteReadingAfterCursor(), b = m.del();
        name = "delete";
        deletions += b;
        midEdits += b;
        c.log(name, " cursor now ", m.cursor);
        PBT_CHECK(a == b, "op-result", name, " returned ", a);
        break;
      }
      case 4: {
        size_t p = s.below(m.readings.size() + 1);
        g.setCursor(p);
        m.cursor = p;
        name = "cursor";
        c.log(name, " ", p);
        break;
      }
      case 5: {  // choose one of the offered candidates
        if (m.readings.empty()) return;
        size_t loc = s.below(m.readings.size() + 1);
        auto cs = m.candidates(loc);
        auto& cd = cs[s.below(cs.size())];
        auto t = s.chance(1, 5) ? ref::Grid::kTop : ref::Grid::kHigh;
        name = pbt::cat("choose ", cd.reading, "=", cd.value, " at ", loc, t == ref::Grid::kTop ? " (top score)" : "");
        c.log(name);
        bool b = m.choose(loc, &cd.reading, cd.value, t);
        bool a = g.overrideCandidate(loc, ReadingGrid::Candidate(cd.reading, cd.value), conv(t));
        ++pins;
        PBT_CHECK(a && b, "choose-offered", name, " was rejected");
        break;
      }
      case 6: {  // choose by value only
        if (m.readings.empty()) return;
        size_t loc = s.below(m.readings.size() + 1);
        auto cs = m.candidates(loc);
        auto& cd = cs[s.below(cs.size())];
        name = pbt::cat("choose value ", cd.value, " at ", loc);
        c.log(name);
        std::pair<size_t, size_t> where;
        bool b = m.choose(loc, nullptr, cd.value, ref::Grid::kHigh, &where);
        bool a = g.overrideCandidate(loc, cd.value);
        ++pins;
        PBT_CHECK(a && b, "choose-offered", name, " was rejected");
        break;
      }
      case 7: {  // choose something that is not offered there
        size_t loc = s.below(m.readings.size() + 3);
        std::string v = s.coin() ? "沒有" : "一";
        std::string r = s.pick(lm->alphabet);
        bool offered = false;
        if (loc <= m.readings.size())
          for (auto& cd : m.candidates(loc)) offered |= cd.reading == r && cd.value == v;
        if (offered) break;
        name = pbt::cat("choose-unoffered ", r, "=", v, " at ", loc);
        c.log(name);
        PBT_CHECK(!g.overrideCandidate(loc, ReadingGrid::Candidate(r, v)), "choose-unoffered", name, " was accepted");
        break;
      }
      case 8:
        g.clear();
        m.clear();
        name = "clear";
        c.log(name);
        break;
      case 9: {  // a long text
        if (!s.chance(1, 40)) break;
        bulk = true;
        size_t k = 60 + s.below(200);
        for (size_t i = 0; i < k; ++i) {
          std::string r = s.pick(lm->alphabet);
          bool a = g.insertReading(r), b = m.insert(r);
          PBT_CHECK(a == b, "op-result", "insert ", r, " returned ", a);
        }
        name = pbt::cat("insert ", k, " readings");
        c.log(name);
        c.label("long text");
        break;
      }
    }
    c.mix(op * 1000 + m.readings.size());
    expectSameShape(name);
  }
  static ReadingGrid::Node::OverrideType conv(ref::Grid::Type t) {
    return t == ref::Grid::kHigh ? ReadingGrid::Node::OverrideType::kOverrideValueWithHighScore
                                 : ReadingGrid::Node::OverrideType::kOverrideValueWithScoreFromTopUnigram;
  }
};

// --------------------------------------------------------------------- G01
void propG01(Source& s, Ctx& c) {
  Machine m(s, c, s.coin(), -14, s.chance(1, 10) ? 2.0 : 0.0);
  size_t n = 0;
  size_t avg = s.chance(1, 5) ? 60 : 16;
  while (s.more(n, avg, 150)) {
    ++n;
    m.step();
    auto w = m.g.walk();
    double total = checkWalkValid(m.g, *m.lm, m.sep, w);
    checkNodes(m.g, *m.lm, m.sep);
    if (m.g.readings().empty()) continue;
    double best = bestBySpans(m.g);
    PBT_CHECK(total > best - 2e-10, "walk-best", "score ", total, " best ", best, " ", walkText(w));
    // Looking up the segment at a position.
    for (size_t p = 0; p <= m.g.length(); ++p) {
      size_t past = 12345;
      auto it = w.findNodeAt(p, &past);
      size_t acc = 0, q = p == m.g.length() ? p - 1 : p;
      for (auto i = w.nodes.cbegin(); i != w.nodes.cend(); ++i) {
        acc += (*i)->spanningLength();
        if (acc > q) {
          PBT_CHECK(it == i && past == acc, "find-node", "segment at ", p, " of ", walkText(w), " past=", past, " want ", acc);
          break;
        }
      }
    }
    PBT_CHECK(w.findNodeAt(m.g.length() + 1) == w.nodes.cend(), "find-node", "a segment past the end");
    if (w.nodes.size() >= 2 && w.nodes.size() < m.g.length()) {
      c.interesting();
      c.mix(walkText(w));
    }
    if (m.pins) c.label("steps with pins");
    c.label("steps");
  }
}

// --------------------------------------------------------------------- G02
std::multiset<std::string> candSet(const std::vector<ReadingGrid::Candidate>& cs) {
  std::multiset<std::string> o;
  for (auto& x : cs) o.insert(x.reading + "=" + x.value);
  return o;
}

void propG02(Source& s, Ctx& c) {
  Machine m(s, c, false, -14, 0);
  size_t n = 0;
  size_t avg = s.chance(1, 5) ? 50 : 20;
  while (s.more(n, avg, 120)) {
    ++n;
    auto before = m.g.walk().valuesAsStrings();
    (void)before;
    m.step();
    ReadingGrid fresh(m.lm);
    fresh.setReadingSeparator(m.sep);
    for (auto& r : m.m.readings) PBT_CHECK(fresh.insertReading(r), "retype", "retyping ", r, " failed");
    for (size_t p = 0; p <= m.g.length(); ++p) {
      auto a = m.g.candidatesAt(p), b = fresh.candidatesAt(p);
      PBT_CHECK(candSet(a) == candSet(b), "retype-candidates", "candidates at ", p, " differ from retyping: ", a.size(), " vs ", b.size());
    }
    for (size_t p = 0; p < m.g.length(); ++p)
      for (size_t len = 1; len <= 6; ++len) {
        auto a = m.g.spans()[p].nodeOf(len), b = fresh.spans()[p].nodeOf(len);
        PBT_CHECK((a == nullptr) == (b == nullptr) && (!a || a->reading() == b->reading()), "retype-segments", "segment at ", p, " length ", len, " differs from retyping");
      }
    auto w1 = m.g.walk(), w2 = fresh.walk();
    auto rw = m.m.walk();
    auto score = [](const ReadingGrid::WalkResult& w) { double t = 0; for (auto& x : w.nodes) t += x->score(); return t; };
    PBT_CHECK(std::abs(score(w1) - score(w2)) < 2e-10, "retype-score", "score ", score(w1), " retyped ", score(w2));
    PBT_CHECK(std::abs(score(w1) - rw.score) < 2e-10, "model-score", "score ", score(w1), " model ", rw.score);
    if (rw.unique) {
      PBT_CHECK(w1.valuesAsStrings() == w2.valuesAsStrings(), "retype-text", walkText(w1), " retyped ", walkText(w2));
      std::string t;
      for (auto& v : w1.valuesAsStrings()) t += v;
      PBT_CHECK(t == rw.text(), "model-text", walkText(w1), " model ", rw.text());
    } else {
      c.label("tied conversions");
    }
    c.label("steps");
  }
  if (m.midEdits >= 2 && m.deletions >= 1 && m.g.length() >= 2) c.interesting();
}

// --------------------------------------------------------------------- G03
void checkCandidates(Machine& m) {
  for (size_t p = 0; p <= m.g.length(); ++p) {
    auto a = m.g.candidatesAt(p);
    auto b = m.m.candidates(p);
    PBT_CHECK(a.size() == b.size(), "candidates", "at ", p, ": ", a.size(), " offered, ", b.size(), " expected");
    // Longer readings first; equal lengths may come in any order of segments,
    // but a segment's words keep the model's ranking.
    auto len = [&](const std::string& r) {
      for (auto& x : b)
        if (x.reading == r) return x.len;
      return static_cast<size_t>(0);
    };
    std::multiset<std::string> sa, sb;
    size_t prev = 99;
    for (auto& x : a) {
      sa.insert(x.reading + "=" + x.value);
      size_t l = len(x.reading);
      if (m.sep == "-") PBT_CHECK(l <= prev, "candidate-order", "at ", p, ": a longer reading ", x.reading, " after a shorter one");
      prev = l;
    }
    for (auto& x : b) sb.insert(x.reading + "=" + x.value);
    PBT_CHECK(sa == sb, "candidates", "at ", p, ": the offered set differs");
    // Rank order within one segment: walk the list, consuming whole unigram lists.
    for (size_t i = 0; i < a.size();) {
      const auto& us = m.lm->get(a[i].reading);
      for (size_t k = 0; k < us.size(); ++k, ++i)
        PBT_CHECK(i < a.size() && a[i].value == us[k].value, "candidate-order", "at ", p, ": words of one reading are not in rank order");
    }
  }
  PBT_CHECK(m.g.candidatesAt(m.g.length() + 1).empty(), "candidates", "words offered past the end");
}

void propG03(Source& s, Ctx& c) {
  // Scores in [-8, 0]: the range the shipped data uses for words that compete.
  Machine m(s, c, true, -8, 0);
  size_t n = 0;
  size_t survived = 0;
  size_t avg = s.chance(1, 5) ? 50 : 18;
  while (s.more(n, avg, 120)) {
    ++n;
    auto pinsBefore = m.m.pins;
    m.step();
    checkCandidates(m);
    auto w = m.g.walk();
    auto rw = m.m.walk();
    // Every live choice is pinned in the grid with its word...
    for (auto& [k, v] : m.m.pins) {
      auto node = m.g.spans()[k.first].nodeOf(k.second);
      PBT_CHECK(node && node->isOverridden() && node->value() == v.value, "choice-kept",
                "the choice ", v.value, " for readings [", k.first, ",", k.first + k.second, ") was lost");
      if (pinsBefore.count(k) && m.pins > 1) ++survived;
    }
    // ... and nothing else is.
    for (size_t p = 0; p < m.g.length(); ++p)
      for (size_t len = 1; len <= 6; ++len) {
        auto node = m.g.spans()[p].nodeOf(len);
        if (node && node->isOverridden())
          PBT_CHECK(m.m.pins.count({p, len}), "choice-dropped", "segment ", node->reading(), " at ", p, " is still pinned to ", node->value());
      }
    // A full-strength choice is shown.
    size_t pos = 0;
    std::map<std::pair<size_t, size_t>, std::string> shown;
    for (auto& node : w.nodes) {
      shown[{pos, node->spanningLength()}] = node->value();
      pos += node->spanningLength();
    }
    for (auto& [k, v] : m.m.pins) {
      if (v.type != ref::Grid::kHigh) continue;
      auto it = shown.find(k);
      PBT_CHECK(it != shown.end() && it->second == v.value, "choice-shown", "the choice ", v.value, " for readings [", k.first, ",", k.first + k.second, ") is not shown: ", walkText(w));
    }
    double total = 0;
    for (auto& node : w.nodes) total += node->score();
    PBT_CHECK(std::abs(total - rw.score) < 2e-10, "choice-score", "score ", total, " model ", rw.score, " ", walkText(w));
    if (rw.unique) {
      std::string t;
      for (auto& v : w.valuesAsStrings()) t += v;
      PBT_CHECK(t == rw.text(), "choice-text", walkText(w), " model ", rw.text());
    }
    c.label("steps");
    if (m.m.pins.size() >= 2) c.label("steps with two or more choices");
  }
  if (survived >= 1 && m.pins >= 2) c.interesting();
}

}  // namespace

namespace pbt {
const std::vector<Property> kProperties = {
    {"G01",
     "a case is a random language model (1-8 readings, up to 40 phrases of 2-7 readings, tied and untied scores, three separators) and a history of up to 150 inserts, deletes, cursor moves and choices; after each step the conversion is validated and compared with an independent dynamic program; non-trivial when some conversion mixes multi-reading and several segments",
     propG01, 50000, 400000},
    {"G02",
     "as G01 without choices; after each step every candidate list, segment and the conversion are compared with a fresh grid into which the resulting readings are typed, and with a reference model; non-trivial when there were at least two mid-buffer edits and a deletion and two readings remain",
     propG02, 16000, 240000},
    {"G03",
     "as G01 with choices (by word and reading, by word, full strength and top score, offered and not offered) and scores in [-8,0]; after each step candidate lists, the set of live choices and the shown text are compared with a reference model of choices; non-trivial when at least two choices were made and one survived a later step",
     propG03, 24000, 400000},
};
}
