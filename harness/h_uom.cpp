// O01: what was learned from the user's choices.
#include <cmath>
#include <list>
#include <map>
#include <memory>

#include "Engine/UserOverrideModel.h"
#include "Engine/gramambular2/reading_grid.h"
#include "pbt.h"
#include "ref_uom.h"

using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using McBopomofo::UserOverrideModel;
using pbt::Ctx;
using pbt::Source;
using Node = ReadingGrid::Node;

namespace {

struct Word {  // one segment of a conversion, described independently
  std::string reading;
  size_t span = 1;
  std::vector<std::string> values;
  size_t chosen = 0;
  bool punct() const { return reading[0] == '_'; }
  const std::string& shown() const { return values[chosen]; }
};
typedef std::vector<Word> Walk;

ReadingGrid::WalkResult real(const Walk& w) {
  ReadingGrid::WalkResult r;
  for (const Word& x : w) {
    std::vector<LanguageModel::Unigram> u;
    double sc = -1;
    for (auto& v : x.values) u.emplace_back(v, sc -= 1);
    auto n = std::make_shared<Node>(x.reading, x.span, u);
    if (x.chosen) n->selectOverrideUnigram(x.values[x.chosen], x.chosen % 2 ? Node::OverrideType::kOverrideValueWithHighScore : Node::OverrideType::kOverrideValueWithScoreFromTopUnigram);
    r.nodes.push_back(n);
    r.totalReadings += x.span;
  }
  return r;
}

// Index of the word at a cursor (the last one at the end), and where it ends.
size_t at(const Walk& w, size_t cursor, size_t* past) {
  size_t pos = 0;
  for (size_t i = 0; i < w.size(); ++i) {
    pos += w[i].span;
    if (cursor < pos || i + 1 == w.size()) {
      *past = pos;
      return i;
    }
  }
  abort();
}

using ref::Context;
typedef ref::Learned Model;

Context contextOf(const Walk& w, size_t i) {
  Context k = {w[i].reading, w[i].values[0]};
  if (i >= 1 && !w[i - 1].punct()) {
    k.push_back(w[i - 1].reading);
    k.push_back(w[i - 1].shown());
    if (i >= 2 && !w[i - 2].punct()) {
      k.push_back(w[i - 2].reading);
      k.push_back(w[i - 2].shown());
    }
  }
  return k;
}

const std::vector<std::string> kSylls = {"a1", "b2", "c3"};

Word genWord(Source& s, size_t maxSpan) {
  Word w;
  if (s.chance(1, 8)) {
    w.reading = s.coin() ? "_punctuation_<" : "_letter_A";
    w.values = {s.coin() ? "，" : "A"};
    if (s.chance(1, 4)) w.values.push_back("；");
    return w;
  }
  size_t m = std::min<size_t>(maxSpan, 6);
  w.span = 1 + (m > 1 && s.chance(2, 5) ? s.below(m) : 0);
  for (size_t i = 0; i < w.span; ++i) {
    if (i) w.reading += "-";
    w.reading += s.pick(kSylls);
  }
  // the words of a reading are the same wherever it occurs
  size_t h = std::hash<std::string>{}(w.reading);
  size_t n = 1 + h % 3;
  for (size_t i = 0; i < n; ++i) w.values.push_back(w.reading + "=" + std::string(1, static_cast<char>('P' + i)));
  if (s.chance(1, 4)) w.chosen = s.below(n);
  return w;
}
Walk genWalk(Source& s, size_t total) {
  Walk w;
  size_t n = 0;
  while (n < total) {
    w.push_back(genWord(s, total - n));
    n += w.back().span;
  }
  return w;
}
std::string showWalk(const Walk& w) {
  std::string o;
  for (auto& x : w) o += "[" + x.shown() + "]";
  return o;
}

void o01(Source& s, Ctx& c) {
  Model m;
  m.capacity = s.chance(1, 6) ? 500 : 1 + s.below(5);
  const std::vector<double> halves = {5400.0, 1.0, 60.0};
  m.half = s.pick(halves);
  UserOverrideModel u(m.capacity, m.half);
  double now = s.coin() ? 1657772432.0 : 0.0;
  c.log("capacity ", m.capacity, ", half-life ", m.half);
  std::vector<std::pair<Walk, size_t>> seen;  // contexts worth asking about again
  size_t steps = 0, others = 0;
  bool sawSuggestion = false, sawRivals = false, sawFaded = false;
  auto ask = [&](const Context& k, const std::string& what, const UserOverrideModel::Suggestion& got, double t) {
    bool faded, rivals;
    auto ok = m.suggest(k, t, &faded, &rivals);
    bool match = false;
    for (auto& o : ok) match |= o.candidate == got.candidate && o.force == got.forceHighScoreOverride;
    PBT_CHECK(got.empty() == got.candidate.empty(), "empty", "empty() disagrees with the candidate");
    PBT_CHECK(match, "suggestion", what, " suggests '", got.candidate, "' (forced ", got.forceHighScoreOverride, ") instead of '", ok.empty() ? "" : ok[0].candidate, "' (forced ", ok.empty() ? false : ok[0].force, ")");
    sawSuggestion |= !got.empty();
    sawRivals |= rivals && !got.empty();
    sawFaded |= faded;
  };
  while (s.more(steps, 14, 60)) {
    ++steps;
    // time passes
    switch (s.weighted({4, 4, 2, 1, 1})) {
      case 0: break;
      case 1: now += m.half * static_cast<double>(s.below(200)) / 100.0; break;
      case 2: now += m.half * static_cast<double>(s.below(12)); break;
      case 3: now += m.half * (19 + static_cast<double>(s.below(300)) / 100.0); break;
      case 4: now += 0.001; break;
    }
    switch (s.weighted({50, 50, 20, 20, 1})) {
      case 4: {  // many other choices
        if (s.chance(1, 3)) {  // two words in one context, both many times
          std::string n = "key" + std::to_string(s.below(4));
          const size_t a = 1 + s.below(700), b = 1 + s.below(700);
          const double later = m.half * static_cast<double>(s.below(30)) / 100.0;
          const bool swap = s.coin();
          c.log("observe two words in ", n, ", ", a, " times at ", now, " and ", b, " times ", later, " s later");
          for (size_t i = 0; i < a + b; ++i) {
            if (i == a) now += later;
            std::string v = (i < a) == swap ? "v0" : "v1";
            u.observe(n, v, now, i % 2);
            m.observe({n}, v, now, i % 2);
          }
          ask({n}, n, u.suggest(n, now), now);
          ask({n}, n, u.suggest(n, now + m.half), now + m.half);
          c.label("many times");
          break;
        }
        if (s.chance(1, 3)) {  // many words in one context, some of them many times
          std::string n = "key" + std::to_string(s.below(4));
          size_t k = 5 + s.below(60), times = s.coin() ? 1 : 1 + s.below(400);
          c.log("observe ", k, " words in ", n, ", the last ", times, " times, at ", now);
          for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < (i + 1 < k ? 1 : times); ++j) {
              std::string v = "w" + std::to_string(i);
              u.observe(n, v, now, i % 2);
              m.observe({n}, v, now, i % 2);
            }
          ask({n}, n, u.suggest(n, now), now);
          c.label("many words");
          break;
        }
        size_t k = s.chance(1, 4) ? m.capacity + s.below(4) : s.below(40);
        if (s.coin() && m.capacity > 4) k = m.capacity - s.below(4);
        c.log("observe ", k, " other contexts at ", now);
        for (size_t i = 0; i < k; ++i) {
          std::string n = "other" + std::to_string(others++);
          u.observe(n, "v", now, false);
          m.observe({n}, "v", now, false);
        }
        c.label("many contexts");
        break;
      }
      case 0: {  // a choice made while composing
        size_t total = 1 + s.below(6);
        Walk before = genWalk(s, total);
        Walk after = before;
        if (!seen.empty() && s.coin()) {
          // the same place again, with perhaps another word
          before = seen[s.below(seen.size())].first;
          after = before;
          total = 0;
          for (auto& x : before) total += x.span;
        }
        if (s.chance(1, 2)) {
          after = genWalk(s, total);
        } else {
          size_t i = s.below(after.size());
          after[i].chosen = s.below(after[i].values.size());
        }
        size_t cursor = s.below(total + 1);
        bool mismatch = s.chance(1, 20);
        if (mismatch) after.push_back(genWord(s, 1));
        bool none = s.chance(1, 30);
        if (none) (s.coin() ? before : after).clear();
        c.log("choose at ", cursor, ": ", showWalk(before), " -> ", showWalk(after), " at ", now);
        u.observe(real(before), real(after), cursor, now);
        if (none || mismatch) { c.label("ignored observation"); break; }
        size_t past = 0;
        size_t i = at(after, cursor, &past);
        const Word& cur = after[i];
        if (cur.span > 3) { c.label("ignored observation"); break; }
        size_t dummy;
        size_t j = at(before, past - 1, &dummy);
        bool force = cur.span > before[j].span;
        bool split = cur.span == 1 && before[j].span > 1;
        m.observe(split ? contextOf(after, i) : contextOf(before, j), cur.shown(), now, force);
        seen.push_back(split ? std::make_pair(after, i) : std::make_pair(before, j));
        c.label(force ? "joins" : split ? "splits" : "replaces");
        c.mix(force + 2 * split);
        break;
      }
      case 1: {  // a suggestion while composing
        Walk w;
        size_t cursor = 0;
        if (!seen.empty() && s.chance(4, 5)) {
          auto& p = seen[s.below(seen.size())];
          w = p.first;
          size_t pos = 0;
          for (size_t i = 0; i < p.second; ++i) pos += w[i].span;
          cursor = pos + s.below(w[p.second].span);
          if (s.chance(1, 3)) w[p.second].chosen = s.below(w[p.second].values.size());
          size_t v = s.below(4);
          if (v == 1) w.insert(w.begin() + static_cast<long>(s.below(w.size() + 1)), genWord(s, 1));
          if (v == 2) w.resize(p.second + 1);
          if (v == 3) w.push_back(genWord(s, 2));
        } else {
          w = genWalk(s, 1 + s.below(4));
          size_t total = 0;
          for (auto& x : w) total += x.span;
          cursor = s.below(total + 1);
        }
        size_t past;
        size_t i = at(w, cursor, &past);
        auto got = u.suggest(real(w), cursor, now);
        c.log("ask at ", cursor, " in ", showWalk(w), " at ", now, ": '", got.candidate, "'");
        ask(contextOf(w, i), pbt::cat(showWalk(w), " at ", cursor), got, now);
        c.mix(got.candidate);
        break;
      }
      case 2: {  // an observation by name
        std::string k = "key" + std::to_string(s.below(4));
        std::string v = "v" + std::to_string(s.below(3));
        bool force = s.coin();
        c.log("observe ", k, " ", v, " at ", now);
        u.observe(k, v, now, force);
        m.observe({k}, v, now, force);
        break;
      }
      case 3: {
        std::string k = "key" + std::to_string(s.below(5));
        double t = now + m.half * static_cast<double>(s.below(44)) / 2;
        auto got = u.suggest(k, t);
        c.log("ask ", k, " at ", t, ": '", got.candidate, "'");
        ask({k}, k, got, t);
        break;
      }
    }
  }
  // everything remembered, and everything forgotten
  for (auto& p : seen) {
    size_t pos = 0;
    for (size_t i = 0; i < p.second; ++i) pos += p.first[i].span;
    ask(contextOf(p.first, p.second), pbt::cat("finally, ", showWalk(p.first), " at ", pos), u.suggest(real(p.first), pos, now), now);
  }
  for (int i = 0; i < 4; ++i) {
    std::string k = "key" + std::to_string(i);
    ask({k}, "finally, " + k, u.suggest(k, now), now);
  }
  if (sawFaded) c.label("faded");
  if (m.evicted) c.label("forgotten");
  if (sawRivals) c.label("rivals");
  if (sawSuggestion && (sawRivals || sawFaded || m.evicted)) c.interesting();
}

}  // namespace

const std::vector<pbt::Property> pbt::kProperties = {
    {"O01",
     "a case makes a history of choices (conversions before and after, or by name) and questions over time; non-trivial when something was suggested and a word competed with another, faded, or a context was forgotten",
     o01, 200000, 3000000},
};
