// D01 (phrase database), A01 (associated phrases), K01 (user file parser),
// U01 (UTF-8 helpers), M01 (merged language model).
#include <cstring>
#include <memory>
#include <set>

#include "Engine/AssociatedPhrasesV2.h"
#include "Engine/KeyValueBlobReader.h"
#include "Engine/McBopomofoLM.h"
#include "Engine/ParselessLM.h"
#include "Engine/ParselessPhraseDB.h"
#include "Engine/PhraseReplacementMap.h"
#include "Engine/UTF8Helper.h"
#include "Engine/UserPhrasesLM.h"
#include "pbt.h"
#include "ref_lm.h"

using namespace McBopomofo;
using pbt::Ctx;
using pbt::Source;

namespace {

// A heap copy of exactly the given size: any over-read is a sanitizer report.
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};

const std::vector<std::string> kSyl = {"ㄅ", "ㄅㄚ", "ㄅㄚˊ", "ㄇㄚ", "ㄇㄚˇ", "ㄇㄚˋ", "ㄓㄨㄥ", "ㄨㄣˊ", "ㄨㄣˋ", "ㄩ", "_punctuation_", "a", "ab", "zz"};
const std::vector<std::string> kChr = {"一", "丁", "七", "中", "文", "问", "𠮷", "𠮟", "é", "x", "，", "〇", "ab"};

std::string genReading(Source& s, size_t maxSyl) {
  std::string r;
  size_t n = 1 + s.below(maxSyl);
  for (size_t i = 0; i < n; ++i) r += (i ? "-" : "") + s.pick(kSyl);
  return r;
}
std::string genValue(Source& s, size_t maxChr) {
  std::string r;
  size_t n = 1 + s.below(maxChr);
  for (size_t i = 0; i < n; ++i) r += s.pick(kChr);
  return r;
}
std::string genScoreText(Source& s) {
  switch (s.weighted({6, 2, 1, 1, 1})) {
    case 0: {
      std::string d = std::to_string(s.below(10000));
      return "-" + std::to_string(s.below(8)) + "." + std::string(4 - d.size(), '0') + d;
    }
    case 1: return "-" + std::to_string(s.below(9));
    case 2: return "0";
    case 3: return "0.0";
    default: return std::to_string(s.below(3)) + ".5";
  }
}

// ---------------------------------------------------------------- D01
void propD01(Source& s, Ctx& c) {
  std::vector<ref::Row> rows;
  size_t n = s.chance(1, 8) ? s.below(4) : s.chance(1, 6) ? 60 + s.below(300) : 1 + s.below(24);
  std::vector<std::string> pool;
  for (size_t i = 0; i < n; ++i) {
    std::string r = !pool.empty() && s.chance(2, 5) ? s.pick(pool) : genReading(s, 3);
    if (!pool.empty() && s.chance(1, 6)) r = s.pick(pool) + s.pick(kSyl);  // an extension of another key
    pool.push_back(r);
    rows.push_back({r, s.chance(1, 12) ? genValue(s, 12) : genValue(s, 2), genScoreText(s)});
  }
  if (s.chance(1, 25)) {  // a crowded reading, or a crowded word
    bool word = s.chance(1, 3);
    std::string r = pool.empty() || s.coin() ? genReading(s, 2) : s.pick(pool), v = genValue(s, 1);
    size_t k = 20 + s.below(400);
    for (size_t i = 0; i < k; ++i) rows.push_back(word ? ref::Row{r + "-" + s.pick(kSyl) + std::to_string(i), v, "-1"} : ref::Row{r, v + std::to_string(i), "-2.5"});
    c.label("crowded");
  }
  if (s.chance(1, 25)) {  // long lines
    for (size_t i = 0, k = 1 + s.below(3); i < k; ++i) {
      std::string r = pool.empty() || s.coin() ? genReading(s, 60) : s.pick(pool);
      rows.push_back({r, genValue(s, s.coin() ? 60 : 800), genScoreText(s)});
      pool.push_back(r);
    }
    c.label("long lines");
  }
  bool header = s.chance(1, 2), nl = !s.chance(1, 3), validate = s.chance(1, 2), through = s.coin();
  std::string text = ref::dbText(rows, header, nl, through);
  if (text.empty()) pbt::discard();
  bool usable = header == validate;
  if (header && !validate) pbt::discard();  // the header would be taken as a row
  c.log("data ", pbt::show(text), validate ? " (header required)" : "");
  Exact buf(text);
  ParselessPhraseDB db(buf.p.get(), buf.n, validate);
  PBT_CHECK(ParselessPhraseDB::ValidatePragma(buf.p.get(), buf.n) == header, "header-check", "header recognised wrongly");
  std::vector<std::string> lines;
  if (usable)
    for (auto& r : rows) lines.push_back(r.line());

  auto keyQuery = [&]() -> std::string {
    std::string q;
    switch (rows.empty() ? 4 : s.weighted({4, 4, 3, 2, 3})) {
      case 0: q = s.pick(rows).reading + " "; break;
      case 1: q = s.pick(rows).reading; break;
      case 2: { auto& r = s.pick(rows); q = r.line(); q.resize(1 + s.below(through ? q.size() : r.reading.size() + 1)); break; }  // any byte prefix
      case 3: { q = through ? s.pick(rows).line() + genValue(s, 1) : s.pick(rows).reading + "-"; break; }                  // longer than a row
      default: q = genReading(s, 3) + (s.coin() ? " " : "");
    }
    return q;
  };
  size_t nq = 6 + s.below(10);
  for (size_t i = 0; i < nq; ++i) {
    std::string q = keyQuery();
    if (q.empty()) continue;
    c.log("look up key ", pbt::show(q));
    Exact qb(q);
    std::vector<std::string> want, got;
    for (auto& l : lines)
      if (l.compare(0, q.size(), q) == 0) want.push_back(l);
    for (auto& v : db.findRows(std::string_view(qb.p.get(), qb.n))) got.emplace_back(v);
    PBT_CHECK(got == want, "rows-by-key", "key ", pbt::show(q), ": ", got.size(), " rows, expected ", want.size(),
              got.empty() ? "" : " first " + pbt::show(got[0]));
    const char* first = db.findFirstMatchingLine(std::string_view(qb.p.get(), qb.n));
    PBT_CHECK((first != nullptr) == !want.empty(), "has-key", "key ", pbt::show(q), " found=", first != nullptr);
    if (!want.empty()) { c.label("key-hit"); c.interesting(); c.mix(want.size()); } else c.label("key-miss");
  }
  size_t nv = 3 + s.below(5);
  for (size_t i = 0; i < nv; ++i) {
    std::string v = rows.empty() || s.chance(1, 4) ? genValue(s, 2) : s.pick(rows).value;
    if (s.chance(1, 3) && !rows.empty()) { auto& r = s.pick(rows); v = r.value + " " + r.score; v.resize(1 + s.below(v.size())); }
    else if (s.coin()) v += " ";
    c.log("look up word ", pbt::show(v));
    std::vector<std::string> want;
    if (usable)
      for (auto& r : rows)
        if ((r.value + " " + r.score).compare(0, v.size(), v) == 0) want.push_back(r.line());
    Exact vb(v);
    auto got = db.reverseFindRows(std::string_view(vb.p.get(), vb.n));
    PBT_CHECK(got == want, "rows-by-word", "word ", pbt::show(v), ": ", got.size(), " rows, expected ", want.size());
    if (!want.empty()) c.label("word-hit");
  }
  // Through the models that parse the rows.
  Exact buf2(text), buf3(text);
  ParselessLM lm;
  lm.open(std::make_unique<ParselessPhraseDB>(buf2.p.get(), buf2.n, validate));
  McBopomofoLM mlm;
  mlm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(buf3.p.get(), buf3.n, validate));
  for (size_t i = 0; i < 4; ++i) {
    std::string k = rows.empty() || s.chance(1, 4) ? genReading(s, 2) : s.pick(rows).reading;
    if (s.chance(1, 8) && k.size() > 1) k.resize(k.size() - 1);
    std::vector<ref::Uni> want;
    if (usable)
      for (auto& r : rows)
        if (r.reading == k) want.push_back({r.value, r.num()});
    c.log("words of ", pbt::show(k));
    auto got = lm.getUnigrams(k);
    PBT_CHECK(lm.hasUnigrams(k) == !want.empty(), "lm-has", "known(", pbt::show(k), ") is ", lm.hasUnigrams(k));
    PBT_CHECK(got.size() == want.size(), "lm-rows", pbt::show(k), ": ", got.size(), " words, expected ", want.size());
    for (size_t j = 0; j < want.size(); ++j)
      PBT_CHECK(got[j].value() == want[j].value && got[j].score() == want[j].score, "lm-rows", pbt::show(k), ": word ", j, " is ",
                pbt::show(got[j].value()), ":", got[j].score(), ", expected ", pbt::show(want[j].value), ":", want[j].score);
    std::string v = rows.empty() || s.chance(1, 4) ? genValue(s, 2) : s.pick(rows).value;
    c.log("readings of ", pbt::show(v));
    std::vector<ref::Uni> wr;
    std::string best;
    double top = 0;
    bool any = false;
    if (usable)
      for (auto& r : rows)
        if (r.value == v) {
          wr.push_back({r.reading, r.num()});
          if (!any || r.num() > top) { any = true; top = r.num(); best = r.reading; }
        }
    auto gr = lm.getReadings(v);
    PBT_CHECK(gr.size() == wr.size(), "lm-readings", pbt::show(v), ": ", gr.size(), " readings, expected ", wr.size());
    for (size_t j = 0; j < wr.size(); ++j)
      PBT_CHECK(gr[j].reading == wr[j].value && gr[j].score == wr[j].score, "lm-readings", pbt::show(v), ": reading ", j, " is ", gr[j].reading, ":", gr[j].score);
    PBT_CHECK(mlm.getReading(v) == best, "best-reading", pbt::show(v), ": ", mlm.getReading(v), ", expected ", best);
    if (wr.size() > 1) c.label("several-readings");
  }
  c.mix(rows.size());
  c.label(usable ? (nl ? "newline" : "no-final-newline") : "no-header");
}

// ---------------------------------------------------------------- A01
void propA01(Source& s, Ctx& c) {
  static const std::vector<std::string> chars = {"一", "丁", "七", "中", "文", "𠮷", "é"};
  static const std::vector<std::string> reads = {"ㄧ", "ㄧˊ", "ㄓㄨㄥ", "ㄓㄨㄥˋ", "ㄨㄣˊ", "ㄨ"};
  struct E { std::vector<std::string> cs, rs; std::string score; std::string row; };
  std::vector<E> es;
  bool crowd = s.chance(1, 25), longer = s.chance(1, 8);
  size_t n = crowd ? 60 + s.below(300) : 1 + s.below(30);
  if (crowd) c.label("crowded");
  for (size_t i = 0; i < n; ++i) {
    E e;
    size_t len = longer && s.coin() ? 5 + s.below(12) : 2 + s.below(4);
    if (!es.empty() && (crowd ? s.chance(9, 10) : s.chance(1, 2))) {  // shares a beginning with another
      auto& o = crowd ? es[0] : s.pick(es);
      size_t k = crowd ? 1 : 1 + s.below(o.cs.size());
      e.cs.assign(o.cs.begin(), o.cs.begin() + k);
      e.rs.assign(o.rs.begin(), o.rs.begin() + k);
      if (s.chance(1, crowd ? 8 : 3)) e.rs[s.below(k)] = s.pick(reads);  // same characters, another reading
      if (len < k) len = k;
      if (len < 2) len = 2;
    }
    while (e.cs.size() < len) { e.cs.push_back(s.pick(chars)); e.rs.push_back(s.pick(reads)); }
    e.score = genScoreText(s);
    for (size_t k = 0; k < len; ++k) e.row += (k ? "-" : "") + e.cs[k] + "-" + e.rs[k];
    e.row += " " + e.score;
    es.push_back(e);
  }
  std::stable_sort(es.begin(), es.end(), [](const E& a, const E& b) { return a.row < b.row; });
  std::string text = ref::kHeader;
  bool nl = !s.chance(1, 4);
  for (size_t i = 0; i < es.size(); ++i) text += es[i].row + (nl || i + 1 < es.size() ? "\n" : "");
  c.log("data ", pbt::show(text));
  Exact buf(text);
  AssociatedPhrasesV2 ap;
  bool loaded = s.chance(19, 20);
  if (loaded) ap.open(std::make_unique<ParselessPhraseDB>(buf.p.get(), buf.n, true));
  for (size_t q = 0; q < 8; ++q) {
    std::vector<std::string> pc, pr;
    if (s.chance(4, 5)) {
      auto& e = s.pick(es);
      size_t k = crowd && s.coin() ? 1 : 1 + s.below(e.cs.size());
      pc.assign(e.cs.begin(), e.cs.begin() + k);
      pr.assign(e.rs.begin(), e.rs.begin() + k);
    } else {
      size_t k = s.below(3);
      for (size_t i = 0; i < k; ++i) { pc.push_back(s.pick(chars)); pr.push_back(s.pick(reads)); }
    }
    bool mism = false;
    int form = s.weighted({6, 2, 1});
    if (form == 1 && !pc.empty()) { pc.resize(1); pr.clear(); }
    if (form == 2) {
      if (s.coin()) pr.push_back(s.pick(reads));
      else if (pr.size() > 1) pr.pop_back();
      mism = pr.size() != pc.size();
    }
    if (form != 1 && pr.empty() && pc.size() > 1) continue;
    std::string value;
    for (auto& x : pc) value += x;
    std::string rd;
    for (auto& x : pr) rd += " " + x;
    c.log("phrases after ", value, " [", rd, " ]");
    std::vector<const E*> want;
    if (loaded && !pc.empty() && !(mism && !pr.empty()))
      for (auto& e : es) {
        if (e.cs.size() < pc.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < pc.size(); ++i) ok = ok && e.cs[i] == pc[i] && (pr.empty() || e.rs[i] == pr[i]);
        if (ok && (e.cs.size() > pc.size() || pr.empty())) want.push_back(&e);
      }
    std::stable_sort(want.begin(), want.end(), [](const E* a, const E* b) { return strtod(a->score.c_str(), nullptr) > strtod(b->score.c_str(), nullptr); });
    std::vector<std::pair<std::string, std::vector<std::string>>> w;
    std::set<std::string> seen;
    for (auto* e : want) {
      std::string v;
      for (auto& x : e->cs) v += x;
      if (seen.insert(v).second) w.push_back({v, e->rs});
      else c.label("duplicate-value");
    }
    auto got = ap.findPhrases(value, pr);
    PBT_CHECK(got.size() == w.size(), "phrases", value, " [", rd, "]: ", got.size(), " phrases, expected ", w.size());
    for (size_t i = 0; i < w.size(); ++i) {
      PBT_CHECK(got[i].value == w[i].first && got[i].readings == w[i].second, "phrases", value, ": phrase ", i, " is ", got[i].value, " ",
                got[i].combinedReading(), ", expected ", w[i].first);
      std::string comb;
      for (size_t k = 0; k < w[i].second.size(); ++k) comb += (k ? "-" : "") + w[i].second[k];
      PBT_CHECK(got[i].combinedReading() == comb, "combined", "combined reading ", got[i].combinedReading());
    }
    if (w.size() > 1) { c.interesting(); c.mix(w.size()); c.mix(value); c.label("several"); }
    else c.label(w.empty() ? "none" : "one");
  }
  // Splitting and combining readings.
  std::vector<std::string> parts;
  size_t np = 1 + s.below(6);
  for (size_t i = 0; i < np; ++i) parts.push_back(s.chance(1, 10) ? "" : s.pick(reads));
  std::string comb;
  for (size_t i = 0; i < np; ++i) comb += (i ? "-" : "") + parts[i];
  PBT_CHECK(AssociatedPhrasesV2::CombineReadings(parts) == comb, "combine", "combining gives ", AssociatedPhrasesV2::CombineReadings(parts));
  auto sp = AssociatedPhrasesV2::SplitReadings(comb);
  if (comb.empty()) PBT_CHECK(sp.empty(), "split", "splitting nothing");
  else PBT_CHECK(sp == parts, "split", "splitting ", comb, " gives ", sp.size(), " parts");
}

// ---------------------------------------------------------------- K01
std::string genBlob(Source& s) {
  std::string o;
  size_t lines = s.chance(1, 25) ? 40 + s.below(300) : s.below(9);
  bool longer = s.chance(1, 15);
  auto blanks = [&](size_t lo) {
    std::string b;
    size_t n = lo + s.below(longer && s.chance(1, 4) ? 300 : 3);
    for (size_t i = 0; i < n; ++i) b += s.chance(1, 3) ? '\t' : ' ';
    return b;
  };
  auto word = [&] {
    static const std::vector<std::string> w = {"a", "foo", "小麥", "ㄇㄞˋ-ㄊㄧㄢˊ", "#", "#b", "x#y", "\x01", "\xff\xfe", "b", "ㄅ", "\v", "\xc2\xa0"};
    std::string x = s.pick(w);
    if (longer && s.chance(1, 3)) {
      size_t k = 1 + s.below(s.coin() ? 100 : 1500);
      for (size_t i = 0; i < k; ++i) x += s.pick(w);
    }
    return x;
  };
  for (size_t i = 0; i < lines; ++i) {
    switch (s.weighted({10, 2, 2, 2, 2})) {
      case 0: o += (s.chance(1, 4) ? blanks(1) : "") + word() + blanks(1) + word() + (s.chance(1, 4) ? blanks(1) + word() : "") + (s.chance(1, 4) ? blanks(1) : ""); break;
      case 1: o += (s.chance(1, 3) ? blanks(1) : "") + "#" + (s.coin() ? " c d" : "") + (longer && s.coin() ? std::string(s.below(5000), 'x') : ""); break;
      case 2: break;
      case 3: o += blanks(1); break;
      case 4: if (s.chance(1, 3)) o += word() + (s.coin() ? blanks(1) : ""); break;
    }
    if (i + 1 < lines || s.chance(2, 3)) {
      static const std::vector<std::string> nl = {"\n", "\r\n", "\r", "\n\n", "\n\r"};
      o += s.chance(3, 4) ? "\n" : s.pick(nl);
    }
  }
  if (s.chance(1, 6)) {  // raw bytes
    size_t n = s.below(12);
    for (size_t i = 0; i < n; ++i) {
      static const std::string ab = std::string("a# \t\n\r", 6) + '\0' + "\xe5";
      o += ab[s.below(ab.size())];
    }
  }
  if (!o.empty() && s.chance(1, 5)) o.resize(s.below(o.size() + 1));
  if (!o.empty() && s.chance(1, 8)) o.insert(s.below(o.size() + 1), 1, '\0');
  return o;
}

using ref::Parsed;
using ref::refParse;

void propK01(Source& s, Ctx& c) {
  std::string blob = genBlob(s);
  c.log("data ", pbt::show(blob));
  Exact buf(blob);
  Parsed want = refParse(blob);
  KeyValueBlobReader r(buf.p.get(), buf.n);
  using St = KeyValueBlobReader::State;
  bool nullOut = s.chance(1, 10);
  for (size_t i = 0;; ++i) {
    KeyValueBlobReader::KeyValue kv;
    St st = r.Next(nullOut ? nullptr : &kv);
    if (i < want.pairs.size()) {
      PBT_CHECK(st == St::HAS_PAIR, "entry-missing", "entry ", i, " of ", want.pairs.size(), " not delivered, state ", static_cast<int>(st));
      if (!nullOut)
        PBT_CHECK(std::string(kv.key) == want.pairs[i].first && std::string(kv.value) == want.pairs[i].second, "entry", "entry ", i, " is ",
                  pbt::show(std::string(kv.key)), " / ", pbt::show(std::string(kv.value)), ", expected ", pbt::show(want.pairs[i].first), " / ", pbt::show(want.pairs[i].second));
      continue;
    }
    PBT_CHECK(st == (want.error ? St::ERROR : St::END), "end-state", "after ", i, " entries the state is ", static_cast<int>(st), ", expected ", want.error ? "error" : "end");
    for (int k = 0; k < 3; ++k) {
      St again = r.Next(&kv);
      PBT_CHECK(again == st, "end-persists", "the final state changed from ", static_cast<int>(st), " to ", static_cast<int>(again));
    }
    break;
  }
  if (want.pairs.size() > 1) c.interesting();
  c.mix(blob);
  c.label(want.error ? "malformed" : "well-formed");
  if (blob.find('\0') != std::string::npos) c.label("nul");
  if (blob.empty()) return;
  // The tables built from it: column two is the reading of column one.
  UserPhrasesLM u;
  PBT_CHECK(u.load(buf.p.get(), buf.n), "load", "loading fails");
  PhraseReplacementMap m;
  PBT_CHECK(m.load(buf.p.get(), buf.n), "load", "loading fails");
  std::map<std::string, std::vector<std::string>> tab;
  std::map<std::string, std::string> rep;
  for (auto& p : want.pairs) { tab[p.second].push_back(p.first); rep[p.first] = p.second; }
  std::set<std::string> keys = {"a", "foo", "ㄅ", "", "nothing"};
  for (auto& p : want.pairs) { keys.insert(p.first); keys.insert(p.second); }
  for (auto& k : keys) {
    std::vector<std::string> got;
    for (auto& x : u.getUnigrams(k)) { got.push_back(x.value()); PBT_CHECK(x.score() == 0, "user-score", "user phrase score ", x.score()); }
    PBT_CHECK(got == (tab.count(k) ? tab[k] : std::vector<std::string>{}), "user-table", "user phrases of ", pbt::show(k), ": ", got.size());
    PBT_CHECK(u.hasUnigrams(k) == (tab.count(k) > 0), "user-has", "known(", pbt::show(k), ")");
    PBT_CHECK(m.valueForKey(k) == (rep.count(k) ? rep[k] : ""), "replacement", "replacement of ", pbt::show(k), " is ", pbt::show(m.valueForKey(k)));
  }
}

// ---------------------------------------------------------------- U01
// Length of the valid UTF-8 character at i, or 0 (Unicode table 3-7).
size_t utf8Len(const std::string& t, size_t i) {
  auto b = [&](size_t k) -> int { return i + k < t.size() ? static_cast<unsigned char>(t[i + k]) : -1; };
  auto in = [](int v, int lo, int hi) { return v >= lo && v <= hi; };
  int a = b(0);
  if (in(a, 0, 0x7f)) return 1;
  if (in(a, 0xc2, 0xdf)) return in(b(1), 0x80, 0xbf) ? 2 : 0;
  if (in(a, 0xe0, 0xef)) {
    int lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) ? 3 : 0;
  }
  if (in(a, 0xf0, 0xf4)) {
    int lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) && in(b(3), 0x80, 0xbf) ? 4 : 0;
  }
  return 0;
}
std::string encode(uint32_t cp, int forceLen = 0) {
  int n = forceLen ? forceLen : cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : cp < 0x200000 ? 4 : cp < 0x4000000 ? 5 : 6;
  if (n == 1) return std::string(1, static_cast<char>(cp));
  std::string o(n, 0);
  for (int i = n - 1; i > 0; --i) { o[i] = static_cast<char>(0x80 | (cp & 0x3f)); cp >>= 6; }
  static const int lead[] = {0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc};
  o[0] = static_cast<char>(lead[n] | cp);
  return o;
}
void propU01(Source& s, Ctx& c) {
  std::string t;
  size_t n = s.chance(1, 15) ? 20 + s.below(400) : s.below(12);
  bool dirty = s.chance(3, 5);
  for (size_t i = 0; i < n; ++i) {
    static const std::vector<uint32_t> edge = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0, 0x41, 0x4e00, 0x20bb7};
    if (!dirty || s.chance(n > 12 ? 199 : 4, n > 12 ? 200 : 5)) {
      uint32_t cp = s.coin() ? s.pick(edge) : s.coin() ? static_cast<uint32_t>(s.below(0xd800)) : static_cast<uint32_t>(0xe000 + s.below(0x10ffff - 0xe000 + 1));
      t += encode(cp);
    } else {
      switch (s.below(6)) {
        case 0: t += encode(0xd800 + static_cast<uint32_t>(s.below(0x800))); break;
        case 1: { int l = 2 + static_cast<int>(s.below(3)); static const uint32_t lim[] = {0, 0, 0x80, 0x800, 0x10000}; t += encode(static_cast<uint32_t>(s.below(lim[l])), l); break; }
        case 2: t += encode(0x110000 + static_cast<uint32_t>(s.below(0x7fffffff - 0x110000))); break;
        case 3: t += static_cast<char>(0x80 + s.below(0x40)); break;
        case 4: { std::string e = encode(s.pick(edge) | 0x800); e.resize(1 + s.below(e.size())); t += e; break; }
        default: t += static_cast<char>(s.below(256));
      }
    }
  }
  if (dirty && !t.empty() && s.chance(1, 4)) t.resize(s.below(t.size() + 1));
  c.log("text ", pbt::hex(t));
  std::vector<std::string> cps;
  size_t i = 0;
  while (i < t.size()) {
    size_t l = utf8Len(t, i);
    if (!l) break;
    cps.push_back(t.substr(i, l));
    i += l;
  }
  bool valid = i == t.size();
  PBT_CHECK(CodePointCount(t) == cps.size(), "count", CodePointCount(t), " characters, expected ", cps.size());
  auto sp = Split(t);
  PBT_CHECK(sp == cps, "split", "splitting gives ", sp.size(), " parts, expected ", cps.size());
  std::string head;
  for (size_t k = 0; k <= cps.size() + 2; ++k) {
    PBT_CHECK(SubstringToCodePoints(t, k) == head, "first-n", "first ", k, " characters: ", pbt::hex(SubstringToCodePoints(t, k)), ", expected ", pbt::hex(head));
    std::string g = GetCodePoint(t, k);
    if (k < cps.size()) {
      PBT_CHECK(g == cps[k], "pick", "character ", k, " is ", pbt::hex(g), ", expected ", pbt::hex(cps[k]));
      head += cps[k];
    } else {
      PBT_CHECK(g.empty() || utf8Len(g, 0) == g.size(), "pick-past-end", "character ", k, " of ", cps.size(), " is ", pbt::hex(g));
    }
  }
  if (cps.size() > 2) c.interesting();
  c.mix(t);
  c.label(valid ? "valid" : "invalid");
}

// ---------------------------------------------------------------- M01
void propM01(Source& s, Ctx& c) {
  static const std::vector<std::string> vals = {"一", "乙", "以", "已", "意義", "異議", "MACRO@X", "MACRO@Y", "MACRO@", "丁", "甲"};
  static const std::vector<std::string> keys = {"ㄧ", "ㄧˋ", "ㄧ-ㄧˋ", "ㄧˋ-ㄧˋ", "_punctuation_list", "ㄅ"};
  ref::LM m;
  size_t n = 1 + s.below(14);
  for (size_t i = 0; i < n; ++i) {
    std::string v = s.pick(vals);
    std::string sc = genScoreText(s);
    if (v.compare(0, 5, "MACRO") == 0 && s.chance(3, 4)) sc = "-8";
    m.db.push_back({s.pick(keys), v, sc});
  }
  std::string dbt = ref::dbText(m.db, true, s.coin(), s.coin());
  auto table = [&](std::vector<std::pair<std::string, std::string>>& t, size_t max) {
    std::string o;
    size_t k = s.below(max);
    for (size_t i = 0; i < k; ++i) {
      t.push_back({s.pick(vals), s.pick(keys)});
      o += t.back().first + " " + t.back().second + "\n";
    }
    return o;
  };
  std::string ut = table(m.user, 6), et = table(m.excluded, 7), rt;
  if (s.chance(1, 30)) {  // many phrases with the same reading
    std::string k = s.pick(keys);
    size_t q = s.chance(1, 3) ? 60 + s.below(300) : 10 + s.below(60);
    for (size_t i = 0; i < q; ++i) {
      m.user.push_back({"詞" + std::to_string(i), k});
      ut += m.user.back().first + " " + k + "\n";
    }
  }
  if (s.chance(1, 30)) {  // many words, many of them excluded
    std::string k = s.pick(keys);
    size_t q = 10 + s.below(200);
    bool mine = s.coin();
    std::vector<std::pair<std::string, std::string>> both;
    for (size_t i = 0; i < q; ++i) {
      std::string v = "字" + std::to_string(i);
      if (mine) {
        m.user.push_back({v, k});
        ut += v + " " + k + "\n";
      } else {
        m.db.push_back({k, v, genScoreText(s)});
      }
      if (s.coin()) {
        m.excluded.push_back({v, k});
        et += v + " " + k + "\n";
      }
    }
    if (!mine) dbt = ref::dbText(m.db, true, s.coin(), s.coin());
    c.label("many words");
  }
  size_t nr = s.below(5);
  for (size_t i = 0; i < nr; ++i) {
    std::string a = s.pick(vals), b = s.pick(vals);
    m.repl[a] = b;
    rt += a + " " + b + "\n";
  }
  bool useMacro = s.coin(), haveConv = s.coin();
  int macroKind = static_cast<int>(s.below(3));
  m.replOn = s.coin();
  m.convOn = s.coin();
  auto day = std::make_shared<int>(0);  // what a macro expands to changes in time
  auto macroFn = [macroKind, day](const std::string& v) -> std::string {
    if (v == "MACRO@X" && macroKind != 1) return *day ? "第" + std::to_string(*day) + "天" : "今天";
    if (v == "MACRO@Y" && macroKind == 2) return "一";
    return v;
  };
  auto convFn = [](const std::string& v) -> std::string {
    if (v == "異議" || v == "意義") return "异义";
    if (v == "乙" || v == "以") return "以";
    return v;
  };
  if (useMacro) m.macro = macroFn;
  if (haveConv) m.conv = convFn;
  c.log("dictionary ", pbt::show(dbt));
  c.log("user ", pbt::show(ut), " excluded ", pbt::show(et), " replacement ", pbt::show(rt), m.replOn ? " on" : " off", useMacro ? " macros" : "", haveConv ? (m.convOn ? " converter on" : " converter off") : "");
  Exact db(dbt), ub(ut), eb(et), rb(rt);
  std::vector<std::unique_ptr<Exact>> others;
  McBopomofoLM lm;
  bool haveDb = !s.chance(1, 12);
  if (haveDb) lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(db.p.get(), db.n, true));
  else m.db.clear();
  lm.loadUserPhrases(ub.p.get(), ub.n);
  lm.loadExcludedPhrases(eb.p.get(), eb.n);
  lm.loadPhraseReplacementMap(rb.p.get(), rb.n);
  if (useMacro) lm.setMacroConverter(macroFn);
  if (haveConv) lm.setExternalConverter(convFn);
  lm.setPhraseReplacementEnabled(m.replOn);
  lm.setExternalConverterEnabled(m.convOn);
  PBT_CHECK(lm.phraseReplacementEnabled() == m.replOn && lm.externalConverterEnabled() == m.convOn, "switches", "the switches do not report what was set");
  auto check = [&] {
    for (auto k : keys) {
      auto want = m.get(k);
      auto got = lm.getUnigrams(k);
      std::string g, w;
      for (auto& u : got) g += " " + u.value() + ":" + std::to_string(u.score());
      for (auto& u : want) w += " " + u.value + ":" + std::to_string(u.score);
      PBT_CHECK(got.size() == want.size(), "words", k, ":", g, ", expected", w);
      for (size_t i = 0; i < want.size(); ++i)
        PBT_CHECK(got[i].value() == want[i].value && got[i].score() == want[i].score, "words", k, ":", g, ", expected", w);
      PBT_CHECK(lm.hasUnigrams(k) == !want.empty(), "known", k, " is reported as ", lm.hasUnigrams(k) ? "known" : "unknown", " but offers ", want.size(), " words");
      if (want.size() > 1) c.label("merged");
      c.mix(want.size());
      if (!want.empty()) c.mix(want[0].value);
    }
    PBT_CHECK(lm.hasUnigrams(" ") && lm.getUnigrams(" ").size() == 1 && lm.getUnigrams(" ")[0].value() == " " && lm.getUnigrams(" ")[0].score() == 0, "space", "a space does not offer itself");
    for (auto& v : vals) PBT_CHECK(lm.convertMacro(v) == (useMacro ? macroFn(v) : v), "macro", v, " expands to ", lm.convertMacro(v));
  };
  check();
  // Switching and replacing data take effect on the next query.
  size_t steps = s.below(5);
  for (size_t i = 0; i < steps; ++i) {
    switch (s.below(7)) {
      case 0: m.replOn = !m.replOn; lm.setPhraseReplacementEnabled(m.replOn); c.log("replacement ", m.replOn); break;
      case 1: m.convOn = !m.convOn; lm.setExternalConverterEnabled(m.convOn); c.log("converter ", m.convOn); break;
      case 2: {
        if (m.user.empty()) break;
        m.user.pop_back();
        std::string t;
        for (auto& u : m.user) t += u.first + " " + u.second + "\n";
        if (t.empty()) t = "# none\n";
        ub = Exact(t);
        lm.loadUserPhrases(ub.p.get(), ub.n);
        c.log("user ", pbt::show(t));
        break;
      }
      case 3: {
        m.excluded.push_back({s.pick(vals), s.pick(keys)});
        std::string t;
        for (auto& u : m.excluded) t += u.first + " " + u.second + "\n";
        eb = Exact(t);
        lm.loadExcludedPhrases(eb.p.get(), eb.n);
        c.log("excluded ", pbt::show(t));
        break;
      }
      case 6: {
        m.repl.clear();
        std::string t = "# replacement\n";
        for (size_t k = s.below(4); k; --k) {
          std::string a = s.pick(vals), b = s.pick(vals);
          m.repl[a] = b;
          t += a + " " + b + "\n";
        }
        rb = Exact(t);
        lm.loadPhraseReplacementMap(rb.p.get(), rb.n);
        c.log("replacement ", pbt::show(t));
        break;
      }
      case 4: ++*day; c.log("day ", *day); break;
      case 5: {  // another dictionary
        if (!haveDb) break;
        if (s.coin() && !m.db.empty()) m.db.erase(m.db.begin() + static_cast<long>(s.below(m.db.size())));
        else m.db.push_back({s.pick(keys), s.pick(vals), genScoreText(s)});
        std::string t = ref::dbText(m.db, true, s.coin(), s.coin());
        auto other = std::make_unique<Exact>(t);
        lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(other->p.get(), other->n, true));
        others.push_back(std::move(other));
        c.log("dictionary ", pbt::show(t));
        break;
      }
    }
    check();
  }
  if (!m.user.empty() && (!m.excluded.empty() || m.replOn || m.convOn)) c.interesting();
}

}  // namespace

namespace pbt {
const std::vector<Property> kProperties = {
    {"D01", "a case is a generated sorted file with 15 to 40 look-ups; non-trivial: at least one key look-up matches rows; distinct by (row count, match counts)", propD01, 100000, 1500000},
    {"A01", "a case is a generated table with eight look-ups and a split/combine round trip; non-trivial: a look-up with two or more results", propA01, 200000, 1500000},
    {"K01", "a case is a byte string read entry by entry and through both tables; non-trivial: two or more entries before the end", propK01, 2000000, 6000000},
    {"U01", "a case is a byte string; non-trivial: at least three valid characters at its start", propU01, 3000000, 8000000},
    {"M01", "a case is one combination of dictionary, user, excluded, replacement data and switches with up to four changes; non-trivial: user phrases present together with exclusion, replacement or conversion", propM01, 250000, 1500000},
};
}
