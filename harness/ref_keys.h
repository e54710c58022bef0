// Reference model of composing: what a key does, given the dictionary, the
// settings and everything typed so far.  Works on plain values only (a list of
// readings with the user's choices, see ref_grid.h); the syllable under
// construction is kept in a separate BopomofoReadingBuffer, which B01 checks.
#ifndef VERIF_REF_KEYS_H_
#define VERIF_REF_KEYS_H_
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "Engine/Mandarin/Mandarin.h"
#include "Key.h"
#include "ref_grid.h"
#include "ref_lm.h"
#include "ref_uom.h"

namespace ref {

using McBopomofo::Key;

inline std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    o.push_back(s.substr(i, n));
    i += n;
  }
  return o;
}
inline std::vector<std::string> splitOn(const std::string& s, char d) {
  std::vector<std::string> o;
  if (s.empty()) return o;
  size_t b = 0;
  for (size_t i = 0; i <= s.size(); ++i)
    if (i == s.size() || s[i] == d) {
      o.push_back(s.substr(b, i - b));
      b = i + 1;
    }
  return o;
}
inline std::string joinWith(const std::vector<std::string>& v, const std::string& d, size_t b = 0, size_t e = std::string::npos) {
  std::string o;
  for (size_t i = b; i < std::min(e, v.size()); ++i) o += (i > b ? d : "") + v[i];
  return o;
}

struct AssocRow {
  std::vector<std::string> cs, rs;
  double score;
  std::string row;
  std::string value() const { return joinWith(cs, ""); }
  std::string reading() const { return joinWith(rs, "-"); }
};

struct Cand {
  std::string reading, value;
  bool operator==(const Cand& o) const { return reading == o.reading && value == o.value; }
};

struct Settings {
  bool plain = false, selAfter = false, moveAfter = false, lowercase = false, escClears = false, assoc = false, half = false;
  int ctrlEnter = 0;
  int layout = 0;
};

enum class Kind { Idle, Inputting, Choosing, Marking, Assoc, AssocPlain, Feature, DateMacro, Number, Enclosed, SelDict, CharInfo };
inline const char* kindName(Kind k) {
  static const char* n[] = {"nothing composed", "composing", "choosing", "marking", "associated phrases", "follow-up list", "feature menu", "date menu", "number", "enclosed number", "dictionary menu", "character information"};
  return n[static_cast<int>(k)];
}
inline bool notEmpty(Kind k) { return k == Kind::Inputting || k == Kind::Choosing || k == Kind::Marking || k == Kind::Assoc || k == Kind::SelDict || k == Kind::CharInfo; }

struct St {
  Kind kind = Kind::Idle;
  std::string text, tip;
  std::vector<std::string> say;                // what the tip says: which message, and its values
  size_t cur = 0;
  std::vector<Cand> cands;
  size_t gen = 0;                              // which list this is
  size_t orig = 0;                             // choosing
  size_t markStart = 0;                        // marking
  std::string head, marked, tail, reading;
  bool acceptable = false;
  size_t pfxCursor = 0;                        // associated phrases
  std::string pfxReading, pfxValue;
  bool shift = false;
  std::shared_ptr<St> prev;
  std::string number;                          // number modes
  int style = 0;
  std::string phrase;                          // dictionary menu
};

struct Tie {};  // more than one best conversion: the step is not decided

struct Keys {
  Settings cfg;
  std::function<bool(const std::string&)> known;
  std::function<const std::vector<Uni>&(const std::string&)> words;
  std::vector<AssocRow> assocRows;  // sorted as in the file
  const std::map<std::string, std::vector<AssocRow>>* assocIndex = nullptr;  // or by first character
  std::function<std::string(int style, const std::string& ip, const std::string& dp)> numeral;
  Grid g;
  Grid::Walk w;
  Formosa::Mandarin::BopomofoReadingBuffer rd{Formosa::Mandarin::BopomofoKeyboardLayout::StandardLayout()};
  std::string layoutName = "Standard";
  Learned learned;
  double now = 0;
  St st;

  // What a step did.
  std::string delivered;
  bool error = false;
  std::vector<std::pair<std::string, std::string>> adds;  // reading, phrase
  std::set<std::string> kinds;   // properties the step belongs to
  bool suggested = false, joined = false, fallback = false;
  mutable size_t lists = 0;  // candidate lists made so far

  void begin() {
    delivered.clear();
    error = false;
    adds.clear();
    kinds.clear();
    suggested = fallback = false;
  }

  bool rdEmpty() const { return rd.composedString().empty(); }
  void walk() {
    w = g.walk();
    if (!w.unique) throw Tie();
  }
  void reset() {
    rd.clear();
    g.clear();
    w = Grid::Walk();
  }

  // ---- what is shown
  struct Composed { std::string head, tail, tip; std::vector<std::string> say; };
  Composed at(size_t c) const {
    Composed o;
    for (auto& s : w.segs) {
      if (s.start + s.len <= c) { o.head += s.value; continue; }
      if (s.start >= c) { o.tail += s.value; continue; }
      auto cs = chars(s.value);
      size_t k = std::min(c - s.start, cs.size());
      o.head += joinWith(cs, "", 0, k);
      o.tail += joinWith(cs, "", k);
      if (cs.size() < s.len) {
        o.tip = "between " + g.readings[c - 1] + " and " + g.readings[c];
        o.say = {"between", g.readings[c - 1], g.readings[c]};
      }
    }
    return o;
  }
  St inputting() const {
    Composed c = at(g.cursor);
    St s;
    s.kind = Kind::Inputting;
    std::string r = rd.composedString();
    s.text = c.head + r + c.tail;
    s.cur = c.head.size() + r.size();
    s.tip = c.tip;
    s.say = c.say;
    return s;
  }
  size_t actual(size_t c) const {
    size_t n = g.readings.size();
    if (c > n) return n ? n - 1 : 0;
    if (c == n) return c ? c - 1 : 0;
    return !cfg.selAfter && c ? c - 1 : c;
  }
  St choosing(size_t orig) const {
    St s = inputting();
    s.kind = Kind::Choosing;
    s.gen = ++lists;
    s.tip.clear();
    s.say.clear();
    s.orig = orig;
    for (auto& c : g.candidates(actual(g.cursor))) s.cands.push_back({c.reading, c.value});
    return s;
  }
  St marking(size_t begin) const {
    Composed a = at(begin), b = at(g.cursor);
    St s;
    s.kind = Kind::Marking;
    s.text = b.head + b.tail;
    s.cur = b.head.size();
    s.markStart = begin;
    size_t from = begin, to = g.cursor;
    if (from > to) { std::swap(a, b); std::swap(from, to); }
    s.head = a.head;
    s.marked = b.head.substr(a.head.size());
    s.tail = b.tail;
    s.reading = joinWith(g.readings, "-", from, to);
    size_t n = to - from;
    std::string status;
    if (n < 2) status = "at least 2";
    else if (n > 6) status = "at most 6";
    else {
      bool exists = false;
      for (auto& u : words(s.reading)) exists |= u.value == s.marked;
      status = exists ? "exists" : "enter";
      s.acceptable = !exists;
    }
    s.tip = "marked " + s.marked + " / " + joinWith(g.readings, " ", from, to) + " / " + status;
    s.say = {"marked", s.marked, joinWith(g.readings, " ", from, to), status};
    return s;
  }
  // The continuations of a run of words, best first, one per phrase.
  std::vector<AssocRow> continuations(const std::string& value, const std::vector<std::string>& rs) const {
    auto cs = chars(value);
    std::vector<AssocRow> v;
    if (cs.empty() || (!rs.empty() && cs.size() != rs.size())) return v;
    static const std::vector<AssocRow> none;
    const std::vector<AssocRow>* rows = &assocRows;
    if (assocIndex) {
      auto it = assocIndex->find(cs[0]);
      rows = it == assocIndex->end() ? &none : &it->second;
    }
    for (auto& r : *rows) {
      if (r.cs.size() < cs.size() + (rs.empty() ? 0 : 1)) continue;
      bool ok = true;
      for (size_t i = 0; i < cs.size(); ++i) ok &= r.cs[i] == cs[i] && (rs.empty() || r.rs[i] == rs[i]);
      if (ok) v.push_back(r);
    }
    std::stable_sort(v.begin(), v.end(), [](const AssocRow& a, const AssocRow& b) { return a.score > b.score; });
    std::set<std::string> seen;
    std::vector<AssocRow> o;
    for (auto& r : v)
      if (seen.insert(r.value()).second) o.push_back(r);
    return o;
  }
  bool assocState(const St& prev, size_t pfxCursor, const std::string& reading, const std::string& value, bool shift, St* out) const {
    auto ps = continuations(value, splitOn(reading, '-'));
    if (ps.empty()) return false;
    St s;
    s.kind = Kind::Assoc;
    s.gen = ++lists;
    s.text = prev.text;
    s.cur = prev.cur;
    s.tip = prev.tip;
    s.say = prev.say;
    s.prev = std::make_shared<St>(prev);
    s.pfxCursor = pfxCursor;
    s.pfxReading = reading;
    s.pfxValue = value;
    s.shift = shift;
    for (auto& p : ps) s.cands.push_back({p.reading(), p.value()});
    *out = s;
    return true;
  }

  // ---- transitions
  void idle() { st = St(); }
  void commit(const std::string& t) {
    delivered += t;
    st = St();
  }
  void emptyDelivering() {
    if (notEmpty(st.kind)) delivered += st.text;
    st = St();
  }

  void askAssoc(bool fromInputting, bool shift) {
    kinds.insert("S07");
    if (g.cursor < 1) { error = true; return; }
    if (fromInputting) {
      size_t past = 0;
      const Grid::Seg* s = w.at(g.cursor - 1, &past);
      if (!s) { error = true; return; }
      auto cs = chars(s->value);
      auto rs = splitOn(s->reading, '-');
      if (cs.size() != rs.size() || past < rs.size()) { error = true; return; }
      size_t start = past - rs.size(), maxLen = g.cursor - start;
      for (size_t len = maxLen; len > 0; --len) {
        size_t b = maxLen - len;
        St a;
        if (assocState(inputting(), start + b, joinWith(rs, "-", b, maxLen), joinWith(cs, "", b, maxLen), shift, &a)) {
          st = a;
          return;
        }
      }
      error = true;
    }
    if (!shift) error = true;
  }

  void plainChoice(const Cand& c, bool follow) {
    kinds.insert("S06");
    reset();
    commit(c.value);
    if (!follow || !cfg.assoc) return;
    auto rs = splitOn(c.reading, '-');
    St s;
    s.kind = Kind::AssocPlain;
    s.gen = ++lists;
    for (auto& p : continuations(c.value, rs)) {
      if (p.rs.size() <= rs.size()) continue;
      s.cands.push_back({joinWith(p.rs, "-", rs.size()), p.value().substr(c.value.size())});
    }
    if (!s.cands.empty()) st = s;
  }

  // ---- learning
  struct Word { std::string reading, top, shown; size_t len; };
  std::vector<Word> wordsOf(const Grid::Walk& x) const {
    std::vector<Word> o;
    for (auto& s : x.segs) {
      Word k;
      k.reading = s.reading;
      k.len = s.len;
      k.top = words(s.reading)[0].value;
      auto it = g.pins.find({s.start, s.len});
      k.shown = it != g.pins.end() ? it->second.value : k.top;
      o.push_back(k);
    }
    return o;
  }
  static size_t wordAt(const std::vector<Word>& v, size_t cursor, size_t* past) {
    size_t pos = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      pos += v[i].len;
      if (cursor < pos || i + 1 == v.size()) { *past = pos; return i; }
    }
    abort();
  }
  static ref::Context contextOf(const std::vector<Word>& v, size_t i) {
    ref::Context k = {v[i].reading, v[i].top};
    for (size_t back = 1; back <= 2 && back <= i; ++back) {
      if (v[i - back].reading[0] == '_') break;
      k.push_back(v[i - back].reading);
      k.push_back(v[i - back].shown);
    }
    return k;
  }
  void learn(const Grid::Walk& before, size_t cursor) {
    auto b = wordsOf(before), a = wordsOf(w);
    if (a.empty() || b.empty()) return;
    size_t past, dummy;
    size_t i = wordAt(a, cursor, &past);
    if (a[i].len > 3) return;
    size_t j = wordAt(b, past - 1, &dummy);
    bool split = a[i].len == 1 && b[j].len > 1;
    learned.observe(split ? contextOf(a, i) : contextOf(b, j), a[i].shown, now, a[i].len > b[j].len);
  }
  void suggest() {
    auto v = wordsOf(w);
    size_t past;
    size_t loc = actual(g.cursor);
    size_t i = wordAt(v, loc, &past);
    bool faded, rivals;
    auto s = learned.suggest(contextOf(v, i), now, &faded, &rivals);
    if (s.size() > 1) throw Tie();
    if (s.empty() || s[0].candidate.empty()) return;
    suggested = true;
    kinds.insert("S04");
    g.choose(loc, nullptr, s[0].candidate, s[0].force ? Grid::kHigh : Grid::kTop);
    walk();
  }

  void pin(size_t orig, const Cand& c, bool mayMove) {
    size_t loc = actual(g.cursor);
    if (!g.choose(loc, &c.reading, c.value, Grid::kHigh)) return;
    auto before = w;
    walk();
    size_t past = 0;
    const Grid::Seg* s = w.at(loc, &past);
    if (!s) return;
    double sc = -1e9;
    for (auto& u : words(s->reading))
      if (u.value == s->value) { sc = u.score; break; }
    if (sc > -8.0) learn(before, loc);
    g.cursor = mayMove && cfg.moveAfter ? past : orig;
  }

  // ---- list actions
  void select(const Cand& c, size_t orig) {
    if (cfg.plain) { plainChoice(c, true); return; }
    kinds.insert("S04");
    pin(orig, c, true);
    st = inputting();
    if (cfg.assoc) {
      bool e = error;
      askAssoc(true, true);
      error = e;  // no complaint after a choice
    }
  }
  void cancel(size_t orig) {
    kinds.insert("S04");
    if (cfg.plain) {
      kinds.insert("S06");
      reset();
      idle();
      return;
    }
    if (g.readings.empty() && rdEmpty()) { idle(); return; }
    g.cursor = orig;
    st = inputting();
  }
  void selectAssoc(size_t pfxCursor, const Cand& c, const std::string& reading, const std::string& value) {
    kinds.insert("S07");
    insertAssoc(pfxCursor, c, reading, value);
    st = inputting();
  }
  void insertAssoc(size_t loc, const Cand& c, const std::string& reading, const std::string& value) {
    if (g.readings.empty()) return;
    if (loc == g.readings.size()) --loc;
    size_t past = 0;
    const Grid::Seg* s = w.at(loc, &past);
    if (!s) return;
    auto cs = chars(s->value);
    size_t start = s->start;
    if (cs.size() == s->len)
      for (size_t i = 0; i < cs.size(); ++i) g.choose(start + i, nullptr, cs[i], Grid::kHigh);
    bool whole = g.choose(loc, &reading, value, Grid::kHigh);
    walk();
    size_t have;
    if (whole) {
      have = w.at(loc, &past)->len;
    } else {
      have = splitOn(reading, '-').size();
      past = loc + have;
    }
    size_t first = past - have;
    g.cursor = past;
    auto rs = splitOn(c.reading, '-');
    auto vs = chars(c.value);
    size_t cur = past;
    for (size_t i = have; i < rs.size(); ++i) {
      if (!known(rs[i])) continue;
      g.insert(rs[i]);
      if (i < vs.size()) g.choose(cur, nullptr, vs[i], Grid::kHigh);
      ++cur;
      g.cursor = cur;
    }
    std::pair<size_t, size_t> where;
    if (!g.choose(first, &c.reading, c.value, Grid::kHigh, &where)) fallback = true;
    walk();
  }
  // From an open candidate list.
  bool assocFromChoice(const Cand& c) {
    kinds.insert("S07");
    St a;
    if (!assocState(st, actual(st.orig), c.reading, c.value, false, &a)) return false;
    st = a;
    return true;
  }
  void moveInList(bool right) {
    kinds.insert("S04");
    if (!right) { if (g.cursor > 0) --g.cursor; }
    else if (g.cursor < g.readings.size()) ++g.cursor;
    st = choosing(g.cursor);
  }
  // Plain mode: a key typed while the list is open.
  bool typeThrough(const Key& k, const std::function<void()>& takeHighlighted, bool* ret) {
    kinds.insert("S06");
    if (!cfg.plain) return false;
    std::string ch(1, k.ascii);
    bool starts = rd.isValidKey(k.ascii) || known("_punctuation_" + layoutName + "_" + ch) || known("_punctuation_" + ch) ||
                  (k.ascii >= 'A' && k.ascii <= 'Z' && known("_letter_" + ch));
    if (!starts) return false;
    takeHighlighted();
    reset();
    // the key is handled as if nothing was composed, with whatever is shown
    // staying if the key does nothing
    St shown = st;
    st = St();
    St before = st;
    touched = false;
    *ret = key(k);
    if (!touched) st = shown;
    return true;
  }
  bool touched = false;

  // ---- keys
  bool key(const Key& k) {
    bool r = key2(k);
    return r;
  }
  void show(const St& s) { st = s; touched = true; }

  bool key2(const Key& k) {
    if (k.ascii == '\\' && k.ctrlPressed) {
      kinds.insert("S08");
      kinds.insert("S02");
      emptyDelivering();
      St s;
      s.kind = Kind::Feature;
      show(s);
      reset();
      return true;
    }
    if (st.kind == Kind::Number) return number(k);
    if (st.kind == Kind::Enclosed) return enclosed(k);
    if (st.kind == Kind::Marking) kinds.insert("S05");
    if (cfg.plain) kinds.insert("S06");
    char a = k.ctrlPressed || k.shiftPressed || k.isFromNumberPad ? 0 : k.ascii;
    bool used = false;
    if (rd.isValidKey(a)) {
      kinds.insert("S01");
      rd.combineKey(a);
      used = true;
      if (!rd.hasToneMarker()) { show(inputting()); return true; }
    }
    bool complete = (rd.hasToneMarker() && !rd.hasToneMarkerOnly()) || (!rdEmpty() && a == Key::SPACE);
    if (complete) {
      kinds.insert("S01");
      std::string syl = rd.syllable().composedString();
      rd.clear();
      if (!known(syl)) {
        error = true;
        show(g.readings.empty() ? St() : inputting());
        return true;
      }
      g.insert(syl);
      walk();
      if (!cfg.plain) suggest();
      if (!cfg.plain && cfg.assoc) {
        show(inputting());
        askAssoc(true, true);
      } else if (cfg.plain) {
        St c = choosing(g.cursor);
        if (c.cands.size() == 1) { touched = true; plainChoice(c.cands[0], true); }
        else show(c);
      } else {
        show(inputting());
      }
      return true;
    }
    if (used) { show(inputting()); return true; }
    bool some = notEmpty(st.kind);
    if (k.ascii == Key::SPACE && k.shiftPressed) {
      kinds.insert("S02");
      touched = true;
      if (cfg.lowercase && !cfg.plain) {
        g.insert(" ");
        walk();
        show(inputting());
      } else {
        if (!g.readings.empty()) commit(inputting().text);
        commit(" ");
        reset();
      }
      return true;
    }
    if ((a == Key::SPACE || k.name == Key::KeyName::DOWN) && some && rdEmpty()) {
      kinds.insert("S04");
      size_t orig = g.cursor;
      if (orig == g.readings.size() && cfg.selAfter && cfg.moveAfter && orig) --g.cursor;
      show(choosing(orig));
      return true;
    }
    if (a == Key::ESC) {
      if (!some) { kinds.insert("S03"); return false; }
      kinds.insert("S02");
      if (cfg.escClears) { reset(); show(St()); return true; }
      if (!rdEmpty()) {
        rd.clear();
        show(g.readings.empty() ? St() : inputting());
      } else {
        show(inputting());
      }
      return true;
    }
    if (k.ascii == Key::TAB) return tab(k);
    if (k.isCursorKeys()) return cursorKey(k);
    if (k.isDeleteKeys()) return deleteKey(k);
    if (k.ascii == Key::RETURN) return enter(k);
    if (a == '?' && st.kind == Kind::Marking) {
      kinds.insert("S05");
      St s;
      s.kind = Kind::SelDict;
      s.text = st.text;
      s.cur = st.cur;
      s.tip = st.tip;
      s.say = st.say;
      s.prev = std::make_shared<St>(st);
      s.phrase = st.marked;
      show(s);
      return true;
    }
    kinds.insert("S03");
    if (a == '`' && known("_punctuation_list")) {
      kinds.insert("S04");
      if (!rdEmpty()) { error = true; return true; }
      g.insert("_punctuation_list");
      walk();
      openAtInserted();
      return true;
    }
    if (k.ascii) {
      std::string ch(1, k.ascii);
      if (k.ctrlPressed) return punctuation("_ctrl_punctuation_" + ch);
      if (cfg.half && (punctuation("_half_punctuation_" + layoutName + "_" + ch) || punctuation("_half_punctuation_" + ch))) return true;
      if (punctuation("_punctuation_" + layoutName + "_" + ch) || punctuation("_punctuation_" + ch)) return true;
      if (a >= 'A' && a <= 'Z') {
        kinds.insert("S02");
        if (cfg.lowercase) { punctuation("_letter_" + ch); return true; }
        if (!some) return false;
        touched = true;
        commit(inputting().text);
        commit(ch);
        reset();
        return true;
      }
    }
    if (some) {
      if (st.kind == Kind::Marking) return true;
      error = true;
      show(inputting());
      return true;
    }
    return false;
  }
  void openAtInserted() {
    size_t orig = g.cursor;
    if (cfg.selAfter) g.cursor = orig - 1;
    show(choosing(orig));
  }
  bool punctuation(const std::string& p) {
    if (!known(p)) return false;
    if (!rdEmpty()) { error = true; show(inputting()); return true; }
    g.insert(p);
    walk();
    if (cfg.plain) {
      St c = choosing(g.cursor);
      if (c.cands.size() == 1) { touched = true; plainChoice(c.cands[0], false); }
      else show(c);
    } else {
      show(inputting());
      if (cfg.assoc) askAssoc(true, true);
    }
    return true;
  }
  bool tab(const Key& k) {
    kinds.insert("S04");
    if (rdEmpty() && w.segs.empty()) { kinds.insert("S03"); return false; }
    if (st.kind != Kind::Inputting || !rdEmpty()) { error = true; return true; }
    auto cs = choosing(g.cursor).cands;
    const Grid::Seg* s = w.at(actual(g.cursor));
    if (cs.empty() || !s) { error = true; return true; }
    size_t n = cs.size(), i = 0;
    Cand now{s->reading, s->value};
    if (!s->pinned) {
      if (cs[0] == now) i = k.shiftPressed ? n - 1 : 1 % n;
    } else {
      size_t j = static_cast<size_t>(std::find(cs.begin(), cs.end(), now) - cs.begin());
      if (j < n) i = k.shiftPressed ? (j + n - 1) % n : (j + 1) % n;
    }
    pin(g.cursor, cs[i], false);
    show(inputting());
    return true;
  }
  bool cursorKey(const Key& k) {
    kinds.insert("S01");
    if (k.shiftPressed) kinds.insert("S05");
    if (st.kind != Kind::Inputting && st.kind != Kind::Marking) { kinds.insert("S03"); return false; }
    size_t from = st.kind == Kind::Marking ? st.markStart : g.cursor;
    if (!rdEmpty()) { error = true; show(inputting()); return true; }
    size_t n = g.readings.size();
    if (k.name == Key::KeyName::LEFT) { if (g.cursor) --g.cursor; else error = true; }
    if (k.name == Key::KeyName::RIGHT) { if (g.cursor < n) ++g.cursor; else error = true; }
    if (k.name == Key::KeyName::HOME) g.cursor = 0;
    if (k.name == Key::KeyName::END) g.cursor = n;
    show(k.shiftPressed && g.cursor != from ? marking(from) : inputting());
    return true;
  }
  bool deleteKey(const Key& k) {
    kinds.insert("S01");
    if (!notEmpty(st.kind)) { kinds.insert("S03"); return false; }
    if (rd.hasToneMarkerOnly()) {
      rd.clear();
    } else if (rdEmpty()) {
      bool ok = k.ascii == Key::BACKSPACE ? g.backspace() : g.del();
      if (!ok) { error = true; show(inputting()); return true; }
      walk();
    } else if (k.ascii == Key::BACKSPACE) {
      rd.backspace();
    } else {
      error = true;
    }
    show(rdEmpty() && g.readings.empty() ? St() : inputting());
    return true;
  }
  bool enter(const Key& k) {
    kinds.insert("S02");
    if (!notEmpty(st.kind)) { kinds.insert("S03"); return false; }
    if (!rdEmpty()) { error = true; show(inputting()); return true; }
    if (k.shiftPressed && !cfg.plain) {
      askAssoc(st.kind == Kind::Inputting, false);
      return true;
    }
    if (k.ctrlPressed && !cfg.plain) {
      kinds.insert("S03");
      if (cfg.ctrlEnter == 0) return false;
      std::string o;
      if (cfg.ctrlEnter == 1) {
        o = joinWith(g.readings, "-");
      } else {
        for (auto& s : w.segs) {
          if (s.reading[0] == '_') { o += s.value; continue; }
          o += "<ruby>" + s.value + "<rp>(</rp><rt>" + joinWith(splitOn(s.reading, '-'), " ") + "</rt><rp>)</rp></ruby>";
        }
      }
      touched = true;
      commit(o);
      reset();
      return true;
    }
    if (st.kind == Kind::Marking) {
      kinds.insert("S05");
      if (st.acceptable) {
        adds.push_back({st.reading, st.marked});
        if (st.markStart == g.readings.size()) g.cursor = st.markStart;
        show(inputting());
      } else {
        error = true;
      }
      return true;
    }
    touched = true;
    commit(inputting().text);
    reset();
    return true;
  }

  // ---- numbers
  bool number(const Key& k) {
    kinds.insert("S08");
    if (k.ascii == Key::ESC) { idle(); return true; }
    std::string& n = st.number;
    if (k.isDeleteKeys()) {
      if (n.empty()) error = true;
      else n.pop_back();
      return true;
    }
    if (k.ascii == Key::RETURN) {
      if (n.empty()) { idle(); return true; }
      size_t dot = n.find('.');
      commit(numeral(st.style, n.substr(0, dot), dot == std::string::npos ? "" : n.substr(dot + 1)));
      return true;
    }
    bool room = n.size() <= 20;
    if (k.ascii >= '0' && k.ascii <= '9' && room) n += k.ascii;
    else if (k.ascii == '.' && room && !n.empty() && n.find('.') == std::string::npos) n += '.';
    else error = true;
    return true;
  }
  bool enclosed(const Key& k) {
    kinds.insert("S08");
    if (k.ascii == Key::ESC) { idle(); return true; }
    std::string& n = st.number;
    if (k.isDeleteKeys()) {
      if (n.empty()) error = true;
      else n.pop_back();
      return true;
    }
    if (k.ascii == Key::RETURN || k.ascii == Key::SPACE) {
      if (n.empty()) { idle(); return true; }
      std::string r = "_number_" + n;
      if (!known(r)) { error = true; return true; }
      auto us = words(r);
      if (us.size() == 1) { commit(us[0].value); return true; }
      g.insert(r);
      walk();
      openAtInserted();
      return true;
    }
    if (k.ascii >= '0' && k.ascii <= '9' && n.size() < 3) n += k.ascii;
    else error = true;
    return true;
  }
};

}  // namespace ref
#endif
