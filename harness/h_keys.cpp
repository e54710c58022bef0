// S01-S08: what keys do while composing, against the reference model in
// ref_keys.h.  One driver generates a dictionary, settings and a history of
// keys, list choices and cancellations; each property has its own mix of
// actions and judges the steps that belong to it.
#include <fcitx-utils/log.h>
#include <stdlib.h>
#include <sys/stat.h>

#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "Engine/McBopomofoLM.h"
#include "InputState.h"
#include "KeyHandler.h"
#include "clock.h"
#include "gen_keys.h"
#include "locales.h"
#include "pbt.h"
#include "ref_keys.h"
#include "syllables.h"

using namespace McBopomofo;
using Formosa::Mandarin::BopomofoKeyboardLayout;
using Formosa::Mandarin::BPMF;
using pbt::Ctx;
using pbt::Source;
using ref::Cand;
using ref::Kind;
using ref::St;

namespace {

struct Strings : KeyHandler::LocalizedStrings {
  std::string cursorIsBetweenSyllables(const std::string& a, const std::string& b) override { return "between " + a + " and " + b; }
  std::string syllablesRequired(size_t n) override { return "at least " + std::to_string(n); }
  std::string syllablesMaximum(size_t n) override { return "at most " + std::to_string(n); }
  std::string phraseAlreadyExists() override { return "exists"; }
  std::string pressEnterToAddThePhrase() override { return "enter"; }
  std::string markedWithSyllablesAndStatus(const std::string& m, const std::string& r, const std::string& st) override {
    return "marked " + m + " / " + r + " / " + st;
  }
};
struct Adder : UserPhraseAdder {
  std::vector<std::pair<std::string, std::string>> adds;
  void addUserPhrase(const std::string_view& reading, const std::string_view& phrase) override { adds.push_back({std::string(reading), std::string(phrase)}); }
};

// The shipped plain dictionary and associated phrases, read independently.
struct Shipped {
  std::string plain, assoc;
  std::map<std::string, std::vector<ref::Row>> byReading;
  std::map<std::string, std::vector<std::string>> readingsOf;
  std::vector<std::string> syllables, symbols;  // readings
  std::map<std::string, std::vector<ref::AssocRow>> byFirst;
  std::vector<std::pair<std::string, size_t>> phrases;  // typeable ones, in byFirst
  static Shipped& get() {
    static Shipped x;
    return x;
  }
  static std::string slurp(const std::string& p) {
    std::string o;
    if (FILE* f = fopen(p.c_str(), "rb")) {
      char b[65536];
      size_t n;
      while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
      fclose(f);
    }
    return o;
  }
  template <class F>
  static void eachLine(const std::string& t, F f) {
    size_t i = 0;
    while (i < t.size()) {
      size_t e = t.find('\n', i);
      if (e == std::string::npos) e = t.size();
      if (e > i && t[i] != '#') f(t.substr(i, e - i));
      i = e + 1;
    }
  }
  void load() {
    if (!plain.empty()) return;
    plain = slurp(std::string(REPO_DIR) + "/data/data-plain-bpmf.txt");
    assoc = slurp(std::string(REPO_DIR) + "/data/associated-phrases-v2.txt");
    eachLine(plain, [&](const std::string& l) {
      auto w = ref::splitOn(l, ' ');
      if (w.size() != 3) return;
      auto& v = byReading[w[0]];
      if (v.empty()) (w[0][0] == '_' ? symbols : syllables).push_back(w[0]);
      v.push_back({w[0], w[1], w[2]});
      readingsOf[w[1]].push_back(w[0]);
    });
    eachLine(assoc, [&](const std::string& l) {
      size_t sp = l.rfind(' ');
      if (sp == std::string::npos) return;
      // value and reading alternate; a reading may itself be the separator
      ref::AssocRow a;
      a.row = l;
      a.score = ref::number(l.substr(sp + 1));
      auto w = ref::splitOn(l.substr(0, sp), '-');
      if (w.size() % 2) { odd.push_back(l); return; }
      bool ok = true;
      for (size_t i = 0; i < w.size(); i += 2) {
        a.cs.push_back(w[i]);
        a.rs.push_back(w[i + 1]);
        auto it = byReading.find(w[i + 1]);
        ok = ok && w[i + 1][0] != '_' && it != byReading.end();
        if (ok) {
          bool has = false;
          for (auto& r : it->second) has |= r.value == w[i];
          ok = has;
        }
      }
      auto& v = byFirst[a.cs[0]];
      if (ok) phrases.push_back({a.cs[0], v.size()});
      v.push_back(a);
    });
  }
  std::vector<std::string> odd;
  const ref::AssocRow& phrase(size_t i) { return byFirst[phrases[i].first][phrases[i].second]; }
};

struct Driver : Gen {
  std::string userText, exclText;
  std::shared_ptr<McBopomofoLM> real;
  std::shared_ptr<Adder> adder;
  std::unique_ptr<KeyHandler> kh;
  std::unique_ptr<InputState> cur;
  std::string delivered;
  int errors = 0;
  size_t hi = 0;  // highlighted candidate
  std::set<std::string> history;
  bool touchedList = false;
  size_t judged = 0;
  std::set<std::string> seenKinds;
  std::string uncertain;  // user data not reloaded yet

  Shipped* shipped = nullptr;
  std::string abroad;  // the locale the input method runs in

  Driver(Source& s_, Ctx& c_, const Profile& p_) : Gen(s_, c_, p_) {}

  void useShipped() {
    shipped = &Shipped::get();
    lm.index = &shipped->byReading;
    m.assocIndex = &shipped->byFirst;
    size_t n = 1 + s.below(6);
    for (size_t i = 0; i < n; ++i) pool.push_back(s.pick(shipped->syllables));
    for (size_t i = 0; i < 3; ++i) {
      auto& ph = shipped->phrase(s.below(shipped->phrases.size()));
      if (ph.rs.size() > 5) continue;
      wordReadings.push_back(ph.rs);
      for (auto& r : ph.rs) pool.push_back(r);
      // Others with the same beginning.
      auto& same = shipped->byFirst[ph.cs[0]];
      auto& other = same[s.below(same.size())];
      if (other.rs.size() <= 5 && other.rs[0][0] != '_') wordReadings.push_back(other.rs);
    }
    for (auto& y : pool)
      for (auto& r : shipped->byReading[y]) one[y].push_back(r.value);
    if (s.chance(1, 4)) genUserData();
  }
  // Look-ups in the shipped tables against their rows.
  void lookUps() {
    for (int i = 0; i < 6; ++i) {
      std::string k = s.chance(1, 4) ? s.pick(shipped->symbols) : s.pick(shipped->syllables);
      if (s.chance(1, 5)) k.resize(k.size() - 1);
      else if (s.chance(1, 8)) k += s.coin() ? "-" : s.pick(shipped->syllables);
      if (k.empty() || k == "_" || k.find(' ') != std::string::npos) continue;
      auto it = shipped->byReading.find(k);
      std::vector<std::string> want, got;
      if (it != shipped->byReading.end())
        for (auto& r : it->second)
          if (std::find(want.begin(), want.end(), r.value) == want.end()) want.push_back(r.value);
      McBopomofoLM& l = *bare;
      for (auto& u : l.getUnigrams(k)) got.push_back(u.value());
      PBT_CHECK(got == want, "shipped-words", "the shipped dictionary offers ", got.size(), " words for ", k, ", expected ", want.size());
      PBT_CHECK(l.hasUnigrams(k) == !want.empty(), "shipped-known", k, " is ", want.empty() ? "known" : "not known");
      auto rv = shipped->readingsOf.begin();
      std::advance(rv, static_cast<long>(s.below(shipped->readingsOf.size())));
      double top = 0;
      std::string best;
      for (auto& r : rv->second)
        for (auto& row : shipped->byReading[r])
          if (row.value == rv->first && (best.empty() || row.num() > top)) { best = r; top = row.num(); }
      std::string gotReading = l.getReading(rv->first);
      PBT_CHECK(gotReading == best, "shipped-reading", "the reading of ", rv->first, " is given as ", gotReading, ", expected ", best);
    }
    for (int i = 0; i < 4; ++i) {
      auto& ph = shipped->phrase(s.below(shipped->phrases.size()));
      size_t n = 1 + s.below(ph.cs.size());
      std::vector<std::string> cs(ph.cs.begin(), ph.cs.begin() + static_cast<long>(n)), rs(ph.rs.begin(), ph.rs.begin() + static_cast<long>(n));
      if (n == 1 && s.chance(1, 4)) rs.clear();
      auto want = m.continuations(ref::joinWith(cs, ""), rs);
      auto got = bare->findAssociatedPhrasesV2(ref::joinWith(cs, ""), rs);
      PBT_CHECK(got.size() == want.size(), "shipped-phrases", ref::joinWith(cs, ""), " ", ref::joinWith(rs, "-"), " is continued by ", got.size(), " phrases, expected ", want.size());
      for (size_t k = 0; k < want.size(); ++k)
        PBT_CHECK(got[k].value == want[k].value() && got[k].readings == want[k].rs, "shipped-phrases", "phrase ", k, " after ", ref::joinWith(cs, ""), " is ", got[k].value, ", expected ", want[k].value());
      if (!want.empty() && n < ph.cs.size()) {
        bool there = false;
        for (auto& w : want) there |= w.value() == ph.value();
        PBT_CHECK(there, "model", "the row itself is missing");
      }
    }
  }
  std::unique_ptr<McBopomofoLM> bare;  // the shipped data alone

  void loadUser() {
    userText.clear();
    exclText.clear();
    for (auto& u : lm.user) userText += u.first + " " + u.second + "\n";
    for (auto& u : lm.excluded) exclText += u.first + " " + u.second + "\n";
    Abroad there(abroad);
    real->loadUserPhrases(userText.data(), userText.size());
    real->loadExcludedPhrases(exclText.data(), exclText.size());
    cache.clear();
  }

  void applySettings() {
    Abroad there(abroad);
    kh->setInputMode(m.cfg.plain ? InputMode::PlainBopomofo : InputMode::McBopomofo);
    kh->setKeyboardLayout(layouts()[static_cast<size_t>(m.cfg.layout)]);
    kh->setSelectPhraseAfterCursorAsCandidate(m.cfg.selAfter);
    kh->setMoveCursorAfterSelection(m.cfg.moveAfter);
    kh->setEscKeyClearsEntireComposingBuffer(m.cfg.escClears);
    kh->setPutLowercaseLettersToComposingBuffer(m.cfg.lowercase);
    kh->setCtrlEnterKeyBehavior(static_cast<KeyHandlerCtrlEnter>(m.cfg.ctrlEnter));
    kh->setAssociatedPhrasesEnabled(m.cfg.assoc);
    kh->setHalfWidthPunctuationEnabled(m.cfg.half);
    m.rd.setKeyboardLayout(layouts()[static_cast<size_t>(m.cfg.layout)]);
    m.layoutName = kLayoutNames[m.cfg.layout];
    c.log("settings:", m.cfg.plain ? " plain" : "", m.cfg.selAfter ? " select-after-cursor" : "", m.cfg.moveAfter ? " move-cursor-after-selection" : "",
          m.cfg.lowercase ? " lowercase-letters" : "", m.cfg.escClears ? " esc-clears-all" : "", m.cfg.assoc ? " associated-phrases" : "",
          m.cfg.half ? " half-width" : "", " ctrl-enter=", m.cfg.ctrlEnter, " layout=", m.layoutName);
  }
  // ---------------------------------------------------------- comparing
  Kind realKind() const {
    InputState* x = cur.get();
    if (dynamic_cast<InputStates::Inputting*>(x)) return Kind::Inputting;
    if (dynamic_cast<InputStates::ChoosingCandidate*>(x)) return Kind::Choosing;
    if (dynamic_cast<InputStates::Marking*>(x)) return Kind::Marking;
    if (dynamic_cast<InputStates::AssociatedPhrases*>(x)) return Kind::Assoc;
    if (dynamic_cast<InputStates::AssociatedPhrasesPlain*>(x)) return Kind::AssocPlain;
    if (dynamic_cast<InputStates::SelectingFeature*>(x)) return Kind::Feature;
    if (dynamic_cast<InputStates::SelectingDateMacro*>(x)) return Kind::DateMacro;
    if (dynamic_cast<InputStates::ChineseNumber*>(x)) return Kind::Number;
    if (dynamic_cast<InputStates::EnclosingNumber*>(x)) return Kind::Enclosed;
    if (dynamic_cast<InputStates::SelectingDictionary*>(x)) return Kind::SelDict;
    return Kind::Idle;
  }
  void differ(const char* field, const std::string& detail) {
    std::set<std::string> who = m.kinds;
    std::string f = field;
    if (f == "text" || f == "cursor" || f == "hint") who.insert("S01");
    if (f == "delivered") who.insert("S02");
    if (f == "consumed") who.insert("S03");
    if (f == "added phrases") who.insert("S05");
    if (f == "mark") who.insert("S05");
    if (f == "run") who.insert("S07");
    if (f == "number") who.insert("S08");
    if (f == "candidates") who.insert(m.st.kind == Kind::Assoc ? "S07" : m.cfg.plain || m.st.kind == Kind::AssocPlain ? "S06" : "S04");
    if (m.cfg.plain && f == "delivered") who.insert("S06");
    // What an earlier step did to this composition, or the end of the last one
    // left behind, shows only now.
    for (auto& h : history) who.insert(h);
    if (shipped) who.insert("D02");
    if (!abroad.empty()) who.insert("C01");
    if (f == "memory" || who.count(p.id)) pbt::fail(field, detail);
    c.label(std::string("left to another property: ") + field);
    throw pbt::Stop();
  }
  static std::string show(const std::vector<Cand>& v) {
    std::string o;
    for (auto& x : v) o += " " + x.value + "(" + x.reading + ")";
    return o;
  }
  void compare(const std::string& what, bool ret, bool wantRet) {
    const St& w = m.st;
    if (delivered != m.delivered) differ("delivered", pbt::cat(what, ": delivered '", delivered, "', expected '", m.delivered, "'"));
    if (ret != wantRet) differ("consumed", pbt::cat(what, ": ", ret ? "consumed" : "passed to the application", ", expected otherwise"));
    if ((errors > 0) != m.error) differ("error", pbt::cat(what, ": ", errors ? "signals an error" : "signals no error"));
    if (adder->adds != m.adds) {
      std::string o = pbt::cat(what, ": added");
      for (auto& a : adder->adds) o += " " + a.second + " " + a.first;
      o += ", expected";
      for (auto& a : m.adds) o += " " + a.second + " " + a.first;
      differ("added phrases", o);
    }
    Kind k = realKind();
    if (k != w.kind) differ("state", pbt::cat(what, ": now ", ref::kindName(k), ", expected ", ref::kindName(w.kind)));
    if (auto* ne = dynamic_cast<InputStates::NotEmpty*>(cur.get())) {
      if (ne->composingBuffer != w.text) differ("text", pbt::cat(what, ": shows '", ne->composingBuffer, "', expected '", w.text, "'"));
      if (ne->cursorIndex != w.cur) differ("cursor", pbt::cat(what, ": cursor at byte ", ne->cursorIndex, " of '", w.text, "', expected ", w.cur));
      if (k != Kind::Choosing && ne->tooltip != w.tip) differ("hint", pbt::cat(what, ": hint '", ne->tooltip, "', expected '", w.tip, "'"));
    }
    std::vector<Cand> cs;
    auto take = [&](const std::vector<InputStates::ChoosingCandidate::Candidate>& v) {
      for (auto& x : v) cs.push_back({x.reading, x.value});
    };
    if (auto* x = dynamic_cast<InputStates::ChoosingCandidate*>(cur.get())) {
      take(x->candidates);
      if (x->originalCursor != w.orig) differ("cursor", pbt::cat(what, ": would return to reading ", x->originalCursor, ", expected ", w.orig));
    }
    if (auto* x = dynamic_cast<InputStates::AssociatedPhrases*>(cur.get())) {
      take(x->candidates);
      if (x->prefixReading != w.pfxReading || x->prefixValue != w.pfxValue || x->useShiftKey != w.shift)
        differ("run", pbt::cat(what, ": continues ", x->prefixValue, "(", x->prefixReading, "), expected ", w.pfxValue, "(", w.pfxReading, ")"));
    }
    if (auto* x = dynamic_cast<InputStates::AssociatedPhrasesPlain*>(cur.get())) take(x->candidates);
    if (!(cs == w.cands)) differ("candidates", pbt::cat(what, ": offers", show(cs), "; expected", show(w.cands)));
    if (auto* x = dynamic_cast<InputStates::Marking*>(cur.get())) {
      if (x->head != w.head || x->markedText != w.marked || x->tail != w.tail || x->reading != w.reading || x->markStartGridCursorIndex != w.markStart)
        differ("mark", pbt::cat(what, ": marks ", x->head, "[", x->markedText, "]", x->tail, " ", x->reading, ", expected ", w.head, "[", w.marked, "]", w.tail, " ", w.reading));
      if (x->head + x->markedText + x->tail != x->composingBuffer) differ("mark", pbt::cat(what, ": the parts ", x->head, "[", x->markedText, "]", x->tail, " are not ", x->composingBuffer));
      if (x->acceptable != w.acceptable) differ("mark", pbt::cat(what, ": the mark of ", x->markedText, " ", x->reading, " is ", x->acceptable ? "" : "not ", "acceptable"));
    }
    if (auto* x = dynamic_cast<InputStates::ChineseNumber*>(cur.get()))
      if (x->number != w.number || static_cast<int>(x->style) != w.style) differ("number", pbt::cat(what, ": number '", x->number, "', expected '", w.number, "'"));
    if (auto* x = dynamic_cast<InputStates::EnclosingNumber*>(cur.get()))
      if (x->number != w.number) differ("number", pbt::cat(what, ": number '", x->number, "', expected '", w.number, "'"));
    if (auto* x = dynamic_cast<InputStates::SelectingDictionary*>(cur.get()))
      if (x->selectedPhrase != w.phrase) differ("word", pbt::cat(what, ": looks up '", x->selectedPhrase, "', expected '", w.phrase, "'"));
    if (c.tracing && !m.w.segs.empty()) {
      std::string o;
      for (auto& g : m.w.segs) o += (g.pinned ? " *" : " ") + g.value + "(" + g.reading + ")";
      c.log("     words", o);
    }
    c.log("  -> ", ref::kindName(k), w.text.empty() ? "" : " '" + w.text.substr(0, w.cur) + "|" + w.text.substr(w.cur) + "'", delivered.empty() ? "" : ", delivered '" + delivered + "'",
          errors ? ", error" : "", ret ? "" : ", passed on");
    // what was exercised
    for (auto& kd : m.kinds) seenKinds.insert(kd);
    if (m.kinds.count(p.id) || shipped || !abroad.empty()) {
      ++judged;
      c.mix(static_cast<uint64_t>(k));
      c.mix(w.text);
      c.mix(delivered);
    }
    const bool ended = w.kind == Kind::Idle && m.g.readings.empty();
    if (ended && !m.kinds.empty() && !(m.kinds.size() == 1 && m.kinds.count("S03"))) history.clear();
    for (auto& kd : m.kinds)
      if (kd != "S01" && kd != "S03") history.insert(kd);
  }
  KeyHandler::StateCallback sink() {
    return [this](std::unique_ptr<InputState> next) {
      if (dynamic_cast<InputStates::Empty*>(next.get())) {
        if (auto* ne = dynamic_cast<InputStates::NotEmpty*>(cur.get())) delivered += ne->composingBuffer;
      } else if (auto* x = dynamic_cast<InputStates::Committing*>(next.get())) {
        delivered += x->text;
      }
      cur = std::move(next);
    };
  }
  KeyHandler::ErrorCallback oops() {
    return [this]() { ++errors; };
  }
  // Runs a step on the model, then on the real thing, then compares.
  template <class M, class R>
  void step(const std::string& what, M model, R realf) {
    c.log(what);
    m.begin();
    delivered.clear();
    errors = 0;
    adder->adds.clear();
    hi = 0;
    bool want = true;
    try {
      want = model();
    } catch (ref::Tie&) {
      c.label("tie");
      throw pbt::Stop();
    }
    bool got;
    {
      Abroad there(abroad);
      got = realf();
    }
    compare(what, got, want);
  }

  // ---------------------------------------------------------- actions
  void key(const Key& k) {
    step("key " + keyText(k), [&] { return m.key(k); }, [&] { return kh->handle(k, cur.get(), sink(), oops()); });
  }
  void ascii(char ch, bool shift = false, bool ctrl = false, bool pad = false) { key(Key::asciiKey(ch, shift, ctrl, pad)); }
  bool typing() const { return m.st.kind == Kind::Idle || m.st.kind == Kind::Inputting || m.st.kind == Kind::Marking; }
  void syllable(const std::string& syl) {
    for (char ch : sequence(syl)) {
      ascii(ch);
      if (!typing()) return;
    }
  }
  void named(Key::KeyName n, bool shift = false, bool ctrl = false, bool pad = false) { key(Key::namedKey(n, shift, ctrl, pad)); }

  // A key while no list is open.
  void keyed() {
    if (m.st.kind == Kind::Number || m.st.kind == Kind::Enclosed) {
      switch (s.weighted({12, 3, 2, 2, 1, 1, 1, 2})) {
        case 0: ascii(static_cast<char>('0' + s.below(10)), false, false, s.chance(1, 8)); break;
        case 1: ascii('.'); break;
        case 2: ascii(s.coin() ? Key::BACKSPACE : Key::DELETE); break;
        case 3: ascii(Key::RETURN); break;
        case 4: ascii(s.coin() ? Key::SPACE : 'a'); break;
        case 5: ascii(Key::ESC); break;
        case 6: anyKey(); break;
        case 7: {  // up to the longest number there may be, and on
          const size_t n = 15 + s.below(10);
          const size_t dot = s.coin() ? s.below(26) : 99;
          for (size_t i = 0; i < n && (m.st.kind == Kind::Number || m.st.kind == Kind::Enclosed); ++i) ascii(i == dot ? '.' : static_cast<char>('0' + s.below(10)));
          if (s.coin()) ascii('.');
          break;
        }
      }
      return;
    }
    switch (s.weighted(p.act)) {
      case 0: {  // words, or single syllables
        if (!wordReadings.empty() && s.coin()) {
          for (auto& r : s.pick(wordReadings)) {
            syllable(r);
            if (!typing()) return;
          }
        } else {
          const std::string& y = s.pick(pool);
          const bool alone = shipped && m.st.kind == Kind::Idle && m.g.readings.empty() && m.rdEmpty();
          syllable(y);
          if (alone) offered(y);
        }
        break;
      }
      case 1: syllable(s.pick(kSyls)); break;
      case 2: {
        std::string q = sequence(s.pick(kSyls));
        ascii(q[s.below(q.size())]);
        break;
      }
      case 3: {
        static const std::vector<Key::KeyName> ks = {Key::KeyName::LEFT, Key::KeyName::RIGHT, Key::KeyName::HOME, Key::KeyName::END, Key::KeyName::LEFT, Key::KeyName::LEFT};
        bool sh = s.chance(is("S05") ? 4 : 1, 6);
        size_t n = 1 + s.below(3);
        Key::KeyName k = s.pick(ks);
        for (size_t i = 0; i < n && typing(); ++i) named(k, sh, false, s.chance(1, 10));
        break;
      }
      case 4: ascii(s.coin() ? Key::BACKSPACE : Key::DELETE, s.chance(1, 20)); break;
      case 5: {
        size_t w = s.weighted({4, is("S07") ? 6 : 2, is("S02") ? 3 : 1, 1});
        ascii(Key::RETURN, w == 1 || w == 3, w == 2 || w == 3, s.chance(1, 10));
        break;
      }
      case 6: {
        size_t w = s.weighted({4, 3, 1});
        if (w == 0) ascii(Key::SPACE);
        else if (w == 1) named(Key::KeyName::DOWN);
        else ascii(Key::SPACE, true);
        break;
      }
      case 7: ascii(Key::ESC); break;
      case 8: {
        size_t n = 1 + s.below(3);
        bool sh = s.chance(1, 3);
        for (size_t i = 0; i < n && typing(); ++i) ascii(Key::TAB, sh);
        break;
      }
      case 9: {
        if (shipped) {
          ascii(static_cast<char>(33 + s.below(94)), false, s.chance(1, 5));
          break;
        }
        static const std::string ks = "<<>>!!-,.?`A\\";
        char ch = ks[s.below(ks.size())];
        ascii(ch, false, s.chance(1, 5));
        break;
      }
      case 10: ascii(static_cast<char>('A' + s.below(s.chance(is("C01") ? 1 : 3, 4) ? 3 : 26))); break;
      case 11: ascii('`'); break;
      case 12: anyKey(); break;
      case 13: ascii('\\', false, true); break;
      case 14: ascii('?'); break;
    }
  }
  // Every word of the syllable just typed is on offer.
  void offered(const std::string& y) {
    std::set<std::string> out;
    for (auto& e : lm.excluded)
      if (e.second == y) out.insert(e.first);
    // Bare initials and the like are not syllables on every layout.
    static const std::set<std::string> bases = [] {
      auto v = ref::splitOn(kBaseText, ' ');
      return std::set<std::string>(v.begin(), v.end());
    }();
    std::string base = y;
    for (const char* tone : {"ˊ", "ˇ", "ˋ", "˙"})
      if (auto at = base.find(tone); at != std::string::npos) base.erase(at);
    if (!bases.count(base)) return;
    size_t left = 0;
    for (auto& r : shipped->byReading[y]) left += out.count(r.value) == 0;
    if (!left) return;
    std::set<std::string> have;
    if (m.cfg.plain) {
      auto* v = realCands();
      if (!delivered.empty()) have.insert(delivered);
      else if (v) for (auto& x : *v) have.insert(x.value);
    } else {
      auto* ne = dynamic_cast<InputStates::NotEmpty*>(cur.get());
      if (!ne) return;
      auto list = kh->buildChoosingCandidateState(ne, 0);
      for (auto& x : list->candidates) have.insert(x.value);
    }
    for (auto& r : shipped->byReading[y])
      if (!out.count(r.value)) PBT_CHECK(have.count(r.value), "not-offered", r.value, " is not offered after typing ", y, " on ", m.layoutName);
    c.label("words of a typed syllable judged");
  }
  void anyKey() {
    bool sh = s.chance(1, 4), ct = s.chance(1, 4), pad = s.chance(1, 6);
    if (s.chance(1, 3)) named(static_cast<Key::KeyName>(s.below(8)), sh, ct, pad);
    else {
      char ch = static_cast<char>(s.below(128));
      if (ch > 32 && ch < 127) sh = false;  // see the comment in Key.h
      ascii(ch, sh, ct, pad);
    }
  }
  const std::vector<InputStates::ChoosingCandidate::Candidate>* realCands() const {
    if (auto* x = dynamic_cast<InputStates::ChoosingCandidate*>(cur.get())) return &x->candidates;
    if (auto* x = dynamic_cast<InputStates::AssociatedPhrases*>(cur.get())) return &x->candidates;
    if (auto* x = dynamic_cast<InputStates::AssociatedPhrasesPlain*>(cur.get())) return &x->candidates;
    return nullptr;
  }
  void realSelect(size_t i) {
    InputStates::ChoosingCandidate::Candidate x = (*realCands())[i];
    auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(cur.get());
    kh->candidateSelected(x, ch ? ch->originalCursor : 0, sink());
  }
  void cancelList() {
    size_t orig = m.st.kind == Kind::Choosing ? m.st.orig : 0;
    step("close the list", [&] { m.cancel(orig); return true; }, [&] { kh->candidatePanelCancelled(orig, sink()); return true; });
  }
  void listed() {
    switch (m.st.kind) {
      case Kind::Choosing: {
        size_t n = m.st.cands.size();
        size_t a = s.weighted(p.list);
        if (a == 0 && n) {
          size_t i = s.below(n);
          Cand x = m.st.cands[i];
          size_t orig = m.st.orig;
          step(pbt::cat("choose ", x.value, "(", x.reading, ")"), [&] { m.select(x, orig); return true; }, [&] { realSelect(i); return true; });
        } else if (a == 1) {
          cancelList();
        } else if (a == 2 && !m.cfg.plain) {
          bool right = s.coin();
          step(right ? "list for the next position" : "list for the previous position", [&] { m.moveInList(right); return true; }, [&] {
            size_t k = kh->candidateCursorIndex();
            if (right) ++k;
            else if (k) --k;
            kh->setCandidateCursorIndex(k);
            auto in = kh->buildInputtingState();
            sink()(kh->buildChoosingCandidateState(in.get(), kh->candidateCursorIndex()));
            return true;
          });
        } else if (a == 3 && n) {
          if (m.cfg.plain) typeThrough(n);
          else {
            size_t i = s.below(n);
            Cand x = m.st.cands[i];
            size_t orig = m.st.orig;
            step(pbt::cat("phrases that begin with ", x.value, "(", x.reading, ")"), [&] { m.assocFromChoice(x); return true; }, [&] {
              auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(cur.get());
              auto st = kh->buildAssociatedPhrasesStateFromCandidateChoosingState(std::make_unique<InputStates::ChoosingCandidate>(*ch), orig, x.reading, x.value, i);
              if (st) sink()(std::move(st));
              return true;
            });
          }
        } else {
          cancelList();
        }
        break;
      }
      case Kind::Assoc: {
        size_t n = m.st.cands.size();
        size_t a = s.weighted({6, 2, m.st.shift ? 4 : 0});
        if (a == 0) {
          size_t i = s.below(n);
          Cand x = m.st.cands[i];
          St was = m.st;
          auto before = m.w;
          auto readings = m.g.readings;
          step(pbt::cat("take the phrase ", x.value, "(", x.reading, ")"), [&] { m.selectAssoc(was.pfxCursor, x, was.pfxReading, was.pfxValue); return true; },
               [&] {
                 InputStates::ChoosingCandidate::Candidate y = (*realCands())[i];
                 auto* st = dynamic_cast<InputStates::AssociatedPhrases*>(cur.get());
                 std::string pr = st->prefixReading, pv = st->prefixValue;
                 kh->candidateAssociatedPhraseSelected(st->prefixCursorIndex, y, pr, pv, sink());
                 return true;
               });
          judgePhrase(was, x, before, readings);
        } else if (a == 1) {
          if (m.st.shift) {
            ascii(Key::ESC);
          } else {
            step("leave the phrases", [&] {
                   m.kinds.insert("S07");
                   St p2 = *m.st.prev;
                   m.st = p2;
                   return true;
                 },
                 [&] {
                   auto* st = dynamic_cast<InputStates::AssociatedPhrases*>(cur.get());
                   if (auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(st->previousState.get())) sink()(std::make_unique<InputStates::ChoosingCandidate>(*ch));
                   else if (auto* in = dynamic_cast<InputStates::Inputting*>(st->previousState.get())) sink()(std::make_unique<InputStates::Inputting>(*in));
                   return true;
                 });
          }
        } else {
          keyed();
        }
        break;
      }
      case Kind::AssocPlain: {
        size_t a = s.weighted({4, 2, 4});
        if (a == 0) {
          size_t i = s.below(m.st.cands.size());
          Cand x = m.st.cands[i];
          step(pbt::cat("choose ", x.value), [&] { m.select(x, 0); return true; }, [&] { realSelect(i); return true; });
        } else if (a == 1) {
          cancelList();
        } else {
          step("dismiss the follow-up list", [&] { m.kinds.insert("S06"); m.idle(); return true; }, [&] { sink()(std::make_unique<InputStates::Empty>()); return true; });
          keyed();
        }
        break;
      }
      case Kind::Feature: {
        if (s.chance(1, 6)) { cancelList(); break; }
        size_t i = 1 + s.below(4);
        if (s.chance(1, 12)) i = 0;
        step(pbt::cat("feature ", i), [&] {
               m.kinds.insert("S08");
               St x;
               x.kind = i == 0 ? Kind::DateMacro : i == 1 ? Kind::Enclosed : Kind::Number;
               x.style = i < 2 ? 0 : static_cast<int>(i) - 2;
               m.st = x;
               return true;
             },
             [&] {
               auto next = dynamic_cast<InputStates::SelectingFeature*>(cur.get())->nextState(i);
               sink()(std::move(next));
               return true;
             });
        break;
      }
      case Kind::DateMacro: cancelList(); break;
      case Kind::SelDict:
        step("leave the dictionaries", [&] { m.kinds.insert("S05"); St p2 = *m.st.prev; m.st = p2; return true; }, [&] {
          auto* st = dynamic_cast<InputStates::SelectingDictionary*>(cur.get());
          auto* mk = dynamic_cast<InputStates::Marking*>(st->previousState.get());
          sink()(std::make_unique<InputStates::Marking>(*mk));
          return true;
        });
        break;
      default: keyed();
    }
  }
  // Independent of the step-by-step model: the run was replaced by the phrase
  // and nothing else changed, provided every character involved is a word of
  // its own.
  void judgePhrase(const St& was, const Cand& x, const ref::Grid::Walk& before, const std::vector<std::string>& readings) {
    (void)readings;
    if (was.prev->kind != Kind::Inputting) return;
    size_t past = 0;
    const ref::Grid::Seg* sg = before.at(was.pfxCursor, &past);
    if (!sg) return;
    auto isWord = [&](const std::string& r, const std::string& v) {
      for (auto& u : words(r))
        if (u.value == v) return true;
      return false;
    };
    auto cs = ref::chars(sg->value), rs = ref::splitOn(sg->reading, '-');
    if (cs.size() != sg->len || rs.size() != sg->len) return;
    for (size_t i = 0; i < cs.size(); ++i)
      if (!isWord(rs[i], cs[i])) return;
    auto pc = ref::chars(x.value), pr = ref::splitOn(x.reading, '-');
    if (pc.size() != pr.size()) return;
    for (size_t i = 0; i < pc.size(); ++i)
      if (!isWord(pr[i], pc[i])) return;
    if (!isWord(was.pfxReading, was.pfxValue)) return;
    std::string all = before.text();
    size_t upTo = was.cur;  // the run ends at the cursor
    std::string head = all.substr(0, upTo), tail = all.substr(upTo);
    if (head.size() < was.pfxValue.size()) return;
    head.resize(head.size() - was.pfxValue.size());
    auto* in = dynamic_cast<InputStates::NotEmpty*>(cur.get());
    if (!is("S07")) return;
    c.label(m.fallback ? "phrase not in the dictionary" : "phrase in the dictionary");
    PBT_CHECK(in && in->composingBuffer == head + x.value + tail, "rest-changed", "taking ", x.value, " for ", was.pfxValue, " in '", all, "' gives '", in ? in->composingBuffer : "", "'");
    PBT_CHECK(in->cursorIndex == head.size() + x.value.size(), "cursor-not-behind", "the cursor is at byte ", in->cursorIndex, " of '", in->composingBuffer, "' after taking ", x.value);
  }
  void typeThrough(size_t n) {
    // the highlighted candidate, as moved by the engine
    size_t i = s.below(n);
    Cand x = m.st.cands[i];
    std::string keys = "<!,.A`\\bB1-a";
    for (auto& y : pool) keys += sequence(y).substr(0, 1);
    Key k = s.chance(1, 6) ? Key::asciiKey(static_cast<char>(s.below(128)), false, s.chance(1, 4), s.chance(1, 4)) : Key::asciiKey(keys[s.below(keys.size())], false, s.chance(1, 12));
    std::string shown = m.st.text;
    step(pbt::cat("key ", keyText(k), " with ", x.value, " highlighted"), [&] {
           bool r = false;
           return m.typeThrough(k, [&] { m.select(x, m.st.orig); }, &r);
         },
         [&] { return kh->handleCandidateKeyForTraditionalBopomofoIfRequired(k, [&] { realSelect(i); }, sink(), oops()); });
  }

  void run() {
    m.learned.capacity = 500;
    m.learned.half = 5400;
    g_fakeClock = true;
    g_fakeMicros = 1700000000LL * 1000000;
    m.now = 1700000000;
    if (s.chance(is("D02") ? 3 : is("C01") ? 2 : 1, 4)) m.cfg.layout = static_cast<int>(s.below(6));
    genSettings();
    if (is("C01")) {
      abroad = s.pick(Locales::get().names);
      c.log("in ", abroad);
      c.label("in " + abroad);
    }
    real = std::make_shared<McBopomofoLM>();
    if (is("D02")) {
      useShipped();
      for (McBopomofoLM* l : {real.get(), (bare = std::make_unique<McBopomofoLM>()).get()}) {
        l->loadLanguageModel((std::string(REPO_DIR) + "/data/data-plain-bpmf.txt").c_str());
        l->loadAssociatedPhrasesV2((std::string(REPO_DIR) + "/data/associated-phrases-v2.txt").c_str());
      }
      lookUps();
    } else {
      genDictionary();
      Abroad there(abroad);
      real->loadLanguageModel(std::make_unique<ParselessPhraseDB>(dbText.data(), dbText.size()));
      real->loadAssociatedPhrasesV2(std::make_unique<ParselessPhraseDB>(assocText.data(), assocText.size(), true));
    }
    if (c.tracing) {
      c.log("dictionary:\n", dbText, "associated phrases:\n", assocText);
      for (auto& u : lm.user) c.log("user phrase ", u.first, " ", u.second);
      for (auto& u : lm.excluded) c.log("excluded ", u.first, " ", u.second);
    }
    loadUser();
    adder = std::make_shared<Adder>();
    auto there = std::make_unique<Abroad>(abroad);
    kh = std::make_unique<KeyHandler>(real, adder, std::make_unique<Strings>());
    kh->setOnAddNewPhrase([](const std::string&) {});
    there.reset();
    m.words = [this](const std::string& r) -> const std::vector<ref::Uni>& { return words(r); };
    m.known = [this](const std::string& r) { return !words(r).empty(); };
    m.g.lm = m.words;
    m.numeral = [](int style, const std::string& ip, const std::string& dp) {
      if (style == 2) return SuzhouNumbers::Generate(ip, dp, "單位", true);
      return ChineseNumbers::Generate(ip, dp, style == 0 ? ChineseNumbers::ChineseNumberCase::LOWERCASE : ChineseNumbers::ChineseNumberCase::UPPERCASE);
    };
    applySettings();
    cur = std::make_unique<InputStates::Empty>();
    size_t n = 0;
    std::vector<std::pair<std::string, std::string>> added;
    try {
      while (s.more(n, p.avg, 150)) {
        ++n;
        if (m.st.kind == Kind::Idle && m.g.readings.empty() && m.rdEmpty()) {
          if (!added.empty() && s.coin()) {
            for (auto& a : added) lm.user.push_back({a.second, a.first});
            added.clear();
            loadUser();
            c.log("user phrases reloaded");
          }
          if (s.chance(1, 25)) {
            genSettings();
            if (s.chance(1, 3)) m.cfg.layout = static_cast<int>(s.below(6));
            applySettings();
          }
          if (s.chance(1, 25)) {
            int64_t sec = static_cast<int64_t>(s.below(4)) * 5400 + static_cast<int64_t>(s.below(5400));
            g_fakeMicros += sec * 1000000;
            m.now += static_cast<double>(sec);
            c.log(sec, " seconds pass");
          }
        }
        switch (m.st.kind) {
          case Kind::Idle: case Kind::Inputting: case Kind::Marking: case Kind::Number: case Kind::Enclosed: keyed(); break;
          default: listed();
        }
        for (auto& a : m.adds)
          if (a.first.find(' ') == std::string::npos && a.second.find(' ') == std::string::npos && !a.second.empty()) added.push_back(a);
      }
    } catch (pbt::Stop&) {
    }
    c.label(m.cfg.plain ? "plain mode" : "smart mode");
    for (auto& k : seenKinds) c.label("steps of " + k);
    if (m.suggested || !m.learned.known.empty()) c.label("something learned");
    g_fakeClock = false;
    if (judged >= 3) c.interesting();
  }
};

// act:   syllable, unknown, one key, cursor, delete, enter, space/down, esc, tab, punct, letter, `, any, menu, ?
// list:  choose, cancel, move, phrases/type-through
const Profile kProfiles[] = {
    {"S01", 2, 2, 10, {16, 3, 4, 12, 6, 1, 2, 1, 1, 2, 1, 1, 2, 0, 0}, {4, 2, 1, 1}, 16},
    {"S02", 3, 2, 5, {14, 1, 2, 4, 1, 8, 2, 4, 1, 3, 4, 1, 2, 1, 0}, {4, 1, 0, 1}, 16},
    {"S03", 4, 2, 3, {6, 1, 2, 3, 4, 3, 3, 3, 2, 10, 4, 2, 10, 1, 1}, {3, 3, 0, 1}, 18},
    {"S04", 0, 1, 4, {14, 0, 0, 5, 1, 2, 12, 1, 6, 2, 0, 1, 1, 0, 0}, {10, 3, 3, 0}, 22},
    {"S05", 0, 1, 8, {16, 0, 1, 18, 1, 8, 1, 1, 0, 2, 0, 0, 1, 0, 2}, {4, 1, 0, 0}, 20},
    {"S06", 20, 8, 3, {14, 2, 2, 1, 1, 1, 1, 2, 1, 6, 2, 2, 3, 0, 0}, {8, 2, 0, 8}, 22},
    {"S07", 0, 8, 3, {16, 0, 1, 6, 1, 8, 6, 1, 1, 2, 0, 0, 1, 0, 0}, {4, 2, 1, 6}, 20},
    {"S08", 4, 1, 1, {4, 0, 0, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1, 14, 0}, {4, 2, 0, 1}, 26},
    {"C01", 2, 5, 5, {16, 2, 2, 6, 3, 4, 6, 1, 3, 3, 4, 1, 2, 3, 1}, {6, 3, 2, 2}, 18},
    {"D02", 12, 8, 0, {16, 2, 1, 4, 2, 4, 4, 1, 1, 8, 2, 3, 0, 1, 1}, {8, 2, 1, 4}, 14},
};
template <int I>
void prop(Source& s, Ctx& c) {
  Driver d(s, c, kProfiles[I]);
  d.run();
}
void init() {
  fcitx::Log::setLogRule("*=0");
  const char* base = getenv("PBT_SCRATCH");
  std::string b = base ? base : "/nonexistent";
  for (const char* v : {"HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_DIRS", "XDG_CONFIG_DIRS"}) setenv(v, (b + "/" + v).c_str(), 1);
}

void initAbroad() {
  init();
  Locales::get().load();
}

void initShipped() {
  init();
  Shipped::get().load();
}

}  // namespace

#define KEYS_RULE "a case is a generated dictionary, settings and a history of keys, choices and cancellations; non-trivial when at least three steps belonging to the property were judged"
const std::vector<pbt::Property> pbt::kProperties = {
    {"S01", KEYS_RULE, prop<0>, 40000, 1500000, init}, {"S02", KEYS_RULE, prop<1>, 40000, 1500000, init},
    {"S03", KEYS_RULE, prop<2>, 40000, 1500000, init}, {"S04", KEYS_RULE, prop<3>, 40000, 1500000, init},
    {"S05", KEYS_RULE, prop<4>, 40000, 1500000, init}, {"S06", KEYS_RULE, prop<5>, 40000, 1500000, init},
    {"S07", KEYS_RULE, prop<6>, 40000, 1500000, init}, {"S08", KEYS_RULE, prop<7>, 40000, 1500000, init},
    {"D02", "a case is a set of look-ups in the shipped tables and a history of keys, choices and cancellations with them on one of the six layouts; non-trivial when at least three steps were judged", prop<9>, 16000, 600000, initShipped},
    {"C01", "a case is a locale, a generated dictionary, settings and a history of keys, choices and cancellations; non-trivial when at least three steps were judged", prop<8>, 20000, 800000, initAbroad},
};
