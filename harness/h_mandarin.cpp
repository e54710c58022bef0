// B01 (keyboard layouts and the reading buffer), B02 (spellings of a syllable).
#include <array>
#include <map>
#include <set>

#include "Mandarin/Mandarin.h"
#include "pbt.h"
#include "syllables.h"

using Formosa::Mandarin::BopomofoKeyboardLayout;
using Formosa::Mandarin::BopomofoReadingBuffer;
using Formosa::Mandarin::BPMF;
using pbt::Ctx;
using pbt::Source;

namespace {

// An independent description of Bopomofo: four slots of symbols, by number.
const std::vector<std::string> kCons = {"", "ㄅ", "ㄆ", "ㄇ", "ㄈ", "ㄉ", "ㄊ", "ㄋ", "ㄌ", "ㄍ", "ㄎ", "ㄏ", "ㄐ", "ㄑ", "ㄒ", "ㄓ", "ㄔ", "ㄕ", "ㄖ", "ㄗ", "ㄘ", "ㄙ"};
const std::vector<std::string> kMid = {"", "ㄧ", "ㄨ", "ㄩ"};
const std::vector<std::string> kVow = {"", "ㄚ", "ㄛ", "ㄜ", "ㄝ", "ㄞ", "ㄟ", "ㄠ", "ㄡ", "ㄢ", "ㄣ", "ㄤ", "ㄥ", "ㄦ"};
const std::vector<std::string> kTone = {"", "ˊ", "ˇ", "ˋ", "˙"};
const std::vector<const std::vector<std::string>*> kSlots = {&kCons, &kMid, &kVow, &kTone};

struct Syl {
  std::array<int, 4> c{0, 0, 0, 0};
  bool operator==(const Syl& o) const { return c == o.c; }
  std::string text() const {
    std::string t;
    for (int i = 0; i < 4; ++i) t += (*kSlots[i])[c[i]];
    return t;
  }
  int count() const { return !!c[0] + !!c[1] + !!c[2] + !!c[3]; }
  bool empty() const { return count() == 0; }
  BPMF real() const {
    return BPMF(static_cast<BPMF::Component>(c[0] | (c[1] << 5) | (c[2] << 7) | (c[3] << 11)));
  }
};

// Splits well-formed composed text into its slots; false if it is anything
// else (a foreign symbol, two of a kind, the wrong order).
bool parse(const std::string& t, Syl* out) {
  *out = Syl();
  size_t i = 0;
  for (int slot = 0; slot < 4 && i < t.size(); ++slot) {
    for (size_t k = 1; k < kSlots[slot]->size(); ++k) {
      const auto& sym = (*kSlots[slot])[k];
      if (t.compare(i, sym.size(), sym) == 0) {
        out->c[slot] = static_cast<int>(k);
        i += sym.size();
        break;
      }
    }
  }
  return i == t.size();
}

const std::vector<Syl>& bases() {
  static const std::vector<Syl> v = [] {
    std::vector<Syl> o;
    std::istringstream in(kBaseText);
    std::string t;
    while (in >> t) {
      Syl s;
      if (!parse(t, &s)) abort();
      o.push_back(s);
    }
    return o;
  }();
  return v;
}

// Hanyu Pinyin by its spelling rules (Taiwanese style: bong, pong, fong not used).
std::string pinyin(const Syl& s, const std::string& umlaut) {
  static const std::vector<std::string> C = {"", "b", "p", "m", "f", "d", "t", "n", "l", "g", "k", "h", "j", "q", "x", "zh", "ch", "sh", "r", "z", "c", "s"};
  // finals[medial][vowel]
  static const std::vector<std::vector<std::string>> F = {
      {"i", "a", "o", "e", "", "ai", "ei", "ao", "ou", "an", "en", "ang", "eng", "er"},
      {"i", "ia", "io", "", "ie", "iai", "", "iao", "iu", "ian", "in", "iang", "ing", ""},
      {"u", "ua", "uo", "", "", "uai", "ui", "", "", "uan", "un", "uang", "ong", ""},
      {"v", "", "", "", "ue", "", "", "", "", "van", "vn", "", "iong", ""}};
  // without an initial
  static const std::vector<std::vector<std::string>> Z = {
      {"", "a", "o", "e", "", "ai", "ei", "ao", "ou", "an", "en", "ang", "eng", "er"},
      {"yi", "ya", "yo", "", "ye", "yai", "", "yao", "you", "yan", "yin", "yang", "ying", ""},
      {"wu", "wa", "wo", "", "", "wai", "wei", "", "", "wan", "wen", "wang", "weng", ""},
      {"yu", "", "", "", "yue", "", "", "", "", "yuan", "yun", "", "yong", ""}};
  int c = s.c[0], m = s.c[1], v = s.c[2];
  std::string t;
  if (!c) t = Z[m][v];
  else {
    std::string f = F[m][v];
    if (!f.empty() && f[0] == 'v') f = (c == 7 || c == 8 ? umlaut : "u") + f.substr(1);
    t = C[c] + f;
  }
  if (s.c[3]) t += static_cast<char>('1' + s.c[3]);
  return t;
}

// Keys of each layout, in the order of the slot tables above.
struct LayoutSpec {
  const char* name;
  const BopomofoKeyboardLayout* (*get)();
  const char* cons;   // 21
  const char* mid;    // 3
  const char* vow;    // 13
  const char* tone;   // 4
  bool shared;        // one key carries several symbols
};
const std::vector<LayoutSpec>& layouts() {
  static const std::vector<LayoutSpec> v = {
      {"Standard", &BopomofoKeyboardLayout::StandardLayout, "1qaz2wsxedcrfv5tgbyhn", "ujm", "8ik,9ol.0p;/-", "6347", false},
      {"ETen", &BopomofoKeyboardLayout::ETenLayout, "bpmfdtnlvkhg7c,./j;'s", "exu", "aorwiqzy890-=", "2341", false},
      {"IBM", &BopomofoKeyboardLayout::IBMLayout, "1234567890-qwertyuiop", "asd", "fghjkl;zxcvbn", "m,./", false},
      {"Hsu", &BopomofoKeyboardLayout::HsuLayout, "bpmfdtnlgkhjvcjvcrzas", "exu", "yhgeiawomnkll", "dfjs", true},
      {"ETen26", &BopomofoKeyboardLayout::ETen26Layout, "bpmfdtnlvkhgvcgycjqws", "exu", "aorwiqzpmntlh", "fjkd", true},
      {"HanyuPinyin", &BopomofoKeyboardLayout::HanyuPinyinLayout, "", "", "", "", true},
  };
  return v;
}
const char* slotKeys(const LayoutSpec& l, int slot) {
  return slot == 0 ? l.cons : slot == 1 ? l.mid : slot == 2 ? l.vow : l.tone;
}
bool isPinyin(const LayoutSpec& l) { return !*l.cons; }
std::string keysFor(const LayoutSpec& l, const Syl& s) {
  if (isPinyin(l)) return pinyin(s, "v");
  std::string k;
  for (int i = 0; i < 4; ++i)
    if (s.c[i]) k += slotKeys(l, i)[s.c[i] - 1];
  return k;
}
std::string allKeys(const LayoutSpec& l) {
  std::set<char> k;
  for (int i = 0; i < 4; ++i)
    for (const char* p = slotKeys(l, i); *p; ++p) k.insert(*p);
  return std::string(k.begin(), k.end());
}

Syl genSyl(Source& s) {
  Syl y = s.pick(bases());
  y.c[3] = static_cast<int>(s.below(5));
  return y;
}

void checkObservers(const BopomofoReadingBuffer& rb, const Syl& y) {
  PBT_CHECK(rb.hasToneMarker() == (y.c[3] != 0), "tone-flag", "hasToneMarker is wrong for ", y.text());
  PBT_CHECK(rb.hasToneMarkerOnly() == (y.c[3] != 0 && y.count() == 1), "tone-flag", "hasToneMarkerOnly is wrong for ", y.text());
  PBT_CHECK(rb.isEmpty() == y.empty(), "emptiness", "isEmpty is wrong for '", y.text(), "'");
  PBT_CHECK(rb.syllable() == y.real(), "components", "the components behind '", y.text(), "' are ", rb.syllable().composedString());
}

// One typing session on one layout, against a model where there is one.
void session(Source& s, Ctx& c, BopomofoReadingBuffer& rb, const LayoutSpec& L, size_t maxKeys) {
  std::string pool = allKeys(L);
  Syl model;             // one symbol per key layouts
  std::string letters;   // Pinyin
  std::string since;     // keys since the buffer was last known empty
  if (!rb.isEmpty()) {
    since = "\n";
    if (isPinyin(L)) letters = rb.composedString();
    else parse(rb.composedString(), &model);
  }
  size_t n = 0;
  while (s.more(n, 8, maxKeys)) {
    ++n;
    Syl before;
    std::string beforeText = rb.composedString();
    bool wf = parse(rb.syllable().composedString(), &before);
    PBT_CHECK(wf, "well-formed", L.name, ": not a well-formed syllable: ", rb.syllable().composedString());
    size_t op = s.weighted({12, 3, 1, 1});
    if (op == 0) {
      char k = 0;
      if (isPinyin(L)) {
        size_t w = s.weighted({10, 2, 1});
        k = w == 0 ? static_cast<char>('a' + s.below(26)) : w == 1 ? static_cast<char>('1' + s.below(6)) : static_cast<char>('A' + s.below(26));
      } else k = pool[s.below(pool.size())];
      bool validPy = true;
      if (isPinyin(L)) {
        bool tone = !letters.empty() && letters.back() >= '2' && letters.back() <= '5';
        validPy = isalpha(static_cast<unsigned char>(k)) ? !tone : (!letters.empty() && k >= '2' && k <= '5');
      }
      bool v = rb.isValidKey(k);
      c.log("  key ", std::string(1, k));
      PBT_CHECK(v == validPy, "valid-key", L.name, ": isValidKey('", std::string(1, k), "') is ", v, " after '", beforeText, "'");
      bool r = rb.combineKey(k);
      PBT_CHECK(r == v, "combine-result", L.name, ": combineKey('", std::string(1, k), "') returned ", r);
      if (isPinyin(L)) { if (v) letters += static_cast<char>(tolower(k)); }
      else if (!L.shared)
        for (int i = 0; i < 4; ++i)
          for (int j = 0; slotKeys(L, i)[j]; ++j)
            if (slotKeys(L, i)[j] == k) model.c[i] = j + 1;
      if (v) since += k;
      c.mix(static_cast<uint64_t>(k));
    } else if (op == 1) {
      c.log("  backspace");
      rb.backspace();
      Syl after;
      PBT_CHECK(parse(rb.syllable().composedString(), &after), "well-formed", L.name, ": backspace left ", rb.syllable().composedString());
      if (isPinyin(L)) { if (!letters.empty()) letters.pop_back(); }
      else if (L.shared) {
        PBT_CHECK(before.empty() ? after.empty() : after.count() < before.count(), "backspace", L.name, ": backspace turned ", before.text(), " into ", after.text());
      } else
        for (int i = 3; i >= 0; --i)
          if (model.c[i]) { model.c[i] = 0; break; }
      since = "\n";
      c.label("backspace");
    } else if (op == 2) {
      // a key the layout does not use
      std::string bad;
      for (char k = 33; k < 127; ++k) {
        bool used = isPinyin(L) ? isalpha(static_cast<unsigned char>(k)) || (k >= '2' && k <= '5') : pool.find(k) != std::string::npos;
        if (!used) bad += k;
      }
      bad += " \t\r\x7f";
      char k = bad[s.below(bad.size())];
      c.log("  unused key ", pbt::hex(std::string(1, k)));
      PBT_CHECK(!rb.isValidKey(k), "valid-key", L.name, ": accepts the key '", std::string(1, k), "'");
      PBT_CHECK(!rb.combineKey(k), "combine-result", L.name, ": combined the key '", std::string(1, k), "'");
      PBT_CHECK(rb.composedString() == beforeText && rb.syllable() == before.real(), "invalid-key-changes", L.name, ": '", std::string(1, k), "' changed ", beforeText, " to ", rb.composedString());
    } else {
      c.log("  clear");
      rb.clear();
      model = Syl();
      letters.clear();
      since.clear();
      PBT_CHECK(rb.isEmpty() && rb.composedString().empty(), "clear", "something is left after clear");
    }
    Syl now;
    PBT_CHECK(parse(rb.syllable().composedString(), &now), "well-formed", L.name, ": not a well-formed syllable: ", rb.syllable().composedString());
    checkObservers(rb, now);
    if (isPinyin(L)) {
      PBT_CHECK(rb.composedString() == letters, "pinyin-letters", "shows '", rb.composedString(), "' for the letters '", letters, "'");
      BopomofoReadingBuffer fresh(L.get());
      for (char k : letters) fresh.combineKey(k);
      PBT_CHECK(fresh.syllable() == rb.syllable(), "history", "'", letters, "' gives ", rb.syllable().composedString(), " but typed afresh ", fresh.syllable().composedString());
    } else {
      PBT_CHECK(rb.composedString() == now.text(), "shown-text", L.name, ": shows ", rb.composedString(), " for ", now.text());
      if (!L.shared) PBT_CHECK(now == model, "key-by-key", L.name, ": composed ", now.text(), " where the keys make ", model.text());
      else if (since.empty() || since[0] != '\n') {
        BopomofoReadingBuffer fresh(L.get());
        for (char k : since) fresh.combineKey(k);
        PBT_CHECK(fresh.syllable() == rb.syllable(), "history", L.name, ": '", since, "' gives ", now.text(), " but typed afresh ", fresh.syllable().composedString());
      }
    }
  }
}

void b01(Source& s, Ctx& c) {
  size_t li = s.below(layouts().size());
  BopomofoReadingBuffer rb(layouts()[li].get());
  size_t rounds = 1 + s.below(3);
  for (size_t r = 0; r < rounds; ++r) {
    const LayoutSpec& L = layouts()[li];
    c.label(L.name);
    c.mix(li);
    if (s.chance(2, 3)) session(s, c, rb, L, 30);
    // leave it empty one way or another
    size_t how = s.below(3);
    if (how == 0) { c.log("clear"); rb.clear(); }
    else if (how == 1) {
      c.log("backspace until empty");
      std::string t = rb.composedString();
      size_t limit = isPinyin(L) ? t.size() : 4;
      for (size_t k = 0; k < limit && !rb.isEmpty(); ++k) rb.backspace();
      PBT_CHECK(rb.isEmpty() && rb.composedString().empty(), "backspace-empties", L.name, ": ", limit, " backspaces left '", rb.composedString(), "' of '", t, "'");
    } else {
      size_t next = s.below(layouts().size());
      c.log("switch to ", layouts()[next].name);
      if (next == li) rb.clear();
      li = next;
      rb.setKeyboardLayout(layouts()[li].get());
      PBT_CHECK(rb.keyboardLayout() == layouts()[li].get(), "layout", "the layout was not set");
      if (r + 1 < rounds || s.coin()) rb.clear();
      PBT_CHECK(rb.isEmpty() && rb.composedString().empty(), "switch-leaves-reading", "'", rb.composedString(), "' is left after switching layouts");
      c.label("switch");
    }
    // a whole syllable, key by key
    const LayoutSpec& M = layouts()[li];
    Syl y = genSyl(s);
    std::string keys = keysFor(M, y);
    c.log(M.name, ": type ", y.text(), " as ", keys);
    for (char k : keys) {
      PBT_CHECK(rb.isValidKey(k), "syllable-key", M.name, ": '", std::string(1, k), "' of ", keys, " (", y.text(), ") is not accepted after '", rb.composedString(), "'");
      PBT_CHECK(rb.combineKey(k), "syllable-key", M.name, ": '", std::string(1, k), "' of ", keys, " was not combined");
    }
    PBT_CHECK(rb.syllable() == y.real(), "syllable", M.name, ": ", keys, " composes ", rb.syllable().composedString(), " instead of ", y.text());
    PBT_CHECK(rb.syllable().composedString() == y.text(), "syllable-text", M.name, ": ", keys, " is written ", rb.syllable().composedString(), " instead of ", y.text());
    PBT_CHECK(rb.composedString() == (isPinyin(M) ? keys : y.text()), "shown-text", M.name, ": shows ", rb.composedString(), " after ", keys);
    checkObservers(rb, y);
    if (!isPinyin(M)) {
      PBT_CHECK(M.get()->syllableFromKeySequence(keys) == y.real(), "sequence", M.name, ": the key sequence ", keys, " is not read as ", y.text());
      PBT_CHECK(M.get()->keySequenceFromSyllable(y.real()) == keys, "sequence", M.name, ": ", y.text(), " has the key sequence ", M.get()->keySequenceFromSyllable(y.real()), " instead of ", keys);
    }
    std::string q = rb.standardLayoutQueryString();
    PBT_CHECK(q == keysFor(layouts()[0], y), "standard-query", y.text(), " has the standard keys ", q);
    c.mix(y.text());
    if (y.count() >= 3) c.interesting();
    // and take it back
    if (s.coin()) {
      int cnt = isPinyin(M) ? static_cast<int>(keys.size()) : y.count();
      for (int k = 0; k < cnt; ++k) {
        PBT_CHECK(!rb.isEmpty(), "backspace-syllable", M.name, ": ", y.text(), " was gone after ", k, " backspaces");
        rb.backspace();
        if (!M.shared) {
          for (int i = 3; i >= 0; --i)
            if (y.c[i]) { y.c[i] = 0; break; }
          PBT_CHECK(rb.composedString() == y.text(), "backspace-syllable", M.name, ": backspace left ", rb.composedString());
        }
      }
      PBT_CHECK(rb.isEmpty() && rb.composedString().empty(), "backspace-syllable", M.name, ": something is left of ", keys);
    }
  }
}

void b02(Source& s, Ctx& c) {
  switch (s.weighted({4, 3, 5, 2})) {
    case 0: {  // any combination of components
      Syl y;
      for (int i = 0; i < 4; ++i) y.c[i] = static_cast<int>(s.below(kSlots[i]->size()));
      BPMF b = y.real();
      c.log("components ", y.text());
      PBT_CHECK(b.composedString() == y.text(), "composed", "written ", b.composedString(), " instead of ", y.text());
      PBT_CHECK(BPMF::FromComposedString(y.text()) == b, "composed-back", y.text(), " is read as ", BPMF::FromComposedString(y.text()).composedString());
      PBT_CHECK(b.hasConsonant() == !!y.c[0] && b.hasMiddleVowel() == !!y.c[1] && b.hasVowel() == !!y.c[2] && b.hasToneMarker() == !!y.c[3] && b.isEmpty() == y.empty(), "flags", "flags of ", y.text());
      Syl z;
      for (int i = 0; i < 4; ++i) z.c[i] = s.coin() ? 0 : static_cast<int>(s.below(kSlots[i]->size()));
      Syl sum = y;
      bool over = false;
      for (int i = 0; i < 4; ++i) {
        if (z.c[i]) sum.c[i] = z.c[i];
        over |= z.c[i] && y.c[i];
      }
      PBT_CHECK(b + z.real() == sum.real(), "addition", y.text(), " + ", z.text(), " is ", (b + z.real()).composedString());
      BPMF b2 = b;
      b2 += z.real();
      PBT_CHECK(b2 == sum.real(), "addition", y.text(), " += ", z.text(), " is ", b2.composedString());
      PBT_CHECK(b.isOverlappingWith(z.real()) == over, "overlap", y.text(), " and ", z.text());
      PBT_CHECK((b == z.real()) == (y == z) && (b != z.real()) == !(y == z), "equality", y.text(), " and ", z.text());
      c.mix(y.text() + z.text());
      if (y.count() >= 2) c.interesting();
      c.label("components");
      break;
    }
    case 1: {  // Pinyin of a Mandarin syllable
      Syl y = genSyl(s);
      BPMF b = y.real();
      std::string pv = pinyin(y, "v"), pu = pinyin(y, "ü");
      c.log("pinyin of ", y.text(), ": ", pv);
      PBT_CHECK(b.HanyuPinyinString(true, true) == pv, "pinyin", y.text(), " is spelled ", b.HanyuPinyinString(true, true), " instead of ", pv);
      PBT_CHECK(b.HanyuPinyinString(true, false) == pu, "pinyin", y.text(), " is spelled ", b.HanyuPinyinString(true, false), " instead of ", pu);
      std::string noTone = y.c[3] ? pv.substr(0, pv.size() - 1) : pv;
      PBT_CHECK(b.HanyuPinyinString(false, true) == noTone, "pinyin", y.text(), " without tone is spelled ", b.HanyuPinyinString(false, true));
      for (const std::string& p : {pv, pu})
        PBT_CHECK(BPMF::FromHanyuPinyin(p) == b, "pinyin-back", p, " is read as ", BPMF::FromHanyuPinyin(p).composedString(), " instead of ", y.text());
      std::string up = pv;
      for (char& k : up)
        if (s.coin()) k = static_cast<char>(toupper(k));
      PBT_CHECK(BPMF::FromHanyuPinyin(up) == b, "pinyin-case", up, " is read as ", BPMF::FromHanyuPinyin(up).composedString());
      // the Taiwanese variants of the labial initials and other accepted forms
      if (y.c[0] >= 1 && y.c[0] <= 4 && y.c[1] == 0 && y.c[2] == 12 && y.c[0] == 4) {
        std::string t = pv;
        t.replace(1, 3, "ong");
        PBT_CHECK(BPMF::FromHanyuPinyin(t) == b, "pinyin-variant", t, " is read as ", BPMF::FromHanyuPinyin(t).composedString());
      }
      // unabbreviated finals and the other accepted spellings
      {
        static const std::vector<std::pair<std::string, std::string>> full = {
            {"iu", "iou"}, {"ui", "uei"}, {"in", "ien"}, {"iong", "veng"}, {"ong", "ung"}, {"vn", "ven"}, {"er", "err"}};
        std::string initial = y.c[0] ? pv.substr(0, pv.find_first_not_of("bpmfdtnlgkhjqxzcsr")) : "";
        std::string rest = noTone.substr(initial.size()), tone = pv.substr(noTone.size()), alt;
        for (auto& f : full)
          if ((y.c[0] || f.first == "er") && rest == f.first) alt = f.second;
        if (y.c[0] && rest == "un" && y.c[1] == 2) alt = "uen";
        if (rest == "yong") alt = "yung";
        if (!alt.empty()) {
          alt = initial + alt + tone;
          PBT_CHECK(BPMF::FromHanyuPinyin(alt) == b, "pinyin-variant", alt, " is read as ", BPMF::FromHanyuPinyin(alt).composedString(), " instead of ", y.text());
          c.label("full spelling");
        }
        if (!y.c[3]) PBT_CHECK(BPMF::FromHanyuPinyin(pv + "1") == b, "pinyin-first-tone", pv, "1 is read as ", BPMF::FromHanyuPinyin(pv + "1").composedString());
      }
      c.mix(pv);
      if (y.count() >= 3) c.interesting();
      c.label("pinyin");
      break;
    }
    case 2: {  // arbitrary text: the leading symbols only
      std::string t;
      Syl want;
      bool stopped = false;
      size_t n = 0;
      while (s.more(n, 8, 24)) {
        ++n;
        size_t w = s.weighted({10, 1, 1, 1, 1});
        if (w == 0) {
          int slot = static_cast<int>(s.below(4));
          int k = 1 + static_cast<int>(s.below(kSlots[slot]->size() - 1));
          t += (*kSlots[slot])[k];
          if (!stopped) want.c[slot] = k;
          continue;
        }
        std::string bad;
        if (w == 1) bad = std::string(1, static_cast<char>(1 + s.below(127)));
        else if (w == 2) {
          static const std::vector<std::string> other = {"中", "ㄪ", "ㄫ", "ㄬ", "é", "ˉ", "😀", "ㆀ", "ˎ", "ˆ"};
          bad = s.pick(other);
        } else if (w == 3) {
          int slot = static_cast<int>(s.below(4));
          const auto& sym = (*kSlots[slot])[1 + s.below(kSlots[slot]->size() - 1)];
          bad = sym.substr(0, 1 + s.below(sym.size() - 1));
          // a truncated symbol must not complete itself with what follows
          t += bad;
          if (s.coin()) { stopped = true; goto done; }
          t += "a";
          stopped = true;
          continue;
        } else bad = std::string(1, static_cast<char>(0x80 + s.below(0x80)));
        if (static_cast<unsigned char>(bad[0]) >= 0x80 && bad.size() == 1) bad += "!";
        t += bad;
        stopped = true;
      }
    done:
      c.log("text ", pbt::hex(t));
      std::string exact(t.data(), t.size());
      exact.shrink_to_fit();
      BPMF b = BPMF::FromComposedString(exact);
      PBT_CHECK(b == want.real(), "leading-symbols", pbt::hex(t), " is read as ", b.composedString(), " instead of ", want.text());
      c.mix(t);
      if (stopped || n >= 4) c.interesting();
      c.label(stopped ? "text with other characters" : "symbols only");
      break;
    }
    case 3: {  // arbitrary text as Pinyin: a well-formed syllable, no crash
      std::string t;
      size_t n = 0;
      while (s.more(n, 6, 16)) {
        ++n;
        size_t w = s.weighted({10, 2, 1});
        t += w == 0 ? static_cast<char>('a' + s.below(26)) : w == 1 ? static_cast<char>('0' + s.below(10)) : static_cast<char>(1 + s.below(255));
      }
      BPMF b = BPMF::FromHanyuPinyin(t);
      std::string x = b.composedString();
      Syl y;
      PBT_CHECK(parse(x, &y) && y.real() == b, "pinyin-well-formed", pbt::hex(t), " gives ", x);
      c.mix(t);
      if (n >= 3) c.interesting();
      c.label("arbitrary pinyin");
      break;
    }
  }
}

}  // namespace

const std::vector<pbt::Property> pbt::kProperties = {
    {"B01",
     "a case types keys, unused keys, backspaces and clears on one to three of the six layouts, switching between them, and then whole syllables of the inventory (with every tone) key by key and back; non-trivial when a syllable of three or four symbols was composed",
     b01, 300000, 6000000},
    {"B02",
     "a case takes any combination of components, the Pinyin of a Mandarin syllable, or an arbitrary or truncated text; non-trivial when it has at least two components, or text with other characters or at least four symbols",
     b02, 600000, 8000000},
};
