// Generation shared by the composing (h_keys) and engine (h_engine) harnesses:
// dictionaries, settings and the keys that type a syllable.
#ifndef VERIF_GEN_KEYS_H_
#define VERIF_GEN_KEYS_H_
#include <cstring>
#include <map>
#include <set>

#include "pbt.h"
#include "ref_keys.h"

namespace {
using Formosa::Mandarin::BopomofoKeyboardLayout;
using Formosa::Mandarin::BPMF;
using McBopomofo::Key;

const std::vector<const BopomofoKeyboardLayout*>& layouts() {
  static const std::vector<const BopomofoKeyboardLayout*> v = {
      BopomofoKeyboardLayout::StandardLayout(), BopomofoKeyboardLayout::ETenLayout(),   BopomofoKeyboardLayout::HsuLayout(),
      BopomofoKeyboardLayout::ETen26Layout(),   BopomofoKeyboardLayout::HanyuPinyinLayout(), BopomofoKeyboardLayout::IBMLayout()};
  return v;
}
const char* kLayoutNames[] = {"Standard", "ETen", "Hsu", "ETen26", "HanyuPinyin", "IBM"};

// How each property weighs settings and actions.
struct Profile {
  const char* id;
  int plain, assoc;         // chance in 20
  int badWords;             // chance in 20 that words may differ in length from their readings
  std::vector<int> act;     // weights, see Driver::keyed
  std::vector<int> list;    // weights, see Driver::listed
  size_t avg;
};

const std::vector<std::string> kSyls = {"ㄇㄚ", "ㄇㄚˇ", "ㄓㄨㄥ", "ㄓㄨㄥˋ", "ㄨㄣˊ", "ㄅㄢˋ", "ㄕˋ", "ㄧ", "ㄧˋ", "ㄍㄨㄛˊ", "ㄖㄣˊ", "ㄉㄚˋ", "ㄉㄜ˙", "ㄒㄩㄝˊ"};
const std::vector<std::string> kChars = {"媽", "馬", "中", "種", "文", "聞", "辦", "是", "事", "一", "義", "國", "人", "大", "的", "學", "𠮷", "𠀀", "〇", "a"};

struct Gen {
  pbt::Source& s;
  pbt::Ctx& c;
  const Profile& p;
  ref::LM lm;
  std::map<std::string, std::vector<ref::Uni>> cache;
  std::vector<std::string> pool;                        // syllables in use
  std::map<std::string, std::vector<std::string>> one;  // words of a single syllable
  std::vector<std::vector<std::string>> wordReadings;
  std::string dbText, assocText;
  std::vector<std::string> crowded;
  bool odd = false;  // words and their readings may differ in length
  ref::Keys m;

  Gen(pbt::Source& s_, pbt::Ctx& c_, const Profile& p_) : s(s_), c(c_), p(p_) {}

  bool is(const char* id) const { return !strcmp(p.id, id); }

  // A character of three bytes.
  static std::string bmp(size_t u) { return {static_cast<char>(0xe0 | u >> 12), static_cast<char>(0x80 | (u >> 6 & 63)), static_cast<char>(0x80 | (u & 63))}; }

  // ---------------------------------------------------------- dictionary
  bool edge = false;
  std::string score(double lo, double hi_) {
    if (!edge && lo < 8 && hi_ > 8 && s.chance(1, 8)) {  // just too rare to be learned; only one, so that nothing ties
      edge = true;
      return "-8.000000";
    }
    uint64_t lo6 = static_cast<uint64_t>(lo * 1000000), hi6 = static_cast<uint64_t>(hi_ * 1000000);
    uint64_t v = lo6 + s.below(hi6 - lo6);
    std::string f = std::to_string(v % 1000000);
    return "-" + std::to_string(v / 1000000) + "." + std::string(6 - f.size(), '0') + f;
  }
  void genDictionary() {
    std::vector<ref::Row> rows;
    std::set<std::pair<std::string, std::string>> have;
    auto add = [&](const std::string& r, const std::string& v, const std::string& sc) {
      if (!have.insert({r, v}).second) return false;
      rows.push_back({r, v, sc});
      return true;
    };
    size_t np = 2 + s.below(5);
    std::vector<std::string> all = kSyls;
    for (size_t i = 0; i < np; ++i) {
      size_t k = s.below(all.size());
      pool.push_back(all[k]);
      all.erase(all.begin() + static_cast<long>(k));
    }
    const bool through = s.coin();
    const bool bad = odd = s.chance(static_cast<uint64_t>(p.badWords), 20);
    for (auto& y : pool) {
      size_t n = s.chance(1, 4) ? 1 : 1 + s.below(s.chance(1, 8) ? 12 : 4);
      if (s.chance(1, 80)) {  // as many words as a common syllable has
        crowded.push_back(y);
        for (unsigned i = 0, k = static_cast<unsigned>(20 + s.below(50)); i < k; ++i)
          if (add(y, bmp(0x5000 + i), score(6, 10))) one[y].push_back(bmp(0x5000 + i));
      }
      for (size_t i = 0; i < n; ++i) {
        std::string v = s.pick(kChars);
        if (bad && s.chance(1, 12)) v += s.pick(kChars);
        if (add(y, v, score(2, s.chance(1, 6) ? 10 : 6)) && ref::chars(v).size() == 1) one[y].push_back(v);
      }
      if (bad && s.chance(1, 8)) {  // and something long after all of them
        std::string v;
        for (size_t i = 0, k = 7 + s.below(5); i < k; ++i) v += s.pick(kChars);
        add(y, v, score(9, 11));
      }
    }
    size_t nw = s.below(10);
    for (size_t i = 0; i < nw; ++i) {
      size_t len = s.chance(1, 20) ? 7 + s.below(2) : 2 + s.weighted({6, 3, 2, 1, 1});
      std::vector<std::string> rs;
      if (!wordReadings.empty() && s.chance(1, 3)) rs = s.pick(wordReadings);  // another word, or an extension
      if (rs.size() > len || rs.empty()) rs.clear();
      while (rs.size() < len) rs.push_back(s.pick(pool));
      if (s.chance(1, 16)) rs[s.below(rs.size())] = s.coin() ? "_punctuation_<" : "_letter_A";
      std::string v;
      for (auto& r : rs) v += one[r].empty() ? s.pick(kChars) : s.pick(one[r]);
      if (bad && s.chance(1, 3)) {
        auto cs = ref::chars(v);
        if (s.coin()) cs.pop_back();
        else cs.push_back(s.pick(kChars));
        v = ref::joinWith(cs, "");
      }
      if (add(ref::joinWith(rs, "-"), v, score(2, 4 + 3 * static_cast<double>(len)))) wordReadings.push_back(rs);
    }
    // punctuation, letters and enclosed numbers
    auto some = [&](const std::string& r, const std::vector<std::string>& vs, uint64_t num, uint64_t den) {
      if (!s.chance(num, den)) return;
      size_t n = s.chance(2, 3) ? 1 : 1 + s.below(vs.size());
      for (size_t i = 0; i < n; ++i) add(r, vs[i], score(2, 9));
    };
    some("_punctuation_list", {"，", "。", "、", "「"}, 3, 4);
    if (have.count({"_punctuation_list", "，"}) && s.coin()) { add("_punctuation_list", "。", score(2, 9)); add("_punctuation_list", "…", score(2, 9)); }
    some("_punctuation_<", {"，", "〈", "︿"}, 2, 3);
    some("_punctuation_>", {"。", "〉"}, 1, 2);
    some("_punctuation_!", {"！", "¡"}, 1, 2);
    some("_punctuation_-", {"－", "—", "——"}, 1, 3);
    some("_punctuation_,", {"，"}, 1, 3);
    some("_punctuation_.", {"。"}, 1, 3);
    some("_punctuation_A", {"Ａ"}, 1, 12);
    some("_punctuation_?", {"？", "¿"}, 1, 2);
    some(std::string("_punctuation_") + kLayoutNames[m.cfg.layout] + "_<", {"《", "〈"}, 1, 3);
    some(std::string("_punctuation_") + kLayoutNames[m.cfg.layout] + "_!", {"！", "‼"}, 1, 4);
    some("_punctuation_Hsu_>", {"〉"}, 1, 4);
    some("_punctuation_Standard_>", {"》"}, 1, 4);
    some("_half_punctuation_<", {"<"}, 2, 3);
    some("_half_punctuation_!", {"!", "¡"}, 1, 3);
    some(std::string("_half_punctuation_") + kLayoutNames[m.cfg.layout] + "_<", {"‹", "<"}, 1, 3);
    some("_half_punctuation_-", {"-"}, 1, 3);
    some("_ctrl_punctuation_!", {"！"}, 1, 2);
    some("_ctrl_punctuation_,", {"，", "、"}, 1, 2);
    some("_ctrl_punctuation_<", {"︽"}, 1, 4);
    some("_letter_A", {"a"}, 2, 3);
    some("_letter_B", {"b", "β"}, 1, 2);
    for (const char* n : {"1", "2", "10", "07", "123"}) some(std::string("_number_") + n, {"①", "⑴", "❶"}, 1, 2);
    lm.db = rows;
    dbText = ref::dbText(lm.db, false, true, through);
    genUserData();
    // associated phrases
    for (auto& y : crowded)  // what follows each of many words
      if (s.coin())
        for (auto& ch : one[y]) {
          if (s.chance(1, 4)) continue;
          const std::string& z = s.pick(pool);
          ref::AssocRow a;
          a.rs = {y, z};
          a.cs = {ch, one[z].empty() ? s.pick(kChars) : s.pick(one[z])};
          std::string sc = score(1, 9);
          a.score = ref::number(sc);
          a.row = a.cs[0] + "-" + y + "-" + a.cs[1] + "-" + z + " " + sc;
          m.assocRows.push_back(a);
        }
    size_t na = s.below(12);
    for (size_t i = 0; i < na; ++i) {
      ref::AssocRow a;
      const bool fromWord = !wordReadings.empty() && s.coin();
      if (fromWord) a.rs = s.pick(wordReadings);
      size_t len = 2 + s.below(3);
      while (a.rs.size() < len) a.rs.push_back(s.pick(pool));
      for (auto& r : a.rs) a.cs.push_back(one[r].empty() ? s.pick(kChars) : s.pick(one[r]));
      if (fromWord && s.chance(2, 3)) {
        // begin with an actual word
        std::vector<const ref::Row*> fit;
        for (auto& r : rows) {
          auto rr = ref::splitOn(r.reading, '-');
          if (rr.size() <= a.rs.size() && std::equal(rr.begin(), rr.end(), a.rs.begin()) && ref::chars(r.value).size() == rr.size()) fit.push_back(&r);
        }
        if (!fit.empty()) {
          auto cs = ref::chars(s.pick(fit)->value);
          std::copy(cs.begin(), cs.end(), a.cs.begin());
          if (a.rs.size() == cs.size()) {
            a.rs.push_back(s.pick(pool));
            a.cs.push_back(one[a.rs.back()].empty() ? s.pick(kChars) : s.pick(one[a.rs.back()]));
          }
        }
      }
      std::string sc = score(1, 9);
      a.score = ref::number(sc);
      for (size_t k = 0; k < a.cs.size(); ++k) a.row += (k ? "-" : "") + a.cs[k] + "-" + a.rs[k];
      a.row += " " + sc;
      // Phrases come from a dictionary: most of them are in it as well.
      if (s.chance(2, 3) && a.rs.size() <= 6) {
        if (add(a.reading(), a.value(), score(2, 4 + 3 * static_cast<double>(a.rs.size())))) wordReadings.push_back(a.rs);
      }
      m.assocRows.push_back(a);
    }
    if (na) {
      lm.db = rows;
      dbText = ref::dbText(lm.db, false, true, through);
    }
    std::stable_sort(m.assocRows.begin(), m.assocRows.end(), [](const ref::AssocRow& a, const ref::AssocRow& b) { return a.row < b.row; });
    assocText = ref::kHeader;
    for (auto& a : m.assocRows) assocText += a.row + "\n";
  }
  void genUserData() {
    while (s.chance(1, 4) && lm.user.size() < 4) {
      size_t len = 1 + s.below(3);
      std::vector<std::string> rs;
      std::string v;
      for (size_t i = 0; i < len; ++i) {
        rs.push_back(s.chance(1, 20) ? "_punctuation_<" : s.pick(pool));
        v += s.pick(kChars);
      }
      if (odd && s.chance(1, 6)) v += s.pick(kChars);
      lm.user.push_back({v, ref::joinWith(rs, "-")});
    }
    if (s.chance(1, 80)) {  // a syllable or a word with many phrases of the user's
      std::string r = s.pick(pool);
      size_t len = 1 + s.below(2), k = 10 + s.below(30);
      if (len == 2) r += "-" + s.pick(pool);
      for (size_t i = 0; i < k; ++i) lm.user.push_back({len == 1 ? bmp(0x5100 + i) : bmp(0x5100 + i) + bmp(0x5200 + i), r});
    }
    while (s.chance(1, 5) && lm.excluded.size() < 3) {
      if (lm.index) {
        auto& of = s.pick(pool);
        lm.excluded.push_back({s.pick(one[of]), of});
        continue;
      }
      auto& r = s.pick(lm.db);
      lm.excluded.push_back({r.value, r.reading});
    }
  }
  const std::vector<ref::Uni>& words(const std::string& r) {
    auto it = cache.find(r);
    if (it == cache.end()) it = cache.emplace(r, lm.ranked(r)).first;
    return it->second;
  }
  void genSettings() {
    m.cfg.plain = s.chance(static_cast<uint64_t>(p.plain), 20);
    m.cfg.assoc = s.chance(static_cast<uint64_t>(p.assoc), 20);
    m.cfg.selAfter = s.coin();
    m.cfg.moveAfter = s.coin();
    m.cfg.lowercase = s.chance(1, 3);
    m.cfg.escClears = s.chance(1, 3);
    m.cfg.half = s.chance(1, 4);
    m.cfg.ctrlEnter = static_cast<int>(s.below(3));
  }

  std::string sequence(const std::string& syl) {
    if (syl[0] == '_') return syl.substr(syl.size() - 1);
    BPMF b = BPMF::FromComposedString(syl);
    std::string q;
    if (m.cfg.layout == 4) {
      q = b.HanyuPinyinString(false, true);
      if (!b.hasToneMarker()) q += " ";
      else q += b.toneMarkerComponent() == BPMF::Tone2 ? "2" : b.toneMarkerComponent() == BPMF::Tone3 ? "3" : b.toneMarkerComponent() == BPMF::Tone4 ? "4" : "5";
      return q;
    }
    q = layouts()[static_cast<size_t>(m.cfg.layout)]->keySequenceFromSyllable(b);
    if (!b.hasToneMarker()) q += " ";
    return q;
  }
  static std::string keyText(const Key& k) {
    std::string o = k.ctrlPressed ? "Ctrl+" : "";
    if (k.shiftPressed) o += "Shift+";
    if (k.isFromNumberPad) o += "KP_";
    static const char* names[] = {"", "Left", "Right", "Up", "Down", "Home", "End", "Unknown"};
    switch (k.ascii) {
      case 0: return o + names[static_cast<int>(k.name)];
      case Key::TAB: return o + "Tab";
      case Key::BACKSPACE: return o + "Backspace";
      case Key::RETURN: return o + "Enter";
      case Key::ESC: return o + "Esc";
      case Key::SPACE: return o + "Space";
      case Key::DELETE: return o + "Delete";
      default: return o + (k.ascii > 32 ? std::string(1, k.ascii) : "ascii " + std::to_string(k.ascii));
    }
  }
};
}  // namespace
#endif
