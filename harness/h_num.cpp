// N01 (Chinese numbers), N02 (Suzhou numbers), X01 (date and time macros).
#include <unicode/smpdtfmt.h>
#include <unicode/timezone.h>

#include <algorithm>
#include <cstdlib>
#include <memory>
#include <set>

#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "Engine/McBopomofoLM.h"
#include "Engine/ParselessPhraseDB.h"
#include "InputMacro.h"
#include "clock.h"
#include "locales.h"
#include "pbt.h"

using pbt::Ctx;
using pbt::Source;

namespace {

std::string genDigits(Source& s, size_t max) {
  std::string d;
  size_t n = s.chance(1, 8) ? s.below(3) : s.below(max + 1);
  int mode = static_cast<int>(s.below(4));
  while (d.size() < n) {
    if (mode == 0) d += static_cast<char>('0' + s.below(10));
    else if (mode == 1) d += s.chance(1, 3) ? static_cast<char>('1' + s.below(9)) : '0';
    else if (mode == 2) {  // whole groups of zeros
      if (s.coin()) d += std::string(std::min<size_t>(4, n - d.size()), '0');
      else d += static_cast<char>('0' + s.below(10));
    } else d += static_cast<char>('0' + s.below(5));
  }
  return d;
}
std::string trimL(std::string x) { size_t i = x.find_first_not_of('0'); return i == std::string::npos ? "" : x.substr(i); }
std::string trimR(std::string x) { size_t i = x.find_last_not_of('0'); return i == std::string::npos ? "" : x.substr(0, i + 1); }

const std::vector<std::string> kLow = {"〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"};
const std::vector<std::string> kUp = {"零", "壹", "貳", "參", "肆", "伍", "陸", "柒", "捌", "玖"};
const std::vector<std::string> kLowP = {"千", "百", "十", ""};
const std::vector<std::string> kUpP = {"仟", "佰", "拾", ""};
const std::vector<std::string> kGroup = {"", "萬", "億", "兆", "京", "垓", "秭", "穰", "溝", "澗", "正", "載"};

std::vector<std::string> chars(const std::string& t) {
  std::vector<std::string> o;
  for (size_t i = 0; i < t.size();) {
    unsigned char c = t[i];
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    o.push_back(t.substr(i, n));
    i += n;
  }
  return o;
}

// Reads a Chinese numeral back into digits; empty if it is not one.
bool readBack(const std::string& t, bool upper, std::string* integer, std::string* decimals) {
  const auto& D = upper ? kUp : kLow;
  const auto& P = upper ? kUpP : kLowP;
  auto cs = chars(t);
  size_t i = 0;
  auto digit = [&](const std::string& c) { for (int k = 0; k < 10; ++k) if (D[k] == c) return k; return -1; };
  integer->clear();
  decimals->clear();
  size_t e = 0;
  while (e < cs.size() && cs[e] != "點") ++e;
  if (e == 1 && digit(cs[0]) == 0) { i = 1; }
  else {
    std::string all(48, '0');
    int lastGroup = 12;
    std::string group(4, '0');
    int lastPlace = -1;
    bool any = false;
    auto flush = [&](int g) {
      if (g >= lastGroup || !any) return false;
      all.replace(48 - (g + 1) * 4, 4, group);
      lastGroup = g;
      group = "0000";
      lastPlace = -1;
      any = false;
      return true;
    };
    while (i < e) {
      int d = digit(cs[i]);
      if (d == 0) { ++i; continue; }
      if (d > 0) {
        ++i;
        int place = 3;
        if (i < e)
          for (int p = 0; p < 3; ++p) if (cs[i] == P[p]) { place = p; ++i; break; }
        if (place <= lastPlace) return false;
        lastPlace = place;
        group[place] = static_cast<char>('0' + d);
        any = true;
        continue;
      }
      int g = -1;
      for (int k = 1; k < 12; ++k) if (cs[i] == kGroup[k]) g = k;
      if (g < 0 || !flush(g)) return false;
      ++i;
    }
    if (any && !flush(0)) return false;
    *integer = trimL(all);
    if (integer->empty()) return false;
  }
  if (e < cs.size()) {
    if (e + 1 == cs.size()) return false;
    for (size_t k = e + 1; k < cs.size(); ++k) {
      int d = digit(cs[k]);
      if (d < 0) return false;
      *decimals += static_cast<char>('0' + d);
    }
  }
  return true;
}

// Independent generator, digit position by digit position.
std::string refChinese(const std::string& ip, const std::string& dp, bool upper) {
  const auto& D = upper ? kUp : kLow;
  const auto& P = upper ? kUpP : kLowP;
  std::string in = trimL(ip), de = trimR(dp), o;
  if (in.empty()) o = D[0];
  size_t n = in.size();
  bool pendingZero = false;
  for (size_t i = 0; i < n; ++i) {
    size_t pos = n - 1 - i;  // 0 = units
    size_t place = 3 - pos % 4;
    char c = in[i];
    if (c == '0') pendingZero = true;
    else {
      if (pendingZero) o += D[0];
      pendingZero = false;
      o += D[c - '0'] + P[place];
    }
    if (pos % 4 == 0) {
      size_t from = i >= 3 ? i - 3 : 0;
      bool allZero = i >= 3 && in.substr(from, 4) == "0000";
      if (!allZero) { o += kGroup[pos / 4]; pendingZero = false; }  // a skipped tail of a group needs no zero word
    }
  }
  if (!de.empty()) {
    o += "點";
    for (char c : de) o += D[c - '0'];
  }
  return o;
}

void propN01(Source& s, Ctx& c) {
  std::string ip = genDigits(s, 48), dp = s.coin() ? genDigits(s, s.chance(1, 4) ? 24 : 12) : "";
  bool upper = s.coin();
  c.log("number ", ip, ".", dp, upper ? " formal" : "");
  std::string got = ChineseNumbers::Generate(ip, dp, upper ? ChineseNumbers::ChineseNumberCase::UPPERCASE : ChineseNumbers::ChineseNumberCase::LOWERCASE);
  std::string in, de;
  bool ok = readBack(got, upper, &in, &de);
  PBT_CHECK(ok && in == trimL(ip) && de == trimR(dp), "read-back", ip, ".", dp, " is written ", got, ", which reads ", ok ? in + "." + de : "as no number");
  std::string want = refChinese(ip, dp, upper);
  PBT_CHECK(got == want, "numeral", ip, ".", dp, " is written ", got, ", expected ", want);
  if (trimL(ip).find('0') != std::string::npos) c.interesting();
  c.mix(ip + "." + dp);
  c.label(ip.size() > 21 ? "long" : "short");
}

std::string refSuzhou(const std::string& ip, const std::string& dp, const std::string& unit, bool vertical) {
  static const std::vector<std::string> V = {"〇", "〡", "〢", "〣", "〤", "〥", "〦", "〧", "〨", "〩"};
  static const std::vector<std::string> H = {"", "一", "二", "三"};
  static const std::vector<std::string> small = {"", "十", "百", "千"};
  static const std::vector<std::string> big = {"", "万", "億", "兆", "京", "垓", "秭", "穰"};
  static const std::vector<std::string> tens = {"", "〸", "〹", "〺"};
  std::string in = trimL(ip), de = trimR(dp);
  size_t zeros = 0;
  if (de.empty()) { std::string t = trimR(in); zeros = in.size() - t.size(); in = t; }
  if (in.empty()) in = "0";
  std::string digits = in + de;
  if (digits.size() == 1 && zeros == 1 && digits[0] <= '3' && digits[0] >= '1') return tens[digits[0] - '0'] + unit;
  std::string row;
  size_t run = 0;  // how many of 1, 2, 3 directly before
  for (char c : digits) {
    bool stroke = c >= '1' && c <= '3';
    bool vert = run % 2 == 0 ? vertical : !vertical;
    row += stroke ? (vert ? V[c - '0'] : H[c - '0']) : V[c - '0'];
    run = stroke ? run + 1 : 0;
  }
  size_t mag = in.size() + zeros - 1;
  return row + (digits.size() > 1 ? "\n" : "") + (small[mag % 4] + big[mag / 4]) + unit;
}

void propN02(Source& s, Ctx& c) {
  std::string ip = genDigits(s, 32), dp = s.chance(1, 3) ? genDigits(s, s.chance(1, 4) ? 24 : 10) : "";
  if (s.chance(1, 4)) for (auto& ch : ip) ch = static_cast<char>('0' + (ch - '0') % 4);
  if (s.chance(1, 4)) ip = std::string(1, static_cast<char>('0' + s.below(10))) + std::string(s.below(10), '0');
  static const std::vector<std::string> units = {"單位", "", "元", "kg"};
  std::string unit = s.pick(units);
  bool vert = !s.chance(1, 3);
  c.log("number ", ip, ".", dp, " unit ", unit, vert ? " vertical" : " horizontal");
  std::string got = SuzhouNumbers::Generate(ip, dp, unit, vert);
  std::string want = refSuzhou(ip, dp, unit, vert);
  PBT_CHECK(got == want, "numeral", ip, ".", dp, " is written ", pbt::show(got), ", expected ", pbt::show(want));
  if (trimL(ip).size() > 1) c.interesting();
  c.mix(ip + "." + dp);
}

// ---------------------------------------------------------------- X01
// Proleptic Gregorian calendar arithmetic (days since 1970-01-01).
void civil(int64_t z, int64_t* y, int* m, int* d) {
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  uint64_t doe = static_cast<uint64_t>(z - era * 146097);
  uint64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  uint64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  uint64_t mp = (5 * doy + 2) / 153;
  *d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  *m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  *y = static_cast<int64_t>(yoe) + era * 400 + (*m <= 2);
}
int64_t days(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int mdays(int64_t y, int m) { static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : k[m - 1]; }

std::string japEra(int64_t y, int m, int d, bool gannen) {
  int64_t n = days(y, m, d);
  struct E { const char* name; int64_t from, y0; };
  static const E es[] = {{"令和", days(2019, 5, 1), 2019}, {"平成", days(1989, 1, 8), 1989}, {"昭和", days(1926, 12, 25), 1926}};
  for (auto& e : es)
    if (n >= e.from) { int64_t k = y - e.y0 + 1; return std::string(e.name) + (k == 1 && gannen ? "元" : std::to_string(k)); }
  return "?";
}

struct Zone { const char* name; bool fixed; const char* standard; const char* generic; };
const std::vector<Zone> kZones = {
    {"Asia/Taipei", false, "台北標準時間", "台灣時間"}, {"America/New_York", false, "東部時間", "ET"},
    {"Asia/Tokyo", false, "日本標準時間", "日本時間"}, {"Europe/London", false, "英國時間", "英國時間"},
    {"Asia/Kolkata", false, "印度標準時間", "印度時間"}, {"Etc/GMT+5", true, "GMT-05:00", "GMT-5"},
    {"Etc/GMT-9", true, "GMT+09:00", "GMT+9"}, {"UTC", true, nullptr, nullptr},
    {"Pacific/Kiritimati", false, nullptr, nullptr}, {"America/St_Johns", false, nullptr, nullptr}, {"Australia/Sydney", false, nullptr, nullptr}};

void initX01() { setenv("TZ", "UTC", 1); tzset(); }

void moment(Source& s, Ctx& c, time_t* at);
void propX01(Source& s, Ctx& c) {
  time_t at = 0;
  moment(s, c, &at);
  // Time goes on, often by little.
  for (size_t i = 0; i < 3 && s.chance(1, 3); ++i) moment(s, c, &at);
}
// A moment: any, or one not long after (or before) another.
void moment(Source& s, Ctx& c, time_t* at) {
  static McBopomofo::InputMacroController ctl;
  static McBopomofo::McBopomofoLM lm;
  static bool loaded = false;
  static std::string last;
  if (*at == 0) last.clear();
  if (!loaded) {  // macros in a dictionary
    static std::string rows = "# format org.openvanilla.mcbopomofo.sorted\n";
    std::vector<std::string> all;
    for (auto* d : {"TODAY", "YESTERDAY", "TOMORROW"})
      for (auto* k : {"_SHORT", "_MEDIUM", "_MEDIUM_ROC", "_MEDIUM_CHINESE", "_MEDIUM_JAPANESE", "_WEEKDAY_SHORT", "_WEEKDAY", "2_WEEKDAY", "_WEEKDAY_JAPANESE"}) all.push_back(std::string("MACRO@DATE_") + d + k);
    for (auto* y : {"THIS", "LAST", "NEXT"})
      for (auto* k : {"PLAIN", "PLAIN_WITH_ERA", "ROC", "JAPANESE", "GANZHI", "CHINESE_ZODIAC"}) all.push_back(std::string("MACRO@") + y + "_YEAR_" + k);
    for (auto* k : {"TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"}) all.push_back(std::string("MACRO@") + k);
    std::sort(all.begin(), all.end());
    for (auto& n : all) rows += n + " " + n + " -8.0\n";
    lm.loadLanguageModel(std::make_unique<McBopomofo::ParselessPhraseDB>(rows.data(), rows.size(), true));
    lm.setMacroConverter([](const std::string& n) { return ctl.handle(n); });
    loaded = true;
  }
  static int zone = -1;
  const bool later = *at != 0;
  // The names of zones are those of recent years.
  int zi = later && (!s.chance(1, 8) || *at < 830000000 || *at > 2080000000) ? zone : static_cast<int>(s.below(kZones.size()));
  const Zone& z = kZones[zi];
  if (zone != zi) {
    setenv("TZ", z.name, 1);
    tzset();
    icu::TimeZone::adoptDefault(icu::TimeZone::createTimeZone(icu::UnicodeString(z.name)));
    zone = zi;
  }
  // A local civil moment, biased to the edges of days, months, years and eras.
  int64_t y = z.fixed ? s.range(1928, 2099) : s.range(1996, 2036);
  int m = 1 + static_cast<int>(s.below(12)), d = 0;
  switch (s.weighted({5, 2, 2, 2, 2, 2})) {
    case 0: d = 1 + static_cast<int>(s.below(mdays(y, m))); break;
    case 1: d = 1; break;
    case 2: d = mdays(y, m); break;
    case 3: m = s.coin() ? 1 : 12; d = m == 1 ? 1 : 31; break;
    case 4: m = 2; d = 28 + static_cast<int>(s.below(2)); if (!leap(y)) d = 28; break;
    case 5: {
      static const std::vector<std::vector<int>> edge = {{2019, 4, 30}, {2019, 5, 1}, {1989, 1, 7}, {1989, 1, 8}, {2018, 5, 1}, {2020, 4, 30}, {2000, 2, 29}, {2001, 9, 9}};
      auto& e = s.pick(edge);
      if (!z.fixed && e[0] < 1996) { y = 2019; m = 5; d = 1; }
      else { y = e[0]; m = e[1]; d = e[2]; }
    }
  }
  int64_t tod;
  switch (s.below(4)) {
    case 0: tod = s.coin() ? 0 : 86399; break;
    case 1: { static const std::vector<int> h = {0, 5, 8, 12, 13, 19}; tod = s.pick(h) * 3600 - (s.coin() ? 1 : 0); if (tod < 0) tod = 86399; break; }
    default: tod = static_cast<int64_t>(s.below(86400));
  }
  // UTC instant of about that local time, then the actual local time by libc.
  int64_t guess = days(y, m, d) * 86400 + tod;
  time_t t = static_cast<time_t>(guess);
  struct tm lt;
  localtime_r(&t, &lt);
  t = static_cast<time_t>(guess - lt.tm_gmtoff);
  if (later) {
    static const std::vector<int64_t> spans = {1, 60, 3600, 43200, 86400, 7 * 86400, 31 * 86400};
    int64_t span = s.pick(spans);
    span = 1 + static_cast<int64_t>(s.below(static_cast<uint64_t>(span)));
    t = *at + static_cast<time_t>(s.chance(1, 4) ? -span : span);
  }
  *at = t;
  localtime_r(&t, &lt);
  int64_t off = lt.tm_gmtoff;
  int64_t local = t + off;
  int64_t dayno = local >= 0 ? local / 86400 : -((-local + 86399) / 86400);
  tod = local - dayno * 86400;
  civil(dayno, &y, &m, &d);
  // Before 1970 whole seconds only: rounding of a fraction there is nobody's promise.
  g_fakeMicros = static_cast<int64_t>(t) * 1000000 + (t < 0 ? 0 : static_cast<int64_t>(s.below(1000000)));
  c.log("local ", y, "-", m, "-", d, " ", tod / 3600, ":", tod / 60 % 60, ":", tod % 60, " ", z.name, " (", t, ")");
  std::vector<std::pair<std::string, std::string>> all;
  auto expect = [&](const std::string& name, const std::string& want) { all.push_back({name, want}); };
  auto ask = [&](const std::string& name, const std::string& want) {
    g_fakeClock = true;
    std::string got = ctl.handle(name), typed = got, listed = lm.convertMacro(name);
    if (lm.hasUnigrams(name)) {
      auto us = lm.getUnigrams(name);
      typed = us.size() == 1 ? us[0].value() : "nothing";
    }
    g_fakeClock = false;
    PBT_CHECK(got == want, name.c_str(), "on ", y, "-", m, "-", d, " ", tod / 3600, ":", tod / 60 % 60, " in ", z.name, ": ", got, ", expected ", want);
    PBT_CHECK(listed == want, name.c_str(), "on ", y, "-", m, "-", d, " ", tod / 3600, ":", tod / 60 % 60, " in ", z.name, " the menu offers ", listed, ", expected ", want);
    PBT_CHECK(typed == want, name.c_str(), "on ", y, "-", m, "-", d, " ", tod / 3600, ":", tod / 60 % 60, " in ", z.name, " the dictionary offers ", typed, ", expected ", want);
  };
  static const char* const wd[] = {"日", "一", "二", "三", "四", "五", "六"};
  static const char* const wj[] = {"日", "月", "火", "水", "木", "金", "土"};
  struct { const char* n; int off; } ds[] = {{"TODAY", 0}, {"YESTERDAY", -1}, {"TOMORROW", 1}};
  for (auto& e : ds) {
    int64_t yy; int mm, dd;
    civil(dayno + e.off, &yy, &mm, &dd);
    int w = static_cast<int>(((dayno + e.off + 4) % 7 + 7) % 7);
    std::string md = std::to_string(mm) + "月" + std::to_string(dd) + "日";
    std::string b = std::string("MACRO@DATE_") + e.n;
    expect(b + "_SHORT", std::to_string(yy) + "/" + std::to_string(mm) + "/" + std::to_string(dd));
    expect(b + "_MEDIUM", std::to_string(yy) + "年" + md);
    expect(b + "_MEDIUM_ROC", "民國" + std::to_string(yy - 1911) + "年" + md);
    expect(b + "_MEDIUM_JAPANESE", japEra(yy, mm, dd, true) + "年" + md);
    expect(b + "_WEEKDAY_SHORT", std::string("週") + wd[w]);
    expect(b + "_WEEKDAY", std::string("星期") + wd[w]);
    expect(b + "2_WEEKDAY", std::string("禮拜") + wd[w]);
    expect(b + "_WEEKDAY_JAPANESE", std::string(wj[w]) + "曜日");
    // Lunar dates: the calendar library applied directly to noon of the civil day.
    UErrorCode st = U_ZERO_ERROR;
    static const icu::Locale lunar = icu::Locale::createCanonical("zh_Hant_TW@calendar=chinese");
    static std::unique_ptr<icu::DateFormat> fmt(icu::DateFormat::createDateInstance(icu::DateFormat::kMedium, lunar));
    static bool once = (fmt->adoptTimeZone(icu::TimeZone::createTimeZone("Asia/Shanghai")), true);
    (void)once; (void)st;
    icu::UnicodeString us;
    fmt->format(static_cast<UDate>((dayno + e.off) * 86400.0 + 43200 - 28800) * 1000, us);
    std::string lun;
    us.toUTF8String(lun);
    expect(b + "_MEDIUM_CHINESE", lun);
  }
  static const std::vector<std::string> gan = {"甲", "乙", "丙", "丁", "戊", "己", "庚", "辛", "壬", "癸"};
  static const std::vector<std::string> zhi = {"子", "丑", "寅", "卯", "辰", "巳", "午", "未", "申", "酉", "戌", "亥"};
  static const std::vector<std::string> elem = {"木", "火", "土", "金", "水"};
  static const std::vector<std::string> anim = {"鼠", "牛", "虎", "兔", "龍", "蛇", "馬", "羊", "猴", "雞", "狗", "豬"};
  struct { const char* n; int off; } ys[] = {{"THIS", 0}, {"LAST", -1}, {"NEXT", 1}};
  for (auto& e : ys) {
    int64_t yy = y + e.off;
    int dd = std::min(d, mdays(yy, m));
    std::string b = std::string("MACRO@") + e.n + "_YEAR_";
    expect(b + "PLAIN", std::to_string(yy) + "年");
    expect(b + "PLAIN_WITH_ERA", "西元" + std::to_string(yy) + "年");
    expect(b + "ROC", "民國" + std::to_string(yy - 1911) + "年");
    expect(b + "JAPANESE", japEra(yy, m, dd, false) + "年");
    // 1984 began a cycle.
    int64_t k = ((yy - 1984) % 60 + 60) % 60;
    expect(b + "GANZHI", gan[k % 10] + zhi[k % 12] + "年");
    expect(b + "CHINESE_ZODIAC", elem[k % 10 / 2] + anim[k % 12] + "年");
  }
  int h = static_cast<int>(tod / 3600);
  const char* period = h < 5 ? "凌晨" : h < 8 ? "清晨" : h < 12 ? "上午" : h < 13 ? "中午" : h < 19 ? "下午" : "晚上";
  char hm[32], hms[32];
  snprintf(hm, sizeof hm, "%s%d:%02d", period, h % 12 ? h % 12 : 12, static_cast<int>(tod / 60 % 60));
  snprintf(hms, sizeof hms, "%s:%02d", hm, static_cast<int>(tod % 60));
  expect("MACRO@TIME_NOW_SHORT", hm);
  expect("MACRO@TIME_NOW_MEDIUM", hms);
  if (z.standard) {
    expect("MACRO@TIMEZONE_STANDARD", z.standard);
    expect("MACRO@TIMEZONE_GENERIC_SHORT", z.generic);
  }
  static const std::vector<std::string> other = {"", "MACRO@", "MACRO@NO_SUCH", "今天", "MACRO@DATE_TODAY", "macro@date_today_short", "MACRO@DATE_TODAY_SHORT "};
  for (auto& o : other) expect(o, o);
  // In any order; what was asked last may be asked again at the next moment.
  if (s.coin()) std::reverse(all.begin(), all.end());
  size_t first = s.below(all.size());
  for (size_t i = 0; later && i < all.size(); ++i)
    if (all[i].first == last && s.chance(3, 4)) first = i;
  for (size_t i = 0, n = s.chance(1, 4) ? 1 + s.below(3) : all.size(); i < n; ++i) {
    auto& e = all[(first + i) % all.size()];
    ask(e.first, e.second);
    last = e.first;
  }
  c.mix(static_cast<uint64_t>(t));
  if (d == 1 || d == mdays(y, m) || tod < 60 || tod > 86340) { c.interesting(); c.label("edge"); }
  c.label(z.name);
  if (lt.tm_isdst > 0) c.label("dst");
}

// ---------------------------------------------------------------- C01
void initC01() {
  initX01();
  Locales::get().load();
}
// Any of the above, in any locale.
void propC01(Source& s, Ctx& c) {
  const std::string l = s.pick(Locales::get().names);
  static const std::vector<const char*> langs = {"en_US_POSIX", "de_DE", "fr_FR", "tr_TR", "zh_TW", "zh_CN", "ps_AF", "fa_IR", "th_TH", "ja_JP@calendar=japanese", "ar_EG@numbers=arab", "ar_SA"};
  const char* lang = s.pick(langs);
  UErrorCode st = U_ZERO_ERROR;
  icu::Locale::setDefault(icu::Locale(lang), st);
  c.log("in ", l, " and ", lang);
  Abroad there(l);
  size_t k = s.weighted({3, 1, 1});
  if (k == 0) propX01(s, c);
  else if (k == 1) propN01(s, c);
  else propN02(s, c);
  c.label("in " + l);
  c.mix(lang);
}

}  // namespace

namespace pbt {
const std::vector<Property> kProperties = {
    {"C01", "a case is a locale of the C library and one of ICU with one numeral, or an instant and time zone on which all 49 macros are expanded; non-trivial as for those", propC01, 12000, 120000, initC01},
    {"N01", "a case is one integer part, fraction and style; non-trivial: the significant integer digits contain a zero", propN01, 2000000, 8000000},
    {"N02", "a case is one number, unit and direction; non-trivial: two or more integer digits", propN02, 5000000, 16000000},
    {"X01", "a case is one to four moments in a time zone, at which the macros are expanded, directly and through the dictionary; non-trivial: within a minute of midnight or on the first or last day of a month", propX01, 6000, 60000, initX01},
};
}
