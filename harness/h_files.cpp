// F01 (user data files), F02 (opening whatever is found), F03 (missing and
// obstructed files).
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>

#include "Engine/AssociatedPhrasesV2.h"
#include "Engine/McBopomofoLM.h"
#include "Engine/MemoryMappedFile.h"
#include "Engine/ParselessLM.h"
#include "Engine/PhraseReplacementMap.h"
#include "Engine/UserPhrasesLM.h"
#include "KeyHandler.h"
#include "LanguageModelLoader.h"
#include "Log.h"
#include "pbt.h"
#include "ref_lm.h"

using namespace McBopomofo;
using pbt::Ctx;
using pbt::Source;
namespace fs = std::filesystem;

namespace {

std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void spit(const std::string& p, const std::string& t) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << t;
}
// Waits until a write would get a modification time different from `p`'s.
void nextTick(const std::string& p) {
  struct stat st;
  if (stat(p.c_str(), &st)) return;
  while (true) {
    timespec t;
    clock_gettime(CLOCK_REALTIME_COARSE, &t);
    if (t.tv_sec != st.st_mtim.tv_sec || t.tv_nsec != st.st_mtim.tv_nsec) return;
    usleep(500);
  }
}
constexpr long kSecond = 1000000000;
void setTime(const std::string& p, long ns) {
  timespec t[2] = {{ns / kSecond, ns % kSecond}, {ns / kSecond, ns % kSecond}};
  utimensat(AT_FDCWD, p.c_str(), t, 0);
}
// Whether files here keep times to better than a millisecond.
bool fineTimes(const std::string& dir) {
  const std::string p = dir + "/.times";
  spit(p, "");
  setTime(p, 1000000000 * kSecond + 100200300);
  struct stat st = {};
  const bool fine = !stat(p.c_str(), &st) && st.st_mtim.tv_nsec / 100000 == 1002;
  unlink(p.c_str());
  return fine;
}

// ---------------------------------------------------------------- F01
std::string g_root, g_user;
std::vector<ref::Row> g_db, g_dbPlain;
const std::vector<std::string> kReadings = {"ㄧ", "ㄧˋ", "ㄧ-ㄧˋ", "ㄧˋ-ㄧˋ", "ㄅ", "ㄅ-ㄧ"};
const std::vector<std::string> kValues = {"一", "乙", "以", "已", "意義", "異議", "丁", "甲", "八", "😀"};

void initF01() {
  const char* sc = getenv("PBT_SCRATCH");
  g_root = sc;
  setenv("HOME", (g_root + "/home").c_str(), 1);
  setenv("XDG_DATA_HOME", (g_root + "/home/.local/share").c_str(), 1);
  setenv("XDG_CONFIG_HOME", (g_root + "/home/.config").c_str(), 1);
  setenv("XDG_CACHE_HOME", (g_root + "/home/.cache").c_str(), 1);
  setenv("XDG_DATA_DIRS", (g_root + "/share").c_str(), 1);
  unsetenv("FCITX_DATA_HOME");
  g_user = g_root + "/home/.local/share/fcitx5/mcbopomofo";
  fs::create_directories(g_root + "/share/fcitx5/data");
  fs::create_directories(g_root + "/home");
  g_db = {{"ㄧ", "一", "-3"}, {"ㄧ", "乙", "-4.5"}, {"ㄧˋ", "意", "-3"}, {"ㄧˋ", "以", "-5"}, {"ㄧˋ-ㄧˋ", "意義", "-4"}, {"ㄧˋ-ㄧˋ", "異議", "-4.25"}, {"ㄅ", "八", "-2"}};
  g_dbPlain = {{"ㄧ", "乙", "-1"}, {"ㄧˋ", "易", "-1"}, {"ㄅ", "八", "-2"}};
  spit(g_root + "/share/fcitx5/data/mcbopomofo-data.txt", ref::dbText(g_db, true, true));
  spit(g_root + "/share/fcitx5/data/mcbopomofo-data-plain-bpmf.txt", ref::dbText(g_dbPlain, true, true));
  spit(g_root + "/share/fcitx5/data/mcbopomofo-associated-phrases-v2.txt", "# format org.openvanilla.mcbopomofo.sorted\n");
  fcitx::Log::setLogRule("*=0");
}

class Strings : public LanguageModelLoader::LocalizedStrings {
 public:
  std::string userPhraseFileHeader() override { return "# user phrases\n#\n# 乙 ㄅ\n\n"; }
  std::string excludedPhraseFileHeader() override { return "# excluded\n"; }
};

std::string genFile(Source& s, bool replacement, bool allowBad) {
  std::string o;
  size_t n = s.below(6);
  for (size_t i = 0; i < n; ++i) {
    size_t w = s.weighted({10, 2, 1, 1, 1});
    if (w == 0) o += s.pick(kValues) + (s.chance(1, 4) ? " \t" : " ") + (replacement ? s.pick(kValues) : s.pick(kReadings));
    else if (w == 1) o += "# 甲 ㄧ";
    else if (w == 2) o += "  ";
    else if (w == 3) o += s.pick(kValues) + " " + s.pick(kReadings) + " 9 trailing";
    else if (allowBad && s.chance(1, 3)) o += "single";
    if (i + 1 < n || s.coin()) o += s.chance(1, 6) ? "\r\n" : "\n";
  }
  if (s.chance(1, 12)) o += "#" + std::string(5000, 'x') + "\n乙 ㄅ-ㄧ" + (s.coin() ? "\n" : "");
  if (s.chance(1, 40)) {  // a file kept for years
    std::string big;
    for (size_t k = 1000 + s.below(3000), i = 0; i < k; ++i) big += "舊" + std::to_string(i) + " ㄧㄡˋ-ㄧㄡˋ\n";
    o = big + o;
  }
  if (s.chance(1, 25)) {  // ends exactly at the end of a page
    const size_t at = 4096 * (o.size() / 4096 + 1) - o.size();
    if (at >= 2) o = "#" + std::string(at - 2, 'p') + "\n" + o;
  }
  return o;
}

std::vector<std::string> linesOf(const std::string& t) {
  std::vector<std::string> o;
  std::string cur;
  bool open = false;
  for (char ch : t) {
    open = true;
    if (ch == '\n') { o.push_back(cur); cur.clear(); open = false; }
    else cur += ch;
  }
  if (open) o.push_back(cur);
  return o;
}

void f01(Source& s, Ctx& c) {
  // Everything under the user's home is scratch of this case.
  fs::remove_all(g_root + "/home");
  fs::create_directories(g_root + "/home");
  const std::string uf = g_user + "/data.txt", xf = g_user + "/exclude-phrases.txt", rf = g_user + "/phrases-replacement.txt";
  static const bool fine = fineTimes(g_root);
  long stamp = (1000000000 + static_cast<long>(s.below(3)) * 1000) * kSecond;
  // An outside edit gives a file a new time: later than any before, or, when
  // it is restored from a backup, earlier.
  long older = stamp;
  auto touch = [&](const std::string& p) {
    const long step = std::vector<long>{7 * kSecond, kSecond, kSecond / 4, kSecond / 500, kSecond / 4000}[fine ? s.weighted({6, 2, 2, 1, 1}) : 0];
    setTime(p, s.chance(1, 5) ? older -= step : stamp += step);
  };
  const std::string away = g_user + "/away";
  size_t start = s.below(4);
  if (start >= 1) fs::create_directories(g_root + "/home/.local/share");
  if (start >= 2) fs::create_directories(g_root + "/home/.local/share/fcitx5");
  if (start >= 3) {
    fs::create_directories(g_user);
    if (s.coin()) { spit(uf, genFile(s, false, true)); touch(uf); }
    if (s.coin()) { spit(xf, genFile(s, false, true)); touch(xf); }
    if (s.chance(1, 3)) { spit(rf, genFile(s, true, true)); touch(rf); }
    c.log("existing user directory: data ", pbt::show(slurp(uf)), " excluded ", pbt::show(slurp(xf)), " replacement ", pbt::show(slurp(rf)));
  }
  c.label(start == 0 ? "no data home" : start == 1 ? "no fcitx5 directory" : start == 2 ? "no user directory" : "existing user directory");

  ref::LM model;
  auto load = [&]() {  // what a fresh load of the files gives
    model.user = ref::refParse(slurp(uf)).pairs;
    model.excluded = ref::refParse(slurp(xf)).pairs;
    model.repl.clear();
    model.replOn = fs::exists(rf);
    if (model.replOn)
      for (auto& p : ref::refParse(slurp(rf)).pairs) model.repl[p.first] = p.second;
  };
  std::unique_ptr<LanguageModelLoader> L;
  int mode = 0;
  auto check = [&](const char* when) {
    model.db = mode ? g_dbPlain : g_db;
    std::shared_ptr<McBopomofoLM> lm = L->getLM();
    for (auto& r : kReadings) {
      auto want = model.get(r);
      auto got = lm->getUnigrams(r);
      std::string a, b;
      for (auto& u : want) a += u.value + "/" + std::to_string(u.score) + " ";
      for (auto& u : got) b += u.value() + "/" + std::to_string(u.score()) + " ";
      PBT_CHECK(a == b, "loaded-words", when, ": ", r, " offers ", b, "instead of ", a);
    }
  };
  auto boot = [&]() {
    L = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
    mode = 0;
    PBT_CHECK(fs::is_directory(g_user), "user-directory", "the user directory was not created");
    PBT_CHECK(fs::exists(uf) && fs::exists(xf), "user-files", "the user files were not created");
    PBT_CHECK(L->userDataPath() == g_user && L->userPhrasesPath() == uf && L->excludedPhrasesPath() == xf, "paths", "paths are ", L->userDataPath(), " ", L->userPhrasesPath());
    load();
    check("after start");
  };
  std::string u0 = slurp(uf), x0 = slurp(xf);
  bool hadU = fs::exists(uf), hadX = fs::exists(xf);
  boot();
  if (hadU) PBT_CHECK(slurp(uf) == u0, "file-kept", "starting changed the user phrases");
  if (hadX) PBT_CHECK(slurp(xf) == x0, "file-kept", "starting changed the excluded phrases");

  size_t steps = 0, edits = 0, adds = 0;
  bool pending = false;
  while (s.more(steps, 7, 30)) {
    ++steps;
    switch (s.weighted({5, 4, 3, 1, 1, 1, 3})) {
      case 0: {  // the user adds a phrase
        std::string v = s.pick(kValues), r = s.pick(kReadings);
        std::string before = slurp(uf), xb = slurp(xf), rb = slurp(rf);
        nextTick(uf);
        c.log("add ", v, " ", r, " to ", pbt::show(before));
        L->addUserPhrase(r, v);
        std::string after = slurp(uf);
        auto lb = linesOf(before), la = linesOf(after);
        PBT_CHECK(after.compare(0, before.size(), before) == 0, "file-kept", "the file ", pbt::show(before), " became ", pbt::show(after));
        PBT_CHECK(la.size() > lb.size(), "line-of-its-own", "the file ", pbt::show(before), " became ", pbt::show(after));
        for (size_t i = 0; i < lb.size(); ++i) PBT_CHECK(la[i] == lb[i], "line-of-its-own", "the line ", pbt::show(lb[i]), " became ", pbt::show(la[i]));
        auto p = ref::refParse(la.back() + "\n");
        PBT_CHECK(p.pairs.size() == 1 && p.pairs[0].first == v && p.pairs[0].second == r && after.back() == '\n', "added-line", "added ", pbt::show(la.back()), " for ", v, " ", r);
        PBT_CHECK(slurp(xf) == xb && slurp(rf) == rb, "file-kept", "adding changed another file");
        load();
        check("after adding");
        pending = false;
        ++adds;
        if (!before.empty() && before.back() != '\n') c.label("no final newline");
        break;
      }
      case 1: {  // edited from outside
        size_t f = s.weighted({4, 3, 3});
        const std::string& p = f == 0 ? uf : f == 1 ? xf : rf;
        std::string t = genFile(s, f == 2, true);
        bool existed = fs::exists(p);
        if (s.coin() && existed) {
          std::string tmp = p + ".new";
          spit(tmp, t);
          touch(tmp);
          fs::rename(tmp, p);
          c.log("replace ", p.substr(g_user.size()), " by ", pbt::show(t));
        } else {
          spit(p, t);
          touch(p);
          c.log("write ", p.substr(g_user.size()), ": ", pbt::show(t));
        }
        ++edits;
        pending = true;
        c.mix(t);
        if (s.chance(1, 3)) check("before reloading");
        break;
      }
      case 2:
        c.log("reload");
        L->reloadUserModelsIfNeeded();
        load();
        check("after reloading");
        if (pending) c.label("reloaded after an edit");
        pending = false;
        break;
      case 3:
        if (fs::exists(rf)) {
          c.log("remove the replacement file");
          fs::remove(rf);
          pending = true;
          c.label("replacement removed");
        }
        break;
      case 4:
        c.log("restart");
        L.reset();
        boot();
        pending = false;
        break;
      case 6:  // the replacement file is moved away, and back as it was
        if (fs::exists(away)) {
          c.log("move the replacement file back");
          fs::rename(away, rf);
          c.label("replacement restored");
        } else if (fs::exists(rf)) {
          c.log("move the replacement file away");
          fs::rename(rf, away);
        }
        pending = true;
        break;
      case 5:
        mode = static_cast<int>(s.below(2));
        c.log("load the dictionary of mode ", mode);
        L->loadModelForMode(mode ? InputMode::PlainBopomofo : InputMode::McBopomofo);
        check("after a mode switch");
        break;
    }
  }
  L->reloadUserModelsIfNeeded();
  load();
  check("at the end");
  L.reset();
  boot();
  c.mix(adds * 100 + edits);
  if (adds && edits) c.interesting();
}

// ---------------------------------------------------------------- F02
std::string g_dir;
struct PathKind {
  std::string path;
  bool good;       // a non-empty regular file
  std::string content;
};
std::vector<PathKind> g_paths;
void initF02() {
  g_dir = std::string(getenv("PBT_SCRATCH")) + "/f02";
  fs::create_directories(g_dir);
}
const std::vector<std::string> kQ = {"ㄧ", "ㄅ", "甲", "一", "a", ""};

std::string goodContent(Source& s, int type) {
  std::string o;
  size_t n = 1 + s.below(5);
  if (type <= 1) {
    std::vector<std::string> rows;
    for (size_t i = 0; i < n; ++i) {
      if (type == 0) rows.push_back(s.pick(std::vector<std::string>{"ㄧ", "ㄅ"}) + " " + s.pick(std::vector<std::string>{"甲", "一", "乙"}) + " -" + std::to_string(1 + s.below(9)));
      else rows.push_back(s.pick(std::vector<std::string>{"一-ㄧ-甲-ㄅ", "一-ㄧ-乙-ㄅ", "甲-ㄅ-一-ㄧ", "甲-ㄅ-一-ㄧ-乙-ㄅ"}) + " -" + std::to_string(1 + s.below(9)));
    }
    std::sort(rows.begin(), rows.end());
    o = ref::kHeader;
    for (auto& r : rows) o += r + "\n";
  } else
    for (size_t i = 0; i < n; ++i) o += s.pick(std::vector<std::string>{"甲", "一", "乙"}) + " " + s.pick(std::vector<std::string>{"ㄧ", "ㄅ", "一"}) + "\n";
  if (s.chance(1, 8)) o.resize(o.size() - 1);
  if (type >= 2 && s.chance(1, 10)) {  // ends exactly at the end of a page
    std::string pad = "#" + std::string(4096 * (1 + s.below(3)) - (o.size() + 2) % 4096, 'p') + "\n";
    o = pad + o;
  }
  return o;
}
std::string garbage(Source& s) {
  size_t n = 1 + s.below(40);
  std::string o;
  if (s.chance(1, 3)) o = std::string(ref::kHeader).substr(0, s.below(45));
  for (size_t i = 0; i < n; ++i) o += s.coin() ? static_cast<char>(s.below(256)) : "\n #\xe3\x84\xa7\xe7\x94\xb2-."[s.below(11)];
  // scores that are not numbers are outside the file format
  std::string h(ref::kHeader);
  if (o.compare(0, h.size(), h) == 0) o[0] = '!';
  return o;
}

// One answer string per object, to compare with that of a fresh object fed the
// same bytes from memory.
std::string ask(ParselessLM& m) {
  std::string o = m.isLoaded() ? "loaded " : "not loaded ";
  for (auto& k : kQ) {
    o += k + (m.hasUnigrams(k) ? "+" : "-");
    for (auto& u : m.getUnigrams(k)) o += u.value() + "/" + std::to_string(u.score()) + ",";
    for (auto& r : m.getReadings(k)) o += r.reading + "/" + std::to_string(r.score) + ";";
  }
  return o;
}
std::string ask(AssociatedPhrasesV2& m) {
  std::string o = m.isLoaded() ? "loaded " : "not loaded ";
  for (auto& k : kQ)
    for (int w = 0; w < 3; ++w) {
      std::vector<std::string> rd;
      if (w == 1) rd = {"ㄧ"};
      if (w == 2) rd = {"ㄅ"};
      for (auto& p : m.findPhrases(k, rd)) o += p.value + "/" + p.combinedReading() + ",";
      o += ";";
    }
  return o;
}
std::string ask(UserPhrasesLM& m) {
  std::string o;
  for (auto& k : kQ) {
    o += k + (m.hasUnigrams(k) ? "+" : "-");
    for (auto& u : m.getUnigrams(k)) o += u.value() + ",";
  }
  return o;
}
std::string ask(PhraseReplacementMap& m) {
  std::string o;
  for (auto& k : kQ) o += k + "=" + m.valueForKey(k) + ",";
  return o;
}
template <class T>
bool feed(T& t, const std::string& bytes) {
  if constexpr (std::is_same_v<T, ParselessLM> || std::is_same_v<T, AssociatedPhrasesV2>)
    return t.open(std::make_unique<ParselessPhraseDB>(bytes.data(), bytes.size(), true));
  else
    return t.load(bytes.data(), bytes.size());
}

struct MM {  // the mapping itself
  MemoryMappedFile f;
  bool open(const char* p) { return f.open(p); }
  void close() { f.close(); }
};

template <class T>
std::string answer(T& t) { return ask(t); }
template <>
std::string answer<MM>(MM& t) {
  if (!t.f.data()) return "none " + std::to_string(t.f.length());
  return "bytes " + std::string(t.f.data(), t.f.length());
}
template <class T>
std::string expected(const std::string& bytes, bool loaded) {
  if constexpr (std::is_same_v<T, MM>) return loaded ? "bytes " + bytes : "none 0";
  else {
    T fresh;
    if (loaded) feed(fresh, bytes);
    return ask(fresh);
  }
}

// Which files under the scratch directory this process still has open or mapped.
std::string held() {
  std::string o;
  std::error_code err;
  for (auto& f : fs::directory_iterator("/proc/self/fd", err)) {
    std::string to = fs::read_symlink(f.path(), err).string();
    if (to.compare(0, g_dir.size(), g_dir) == 0) o += " open:" + to;
  }
  std::ifstream maps("/proc/self/maps");
  for (std::string line; std::getline(maps, line);)
    if (line.find(g_dir) != std::string::npos) o += " mapped:" + line.substr(line.find(g_dir));
  return o;
}

template <class T>
void drive(Source& s, Ctx& c, int type, const char* name) {
  fs::remove_all(g_dir);
  fs::create_directories(g_dir + "/dir");
  auto obj = std::make_unique<T>();
  const bool watch = s.chance(1, 4);
  const std::string before = watch ? held() : "";
  bool open = false;
  std::string bytes;
  size_t n = 0, fails = 0, oks = 0;
  std::string p = g_dir + "/file";
  while (s.more(n, 5, 20)) {
    ++n;
    if (s.chance(2, 3)) {
      size_t k = s.weighted({4, 2, 2, 2, 2, 1, 1, 1, 1, 1});
      std::string path = p + std::to_string(n), content;
      bool good = false;
      switch (k) {
        case 0: content = goodContent(s, type); spit(path, content); good = true; break;
        case 1: content = garbage(s); spit(path, content); good = true; break;
        case 2: path += "-missing"; break;
        case 3: spit(path, ""); break;
        case 4: path = s.coin() ? g_dir + "/dir" : g_dir; break;
        case 5: path = ""; break;
        case 6: fs::create_symlink(path, path); break;
        case 7: spit(path, "x"); path += "/below"; break;
        case 8: path = "/dev/null"; break;
        case 9: {
          content = goodContent(s, type);
          spit(path + "t", content);
          fs::create_symlink(path + "t", path);
          good = true;
          break;
        }
      }
      c.log(name, " open ", path, good ? " with " + pbt::show(content) : "");
      bool r = obj->open(path.c_str());
      PBT_CHECK(r == (good && !open), "open-result", name, ": opening ", path, " (kind ", k, ") returned ", r, open ? " while open" : "");
      if (r) { open = true; bytes = content; ++oks; }
      else ++fails;
      c.mix(k);
      c.label(good ? "regular file" : "not a usable file");
    } else {
      c.log(name, " close");
      obj->close();
      open = false;
      bytes.clear();
      if (watch) {
        std::string h = held();
        PBT_CHECK(h == before, "released", name, ": after closing, the process still has", h);
      }
    }
    std::string got = answer(*obj), want = expected<T>(bytes, open);
    PBT_CHECK(got == want, "content", name, ": answers ", pbt::show(got), " instead of ", pbt::show(want));
  }
  if (watch) {
    obj.reset();
    std::string h = held();
    PBT_CHECK(h == before, "released", name, ": with the object gone, the process still has", h);
  }
  if (oks && fails) c.interesting();
  c.label(name);
}

void f02(Source& s, Ctx& c) {
  switch (s.below(6)) {
    case 0: drive<ParselessLM>(s, c, 0, "dictionary"); break;
    case 1: drive<AssociatedPhrasesV2>(s, c, 1, "associated phrases"); break;
    case 2: drive<UserPhrasesLM>(s, c, 2, "user phrases"); break;
    case 3: drive<PhraseReplacementMap>(s, c, 3, "replacement map"); break;
    case 4: {
      drive<MM>(s, c, 2, "mapping");
      // moving hands everything over
      fs::remove_all(g_dir);
      fs::create_directories(g_dir);
      std::string t = goodContent(s, 2), p = g_dir + "/m";
      spit(p, t);
      MM a, b;
      bool aOpen = s.coin(), bOpen = s.coin();
      if (aOpen) a.open(p.c_str());
      if (bOpen) b.open(p.c_str());
      bool assign = s.coin();
      if (assign) {
        b.f = std::move(a.f);
        PBT_CHECK(answer(b) == expected<MM>(t, aOpen), "move", "after moving: ", pbt::show(answer(b)));
      } else {
        MM d{std::move(a.f)};
        PBT_CHECK(answer(d) == expected<MM>(t, aOpen), "move", "after moving: ", pbt::show(answer(d)));
      }
      PBT_CHECK(answer(a) == "none 0", "moved-from", "what was moved from holds ", pbt::show(answer(a)));
      PBT_CHECK(a.open(p.c_str()) && answer(a) == expected<MM>(t, true), "moved-from", "what was moved from cannot be opened again");
      break;
    }
    case 5: {  // the whole model
      fs::remove_all(g_dir);
      fs::create_directories(g_dir + "/dir");
      const bool watch = s.chance(1, 4);
      const std::string before = watch ? held() : "";
      auto all = std::make_unique<McBopomofoLM>();
      McBopomofoLM& lm = *all;
      std::string contents[4], current[4];
      bool on[4] = {false, false, false, false};
      size_t n = 0, files = 0;
      while (s.more(n, 5, 15)) {
        ++n;
        auto gen = [&](int type, std::string* path, std::string* content) {
          *path = g_dir + "/w" + std::to_string(n) + "_" + std::to_string(++files);
          size_t k = s.weighted({5, 1, 1, 1});
          if (k == 0) { *content = goodContent(s, type); spit(*path, *content); return true; }
          if (k == 1) spit(*path, "");
          if (k == 2) *path = g_dir + "/dir";
          return false;
        };
        std::string p1, p2;
        size_t w = s.below(4);
        if (w == 0) {
          contents[0].clear();
          on[0] = gen(0, &p1, &contents[0]);
          lm.loadLanguageModel(p1.c_str());
        } else if (w == 1) {
          contents[1].clear();
          on[1] = gen(1, &p1, &contents[1]);
          lm.loadAssociatedPhrasesV2(p1.c_str());
        } else if (w == 2) {
          contents[2].clear();
          contents[3].clear();
          on[2] = gen(2, &p1, &contents[2]);
          on[3] = gen(2, &p2, &contents[3]);
          bool n1 = s.chance(1, 5), n2 = s.chance(1, 5);
          if (n1) { on[2] = false; contents[2].clear(); }
          if (n2) { on[3] = false; contents[3].clear(); }
          lm.loadUserPhrases(n1 ? nullptr : p1.c_str(), n2 ? nullptr : p2.c_str());
        } else {
          lm.loadLanguageModel(static_cast<const char*>(nullptr));
        }
        c.log("load ", w, " from ", p1, " ", p2);
        PBT_CHECK(lm.isDataModelLoaded() == on[0], "model-loaded", "the dictionary is reported as loaded: ", lm.isDataModelLoaded());
        PBT_CHECK(lm.isAssociatedPhrasesV2Loaded() == on[1], "model-loaded", "the associated phrases are reported as loaded: ", lm.isAssociatedPhrasesV2Loaded());
        ref::LM m;
        std::istringstream in(contents[0]);
        std::string line;
        std::getline(in, line);
        while (std::getline(in, line)) {
          std::istringstream ls(line);
          ref::Row r;
          ls >> r.reading >> r.value >> r.score;
          m.db.push_back(r);
        }
        m.user = ref::refParse(contents[2]).pairs;
        m.excluded = ref::refParse(contents[3]).pairs;
        for (auto& k : kQ) {
          if (k.empty()) continue;
          // duplicates of a word in one file are kept once, the first of them
          std::string a, b;
          for (auto& u : m.get(k)) a += u.value + "/" + std::to_string(u.score) + ",";
          for (auto& u : lm.getUnigrams(k)) b += u.value() + "/" + std::to_string(u.score()) + ",";
          PBT_CHECK(a == b, "model-words", k, " offers ", b, " instead of ", a);
          PBT_CHECK(lm.hasUnigrams(k) == !a.empty(), "model-words", k, " is reported as ", lm.hasUnigrams(k) ? "known" : "unknown");
        }
        c.mix(w * 2 + on[0]);
        if (watch && before.empty()) {
          // What was replaced is released.
          if (w < 3) {
            current[w] = p1;
            if (w == 2) current[3] = p2;
          }
          std::istringstream hs(held());
          for (std::string f; hs >> f;) {
            f = f.substr(f.find(':') + 1);
            PBT_CHECK(std::find(std::begin(current), std::end(current), f) != std::end(current), "released", f, " was replaced, but the process still has it");
          }
        }
      }
      if (watch) {
        all.reset();
        std::string h = held();
        PBT_CHECK(h == before, "released", "with the model gone, the process still has", h);
      }
      if (n >= 3) c.interesting();
      c.label("whole model");
      break;
    }
  }
}

// ---------------------------------------------------------------- F03
struct KeyStrings : KeyHandler::LocalizedStrings {
  std::string cursorIsBetweenSyllables(const std::string& a, const std::string& b) override { return a + b; }
  std::string syllablesRequired(size_t n) override { return std::to_string(n); }
  std::string syllablesMaximum(size_t n) override { return std::to_string(n); }
  std::string phraseAlreadyExists() override { return "exists"; }
  std::string pressEnterToAddThePhrase() override { return "enter"; }
  std::string markedWithSyllablesAndStatus(const std::string& m, const std::string& r, const std::string& st) override { return m + r + st; }
};

// Every path below `root` with its kind and content.
std::map<std::string, std::string> snapshot(const std::string& root) {
  std::map<std::string, std::string> o;
  for (auto& e : fs::recursive_directory_iterator(root, fs::directory_options::none)) {
    std::string k = e.path().string().substr(root.size());
    if (e.is_symlink()) o[k] = "-> " + fs::read_symlink(e.path()).string();
    else if (e.is_directory()) o[k] = "directory";
    else o[k] = "file " + slurp(e.path().string());
  }
  return o;
}

void f03(Source& s, Ctx& c) {
  const std::string home = g_root + "/home", shared = g_root + "/share/fcitx5/data";
  fs::remove_all(home);
  fs::remove_all(shared);
  fs::create_directories(home);
  fs::create_directories(shared);
  const std::string uf = g_user + "/data.txt", xf = g_user + "/exclude-phrases.txt", rf = g_user + "/phrases-replacement.txt";
  long stamp = 1000000000 * kSecond;
  size_t faults = 0;
  // The files that come with the input method.
  struct Shipped { const char* name; std::string good; bool ok, headless = false; };
  Shipped sh[3] = {{"mcbopomofo-data.txt", ref::dbText(g_db, true, true), true},
                   {"mcbopomofo-data-plain-bpmf.txt", ref::dbText(g_dbPlain, true, true), true},
                   {"mcbopomofo-associated-phrases-v2.txt", std::string(ref::kHeader) + "一-ㄧ-意-ㄧˋ -2\n八-ㄅ-乙-ㄧ -1\n", true}};
  auto place = [&](Shipped& f, bool mayFail) {
    const std::string p = shared + "/" + f.name;
    fs::remove_all(p);
    size_t w = mayFail ? s.weighted({8, 4, 1, 1, 1, 1}) : 0;
    f.ok = w == 0;
    f.headless = w == 4;
    switch (w) {
      case 0: spit(p, f.good); break;
      case 1: break;
      case 2: spit(p, ""); break;
      case 3: fs::create_directories(p + "/x"); break;
      case 4: spit(p, f.good.substr(f.good.find('\n') + 1)); break;  // without its header
      case 5: fs::create_symlink(shared + "/nowhere", p); break;
    }
    static const char* how[] = {"in place", "missing", "empty", "a directory", "without its header", "a dangling link"};
    if (w) {
      ++faults;
      c.label(pbt::cat("shipped file ", how[w]));
    }
    c.mix(w);
    c.log(f.name, ": ", how[w]);
  };
  for (auto& f : sh) place(f, true);
  // What is where the user's files belong.
  static const std::vector<std::string> kChain = {"/home/.local", "/home/.local/share", "/home/.local/share/fcitx5", "/home/.local/share/fcitx5/mcbopomofo"};
  std::vector<std::string> obstacles;
  auto obstruct = [&]() {
    if (s.coin()) {  // somewhere on the way there
      std::string p = g_root + s.pick(kChain);
      fs::create_directories(fs::path(p).parent_path());
      if (s.chance(2, 3)) spit(p, "mine\n");
      else fs::create_symlink(g_root + "/home/gone/x", p);
      obstacles.push_back(p);
      c.label("user directory obstructed");
      c.log("in the way: ", p);
      ++faults;
      return;
    }
    fs::create_directories(g_user);
    for (auto& p : {uf, xf, rf}) {
      switch (s.weighted({3, 2, 2, 1, 1})) {
        case 0: break;
        case 1: spit(p, genFile(s, p == rf, false)); setTime(p, stamp += 7 * kSecond); break;
        case 2:
          fs::create_directories(p + "/inside");
          obstacles.push_back(p);
          c.label("directory for a user file");
          c.log("a directory: ", p);
          ++faults;
          break;
        case 3:
          fs::create_symlink(g_root + "/home/gone/x", p);
          obstacles.push_back(p);
          c.label("dangling link for a user file");
          c.log("a dangling link: ", p);
          ++faults;
          break;
        case 4:  // elsewhere, and perhaps not there yet
          fs::create_directories(home + "/elsewhere");
          if (s.coin()) { spit(home + "/elsewhere/" + fs::path(p).filename().string(), genFile(s, p == rf, false)); }
          fs::create_symlink(home + "/elsewhere/" + fs::path(p).filename().string(), p);
          c.label("link to a user file");
          c.log("a link: ", p);
          break;
      }
    }
  };
  if (s.chance(4, 5)) obstruct();

  ref::LM model;
  int mode = 0;
  bool loaded[3] = {false, false, false};  // what was in place when it was loaded
  bool headless[3] = {false, false, false};
  std::shared_ptr<LanguageModelLoader> L;
  std::unique_ptr<KeyHandler> kh;
  auto content = [&](const std::string& p) { return fs::is_regular_file(p) ? slurp(p) : std::string(); };
  auto load = [&]() {
    model.user.clear();
    model.excluded.clear();
    model.repl.clear();
    model.replOn = false;
    std::error_code ec;
    if (!fs::is_directory(g_user, ec)) return;
    model.user = ref::refParse(content(uf)).pairs;
    model.excluded = ref::refParse(content(xf)).pairs;
    model.replOn = fs::exists(rf, ec);
    for (auto& p : ref::refParse(content(rf)).pairs) model.repl[p.first] = p.second;
  };
  auto check = [&](const char* when) {
    if (loaded[mode]) model.db = mode ? g_dbPlain : g_db;
    else model.db.clear();
    std::shared_ptr<McBopomofoLM> lm = L->getLM();
    // a file without the header may count as loaded, with nothing in it
    if (!headless[mode]) PBT_CHECK(lm->isDataModelLoaded() == loaded[mode], "dictionary", when, ": the dictionary counts as ", lm->isDataModelLoaded() ? "loaded" : "not loaded");
    for (auto& r : kReadings) {
      std::string a, b;
      for (auto& u : model.get(r)) a += u.value + "/" + std::to_string(u.score) + " ";
      for (auto& u : lm->getUnigrams(r)) b += u.value() + "/" + std::to_string(u.score()) + " ";
      PBT_CHECK(a == b, "words", when, ": ", r, " offers ", b, "instead of ", a);
      PBT_CHECK(lm->hasUnigrams(r) == !a.empty(), "words", when, ": ", r, " is reported as ", a.empty() ? "known" : "unknown");
    }
    std::string as;
    for (auto& p : lm->findAssociatedPhrasesV2("一", {"ㄧ"})) as += p.value + " ";
    PBT_CHECK(as == (loaded[2] ? "一意 " : ""), "phrases", when, ": the phrases of 一 are ", as);
    // and through the keys
    const char* keys[] = {"u ", "u4", "1 "};
    for (size_t k = 0; k < 3; ++k) {
      auto words = model.ranked(kReadings[k == 2 ? 4 : k]);
      kh->reset();
      kh->setInputMode(mode ? InputMode::PlainBopomofo : InputMode::McBopomofo);
      kh->setAssociatedPhrasesEnabled(false);
      std::unique_ptr<InputState> st = std::make_unique<InputStates::Empty>();
      size_t beeps = 0;
      std::string committed;
      for (const char* q = keys[k]; *q; ++q) {
        bool used = kh->handle(
            Key(*q), st.get(),
            [&](std::unique_ptr<InputState> n) {
              if (auto* cm = dynamic_cast<InputStates::Committing*>(n.get())) committed += cm->text;
              st = std::move(n);
            },
            [&] { ++beeps; });
        PBT_CHECK(used, "key", when, ": a key of ", keys[k], " was not taken");
      }
      if (words.empty()) {
        PBT_CHECK(beeps >= 1 && dynamic_cast<InputStates::NotEmpty*>(st.get()) == nullptr && committed.empty(), "unknown-syllable", when, ": ", keys[k], " gave something without any word for it");
      } else if (!mode) {
        auto* in = dynamic_cast<InputStates::Inputting*>(st.get());
        PBT_CHECK(in != nullptr && beeps == 0, "typed", when, ": ", keys[k], " does not compose");
        PBT_CHECK(in->composingBuffer == words[0].value, "typed", when, ": ", keys[k], " composes ", in->composingBuffer, " instead of ", words[0].value);
      } else if (words.size() == 1) {
        PBT_CHECK(committed == words[0].value, "typed", when, ": ", keys[k], " delivers ", committed, " instead of ", words[0].value);
      } else {
        auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(st.get());
        PBT_CHECK(ch != nullptr && ch->candidates.size() == words.size() && ch->candidates[0].value == words[0].value, "typed", when, ": ", keys[k], " does not offer ", words.size(), " words");
      }
    }
    kh->reset();
  };
  auto boot = [&]() {
    auto before = snapshot(home);
    kh.reset();
    L.reset();
    L = std::make_shared<LanguageModelLoader>(std::make_unique<Strings>());
    kh = std::make_unique<KeyHandler>(L->getLM(), L, std::make_unique<KeyStrings>());
    auto after = snapshot(home);
    for (auto& e : before) {
      auto it = after.find(e.first);
      PBT_CHECK(it != after.end() && it->second == e.second, "kept", "starting changed ", e.first, " from ", pbt::show(e.second));
    }
    mode = 0;
    loaded[0] = sh[0].ok;
    headless[0] = sh[0].headless;
    loaded[2] = sh[2].ok;
    std::error_code ec;
    if (obstacles.empty()) PBT_CHECK(fs::is_regular_file(uf, ec) && fs::is_regular_file(xf, ec), "user-files", "the user files were not created");
    load();
    check("after start");
  };
  boot();
  size_t steps = 0, adds = 0;
  while (s.more(steps, 5, 16)) {
    ++steps;
    switch (s.weighted({5, 2, 3, 2, 2})) {
      case 0: {
        std::string v = s.pick(kValues), r = s.pick(kReadings);
        std::error_code ec;
        bool can = fs::is_directory(g_user, ec) && fs::is_regular_file(uf, ec);
        nextTick(uf);
        auto before = snapshot(home);
        std::string text = content(uf);
        c.log("add ", v, " ", r, can ? "" : ", which cannot be stored");
        L->addUserPhrase(r, v);
        auto after = snapshot(home);
        if (can) {
          std::string now = content(uf);
          PBT_CHECK(now.compare(0, text.size(), text) == 0 && now.size() > text.size(), "added", "the file ", pbt::show(text), " became ", pbt::show(now));
          auto lines = linesOf(now);
          PBT_CHECK(!lines.empty() && ref::refParse(lines.back() + "\n").pairs == (std::vector<std::pair<std::string, std::string>>{{v, r}}), "added", "the file ", pbt::show(text), " became ", pbt::show(now));
          ++adds;
        } else {
          PBT_CHECK(before == after, "kept", "adding a phrase changed files it does not own");
          c.label("phrase that cannot be stored");
        }
        load();
        check("after adding");
        break;
      }
      case 1:
        c.log("reload");
        L->reloadUserModelsIfNeeded();
        load();
        check("after reloading");
        break;
      case 2: {
        mode = static_cast<int>(s.below(2));
        c.log("load the dictionary of mode ", mode);
        L->loadModelForMode(mode ? InputMode::PlainBopomofo : InputMode::McBopomofo);
        loaded[mode] = sh[mode].ok;
        headless[mode] = sh[mode].headless;
        check("after a mode switch");
        break;
      }
      case 3: {  // the shipped files change, as in an upgrade
        size_t k = s.below(3);
        if (k < 2 && sh[k].ok && L) {
          // a mapped file is replaced, never cut short
          fs::remove(shared + "/" + sh[k].name);
        }
        place(sh[k], s.chance(1, 3));
        break;
      }
      case 4: {  // what was in the way is removed
        bool all = s.chance(2, 3);
        while (!obstacles.empty()) {
          c.log("remove ", obstacles.back());
          fs::remove_all(obstacles.back());
          obstacles.pop_back();
          c.label("obstacle removed");
          if (!all) break;
        }
        c.log("restart");
        boot();
        break;
      }
    }
  }
  c.mix(faults * 100 + adds);
  if (faults && steps) c.interesting();
}

}  // namespace

const std::vector<pbt::Property> pbt::kProperties = {
    {"F01",
     "a case starts on a fresh, partial or existing user directory and adds phrases, edits or replaces the three user files from outside, reloads, switches modes and restarts; non-trivial when phrases were added and files edited",
     f01, 20000, 300000, initF01},
    {"F02",
     "a case opens, closes and queries a dictionary, phrase table, mapping or whole model on paths of every kind; non-trivial when some opens succeeded and some failed",
     f02, 60000, 800000, initF02},
    {"F03",
     "a case starts with some of the shipped files missing, empty, without header or not files, and with files, links or directories where the user's files or their directories belong, then adds phrases, reloads, switches modes, repairs and restarts, typing syllables in between; non-trivial when something was out of order and a step followed",
     f03, 12000, 200000, initF01},
};
