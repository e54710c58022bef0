// E01-E04: the fcitx engine driven by events, against the reference model of
// composing (ref_keys.h) extended with candidate panels, focus, look-ups and
// settings.  Everything is observed at an fcitx input context: preedit, panel,
// committed text, processes the engine starts (recorded, never run), files.
#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/log.h>
#include <fcitx-utils/misc.h>
#include <fcitx-utils/standardpath.h>
#include <fcitx/candidatelist.h>
#include <fcitx/event.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputpanel.h>
#include <fcitx/addonfactory.h>
#include <fcitx/addonmanager.h>
#include <fcitx/instance.h>
#include <notifications_public.h>
#include <fcitx/statusarea.h>
#include <fcitx/userinterfacemanager.h>
#include <libintl.h>
#include <locale.h>
#include <stdlib.h>
#include <getopt.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sstream>

#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "McBopomofo.h"
#include "clock.h"
#include "gen_keys.h"
#include "locales.h"
#include "pbt.h"

namespace fs = std::filesystem;
using pbt::Ctx;
using pbt::Source;
using ref::Cand;
using ref::Kind;
using ref::St;

// ------------------------------------------------------------ stand-ins
struct Launch {
  std::vector<std::string> args;
  std::string dir;
  bool operator==(const Launch& o) const { return args == o.args && dir == o.dir; }
};
static std::vector<Launch> g_launched;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string& workingDirectory) { g_launched.push_back({args, workingDirectory}); }
}  // namespace fcitx

extern "C" int _nl_msg_cat_cntr;

namespace {

std::string g_root, g_user, g_conf;
fcitx::Instance* g_instance = nullptr;
size_t g_uiUpdates = 0;

void write(const std::string& path, const std::string& text) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o << text;
}
std::string slurp(const std::string& path) {
  std::ifstream i(path, std::ios::binary);
  std::stringstream b;
  b << i.rdbuf();
  return b.str();
}

// ------------------------------------------------------------ languages
// The messages of a language, read from its catalogue by other means than the
// input method has: msgid to msgstr, without the entries that do not count.
std::map<std::string, std::string> readCatalogue(const std::string& path) {
  std::map<std::string, std::string> o;
  std::string id, str;
  bool fuzzy = false;
  int in = 0;
  auto close = [&] {
    if (!id.empty() && !str.empty() && !fuzzy) o[id] = str;
    id.clear(), str.clear();
    fuzzy = false;
    in = 0;
  };
  auto text = [](const std::string& l) {
    std::string t;
    size_t a = l.find('"'), z = l.rfind('"');
    for (size_t i = a + 1; a != std::string::npos && i < z; ++i) {
      if (l[i] == '\\' && i + 1 < z) {
        ++i;
        t += l[i] == 'n' ? '\n' : l[i] == 't' ? '\t' : l[i];
      } else {
        t += l[i];
      }
    }
    return t;
  };
  std::istringstream f(slurp(path));
  for (std::string l; std::getline(f, l);) {
    if (l.compare(0, 2, "#~") == 0) continue;
    if (l[0] == '#') {
      if (in == 2) close();
      if (l.compare(0, 2, "#,") == 0 && l.find("fuzzy") != std::string::npos) fuzzy = true;
    } else if (l.compare(0, 6, "msgid ") == 0) {
      if (in == 2) close();
      in = 1;
      id = text(l);
    } else if (l.compare(0, 7, "msgstr ") == 0) {
      in = 2;
      str = text(l);
    } else if (!l.empty() && l[0] == '"') {
      (in == 1 ? id : str) += text(l);
    } else if (in == 2) {
      close();
    }
  }
  close();
  return o;
}
std::map<std::string, std::map<std::string, std::string>> g_catalogues;
std::string g_language;  // as the user has it set

void setLanguage(const std::string& l) {
  g_language = l;
  if (setlocale(LC_ALL, "xx_XX.UTF-8") == nullptr) setlocale(LC_ALL, "C.UTF-8");
  setenv("LANGUAGE", l.c_str(), 1);
  ++_nl_msg_cat_cntr;
}
// A message in the user's language.
std::string tr(const std::string& id, const std::vector<std::string>& values = {}) {
  std::string t = id;
  std::istringstream ls(g_language);
  for (std::string l; std::getline(ls, l, ':');) {
    auto c = g_catalogues.find(l);
    if (c == g_catalogues.end()) continue;
    auto m = c->second.find(id);
    if (m == c->second.end()) continue;
    t = m->second;
    break;
  }
  std::string o;
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] == '{' && i + 2 < t.size() && t[i + 2] == '}' && t[i + 1] >= '0' && static_cast<size_t>(t[i + 1] - '0') < values.size()) {
      o += values[static_cast<size_t>(t[i + 1] - '0')];
      i += 2;
    } else {
      o += t[i];
    }
  }
  return o;
}
// What a settings program is told about the settings.
std::map<std::string, std::string> describe(const McBopomofo::McBopomofoEngine& e) {
  fcitx::RawConfig d;
  e.getConfig()->dumpDescription(d);
  std::map<std::string, std::string> o;
  d.visitSubItems(
      [&](const fcitx::RawConfig& c, const std::string& path) {
        o[path] = c.value();
        return true;
      },
      "", true);
  return o;
}
// The same in no particular language.
std::map<std::string, std::string> g_description;
std::string g_userHeader, g_excludedHeader;

// The desktop's notifications.
struct Shown { std::string title, summary, body; int timeout; };
std::vector<Shown> g_notices;
bool g_notified = false;  // notifications are there
fcitx::Instance *g_without = nullptr, *g_with = nullptr;  // where they may come and go
struct Notifications : fcitx::AddonInstance {
  void showTip(const std::string&, const std::string& app, const std::string&, const std::string& summary, const std::string& body, int32_t timeout) { g_notices.push_back({app, summary, body, timeout}); }
  FCITX_ADDON_EXPORT_FUNCTION(Notifications, showTip);
};
struct NotificationsFactory : fcitx::AddonFactory {
  fcitx::AddonInstance* create(fcitx::AddonManager*) override { return new Notifications; }
};

struct App : fcitx::InputContext {
  std::string got, shown;
  bool cap, selfCommit;
  App(bool cap_, bool self) : InputContext(g_instance->inputContextManager(), "t"), cap(cap_), selfCommit(self) {
    fcitx::CapabilityFlags f;
    if (cap) f |= fcitx::CapabilityFlag::Preedit;
    if (self) f |= fcitx::CapabilityFlag::ClientUnfocusCommit;
    setCapabilityFlags(f);
    created();
  }
  ~App() override { destroy(); }
  const char* frontend() const override { return "t"; }
  void commitStringImpl(const std::string& t) override { got += t; }
  void deleteSurroundingTextImpl(int, unsigned) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override {}
  void updatePreeditImpl() override { shown = inputPanel().clientPreedit().toString(); }
};

// The settings, by the names they have in the configuration file.
struct Conf {
  int layout = 0, look = 0, keys = 0, count = 9;
  bool selAfter = false, moveAfter = false, jk = false, escClears = false, lowercase = false;
  int ctrlEnter = 0;
  std::string openWith = "xdg-open", hookPath = "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh";
  bool hook = false, half = false, assoc = false;
};
const char* kLayoutOption[] = {"standard", "eten", "hsu", "et26", "hanyupinyin", "ibm"};
const char* kLookOption[] = {"Not Set", "Vertical", "Horizontal"};
const char* kKeysOption[] = {"123456789", "asdfghjkl", "asdfzxcvb"};
const char* kCtrlEnterOption[] = {"disabled", "output_bpmf_reading", "output_html_ruby_text"};
std::map<std::string, std::string> optionsOf(const Conf& f) {
  auto b = [](bool x) { return x ? "True" : "False"; };
  return {{"BopomofoKeyboardLayout", kLayoutOption[f.layout]},
          {"CandidateLayout", kLookOption[f.look]},
          {"SelectionKeys", kKeysOption[f.keys]},
          {"SelectionKeysCount", std::to_string(f.count)},
          {"SelectPhrase", f.selAfter ? "after_cursor" : "before_cursor"},
          {"MoveCursorAfterSelection", b(f.moveAfter)},
          {"AllowMovingCursorWhenChoosingCandidates", b(f.jk)},
          {"EscKeyClearsEntireComposingBuffer", b(f.escClears)},
          {"ShiftLetterKeys", f.lowercase ? "put_lowercase_to_buffer" : "directly_output_uppercase"},
          {"KeyHandlerCtrlEnter", kCtrlEnterOption[f.ctrlEnter]},
          {"OpenUserPhraseFilesWith", f.openWith},
          {"AddScriptHookPath", f.hookPath},
          {"AddScriptHookEnabled", b(f.hook)},
          {"HalfWidthPunctuationEnable", b(f.half)},
          {"AssociatedPhrasesEnabled", b(f.assoc)}};
}

// An address with the word in place of the placeholder.
struct Service {
  std::string name, url;
};
bool isHexDigit(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F') || (ch >= 'a' && ch <= 'f'); }
int hexValue(char ch) { return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; }
// Does `url` address `word` through the template?
bool addresses(const std::string& url, const std::string& tmpl, const std::string& word) {
  static const std::string ph = "(encoded)";
  size_t at = tmpl.find(ph);
  if (at == std::string::npos) return url == tmpl;
  std::string head = tmpl.substr(0, at), tail = tmpl.substr(at + ph.size());
  if (url.size() < head.size() + tail.size() || url.compare(0, head.size(), head) || url.compare(url.size() - tail.size(), tail.size(), tail)) return false;
  std::string mid = url.substr(head.size(), url.size() - head.size() - tail.size()), dec;
  for (size_t i = 0; i < mid.size(); ++i) {
    unsigned char ch = static_cast<unsigned char>(mid[i]);
    if (ch == '%') {
      if (i + 2 >= mid.size() || !isHexDigit(mid[i + 1]) || !isHexDigit(mid[i + 2])) return false;
      dec += static_cast<char>(hexValue(mid[i + 1]) * 16 + hexValue(mid[i + 2]));
      i += 2;
    } else if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || strchr("-_.~", ch)) {
      dec += static_cast<char>(ch);
    } else {
      return false;
    }
  }
  return dec == word;
}

bool validUtf8(const std::string& t, std::set<size_t>* bounds = nullptr) {
  size_t i = 0;
  while (i < t.size()) {
    if (bounds) bounds->insert(i);
    unsigned char ch = static_cast<unsigned char>(t[i]);
    size_t n = ch < 0x80 ? 1 : ch >= 0xc2 && ch < 0xe0 ? 2 : ch >= 0xe0 && ch < 0xf0 ? 3 : ch >= 0xf0 && ch < 0xf5 ? 4 : 0;
    if (!n || i + n > t.size()) return false;
    for (size_t k = 1; k < n; ++k)
      if ((static_cast<unsigned char>(t[i + k]) & 0xc0) != 0x80) return false;
    i += n;
  }
  if (bounds) bounds->insert(i);
  return true;
}
bool isList(Kind k) { return k == Kind::Choosing || k == Kind::Assoc || k == Kind::AssocPlain || k == Kind::Feature || k == Kind::DateMacro || k == Kind::SelDict || k == Kind::CharInfo; }

// What a physical key means to the composer, given the key as fcitx normalises it.
Key meaning(const fcitx::Key& k) {
  if (k.isSimple()) return Key::asciiKey(static_cast<char>(k.sym()), false);
  bool sh = static_cast<bool>(k.states() & fcitx::KeyState::Shift), ct = static_cast<bool>(k.states() & fcitx::KeyState::Ctrl);
  auto ascii = [&](char ch, bool pad = false) { return Key::asciiKey(ch, sh, ct, pad); };
  auto named = [&](Key::KeyName n) { return Key::namedKey(n, sh, ct); };
  if (ct && !sh) {
    switch (k.sym()) {
      case FcitxKey_comma: return ascii(',');
      case FcitxKey_period: return ascii('.');
      case FcitxKey_1: return ascii('!');
      case FcitxKey_slash: return ascii('/');
      case FcitxKey_semicolon: return ascii(';');
      case FcitxKey_apostrophe: return ascii('\'');
      case FcitxKey_backslash: return ascii('\\');
      default: break;
    }
  }
  switch (k.sym()) {
    case FcitxKey_BackSpace: return ascii(Key::BACKSPACE);
    case FcitxKey_Return: return ascii(Key::RETURN);
    case FcitxKey_KP_Enter: return ascii(Key::RETURN, true);
    case FcitxKey_Escape: return ascii(Key::ESC);
    case FcitxKey_space: return ascii(Key::SPACE);
    case FcitxKey_Delete: case FcitxKey_KP_Delete: return ascii(Key::DELETE);
    case FcitxKey_Tab: return ascii(Key::TAB);
    case FcitxKey_Left: case FcitxKey_KP_Left: return named(Key::KeyName::LEFT);
    case FcitxKey_Right: case FcitxKey_KP_Right: return named(Key::KeyName::RIGHT);
    case FcitxKey_Home: case FcitxKey_KP_Home: return named(Key::KeyName::HOME);
    case FcitxKey_End: case FcitxKey_KP_End: return named(Key::KeyName::END);
    case FcitxKey_Up: case FcitxKey_KP_Up: return named(Key::KeyName::UP);
    case FcitxKey_Down: case FcitxKey_KP_Down: return named(Key::KeyName::DOWN);
    case FcitxKey_KP_Decimal: return ascii('.', true);
    case FcitxKey_KP_Add: return ascii('+', true);
    case FcitxKey_KP_Subtract: return ascii('-', true);
    case FcitxKey_KP_Multiply: return ascii('*', true);
    case FcitxKey_KP_Divide: return ascii('/', true);
    default: break;
  }
  if (k.sym() >= FcitxKey_KP_0 && k.sym() <= FcitxKey_KP_9) return ascii(static_cast<char>('0' + (k.sym() - FcitxKey_KP_0)), true);
  return Key{};
}

struct Panel {
  bool shift = false;
  size_t ps = 9, hi = 0, page = 0;
  bool adopt = false;  // the highlight is not decided by the property
  std::vector<std::string> texts;
  std::vector<std::string> keys;  // shown next to the candidates of a page
  size_t n() const { return texts.size(); }
  size_t pages() const { return (n() + ps - 1) / ps; }
  size_t onPage() const { return std::min(ps, n() - page * ps); }
  bool off() const { return hi / ps != page; }
};

struct Driver : Gen {
  Conf conf;
  ref::LM lmSmart, lmPlain;
  std::vector<Service> services;
  bool servicesDecided = true;
  std::unique_ptr<McBopomofo::McBopomofoEngine> e;
  std::vector<std::unique_ptr<App>> apps;
  App* app = nullptr;
  bool focused = false, weak = false;
  bool plainEntry = false;
  Panel pl;
  size_t back = 0;  // candidate to return to from a list opened on a list
  std::vector<Launch> wantLaunch;
  bool lookup = false, anyLaunch = false;  // the last launch must address `lookedUp`
  std::string lookedUp;
  size_t lookedIn = 0;
  std::string userFile;
  std::set<std::string> history, stepKinds;
  std::set<std::string> composed;  // composing properties that this composition exercised
  std::string exclFile, replFile;
  size_t judged = 0, steps = 0;

  using Gen::Gen;

  // ---------------------------------------------------------- set-up
  const std::vector<ref::Uni>& words(const std::string& r) {
    auto it = cache.find(r);
    if (it == cache.end()) it = cache.emplace(r, (m.cfg.plain ? lmPlain : lmSmart).ranked(r)).first;
    return it->second;
  }
  std::string odd() {
    static const std::vector<std::string> v = {"&", "%", "+", "?q=", "#", "/", "\"", "'", "~", "-", "_", ".", "(", ")", "é", "ー", "😀", "℃", "A", "9", "<b>", "\\", "=", "%20", "(encoded)", "\x01", "\x0b", "\x7f"};
    return s.pick(v);
  }
  std::string json(const std::string& t) {
    std::string o = "\"";
    for (char ch : t) {
      if (ch == '"' || ch == '\\') o += '\\';
      o += ch;
    }
    return o + "\"";
  }
  std::string genServices() {
    services.clear();
    servicesDecided = true;
    if (s.chance(1, 12)) return "\x01";  // no file
    if (is("E03") && s.chance(1, 10)) {  // the services as shipped
      std::string t = slurp(REPO_DIR "/data/dictionary_service.json");
      static const std::regex re("\"name\": *\"([^\"\\\\]*)\", *[ \n]*\"url_template\": *\"([^\"\\\\]*)\"");
      for (std::sregex_iterator i(t.begin(), t.end(), re), z; i != z; ++i) {
        services.push_back({(*i)[1], (*i)[2]});
        const std::string& u = services.back().url;
        size_t at = u.find("(encoded)");
        if (u.compare(0, 8, "https://") != 0 || at == std::string::npos || u.find("(encoded)", at + 1) != std::string::npos)
          pbt::fail("services", pbt::cat("the shipped service ", services.back().name, " has the address ", u));
      }
      size_t entries = 0;
      for (size_t at = t.find("url_template"); at != std::string::npos; at = t.find("url_template", at + 1)) ++entries;
      if (entries != services.size()) servicesDecided = false;  // written in another way than this reads
      c.label("shipped services");
      return t;
    }
    bool bad = s.chance(is("E03") ? 3 : 1, 10), large = is("E03") && s.chance(1, 8);
    if (bad && s.chance(1, 3)) {
      static const std::vector<std::string> v = {"", "{", "[]", "null", "5", "\"x\"", "{}", "{\"services\": null}", "{\"services\": 7}", "{\"services\": {}}", "{\"services\": \"a\"}", "{\"services\": []}",
                                                  "{\"services\": [", "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[", "{\"Services\": [{\"name\": \"x\", \"url_template\": \"y\"}]}", "\xff\xfe", "   ", "{\"services\": true}"};
      std::string t = s.pick(v);
      if (t.size() > 5 && s.chance(1, 4)) t.resize(s.below(t.size()));
      return t;
    }
    static const std::vector<std::string> names = {"萌典", "Dict", "國語辭典", "A & B", "x", "教育部{0}"};
    static const std::vector<std::string> heads = {"https://www.moedict.tw/", "https://d.example/s?q=", "dict:", "", "x://%20/", "https://a/(b)/"};
    static const std::vector<std::string> tails = {"", "&lang=zh", "/end", "#top", "?a=1&b=2", ")", "(encode", " "};
    std::string list;
    size_t n = s.below(large ? 60 : s.chance(1, 5) ? 14 : 4);
    if (large) c.label("many services");
    for (size_t i = 0; i < n; ++i) {
      std::string el;
      if (bad && s.chance(1, 3)) {
        static const std::vector<std::string> v = {"null", "5", "[]", "\"a\"", "{}", "{\"name\": \"x\"}", "{\"url_template\": \"x(encoded)\"}", "{\"name\": null, \"url_template\": \"x\"}",
                                                    "{\"name\": \"x\", \"url_template\": null}", "{\"name\": null, \"url_template\": null}", "true"};
        static const std::vector<std::string> odd2 = {"{\"name\": 5, \"url_template\": \"x(encoded)\"}", "{\"name\": \"n\", \"url_template\": [\"x\"]}", "{\"name\": {\"a\": 1}, \"url_template\": true}"};
        if (s.chance(1, 5)) {
          el = s.pick(odd2);
          servicesDecided = false;
        } else {
          el = s.pick(v);
        }
      } else {
        Service sv{s.pick(names), s.pick(heads)};
        if (large && s.chance(1, 6)) sv.url += std::string(s.below(s.coin() ? 300 : 5000), 'p') + "/";
        if (large && s.chance(1, 10)) sv.name += std::string(s.below(300), 'n');
        if (!s.chance(1, 8)) sv.url += "(encoded)";
        sv.url += s.pick(tails);
        services.push_back(sv);
        el = "{\"name\": " + json(sv.name) + ", \"url_template\": " + json(sv.url) + "}";
        if (s.chance(1, 6)) el = "{\"comment\": [1, {\"name\": 2}], " + el.substr(1);
        if (large && s.chance(1, 6)) el = std::string(s.below(2000), s.coin() ? ' ' : '\n') + el;
      }
      list += (i ? ", " : "") + el;
    }
    std::string t = "{\"services\": [" + list + "]" + (s.chance(1, 6) ? ", \"more\": {}" : "") + "}\n";
    if (bad && s.chance(1, 6)) {
      t.resize(s.below(t.size() - 1));
      services.clear();  // cut off, the outer object is never closed: nothing in it can be used
    }
    return t;
  }
  void genConf(bool first) {
    auto some = [&](int num) { return first || s.chance(static_cast<uint64_t>(num), 12); };
    if (some(2) && s.chance(1, first ? 4 : 1)) conf.layout = static_cast<int>(s.below(6));
    if (some(3)) conf.look = static_cast<int>(s.below(3));
    if (some(3)) conf.keys = s.coin() ? 0 : static_cast<int>(s.below(3));
    if (some(3)) conf.count = s.chance(1, 3) ? 9 : static_cast<int>(4 + s.below(6));
    if (some(3)) conf.selAfter = s.coin();
    if (some(3)) conf.moveAfter = s.coin();
    if (some(3)) conf.jk = s.coin();
    if (some(3)) conf.escClears = s.chance(1, 3);
    if (some(3)) conf.lowercase = s.chance(1, 3);
    if (some(3)) conf.ctrlEnter = static_cast<int>(s.below(3));
    if (some(2)) conf.half = s.chance(1, 4);
    if (some(2)) conf.assoc = s.chance(static_cast<uint64_t>(p.assoc), 20);
    if (some(2)) conf.hook = s.chance(1, is("E04") ? 2 : 3);
    if (some(2) && s.chance(1, 2)) {
      static const std::vector<std::string> v = {"xdg-open", "gedit", "/usr/bin/my editor", ""};
      conf.openWith = s.pick(v);
    }
    if (some(2) && s.chance(1, 2)) {
      static const std::vector<std::string> v = {"/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh", "/opt/hook.sh", "/home/my hooks/h.sh", ""};
      conf.hookPath = s.pick(v);
    }
  }
  // The desktop's own paging keys, which every input method on it honours.
  fcitx::KeyList nextKeys, prevKeys;
  void desktopPaging(size_t which) {
    static const std::vector<std::pair<std::vector<std::string>, std::vector<std::string>>> v = {
        {{"Up"}, {"Down"}}, {{"minus"}, {"equal"}}, {{"comma"}, {"period"}}, {{"Up", "bracketleft"}, {"Down", "bracketright"}}, {{"Control+b", "grave"}, {"Control+f", "Tab"}}, {{"Up", "Insert"}, {"Down", "F9", "Delete"}}, {{}, {}}};
    fcitx::RawConfig raw;
    g_instance->globalConfig().save(raw);
    auto put = [&](const char* name, const std::vector<std::string>& keys, fcitx::KeyList* list) {
      raw.get(std::string("Hotkey/") + name, true)->removeAll();
      list->clear();
      for (size_t i = 0; i < keys.size(); ++i) {
        raw.setValueByPath(pbt::cat("Hotkey/", name, "/", i), keys[i]);
        list->push_back(fcitx::Key(keys[i]));
      }
    };
    put("PrevPage", v[which].first, &prevKeys);
    put("NextPage", v[which].second, &nextKeys);
    g_instance->globalConfig().load(raw, false);
    if (g_instance->globalConfig().defaultNextPage() != nextKeys || g_instance->globalConfig().defaultPrevPage() != prevKeys) {
      fprintf(stderr, "the desktop's paging keys were not set\n");
      _exit(2);
    }
    if (which) c.log("the desktop pages with ", fcitx::Key::keyListToString(prevKeys), " and ", fcitx::Key::keyListToString(nextKeys));
    if (which) c.label("paging keys of the desktop's own");
  }
  void configure(const std::set<std::string>* only = nullptr) {
    fcitx::RawConfig raw;
    for (auto& o : optionsOf(conf))
      if (!only || only->count(o.first)) raw.setValueByPath(o.first, o.second);
    e->setConfig(raw);
  }
  int language = -1;
  void startEngine() {
    app = nullptr;
    apps.clear();
    e.reset();
    if (is("L01")) {
      // A desktop has one language for as long as it runs.
      static const std::vector<std::string> v = {"zh_TW", "", "zh_TW:en", "en", "zh_TW", "ja:zh_TW", "zh_TW", "ja"};
      if (language < 0) language = static_cast<int>(s.perProcess(v.size()));
      setLanguage(v[static_cast<size_t>(language)]);
      c.log("the language is '", g_language, "'");
      c.label(g_catalogues.count(g_language) ? "language " + g_language : "another language");
    }
    e = std::make_unique<McBopomofo::McBopomofoEngine>(g_instance);
    apps.push_back(std::make_unique<App>(!s.chance(1, 6), s.chance(1, 8)));
    apps.push_back(std::make_unique<App>(!s.chance(1, 6), s.chance(1, 8)));
    app = apps[0].get();
  }
  fcitx::InputMethodEntry entry() const { return fcitx::InputMethodEntry(plainEntry ? "mcbopomofo-plain" : "mcbopomofo", "x", "zh_TW", "mcbopomofo"); }
  // The settings program and the new files speak the user's language, and the
  // settings are the same.
  void described() {
    auto d = describe(*e);
    for (auto& x : d) {
      auto b = g_description.find(x.first);
      if (b == g_description.end()) pbt::fail("setting", pbt::cat("in language '", g_language, "' the settings have ", x.first));
      bool text = x.first.find("/EnumI18n/") != std::string::npos || (x.first.size() > 12 && x.first.compare(x.first.size() - 12, 12, "/Description") == 0);
      std::string want = text ? tr(b->second) : b->second;
      if (x.second != want) pbt::fail("setting", pbt::cat("in language '", g_language, "' the settings have ", x.first, " = ", x.second, ", expected ", want));
    }
    if (d.size() != g_description.size()) pbt::fail("setting", pbt::cat("in language '", g_language, "' the settings have ", d.size(), " entries of ", g_description.size()));
  }
  void newFile(const char* name, const std::string& base, std::string* text) {
    *text = slurp(g_user + "/" + name);
    std::istringstream a(base), b(*text);
    std::string x, y;
    while (std::getline(a, x)) {
      if (!std::getline(b, y)) y = "(nothing)";
      if (y != tr(x)) pbt::fail("user file", pbt::cat("in language '", g_language, "' the new ", name, " says '", y, "' where '", tr(x), "' is expected"));
    }
    auto parsed = ref::refParse(*text);
    if (std::getline(b, y) || !parsed.pairs.empty() || parsed.error) pbt::fail("user file", pbt::cat("in language '", g_language, "' the new ", name, " is not only comments:\n", *text));
  }
  void modelActivate() {
    bool was = m.cfg.plain;
    m.cfg.plain = plainEntry;
    if (was != m.cfg.plain) cache.clear();
    m.cfg.layout = conf.layout;
    m.cfg.selAfter = conf.selAfter;
    m.cfg.moveAfter = conf.moveAfter;
    m.cfg.escClears = conf.escClears;
    m.cfg.lowercase = conf.lowercase;
    m.cfg.ctrlEnter = conf.ctrlEnter;
    m.cfg.assoc = conf.assoc;
    m.cfg.half = conf.half;
    m.rd.setKeyboardLayout(layouts()[static_cast<size_t>(m.cfg.layout)]);
    m.layoutName = kLayoutNames[m.cfg.layout];
  }
  void setUp() {
    g_notices.clear();
    fs::remove_all(g_root + "/home");
    fs::create_directories(g_user);
    m.learned.capacity = 500;
    m.learned.half = 5400;
    g_fakeClock = true;
    g_fakeMicros = 1700000000LL * 1000000;
    m.now = 1700000000;
    genConf(true);
    desktopPaging(s.chance(1, is("E01") ? 2 : 6) ? 1 + s.below(6) : 0);
    m.cfg.layout = conf.layout;
    genDictionary();
    lmSmart = lm;
    lmPlain = lm;
    // The plain dictionary: the single syllables, and not all of those.
    lmPlain.db.clear();
    for (auto& r : lm.db)
      if (r.reading.find('-') == std::string::npos && !s.chance(1, 6)) lmPlain.db.push_back(r);
    if (is("E03"))
      for (size_t i = 0, n = s.below(4); i < n; ++i) {
        std::string v;
        do v += s.coin() ? odd() : s.pick(kChars);
        while (s.chance(2, 3));
        if (v[0] == '#') v = "x" + v;
        lmSmart.user.push_back({v, s.chance(1, 3) && !wordReadings.empty() ? ref::joinWith(s.pick(wordReadings), "-") : s.pick(pool)});
      }
    lmPlain.user = lmSmart.user;
    lmPlain.excluded = lmSmart.excluded;
    const std::string d = g_root + "/share/fcitx5/data/";
    write(d + "mcbopomofo-data.txt", ref::kHeader + dbText);
    write(d + "mcbopomofo-data-plain-bpmf.txt", ref::dbText(lmPlain.db, true, true));
    write(d + "mcbopomofo-associated-phrases-v2.txt", assocText);
    std::string sv = genServices();
    fs::remove(d + "mcbopomofo-dictionary-service.json");
    if (sv != "\x01") write(d + "mcbopomofo-dictionary-service.json", sv);
    userFile.clear();
    std::string& excl = exclFile;
    for (auto& u : lmSmart.user) userFile += u.first + " " + u.second + "\n";
    for (auto& u : lmSmart.excluded) excl += u.first + " " + u.second + "\n";
    bool fresh = is("L01") && s.coin();
    if (fresh) {
      for (auto* x : {&lmSmart, &lmPlain}) {
        x->user.clear();
        x->excluded.clear();
      }
      cache.clear();
    } else {
      write(g_user + "/data.txt", userFile);
      write(g_user + "/exclude-phrases.txt", excl);
    }
    if (is("F01") && s.chance(1, 5)) {
      replFile = replLine();
      write(g_user + "/phrases-replacement.txt", replFile);
      filesChanged();
    }
    if (c.tracing) c.log("dictionary:\n", dbText, "associated phrases:\n", assocText, "user phrases:\n", userFile, "excluded:\n", excl, "services: ", sv == "\x01" ? "(none)" : sv);
    m.words = [this](const std::string& r) -> const std::vector<ref::Uni>& { return words(r); };
    m.known = [this](const std::string& r) { return !words(r).empty(); };
    m.g.lm = m.words;
    m.numeral = [](int style, const std::string& ip, const std::string& dp) {
      if (style == 2) return SuzhouNumbers::Generate(ip, dp, "單位", true);
      return ChineseNumbers::Generate(ip, dp, style == 0 ? ChineseNumbers::ChineseNumberCase::LOWERCASE : ChineseNumbers::ChineseNumberCase::UPPERCASE);
    };
    g_launched.clear();
    startEngine();
    if (fresh) {
      newFile("data.txt", g_userHeader, &userFile);
      newFile("exclude-phrases.txt", g_excludedHeader, &exclFile);
    }
    if (is("L01")) described();
    configure();
    logConf();
    plainEntry = s.chance(static_cast<uint64_t>(p.plain), 20);
    focusIn(0);
  }
  void logConf() {
    if (!c.tracing) return;
    std::string o = "settings:";
    for (auto& x : optionsOf(conf)) o += " " + x.first + "=" + x.second;
    c.log(o);
  }

  // ---------------------------------------------------------- comparing
  void differ(const char* field, const std::string& detail) {
    std::set<std::string> who = {"E02"};
    for (auto& k : stepKinds) who.insert(k);
    for (auto& k : history) who.insert(k);
    // What the composing properties say about this step; see h_keys.
    for (auto& k : m.kinds) who.insert(k);
    for (auto& k : composed) who.insert(k);
    std::string f = field;
    if (f == "text" || f == "cursor" || f == "hint") who.insert("S01");
    if (f == "delivered") who.insert(m.cfg.plain ? "S06" : "S02"), who.insert("S02");
    if (f == "consumed") who.insert("S03");
    if (f == "user file") who.insert("S05"), who.insert("F01");
    if (f == "mark") who.insert("S05");
    if (f == "candidates") who.insert(m.st.kind == Kind::Assoc ? "S07" : m.cfg.plain || m.st.kind == Kind::AssocPlain ? "S06" : "S04");
    if (is("L01")) {
      bool menu = m.st.kind == Kind::SelDict || m.st.kind == Kind::CharInfo;
      who.clear();
      if (f == "message" || f == "hint" || f == "menu" || f == "setting" || f == "stored setting" || f == "user file" || (f == "candidates" && menu)) who.insert("L01");
    }
    if (who.count(p.id)) pbt::fail(field, detail);
    c.label(std::string("left to another property: ") + field);
    throw pbt::Stop();
  }
  std::string numberText() const {
    if (m.st.kind == Kind::Enclosed) return "[標題數字] " + m.st.number;
    return (m.st.style == 0 ? "[中文數字] " : m.st.style == 1 ? "[大寫數字] " : "[蘇州碼] ") + m.st.number;
  }
  std::string wantPreedit() const {
    if (ref::notEmpty(m.st.kind)) return m.st.text;
    if (m.st.kind == Kind::Number || m.st.kind == Kind::Enclosed) return numberText();
    return "";
  }
  fcitx::CommonCandidateList* realList() const { return dynamic_cast<fcitx::CommonCandidateList*>(app->inputPanel().candidateList().get()); }

  // Holds whatever the model says.
  void invariants(const std::string& what) {
    auto& ip = app->inputPanel();
    for (auto* t : {&ip.clientPreedit(), &ip.preedit()}) {
      std::string x = t->toString();
      std::set<size_t> b;
      if (!validUtf8(x, &b)) pbt::fail("utf8", pbt::cat(what, ": the preedit is not UTF-8: ", pbt::hex(x)));
      if (!x.empty() && (t->cursor() < 0 || !b.count(static_cast<size_t>(t->cursor())))) pbt::fail("cursor", pbt::cat(what, ": cursor at byte ", t->cursor(), " of '", x, "'"));
    }
    if (!validUtf8(app->got)) pbt::fail("utf8", pbt::cat(what, ": delivered bytes that are not UTF-8: ", pbt::hex(app->got)));
    if (auto* l = realList()) {
      if (l->totalSize() == 0) pbt::fail("empty list", pbt::cat(what, ": an empty list is open"));
      for (int i = 0; i < l->totalSize(); ++i)
        if (!validUtf8(l->candidateFromAll(i).text().toString())) pbt::fail("utf8", pbt::cat(what, ": a candidate is not UTF-8"));
      if (l->globalCursorIndex() < 0 || l->globalCursorIndex() >= l->totalSize()) pbt::fail("highlight", pbt::cat(what, ": highlighted candidate ", l->globalCursorIndex(), " of ", l->totalSize()));
    }
  }

  // A message in the user's language; it has to tell the values.
  std::string message(const std::string& id, const std::vector<std::string>& values = {}) {
    std::string t = tr(id, values);
    if (is("L01"))
      for (auto& v : values)
        if (t.find(v) == std::string::npos) differ("message", pbt::cat("in language '", g_language, "' the message '", id, "' is '", t, "', which does not tell '", v, "'"));
    return t;
  }
  // What the hint says.
  std::string hint(const std::vector<std::string>& say) {
    if (say.empty()) return "";
    if (say[0] == "between") return message("Cursor is between syllables {0} and {1}", {say[1], say[2]});
    std::string status = say[3] == "at least 2" ? message("{0} syllables required", {"2"}) : say[3] == "at most 6" ? message("{0} syllables maximum", {"6"}) : message(say[3] == "exists" ? "phrase already exists" : "press Enter to add the phrase");
    return message("Marked: {0}, syllables: {1}, {2}", {say[1], say[2], status});
  }
  // Rebuilds the model's panel for a newly opened list.
  void openPanel() {
    pl = Panel();
    pl.shift = m.st.kind == Kind::AssocPlain || (m.st.kind == Kind::Assoc && m.st.shift);
    pl.ps = pl.shift ? 9 : static_cast<size_t>(conf.count);
    for (size_t i = 0; i < pl.ps; ++i) pl.keys.push_back(pl.shift ? "⇧" + std::to_string(i + 1) : std::string(1, kKeysOption[conf.keys][i]));
    switch (m.st.kind) {
      case Kind::Choosing: {
        std::map<std::string, int> n;
        for (auto& x : m.st.cands) ++n[x.value];
        for (auto& x : m.st.cands) pl.texts.push_back(n[x.value] > 1 ? x.value + " (" + ref::joinWith(ref::splitOn(x.reading, '-'), " ") + ")" : x.value);
        break;
      }
      case Kind::Assoc: case Kind::AssocPlain:
        for (auto& x : m.st.cands) pl.texts.push_back(x.value);
        break;
      case Kind::Feature: pl.texts = {"日期與時間", "標題數字", "中文數字", "大寫數字", "蘇州碼"}; break;
      case Kind::SelDict:
        pl.texts.push_back(message("Character Information"));
        for (auto& v : services) pl.texts.push_back(message("Look up \"{0}\" in {1}", {m.st.phrase, v.name}));
        break;
      case Kind::CharInfo:
        pl.texts = {message("UTF8 String Length: {0}", {std::to_string(m.st.phrase.size())}), message("Code Point Count: {0}", {std::to_string(ref::chars(m.st.phrase).size())})};
        break;
      case Kind::DateMacro:
        if (auto* l = realList())
          for (int i = 0; i < l->totalSize(); ++i) pl.texts.push_back(l->candidateFromAll(i).text().toString());
        break;
      default: break;
    }
  }
  bool vertical() const {
    switch (m.st.kind) {
      case Kind::SelDict: case Kind::CharInfo: case Kind::Feature: case Kind::DateMacro: return true;
      case Kind::Choosing:
        for (auto& x : m.st.cands)
          if (ref::chars(x.value).size() > 8) return true;
        break;
      default: break;
    }
    return conf.look == 1;
  }
  void compare(const std::string& what, bool newList) {
    const St& w = m.st;
    auto& ip = app->inputPanel();
    if (app->got != m.delivered) differ("delivered", pbt::cat(what, ": delivered '", app->got, "', expected '", m.delivered, "'"));
    if (blind) {
      blind = false;
      return;
    }
    const fcitx::Text& pre = app->cap ? ip.clientPreedit() : ip.preedit();
    const fcitx::Text& other = app->cap ? ip.preedit() : ip.clientPreedit();
    std::string want = wantPreedit();
    if (pre.toString() != want) differ("text", pbt::cat(what, ": shows '", pre.toString(), "', expected '", want, "' (", ref::kindName(w.kind), ")"));
    if (!other.toString().empty()) differ("text", pbt::cat(what, ": also shows '", other.toString(), "'"));
    if (app->cap && app->shown != want) differ("text", pbt::cat(what, ": the application was last told '", app->shown, "', expected '", want, "'"));
    if (ref::notEmpty(w.kind) && !want.empty() && static_cast<size_t>(pre.cursor()) != w.cur) differ("cursor", pbt::cat(what, ": cursor at byte ", pre.cursor(), " of '", want, "', expected ", w.cur));
    if (w.kind == Kind::Number || w.kind == Kind::Enclosed)
      if (static_cast<size_t>(pre.cursor()) != want.size()) differ("cursor", pbt::cat(what, ": cursor at byte ", pre.cursor(), " of '", want, "'"));
    if (w.kind == Kind::Marking) {
      std::string hl, before;
      for (size_t i = 0; i < pre.size(); ++i) {
        if (pre.formatAt(static_cast<int>(i)).test(fcitx::TextFormatFlag::HighLight)) hl += pre.stringAt(static_cast<int>(i));
        else if (hl.empty()) before += pre.stringAt(static_cast<int>(i));
      }
      if (hl != w.marked || (!hl.empty() && before != w.head)) differ("mark", pbt::cat(what, ": highlights '", hl, "' behind '", before, "', expected '", w.marked, "' behind '", w.head, "'"));
    }
    bool tip = ref::notEmpty(w.kind) && w.kind != Kind::Choosing && !w.tip.empty();
    if ((w.kind == Kind::SelDict || w.kind == Kind::CharInfo || w.kind == Kind::Assoc) && w.prev && w.prev->kind == Kind::Choosing) tip = false;
    std::string wantTip = tip ? hint(w.say) : "";
    if (ip.auxDown().toString() != wantTip) differ("hint", pbt::cat(what, ": hint '", ip.auxDown().toString(), "', expected '", wantTip, "', while ", ref::kindName(w.kind)));
    if (tip) stepKinds.insert("L01");
    auto* l = realList();
    if ((l != nullptr) != isList(w.kind)) differ("list", pbt::cat(what, ": ", l ? "a list is open" : "no list is open", " while ", ref::kindName(w.kind)));
    if (!l) return;
    if (newList) {
      size_t keepHi = pl.hi, keepPage = pl.page;
      openPanel();
      if (restore) {
        pl.hi = keepHi;
        pl.page = keepHi / pl.ps;
        (void)keepPage;
      }
    }
    std::string got, exp;
    std::vector<std::string> texts;
    for (int i = 0; i < l->totalSize(); ++i) texts.push_back(l->candidateFromAll(i).text().toString());
    if (w.kind == Kind::SelDict && !servicesDecided && texts.size() >= 1) pl.texts = texts;
    if (w.kind == Kind::SelDict || w.kind == Kind::CharInfo) stepKinds.insert("L01");
    if (w.kind == Kind::DateMacro && texts.size() != 17) differ("candidates", pbt::cat(what, ": ", texts.size(), " dates and times"));
    if (texts != pl.texts) {
      for (auto& t : texts) got += " [" + t + "]";
      for (auto& t : pl.texts) exp += " [" + t + "]";
      differ("candidates", pbt::cat(what, ": offers", got, "; expected", exp));
    }
    if (pl.adopt) {
      pl.hi = static_cast<size_t>(l->globalCursorIndex());
      pl.page = static_cast<size_t>(l->currentPage());
      pl.adopt = false;
    }
    if (static_cast<size_t>(l->pageSize()) != pl.ps) differ("page size", pbt::cat(what, ": ", l->pageSize(), " candidates per page, expected ", pl.ps));
    if (static_cast<size_t>(l->currentPage()) != pl.page || static_cast<size_t>(l->globalCursorIndex()) != pl.hi)
      differ("highlight", pbt::cat(what, ": highlights candidate ", l->globalCursorIndex(), " on page ", l->currentPage(), ", expected ", pl.hi, " on page ", pl.page));
    for (int i = 0; i < l->size(); ++i) {
      std::string lab = l->label(i).toString();
      if (lab.find(pl.keys[static_cast<size_t>(i)]) == std::string::npos) differ("label", pbt::cat(what, ": candidate ", i, " is labelled '", lab, "', its key is ", pl.keys[static_cast<size_t>(i)]));
    }
  }
  void compareLaunches(const std::string& what) {
    std::vector<Launch> got = g_launched;
    if (anyLaunch) {
      anyLaunch = false;
      return;
    }
    if (lookup) {
      lookup = false;
      if (got.size() != 1 || got[0].args.size() != 2 || got[0].args[0] != "xdg-open") differ("look-up", pbt::cat(what, ": ", got.size(), " processes started to look up ", lookedUp));
      if (!addresses(got[0].args[1], services[lookedIn].url, lookedUp)) differ("look-up", pbt::cat(what, ": opened ", got[0].args[1], " for ", lookedUp, " in ", services[lookedIn].url));
      return;
    }
    auto text = [](const std::vector<Launch>& v) {
      std::string o;
      for (auto& x : v) o += " {" + ref::joinWith(x.args, " | ") + "} in '" + x.dir + "'";
      return o;
    };
    if (!(got == wantLaunch)) differ("process", pbt::cat(what, ": started", text(got), "; expected", text(wantLaunch)));
  }

  // ---------------------------------------------------------- steps
  bool restore = false;     // the list that opens shows pl.hi again
  bool undecided = false;   // the result of this step is not decided
  // Runs a step on the model and on the engine, then compares.
  template <class M, class R>
  void step(const std::string& what, M model, R real) {
    ++steps;
    c.log(what);
    m.begin();
    app->got.clear();
    g_launched.clear();
    wantLaunch.clear();
    restore = undecided = false;
    stepKinds.clear();
    Kind before = m.st.kind;
    size_t genBefore = m.st.gen;
    if (!weak) {
      if (isList(before)) stepKinds.insert("E01");
      try {
        model();
      } catch (ref::Tie&) {
        c.label("tie");
        weak = true;
      }
      if (undecided) weak = true;
      if (isList(m.st.kind)) stepKinds.insert("E01");
      if (before == Kind::SelDict || before == Kind::CharInfo || m.st.kind == Kind::SelDict || m.st.kind == Kind::CharInfo) stepKinds.insert("E03");
      if (!m.adds.empty()) {
        usleep(12000);  // file times advance
        stepKinds.insert("E04");
        stepKinds.insert("F01");
      }
    }
    size_t ui = g_uiUpdates;
    auto visible = [&] {
      std::string o = app->inputPanel().auxDown().toString() + "\x01" + app->inputPanel().preedit().toString();
      if (auto* l = realList()) o += pbt::cat("\x01", l->currentPage(), ",", l->globalCursorIndex(), ",", l->totalSize(), l->candidateFromAll(0).text().toString());
      return o;
    };
    std::string seen = visible();
    bool shown = real();
    invariants(what);
    if (shown && visible() != seen && g_uiUpdates == ui) pbt::fail("panel", pbt::cat(what, ": the panel changed without being shown"));
    if (weak) {
      c.log("  (not compared) ", app->got.empty() ? "" : "delivered '" + app->got + "'");
      return;
    }
    compare(what, isList(m.st.kind) && (m.st.kind != before || m.st.gen != genBefore || restore || reopened));
    reopened = false;
    if (!m.adds.empty()) added();
    compareLaunches(what);
    for (auto& k : stepKinds) seenKinds.insert(k);
    for (auto& k : m.kinds) seenKinds.insert(k);
    if (is("E02") || stepKinds.count(p.id) || m.kinds.count(p.id) || ((is("E04") || is("F01") || is("C01")) && history.count(p.id))) {
      ++judged;
      c.mix(static_cast<uint64_t>(m.st.kind));
      c.mix(wantPreedit());
      c.mix(m.delivered);
      c.mix(pl.hi);
    }
    for (auto& k : stepKinds)
      if (k != "E01") history.insert(k);
    if (m.st.kind == Kind::Idle && m.g.readings.empty() && !m.kinds.empty() && !(m.kinds.size() == 1 && m.kinds.count("S03"))) composed.clear();
    for (auto& k : m.kinds)
      if (k != "S01" && k != "S03") composed.insert(k);
    c.log("  -> ", ref::kindName(m.st.kind), wantPreedit().empty() ? "" : " '" + wantPreedit() + "'", isList(m.st.kind) ? pbt::cat(" list of ", pl.n(), ", highlight ", pl.hi, " page ", pl.page) : "",
          m.delivered.empty() ? "" : ", delivered '" + m.delivered + "'");
  }
  std::set<std::string> seenKinds;
  bool reopened = false;
  void added() {
    for (auto& a : m.adds) {
      if (!userFile.empty() && userFile.back() != '\n') userFile += "\n";
      userFile += a.second + " " + a.first + "\n";
    }
    std::string now = slurp(g_user + "/data.txt");
    if (now != userFile) differ("user file", pbt::cat("the user phrases are\n", now, "expected\n", userFile));
    for (auto& a : m.adds) {
      if (a.first.find(' ') != std::string::npos || a.second.find(' ') != std::string::npos || a.second.empty()) weak = true;  // such a line is not an entry
      lmSmart.user.push_back({a.second, a.first});
      lmPlain.user.push_back({a.second, a.first});
    }
    cache.clear();
    resync = true;
  }
  bool resync = false;

  // ---------------------------------------------------------- the panel
  void nextOne() {
    pl.hi = pl.off() ? pl.page * pl.ps : (pl.hi + 1) % pl.n();
    pl.page = pl.hi / pl.ps;
  }
  void prevOne() {
    if (pl.off()) pl.adopt = true;
    else pl.hi = (pl.hi + pl.n() - 1) % pl.n();
    pl.page = pl.hi / pl.ps;
  }
  void nextPage() {
    if (pl.off()) pl.adopt = true;
    else if (pl.page + 1 < pl.pages()) pl.hi = ++pl.page * pl.ps;
    else if (pl.page > 0) pl.hi = pl.page = 0;
  }
  void prevPage() {
    if (pl.off()) {
      pl.adopt = true;
    } else if (pl.page > 0) {
      pl.hi = --pl.page * pl.ps;
    } else if (pl.pages() > 1) {
      pl.page = pl.pages() - 1;
      pl.hi = pl.page * pl.ps;
    } else {
      pl.adopt = true;
    }
  }
  void choose(size_t i) {
    switch (m.st.kind) {
      case Kind::Choosing: { Cand x = m.st.cands[i]; m.select(x, m.st.orig); break; }
      case Kind::AssocPlain: { Cand x = m.st.cands[i]; m.select(x, 0); break; }
      case Kind::Assoc: {
        St was = m.st;
        m.selectAssoc(was.pfxCursor, was.cands[i], was.pfxReading, was.pfxValue);
        break;
      }
      case Kind::SelDict:
        if (i == 0) {
          St x = m.st;
          x.kind = Kind::CharInfo;
          x.prev = std::make_shared<St>(m.st);
          m.st = x;
        } else if (!servicesDecided) {
          undecided = true;
        } else {
          lookup = true;
          lookedUp = m.st.phrase;
          lookedIn = i - 1;
          m.emptyDelivering();
          m.reset();
        }
        break;
      case Kind::CharInfo: break;
      case Kind::Feature: {
        St x;
        x.kind = i == 0 ? Kind::DateMacro : i == 1 ? Kind::Enclosed : Kind::Number;
        x.style = i < 2 ? 0 : static_cast<int>(i) - 2;
        m.st = x;
        break;
      }
      case Kind::DateMacro: m.commit(pl.texts[i]); break;
      default: abort();
    }
  }
  // A key while a list is open; false: the composer gets it as well.
  bool listKey(const fcitx::Key& k, const fcitx::Key& raw) {
    const Kind kind = m.st.kind;
    const bool none = !static_cast<bool>(fcitx::KeyStates(k.states()));
    const bool shiftOnly = k.states() == fcitx::KeyStates(fcitx::KeyState::Shift);
    auto plainKey = [&](fcitx::KeySym y) { return none && k.sym() == y; };
    auto shiftKey = [&](fcitx::KeySym y) { return shiftOnly && k.sym() == y; };
    const bool rawShift = static_cast<bool>(raw.states() & fcitx::KeyState::Shift);
    if (pl.shift) {
      if (rawShift && raw.code() >= 10 && raw.code() <= 18) {
        size_t i = static_cast<size_t>(raw.code()) - 10;
        if (i < pl.onPage()) choose(pl.page * pl.ps + i);
        return true;
      }
    } else if (none) {
      size_t i = pl.ps;
      for (size_t j = 0; j < pl.ps; ++j) {
        if (k.sym() == static_cast<fcitx::KeySym>(pl.keys[j][0])) i = j;
        else if (pl.keys[0] == "1" && k.sym() == static_cast<fcitx::KeySym>(FcitxKey_KP_1 + j)) i = j;
      }
      if (i < pl.onPage()) {
        choose(pl.page * pl.ps + i);
        return true;
      }
    }
    if (!m.cfg.plain && kind == Kind::Choosing) {
      bool left = (conf.jk && plainKey(FcitxKey_j)) || shiftKey(FcitxKey_Left), right = (conf.jk && plainKey(FcitxKey_k)) || shiftKey(FcitxKey_Right);
      if (left || right) {
        m.moveInList(right);
        return true;
      }
    }
    bool cancel = plainKey(FcitxKey_Escape) || plainKey(FcitxKey_BackSpace);
    if (!m.cfg.plain && plainKey(FcitxKey_question)) {
      if (kind == Kind::Choosing) {
        St x;
        x.kind = Kind::SelDict;
        x.text = m.st.text;
        x.cur = m.st.cur;
        x.prev = std::make_shared<St>(m.st);
        x.phrase = m.st.cands[pl.hi].value;
        back = pl.hi;
        m.st = x;
        return true;
      }
      if (kind == Kind::SelDict || kind == Kind::CharInfo) cancel = true;
    }
    if (!m.cfg.plain && !pl.shift && rawShift && raw.code() == 36 && kind == Kind::Choosing) {
      if (pl.off()) undecided = true;
      back = pl.hi;
      Cand x = m.st.cands[pl.hi];
      m.assocFromChoice(x);
      return true;
    }
    if (pl.shift ? shiftKey(FcitxKey_Return) : plainKey(FcitxKey_Return)) {
      if (pl.off()) undecided = true;
      else choose(pl.hi);
      return true;
    }
    if (cancel) {
      if (kind == Kind::CharInfo) {
        St p2 = *m.st.prev;
        m.st = p2;
        return true;
      }
      if (kind == Kind::SelDict || (kind == Kind::Assoc && !m.st.shift)) {
        St p2 = *m.st.prev;
        m.st = p2;
        if (p2.kind == Kind::Choosing) {
          restore = true;
          pl.hi = back;
        }
        return true;
      }
      if (kind == Kind::Assoc) return false;
      m.cancel(kind == Kind::Choosing ? m.st.orig : 0);
      return true;
    }
    if (plainKey(FcitxKey_space)) {
      if (kind == Kind::Assoc && m.st.shift) return false;
      nextPage();
      return true;
    }
    auto any = [&](std::initializer_list<fcitx::KeySym> ys) {
      for (auto y : ys)
        if (plainKey(y)) return true;
      return false;
    };
    if (vertical()) {
      if (plainKey(FcitxKey_Down)) { nextOne(); return true; }
      if (plainKey(FcitxKey_Up)) { prevOne(); return true; }
      if (any({FcitxKey_Right, FcitxKey_Page_Down, FcitxKey_KP_Right, FcitxKey_KP_Page_Down}) || k.checkKeyList(nextKeys)) { nextPage(); return true; }
      if (any({FcitxKey_Left, FcitxKey_Page_Up, FcitxKey_KP_Left, FcitxKey_KP_Page_Up}) || k.checkKeyList(prevKeys)) { prevPage(); return true; }
    } else {
      if (any({FcitxKey_Right, FcitxKey_KP_Right})) { nextOne(); return true; }
      if (any({FcitxKey_Left, FcitxKey_KP_Left})) { prevOne(); return true; }
      if (any({FcitxKey_Down, FcitxKey_KP_Down, FcitxKey_Page_Down, FcitxKey_KP_Page_Down}) || k.checkKeyList(nextKeys)) { nextPage(); return true; }
      if (any({FcitxKey_Up, FcitxKey_KP_Up, FcitxKey_Page_Up, FcitxKey_KP_Page_Up}) || k.checkKeyList(prevKeys)) { prevPage(); return true; }
    }
    if (kind == Kind::Assoc && !raw.isModifier()) return false;
    if (kind == Kind::AssocPlain && !raw.isModifier()) {
      m.idle();
      return false;
    }
    if (kind == Kind::Choosing && m.cfg.plain) {
      bool r;
      Cand x = m.st.cands[pl.hi];
      size_t orig = m.st.orig;
      bool off = pl.off();
      bool did = m.typeThrough(meaning(k), [&] {
        if (off) undecided = true;
        m.select(x, orig);
      }, &r);
      (void)did;
    }
    return true;
  }

  // ---------------------------------------------------------- events
  std::string keyName(const fcitx::Key& k) { return pbt::cat(k.toString(), k.code() ? pbt::cat(" (code ", k.code(), ")") : ""); }
  void press(const fcitx::Key& raw, bool release = false) {
    bool want = false;
    step(pbt::cat(release ? "release " : "key ", keyName(raw)), [&] {
           fcitx::Key k = raw.normalize();
           if (release || (k.states() & fcitx::KeyStates({fcitx::KeyState::Alt, fcitx::KeyState::Super}))) return;
           if (isList(m.st.kind)) {
             want = true;
             if (!listKey(k, raw)) m.key(meaning(k));
           } else {
             want = m.key(meaning(k));
           }
         },
         [&] {
           fcitx::KeyEvent ev(app, raw, release);
           e->keyEvent(entry(), ev);
           if (!weak && ev.accepted() != want) differ("consumed", pbt::cat("key ", keyName(raw), ": ", ev.accepted() ? "consumed" : "passed to the application", ", expected otherwise"));
           if (!weak && !m.adds.empty() && conf.hook)
             for (auto& a : m.adds) wantLaunch.push_back({{"/bin/sh", conf.hookPath.empty() ? "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh" : conf.hookPath, a.second}, g_user});
           return true;
         });
    if (resync) {
      resync = false;
      // The new phrase is in use from now on; what is composed was converted
      // before.  Start afresh.
      focusOut();
      focusIn(s.coin() ? 1 : 0);
    }
  }
  void press(fcitx::KeySym y, fcitx::KeyStates st = fcitx::KeyStates(), int code = 0) { press(fcitx::Key(y, st, code)); }
  void letter(char ch) {
    static const std::string shifted = "~!@#$%^&*()_+{}|:\"<>?";
    bool sh = (ch >= 'A' && ch <= 'Z') || shifted.find(ch) != std::string::npos;
    int code = ch >= '1' && ch <= '9' ? ch - '1' + 10 : 0;
    press(static_cast<fcitx::KeySym>(static_cast<unsigned char>(ch)), sh ? fcitx::KeyStates(fcitx::KeyState::Shift) : fcitx::KeyStates(), code);
  }
  void click(size_t i) {
    step(pbt::cat("click on candidate ", i), [&] { choose(pl.page * pl.ps + i); }, [&] {
      auto l = app->inputPanel().candidateList();  // the panel keeps the list while it reports a click
      if (l && static_cast<int>(i) < l->size()) l->candidate(static_cast<int>(i)).select(app);
      return true;
    });
  }
  void flip(bool next) {
    step(next ? "next-page button" : "previous-page button", [&] {
           if (next && pl.page + 1 < pl.pages()) ++pl.page;
           if (!next && pl.page) --pl.page;
         },
         [&] {
           auto l = app->inputPanel().candidateList();
           if (auto* pg = l->toPageable()) {
             if (next && pg->hasNext()) pg->next();
             else if (!next && pg->hasPrev()) pg->prev();
           }
           return false;  // shown by the button itself
         });
  }
  void focusIn(size_t which) {
    app = apps[which].get();
    step(pbt::cat("focus moves to application ", which, app->cap ? "" : " (without preedit)", plainEntry ? ", plain mode" : ""), [&] { modelActivate(); }, [&] {
      app->statusArea().clearGroup(fcitx::StatusGroup::InputMethod);
      app->focusIn();
      fcitx::FocusInEvent ev(app);
      e->activate(entry(), ev);
      return true;
    });
    focused = true;
    if (!weak) statusArea();
  }
  void focusOut() {
    std::string had;
    bool number = m.st.kind == Kind::Number || m.st.kind == Kind::Enclosed;
    if (!weak) had = wantPreedit();
    step("focus leaves", [&] {
           if (app->cap && !app->selfCommit) m.delivered = had;
           m.reset();
           m.idle();
         },
         [&] {
           std::string seen = app->inputPanel().clientPreedit().toString();
           app->focusOut();
           fcitx::FocusOutEvent ev(app);
           e->deactivate(entry(), ev);
           if (!weak && number && app->got.empty()) m.delivered.clear();  // digits not turned into anything yet
           std::string d = app->got;
           if (d != (app->cap && !app->selfCommit && !(number && d.empty()) ? seen : "")) pbt::fail("focus", pbt::cat("losing focus delivered '", d, "' where '", seen, "' was shown"));
           blind = true;  // the panel is not shown until the next focus
           return false;
         });
    focused = false;
  }
  bool blind = false;
  void resetEvent() {
    step("the application resets the context", [&] { m.reset(); m.idle(); }, [&] {
      fcitx::ResetEvent ev(app);
      e->reset(entry(), ev);
      return true;
    });
  }
  void switchMode() {
    step("switch input method", [&] {
           m.emptyDelivering();
           m.reset();
           m.idle();
         },
         [&] {
           fcitx::InputContextSwitchInputMethodEvent ev(fcitx::InputMethodSwitchedReason::Trigger, "mcbopomofo", app);
           e->deactivate(entry(), ev);
           return true;
         });
    if (s.chance(4, 5)) plainEntry = !plainEntry;
    step(plainEntry ? "plain mode" : "smart mode", [&] { modelActivate(); }, [&] {
      app->statusArea().clearGroup(fcitx::StatusGroup::InputMethod);
      fcitx::InputContextSwitchInputMethodEvent ev(fcitx::InputMethodSwitchedReason::Trigger, "mcbopomofo", app);
      e->activate(entry(), ev);
      return true;
    });
    if (!weak) statusArea();
  }
  // What the status menu offers.
  void statusArea() {
    if (is("L01")) menuMessages();
    if (!is("E04")) return;
    std::set<std::string> names;
    for (auto* a : app->statusArea().actions(fcitx::StatusGroup::InputMethod)) names.insert(a->name());
    std::set<std::string> want = {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases"};
    if (!plainEntry) {
      want.insert("mcbopomofo-user-phrases-edit");
      want.insert("mcbopomofo-user-excluded-phrases-edit");
    }
    if (g_notified) want.insert("chttrans");
    for (auto& w : want) PBT_CHECK(names.count(w), "menu", "the menu misses ", w);
    for (auto& n : names) PBT_CHECK(want.count(n), "menu", "the menu offers ", n, plainEntry ? " in plain mode" : "");
    menuTexts();
  }
  void menuMessages(bool halfToo = true, bool assocToo = true) {
    auto check = [&](const std::string& n, std::initializer_list<const char*> ids) {
      auto* a = g_instance->userInterfaceManager().lookupAction(n);
      std::string t = a ? a->shortText(app) : "(gone)", want;
      for (auto* id : ids) {
        if (t == tr(id)) return;
        want += pbt::cat(want.empty() ? "'" : "' or '", tr(id));
      }
      differ("menu", pbt::cat("in language '", g_language, "' the menu says '", t, "', expected ", want, "'"));
    };
    if (halfToo && conf.half) check("mcbopomofo-half-width-punctuation", {"Half width Punctuation", "Half Width Punctuation"});
    if (halfToo && !conf.half) check("mcbopomofo-half-width-punctuation", {"Full Width Punctuation"});
    if (assocToo) check("mcbopomofo-associated-phrases", {conf.assoc ? "Associated Phrases - On" : "Associated Phrases - Off"});
    check("mcbopomofo-user-phrases-edit", {"Edit User Phrases"});
    check("mcbopomofo-user-excluded-phrases-edit", {"Edit Excluded Phrases"});
    judged += 1;
  }
  void menuTexts(bool halfToo = true, bool assocToo = true) {
    auto text = [&](const char* n) {
      auto* a = g_instance->userInterfaceManager().lookupAction(n);
      std::string t = a ? a->shortText(app) : "(gone)";
      for (auto& ch : t) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
      return t;
    };
    std::string h = text("mcbopomofo-half-width-punctuation"), a = text("mcbopomofo-associated-phrases");
    if (halfToo) PBT_CHECK((h.find("half") != std::string::npos) == conf.half && (h.find("full") != std::string::npos) != conf.half, "menu", "the menu says '", h, "' with half-width punctuation ", conf.half ? "on" : "off");
    if (assocToo) PBT_CHECK((a.find("- on") != std::string::npos) == conf.assoc && (a.find("- off") != std::string::npos) != conf.assoc, "menu", "the menu says '", a, "' with associated phrases ", conf.assoc ? "on" : "off");
  }
  // The switch that was used is announced once, with its state.
  void notified(bool half) {
    PBT_CHECK(g_notices.size() == 1, "notice", "a switch is announced ", g_notices.size(), " times");
    if (weak) return;
    const Shown n = g_notices[0];
    bool on = half ? conf.half : conf.assoc;
    if (is("E04")) {
      std::string t = n.summary + "|" + n.body;
      for (auto& ch : t) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
      bool says = half ? t.find("half width") != std::string::npos : t.find(" on|") != std::string::npos;
      bool saysNot = half ? t.find("full width") != std::string::npos : t.find(" off|") != std::string::npos && t.find("disabled") != std::string::npos;
      PBT_CHECK(says == on && saysNot != on && (t.find("shift + enter") != std::string::npos) == (!half && on && !m.cfg.plain), "notice", "'", n.summary, "', '", n.body, "' is announced with ", half ? "half-width punctuation " : "associated phrases ", on ? "on" : "off");
    }
    if (is("L01")) {
      std::vector<std::string> want = half ? std::vector<std::string>{"Punctuation", on ? "Half Width Punctuation" : "Full Width Punctuation", on ? "Now using half width punctuation" : "Now using full width punctuation"}
                                           : std::vector<std::string>{"Associated Phrases", on ? "Associated Phrases On" : "Associated Phrases Off",
                                                                      !on           ? "Associated Phrases is now disabled."
                                                                      : m.cfg.plain ? "Associated Phrases is now enabled."
                                                                                    : "Now you can use Shift + Enter to insert associated phrases"};
      for (auto& x : want) x = tr(x);
      if (n.title != want[0] || n.summary != want[1] || n.body != want[2]) differ("menu", pbt::cat("in language '", g_language, "' '", n.title, "', '", n.summary, "', '", n.body, "' is announced, expected '", want[0], "', '", want[1], "', '", want[2], "'"));
      stepKinds.insert("L01");
    }
  }
  void toggle() {
    bool half = s.coin();
    PBT_CHECK(g_notices.empty(), "notice", "'", g_notices.empty() ? "" : g_notices[0].summary, "' is announced without a switch being used");
    step(half ? "toggle half-width punctuation" : "toggle associated phrases", [&] {
           stepKinds.insert("E04");
           if (half) m.cfg.half = conf.half = !conf.half;
           else m.cfg.assoc = conf.assoc = !conf.assoc;
         },
         [&] {
           g_instance->userInterfaceManager().lookupAction(half ? "mcbopomofo-half-width-punctuation" : "mcbopomofo-associated-phrases")->activate(app);
           return true;
         });
    stored();
    if (!weak && is("E04")) menuTexts(half, !half);
    if (!weak && is("L01")) menuMessages(half, !half);
    if (g_notified) notified(half);
    g_notices.clear();
  }
  // Settings are kept in memory and on disk.
  // The user's files are edited outside, while another application has the focus.
  std::string someWord() {
    if (!lmSmart.db.empty() && s.chance(3, 4)) return s.pick(lmSmart.db).value;
    std::string v;
    do v += s.pick(kChars);
    while (s.chance(1, 2));
    return v;
  }
  std::string entryLine() {
    if (!lmSmart.db.empty() && s.chance(2, 3)) {
      auto& r = s.pick(lmSmart.db);
      return (s.chance(1, 3) ? someWord() : r.value) + " " + r.reading + "\n";
    }
    return someWord() + " " + (!wordReadings.empty() && s.coin() ? ref::joinWith(s.pick(wordReadings), "-") : s.pick(pool)) + "\n";
  }
  std::string replLine() { return someWord() + " " + someWord() + "\n"; }
  void filesChanged() {
    for (auto* x : {&lmSmart, &lmPlain}) {
      x->user = ref::refParse(userFile).pairs;
      x->excluded = ref::refParse(exclFile).pairs;
      x->replOn = !replFile.empty();
      x->repl.clear();
      if (x->replOn)
        for (auto& y : ref::refParse(replFile).pairs) x->repl[y.first] = y.second;
    }
    cache.clear();
  }
  void editUserFiles() {
    if (focused) focusOut();
    usleep(12000);  // file times advance
    for (size_t k = 0, n = 1 + s.below(3); k < n; ++k) {
      size_t w = s.weighted({4, 3, 2});
      std::string& t = w == 0 ? userFile : w == 1 ? exclFile : replFile;
      std::vector<std::string> ls;
      std::istringstream in(t);
      for (std::string l; std::getline(in, l);) ls.push_back(l + "\n");
      switch (s.below(4)) {
        case 0: case 1: ls.insert(ls.begin() + static_cast<long>(s.below(ls.size() + 1)), w == 2 ? replLine() : entryLine()); break;
        case 2:
          if (!ls.empty()) ls.erase(ls.begin() + static_cast<long>(s.below(ls.size())));
          break;
        case 3:
          if (w == 2) ls.clear();  // no such file any more
          else if (!ls.empty()) ls[s.below(ls.size())].insert(0, "# ");
          break;
      }
      t.clear();
      for (auto& l : ls) t += l;
      if (w != 2 && !t.empty() && s.chance(1, 5)) t.pop_back();  // no newline at the end
      if (w != 2 && t.empty()) t = "\n";
    }
    // At least one entry would make the files differ; equal files may or may not be read again.
    write(g_user + "/data.txt", userFile);
    write(g_user + "/exclude-phrases.txt", exclFile);
    if (replFile.empty()) fs::remove(g_user + "/phrases-replacement.txt");
    else write(g_user + "/phrases-replacement.txt", replFile);
    filesChanged();
    c.log("the user phrases are now\n", userFile, "excluded\n", exclFile, replFile.empty() ? "" : "replacements\n", replFile);
    usleep(12000);
    focusIn(s.below(2));
    history.insert("F01");
  }
  void stored() {
    if (weak) return;
    fcitx::RawConfig raw;
    e->getConfig()->save(raw);
    auto want = optionsOf(conf);
    for (auto& w : want) {
      const std::string* v = raw.valueByPath(w.first);
      if (!v || *v != w.second) differ("setting", pbt::cat(w.first, " is ", v ? *v : "(gone)", ", set to ", w.second));
    }
    if (!is("E04") && !is("L01")) return;
    std::map<std::string, std::string> file;
    std::istringstream in(slurp(g_conf));
    for (std::string l; std::getline(in, l);) {
      size_t q = l.find('=');
      if (l.empty() || l[0] == '#' || q == std::string::npos) continue;
      std::string v = l.substr(q + 1);
      if (v.size() >= 2 && v[0] == '"' && v.back() == '"') v = v.substr(1, v.size() - 2);
      file[l.substr(0, q)] = v;
    }
    for (auto& w : want) {
      auto it = file.find(w.first);
      if (it == file.end() || it->second != w.second) differ("stored setting", pbt::cat("the configuration file has ", w.first, "=", it == file.end() ? "(nothing)" : it->second, ", set to ", w.second));
    }
  }
  void changeSettings() {
    Conf old = conf;
    auto before = optionsOf(conf);
    genConf(false);
    bool halfOld = old.half, assocOld = old.assoc;
    (void)halfOld;
    (void)assocOld;
    std::set<std::string> names;
    for (auto& o : optionsOf(conf))
      if (before[o.first] != o.second || s.coin()) names.insert(o.first);
    step("change settings", [&] { stepKinds.insert("E04"); }, [&] {
      configure(s.coin() ? nullptr : &names);
      return true;
    });
    logConf();
    stored();
  }
  void restart() {
    if (focused) focusOut();
    c.log("restart");
    stepKinds = {"E04"};
    startEngine();
    if (is("L01")) described();
    m.learned.known.clear();
    m.cfg.plain = false;
    cache.clear();
    focusIn(0);
    stored();
    history.insert("E04");
  }
  void editFile() {
    bool excl = s.coin();
    step(excl ? "edit excluded phrases" : "edit user phrases", [&] {
           stepKinds.insert("E04");
           wantLaunch.push_back({{conf.openWith.empty() ? "xdg-open" : conf.openWith, g_user + (excl ? "/exclude-phrases.txt" : "/data.txt")}, ""});
         },
         [&] {
           g_instance->userInterfaceManager().lookupAction(excl ? "mcbopomofo-user-excluded-phrases-edit" : "mcbopomofo-user-phrases-edit")->activate(app);
           return true;
         });
  }

  // ---------------------------------------------------------- generation
  bool listNow() const { return weak ? realList() != nullptr : isList(m.st.kind); }
  void syllable(const std::string& y) {
    for (char ch : sequence(y)) {
      if (ch == ' ') press(FcitxKey_space);
      else letter(ch);
      if (listNow() || !focused) return;
    }
  }
  void anyKey() {
    static const std::vector<fcitx::KeySym> ys = {
        FcitxKey_BackSpace, FcitxKey_Return, FcitxKey_KP_Enter, FcitxKey_Escape, FcitxKey_space, FcitxKey_Delete, FcitxKey_KP_Delete, FcitxKey_Tab, FcitxKey_ISO_Left_Tab, FcitxKey_Left, FcitxKey_KP_Left,
        FcitxKey_Right, FcitxKey_KP_Right, FcitxKey_Home, FcitxKey_KP_Home, FcitxKey_End, FcitxKey_KP_End, FcitxKey_Up, FcitxKey_KP_Up, FcitxKey_Down, FcitxKey_KP_Down, FcitxKey_Page_Up, FcitxKey_Page_Down,
        FcitxKey_KP_Page_Up, FcitxKey_KP_Page_Down, FcitxKey_KP_0, FcitxKey_KP_1, FcitxKey_KP_2, FcitxKey_KP_3, FcitxKey_KP_4, FcitxKey_KP_5, FcitxKey_KP_6, FcitxKey_KP_7, FcitxKey_KP_8, FcitxKey_KP_9,
        FcitxKey_KP_Decimal, FcitxKey_KP_Add, FcitxKey_KP_Subtract, FcitxKey_KP_Multiply, FcitxKey_KP_Divide, FcitxKey_KP_Space, FcitxKey_Shift_L, FcitxKey_Shift_R, FcitxKey_Control_L, FcitxKey_Alt_L,
        FcitxKey_Caps_Lock, FcitxKey_F1, FcitxKey_Insert, FcitxKey_Menu, FcitxKey_eacute, FcitxKey_EuroSign, FcitxKey_None, FcitxKey_dead_acute, static_cast<fcitx::KeySym>(0x1004e00)};
    fcitx::KeyStates st;
    if (s.chance(1, 3)) st |= fcitx::KeyState::Shift;
    if (s.chance(1, 4)) st |= fcitx::KeyState::Ctrl;
    if (s.chance(1, 20)) st |= fcitx::KeyState::Alt;
    if (s.chance(1, 30)) st |= fcitx::KeyState::Super;
    if (s.chance(1, 12)) st |= fcitx::KeyState::NumLock;
    if (weak && s.chance(1, 12)) st |= fcitx::KeyState::CapsLock;
    if (s.chance(1, 40)) st |= fcitx::KeyState::Hyper;
    fcitx::KeySym y = s.chance(1, 2) ? s.pick(ys) : static_cast<fcitx::KeySym>(32 + s.below(95));
    int code = s.chance(1, 6) ? static_cast<int>(9 + s.below(12)) : y == FcitxKey_Return ? 36 : 0;
    press(fcitx::Key(y, st, code), s.chance(1, 15));
  }
  void typing() {
    Kind k = weak ? Kind::Inputting : m.st.kind;
    if (k == Kind::Number || k == Kind::Enclosed) {
      switch (s.weighted({12, 3, 2, 3, 1, 1, 1, 1})) {
        case 0:
          if (s.chance(1, 3)) press(static_cast<fcitx::KeySym>(FcitxKey_KP_0 + s.below(10)));
          else letter(static_cast<char>('0' + s.below(10)));
          break;
        case 1: letter('.'); break;
        case 2: press(s.coin() ? FcitxKey_BackSpace : FcitxKey_Delete); break;
        case 3: press(FcitxKey_Return, fcitx::KeyStates(), 36); break;
        case 4: s.coin() ? press(FcitxKey_space) : letter('a'); break;
        case 5: press(FcitxKey_Escape); break;
        case 6: anyKey(); break;
        case 7: {  // up to the longest number there may be, and on
          const size_t n = 15 + s.below(10);
          const size_t dot = s.coin() ? s.below(26) : 99;
          for (size_t i = 0; i < n && !weak && focused && (m.st.kind == Kind::Number || m.st.kind == Kind::Enclosed); ++i) letter(i == dot ? '.' : static_cast<char>('0' + s.below(10)));
          if (!weak && focused && s.coin()) letter('.');
          break;
        }
      }
      return;
    }
    auto shift = fcitx::KeyStates(fcitx::KeyState::Shift);
    switch (s.weighted(p.act)) {
      case 0:
        if (!wordReadings.empty() && s.coin()) {
          for (auto& r : s.pick(wordReadings)) {
            syllable(r);
            if (listNow() || !focused) return;
          }
        } else {
          syllable(s.pick(pool));
        }
        break;
      case 1: {
        std::string q = sequence(s.pick(kSyls));
        char ch = q[s.below(q.size())];
        if (ch == ' ') press(FcitxKey_space);
        else letter(ch);
        break;
      }
      case 2: {
        static const std::vector<fcitx::KeySym> ks = {FcitxKey_Left, FcitxKey_Right, FcitxKey_Home, FcitxKey_End, FcitxKey_Left, FcitxKey_Left, FcitxKey_KP_Left, FcitxKey_KP_End};
        bool sh = s.chance(1, 3);
        fcitx::KeySym y = s.pick(ks);
        for (size_t i = 0, n = 1 + s.below(4); i < n && !listNow(); ++i) press(y, sh ? shift : fcitx::KeyStates());
        break;
      }
      case 3: press(s.coin() ? FcitxKey_BackSpace : s.coin() ? FcitxKey_Delete : FcitxKey_KP_Delete); break;
      case 4: {
        fcitx::KeyStates st;
        if (s.chance(1, 3)) st |= fcitx::KeyState::Shift;
        if (s.chance(1, 5)) st |= fcitx::KeyState::Ctrl;
        s.chance(1, 10) ? press(FcitxKey_KP_Enter, st, 104) : press(FcitxKey_Return, st, 36);
        break;
      }
      case 5: s.coin() ? press(FcitxKey_Down) : press(FcitxKey_space, s.chance(1, 6) ? shift : fcitx::KeyStates()); break;
      case 6: press(FcitxKey_Escape); break;
      case 7: s.coin() ? press(FcitxKey_Tab) : press(FcitxKey_ISO_Left_Tab, shift); break;
      case 8: {
        static const std::string ks = "<<>>!!-,.?`A\\";
        if (s.chance(1, 6)) {
          static const std::vector<fcitx::KeySym> cs = {FcitxKey_comma, FcitxKey_period, FcitxKey_1, FcitxKey_slash, FcitxKey_semicolon, FcitxKey_apostrophe};
          press(s.pick(cs), fcitx::KeyState::Ctrl);
        } else {
          letter(ks[s.below(ks.size())]);
        }
        break;
      }
      case 9: letter(static_cast<char>('A' + s.below(s.chance(3, 4) ? 3 : 26))); break;
      case 10: anyKey(); break;
      case 11: press(FcitxKey_backslash, fcitx::KeyState::Ctrl); break;
      case 12: letter('?'); break;
    }
  }
  void listed() {
    auto shift = fcitx::KeyStates(fcitx::KeyState::Shift);
    bool sh = weak ? s.coin() : pl.shift;
    size_t n = weak ? 4 : pl.onPage();
    switch (s.weighted(p.list)) {
      case 0: {  // a selection key, mostly of a visible candidate
        size_t i = s.chance(5, 6) ? s.below(n) : s.below(9);
        if (sh) press(static_cast<fcitx::KeySym>("!@#$%^&*("[i]), shift, static_cast<int>(10 + i));
        else if (conf.keys == 0 && s.chance(1, 4)) press(static_cast<fcitx::KeySym>(FcitxKey_KP_1 + i));
        else letter(kKeysOption[conf.keys][i]);
        break;
      }
      case 1: press(FcitxKey_Return, sh ? shift : fcitx::KeyStates(), 36); break;
      case 2: s.chance(1, 5) ? press(FcitxKey_BackSpace) : press(FcitxKey_Escape); break;
      case 3: {
        static const std::vector<fcitx::KeySym> ks = {FcitxKey_Down, FcitxKey_Right, FcitxKey_space, FcitxKey_Up, FcitxKey_Left, FcitxKey_Page_Down, FcitxKey_Page_Up, FcitxKey_KP_Right,
                                                       FcitxKey_KP_Left, FcitxKey_KP_Page_Down, FcitxKey_KP_Page_Up, FcitxKey_KP_Down, FcitxKey_KP_Up};
        fcitx::Key y(s.pick(ks));
        if (s.chance(1, 3)) {
          const fcitx::KeyList& own = s.chance(2, 3) ? nextKeys : prevKeys;
          if (!own.empty()) y = s.pick(own);
        }
        for (size_t i = 0, k = 1 + s.below(s.chance(1, 6) ? 12 : 3); i < k && listNow(); ++i) press(y);
        break;
      }
      case 4: {
        bool right = s.coin();
        if (conf.jk && s.coin()) letter(right ? 'k' : 'j');
        else press(right ? FcitxKey_Right : FcitxKey_Left, shift);
        break;
      }
      case 5:
        if (s.chance(1, 4)) flip(true);
        press(FcitxKey_Return, shift, 36);
        if (s.chance(1, 3)) press(FcitxKey_Escape);
        break;
      case 6: letter('?'); break;
      case 7: s.chance(1, 3) ? syllable(s.pick(pool)) : typing(); break;
      case 8: click(s.below(n)); break;
      case 9: anyKey(); break;
      case 10:
        flip(s.chance(2, 3));
        break;
    }
  }
  void run() {
    std::unique_ptr<Abroad> there;
    if (is("C01")) {
      const std::string& l = s.pick(Locales::get().names);
      c.log("in ", l);
      c.label("in " + l);
      there = std::make_unique<Abroad>(l);
      history.insert("C01");
    }
    setUp();
    for (auto& k : {"E04"}) if (is("E04")) history.insert(k);
    size_t n = 0;
    try {
      if (is("C01") && s.chance(1, 3)) directLookups();
      if (is("E03")) {
        stepKinds.insert("E03");
        if (s.chance(1, 4)) directLookups();
      }
      while (s.more(n, p.avg, 200)) {
        ++n;
        if (!focused) {
          focusIn(s.chance(3, 4) ? (app == apps[1].get()) : s.below(2));
          continue;
        }
        switch (s.weighted({30, events()[0], events()[1], events()[2], events()[3], events()[4], events()[5], events()[6], events()[7], is("F01") ? 3 : 0})) {
          case 0: listNow() ? listed() : typing(); break;
          case 1: focusOut(); break;
          case 2: resetEvent(); break;
          case 3: switchMode(); break;
          case 4: toggle(); break;
          case 5: changeSettings(); break;
          case 6: restart(); break;
          case 7: if (!listNow()) editFile(); break;
          case 8: {
            int64_t sec = static_cast<int64_t>(s.below(9000));
            g_fakeMicros += sec * 1000000;
            m.now += static_cast<double>(sec);
            c.log(sec, " seconds pass");
            break;
          }
          case 9: editUserFiles(); break;
        }
        if (weak && n > 150) break;
      }
    } catch (pbt::Stop&) {
    }
    finish();
    c.label(m.cfg.plain ? "plain mode" : "smart mode");
    for (auto& k : seenKinds) c.label("steps of " + k);
    if (weak) c.label("continued without the model");
    if (judged >= 3) c.interesting();
  }
  // The services by themselves, for words that cannot be typed.
  void directLookups() {
    if (!servicesDecided) return;
    McBopomofo::DictionaryServices ds;
    ds.load();
    for (int k = 0; k < 3; ++k) {
      std::string w;
      do {
        switch (s.below(4)) {
          case 0: w += odd(); break;
          case 1: w += s.pick(kChars); break;
          case 2: w += static_cast<char>(1 + s.below(127)); break;
          default: {
            auto b = [&](int base, uint64_t n) { w += static_cast<char>(base + static_cast<int>(s.below(n))); };
            if (s.coin()) {
              b(0xc2, 30), b(0x80, 64);  // two bytes
            } else {
              b(0xf1, 3), b(0x80, 64), b(0x80, 64), b(0x80, 64);  // four
            }
          }
        }
      } while (s.chance(4, 5));
      c.log("look up ", pbt::show(w), " directly");
      auto menu = ds.menuForPhrase(w);
      if (menu.size() != services.size() + 1) differ("services", pbt::cat(menu.size(), " entries for ", services.size(), " services"));
      for (size_t i = 0; i < services.size(); ++i) {
        if (menu[i + 1].find(services[i].name) == std::string::npos || menu[i + 1].find(w) == std::string::npos)
          differ("services", pbt::cat("entry ", i + 1, " for ", pbt::show(w), " in ", services[i].name, " is ", pbt::show(menu[i + 1])));
        g_launched.clear();
        ds.lookup(w, i + 1, nullptr, [](std::unique_ptr<McBopomofo::InputState>) {});
        if (g_launched.size() != 1 || g_launched[0].args.size() != 2 || !addresses(g_launched[0].args[1], services[i].url, w))
          differ("services", pbt::cat("looked up ", pbt::show(w), " in ", services[i].url, ": ", g_launched.empty() || g_launched[0].args.size() < 2 ? "nothing" : g_launched[0].args[1]));
      }
      g_launched.clear();
    }
    if (!services.empty()) judged += 3;
  }
  void finish() {
    app = nullptr;
    apps.clear();
    e.reset();
    g_fakeClock = false;
  }
  // focus, reset, switch, toggle, settings, restart, edit, time
  std::vector<int> events() const {
    if (is("E01")) return {1, 0, 1, 0, 1, 0, 0, 0};
    if (is("E02")) return {3, 1, 1, 1, 1, 0, 0, 1};
    if (is("E03")) return {1, 0, 0, 0, 0, 0, 0, 0};
    if (is("F01")) return {1, 0, 1, 0, 0, 1, 0, 0};
    if (is("L01") || is("C01")) return {1, 0, 1, 1, 1, 1, 1, 0};
    if (p.id[0] == 'S') return {1, 0, 1, 0, 1, 0, 0, 1};
    return {2, 0, 2, 3, 4, 2, 2, 0};
  }
};

// act:  words, one key, cursor, delete, enter, space/down, esc, tab, punct, letter, any, menu, ?
// list: key, Enter, leave, navigate, move, phrases, ?, type, click, any, flip
const Profile kProfiles[] = {
    {"E01", 5, 5, 2, {14, 1, 4, 1, 3, 14, 1, 1, 3, 1, 1, 3, 1}, {5, 3, 3, 12, 2, 2, 2, 3, 3, 3, 1}, 22},
    {"E02", 5, 5, 4, {14, 2, 5, 2, 3, 5, 2, 2, 4, 2, 5, 2, 1}, {5, 3, 4, 4, 2, 2, 2, 4, 3, 4, 2}, 24},
    {"E03", 1, 1, 3, {16, 0, 6, 1, 2, 10, 0, 0, 1, 0, 0, 0, 6}, {7, 2, 2, 4, 0, 0, 10, 1, 3, 0, 0}, 20},
    {"E04", 5, 5, 1, {14, 1, 6, 2, 6, 6, 2, 2, 4, 4, 1, 1, 0}, {6, 2, 2, 4, 3, 1, 0, 3, 1, 1, 0}, 26},
    {"S01", 2, 6, 3, {14, 4, 5, 4, 2, 4, 1, 2, 3, 1, 2, 0, 0}, {6, 2, 3, 2, 2, 2, 1, 3, 2, 1, 0}, 26},
    {"S02", 3, 6, 3, {14, 1, 3, 2, 10, 4, 2, 1, 3, 5, 1, 1, 0}, {6, 3, 2, 2, 2, 2, 1, 3, 2, 1, 0}, 24},
    {"S03", 3, 4, 3, {6, 1, 3, 4, 4, 3, 3, 2, 2, 2, 14, 1, 1}, {5, 2, 4, 1, 1, 1, 1, 2, 1, 2, 0}, 26},
    {"S04", 1, 5, 3, {14, 1, 6, 2, 1, 14, 1, 6, 2, 1, 0, 0, 0}, {10, 3, 5, 3, 5, 2, 1, 3, 2, 0, 0}, 26},
    {"S05", 1, 5, 2, {14, 1, 14, 2, 8, 2, 1, 1, 1, 0, 0, 0, 0}, {6, 2, 3, 1, 1, 1, 1, 3, 1, 0, 0}, 26},
    {"S06", 18, 8, 3, {14, 2, 2, 2, 2, 2, 2, 1, 8, 4, 2, 1, 0}, {6, 2, 3, 2, 1, 3, 1, 10, 2, 2, 0}, 24},
    {"S07", 3, 16, 1, {14, 1, 6, 1, 10, 4, 1, 1, 1, 0, 0, 0, 0}, {7, 3, 3, 3, 1, 10, 1, 3, 2, 1, 0}, 24},
    {"S08", 3, 4, 3, {4, 0, 2, 1, 2, 2, 1, 0, 1, 0, 2, 12, 0}, {10, 3, 2, 4, 1, 1, 1, 1, 3, 1, 0}, 28},
    {"F01", 3, 4, 1, {14, 0, 8, 1, 8, 8, 1, 1, 1, 0, 0, 0, 0}, {6, 2, 4, 3, 1, 1, 0, 2, 1, 0, 0}, 24},
    {"C01", 3, 4, 3, {16, 1, 6, 2, 4, 6, 2, 2, 4, 2, 1, 2, 3}, {6, 3, 3, 3, 2, 3, 6, 2, 2, 1, 1}, 20},
    {"L01", 2, 2, 9, {16, 0, 18, 1, 4, 6, 0, 0, 1, 0, 0, 0, 4}, {4, 3, 3, 2, 1, 1, 8, 1, 1, 0, 0}, 20},
};
template <int I>
void prop(Source& s, Ctx& c) {
  if (g_with) {
    g_notified = s.chance(2, 3);
    g_instance = g_notified ? g_with : g_without;
  }
  Driver d(s, c, kProfiles[I]);
  d.run();
}
void initWith(bool notices) {
  const char* base = getenv("PBT_SCRATCH");
  g_root = base ? base : "/nonexistent";
  fs::create_directories(g_root + "/share/fcitx5/data");
  fs::create_directories(g_root + "/home/.local/share");
  fs::create_directories(g_root + "/run");
  fs::create_directories(g_root + "/bin");
  write(g_root + "/bin/xdg-open", "#!/bin/sh\nexit 0\n");  // should the stand-in ever be bypassed
  chmod((g_root + "/bin/xdg-open").c_str(), 0755);
  setenv("PATH", (g_root + "/bin").c_str(), 1);
  setenv("HOME", (g_root + "/home").c_str(), 1);
  setenv("XDG_DATA_HOME", (g_root + "/home/.local/share").c_str(), 1);
  setenv("XDG_CONFIG_HOME", (g_root + "/home/.config").c_str(), 1);
  setenv("XDG_CACHE_HOME", (g_root + "/home/.cache").c_str(), 1);
  setenv("XDG_DATA_DIRS", (g_root + "/share").c_str(), 1);
  setenv("XDG_CONFIG_DIRS", (g_root + "/etc").c_str(), 1);
  setenv("XDG_RUNTIME_DIR", (g_root + "/run").c_str(), 1);
  unsetenv("FCITX_DATA_HOME");
  unsetenv("FCITX_CONFIG_HOME");
  unsetenv("LANGUAGE");
  g_user = g_root + "/home/.local/share/fcitx5/mcbopomofo";
  g_conf = g_root + "/home/.config/fcitx5/conf/mcbopomofo.conf";
  fcitx::Log::setLogRule("*=0");
  g_notified = notices;
  if (notices) {
    fs::create_directories(g_root + "/share/fcitx5/addon");
    write(g_root + "/share/fcitx5/addon/notifications.conf", "[Addon]\nName=Notifications\nType=StaticLibrary\nLibrary=notifications\nCategory=Module\nOnDemand=True\n");
  }
  static char a0[] = "t", a1[] = "--disable=all", a2[] = "--enable=notifications";
  char* av[] = {a0, a1, notices ? a2 : nullptr, nullptr};
  optind = 0;
  g_instance = new fcitx::Instance(notices ? 3 : 2, av);
  static NotificationsFactory factory;
  static fcitx::StaticAddonRegistry registry = {{"notifications", &factory}};
  g_instance->addonManager().registerDefaultLoader(&registry);
  g_instance->initialize();
  static fcitx::SimpleAction conversion;  // of another module
  if (notices) g_instance->userInterfaceManager().registerAction("chttrans", &conversion);
  static std::vector<std::unique_ptr<fcitx::HandlerTableEntry<fcitx::EventHandler>>> watches;
  watches.push_back(g_instance->watchEvent(fcitx::EventType::InputContextUpdateUI, fcitx::EventWatcherPhase::PreInputMethod, [](fcitx::Event&) { ++g_uiUpdates; }));
}

void init() { initWith(false); }
void initBoth() {
  initWith(false);
  g_without = g_instance;
  initWith(true);
  g_with = g_instance;
}

void initAbroad() {
  initWith(false);
  Locales::get().load();
}

// The catalogues as they are installed.
void initLanguages() {
  const char* base = getenv("PBT_SCRATCH");
  std::string root = base ? base : "/nonexistent";
  std::istringstream in(slurp(REPO_DIR "/po/LINGUAS"));
  for (std::string l; in >> l;) {
    if (l[0] == '#') {
      std::getline(in, l);
      continue;
    }
    std::string d = root + "/locale/" + l + "/LC_MESSAGES", po = REPO_DIR "/po/" + l + ".po";
    fs::create_directories(d);
    if (system(("msgfmt -o '" + d + "/fcitx5-mcbopomofo.mo' '" + po + "'").c_str()) != 0) continue;
    g_catalogues[l] = readCatalogue(po);
  }
  initWith(true);
  // gettext translates nothing in the C locale, so it gets another name.
  std::error_code ec;
  fs::create_directories(g_root + "/loc");
  fs::copy("/usr/lib/locale/C.utf8", g_root + "/loc/xx_XX.utf8", fs::copy_options::recursive, ec);
  setenv("LOCPATH", (g_root + "/loc").c_str(), 1);
  if (setlocale(LC_ALL, "xx_XX.UTF-8") == nullptr) {
    fprintf(stderr, "no locale to translate in\n");
    _exit(3);
  }
  fcitx::registerDomain("fcitx5-mcbopomofo", (g_root + "/locale").c_str());
  // What the settings and the new files say in no particular language, from
  // another process: this one is to know one language only.
  auto put = [](FILE* f, const std::string& t) { fprintf(f, "%zu %s", t.size(), t.c_str()); };
  const std::string plain = g_root + "/english";
  pid_t pid = fork();
  if (pid == 0) {
    setLanguage("");
    auto e = std::make_unique<McBopomofo::McBopomofoEngine>(g_instance);
    FILE* f = fopen(plain.c_str(), "w");
    put(f, slurp(g_user + "/data.txt"));
    put(f, slurp(g_user + "/exclude-phrases.txt"));
    for (auto& d : describe(*e)) {
      put(f, d.first);
      put(f, d.second);
    }
    fclose(f);
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (status != 0) {
    fprintf(stderr, "the engine does not start\n");
    abort();
  }
  std::istringstream in2(slurp(plain));
  auto get = [&in2]() {
    size_t n = 0;
    in2 >> n;
    in2.get();
    std::string t(n, '\0');
    in2.read(&t[0], static_cast<std::streamsize>(n));
    return t;
  };
  g_userHeader = get();
  g_excludedHeader = get();
  while (in2.peek() != EOF) {
    std::string k = get();
    g_description[k] = get();
  }
}

}  // namespace

#define ENGINE_RULE "a case is a generated dictionary, configuration and a history of key, pointer, focus and settings events at an input context; non-trivial when at least three steps belonging to the property were judged"
const std::vector<pbt::Property> pbt::kProperties = {
    {"E01", ENGINE_RULE, prop<0>, 20000, 600000, init},
    {"E02", ENGINE_RULE, prop<1>, 20000, 600000, init},
    {"E03", ENGINE_RULE, prop<2>, 16000, 500000, init},
    {"E04", ENGINE_RULE, prop<3>, 16000, 500000, initBoth},
    {"S01", ENGINE_RULE, prop<4>, 4000, 100000, init},
    {"S02", ENGINE_RULE, prop<5>, 4000, 100000, init},
    {"S03", ENGINE_RULE, prop<6>, 4000, 100000, init},
    {"S04", ENGINE_RULE, prop<7>, 4000, 100000, init},
    {"S05", ENGINE_RULE, prop<8>, 4000, 100000, init},
    {"S06", ENGINE_RULE, prop<9>, 4000, 100000, init},
    {"S07", ENGINE_RULE, prop<10>, 4000, 100000, init},
    {"S08", ENGINE_RULE, prop<11>, 4000, 100000, init},
    {"F01", ENGINE_RULE, prop<12>, 3000, 60000, init},
    {"L01", ENGINE_RULE, prop<14>, 12000, 400000, initLanguages},
    {"C01", ENGINE_RULE, prop<13>, 6000, 200000, initAbroad},
};
