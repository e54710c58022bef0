// The languages and regions a desktop may be set to: compiled next to the
// binaries by tools/mklocales.sh, with the C library's own tools.
#ifndef VERIF_LOCALES_H_
#define VERIF_LOCALES_H_
#include <limits.h>
#include <locale.h>
#include <stdlib.h>
#include <unistd.h>

#include <string>
#include <vector>

struct Locales {
  // "C" stands for those that could not be compiled.
  std::vector<std::string> names;
  static Locales& get() {
    static Locales l;
    return l;
  }
  // Directory of the compiled locales.
  void load() {
    char exe[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::string d(exe, n > 0 ? static_cast<size_t>(n) : 0);
    d.resize(d.rfind('/') == std::string::npos ? 0 : d.rfind('/'));
    setenv("LOCPATH", (d + "/locales").c_str(), 1);
    setenv("LANGUAGE", "C", 1);  // messages are another matter
    for (const char* l : {"de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "zh_TW.UTF-8", "ps_AF", "fa_IR", "zh_TW", "de_DE", "tr_TR"})
      names.push_back(newlocale(LC_ALL_MASK, l, nullptr) ? l : "C");  // kept, so that it stays in memory
  }
};

// The process in another locale, for a while.
struct Abroad {
  std::string back;
  explicit Abroad(const std::string& l) {
    if (l.empty()) return;
    back = setlocale(LC_ALL, nullptr);
    setlocale(LC_ALL, l.c_str());
    setenv("LC_ALL", l.c_str(), 1);
  }
  ~Abroad() {
    if (back.empty()) return;
    setlocale(LC_ALL, back.c_str());
    setenv("LC_ALL", "C.UTF-8", 1);
  }
  Abroad(const Abroad&) = delete;
  Abroad& operator=(const Abroad&) = delete;
};
#endif
