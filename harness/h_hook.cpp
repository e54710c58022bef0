// H01: the script that is run after a phrase was added (data/add-phrase-hook.sh)
// records the user directory in git.  Histories of edits and runs on up to two
// machines that share a repository; everything happens in the worker's scratch
// directory, as an unprivileged user.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"

namespace {
namespace fs = std::filesystem;
using pbt::Ctx;
using pbt::Source;

using Files = std::map<std::string, std::string>;

std::vector<std::string> linesOf(const std::string& t) {
  std::vector<std::string> o;
  std::string l;
  for (char ch : t) {
    if (ch == '\n') { o.push_back(l); l.clear(); }
    else l += ch;
  }
  if (!l.empty()) o.push_back(l);
  return o;
}
bool keepsInOrder(const std::vector<std::string>& part, const std::vector<std::string>& all) {
  size_t i = 0;
  for (auto& x : all)
    if (i < part.size() && part[i] == x) ++i;
  return i == part.size();
}
std::string slurp(const std::string& p) {
  std::ifstream i(p, std::ios::binary);
  std::stringstream b;
  b << i.rdbuf();
  return b.str();
}

struct World {
  Source& s;
  Ctx& c;
  std::string root;
  bool nobody = geteuid() == 0;
  bool shared = false;
  size_t runs = 0, commits = 0, merges = 0, conflicts = 0;

  World(Source& s_, Ctx& c_) : s(s_), c(c_), root(c_.scratch + "/h") {
    std::error_code e;
    fs::remove_all(root, e);
    fs::create_directories(root);
    fs::create_directories(root + "/home");
    std::ofstream(root + "/home/.gitconfig") << "[user]\n name = u\n email = u@example.org\n[init]\n defaultBranch = master\n[gc]\n auto = 0\n[core]\n fsync = none\n";
    hand(root + "/home");
    hand(root);
    // The directories above are this check's own; let the unprivileged user pass.
    for (std::string d = c.scratch; fs::path(d).has_filename() && d != "/tmp" && d.rfind("/tmp/", 0) == 0; d = fs::path(d).parent_path()) chmod(d.c_str(), 0711);
    std::ofstream(root + "/hook.sh", std::ios::binary) << installed();
  }
  // The script as it is installed: the build copies it with configure_file,
  // which replaces what looks like one of its variables.
  const std::string& installed() {
    static std::string text;
    if (!text.empty()) return text;
    text = slurp(std::string(REPO_DIR) + "/data/add-phrase-hook.sh");
    std::string rule;
    for (auto& l : linesOf(slurp(std::string(REPO_DIR) + "/CMakeLists.txt"))) {
      size_t at = l.find_first_not_of(" \t");
      if (at != std::string::npos && l.compare(at, 15, "configure_file(") == 0 && l.find("data/add-phrase-hook.sh") != std::string::npos) rule = l;
    }
    if (rule.empty()) return text;
    std::string d = root + "/build";
    fs::create_directories(d + "/data");
    std::ofstream(d + "/data/add-phrase-hook.sh", std::ios::binary) << text;
    std::ofstream(d + "/rule.cmake") << "set(FCITX_INSTALL_PKGDATADIR /nowhere)\nset(CMAKE_CURRENT_SOURCE_DIR .)\nset(CMAKE_CURRENT_BINARY_DIR .)\n" << rule << "\n";
    for (auto& e : fs::recursive_directory_iterator(d)) hand(e.path());
    hand(d);
    hand(root);
    std::string out;
    if (run(d, {"cmake", "-P", "rule.cmake"}, &out)) { fprintf(stderr, "cmake -P failed: %s\n", out.c_str()); abort(); }
    for (auto& e : fs::directory_iterator(d))
      if (e.path().filename() != "rule.cmake" && e.is_regular_file()) text = slurp(e.path());
    return text;
  }
  ~World() {
    std::error_code e;
    fs::remove_all(root, e);
  }
  void hand(const std::string& p) {
    if (nobody && lchown(p.c_str(), 65534, 65534)) {}
  }
  // Runs a command in dir; output goes to *out.
  int run(const std::string& dir, const std::vector<std::string>& argv, std::string* out = nullptr) {
    int pp[2];
    if (pipe2(pp, O_CLOEXEC)) { perror("pipe"); abort(); }
    std::string path = getenv("PATH") ? getenv("PATH") : "/usr/local/bin:/usr/bin:/bin";
    std::vector<std::string> env = {"PATH=" + path, "HOME=" + root + "/home", "GIT_CONFIG_NOSYSTEM=1", "GIT_CEILING_DIRECTORIES=" + root, "GIT_TERMINAL_PROMPT=0",
                                    "GIT_EDITOR=true", "LC_ALL=C.UTF-8", "GIT_AUTHOR_DATE=1700000000 +0000", "GIT_COMMITTER_DATE=1700000000 +0000"};
    std::vector<char*> av, ev;
    for (auto& a : argv) av.push_back(const_cast<char*>(a.c_str()));
    for (auto& a : env) ev.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    ev.push_back(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      if (nobody && (setgid(65534) || setuid(65534))) _exit(126);
      if (chdir(dir.c_str())) _exit(125);
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      dup2(pp[1], 1);
      dup2(pp[1], 2);
      alarm(40);
      execvpe(av[0], av.data(), ev.data());
      _exit(127);
    }
    close(pp[1]);
    std::string all;
    char buf[4096];
    ssize_t n;
    while ((n = read(pp[0], buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
    close(pp[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (out) *out = all;
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (rc == 125 || rc == 126 || rc == 127) {
      fprintf(stderr, "cannot run %s here (%d): %s\n", argv[0].c_str(), rc, all.c_str());
      abort();
    }
    return rc;
  }
  std::string git(const std::string& dir, std::vector<std::string> a, int* rc = nullptr) {
    a.insert(a.begin(), "git");
    std::string o;
    int r = run(dir, a, &o);
    if (rc) *rc = r;
    while (!o.empty() && o.back() == '\n') o.pop_back();
    return o;
  }
  Files files(const std::string& dir) {
    Files o;
    for (auto it = fs::recursive_directory_iterator(dir); it != fs::recursive_directory_iterator(); ++it) {
      std::string n = fs::relative(it->path(), dir);
      if (n == ".git") it.disable_recursion_pending();
      else if (!it->is_directory()) o[n] = it->is_regular_file() ? slurp(it->path()) : "(not a file)";
    }
    return o;
  }
  void put(const std::string& dir, const std::string& n, const std::string& t) {
    if (std::string d = fs::path(dir + "/" + n).parent_path(); !fs::exists(d)) {
      fs::create_directories(d);
      hand(d);
    }
    { std::ofstream(dir + "/" + n, std::ios::binary) << t; }
    hand(dir + "/" + n);
  }
};

const std::vector<std::string> kNames = {"data.txt", "exclude-phrases.txt", "phrases-replacement.txt", "my notes.txt", "-x", ".hidden", "old/data.txt", "old/注音.txt"};

std::string phrase(Source& s) {
  static const std::vector<std::string> bits = {"麥", "注音", "a", " ", "$(touch pwned)", "`touch pwned`", "\"", "'", "\\", "$1", "*", "-m", "--amend", ";touch pwned", "|", "&", "#", "%s", "!", "\t", "𠮷"};
  std::string o;
  size_t n = 1 + s.below(4);
  for (size_t i = 0; i < n; ++i) o += bits[s.below(bits.size())];
  return o;
}

void hook(Source& s, Ctx& c) {
  World w(s, c);
  // How the directory starts out: without a repository, with one, or shared.
  const size_t start = s.weighted({3, 1, 4});
  w.shared = start == 2;
  std::vector<std::string> machines = {w.root + "/A"};
  fs::create_directories(machines[0]);
  w.hand(machines[0]);
  const bool given = s.chance(3, 4);
  if (given) {
    std::string text = "# phrases\n";
    if (s.chance(1, 4))
      for (size_t i = 20 + s.below(400); i > 0; --i) text += pbt::cat("詞語", i, " ㄘˊ-ㄩˇ\n");
    w.put(machines[0], "data.txt", text);
  }
  bool emptyRemote = false;
  if (start >= 1) w.git(machines[0], {"init", "-q", "-b", "master"});
  if (w.shared) {
    fs::create_directories(w.root + "/R");
    w.hand(w.root + "/R");
    w.git(w.root + "/R", {"init", "-q", "--bare", "-b", "master"});
    w.git(machines[0], {"remote", "add", "origin", w.root + "/R"});
    emptyRemote = s.chance(1, 4);
    if (!emptyRemote) {
      w.git(machines[0], {"add", "."});
      w.git(machines[0], {"commit", "-q", "--allow-empty", "-m", "start"});
      w.git(machines[0], {"push", "-q", "origin", "master"});
      w.git(w.root, {"clone", "-q", w.root + "/R", "B"});
      machines.push_back(w.root + "/B");
    }
  }
  c.log(start == 0 ? "no repository yet" : start == 1 ? "a repository of its own" : emptyRemote ? "an empty shared repository" : "two machines with a shared repository");
  size_t n = 0;
  uint64_t serial = 0;
  while (s.more(n, 5, 14)) {
    ++n;
    const size_t mi = s.below(machines.size());
    const std::string& dir = machines[mi];
    const std::string who = mi ? "B" : "A";
    // The user's files change: lines are added at the end or elsewhere.
    size_t edits = s.weighted({1, 6, 2});
    for (size_t i = 0; i < edits; ++i) {
      std::string f = s.chance(3, 4) ? kNames[0] : s.pick(kNames);
      std::string t = slurp(dir + "/" + f);
      auto ls = linesOf(t);
      std::string line = pbt::cat("詞", serial++, " ㄘˊ");
      size_t at = s.chance(1, 3) ? s.below(ls.size() + 1) : ls.size();
      ls.insert(ls.begin() + static_cast<long>(at), line);
      std::string o;
      for (auto& l : ls) o += l + "\n";
      if (s.chance(1, 8)) o.pop_back();
      w.put(dir, f, o);
      c.log(who, ": line ", at, " of ", f, " is now ", line, o.back() == '\n' ? "" : " (no newline)");
    }
    // A file goes away (on two machines that is a matter for the user).
    if (!w.shared && s.chance(1, 6)) {
      Files now = w.files(dir);
      if (now.size() > 1) {
        auto it = now.begin();
        std::advance(it, static_cast<long>(s.below(now.size())));
        fs::remove(dir + "/" + it->first);
        c.log(who, ": ", it->first, " is removed");
      }
    }
    const std::string ph = phrase(s);
    const Files before = w.files(dir);
    int rc = 0;
    std::string headBefore = w.git(dir, {"rev-parse", "-q", "--verify", "HEAD"}, &rc);
    if (rc) headBefore.clear();
    const bool changed = before.empty() ? false : headBefore.empty() || !w.git(dir, {"status", "--porcelain"}).empty();
    std::string remoteBefore = w.shared ? w.git(w.root + "/R", {"rev-parse", "-q", "--verify", "master"}, &rc) : "";
    if (rc) remoteBefore.clear();
    bool news = false;  // the other machine has pushed something
    Files remoteFiles;
    if (!remoteBefore.empty()) {
      w.git(w.root + "/R", {"merge-base", "--is-ancestor", remoteBefore, headBefore.empty() ? "0000" : headBefore}, &rc);
      news = rc != 0 || headBefore.empty();
      for (auto& f : linesOf(w.git(w.root + "/R", {"-c", "core.quotePath=false", "ls-tree", "-r", "--name-only", "master"}))) remoteFiles[f] = w.git(w.root + "/R", {"show", "master:" + f});
    }
    std::string out;
    int hrc = w.run(dir, {"/bin/sh", w.root + "/hook.sh", ph}, &out);
    ++w.runs;
    const Files after = w.files(dir);
    c.log(who, ": hook with '", ph, "' -> ", hrc, news ? " (the other machine has pushed)" : "");
    if (c.tracing && hrc) c.log(out);
    // Nothing of the user's is lost or damaged.
    if (!news) {
      PBT_CHECK(after == before, "files-changed", "the hook changed the files in the user directory");
    } else {
      for (auto& f : before) {
        auto it = after.find(f.first);
        PBT_CHECK(it != after.end(), "file-lost", f.first, " is gone");
        auto had = linesOf(f.second), have = linesOf(it->second);
        PBT_CHECK(keepsInOrder(had, have), "line-lost", f.first, " was\n", f.second, "and is now\n", it->second);
      }
      for (auto& f : after) {
        auto have = linesOf(f.second), had = linesOf(before.count(f.first) ? before.at(f.first) : ""), theirs = linesOf(remoteFiles.count(f.first) ? remoteFiles.at(f.first) : "");
        for (auto& l : have)
          PBT_CHECK(std::count(had.begin(), had.end(), l) || std::count(theirs.begin(), theirs.end(), l), "foreign-line", f.first, " has a line that no machine wrote: '", l, "'\n", f.second);
      }
    }
    // Everything is recorded, under the phrase.
    std::string head = w.git(dir, {"rev-parse", "-q", "--verify", "HEAD"}, &rc);
    if (rc) head.clear();
    PBT_CHECK(fs::is_directory(dir + "/.git"), "no-repository", "the user directory has no repository after the hook");
    PBT_CHECK(w.git(dir, {"symbolic-ref", "-q", "--short", "HEAD"}) == "master", "not-on-master", "not on the master branch after the hook:\n", w.git(dir, {"status"}));
    std::string left = w.git(dir, {"status", "--porcelain"});
    PBT_CHECK(left.empty(), "not-recorded", "not recorded after the hook: ", left);
    PBT_CHECK(!fs::exists(dir + "/.git/rebase-merge") && !fs::exists(dir + "/.git/rebase-apply") && !fs::exists(dir + "/.git/MERGE_HEAD"), "half-done", "a merge is left half done");
    if (changed) {
      ++w.commits;
      PBT_CHECK(!head.empty() && head != headBefore, "no-commit", "nothing was committed");
      std::string msg = w.git(dir, {"log", "-1", "--format=%B"}), want = "Add " + ph;
      while (!want.empty() && strchr(" \t\n", want.back())) want.pop_back();
      PBT_CHECK(msg == want, "message", "the commit is called '", msg, "', expected '", want, "'");
    } else if (!news) {
      PBT_CHECK(head == headBefore, "needless-commit", "a commit was made although nothing had changed");
    }
    if (!headBefore.empty() && !news) {
      w.git(dir, {"merge-base", "--is-ancestor", headBefore, head}, &rc);
      PBT_CHECK(rc == 0, "history-lost", "the earlier commits are gone");
    }
    if (w.shared && !head.empty()) {
      std::string r = w.git(w.root + "/R", {"rev-parse", "-q", "--verify", "master"}, &rc);
      if (rc) r.clear();
      const bool same = r == head;
      if (!news) PBT_CHECK(same, "not-pushed", "the shared repository does not have the commit");
      if (news) {
        ++(same ? w.merges : w.conflicts);
        c.label(same ? "merged with the other machine" : "conflict with the other machine");
        // Without a conflict the two must have been brought together.
        if (!same) {
          bool overlap = false;
          for (auto& f : before)
            if (remoteFiles.count(f.first) && f.second != remoteFiles[f.first] && f.second != remoteFiles[f.first] + "\n") overlap = true;
          PBT_CHECK(overlap, "not-merged", "the changes of the two machines are in different files and were not brought together");
        }
        if (!remoteBefore.empty()) {
          w.git(w.root + "/R", {"merge-base", "--is-ancestor", remoteBefore, r.empty() ? "0000" : r}, &rc);
          PBT_CHECK(rc == 0, "shared-history-lost", "commits of the other machine are gone from the shared repository");
        }
      }
    }
    c.mix(static_cast<uint64_t>(changed) * 4 + static_cast<uint64_t>(news) * 2 + mi);
    c.mix(ph);
  }
  if (w.runs) c.label(start == 0 ? "fresh directory" : w.shared ? "shared repository" : "own repository");
  if (w.commits >= 2 || w.merges || w.conflicts) c.interesting();
}

}  // namespace

const std::vector<pbt::Property> pbt::kProperties = {
    {"H01", "a case is a start (no repository, one, or one shared by two machines) and a history of edits and runs of the hook; non-trivial when at least two runs had something to record, or one met changes of the other machine", hook, 480, 16000, nullptr, 120},
};
