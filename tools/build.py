#!/usr/bin/env python3
"""Generates /verif/build/build.ninja from /repo's current sources and builds
the requested harness binaries.  Usage: build.py [target ...]"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INC = " ".join("-I" + os.path.join(REPO, d) for d in
               ["src", "src/Engine", "src/Engine/gramambular2", "src/Engine/Mandarin", "src/ChineseNumbers"])
INC += (" -isystem /usr/include/Fcitx5/Core -isystem /usr/include/Fcitx5/Config"
        " -isystem /usr/include/Fcitx5/Utils -isystem /usr/include/Fcitx5/Module"
        " -isystem /usr/include/Fcitx5/Module/fcitx-module/notifications"
        " -isystem /usr/include/json-c -I%s/harness" % VERIF)
SAN = ("-fsanitize=address,undefined -fno-sanitize-recover=all"
       " -fno-sanitize=vptr,function,unsigned-integer-overflow -fno-omit-frame-pointer")
BASE = ("-std=c++17 -O1 -g1 -Wall -Wno-unknown-pragmas -Wno-unused-function"
        " -D_GLIBCXX_ASSERTIONS -DFMT_SHARED"
        " '-DFCITX_GETTEXT_DOMAIN=\"fcitx5-mcbopomofo\"' '-DREPO_DIR=\"%s\"' '-DVERIF_DIR=\"%s\"' " % (REPO, VERIF)) + INC
LIBS = ("-lFcitx5Core -lFcitx5Config -lFcitx5Utils -ljson-c -lfmt -licui18n -licuuc -licudata -ldl -lpthread")


def sources():
    src = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                stem = os.path.splitext(f)[0]
                if stem.endswith(("Test", "_test", "Tests", "Benchmark", "_benchmark")):
                    continue
                src.append(os.path.join(root, f))
    return src


def generate():
    os.makedirs(OUT, exist_ok=True)
    L = ["ninja_required_version = 1.8", "builddir = %s" % OUT,
         "cxx = clang++",
         "rule cxx", "  command = $cxx %s %s $flags -MMD -MF $out.d -c $in -o $out" % (BASE, SAN),
         "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule ar", "  command = rm -f $out && ar crs $out $in", "  description = AR $out",
         "rule link", "  command = $cxx %s -o $out $in $libs %s" % (SAN, LIBS),
         "  description = LINK $out",
         "rule locales", "  command = sh %s/tools/mklocales.sh %s/locales" % (VERIF, OUT),
         "  description = LOCALES",
         "build %s/locales/.made: locales %s/tools/mklocales.sh" % (OUT, VERIF), ""]
    core, fcitx = [], []
    for s in sources():
        rel = os.path.relpath(s, REPO).replace("/", "_")
        o = os.path.join(OUT, "obj", rel + ".o")
        L.append("build %s: cxx %s" % (o, s))
        (fcitx if os.path.basename(s) == "McBopomofo.cpp" else core).append(o)
    L.append("build %s/libcore.a: ar %s" % (OUT, " ".join(core)))
    L.append("build %s/libaddon.a: ar %s" % (OUT, " ".join(fcitx)))
    pbt = os.path.join(OUT, "obj", "pbt.o")
    L.append("build %s: cxx %s/harness/pbt.cpp" % (pbt, VERIF))
    targets = []
    for h in sorted(glob.glob(os.path.join(VERIF, "harness", "h_*.cpp"))):
        name = os.path.splitext(os.path.basename(h))[0]
        ho = os.path.join(OUT, "obj", name + ".o")
        L.append("build %s: cxx %s" % (ho, h))
        exe = os.path.join(OUT, name)
        addon = "%s/libaddon.a " % OUT if name.startswith("h_engine") else ""
        L.append("build %s: link %s %s | %s%s/libcore.a || %s/locales/.made" % (exe, ho, pbt, addon, OUT, OUT))
        L.append("  libs = %s%s/libcore.a" % (addon, OUT))
        targets.append(exe)
    L.append("default " + " ".join(targets) if targets else "")
    text = "\n".join(L) + "\n"
    path = os.path.join(OUT, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def build(names):
    generate()
    cmd = ["ninja", "-C", OUT] + [os.path.join(OUT, n) for n in names]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


if __name__ == "__main__":
    rc, out = build(sys.argv[1:])
    if rc or os.environ.get("V"):
        sys.stdout.write(out[-8000:])
    sys.exit(rc)
