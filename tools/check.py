#!/usr/bin/env python3
"""Decides one property: builds its harness from /repo's working tree, runs the
generated-input search, writes evidence/<ID>.json.

usage: check.py ID [--tier quick|thorough] [--cases N] [--seed N]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the harness could not be built or run (an error of the check)."""
import argparse, fcntl, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from registry import HARNESS, ASSUMPTIONS

VERIF = B.VERIF


def known_findings(pid):
    """Entries 'known: property=<id> match=<regex> :: <what fails>'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known:\s+property=(\S+)\s+match=(\S+)\s+::\s+(.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS") or os.cpu_count() or 8))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.id
    t0 = time.time()
    os.makedirs(B.OUT, exist_ok=True)
    with open(os.path.join(B.OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = B.build(HARNESS[pid])
    if rc != 0:
        sys.stderr.write(out[-6000:])
        sys.stderr.write("\ncheck %s: the harness does not build against the current tree\n" % pid)
        return 2
    build_s = time.time() - t0
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    replay = os.path.join(VERIF, "replays", pid + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    budget = 420 if a.tier == "quick" else 5400
    parts, rc = [], 0
    for h in HARNESS[pid]:
        res_path = os.path.join(B.OUT, "result-%s-%s-%d.json" % (pid, h, os.getpid()))
        cmd = [os.path.join(B.OUT, h), "--prop", pid, "--seed", str(a.seed),
               "--workers", str(a.workers), "--out", res_path, "--replay-out", replay,
               "--budget", str(budget // len(HARNESS[pid])), "--shrink-budget", "60"]
        if a.tier == "thorough":
            cmd.append("--thorough")
        if a.cases:
            cmd += ["--cases", str(a.cases)]
        env = dict(os.environ, LC_ALL="C.UTF-8")
        r = subprocess.run(cmd, env=env, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1, 3) or not os.path.exists(res_path):
            sys.stderr.write(r.stderr[-4000:])
            sys.stderr.write("\ncheck %s: harness error in %s, status %d\n" % (pid, h, r.returncode))
            return 2
        res = json.load(open(res_path, encoding="utf-8"))
        os.remove(res_path)
        parts.append((h, res))
        if r.returncode == 3:
            # A failure that does not recur when replayed alone or with its history
            # is not believed; it is recorded, not reported.
            sys.stderr.write(r.stderr[-3000:])
        if r.returncode == 1:
            rc = 1
            break
    failure = next((res["failure"] for _, res in parts if res.get("failure")), None)
    violation = rc == 1
    if violation:
        failure = parts[-1][1]["failure"]
    total = lambda k: sum(res[k] for _, res in parts)
    labels = {}
    for h, res in parts:
        for k, v in res["labels"].items():
            k = k if len(parts) == 1 else "%s: %s" % (h, k)
            labels[k] = labels.get(k, 0) + v
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": total("evaluations"),
            "distinct_nontrivial": total("distinct_nontrivial"),
            "nontrivial": total("nontrivial"),
            "discarded": total("discarded"),
            "planned": total("planned"),
            "budget_hit": any(res["budget_hit"] for _, res in parts),
            "rule": " | ".join(dict.fromkeys(res["rule"] for _, res in parts)),
            "labels": labels,
            "samples": [x for _, res in parts for x in res["samples"]] or ["(none)"],
            "parts": {h: {k: res[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "search_s")} for h, res in parts},
            "search_s": round(total("search_s"), 2),
            "build_s": round(build_s, 2),
        },
        "assumptions": ASSUMPTIONS.get(pid, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if failure:
        ev["coverage"]["failure"] = failure
    if not a.no_evidence:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
            f.write("\n")
    for match, what in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: %d cases (%d non-trivial, %d distinct), %.1f s search, %.1f s build" % (
        pid, total("evaluations"), total("nontrivial"), total("distinct_nontrivial"), total("search_s"), build_s))
    if violation:
        print("%s: oracle %s: %s" % (pid, failure["oracle"], failure["detail"]))
        if failure.get("trace"):
            print(failure["trace"][-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
