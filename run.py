#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, explores, writes evidence/<id>.json, reports.  Usage: run.py ID"""
import json, os, re, shlex, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from props import PROPS

CXX = "g++"
BASE = ["-std=c++11", "-g", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", "-I" + REPO + "/include", "-I" + V + "/kit", "-D_REENTRANT"]
MODES = {
    # sequential / single-threaded-world harnesses: AddressSanitizer
    "asan": (["-O1", "-fsanitize=address"], ["-fsanitize=address", "-lpthread", "-ldl", "-lrt"]),
    # controlled scheduler, every instrumented memory access reported to kit/tsanrt.cpp
    "mem": (["-O1", "-fsanitize=thread", "-fno-inline-small-functions"], ["-lpthread", "-ldl", "-lrt", "-rdynamic"]),
    "plain": (["-O1"], ["-lpthread", "-ldl", "-lrt"]),
}
KITPLAIN = {"mc.cpp", "mcrt.cpp", "tsanrt.cpp"}

def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        log.append(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.returncode == 0

def build(bdir, bins, cxx=CXX):
    jobs, links, log = [], [], []
    for b in bins:
        cf, lf = MODES[b["mode"]]
        objs = []
        odir = os.path.join(bdir, b["name"] + ".o")
        os.makedirs(odir, exist_ok=True)
        srcs = [(os.path.join(V, s), True) for s in b["src"]] + [(os.path.join(REPO, "src", s), False) for s in b.get("repo", [])]
        for s in b.get("kit", ["mc.cpp"]):
            srcs.append((os.path.join(V, "kit", s), True))
        for s, _ in srcs:
            o = os.path.join(odir, os.path.basename(s) + ".o")
            flags = list(BASE)
            if os.path.basename(s) in KITPLAIN and "/kit/" in s:
                flags += ["-O2"]
                if b["mode"] == "asan": flags += ["-DMC_ASAN"]
                if b["mode"] == "mem": flags += ["-DMC_MEM"]
            else:
                flags += cf + b.get("cflags", [])
                if b["mode"] == "mem": flags += ["-DMC_MEM"]
            jobs.append([cxx] + flags + ["-c", s, "-o", o]); objs.append(o)
        links.append([cxx] + objs + ["-o", os.path.join(bdir, b["name"])] + lf + b.get("ldflags", []))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        if not all(ex.map(lambda c: sh(c, log), jobs)): return log
        if not all(ex.map(lambda c: sh(c, log), links)): return log
    return None

def load_known(pid):
    known = []
    path = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) sig="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    return known

def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    keep = "--keep" in sys.argv
    t0 = time.time()
    root = os.path.join(V, "build"); os.makedirs(root, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=root)
    try:
        return check(pid, cfg, tier, seed, bdir, t0)
    finally:
        if not keep: shutil.rmtree(bdir, ignore_errors=True)
        else: print("kept", bdir)

def check(pid, cfg, tier, seed, bdir, t0):
    err = build(bdir, cfg["bins"])
    if err is not None:
        print("BUILD FAILED for %s\n%s" % (pid, "\n".join(err))); return 2
    tb = time.time()
    known = load_known(pid)
    knownsigs = {k for k, _ in known}
    tot = dict(executions=0, nontrivial=0, transitions=0, states=0)
    spaces, samples, rules, viols = [], [], [], []
    exhaustive = True; capped = False
    limit = 600 if tier == "quick" else 3000
    for b in cfg["bins"]:
        out = os.path.join(bdir, b["name"] + ".json")
        left = max(20, limit - (time.time() - t0))
        cmd = [os.path.join(bdir, b["name"]), "--out", out, "--workers", str(b.get("workers", 8)), "--tier", tier, "--seed", str(seed), "--deadline", "%d" % left]
        for k in knownsigs: cmd += ["--known", k]
        env = dict(os.environ); env["LC_ALL"] = "C"; env["TZ"] = b.get("tz", "UTC")
        if b["mode"] == "asan": env.pop("ASAN_OPTIONS", None)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        sys.stderr.write(p.stderr[-6000:])
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("HARNESS ERROR %s rc=%s\n%s%s" % (b["name"], p.returncode, p.stdout[-2000:], p.stderr[-3000:])); return 2
        r = json.load(open(out))
        for k in tot: tot[k] += r[k]
        for s in r["spaces"]: s["harness"] = b["name"]; spaces.append(s)
        samples += r["samples"]; rules.append(b["name"] + ": " + r["rule"])
        exhaustive &= r["exhausted"]; capped |= r["states_capped"]
        for v in r["violations"]: v["bin"] = b["name"]; viols.append(v)
    unknown = [v for v in viols if v["sig"] not in knownsigs]
    hit = {v["sig"] for v in viols}
    for k, what in known:
        if k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["executions"],
            "evaluations": tot["executions"], "distinct_nontrivial": tot["nontrivial"],
            "rule": " | ".join(rules) + " | Every execution is a different choice sequence of an exhaustive depth-first enumeration, so executions are distinct; states are distinct fingerprints of observed state" + (" (table full: lower bound)" if capped else "") + "; transitions are operations/scheduling steps executed on the real code in lock-step with the reference model.",
            "exhaustive": bool(exhaustive and not viols), "spaces": spaces, "samples": samples[:12],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unknown),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d executions (%d non-trivial), %d states, %d transitions, exhaustive=%s, build %.1fs total %.1fs" % (pid, tot["executions"], tot["nontrivial"], tot["states"], tot["transitions"], exhaustive, tb - t0, time.time() - t0))
    if unknown:
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(unknown):
            path = os.path.join(rd, "%s-%d.txt" % (pid, i))
            with open(path, "w") as f:
                f.write("property %s\nharness %s space %s\nkind %s (reproduced in a fresh process: %s)\n%s\n\nreplay: cd /verif && python3 replay.py %s %s '%s:%s'\n\ntrace:\n%s\n" % (
                    pid, v["bin"], v["space"], v["sig"], v["repro"], v["msg"], pid, v["bin"], v["space"], v["trail"], v["log"]))
            print("  %s: %s" % (v["sig"], v["msg"].split("\n")[0][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
