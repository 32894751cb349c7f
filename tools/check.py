#!/usr/bin/env python3
"""Build and run the check of one property:  tools/check.py C10 [quick|thorough]

Rebuilds the harnesses from /repo's working tree (cached under build/ by content hash), runs each part for
its time budget, writes evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines.
Exit: 0 held, 1 violation, 2 error of the check."""
import hashlib, json, os, re, subprocess, sys, time, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks_table import CHECKS
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")

INC = ["-I" + REPO + "/include", "-I" + VERIF + "/lib/vsched", "-I" + VERIF + "/harness"]
MODES = {
    # compile flags, runtime object source, runtime flags, link flags
    "vsched": (["clang++", "-std=c++20", "-O1", "-g1", "-w", "-pthread", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
               "lib/vsched/vsched.cpp", ["clang++", "-std=c++20", "-O2", "-g1", "-w"], ["clang++", "-pthread", "-ldl", "-latomic"]),
    "asan": (["clang++", "-std=c++20", "-O1", "-g1", "-w", "-pthread", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function"],
             "lib/vsched/seqfuzz.cpp", ["clang++", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined"], ["clang++", "-pthread", "-fsanitize=address,undefined"]),
    "plain": (["clang++", "-std=c++20", "-O2", "-g1", "-w", "-pthread"],
              "lib/vsched/seqfuzz.cpp", ["clang++", "-std=c++20", "-O1", "-g1", "-w"], ["clang++", "-pthread"]),
    "gcc": (["g++", "-std=c++20", "-O1", "-g1", "-w", "-pthread"],
            "lib/vsched/seqfuzz.cpp", ["g++", "-std=c++20", "-O1", "-g1", "-w"], ["g++", "-pthread"]),
}

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try: h.update(open(p, "rb").read())
                except OSError: pass
    return h.hexdigest()

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_one(src, obj, cmd):
    r = run(cmd + ["-c", src, "-o", obj])
    return (r.returncode, src, r.stdout)

def build(parts, tier):
    """returns {part name: binary}"""
    stamp = tree_hash([REPO + "/include", REPO + "/src", VERIF + "/lib", VERIF + "/harness"])
    jobs, bins, links = [], {}, []
    os.makedirs(BUILD, exist_ok=True)
    seen = {}
    for p in parts:
        if "cmd" in p: continue
        mode = p.get("mode", "vsched")
        cflags, rt, rtcmd, lcmd = MODES[mode]
        key = hashlib.sha256(json.dumps([stamp, mode, p["src"], p.get("flags", []), p.get("link", []), cflags, lcmd]).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, p["name"] + "-" + key)
        bins[p["name"]] = out
        if os.path.exists(out): continue
        objs = []
        def add(src, cmd, objn):
            obj = os.path.join(BUILD, objn)
            if obj not in seen:
                seen[obj] = True; jobs.append((src, obj, cmd))
            objs.append(obj)
        for s in p["src"]:
            full = s if s.startswith("/") else (REPO + "/" + s[5:] if s.startswith("repo:") else VERIF + "/" + s)
            if s.startswith("repo:"): full = REPO + "/" + s[5:]
            add(full, cflags + INC + p.get("flags", []), re.sub(r"\W", "_", s) + "-" + key + ".o")
        add(VERIF + "/" + rt, rtcmd + INC, os.path.basename(rt) + "-" + mode + "-" + stamp[:20] + ".o")
        links.append((p["name"], lcmd[:1] + objs + p.get("link", []) + lcmd[1:] + ["-o", out + ".tmp"], out))
    if jobs:
        with cf.ThreadPoolExecutor(8) as ex:
            for rc, src, txt in ex.map(lambda j: compile_one(*j), jobs):
                if rc:
                    print("ERROR: cannot compile %s\n%s" % (src, txt[:6000])); sys.exit(2)
    for name, cmd, out in links:
        r = run(cmd)
        if r.returncode:
            print("ERROR: cannot link %s\n%s" % (name, r.stdout[:4000])); sys.exit(2)
        os.rename(out + ".tmp", out)
    for _, obj, _ in jobs:
        try: os.unlink(obj)
        except OSError: pass
    # drop stale binaries of the same part
    for n, b in bins.items():
        for f in os.listdir(BUILD):
            if f.startswith(n + "-") and os.path.join(BUILD, f) != b and re.match(re.escape(n) + r"-[0-9a-f]{20}$", f):
                try: os.unlink(os.path.join(BUILD, f))
                except OSError: pass
    return bins

def known_for(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) name=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_for(pid)
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    t_b = time.time()
    bins = build(parts, tier)
    build_s = time.time() - t_b
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=spec["rule"], samples=[], parts={}, labels={}, build_s=round(build_s, 1))
    viol, errs, khits = [], [], {}
    for p in parts:
        out = os.path.join(BUILD, "%s-%s-%d.json" % (pid, p["name"], os.getpid()))
        secs = p["secs"][0 if tier == "quick" else 1]
        if "cmd" in p:
            cmd = [c.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for c in p["cmd"]] + ["--seed", str(seed), "--seconds", str(secs), "--out", out, "--replaydir", REPLAYS, "--prop", pid, "--tier", tier]
        else:
            cmd = [bins[p["name"]], "--seed", str(seed), "--seconds", str(secs), "--out", out, "--replaydir", REPLAYS, "--prop", pid] + p.get("args", [])
        for (n, rx, _) in known: cmd += ["--known", n + "::" + rx]
        try:
            r = run(cmd, timeout=secs + (420 if tier == "quick" else 3000))
        except subprocess.TimeoutExpired as e:
            errs.append("%s: timed out" % p["name"]); continue
        sys.stdout.write("--- %s\n%s" % (p["name"], r.stdout[-8000:])); sys.stdout.flush()
        d = {}
        try: d = json.load(open(out)); os.unlink(out)
        except Exception as e: errs.append("%s: no result (%s), exit %d" % (p["name"], e, r.returncode))
        cov["evaluations"] += d.get("evaluations", 0); cov["distinct_nontrivial"] += d.get("distinct_nontrivial", 0)
        cov["samples"] += d.get("samples", [])[:6]
        for k, v in d.get("labels", {}).items(): cov["labels"][k] = cov["labels"].get(k, 0) + v
        for k, v in d.get("known", {}).items(): khits[k] = khits.get(k, 0) + v
        cov["parts"][p["name"]] = {k: v for k, v in d.items() if k not in ("labels", "samples", "failures", "known")}
        for f in d.get("failures", []): viol.append(f)
        if r.returncode not in (0, 1): errs.append("%s: exit %d" % (p["name"], r.returncode))
        if r.returncode == 1 and not d.get("failures"): errs.append("%s: exit 1 without a failure" % p["name"])
    for (n, rx, txt) in known:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, txt, khits.get(n + "::" + rx, khits.get(n, 0))))
    cov["samples"] = cov["samples"][:12]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not cov["samples"]: cov["samples"] = ["(none)"]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viol:
        for f in viol: print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
        sys.exit(1)
    if errs:
        print("ERROR: " + "; ".join(errs)); sys.exit(2)
    print("OK %s: %d cases, %d distinct non-trivial, %.0fs" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    sys.exit(0)
main()
