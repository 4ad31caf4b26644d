#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C01                  build what it needs from /repo's working tree, search, write evidence/C01.json
  run.py --replay FILE        build and run one saved case
  run.py --build-engine       compile the parts that do not depend on /repo (setup)
  run.py --list               properties and the harness of each

Exit 0: the property held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<file>" was printed.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick, thorough), VERIF_REPO (default /repo).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
JOBS = 8
SAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: [(compiler, harness flags, engine flags)], first that works
    "asan": [("clang++", SAN + ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"], SAN + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
             ("g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])],
    "tsan": [("clang++", SAN + ["-fsanitize=thread"], SAN + ["-fsanitize=thread"]), ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"])],
    "rel": [("g++", ["-O2", "-DNDEBUG"], ["-O2", "-DNDEBUG"]), ("clang++", ["-O2", "-DNDEBUG"], ["-O2", "-DNDEBUG"])],
}
STD = ["-std=gnu++20", "-pthread"]

# Per property: number of random cases of each build (quick), seconds of libFuzzer (quick)
DEFAULT = dict(asan=150000, rel=700000, fuzz=8)
BUDGET = json.load(open(os.path.join(HERE, "budget.json"))) if os.path.exists(os.path.join(HERE, "budget.json")) else {}

def log(*a): print(*a, flush=True)

def harnesses():
    m = {}
    for f in sorted(glob.glob(os.path.join(HERE, "props", "*.cpp"))):
        for i in re.findall(r"^#ifdef P_(C\d+)", open(f).read(), re.M): m[i] = f
    return m

def directive(src, name):
    r = re.findall(r"^// %s: (.*)$" % name, open(src).read(), re.M)
    return r[0].split() if r else []

def digest(*paths_or_strings):
    h = hashlib.sha256()
    for p in paths_or_strings:
        if isinstance(p, list): p = "\0".join(p)
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
        else: h.update(p.encode())
        h.update(b"\1")
    return h.hexdigest()[:24]

def repo_sources():
    out = []
    for d in ("include", "src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in fs]
    return sorted(out)

class BuildError(Exception):
    def __init__(self, text): self.text = text

def compile_cmd(cmd, out):
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident() % 100000)
    for attempt in range(3):
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(tmp, out); return
        # killed for memory or an internal failure of the compiler: try again
        if p.returncode > 0 and not re.search(r"Killed|internal compiler error|cannot allocate|No space left", p.stdout): break
        time.sleep(1)
    if os.path.exists(tmp): os.remove(tmp)
    raise BuildError("$ " + " ".join(cmd) + "\n" + p.stdout)

def engine_obj(variant, k, fuzz=False, more=()):
    cxx, _, eflags = VARIANTS[variant][k]
    src = os.path.join(HERE, "engine", "pbt_main.cpp")
    flags = STD + eflags + ["-DPBT_VARIANT=\"%s\"" % variant] + (["-DPBT_FUZZ"] if fuzz else []) + list(more)
    key = digest(src, os.path.join(HERE, "engine", "pbt.hpp"), [cxx] + flags)
    out = os.path.join(BUILD, "engine.%s%s.%s.o" % (variant, ".fuzz" if fuzz else "", key))
    if not os.path.exists(out): compile_cmd([cxx] + flags + ["-c", src], out)
    return out

def build(pid, src, variant):
    """Returns (driver binary, fuzz binary or None)."""
    os.makedirs(BUILD, exist_ok=True)
    errors = []
    for k, (cxx, hflags, eflags) in enumerate(VARIANTS[variant]):
        flags = STD + hflags + ["-DP_" + pid, "-isystem", os.path.join(REPO, "include"), "-I", HERE] + directive(src, "FLAGS")
        extra = [os.path.join(REPO, s) for s in directive(src, "SOURCES")]
        ldflags = directive(src, "LDFLAGS")
        hdrs = sorted(glob.glob(os.path.join(HERE, "engine", "*.hpp")) + glob.glob(os.path.join(HERE, "props", "*.hpp")))
        key = digest(src, [cxx] + flags + ldflags, *hdrs, *repo_sources())
        stem = os.path.join(BUILD, "%s.%s.%d.%s" % (pid, variant, k, key))
        want_fuzz = variant == "asan" and k == 0
        exe, fexe = stem + ".exe", stem + ".fuzz"
        try:
            if not os.path.exists(exe) or (want_fuzz and not os.path.exists(fexe)):
                objs = {}; errs = []
                def job(name, fn):
                    try: objs[name] = fn()
                    except BuildError as e: errs.append((name, e))
                def obj(s, tag):
                    o = "%s.%s.o" % (stem, tag)
                    compile_cmd([cxx] + flags + ["-c", s], o); return o
                js = [("eng", lambda: engine_obj(variant, k, False, directive(src, "ENGINE"))), ("har", lambda: obj(src, "har"))]
                for n, s in enumerate(extra): js.append(("x%d" % n, lambda s=s, n=n: obj(s, "x%d" % n)))
                if want_fuzz: js.append(("fz", lambda: engine_obj(variant, k, True)))
                ts = [threading.Thread(target=job, args=j) for j in js]
                [t.start() for t in ts]; [t.join() for t in ts]
                if errs:
                    for n, e in errs:
                        if n in ("eng", "fz"): raise RuntimeError("the engine does not compile: " + e.text)
                    raise errs[0][1]
                common = [objs["har"]] + [objs["x%d" % n] for n in range(len(extra))]
                compile_cmd([cxx] + STD + eflags + common + [objs["eng"]] + ldflags, exe)
                if want_fuzz: compile_cmd([cxx] + STD + eflags + ["-fsanitize=fuzzer"] + common + [objs["fz"]] + ldflags, fexe)
                for o in common: os.remove(o)
            return exe, (fexe if want_fuzz else None), cxx
        except BuildError as e:
            errors.append(e.text)
    raise BuildError("\n\n".join(errors))

def prune():
    """Keep the build directory small: drop binaries that are not recent."""
    fs = sorted(glob.glob(os.path.join(BUILD, "C*.*")), key=lambda f: os.path.getmtime(f))
    total = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if total < 1500e6: break
        try: total -= os.path.getsize(f); os.remove(f)
        except OSError: pass

def campaign(pid, exe, variant, seed, cases, tcap):
    out = os.path.join(BUILD, "%s.%s.%d.json" % (pid, variant, os.getpid()))
    rep = os.path.join(REPLAYS, "%s.%s.txt" % (pid, variant))
    if os.path.exists(rep): os.remove(rep)
    p = subprocess.run([exe, "--prop", pid, "--seed", str(seed), "--cases", str(cases), "--jobs", str(JOBS), "--time", str(tcap),
                        "--out", out, "--replay-out", rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode not in (0, 1) or not os.path.exists(out):
        return dict(error="driver ended with %d: %s" % (p.returncode, p.stdout[-2000:]), evaluations=0, distinct_nontrivial=0, nontrivial=0, failed=0, samples=[], labels={}, wall_s=0)
    r = json.load(open(out)); os.remove(out)
    r["replay"] = rep if r["failed"] else None
    return r

def fuzz(pid, exe, fexe, seed, seconds, workers):
    """libFuzzer campaign; failing inputs are confirmed and shrunk by the driver."""
    d = os.path.join(BUILD, "fuzz.%s.%d" % (pid, os.getpid()))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    res = dict(seconds=seconds, workers=workers, evaluations=0, nontrivial=0, corpus=0, replay=None, notes=[])
    procs = []
    try:
        for w in range(workers):
            wd = os.path.join(d, str(w)); os.makedirs(wd + "/corpus"); os.makedirs(wd + "/art")
            if w % 2 == 0:      # every other worker starts from encodings of random cases, the others from nothing
                subprocess.run([exe, "--prop", pid, "--seed", str(seed + w), "--corpus", wd + "/corpus", "24"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            env = dict(os.environ, PBT_PROP=pid, PBT_STATS=wd + "/stats")
            cmd = [fexe, "-seed=%d" % (seed * 16 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (4096 if w % 4 < 2 else 512), "-timeout=60", "-rss_limit_mb=4000",
                   "-use_value_profile=%d" % (1 if w % 4 != 3 else 0), "-len_control=%d" % (20 if w % 2 else 0), "-artifact_prefix=" + wd + "/art/", "-print_final_stats=1", wd + "/corpus"]
            procs.append((wd, subprocess.Popen(cmd, env=env, stdout=open(wd + "/log", "w"), stderr=subprocess.STDOUT)))
        deadline = time.time() + seconds + 120
        while any(p.poll() is None for _, p in procs) and time.time() < deadline:
            time.sleep(0.1)
            if any(p.poll() not in (None, 0) for _, p in procs):     # one found something: no need to wait for the others
                break
        for _, p in procs:
            if p.poll() is None:
                p.terminate()
                try: p.wait(10)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
        for wd, p in procs:
            text = open(wd + "/log", errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
            if m: res["evaluations"] += int(m.group(1))
            if os.path.exists(wd + "/stats"):
                try: res["nontrivial"] += json.load(open(wd + "/stats"))["nontrivial"]
                except Exception: pass
            res["corpus"] += len(os.listdir(wd + "/corpus"))
            for a in sorted(glob.glob(wd + "/art/*")):
                if res["replay"]: break
                rep = os.path.join(REPLAYS, "%s.fuzz.txt" % pid)
                q = subprocess.run([exe, "--prop", pid, "--bytes", a, "--replay-out", rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if q.returncode == 1 and q.stdout.startswith("FAILS"): res["replay"] = rep; res["message"] = q.stdout.strip()
                else: res["notes"].append("input %s did not reproduce: %s" % (os.path.basename(a), q.stdout.strip()[:300]))
    finally:
        for _, p in procs:
            if p.poll() is None: p.kill()
        shutil.rmtree(d, ignore_errors=True)
    return res

def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def violation(pid, replay): log("VIOLATION property=%s replay=%s" % (pid, replay))

def check(pid):
    t0 = time.time()
    hs = harnesses()
    if pid not in hs: log("no property " + pid); return 2
    src = hs[pid]
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    b = dict(DEFAULT); b.update(BUDGET.get(pid, {}))
    variants = directive(src, "VARIANTS") or ["asan", "rel"]
    n = {v: b[v] for v in variants}; fz = b["fuzz"]; cap = 90
    if TIER == "thorough":
        n = {v: b[v] * 25 for v in n}; fz = 150 if fz else 0; cap = 250
    for f in glob.glob(os.path.join(REPLAYS, pid + ".*")): os.remove(f)
    bins = {}; berr = {}
    def job(v):
        try: bins[v] = build(pid, src, v)
        except BuildError as e: berr[v] = e.text
        except Exception as e: berr[v] = None; log("error: %s" % e)
    ts = [threading.Thread(target=job, args=(v,)) for v in variants]
    [t.start() for t in ts]; [t.join() for t in ts]
    tb = time.time() - t0
    if any(e is None for e in berr.values()): return 2
    viol = []; runs = {}
    if berr:
        rep = os.path.join(REPLAYS, pid + ".compile.txt")
        open(rep, "w").write("property=%s\nThe operations this property is about can no longer be compiled by a program that uses them.\n\n%s" % (pid, "\n\n".join(berr.values())))
        viol.append(rep); log("%s: the harness does not compile against %s:" % (pid, REPO)); log("\n".join(list(berr.values())[0].splitlines()[:25]))
    else:
        for k, v in enumerate(variants):
            exe = bins[v][0]
            r = campaign(pid, exe, v, SEED * 2 + k, n[v], cap)
            runs[v] = r; r["compiler"] = bins[v][2]
            log("%s %-4s %s: %d cases, %d non-trivial (%d distinct), %.1f s%s" % (pid, v, "FAILED" if r["failed"] else "ok", r["evaluations"], r["nontrivial"], r["distinct_nontrivial"], r["wall_s"], "; " + r["note"] if r.get("note") else ""))
            if r.get("error"): log(r["error"]); return 2
            if r["failed"]:
                log("  " + r["sub"] + ": " + r["message"][:1500]); viol.append(r["replay"]); break
        if not viol and fz and "asan" in bins and bins["asan"][1]:
            r = fuzz(pid, bins["asan"][0], bins["asan"][1], SEED, fz, JOBS)
            runs["fuzz"] = r
            log("%s fuzz %s: %d executions, %d non-trivial, corpus %d, %d s%s" % (pid, "FAILED" if r["replay"] else "ok", r["evaluations"], r["nontrivial"], r["corpus"], fz, "; " + "; ".join(r["notes"]) if r["notes"] else ""))
            if r["replay"]: log("  " + r["message"][:1500]); viol.append(r["replay"])
    nknown = 0
    if not berr:
        q = subprocess.run([bins[variants[0]][0], "--prop", pid, "--known"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        state = dict(reversed(l.split(" ", 1)) for l in q.stdout.splitlines() if l.startswith(("FAILS ", "HOLDS ")))
        listed = known_findings(pid)
        for key, text in listed:
            if state.get(key) == "FAILS": log("KNOWN-FINDING: property=%s %s: %s" % (pid, key, text)); nknown += 1
            elif state.get(key) == "HOLDS": log("note: the recorded finding %s of %s no longer fails" % (key, pid))
        for key, st in state.items():
            if st == "FAILS" and key not in [k for k, _ in listed]:
                rep = os.path.join(REPLAYS, "%s.known.txt" % pid)
                open(rep, "w").write("property=%s\nThe regression case %s fails and is not listed in known_findings.txt.\n" % (pid, key)); viol.append(rep)
    camp = {v: runs[v] for v in runs if v != "fuzz"}
    labels = {}
    for r in camp.values():
        for k, c in r["labels"].items(): labels[k] = labels.get(k, 0) + c
    samples = [x for r in camp.values() for x in r["samples"]][:6]
    cov = dict(evaluations=sum(r["evaluations"] for r in runs.values()),
               distinct_nontrivial=max([r["distinct_nontrivial"] for r in camp.values()] or [0]),
               rule=next((r["rule"] for r in camp.values() if r.get("rule")), "see DESIGN.md"), samples=samples,
               labels=labels, builds={v: dict(compiler=r["compiler"], evaluations=r["evaluations"], nontrivial=r["nontrivial"], distinct_nontrivial=r["distinct_nontrivial"], overruns=r.get("overruns", 0), workers_killed=r.get("workers_killed", 0), wall_s=round(r["wall_s"], 2), note=r.get("note", "")) for v, r in camp.items()},
               subproperties=next((r["subproperties"] for r in camp.values() if r.get("subproperties")), []),
               fuzz={k: x for k, x in runs.get("fuzz", {}).items() if k not in ("replay",)}, known_findings_reproduced=nknown)
    ev = dict(property=pid, tier=TIER, seed=SEED, level="exploration", coverage=cov,
              assumptions=["the inputs generated and the bounds named in DESIGN.md", "g++ 13 and clang 18 and their sanitizers report what the program does"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for v in viol[:1]: violation(pid, v)
    prune()
    log("%s %s: %s in %.1f s (build %.1f s)" % (pid, TIER, "VIOLATED" if viol else "held on everything explored", time.time() - t0, tb))
    return 1 if viol else 0

def replay(path):
    text = open(path).read()
    pid = re.search(r"^property=(\S+)", text, re.M).group(1)
    m = re.search(r"^variant=(\S+)", text, re.M)
    if not m: log(text); return 1
    exe = build(pid, harnesses()[pid], m.group(1))[0]
    p = subprocess.run([exe, "--replay", path]); return p.returncode

def main(a):
    if a[:1] == ["--replay"]: return replay(a[1])
    if a[:1] == ["--list"]:
        for k, v in sorted(harnesses().items()): log(k, os.path.relpath(v, HERE))
        return 0
    if a[:1] == ["--build-engine"]:
        os.makedirs(BUILD, exist_ok=True)
        for v in ("asan", "rel"): engine_obj(v, 0)
        engine_obj("tsan", 0, False, ["-DPBT_NO_ALLOC"]); engine_obj("rel", 0, False, ["-DPBT_NO_ALLOC"])
        engine_obj("asan", 0, True); return 0
    return check(a[0])

if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
