#!/usr/bin/env python3
"""Run the check of one property: build the monitored workloads from /repo's working tree, run them, judge.

    python3 check.py C07 [--tier quick|thorough] [--seed N]
    python3 check.py --setup                      # build everything the quick checks use
    python3 check.py --replay evidence/replays/C07-....json

exit 0: held on everything explored; 1: VIOLATION line; 2: inconclusive (build error, time-out, nothing observed).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
HOST = "x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, VARIANTS, setup_jobs          # noqa: E402

# ---------------------------------------------------------------- building

def base_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e["CARGO_TERM_COLOR"] = "never"
    return e

def miri_env(e):
    e["MIRI_SYSROOT"] = os.path.join(TARGET, "miri-sysroot")
    e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    return e

def variant_env(v):
    e = base_env()
    V = VARIANTS[v]
    e["RUSTFLAGS"] = ("-Awarnings " + V.get("rustflags", "")).strip()
    if V.get("miri"):
        miri_env(e)
        e["MIRIFLAGS"] = V["miri"]
    return e

def cargo_build_cmd(v, bins):
    V = VARIANTS[v]
    cmd = ["cargo", "+nightly", "-Zchecksum-freshness", "build", "--offline",
           "--profile", V["profile"], "--target-dir", os.path.join(TARGET, V.get("dir", "")) if V.get("dir") else TARGET]
    for b in bins: cmd += ["--bin", b]
    cmd += V.get("args", [])
    if V.get("target"): cmd += ["--target", HOST]
    return cmd

def exe(v, b):
    V = VARIANTS[v]
    d = os.path.join(TARGET, V["dir"]) if V.get("dir") else TARGET
    if V.get("target"): d = os.path.join(d, HOST)
    return os.path.join(d, "debug" if V["profile"] == "dev" else V["profile"], b)

def build(v, bins, timeout=700):
    """-> (ok, output)"""
    if VARIANTS[v].get("miri"):
        return True, ""
    try:
        p = subprocess.run(cargo_build_cmd(v, bins), cwd=H, env=variant_env(v), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "build timed out"
    return p.returncode == 0, p.stdout

def miri_setup():
    e = miri_env(base_env())
    os.makedirs(e["XDG_CACHE_HOME"], exist_ok=True)
    e.pop("MIRI_SYSROOT", None)
    p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--print-sysroot"], cwd=H, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode: print(p.stderr[-3000:]); return False
    sr = p.stdout.strip().splitlines()[-1]
    link = os.path.join(TARGET, "miri-sysroot")
    if os.path.islink(link): os.unlink(link)
    if os.path.realpath(sr) != os.path.realpath(link): os.symlink(sr, link)
    return True

def miri_ready():
    return os.path.isdir(os.path.join(TARGET, "miri-sysroot", "lib")) or miri_setup()

# ---------------------------------------------------------------- running

class Res: pass
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
PROCS = set(); PLOCK = threading.Lock(); STOP = threading.Event()

def run_job(job, seed, tmp, n):
    """job: dict(variant, bin, only, worker, workers, ms, args, timeout)"""
    r = Res(); r.job = job
    seed += job.get("seed_off", 0)
    V = VARIANTS[job["variant"]]
    prog = os.path.join(tmp, f"p{n}"); st = os.path.join(tmp, f"s{n}")
    a = ["--seed", str(seed), "--worker", str(job["worker"]), "--workers", str(job["workers"]),
         "--ms", str(job["ms"]), "--progress", prog, "--states", st]
    if job.get("only"): a += ["--only", job["only"]]
    if not V.get("miri") and not V.get("target"): a += ["--mem-mb", "6000"]
    a += job.get("args", [])
    env = variant_env(job["variant"])
    env.update(V.get("env", {}))
    if V.get("miri"):
        # one target directory per bin: cargo would serialise the runs on its lock
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--profile", V["profile"], "--bin", job["bin"],
               "--target-dir", os.path.join(TARGET, "miri")] + V.get("args", []) + ["--"] + a
        env["MIRIFLAGS"] = V["miri"] + " -Zmiri-disable-isolation" + job.get("miriflags", "")
    else:
        cmd = [exe(job["variant"], job["bin"])] + a
    r.cmd = cmd
    r.timed_out = False
    if STOP.is_set(): r.rc = None; r.out = r.err = ""; r.prog = ""; r.states = b""; return r
    out = open(os.path.join(tmp, f"o{n}"), "w+"); err = open(os.path.join(tmp, f"e{n}"), "w+")
    p = subprocess.Popen(cmd, cwd=H, env=env, stdout=out, stderr=err, start_new_session=True)
    with PLOCK: PROCS.add(p)
    try:
        r.rc = p.wait(timeout=job["timeout"])
    except subprocess.TimeoutExpired:
        r.timed_out = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        r.rc = p.wait()
    with PLOCK: PROCS.discard(p)
    def tail(f, cap):
        f.flush(); f.seek(0, 2); s = f.tell(); f.seek(max(0, s - cap)); t = f.read(); f.close(); return t
    r.out = tail(out, 400_000); r.err = tail(err, 400_000)
    try: r.prog = open(prog).read().strip()
    except OSError: r.prog = ""
    try: r.states = open(st, "rb").read()
    except OSError: r.states = b""
    return r

UB_PAT = [
    (re.compile(r"ERROR: (AddressSanitizer|LeakSanitizer): ?([^\n]*)"), "sanitizer"),
    (re.compile(r"WARNING: ThreadSanitizer: ([^\n]*)"), "race detector"),
    (re.compile(r"^error: (Undefined Behavior: [^\n]*)", re.M), "Miri"),
    (re.compile(r"^error: (memory leaked[^\n]*)", re.M), "Miri"),
    (re.compile(r"^error: (abnormal termination[^\n]*)", re.M), "Miri"),
    (re.compile(r"^error: (the evaluated program (?:deadlocked|leaked)[^\n]*)", re.M), "Miri"),
]

def judge(r, ub_only=False):
    """-> (verdict, message, extra) ; verdict in ok, violation, inconclusive, skipped
    ub_only: only undefined behaviour counts; what other properties judge does not."""
    if r.rc is None: return "skipped", "", {}
    js = None
    for l in reversed(r.out.splitlines()):
        if l.startswith("{"):
            try: js = json.loads(l); break
            except ValueError: pass
    if js and "violation" in js: return "violation", js["violation"], js
    for pat, what in UB_PAT:
        m = pat.search(r.err) or pat.search(r.out)
        if m:
            i = m.start()
            src = r.err if pat.search(r.err) else r.out
            return "violation", f"{what}: {m.group(m.lastindex)[:300]}", {"report": src[i:i + 6000]}
    m = re.search(r"^FATAL-(VIOLATION|PANIC) (.*)$", r.err, re.M)
    if m and ub_only and not re.search("unsafe precondition|never held a value|undefined behaviour", m.group(2)):
        return "ended", m.group(2), {}
    if m: return "violation", m.group(2), {}
    if r.timed_out: return "inconclusive", f"timed out after {r.job['timeout']} s at {r.prog}", {}
    if ub_only and -r.rc in (signal.SIGABRT, signal.SIGTRAP): return "ended", r.err[-300:], {}
    if r.rc < 0 and -r.rc in CRASH:
        return "violation", f"crashed with signal {signal.Signals(-r.rc).name}", {"report": r.err[-3000:]}
    if r.rc < 0: return "inconclusive", f"ended by signal {signal.Signals(-r.rc).name}", {}
    if r.rc == 0 and js and js.get("done"): return "ok", "", js
    return "inconclusive", f"exit {r.rc}: {(r.err or r.out)[-1500:]}", {}

def replay_trace(r, js, seed):
    """Run the violating case again with its trace."""
    if VARIANTS[r.job["variant"]].get("miri"): return None
    if "scenario" in js: sc, no = js["scenario"], js["case"]
    elif len(r.prog.split()) == 2: sc, no = r.prog.split()
    else: return None
    cmd = [exe(r.job["variant"], r.job["bin"]), "--seed", str(seed + r.job.get("seed_off", 0)), "--scenario", sc, "--case", str(no)]
    a = r.job.get("args", [])
    if "--scale" in a: cmd += ["--scale", a[a.index("--scale") + 1]]
    if "--ub-only" in a: cmd += ["--ub-only"]
    env = variant_env(r.job["variant"]); env.update(VARIANTS[r.job["variant"]].get("env", {}))
    try:
        p = subprocess.run(cmd, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        out = p.stdout.decode("utf8", "replace").splitlines(); err = p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "note": "replay timed out"}
    keep = out[:40] + ["..."] + out[-160:] if len(out) > 200 else out
    return {"cmd": cmd, "rc": p.returncode, "output": [l[:600] for l in keep], "stderr": err[-2000:]}

# ---------------------------------------------------------------- findings

def known():
    """known-findings.txt: 'property=<id> match=<regex over "bin scenario message"> :: <what fails>' and 'fixed: ...' lines."""
    out = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m: out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError: pass
    return out

# ---------------------------------------------------------------- hostile programs

LIFETIME = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0597", "E0716", "E0521", "E0382"}
# unsafe needed, private field, not writable, an index checked for another shape
GUARD = {"E0133", "E0423", "E0451", "E0603", "E0616", "E0594", "E0596", "shape"}

def run_hostile(report):
    """Safe programs that would have undefined behaviour if they ran. The compiler rejects them; one that it accepts runs under Miri, which decides."""
    v = "hostile"
    base = ["--offline", "--profile", VARIANTS[v]["profile"], "--target-dir", os.path.join(TARGET, "hostile")] + VARIANTS[v]["args"]
    try:
        p = subprocess.run(["cargo", "+nightly", "-Zchecksum-freshness", "check", "--examples", "--keep-going", "--message-format=json"] + base, cwd=H, env=variant_env(v),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    except subprocess.TimeoutExpired: return {}, ["hostile programs: compilation timed out"]
    accepted, errs = set(), {}
    for l in p.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("reason") == "compiler-artifact" and "example" in d["target"]["kind"]: accepted.add(d["target"]["name"])
        if d.get("reason") == "compiler-message" and "example" in d["target"]["kind"] and d["message"]["level"] == "error" and d["message"]["code"]:
            c = d["message"]["code"]["code"]
            errs.setdefault(d["target"]["name"], set()).add("thread" if c == "E0277" and "between threads safely" in d["message"]["message"]
                                                                else "shape" if c == "E0277" and "Index<" in d["message"]["message"] else c)
    names = {f[:-3] for f in os.listdir(os.path.join(H, "examples")) if f.endswith(".rs")}
    if not (accepted | set(errs)): return {}, ["hostile programs: nothing was compiled: " + p.stderr[-1500:]]
    rejected = {n for n in errs if errs[n] <= LIFETIME | GUARD | {"thread"}}
    ran, incon = {}, []
    for n in sorted(accepted):
        e = variant_env(v); e["MIRIFLAGS"] = VARIANTS[v]["miri"] + " -Zmiri-disable-isolation"
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--example", n] + base
        r = Res(); r.job = {"timeout": 300}; r.prog = ""; r.timed_out = False
        try: q = subprocess.run(cmd, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        except subprocess.TimeoutExpired: incon.append(f"hostile program {n} timed out"); continue
        r.out, r.err, r.rc = q.stdout, q.stderr, q.returncode
        vd, msg, extra = judge(r, True)
        ran[n] = msg or "no undefined behaviour"
        if vd == "violation": report(f"safe program examples/{n}.rs: {msg}", extra, {"variant": "hostile", "bin": n, "cmd": cmd})
        elif "HOSTILE-BEGIN" not in r.out: incon.append(f"hostile program {n} was accepted and did not run: {q.stderr[-800:]}")
    return {"programs": len(names), "rejected_by_the_compiler": len(rejected), "accepted_and_run_under_miri": ran,
            "not_judged": sorted(names - rejected - accepted)}, incon

# ---------------------------------------------------------------- comparison of builds

def transcript(variant, b, key, seed, args):
    sc, no = key.split()
    cmd = [exe(variant, b), "--seed", str(seed), "--scenario", sc, "--case", no, "--digest"] + args
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return cmd, p.stdout.decode("utf8", "replace").splitlines()
    except subprocess.TimeoutExpired: return cmd, ["timed out"]

def compare(results, seed, report):
    """Digests of the same cases of the same program from every build; a build may have run fewer cases."""
    ref, n, used, ended = {}, {}, {}, []
    groups = {}
    for r, v, msg, js in results:
        if v not in ("ok", "violation"): continue
        groups.setdefault((r.job["bin"], r.job["worker"]), []).append((r, v, msg, js))
    differ = 0
    for (b, w), rs in sorted(groups.items()):
        bad = [x for x in rs if x[1] == "violation"]
        good = [x for x in rs if x[1] == "ok"]
        if bad and not good: ended.append(b); continue        # the same everywhere: not about builds
        if bad:
            r, _, msg, js = bad[0]
            report(f"{b}: build {r.job['variant']} ended with '{msg[:200]}', build {good[0][0].job['variant']} did not", {},
                   {"variant": r.job["variant"], "bin": b, "cmd": r.cmd, "case": r.prog}); differ += 1
        for r, _, _, js in good:
            for k, d in js["digests"].items():
                key = (b, k)
                if key not in ref: ref[key] = (d, r.job["variant"]); continue
                n[r.job["variant"]] = n.get(r.job["variant"], 0) + 1
                if ref[key][0] != d and differ < 5:
                    differ += 1
                    v1, v2 = ref[key][1], r.job["variant"]
                    c1, t1 = transcript(v1, b, k, seed, []); c2, t2 = transcript(v2, b, k, seed, [])
                    i = next((i for i, (x, y) in enumerate(zip(t1, t2)) if x != y), min(len(t1), len(t2)))
                    report(f"{b}, scenario and case {k}: the builds {v1} and {v2} differ", {},
                           {"variant": v2, "bin": b, "cmd": c2, "other_cmd": c1, "first_difference": {"line": i, v1: t1[i:i + 3], v2: t2[i:i + 3]},
                            "before": [l[:400] for l in t2[max(0, i - 60):i]]})
    return {"cases": sum(n.values()), "per_build": n, "distinct": len(ref), "ended_in_every_build": ended}

# ---------------------------------------------------------------- main

def run_check(prop, tier, seed):
    t0 = time.time()
    P = PLAN[prop]
    jobs = P[tier]()
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rdir, f))
    viols, incon, knowns = [], [], []
    # --- build
    need = {}
    controls = P.get("controls", [])
    for v, *_ in controls: need.setdefault(v, set()).add("control")
    for j in jobs: need.setdefault(j["variant"], set()).add(j["bin"])
    if any(VARIANTS[v].get("miri") for v in need) and not miri_ready():
        incon.append("cargo miri setup failed")
    tb = time.time()
    def report(msg, extra, what):
        path = os.path.join(rdir, f"{prop}-{len(viols)}.json")
        json.dump({"property": prop, "tier": tier, "seed": seed, "message": msg, **what, **extra}, open(path, "w"), indent=1)
        viols.append((msg, path))
    with cf.ThreadPoolExecutor(4) as ex:
        probes = P.get("probes", [])
        fs = {ex.submit(build, v, sorted(b)): (v, b) for v, b in need.items()}
        pf = {ex.submit(build, v, [b]): (v, b, codes, why, pat) for v, b, codes, why, pat in probes}
        for f in cf.as_completed(fs):
            ok, out = f.result()
            if not ok: incon.append(f"build of {fs[f]} failed:\n" + out[-4000:])
        for f in cf.as_completed(pf):
            v, b, codes, why, pat = pf[f]
            ok, out = f.result()
            if ok: continue
            errs = set(re.findall(r"^error\[(E\d+)\]", out, re.M))
            if errs and errs <= set(codes) and re.search(pat, out) and f"bin \"{b}\"" in out.replace("`", '"') and "could not compile `hibit_tree`" not in out:
                report(f"{why}: the program no longer compiles ({', '.join(sorted(errs))})", {"report": out[-5000:]}, {"bin": b, "variant": v})
            else: incon.append(f"build of {v}/{b} failed:\n" + out[-4000:])
    build_s = time.time() - tb
    # --- are the monitors alive?
    alive = []
    if not incon and not viols:
        for v, fault, pat in controls:
            j = dict(variant=v, bin="control", only=fault, worker=0, workers=1, ms=0, timeout=120)
            with tempfile.TemporaryDirectory() as tmp: r = run_job(j, seed, tmp, 0)
            m = re.search(pat, r.err + r.out)
            alive.append(f"{v}: {fault} -> {m.group(0) if m else 'NOT REPORTED'}")
            if not m: incon.append(f"the monitor of build {v} did not report a deliberate fault ({fault}): {(r.err + r.out)[-500:]}")
    # --- programs that the compiler should reject
    hostile = {}
    if P.get("hostile") and not incon and not viols:
        hostile, h_incon = run_hostile(report)
        incon += h_incon
    # --- run
    results = []
    if not incon and not viols:
        tmp = tempfile.mkdtemp(prefix="hh-")
        try:
            with cf.ThreadPoolExecutor(P.get("slots", 8)) as ex:
                futs = [ex.submit(run_job, j, seed, tmp, n) for n, j in enumerate(jobs)]
                for f in cf.as_completed(futs):
                    r = f.result(); v, msg, extra = judge(r, P.get("ub_only"))
                    results.append((r, v, msg, extra))
                    if v == "violation" and P.get("compare"): continue
                    if v == "violation":
                        sig = f"{r.job['bin']} {extra.get('scenario', r.prog)} {msg}"
                        k = [x for x in known() if x[0] == prop and x[1].search(sig)]
                        if k: knowns.append(k[0][2]); continue
                        what = {"variant": r.job["variant"], "bin": r.job["bin"], "cmd": r.cmd, "case": r.prog, "job_args": r.job.get("args", [])}
                        rep = replay_trace(r, extra, seed)
                        if rep: what["replay"] = rep
                        report(msg, {k2: extra[k2] for k2 in extra if k2 in ("scenario", "label", "report")} | {"case_no": extra.get("case")}, what)
                        if tier == "quick" and not STOP.is_set():
                            STOP.set()
                            with PLOCK:
                                for p in PROCS:
                                    try: os.killpg(p.pid, signal.SIGKILL)
                                    except ProcessLookupError: pass
                    elif v == "inconclusive" and not STOP.is_set():
                        incon.append(f"{r.job['variant']}/{r.job['bin']} worker {r.job['worker']}: {msg}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    # --- cross-run oracle: the builds did the same
    compared = {}
    if P.get("compare") and not incon:
        compared = compare(results, seed, report)
        if not compared["cases"] and not viols: incon.append("no case was compared")
    # --- evidence
    counters, cases, samples, states = {}, {}, [], set()
    judged = 0; trunc = 0; per = {}
    for r, v, msg, js in results:
        if v != "ok": continue
        for k, n in js["counters"].items(): counters[k] = counters.get(k, 0) + n
        for k, n in js["cases"].items():
            cases[k] = cases.get(k, 0) + n
        judged += js["judged"]; trunc += bool(js["truncated"])
        per[r.job["variant"]] = per.get(r.job["variant"], 0) + sum(js["cases"].values())
        for s in js["samples"]:
            if len(samples) < 10 and (r.job["worker"] == 0 or len(samples) < 2): samples.append(f"[{r.job['variant']}/{r.job['bin']}] {s}"[:900])
        b = r.states
        if len(states) < 3_000_000: states.update(memoryview(b[:len(b) // 8 * 8]).cast("Q"))
    missing = [s for s in P.get("must_observe", []) if not counters.get(s)]
    if results and not viols and not incon and not knowns:
        if judged == 0: incon.append("nothing was judged")
        if missing: incon.append(f"never observed: {missing}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"],
          "coverage": {"evaluations": judged, "distinct_nontrivial": len(states), "rule": P["rule"], "samples": samples or ["none"],
                       "cases": sum(cases.values()), "cases_per_scenario": cases, "cases_per_build": per, "observed": counters,
                       "processes": len(results), "truncated_processes": trunc, "build_s": round(build_s, 1)},
          "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if hostile: ev["coverage"]["hostile_programs"] = hostile
    ended = [f"{r.job['variant']}/{r.job['bin']}: {m[:200]}" for r, v, m, _ in results if v == "ended"]
    if ended: ev["coverage"]["ended_by_another_property"] = ended
    if compared: ev["coverage"]["compared"] = compared
    if alive: ev["coverage"]["deliberate_faults_reported"] = alive
    if incon: ev["coverage"]["inconclusive"] = [i[:1500] for i in incon[:4]]
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(set(knowns)): print(f"KNOWN-FINDING: property={prop} {k}")
    for msg, path in viols[:5]:
        print(f"  {msg[:400]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
    if viols: return 1
    if incon:
        print(f"INCONCLUSIVE property={prop}")
        for i in incon[:3]: print("  " + i[:3000])
        return 2
    print(f"OK property={prop} tier={tier} seed={seed}: {judged} judged, {len(states)} distinct, {sum(cases.values())} cases, {ev['wall_s']} s")
    return 0

def setup():
    ok = True
    os.makedirs(TARGET, exist_ok=True)
    if not miri_setup(): ok = False
    for v, bins in setup_jobs():
        t = time.time()
        if VARIANTS[v].get("miri"):
            for b in bins:
                e = variant_env(v); e["MIRIFLAGS"] = VARIANTS[v]["miri"] + " -Zmiri-disable-isolation"
                p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--profile", VARIANTS[v]["profile"], "--bin", b, "--target-dir", os.path.join(TARGET, "miri")]
                                   + VARIANTS[v].get("args", []) + ["--", "--list"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode: ok = False; print(p.stdout[-3000:])
        else:
            o, out = build(v, sorted(bins), 1500)
            if not o: ok = False; print(out[-3000:])
        print(f"setup {v}: {len(bins)} programs, {time.time() - t:.1f} s", flush=True)
    return 0 if ok else 2

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup: sys.exit(setup())
    if a.replay:
        d = json.load(open(a.replay))
        ok, out = build(d["variant"], [d["bin"]])
        if not ok and not VARIANTS[d["variant"]].get("miri"): print(out[-3000:]); sys.exit(2)
        cmd = d.get("replay", {}).get("cmd") or d["cmd"]
        print(d["message"]); print("+", " ".join(cmd), flush=True)
        env = variant_env(d["variant"]); env.update(VARIANTS[d["variant"]].get("env", {}))
        if "MIRIFLAGS" in env: env["MIRIFLAGS"] += " -Zmiri-disable-isolation"
        sys.exit(subprocess.run(cmd, cwd=H, env=env).returncode)
    if a.prop not in PLAN: print("unknown property", a.prop); sys.exit(2)
    try:
        sys.exit(run_check(a.prop, a.tier, a.seed))
    except Exception as e:      # an error of the check is not a violation
        import traceback; traceback.print_exc()
        print(f"INCONCLUSIVE property={a.prop} error of the check: {e}"); sys.exit(2)

if __name__ == "__main__": main()
