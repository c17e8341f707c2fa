#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and keep it under /verif/seeded/<id>/.

    python3 tools/mkseed.py SPEC.py [--keep-going] [--no-check]

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo program), optionally DEMO (other demo.sh).
Then the check of PROP is run on /repo with the patch applied, and the patch is undone.
"""
import json, os, re, runpy, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
DEMO = '''#!/bin/bash
# Run in the repository's root: builds a small program against it and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)" || exit 0
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hibit_tree = { path = "$repo" @FEATURES@ }
E
cd "$d" && RUSTFLAGS="-Awarnings @FLAGS@" CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" timeout 250 cargo +nightly @CMD@ --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(dir):
    names = json.load(open("/opt/vp/BASELINE.json"))
    p = sh("CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 600 cargo +nightly test --offline --lib --tests 2>&1 | tail -60", cwd=dir)
    return "FAILED" not in p.stdout and "test result: ok" in p.stdout and "error" not in p.stdout.split("test result")[0][-300:], p.stdout
def main():
    spec = runpy.run_path(sys.argv[1])
    only = [a[5:] for a in sys.argv if a.startswith("only=")]
    for s in spec.get("SPECS", [spec]):
        if not only or any(o in s["ID"] for o in only): one(s)
def one(spec):
    ID, PROP = spec["ID"], spec["PROP"]
    if not os.path.isdir(SC): sh(f"cp -a /repo {SC}")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .", cwd=SC)
    out = f"/tmp/seedout/{ID}"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    demo = spec.get("DEMO", DEMO).replace("@FEATURES@", spec.get("FEATURES", "")).replace("@FLAGS@", spec.get("FLAGS", "")).replace("@CMD@", spec.get("CMD", "run"))
    open(f"{out}/demo.sh", "w").write(demo)
    if "MAIN" in spec: open(f"{out}/main.rs", "w").write(spec["MAIN"].lstrip())
    for n, t in spec.get("FILES", {}).items(): open(f"{out}/{n}", "w").write(t)
    json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    env = dict(os.environ, DEMO_TARGET="/tmp/demo_target")
    p = sh(f"bash {out}/demo.sh", cwd=SC, env=env)
    if p.returncode: print(ID, "REJECT: demo fails on the unchanged tree\n", p.stdout[-2500:]); return 1
    for f, old, new in spec["EDITS"]:
        path = os.path.join(SC, f); s = open(path).read()
        if s.count(old) != 1: print(ID, "REJECT: pattern occurs", s.count(old), "times in", f, ":", old[:80]); return 1
        open(path, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=SC).stdout
    open(f"{out}/patch.diff", "w").write(diff)
    ok, t = stable(SC)
    if not ok: print(ID, "REJECT: tests fail\n", t[-1500:]); return 1
    p = sh(f"bash {out}/demo.sh", cwd=SC, env=env)
    if not p.returncode: print(ID, "REJECT: demo passes with the patch\n", p.stdout[-1500:]); return 1
    if "could not compile" in p.stdout and not spec.get("COMPILE_FAIL"): print(ID, "REJECT: does not compile\n", p.stdout[-2500:]); return 1
    print(ID, PROP, "confirmed; demo:", (p.stdout.strip().splitlines() or ["-"])[-1][:160])
    dst = os.path.join(ROOT, "seeded", ID)
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
    sh("git checkout -q -- .", cwd=SC)
    if "--no-check" in sys.argv: return 0
    return run_checks(ID, [PROP] + [a for a in sys.argv[2:] if re.match(r"C\d\d$", a)])
def run_checks(ID, props):
    patch = os.path.join(ROOT, "seeded", ID, "patch.diff")
    p = sh(f"git -C /repo apply {patch}")
    if p.returncode: print(ID, "patch does not apply", p.stdout); return 1
    try:
        for pr in props:
            t = time.time()
            p = sh(f"python3 {ROOT}/check.py {pr} --tier quick", cwd=ROOT)
            v = [l for l in p.stdout.splitlines() if l.strip()]
            print(f"   check {pr}: rc={p.returncode} {'CAUGHT' if p.returncode == 1 and f'VIOLATION property={pr}' in p.stdout else 'MISSED' if p.returncode == 0 else 'ERROR'} {time.time()-t:.0f} s | {v[0][:200] if v else ''}", flush=True)
            if p.returncode not in (0, 1): print(p.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -q -- .")
    return 0
if __name__ == "__main__":
    if sys.argv[1] == "--run":
        for i in (sys.argv[2].split(",") if sys.argv[2] != "all" else sorted(os.listdir(os.path.join(ROOT, "seeded")))):
            m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
            print(i); run_checks(i, sys.argv[3:] or [m["property"]])
    else: sys.exit(main())
