#!/usr/bin/env python3
"""Development tool (not used by any check): builds seeded/<id>/ from seeds.py
after confirming, in a scratch copy of /repo, that the change compiles, passes
the repository's tests, and that the demonstration tells the two apart.

  mkseed.py make [ID...]     confirm and write seeded/<id>/
  mkseed.py catch [ID...]    apply each to /repo, run its property's quick check, undo
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))

DEMO = r'''#!/bin/bash
# cwd: the weedle checkout. Exit 0 when the property's example holds, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
weedle = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 200 cargo run --offline --quiet
'''

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(seeds):
    for s in seeds:
        w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        r = os.path.join(w, "repo")
        sh(["cp", "-a", "/repo", r]); sh(["git", "-C", r, "checkout", "--", "."])
        d = os.path.join(w, "d"); os.mkdir(d)
        open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        ok = True
        a = sh(["bash", d + "/demo.sh"], cwd=r)
        if a.returncode: print(s["id"], "DEMO FAILS ON BASE", a.stdout[-1500:]); ok = False
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src", f); t = open(p).read()
            if t.count(old) < 1: print(s["id"], "edit not found in", f, repr(old)); ok = False; break
            open(p, "w").write(t.replace(old, new, 1))
        if ok:
            t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=r)
            if t.returncode: 
                print(s["id"], "TESTS FAIL"); print("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l)[:1500]); ok = False
                i = t.stdout.find("\nerror"); print(t.stdout[i:i+1500] if i >= 0 else "")
        if ok:
            b = sh(["bash", d + "/demo.sh"], cwd=r)
            if b.returncode == 0: print(s["id"], "DEMO PASSES WITH PATCH"); ok = False
            elif "could not compile" in b.stdout: print("demo compile", b.stdout[-1000:]); ok=False
        if ok:
            out = os.path.join(V, "seeded", s["id"]); os.makedirs(out, exist_ok=True)
            diff = sh(["git", "diff"], cwd=r).stdout
            open(out + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.rs", out); shutil.copy(d + "/demo.sh", out)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(s["id"], "ok:", b.returncode)
        shutil.rmtree(w)

def catch(ids, extra):
    for i in ids:
        p = f"{V}/seeded/{i}/patch.diff"
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        for q in ([prop] if not extra else extra):
            import time; t0 = time.time()
            a = sh(["git", "-C", "/repo", "apply", p])
            if a.returncode: print(i, "does not apply", a.stdout); continue
            try:
                r = sh(["python3", V + "/check.py", q, "quick"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            finally:
                sh(["git", "-C", "/repo", "checkout", "--", "."])
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:28} {q} rc={r.returncode} {time.time()-t0:.0f}s {v[0] if v else '-- '+r.stdout.strip()[-200:]}", flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        from seeds import SEEDS
        want = sys.argv[2:]
        make([s for s in SEEDS if not want or s["id"] in want])
    else:
        extra = [a for a in sys.argv[2:] if len(a) == 3 and a[0] == "C" and a[1:].isdigit()]
        ids = [a for a in sys.argv[2:] if a not in extra] or sorted(os.listdir(V + "/seeded"))
        catch(ids, extra)
