#!/usr/bin/env python3
"""Make and verify planted bugs.  usage: plant.py make [ID..] | verify [ID..] | catch [ID..] [-p PROP,..]

make    writes seeded/<id>/ from tools/plants.py (patch.diff from the edits)
verify  in a scratch copy: applies, builds, stable tests pass, demo 0 / nonzero
catch   applies the bug to /repo, runs its property's check (or those of -p), reverts
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plants import PLANTS, DEMO_SH, PRELUDE
BASE = "2367f99"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(pid):
    p = PLANTS[pid]
    d = os.path.join(ROOT, "seeded", pid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        sh(f"git -C /repo archive HEAD | tar -x -C {w}; cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", check=True)
        for f, old, new in p["edits"]:
            path = os.path.join(w, f)
            s = open(path).read()
            assert s.count(old) == p.get("count", 1), (pid, f, s.count(old))
            open(path, "w").write(s.replace(old, new))
        diff = sh(f"git -C {w} diff").stdout
        assert diff.strip(), pid
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed lines must be of the original repository
        for f, _, _ in p["edits"]:
            base = set(subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], stdout=subprocess.PIPE, text=True).stdout.splitlines())
            fd = sh(f"git -C {w} diff -- {f}").stdout
            minus = [l[1:] for l in fd.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not minus: print(f"{pid}: note: no removed line in {f}")
            for l in minus:
                if l not in base: print(f"{pid}: WARNING not an original line: {l!r}")
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + p["demo"])
    sh_text = DEMO_SH
    if p.get("nostd"):
        sh_text = sh_text.replace('features = ["serde", "parity-codec"]', 'default-features = false').replace('features = ["with-serde", "with-codec"]', 'default-features = false, features = ["derive"]')
    open(os.path.join(d, "demo.sh"), "w").write(sh_text)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", pid)

def verify(pid):
    src = os.path.join(ROOT, "seeded", pid)
    w = "/tmp/plant-verify"
    if os.path.exists(w + "/repo"): shutil.rmtree(w + "/repo")
    os.makedirs(w, exist_ok=True)
    sh(f"cp -a /repo {w}/repo", check=True)
    d = w + "/demo"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    for f in os.listdir(src):
        if f.endswith((".diff", ".patch")) or f == "meta.json": continue
        shutil.copy(os.path.join(src, f), d)
    r = f"{w}/repo"
    a = sh(f"bash {d}/demo.sh", cwd=r)
    if a.returncode != 0:
        print(pid, "DEMO FAILS ON UNCHANGED"); print(a.stdout[-3000:]); return False
    x = sh(f"git apply {src}/patch.diff", cwd=r)
    if x.returncode: print(pid, "DOES NOT APPLY", x.stdout); return False
    t0 = time.time()
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=r)
    if t.returncode:
        print(pid, "TESTS FAIL"); print("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500]); return False
    n = sum(int(m) for m in re.findall(r"(\d+) passed", t.stdout))
    b = sh(f"bash {d}/demo.sh", cwd=r)
    if b.returncode == 0:
        print(pid, "DEMO PASSES WITH THE PATCH"); return False
    if "could not compile" in b.stdout: print(pid, "DEMO DOES NOT COMPILE", b.stdout[-2000:]); return False
    msg = [l for l in b.stdout.splitlines() if "panicked" in l or "assert" in l or "left:" in l or "right:" in l]
    print(f"{pid}: ok ({n} tests) demo: {' '.join(msg)[:200]}")
    return True

def catch(pid, props):
    p = PLANTS[pid]
    props = props or [p["property"]]
    x = sh(f"git -C /repo apply {ROOT}/seeded/{pid}/patch.diff")
    if x.returncode: print(pid, "DOES NOT APPLY", x.stdout); return
    out = []
    try:
        for c in props:
            t0 = time.time()
            r = sh(f"{ROOT}/bin/check.sh {c}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = r.returncode == 1 and any(f"property={c} " in l for l in v)
            out.append(f"{c}={'CAUGHT' if ok else 'missed' if r.returncode == 0 else 'exit %d' % r.returncode}({time.time()-t0:.0f}s)")
            if r.returncode not in (0, 1): out.append(r.stdout[-500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(pid, " ".join(out), flush=True)

def main():
    a = sys.argv[1:]
    props = None
    if "-p" in a:
        i = a.index("-p"); props = a[i+1].split(","); del a[i:i+2]
        if props == ["all"]: props = ["C%02d" % i for i in range(1, 23)]
    cmd, ids = a[0], a[1:] or sorted(PLANTS)
    for i in ids:
        if cmd == "make": make(i)
        elif cmd == "verify": verify(i)
        elif cmd == "catch": catch(i, props)
main()
