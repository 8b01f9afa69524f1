#!/usr/bin/env python3
"""try.py [--demo-only] id...: demo on the clean tree, with the patch, stable test, and the property's quick check with the patch.
Results are appended to /verif/work/seeds.json"""
import sys, os, json, subprocess, time, re
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
S = "/verif/seeded"
ids = args or sorted(os.listdir(S))
resf = "/verif/work/seeds.json"
res = json.load(open(resf)) if os.path.exists(resf) else {}
def sh(c, t=1200, cwd="/repo"):
    p = subprocess.run(['bash','-c',c], cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
assert not sh("git status --porcelain")[1].strip(), "repo dirty"
def clean():
    sh("git checkout -- .")
try:
    for i in ids:
        d = f"{S}/{i}"; prop = json.load(open(d + "/meta.json"))["property"]; r = res.setdefault(i, {}); r["property"] = prop
        t0 = time.time()
        if "--check-only" not in flags:
            B = ". /opt/vp/env.sh; cargo build --workspace --offline -q 2>&1 | tail -20; exit ${PIPESTATUS[0]}"
            files = re.findall(r"^\+\+\+ b/(.*)$", open(d + "/patch.diff").read(), re.M)
            sh("touch " + " ".join(files)); sh(B)
            r["demo_clean"], o1 = sh("bash " + d + "/demo.sh")
            rc, o = sh(f"git apply {d}/patch.diff"); assert rc == 0, o
            rc, o = sh(B); r["build"] = rc
            r["demo_patched"], o2 = sh("bash " + d + "/demo.sh")
            rc, o = sh(". /opt/vp/env.sh; cargo test -p ephemeral-vrf-api --offline -q 2>&1 | tail -20; exit ${PIPESTATUS[0]}"); r["test"] = rc
            ok = r["demo_clean"] == 0 and r["demo_patched"] not in (0, 3, 4) and r["build"] == 0 and r["test"] == 0
            print(i, "VALID" if ok else "INVALID", {k: r[k] for k in ("demo_clean", "demo_patched", "build", "test")}, f"{time.time()-t0:.0f}s", flush=True)
            if not ok: print(o1[-600:], "\n---\n", o2[-1500:], "\n---\n", o[-500:])
            r["valid"] = ok
        else:
            rc, o = sh(f"git apply {d}/patch.diff"); assert rc == 0, o
        if "--demo-only" not in flags:
            for p in [prop] + [f[7:] for f in flags if f.startswith("--also=")]:
                t0 = time.time()
                rc, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} quick", 1000, "/verif")
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                r.setdefault("checks", {})[p] = [rc, v[:1]]
                print("   check", p, rc, (v[:1] or o.splitlines()[-3:]), f"{time.time()-t0:.0f}s", flush=True)
        clean()
        json.dump(res, open(resf, "w"), indent=1)
finally:
    clean()
