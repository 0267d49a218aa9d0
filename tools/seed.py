#!/usr/bin/env python3
"""Writes and confirms planted bugs. seed.py DEFS.py [id ...]
DEFS.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], main, img=bool).
Each is applied in a scratch copy of /repo, built, tested (stable tests) and its demo run with and without."""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, "tools", "seedlib")
W = "/tmp/seedwork/repo"
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    shutil.rmtree("/tmp/seedwork", ignore_errors=True); os.makedirs("/tmp/seedwork")
    sh(f"cp -a /repo {W}")
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in bugs:
        if want and b["id"] not in want: continue
        sh("git checkout -- .", W)
        for f, old, new in b["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = f"/tmp/seedwork/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(sh("git diff", W).stdout)
        demo = open(f"{LIB}/demo.sh").read()
        img = b.get("img")
        demo = demo.replace("@FEAT@", "" if img else ", default-features = false")
        demo = demo.replace("@DEPS@", 'image = { version = ">= 0.24, <= 0.25", default-features = false, features = ["png"] }' if img else "")
        if b.get("demo"): demo = b["demo"]
        open(f"{d}/demo.sh", "w").write(demo)
        shutil.copy(f"{ROOT}/harness/src/qr.rs", d); shutil.copy(f"{LIB}/util.rs", d)
        open(f"{d}/main.rs", "w").write("#![allow(dead_code)]\nmod qr;\n#[macro_use]\nmod util;\n#[allow(unused_imports)]\nuse qr::*;\n#[allow(unused_imports)]\nuse util::*;\n" + b["main"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh(f"cargo test --offline 2>&1", W)
        ok = r.returncode == 0
        if not ok:
            fails = [l for l in r.stdout.splitlines() if "FAILED" in l or "failed" in l or l.startswith("error")]
            print(b["id"], "TESTS FAIL", fails[:8]); continue
        r1 = sh(f"bash {d}/demo.sh", W)
        sh("git checkout -- .", W)
        r0 = sh(f"bash {d}/demo.sh", W)
        good = r0.returncode == 0 and r1.returncode != 0 and "error: could not compile" not in r1.stderr
        print(b["id"], "CONFIRMED" if good else "NOT CONFIRMED", "clean", r0.returncode, "patched", r1.returncode)
        if not good: print(r0.stdout[-1500:], r0.stderr[-1500:], "----", r1.stdout[-800:], r1.stderr[-1500:])
        else:
            dst = os.path.join(ROOT, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)
main()
