#!/usr/bin/env python3
"""Mutation campaign, by hand: mutate.py OUT.jsonl [workers] [scale%] [files...]
Makes small changes to the library in scratch copies, keeps those that compile and pass the repository's tests,
and runs the checks (scaled down) until one reports a violation. Nothing here is part of a check."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 4; SCALE = sys.argv[3] if len(sys.argv) > 3 else "25"
FILES = sys.argv[4:] or ["src/decode.rs", "src/lib.rs", "src/prepare.rs", "src/detect.rs", "src/geometry.rs", "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/version_db.rs"]
IMG = "C28 C15 C13 C24 C18 C17 C19 C20 C21 C23 C25 C14 C26 C27 C16".split()
DEC = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C22 C26 C27".split()
def order(f):
    return DEC if f in ("src/decode.rs", "src/version_db.rs") else DEC + [c for c in IMG if c not in DEC] if f == "src/lib.rs" else IMG
SUBS = [(r"(?<![<>=\-!])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
        (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"(?<= )%(?= )", "/"), (r"\+=", "-="), (r"-=", "+="), (r"(?<= )\^=?(?= )", "|"),
        (r"&&", "||"), (r"\|\|(?! *\()", "&&"), (r"(?<= )&(?= )", "|"), (r"<<", ">>"), (r">>", "<<"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\bcontinue\b", "break"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\.\.(?!=)(?=\S)", "..="), (r"\.\.=", "..")]
def mutants(f):
    lines = open(os.path.join("/repo", f)).read().split("\n")
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l: break
        t = l.strip()
        if not t or t.startswith(("//", "/*", "*", "use ", "#", "pub use", "mod ", "pub mod", "assert")): continue
        code = l.split("//")[0]
        for rx, to in SUBS:
            for m in re.finditer(rx, code):
                if rx in ("(?<![<>=\\-!])<(?![<=])", "(?<![>\\-=])>(?![>=])") and not re.search(r"\s$", code[:m.start()]): continue
                yield i, code[:m.start()] + to + code[m.end():]
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]|usize|u8)", code):
            v = int(m.group(1))
            yield i, code[:m.start()] + str(v + 1) + code[m.end():]
            if v > 0: yield i, code[:m.start()] + str(v - 1) + code[m.end():]
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)", code):
            for k in (0.5, 1.5): yield i, code[:m.start()] + repr(float(m.group(1)) * k if float(m.group(1)) else k) + code[m.end():]
        if t.endswith(";") and not t.startswith(("let", "return", "const", "pub", "}", ")")) and t.count("(") == t.count(")"):
            yield i, ""
def sh(cmd, cwd, to, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ""
def worker(k, q, lock):
    base = f"/tmp/mut/w{k}"; repo = base + "/repo"; ver = base + "/verif"
    os.makedirs(base); sh(f"cp -a /repo {repo}", "/", 100)
    os.makedirs(ver); sh(f"cp -a {ROOT}/harness {ROOT}/nofeat {ROOT}/run.sh {ver}/", "/", 100)
    for c in ("harness", "nofeat"):
        p = f"{ver}/{c}/Cargo.toml"; s = open(p).read().replace('"/repo"', f'"{repo}"'); open(p, "w").write(s)
    while True:
        try: f, i, new = q.get_nowait()
        except queue.Empty: return
        sh("git checkout -q -- .", repo, 60)
        p = os.path.join(repo, f); lines = open(p).read().split("\n"); old = lines[i]; lines[i] = new; open(p, "w").write("\n".join(lines))
        r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip()); t0 = time.time()
        c, o = sh("cargo test --offline --no-run 2>&1", repo, 300)
        if c: r["res"] = "does not compile"
        else:
            c, o = sh("cargo test --offline --lib --tests 2>&1", repo, 60)
            if c: r["res"] = "tests"
            else:
                c, o = sh("bash run.sh build", ver, 300)
                if c: r["res"] = "harness build"
                else:
                    r["res"] = "SURVIVED"; r["odd"] = []
                    for pid in order(f):
                        c, o = sh(f"{ver}/target/release/rqrr-verif run {pid}", ver, 300, {"VERIF_ROOT": ver, "VERIF_SCALE": SCALE})
                        if c == 1:
                            r["res"] = "caught " + pid; r["msg"] = o[-300:]; break
                        if c != 0: r["odd"].append((pid, c))
        r["s"] = round(time.time() - t0)
        with lock:
            open(OUT, "a").write(json.dumps(r) + "\n")
def main():
    shutil.rmtree("/tmp/mut", ignore_errors=True); os.makedirs("/tmp/mut")
    seen = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l); seen.add((r["file"], r["line"], r["new"]))
    todo = []
    for f in FILES:
        ms = list(mutants(f))
        if f == "src/version_db.rs": ms = random.Random(1).sample(ms, 40)
        todo += [(f, i, n) for i, n in ms if (f, i + 1, n.strip()) not in seen]
    random.Random(2).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    if N == 0: return
    q = queue.Queue(); [q.put(t) for t in todo]; lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, lock)) for k in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree("/tmp/mut", ignore_errors=True)
main()
