"""Writes /verif/seeded/<id>/ from the specs below and confirms each in a scratch copy: applies, builds, tests pass, demo passes without and fails with it,
changed lines belong to the original repository."""
import os, shutil, subprocess, sys, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = []
PRE = '''import sys, os, io
sys.dont_write_bytecode = True
sys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]
import warnings; warnings.simplefilter("ignore")
'''


def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    SPECS.append(dict(id=id, prop=prop, edits=[(file, old, new)], needs=needs, breaks=breaks, demo=demo))


def seed2(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


exec(open(os.path.join(V, "tools", "seeds_spec.py")).read())


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build(s):
    w = tempfile.mkdtemp(prefix="seed_")
    r = w + "/repo"
    sh(["cp", "-a", "/repo", r])
    for f, old, new in s["edits"]:
        p = os.path.join(r, f)
        t = open(p).read()
        k = t.count(old)
        if k != 1:
            print(s["id"], "PATTERN occurs", k, "times in", f)
            shutil.rmtree(w)
            return False
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "-C", r, "diff"]).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(V + "/lib/books.py", d + "/bk.py")
    shutil.copy(V + "/tools/seedlib.py", d + "/seedlib.py")
    open(d + "/demo.py", "w").write(PRE + s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -P -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    ok = True
    base = sh(["git", "-C", "/repo", "log", "--format=%h", "--reverse"]).stdout.split()[0]
    # original lines
    import re
    for f in {e[0] for e in s["edits"]}:
        bl = sh(["git", "-C", "/repo", "blame", "-s", "-l", f]).stdout.splitlines()
        root = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
        fd = sh(["git", "-C", r, "diff", "-U0", "--", f]).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                if not bl[i - 1].startswith("^"):
                    print(s["id"], "line not original:", f, i)
                    ok = False
            if n == 0:
                print(s["id"], "pure insertion hunk at", f, a)
    t = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], cwd=r)
    if t.returncode:
        print(s["id"], "tests fail", t.stdout[-300:])
        ok = False
    a = sh(["bash", d + "/demo.sh"], cwd="/repo")
    b = sh(["bash", d + "/demo.sh"], cwd=r, timeout=200)
    if a.returncode or not b.returncode:
        print(s["id"], "demo: clean", a.returncode, "patched", b.returncode, (a.stdout + a.stderr)[-400:], (b.stdout + b.stderr)[-200:])
        ok = False
    shutil.rmtree(w)
    print(s["id"], "ok" if ok else "BAD", "|", (b.stdout + b.stderr).strip().splitlines()[-1][:120] if (b.stdout + b.stderr).strip() else "")
    return ok


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    with ThreadPoolExecutor(6) as p:
        rs = list(p.map(build, [s for s in SPECS if not sel or s["id"] in sel]))
    print(sum(rs), "of", len(rs))
