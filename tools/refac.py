"""Behaviour-preserving edits: every check they concern must stay quiet.  usage: refac.py [id-prefix ...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from refac_spec import SPECS
SPECS = SPECS + json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refac_more.json")))
extra = ["--no-search"] if os.environ.get("NOSEARCH") else []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(want):
    for s in SPECS:
        if want and not any(s["id"].startswith(w) for w in want):
            continue
        d = tempfile.mkdtemp(prefix="refac", dir="/tmp")
        ev = tempfile.mkdtemp(prefix="refacev", dir="/tmp")
        try:
            shutil.copytree("/repo/rxls", d + "/rxls")
            for f, old, new in s["edits"]:
                p = f"{d}/rxls/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            for pid in s["props"]:
                r = subprocess.run(["/opt/venv/bin/python", "-P", "-B", V + "/check.py", pid, *extra], capture_output=True, text=True,
                                   env=dict(os.environ, VC_REPO=d, VC_EVIDENCE=ev, VERIF_SEED="1"), cwd=V)
                print(s["id"], pid, "quiet" if r.returncode == 0 else "ALARM\n" + (r.stdout + r.stderr)[-1500:], flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(ev)


main(sys.argv[1:])
