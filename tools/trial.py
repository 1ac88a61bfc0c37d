"""Runs a property's check (or only its search) against scratch copies of /repo with each planted change applied.
    tools/trial.py [--search SECONDS] [--jobs N] [seed ids]"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--search", type=float)
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--dir", default=V + "/seeded")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()


def one(i):
    d = os.path.join(a.dir, i)
    pid = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="trial_")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"])
    g = subprocess.run(["git", "-C", w + "/repo", "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
    if g.returncode:
        return i, pid, "patch does not apply: " + g.stderr[:200]
    env = dict(os.environ, VC_REPO=w + "/repo", VERIF_SEED="1")
    if a.search:
        out = w + "/out"
        p = subprocess.run(["/opt/venv/bin/python", "-P", "-B", V + "/search/run.py", pid, "1", str(a.search), "quick", out], capture_output=True, text=True, env=env, cwd=V)
        try:
            r = json.load(open(out))
            res = f"{'CAUGHT' if r['fails'] else 'missed'} after {r['evaluations']} cases, {r['wall']:.1f} s " + (r["fails"][0]["detail"][:160] if r["fails"] else "")
        except OSError:
            res = f"no result rc={p.returncode} {p.stderr[-200:]}"
    else:
        env["VC_EVIDENCE"] = w
        p = subprocess.run(["/opt/venv/bin/python", "-P", "-B", V + "/check.py", pid], capture_output=True, text=True, env=env, cwd=V)
        ls = p.stdout.splitlines()
        fo = [l.strip() for l in ls if "FAILED OBLIGATION" in l]
        vi = [l for l in ls if l.startswith("VIOLATION")]
        res = f"rc={p.returncode} {'with input' if vi and 'no-failing' not in vi[0] else 'no input' if vi else '-'}; {len(fo)} failed obligations: " + "; ".join(x[:110] for x in fo[:2])
    shutil.rmtree(w)
    return i, pid, res


with ThreadPoolExecutor(a.jobs) as p:
    for r in p.map(one, a.ids or sorted(os.listdir(a.dir))):
        print(*r, flush=True)
