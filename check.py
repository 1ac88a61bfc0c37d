"""Decide one property: discharge every obligation generated from /repo's current source, cross-check on the real code."""
import sys, os
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "1":
    os.environ["PYTHONHASHSEED"] = "1"       # the order of sets is the same in every run
    os.execv(sys.executable, [sys.executable, "-P", "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = ["/verif", "/verif/lib"]
import argparse, gc, glob, importlib, json, subprocess, tempfile, time, multiprocessing as mp

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def run_vc(args):
    pid, idx = args
    from contracts.api import PROPS
    from vc.engine import Eng, Abort, Budget
    v = PROPS[pid].vcs[idx]
    e = Eng(v.budget, query_ms=v.query_ms)
    e.while_limit = v.while_limit
    t = time.time()
    gc.freeze()
    gc.set_threshold(200000, 50, 100)
    err = None
    try:
        h = v.harness
        if v.stubs:
            def h():
                e.stubs = v.stubs()
                v.harness()
        e.run(h)
    except Abort as x:
        err = f"{type(x).__name__}: {x}"
    except BaseException as x:   # noqa: BLE001
        import traceback
        err = "harness error: " + "".join(traceback.format_exception_only(type(x), x)).strip() + " @ " + str(traceback.extract_tb(x.__traceback__)[-1])[:300]
    finally:
        e.alive = False
    obls = []
    for o in e.obls.values():
        obls.append(dict(name=o.name, total=o.total, ok=o.ok, fail=o.fail, unknown=o.unknown, time=round(o.time, 3), backends=o.backends, models=o.models))
    problems = []
    if err:
        problems.append(f"{v.name}: not decided ({err})")
    for u in e.unsupported[:5]:
        problems.append(f"{v.name}: outside the verifier's reach: {u[0]} at {u[1]}")
    if not err and not e.unsupported and not any(o["fail"] or o["unknown"] for o in obls):
        miss = [c for c in v.covers if not e.covers.get(c)]
        if miss:
            problems.append(f"{v.name}: unreachable point(s) {miss}: the contract would hold vacuously")
        if v.terminates:
            bad = [k for k in e.cutset if k in getattr(e, "measures", {}) and not e.measures[k]]
            if bad:
                problems.append(f"{v.name}: no decreasing measure for {bad}")
    return dict(vc=v.name, bounded=v.bounded, functions=sorted(set(v.functions)), reached=sorted(e.functions), obligations=obls, problems=problems, paths=e.paths,
                rounds=getattr(e, "rounds", 0), queries=e.queries, solver_s=round(e.solver_time, 2), wall=round(time.time() - t, 2), covers=e.covers,
                invariants=sum(len(i.cands or ()) for i in e.loopinv.values()), cuts=sorted({k for k, _ in e.loopinv}), assumes=list(v.assumes))


def start_search(pid, seed, seconds, tier, known):
    out = tempfile.mktemp(prefix="vcs", dir=tempfile.gettempdir())
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VC_KNOWN=json.dumps(known), PYTHONHASHSEED="0", OMP_NUM_THREADS="2")
    p = subprocess.Popen([PY, "-P", "-B", os.path.join(VERIF, "search", "run.py"), pid, str(seed), str(seconds), tier, out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=VERIF)
    return p, out, time.time(), seconds


def end_search(h):
    p, out, t0, seconds = h
    detail = None
    try:
        _, err = p.communicate(timeout=max(1, t0 + seconds + 60 - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        detail = "the real code did not return on this input"
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    elif os.path.exists(out + ".cur"):
        cur = open(out + ".cur").read()
        tail = (err or b"").decode(errors="replace")[-1500:]
        if detail is None:
            detail = f"process ended with code {p.returncode}: {tail}"
        if cur and (p.returncode < 0 or "did not return" in detail):
            res = dict(evaluations=1, distinct=1, samples=[cur[:600]], rule="", wall=0,
                       fails=[dict(case=json.loads(cur), detail=detail, signature=cur, known=False)])
        else:
            res = dict(evaluations=0, distinct=0, samples=[], rule="", wall=0, fails=[], error=detail)
    else:
        res = dict(evaluations=0, distinct=0, samples=[], rule="", wall=0, fails=[], error=(err or b"").decode(errors="replace")[-1500:])
    for f in (out, out + ".cur"):
        if os.path.exists(f):
            os.unlink(f)
    return res


def has_search(pid):
    return os.path.exists(os.path.join(VERIF, "search", pid.lower() + ".py"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-search", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    entry = json.load(open(os.path.join(VERIF, "contracts", "index.json")))[pid]
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = [k["signature"] for k in kf if k["property"] == pid and k["status"] == "open"]
    seconds = entry.get("search_s", 15) * (1 if tier == "quick" else 10)
    search = None
    if has_search(pid) and not a.no_search:
        search = start_search(pid, seed, seconds, tier, known)
    from vc import loader
    results = []
    load_err = None
    try:
        loader.load()
        for m in entry["modules"]:
            importlib.import_module("contracts." + m)
    except Exception as x:   # noqa: BLE001
        import traceback
        load_err = "".join(traceback.format_exception(type(x), x, x.__traceback__))[-1500:]
    if load_err is None:
        from contracts.api import PROPS
        vcs = PROPS[pid].vcs
        if tier == "thorough":
            for v in vcs:
                v.budget *= 3
                v.query_ms *= 4
        order = sorted(range(len(vcs)), key=lambda i: -vcs[i].budget)
        with mp.get_context("fork").Pool(min(7, max(1, len(vcs)))) as pool:
            results = pool.map(run_vc, [(pid, i) for i in order], chunksize=1)
    res = end_search(search) if search else None
    failed = []
    for r in results:
        for o in r["obligations"]:
            if o["fail"] or o["unknown"]:
                failed.append(dict(vc=r["vc"], obligation=o["name"], failed=o["fail"], undecided=o["unknown"], verifier_output=o["models"]))
        for p in r["problems"]:
            failed.append(dict(vc=r["vc"], obligation=p, failed=0, undecided=1, verifier_output=[]))
    if load_err:
        failed.append(dict(vc="load", obligation="the instrumented source loads", failed=0, undecided=1, verifier_output=[load_err]))
    if not results and not load_err:
        failed.append(dict(vc="-", obligation="at least one obligation is generated", failed=1, undecided=0, verifier_output=[]))
    if res is not None and res.get("error"):
        failed.append(dict(vc="cross-check", obligation="the cross-check on the real code ran", failed=0, undecided=1, verifier_output=[res["error"]]))
    # a failed obligation: look harder for an input on the real code
    unknown_fails = [f for f in (res or {}).get("fails", []) if not f["known"]]
    if failed and not unknown_fails and has_search(pid) and not a.no_search:
        extra = entry.get("replay_s", 45) * (1 if tier == "quick" else 4)
        hs = [start_search(pid, seed + 1000 + k, extra, "replay", known) for k in range(6)]
        for h in hs:
            r2 = end_search(h)
            res["evaluations"] += r2["evaluations"]
            res["distinct"] += r2["distinct"]
            res["fails"] += r2["fails"]
        unknown_fails = [f for f in res["fails"] if not f["known"]]
    known_hit = {}
    for f in (res or {}).get("fails", []):
        if f["known"]:
            known_hit[f["signature"]] = f
    obl = sum(o["total"] for r in results for o in r["obligations"] if not r["bounded"])
    dis = sum(o["ok"] for r in results for o in r["obligations"] if not r["bounded"])
    bobl = sum(o["total"] for r in results for o in r["obligations"] if r["bounded"])
    bdis = sum(o["ok"] for r in results for o in r["obligations"] if r["bounded"])
    level = entry["level"]
    backends = {}
    for r in results:
        for o in r["obligations"]:
            for k, n in o["backends"].items():
                backends[k] = backends.get(k, 0) + n
    trusted = list(entry.get("trusted", [])) + sorted({x for r in results for x in r["assumes"]})
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f"{PY} -P -B check.py {pid} --tier {tier}", trusted_base=COMMON_TRUST + trusted,
               functions_under_contract=sorted({f for r in results for f in r["functions"]}), loops_cut=sorted({f for r in results for f in r["cuts"]}),
               bounded_obligations=bobl, bounded_discharged=bdis, bounded_vcs={r["vc"]: r["bounded"] for r in results if r["bounded"]},
               back_ends=backends, solver_s=round(sum(r["solver_s"] for r in results), 2), solver_queries=sum(r["queries"] for r in results),
               paths=sum(r["paths"] for r in results), inferred_invariants=sum(r["invariants"] for r in results),
               vcs=[dict(name=r["vc"], bounded=r["bounded"], wall_s=r["wall"], paths=r["paths"], rounds=r["rounds"],
                         obligations={o["name"]: f'{o["ok"]}/{o["total"]}' for o in r["obligations"]}) for r in results],
               source_sha256={k.replace(loader.REPO + "/", ""): v[:16] for k, v in loader.SRC.items()})
    if res is not None:
        cov["cross_check"] = dict(note="bounded run of the real code against an independent oracle; not counted as proof", evaluations=res["evaluations"],
                                  distinct=res["distinct"], rule=res["rule"], samples=res["samples"], seed=seed)
        cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = res["evaluations"], res["distinct"], res["rule"], res["samples"]
    if level == "other":
        cov["explanation"] = entry.get("explanation", "")
    nviol = len(unknown_fails) + len(failed)
    ev = os.environ.get("VC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    json.dump(dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov, assumptions=trusted, wall_s=round(time.time() - t0, 2), violations=nviol),
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, ensure_ascii=False)
    for k in kf:
        if k["property"] == pid and k["status"] == "open":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid}: {dis}/{obl} obligations discharged, {bdis}/{bobl} bounded, {(res or {}).get('evaluations', 0)} cross-check runs, {time.time() - t0:.1f} s")
    for f in failed:
        print(f"  FAILED OBLIGATION [{f['vc']}] {f['obligation']}" + (f" -- {f['verifier_output'][0]['info']}" if f["verifier_output"] and isinstance(f["verifier_output"][0], dict) else ""))
    if nviol:
        path = os.path.join(ev, pid + ".replay.json")
        d = dict(property=pid, failed_obligations=failed)
        if unknown_fails:
            d.update(case=unknown_fails[0]["case"], detail=unknown_fails[0]["detail"], how=f"{PY} -P -B {VERIF}/search/run.py {pid} --case {path}")
            print("  FAILING INPUT " + json.dumps(unknown_fails[0]["case"])[:1500] + "\n    " + unknown_fails[0]["detail"][:800])
        json.dump(d, open(path, "w"), indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}" + ("" if unknown_fails else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


COMMON_TRUST = [
    "CPython 3.12 executes the instrumented source (instrumentation keeps every statement; hooks listed in vc/transform.py)",
    "symbolic proxies in vc/values.py, vc/heap.py and the library models in vc/runtime.py, vc/models*.py follow CPython/numpy/pyarrow semantics (self-tested by selftest.py)",
    "z3 / cvc5 answer unsat only when unsat",
    "the numba and polars branches of the source are not loaded (neither package is installed) and not covered",
]

if __name__ == "__main__":
    main()
