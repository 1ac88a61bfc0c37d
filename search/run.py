"""Run the real (uninstrumented) code of /repo on the cases of one property and compare with an independent oracle.

    python search/run.py ID SEED SECONDS TIER OUT      explore
    python search/run.py ID --case FILE                replay one case
"""
import sys, os
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("VC_REPO", "/repo"), "/verif", "/verif/lib"]
import faulthandler, importlib, json, random, signal, time

CASE_LIMIT = 20.0


class Hang(BaseException):
    pass


def onalarm(*_):
    raise Hang()


def one(mod, case):
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        r = mod.run(case)
    except Hang:
        r = f"no result after {CASE_LIMIT:.0f} s (does not terminate)"
    except MemoryError:
        r = "memory exhausted"
    except Exception as ex:   # noqa: BLE001
        import traceback
        root = os.environ.get("VC_REPO", "/repo") + "/"
        if not any(f.filename.startswith(root) for f in traceback.extract_tb(ex.__traceback__)):
            raise      # the harness itself: this entry point is gone or has another shape
        r = "raised " + "".join(traceback.format_exception_only(type(ex), ex)).strip()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def main():
    faulthandler.enable()
    import threading
    threading.excepthook = lambda a: None
    mod = importlib.import_module("search." + sys.argv[1].lower())
    if sys.argv[2] == "--case":
        d = json.load(open(sys.argv[3]))
        r = one(mod, d["case"])
        print("FAILS: " + str(r) if r else "holds on this input")
        sys.stdout.flush()
        os._exit(1 if r else 0)
    seed, seconds, tier, out = int(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5]
    rng = random.Random(seed)
    t0 = time.time()
    n = skipped = 0
    why = ""
    seen = set()
    fails = []
    samples = []
    cur = open(out + ".cur", "w")
    known = set(json.loads(os.environ.get("VC_KNOWN", "[]")))
    for case in mod.cases(rng, tier):
        s = json.dumps(case, sort_keys=True)
        cur.seek(0)
        cur.truncate()
        cur.write(s)
        cur.flush()
        n += 1
        try:
            r = one(mod, case)
        except (ImportError, AttributeError, TypeError, NameError, KeyError) as ex:
            skipped += 1
            why = repr(ex)[:300]
            if time.time() - t0 > seconds:
                break
            continue
        h = hash(s)
        if h not in seen:
            seen.add(h)
        if len(samples) < 3 or (n % 97 == 0 and len(samples) < 6):
            samples.append(s[:600])
        if r:
            sig = mod.signature(case, r) if hasattr(mod, "signature") else s
            fails.append(dict(case=case, detail=str(r)[:2000], signature=sig, known=sig in known))
            if any(not f["known"] for f in fails):
                break
        if time.time() - t0 > seconds:
            break
    if skipped == n:
        print(why, file=sys.stderr)
        os._exit(3)
    json.dump(dict(evaluations=n - skipped, skipped=skipped, skip_reason=why, distinct=len(seen), fails=fails, samples=samples, rule=mod.RULE, wall=time.time() - t0), open(out, "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
