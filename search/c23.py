"""damaged input."""
from search.common import *
import io, zipfile
RULE = "sheets whose XML is cut off or corrupted at a random place, whose cells lack a reference or have an index outside the shared table, failing callbacks and predicates at a random call, files that are no workbook; the read must raise, and return promptly; non-trivial: something is damaged"


def cases(r, tier):
    while True:
        k = r.choice(["cut", "cut", "tag", "callback", "pred", "index", "index", "nowb", "noref", "char"])
        n = r.choice([1, 3, 40, 2000]) if k in ("cut", "tag", "char") else r.choice([1, 2, 5])
        yield dict(k=k, fmt=r.choice("xb") if k in ("callback", "pred", "index", "nowb") else "x", n=n, at=r.random(), i=r.choice([0, 1, 4, 1000, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 + 1, -1, -2**32, 1 - 2**32]), call=r.randrange(4), err=r.choice(sorted(ERR)), msg=r.randrange(len(MSG)), o=r.choice([{}, dict(header=True), dict(skip_rows=1), dict(take_rows_non_empty=True)]))


class Boom(Exception):
    pass


ERR = dict(Boom=Boom, AttributeError=AttributeError, ValueError=ValueError, KeyError=KeyError, IndexError=IndexError, RuntimeError=RuntimeError, TypeError=TypeError, OSError=OSError,
           UnicodeError=UnicodeError, ArithmeticError=ZeroDivisionError, Assertion=AssertionError)
MSG = [(), ("x",), ("read from closed file.",), ("'NoneType' object has no attribute 'tell'",), (3, "y")]


def run(c):
    from rxls.reader import read
    f, k, n = c["fmt"], c["k"], c["n"]
    boom = ERR[c["err"]](*MSG[c["msg"]])
    rows = [[txt(f, 0, f"r{i}"), [1, "s" if f == "x" else 7, 0, 0]] for i in range(n)]
    b = book(f, rows, sst=["z", "y"])
    kw = dict(c["o"])
    if k == "index":
        at = int(c["at"] * n)
        i = c["i"] if f == "x" and not 0 <= c["i"] < 2 else min(max(2, c["i"]), 2**32 - 1)
        rows[at][1][2] = i
        if c["o"].get("skip_rows") and at == 0 or c["o"].get("header") and at == 0:
            kw = {}
    data = spec.write(b)
    if k in ("cut", "tag", "noref", "char", "nowb"):
        out = io.BytesIO()
        with zipfile.ZipFile(data) as z, zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as w:
            for nm in z.namelist():
                d = z.read(nm)
                if nm.endswith("sheet1.xml"):
                    a = d.index(b"<sheetData>") + 11
                    e = d.index(b"</worksheet>")
                    p = a + int(c["at"] * (e - a))
                    if k == "cut":
                        d = d[:p]
                    elif k == "tag":
                        p = d.rfind(b"</row>", 0, max(p, d.index(b"</row>") + 6))
                        d = d[:p] + b"</rw>" + d[p + 6:]
                    elif k == "char":
                        p = d.rfind(b"<c ", 0, max(p, d.index(b"<c ") + 3))
                        d = d[:p] + b"<<" + d[p:]
                    elif k == "noref":
                        d = d.replace(b'<c r="A%d"' % n, b"<c")
                if k == "nowb" and nm.startswith("xl/workbook"):
                    nm = "xl/other.bin"
                w.writestr(nm, d)
        data = out
        data.seek(0)
    if k == "callback":
        cnt = [0]

        def cb():
            cnt[0] += 1
            if cnt[0] > min(c["call"], n - 1 - kw.get("skip_rows", 0)):
                raise boom
        kw["row_callback"] = cb
        if kw.get("skip_rows", 0) >= n:
            kw["skip_rows"] = 0
    if k == "pred":
        def pr(t):
            if t.startswith("r"):
                raise boom
            return False
        kw["null_values"] = pr
        if kw.get("skip_rows", 0) >= n:
            kw["skip_rows"] = 0
    try:
        t = read(data, 0, **kw)
    except Exception as ex:   # noqa: BLE001
        if k in ("callback", "pred") and ex is not boom:
            return f"the caller's error was replaced by {ex!r}"
        return
    return f"damaged input ({k}) gave a table of {t.num_rows} rows instead of an error"
