"""date styles."""
from search.common import *
RULE = "style tables with built-in and custom formats (quotes, escapes, brackets, elapsed time, sections, long codes; ids of one and two bytes) and one numeric cell per style, in both formats; column types and values compared with an independent format scanner; non-trivial: at least one style"
PIECES = ["0", "0.00", "#,##0", "yyyy", "mm", "dd", "h", "ss", "[h]", "[mm]", "[ss]", "[Red]", "[Blue]", "[$-409]", '"days"', '" d "', "\\d", "\\m", " ", "-", "/", ":", ".", "@", "General", ";", "E+00", "%", "[hhh]", "AM/PM", "?", "_)", "Y", "D", "S", "H", "M", "[$USD]", '"', "00", '"a;b"', '\\"', "\\;", '"d;"', "\\[", '"\\"']


def cases(r, tier):
    for fmt in "xb":
        for i in range(0, 60):
            yield dict(fmt=fmt, xfs=[0, i], fmts=[], v=44000.5, lay=0)
        for f in gen.FORMATS:
            yield dict(fmt=fmt, xfs=[0, 164], fmts=[[164, f]], v=1.25, lay=0)
    while True:
        fm = []
        for i in r.sample([164, 165, 166, 177, 255, 256, 270, 271, 278, 301, 302, 303, 400, 526, 3598, 60, 81], r.choice([0, 1, 2, 4])):
            c = "".join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3, 5])))
            if r.random() < .1:
                c += r.choice(["0", "#", "x0"[1:]]) * r.choice([60, 68, 72, 77, 83, 89, 100, 104, 109, 115, 121, 200])
            if not ok(c):
                c = r.choice(gen.FORMATS)
            fm.append([i, c])
        xfs = [0] + [r.choice([x[0] for x in fm] * 3 + gen.BI + [270, 271, 301, 526]) for _ in range(r.choice([1, 2, 5, 300]) if r.random() < .2 else r.choice([1, 2, 5]))]
        if fm and r.random() < .05:
            fm[0][0] = r.choice([x for x in (1, 2, 4, 14, 37, 40, 47, 48) if x not in [y[0] for y in fm]])
            xfs.append(fm[0][0])
        c = dict(fmt=r.choice("xb"), xfs=xfs, fmts=fm, v=r.choice([44000.5, 1.0, 0.5]), lay=r.choice([0, 1]))
        if c["fmt"] == "x" and r.random() < .3:
            c["dxfs"] = [[r.choice([x[0] for x in fm] + [164, 2, 14, 0]), r.choice(gen.FORMATS)] for _ in range(r.choice([1, 3]))]
        if c["fmt"] == "x" and r.random() < .2:
            c["xfid"] = False
        yield c


def ok(c):
    """leave out codes with unbalanced quotes or brackets (not valid formats)"""
    return spec.valid_format(c) and not any(x in c for x in "\0")


def run(c):
    n = len(c["xfs"])
    step = max(1, n // 12)
    idx = sorted(set(list(range(0, n, step)) + [n - 1, min(n - 1, 256), min(n - 1, 255)]))
    rows = [[num(c["fmt"], k, c["v"], i) for k, i in enumerate(idx)]]
    if c["fmt"] == "b":
        rows.append([[k, 2, 44000 << 2 | 2, i] for k, i in enumerate(idx)])
    w = spec.compare({**book(c["fmt"], rows, xfs=c["xfs"], fmts=c["fmts"], lay=c["lay"]), "dxfs": c.get("dxfs", ()), "xfid": c.get("xfid", True)}, {})
    return w and f"{w} (styles {[(c['xfs'][i], dict(map(tuple, c['fmts'])).get(c['xfs'][i])) for i in idx]})"
