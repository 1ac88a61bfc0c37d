"""random books and options for the searches"""
from __future__ import annotations
import struct

TEXTS = ["a", "b", "x y", "timestamp", "row_id", "12", "-3.5", "007", "1e3", "abc", "2020-01-01", "1970-01-01", "31.12.1999 10:20", "00:00:00", "13:45", "1900-05-06", "Ünï", "𝒳", " lead", "é", "client",
         "1.50", "0", "44000", "1969-12-31T23:59:59", "01.02.20", "#N/B", "n/a", "NULL", "", "true", "\ufeffbom", "a\u2028b"]
ERR = ["#N/A", "#REF!", "#ДЕЛ/0!", "#NULL!", "#DIV/0!", "#VALUE!", "#NAME?", "#NUM!", "#GETTING_DATA", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д"]
NUMS = [0.0, 1.0, -1.0, 2.5, 44000.0, 44000.5, 59.0, 60.0, 61.0, 0.25, 1e15, 1e19, -7.0, 1234567.891, 2.0, 3.0, 0.1, 43831.123456, 1.0000001, 5.999999999, 100.0]
FORMATS = ["yyyy-mm-dd", "0", "0.00", "#,##0.00", '0.00" days"', "[Red]0.0", "[h]:mm", "mm:ss.00", "h:mm:ss", "\\d0", "@", "General", "dd/mm/yy;@", "0;yyyy", '"year"0', "[$-409]d\\-mmm\\-yy", "0%", "# ?/?", "[ss]", "[Blue]", "_-* #,##0_-", "YYYY",
           "DD.MM", '#" d "', "0.0E+00", "m/d", "s", "[mm]:ss", "hh", 'x' * 60 + "0", "0" * 100, "0" * 104, "#" * 115, "0" * 121, "0" * 109]
BI = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 17, 20, 22, 23, 30, 37, 40, 44, 45, 46, 47, 48, 49]


def styles(r, n=None):
    fm = []
    for _ in range(r.choice([0, 1, 2, 3])):
        i = r.choice([164, 165, 166, 170, 256 + 14, 256 + 22, 256 + 45, 300, 512 + 15, 1000])
        if i not in [x[0] for x in fm]:
            fm.append([i, r.choice(FORMATS)])
    xfs = [0]
    for _ in range(n if n is not None else r.choice([0, 1, 3, 5])):
        xfs.append(r.choice(BI + [x[0] for x in fm] * 6 + [270, 14, 22]))
    return xfs, fm


def number_text(r):
    x = r.choice(NUMS + [r.uniform(0, 60000), float(r.randrange(1, 50000)), r.random()])
    return r.choice([repr(x), repr(x), str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x), f"{x:.6E}"])


def rkv(r):
    k = r.choice([0, 1, 2, 3])
    if k & 2:
        n = r.choice([0, 1, -1, 100, 44000, 4400050, -(1 << 29), (1 << 29) - 1, r.randrange(-(1 << 29), 1 << 29), r.randrange(60000)])
        return ((n & 0x3FFFFFFF) << 2 | k) & 0xFFFFFFFF
    x = r.choice(NUMS + [r.uniform(0, 60000)])
    return (struct.unpack("<Q", struct.pack("<d", x))[0] >> 32 & 0xFFFFFFFC) | k


def cell(r, fmt, col, nst, nsst, mix, texts):
    s = r.randrange(nst) if r.random() < mix else 0
    if fmt == "x":
        k = r.choice(["v", "v", "f", "s", "s", "str", "b", "e", "-"])
        if k in ("v", "f"):
            v = number_text(r)
            return [col, k, v, s if r.random() < .9 else None]
        if k == "s":
            return [col, k, r.randrange(nsst), s] if nsst else [col, "str", r.choice(texts), 0]
        if k == "str":
            return [col, k, r.choice(texts + ERR[:3]), s if r.random() < .2 else 0]
        if k == "b":
            return [col, k, r.randrange(2), 0]
        if k == "e":
            return [col, k, r.choice(ERR), s]
        return [col, k, None, s]
    k = r.choice([1, 2, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9, 10, 11])
    if k in (6, 8):
        return [col, k, r.choice(texts + ERR[:3]), s]
    if k == 7:
        return [col, k, r.randrange(nsst), s] if nsst else [col, 1, None, s]
    if k in (5, 9):
        return [col, k, r.choice(NUMS + [r.uniform(0, 60000)]), s]
    if k in (4, 10):
        return [col, k, r.randrange(2), s]
    if k == 2:
        return [col, k, rkv(r), s]
    if k in (3, 11):
        return [col, k, 42, s]
    return [col, 1, None, s]


def sst(r, fmt, texts):
    out = []
    for _ in range(r.choice([0, 1, 3, 6, 12])):
        k = r.random()
        if fmt == "x" and k < .2:
            out.append([r.choice(texts) for _ in range(r.choice([1, 2, 3]))])
        elif k < .3:
            out.append(r.choice(ERR))
        elif fmt == "x" and k < .35:
            out.append(None)
        elif k < .38:
            out.append("L" * r.choice([8191, 8192, 9000, 20000]) + "end")
        else:
            out.append(r.choice(texts))
    return out


def rows(r, fmt, ncols, nrows, nst, nsst, texts, density=None, mix=None):
    density = density if density is not None else r.choice([.3, .7, 1.0])
    mix = mix if mix is not None else r.choice([0, .3, 1.0])
    cols = sorted(r.sample(range(r.choice([ncols, ncols + 3, 40])), ncols))
    # each column mostly keeps one kind
    proto = {c: cell(r, fmt, c, nst, nsst, mix, texts) for c in cols}
    sticky = r.choice([0, .6, .95])
    out = []
    for _ in range(nrows):
        if r.random() < .15:
            out.append(r.choice([None, []]))
            continue
        cs = []
        for c in cols:
            if r.random() > density:
                continue
            if r.random() < sticky:
                k = proto[c]
                x = cell(r, fmt, c, nst, nsst, mix, texts)
                tries = 0
                while (x[1], x[3]) != (k[1], k[3]) and tries < 60:
                    x = cell(r, fmt, c, nst, nsst, mix, texts)
                    tries += 1
                cs.append(x if (x[1], x[3]) == (k[1], k[3]) else k)
            else:
                cs.append(cell(r, fmt, c, nst, nsst, mix, texts))
            if r.random() < .02:
                cs.append(cell(r, fmt, c, nst, nsst, mix, texts))
        out.append(cs)
    return out


def book(r, fmt=None, nrows=None, ncols=None, texts=None):
    fmt = fmt or r.choice("xb")
    texts = texts or (TEXTS if r.random() < .5 else r.sample(TEXTS, 4))
    xfs, fm = styles(r)
    ss = sst(r, fmt, texts)
    n = nrows if nrows is not None else r.choice([1, 2, 3, 5, 9, 40])
    m = ncols if ncols is not None else r.choice([1, 1, 2, 3, 5])
    b = dict(fmt=fmt, sst=ss if ss or r.random() < .5 else None, xfs=xfs, fmts=fm, lay=r.choice([0, r.randrange(1, 10**6)]),
             sheets=[dict(name="Sheet1", rows=rows(r, fmt, m, n, len(xfs), len(ss), texts))])
    return b


def row_opts(r, o, n):
    if r.random() < .6:
        o["skip_rows"] = r.choice([0, 1, 2, 3, n])
    if r.random() < .5:
        o["take_rows"] = r.choice([0, 1, 2, 3, max(1, n - 1), n])
    if r.random() < .6:
        o["take_rows_non_empty"] = r.random() < .6
    if r.random() < .3:
        o["skip_cols"] = r.choice([[0], [1], [0, 2], [5]])
    if r.random() < .2:
        o["cb"] = True
    return o


def any_opts(r, b):
    n = len(b["sheets"][0]["rows"])
    o = {}
    if r.random() < .4:
        row_opts(r, o, n)
    if r.random() < .5:
        o["header"] = r.choice([True, 1, 2, 3])
    if r.random() < .2:
        o["lookup_head"] = r.choice(["timestamp", "^a$", "row", "1", ".", 0, 1])
        if r.random() < .5:
            o["lookup_size"] = r.choice([1, 2, 5, 100])
    if r.random() < .3:
        o["skip_rows_after_header"] = r.choice([1, 2])
    if r.random() < .3:
        o["row_filters"] = r.choice([".*", [0], [0, 1], ["^a", ".*"], "Unn"])
        if r.random() < .6:
            o["row_filters_strategy"] = r.choice(["and", "or", ["and"], ["or", "and"], ["xor"]])
    if r.random() < .6:
        o["conflict_resolve"] = r.choice(["no", "temporal", "numeric", "all"])
    if r.random() < .2:
        o["null_values"] = r.choice([["a", "0"], ["1"], dict(prefix="1"), ["abc", "2020-01-01"], dict(prefix="a")])
    if r.random() < .2:
        o["float_precision"] = r.choice([0, 1, 3, 9])
    return o
