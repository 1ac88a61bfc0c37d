"""shared by the searches: book cases"""
import copy, warnings
warnings.simplefilter("ignore")
import spec, gen


def case(b, o):
    return dict(book=b, o=o)


def run(c):
    return spec.compare(c["book"], c["o"])


def book(fmt, rows, sst=(), xfs=(0,), fmts=(), lay=0, name="Sheet1"):
    return dict(fmt=fmt, sst=list(sst), xfs=list(xfs), fmts=[list(x) for x in fmts], lay=lay, sheets=[dict(name=name, rows=rows)])


def num(fmt, c, v, s=0):
    return [c, "v", repr(v), s] if fmt == "x" else [c, 5, v, s]


def txt(fmt, c, v, s=0):
    return [c, "str", v, s] if fmt == "x" else [c, 6, v, s]


def grid(fmt, rows, **kw):
    """rows of python values: str -> text cell, float/int -> number cell with style 1 (a number style), ('d', x) -> date cell (style 2), None -> no cell"""
    out = []
    for r in rows:
        cs = []
        for i, v in enumerate(r):
            if v is None:
                continue
            if isinstance(v, str):
                cs.append(txt(fmt, i, v))
            elif isinstance(v, (tuple, list)):
                cs.append(num(fmt, i, v[1], 2))
            else:
                cs.append(num(fmt, i, float(v), 1))
        out.append(cs)
    return book(fmt, out, xfs=(0, 2, 14), **kw)
