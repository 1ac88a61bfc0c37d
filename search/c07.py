"""windows and masks of a column; repeated reads."""
from search.common import *
from search import c06
RULE = "random columns (as for C06) read by a sequence of windows (offset, length), masks and text reads, each compared with list semantics; non-trivial: at least one read"


def cases(r, tier):
    g = c06.cases(r, tier)
    for c in g:
        n = c["h"][-1][0] + 1
        reads = []
        for _ in range(r.choice([1, 2, 3, 5])):
            off = r.choice([0, 0, 1, 2, n - 1, n, r.randrange(n + 2)])
            k = r.random()
            if k < .55:
                reads.append(["win", off, r.choice([0, 1, 2, max(1, n - off), n, n + 3, r.randrange(1, n + 4)])])
            elif k < .8:
                m = max(0, n - off) + r.choice([0, 0, 0, 2])
                if r.random() < .3 and m > 1:
                    m = r.randrange(1, m)
                p = r.choice([.1, .5, .9, 1])
                reads.append(["mask", off, [int(r.random() < p) for _ in range(m)]])
            else:
                reads.append(["text", off, r.choice([1, 2, 5, 30])])
        c["reads"] = reads
        yield c


def run(c):
    import pyarrow as pa
    s, d, err = c06.build(c)
    if err:
        return err
    o = dict(conflict_resolve=c["mode"])
    for i, (k, off, x) in enumerate(c["reads"]):
        if k == "mask":
            if not any(x):
                got = s.to_arrow(off, len(x), idx=pa.array([bool(b) for b in x], pa.bool_()))
                if len(got):
                    return f"read {i}: a mask without a set bit gave {len(got)} rows"
                continue
            w = spec.window(d, off, len(x), x)
            got = s.to_arrow(off, len(x), idx=pa.array([bool(b) for b in x], pa.bool_()))
        elif k == "win":
            w = spec.window(d, off, x)
            got = s.to_arrow(off, x)
        else:
            w = spec.window(d, off, x)
            got = s.to_utf8(off, x)
            try:
                e = spec.to_text(w, o)
            except spec.Skip:
                continue
            if got.to_pylist() != e:
                return f"read {i} ({k} offset {off} length {x}): {got.to_pylist()} expected {e}"
            continue
        why = spec.same_array(spec.resolve(w, o), got)
        if why:
            return f"read {i} ({k} offset {off}, {x}): {why}"
