"""text to timestamps."""
from search.common import *
import numpy as np, datetime, calendar
RULE = "arrays of texts printed from known moments in known formats (plus unparsable ones), converted with the default or given format lists; the moments computed with datetime arithmetic; non-trivial: at least one text"
D = ["%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y"]
Tm = ["%H:%M:%S", "%H:%M"]
AMB = [["%T", "%y:%m:%d", "%d/%m/%Y", "%m/%d/%Y"], ["%d/%m/%Y", "%m/%d/%Y", "%d/%m/%y", "%y/%m/%d"], ["%R", "%m:%d", "%T", "%H:%M:%S %m:%d", "%y:%m:%d"],
       ["%Y%m%d", "%d%m%Y", "%Y-%m-%d", "%y-%m-%d"], ["%d.%m.%y", "%y.%m.%d", "%m.%d.%y", "%H.%M.%S"]]
EP = datetime.datetime(1970, 1, 1)


def show(ms, f):
    d = EP + datetime.timedelta(milliseconds=ms)
    return f.replace("%Y", f"{d.year:04}").replace("%y", f"{d.year % 100:02}").replace("%m", f"{d.month:02}").replace("%d", f"{d.day:02}").replace("%H", f"{d.hour:02}").replace("%M", f"{d.minute:02}").replace("%S", f"{d.second:02}")


def moment(r, f):
    day = 86400000
    if "%Y" in f:
        y = r.choice([0, -1, 1, 18262, -25567, -719162 + 365 * 1001, 2932896, r.randrange(-354285, 2932896), r.randrange(-36500, 36500), r.randrange(-36500, 36500)])
    elif "%y" in f:
        y = r.randrange(-365, 36158)      # 1969 .. 2068
        if not 1969 <= (EP + datetime.timedelta(days=y)).year <= 2068:
            y = 0
    else:
        y = 0
    ms = y * day
    if "%S" in f:
        ms += r.choice([0, 1000, 86399000, r.randrange(86400) * 1000])
    elif "%M" in f:
        ms += r.choice([0, 60000, 86340000, r.randrange(1440) * 60000])
    return ms


def cases(r, tier):
    allf = D + [f"{d}{s}{t}" for d in D for s in " T" for t in Tm] + Tm
    for f in allf:
        for k in range(3):
            m = moment(r, f) if k else 0
            yield dict(t=[[show(m, f), m]], formats=None)
    while True:
        n = r.choice([1, 1, 2, 3, 6])
        own = r.random() < .4
        fs = [r.choice(allf) for _ in range(n)]
        t = []
        for f in fs:
            m = moment(r, f)
            t.append([show(m, f), m])
        if r.random() < .3:
            t.insert(r.randrange(len(t) + 1), [r.choice(["abc", "", "2020-13-01", "12:61", "44000", "2020-01-01x", "1.5"]), None])
        lst = None
        if own:
            lst = list(dict.fromkeys(fs))
            if r.random() < .3:
                lst = lst[1:] or lst
            r.shuffle(lst)
        elif r.random() < .25:      # formats that read the same text differently
            t, lst = [], r.choice(AMB)
            lst = r.sample(lst, len(lst))
            for _ in range(n):
                t.append([r.choice(["10:11:12", "01/02/03", "01/02/2003", "20200102", "12:13", "01.02.03", "11:12:13 01:02", "2001-02-03", "99:01:02", "13/02/2003", "20:21"]), None])
        yield dict(t=t, formats=lst)


def run(c):
    import pyarrow as pa
    from rxls.chunk.casts import mf_strptime
    tx = [x[0] for x in c["t"]]
    want = []
    for t, m in c["t"]:
        e = spec.text_ms(t, c["formats"])
        want.append(e)
    a = pa.array(["pad"] + tx + ["pad"], pa.large_string())[1:-1]
    try:
        g = np.asarray(mf_strptime(a, tuple(c["formats"]) if c["formats"] else None)).tolist()
    except pa.ArrowInvalid:
        if all(w is not None for w in want):
            return f"{tx} with {c['formats'] or 'the default formats'}: refused, although every text fits a format ({want})"
        return
    if any(w is None for w in want):
        return f"{tx} with {c['formats'] or 'the default formats'}: accepted as {g}, although {[t for t, w in zip(tx, want) if w is None]} fit(s) no format"
    if g != want:
        return f"{tx} with {c['formats'] or 'the default formats'}: {g}, expected {want}"
    if c["formats"] is None:
        w2 = [m for _, m in c["t"]]
        if g != w2:
            return f"{tx}: {g}, the texts denote {w2}"
