"""Number format codes, scanned token by token (independent of the readers)."""


def sections(code):
    """the tokens of a number format code, up to the first section break: (kind, text)"""
    i, n = 0, len(code)
    while i < n:
        ch = code[i]
        j = code.find({'"': '"', "[": "]"}[ch], i + 1) if ch in '"[' else -1
        if ch == ";":
            return
        if j >= 0:
            yield ch, code[i:j + 1]
            i = j + 1
        elif ch == "\\" and i + 1 < n:
            yield "esc", code[i:i + 2]
            i += 2
        else:
            yield "bad" if ch in '"[\\' else "ch", ch
            i += 1


def first_section(code):
    return "".join(t for _, t in sections(code))


def valid_format(code):
    """quotes and brackets are closed, nothing is escaped at the end; elapsed-time brackets have one or two small letters"""
    i, n = 0, len(code)
    while i <= n:
        for k, t in sections(code[i:]):
            if k == "bad" or (k == "[" and t[1:-1] and set(t[1:-1].lower()) in ({"h"}, {"m"}, {"s"}) and t[1:-1] not in ELAPSED):
                return False
            i += len(t)
        i += 1
    return True


ELAPSED = ("h", "hh", "m", "mm", "s", "ss")


def date_format(code):
    """has the first section an unescaped date/time letter outside quotes and brackets (elapsed-time brackets count)"""
    return any(t[1:-1] in ELAPSED if k == "[" else k == "ch" and t in "dmhysDMHYS" for k, t in sections(code))
