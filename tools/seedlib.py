"""Small workbooks for the demos."""
import bk


def xlsb(rows, sst=(), xfs=(0,), fmts=()):
    """rows: lists of (column, record kind, value[, style])"""
    return bk.xlsb_book([bk.xlsb_sheet([[bk.xlsb_cell(x[1], x[0], x[2], *(x[3:])) for x in r] for r in rows])], sst, bk.xlsb_styles(list(xfs), fmts))


def xlsx(rows, sst=(), xfs=(0,), fmts=()):
    """rows: lists of (column, text[, type[, style]]); texts are inline formula results by default"""
    return bk.xlsx_book([bk.xlsx_sheet([[bk.xlsx_cell(i, x[0], x[1], x[2] if len(x) > 2 else "str", x[3] if len(x) > 3 else None) for x in r] for i, r in enumerate(rows)])],
                        sst, bk.xlsx_styles(list(xfs), fmts))


def xlsb_rels():
    """two sheets; the relationship of the second one (rId10) is listed first"""
    s = [bk.xlsb_sheet([[bk.xlsb_cell(6, 0, "ten")]]), bk.xlsb_sheet([[bk.xlsb_cell(6, 0, "one")]])]
    rels = [("rId10", "worksheet", "worksheets/sheet1.bin"), ("rId1", "worksheet", "worksheets/sheet2.bin")]
    return bk.xlsb_book(s, rels=rels, names=["Tenth", "First"], order=[1, 0])
