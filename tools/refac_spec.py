COL = """    a = -1
    i = 0
    for x in col[::-1]:
        if x > 64:
            a += (x - 64) * (26**i)
            i += 1
    return a
"""
RC = "reader/common.py"
READ = ["C05", "C08", "C09", "C10", "C11", "C14", "C16", "C17", "C18", "C19", "C20", "C21", "C23"]
SPECS = [
    dict(id="col-horner", props=["C12"], edits=[("reader/xlsx.py", COL, """    total = 0
    for x in col:
        if x > 64:
            total = total * 26 + (x - 64)
    return total - 1
""")]),
    dict(id="col-weight", props=["C12"], edits=[("reader/xlsx.py", COL, """    acc = 0
    weight = 1
    for ch in reversed(col):
        if ch < 65:
            continue
        acc += weight * (ch - 64)
        weight *= 26
    return acc - 1
""")]),
    dict(id="col-break", props=["C12"], edits=[("reader/xlsx.py", COL, """    idx = 0
    for ch in col:
        if ch <= ord("9"):
            break
        idx = 26 * idx + ch - ord("A") + 1
    return idx - 1
""")]),
    dict(id="col-strip", props=["C12"], edits=[("reader/xlsx.py", COL, """    idx = 0
    for ch in col.rstrip(b"0123456789"):
        idx = idx * 26 + (ch - 64)
    return idx - 1
""")]),
    dict(id="conc-comprehensions", props=["C08", "C05"], edits=[("chunk/chunk.py", '        temp_idx = []\n        nums_idx = []\n        utf8_idx = []\n        null_idx = set()\n\n        for i, _chunk in enumerate(chunks):\n            if not _chunk.type:\n                null_idx.add(i)\n            elif _chunk.type & TYPE_STRING:\n                utf8_idx.append(i)\n            elif _chunk.type & REPR_TEMPORAL:\n                temp_idx.append(i)\n            else:\n                nums_idx.append(i)\n', """        utf8_idx = [i for i, c in enumerate(chunks) if c.type & TYPE_STRING]
        temp_idx = [i for i, c in enumerate(chunks) if c.type and not c.type & TYPE_STRING and c.type & REPR_TEMPORAL]
        nums_idx = [i for i, c in enumerate(chunks) if c.type and not c.type & (TYPE_STRING | REPR_TEMPORAL)]
""")]),
    dict(id="conc-all", props=["C08", "C05"], edits=[("chunk/chunk.py", '            is_integer = True\n\n            # ? Checking integers:\n            for i in range(len(chunks)):\n                c = chunks[i]\n                if not c.type:\n                    continue\n\n                if not (c.type & REPR_PREPARED):\n                    chunks[i] = (c := c.prepare())\n\n                if not bool(f8_is_i8(chunks[i].data, float_round_prec)):  # type: ignore\n                    is_integer = False\n                    break\n            if is_integer:\n                dtype = I__8\n', """            chunks = [c if not c.type or c.type & REPR_PREPARED else c.prepare() for c in chunks]
            if all(f8_is_i8(c.data, float_round_prec) for c in chunks if c.type):
                dtype = I__8
""")]),
    dict(id="conc-prep-first", props=["C08", "C05"], edits=[("chunk/chunk.py", '            is_integer = True\n\n            # ? Checking integers:\n            for i in range(len(chunks)):\n                c = chunks[i]\n                if not c.type:\n                    continue\n\n                if not (c.type & REPR_PREPARED):\n                    chunks[i] = (c := c.prepare())\n\n                if not bool(f8_is_i8(chunks[i].data, float_round_prec)):  # type: ignore\n                    is_integer = False\n                    break\n            if is_integer:\n                dtype = I__8\n', """            is_integer = True
            for i, c in enumerate(chunks):
                if c.is_null:
                    continue
                chunks[i] = c.prepare()
                is_integer = is_integer and bool(f8_is_i8(chunks[i].data, float_round_prec))
            dtype = I__8 if is_integer else F__8
""")]),
    dict(id="conc-elif", props=["C08"], edits=[("chunk/chunk.py", """        if utf8_fallback:
            chunks = unresolved
            dtype = UTF8
        elif temp_idx:
            dtype = T_MS
        elif nums_idx:
            dtype = F__8
""", """        if not temp_idx and not nums_idx:
            utf8_fallback = True
        if utf8_fallback:
            dtype, chunks = UTF8, unresolved
        elif temp_idx:
            dtype = T_MS
        elif nums_idx:
            dtype = F__8
""")]),
    dict(id="ser-merge", props=["C06"], edits=[("series.py", """        if _row > self.__e_row + 1:
            # ? If current chunk is not already added, add it.
            if self.__chunk:
                self.__pull_chunk()
            # ? Add nulls to chunks
            self.__ch_off = _row - self.__e_row - 1
            # ? Set current type to -1 (NULL)
            self.__xdtr = 0

        # ! If current cell has different type or repr, than pull current chunk, and start another
        if c.xdt != self.__xdtr:
            if self.__chunk:
                self.__pull_chunk()
            self.__xdtr = c.xdt
""", """        gap = _row - self.__e_row - 1
        if gap or self.__xdtr != c.xdt:
            if len(self.__chunk) > 0:
                self.__pull_chunk()
            self.__ch_off = gap
        self.__xdtr = c.xdt
""")]),
    dict(id="ser-nogap", props=["C06"], edits=[("series.py", "            self.__ch_off = _row - self.__e_row - 1\n", "            self.__chunks.append(chunk.nulls(_row - self.__e_row - 1))\n")]),
    dict(id="ser-newlist", props=["C06", "C07"], edits=[("series.py", """        if self.__ch_off:
            self.__chunks.append(chunk.nulls(self.__ch_off))

        self.__chunks.append(c)

        self.__ch_off = 0
        self.__chunk.clear()
""", """        offset, self.__ch_off = self.__ch_off, 0
        if offset > 0:
            self.__chunks.append(chunk.nulls(offset))
        self.__chunks += [c]
        self.__chunk = []
""")]),
    dict(id="ser-helper", props=["C06", "C07", "C08"], edits=[("series.py", """        if self.__chunk:
            self.__pull_chunk()
        if not self.__chunks:
            if length:
                return pa.nulls(length).cast("large_string")
            return pa.nulls(0).cast("large_string")
        return chunk.concatenate(
            self.__chunks,
            offset,
            length,
            idx,
            conf_to_datetime=self._conf_to_datetime,
            conf_to_numerics=self._conf_to_numerics,
            datetime_formats=self._datetime_formats,
            float_round_prec=self._float_round_prec,
        ).cast("large_string")
""", """        return self.to_arrow(offset, length, idx=idx).cast("large_string")
""")]),
    dict(id="ser-dispatch", props=["C06"], edits=[("series.py", """        if self.__xdtr & TYPE_STRING:
            if self.__binary:
                c = chunk.xlsb_strings(
                    self.__chunk,
                    is_shared=bool(self.__xdtr & REPR_SHARED),
                    shareds=self.__shared,
                )
            else:
                c = chunk.xlsx_strings(
                    self.__chunk,
                    is_shared=bool(self.__xdtr & REPR_SHARED),
                    shareds=self.__shared,
                )
""", """        xdt = self.__xdtr
        if xdt & TYPE_STRING:
            make = chunk.xlsb_strings if self.__binary else chunk.xlsx_strings
            if xdt & REPR_SHARED:
                c = make(self.__chunk, is_shared=True, shareds=self.__shared)
            else:
                c = make(self.__chunk)
""")]),
    # ---- sheets
    dict(id="xb-flat", props=["C10", "C14", "C24"], edits=[("reader/xlsb.py", """                if skip_cols and col in skip_cols:
                    continue

                adv_repr""", """                if skip_cols:
                    if col in skip_cols:
                        continue

                adv_repr"""), ("reader/xlsb.py", """                    if (v := r.data[8:12]) not in self.null_shared:
                        yield cell(row - skip_rows, col, TYPE_STRING | REPR_SHARED, v)
                    else:
                        continue
""", """                    v = r.data[8:12]
                    if v in self.null_shared:
                        continue
                    yield cell(row - skip_rows, col, TYPE_STRING | REPR_SHARED, v)
""")]),
    dict(id="xb-outrow", props=["C10"], edits=[("reader/xlsb.py", """        row = -1
        is_empty_row = False

        with""", """        row = -1
        has_data = True

        with"""), ("reader/xlsb.py", """                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                        row += 1
                    # ? If upcoming row number is greater than take_rows, stop iteration
                    if 0 < take_rows < row:
                        break
""", """                    if has_data or take_rows_non_empty or row < skip_rows:
                        row += 1
                    # ? If upcoming row number is greater than take_rows, stop iteration
                    if take_rows and row > take_rows:
                        return
"""), ("reader/xlsb.py", """                    is_empty_row = True
                    continue
""", """                    has_data = False
                    continue
"""), ("reader/xlsb.py", """                is_empty_row = False""", """                has_data = True""")]),
    dict(id="xb-helper", props=["C10", "C14", "C24"], edits=[("reader/xlsb.py", """                    cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
                        "utf-16-le",
                    )
                    if self.null_values(cell_data):
                        continue
""", """                    cell_data = wide_text(r.data)
                    if self.null_values(cell_data):
                        continue
"""), ("reader/xlsb.py", """class XlsbWorkbook:""", """def wide_text(data: bytes) -> str:
    (count,) = u4_u(data[8:12])
    return data[12 : 12 + count * 2].decode("utf-16-le")


class XlsbWorkbook:""")]),
    dict(id="xb-order", props=["C10", "C14", "C24"], edits=[("reader/xlsb.py", """                (col,) = u4_u(r.data[:4])

                if skip_cols and col in skip_cols:
                    continue

                adv_repr = REPR_TEMPORAL if r.data[4:7] in self.styles else 0

                if r.rec_id in {6, 8}:""", """                data = r.data
                col = u4_u(data[:4])[0]
                adv_repr = 0
                if data[4:7] in self.styles:
                    adv_repr = REPR_TEMPORAL

                if skip_cols and col in skip_cols:
                    continue

                if r.rec_id == 6 or r.rec_id == 8:""")]),
    dict(id="xx-string", props=["C11", "C14"], edits=[("reader/xlsx.py", """                if l_tag == "v":
                    parts.append(txt)
""", """                nonlocal text
                if l_tag == "v":
                    text += txt
"""), ("reader/xlsx.py", """            l_tag: str | None = None

            parts: list[str] = []
""", """            l_tag: str | None = None

            text = ""
"""), ("reader/xlsx.py", """                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
""", """                nonlocal row, is_empty_row, c_typ, l_tag, text
"""), ("reader/xlsx.py", """                    cell_th("".join(parts))
                    parts.clear()
                    l_tag = "c"
""", """                    cell_th(text)
                    text = ""
                    l_tag = "c"
""")]),
    dict(id="xx-nested", props=["C11", "C14"], edits=[("reader/xlsx.py", """                if l_tag == "v" and (txt := txt.strip()):
                    if is_sharedstr:
                        # ? Check, that shared string number is not in null-shared
                        if txt in nullss:
                            return
                    # ? Check, that null value predicate is false for this string
                    elif nullpd(txt):
                        return

                    c_col = col_idx(l_col.encode())
                    if not skip_cols or c_col not in skip_cols:
                        o_q.put(
                            cell(
                                c_row - skip_rows,
                                c_col,
                                c_typ,
                                txt.encode("utf-8"),
                            ),
                        )
                        is_empty_row = False
""", """                txt = txt.strip()
                if l_tag != "v" or not txt:
                    return
                is_null = txt in nullss if is_sharedstr else nullpd(txt)
                if is_null:
                    return
                column = col_idx(l_col.encode())
                if skip_cols and column in skip_cols:
                    return
                is_empty_row = False
                o_q.put(cell(row - skip_rows, column, c_typ, txt.encode("utf-8")))
""")]),
    dict(id="xx-while", props=["C11", "C14"], edits=[("reader/xlsx.py", """            yield from iter(o_q.get, sentinel)

""", """            while (item := o_q.get()) is not sentinel:
                yield item

""")]),
    dict(id="xx-closure", props=["C11"], edits=[("reader/xlsx.py", """                    # * If row was empty and take_non_empty, do not increase row number
                    if not is_empty_row or take_non_empty or row < skip_rows:
                        row += 1
""", """                    # * If row was empty and take_non_empty, do not increase row number
                    row += int(not is_empty_row or take_non_empty or row < skip_rows)
"""), ("reader/xlsx.py", """                    if 0 < take_rows < row:
                        raise GeneratorExit
""", """                    if take_rows and take_rows < row:
                        raise GeneratorExit("enough")
""")]),
    dict(id="xx-parts", props=["C11", "C14"], edits=[("reader/xlsx.py", """                elif tag == "v" and l_tag == "v":
                    # ? The parser may pass the text of one value in many parts
                    cell_th("".join(parts))
                    parts.clear()
                    l_tag = "c"
""", """                elif l_tag == tag == "v":
                    value = "".join(parts)
                    parts.clear()
                    cell_th(value)
                    l_tag = "c"
"""), ("reader/xlsx.py", """                        is_sharedstr = attrs.get("t") == "s"
                        if is_sharedstr:
                            c_typ = TYPE_STRING | REPR_SHARED
                        # ? check, if value has temporal or numeric representation
                        elif typ := styles.get(attrs.get("s", "0")):
                            c_typ = typ
                        else:
                            c_typ = TYPE_STRING | REPR_PREPARED
""", """                        is_sharedstr = "t" in attrs and attrs["t"] == "s"
                        c_typ = TYPE_STRING | REPR_SHARED if is_sharedstr else styles.get(attrs.get("s", "0"), TYPE_STRING | REPR_PREPARED)
""")]),
    # ---- shared strings
    dict(id="xb-shared-loop", props=["C14", "C24"], edits=[("reader/xlsb.py", """            return pa.array(
                (self.null_shared.add(u4_p(i)) or y)
                if self.null_values(
                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                )
                else y
                for i, r in enumerate(scan_biff(io, {19}))
            ).cast("large_string")
""", """            texts = []
            for i, r in enumerate(scan_biff(io, {19})):
                (count,) = u4_u(r.data[1:5])
                text = r.data[5 : 5 + count * 2].decode("utf-16-le")
                if self.null_values(text):
                    self.null_shared.add(u4_p(i))
                texts.append(text)
            return pa.array(texts).cast("large_string")
""")]),
    dict(id="xx-shared-count", props=["C13", "C14"], edits=[("reader/xlsx.py", """                    txt = "".join(parts).strip()
                    if not txt or self.null_values(txt):
                        ret.append(None)  # type: ignore
                        self.null_shared.add(str(len(ret) - 1))
                    else:
                        ret.append(txt)
""", """                    txt = "".join(parts).strip()
                    if txt and not self.null_values(txt):
                        ret.append(txt)
                    else:
                        self.null_shared.add(str(len(ret)))
                        ret.append(None)  # type: ignore
""")]),
    dict(id="xx-shared-state", props=["C13", "C14"], edits=[("reader/xlsx.py", """                if tag == "si":
                    parts.clear()
                elif tag == "rPh":
                    phonetic = True
                elif tag == "t":
                    must_be = not phonetic
""", """                must_be = tag == "t" and not phonetic
                if tag == "rPh":
                    phonetic = True
                if tag == "si":
                    parts.clear()
""")]),
    # ---- records, strings
    dict(id="biff-size", props=["C01", "C02"], edits=[("biff.py", """    def dump(self, io: IO[bytes]) -> int:
        io.write(self.as_binary())

        return io.tell()
""", """    def dump(self, io: IO[bytes]) -> int:
        binary = self.as_binary()
        io.write(binary)
        position = io.tell()
        return position
"""), ("biff.py", """        sz = len(self.data)
        return b"".join(
            [
                u2_p(self.rec_id) if self.rec_id & 0x80 else u1_p(self.rec_id),
                b1_st_p(sz)
                if sz < 0x80
                else b2_st_p(sz & 0x7F | 0x80, sz >> 7)
                if sz < 0x4000
                else b3_st_p(sz & 0x7F | 0x80, (sz >> 7) & 0x7F | 0x80, sz >> 14)
                if sz < 0x200000
                else b4_st_p(
                    sz & 0x7F | 0x80,
                    (sz >> 7) & 0x7F | 0x80,
                    (sz >> 14) & 0x7F | 0x80,
                    sz >> 21,
                ),
                self.data,
            ],
        )
""", """        head = u2_p(self.rec_id) if self.rec_id & 0x80 else u1_p(self.rec_id)
        return head + dump_sz(len(self.data)) + self.data
""")]),
    # ---- sheet lists
    dict(id="sh-helper", props=["C21"], edits=[("reader/xlsx.py", """                rId_to_file[rel.Id] = (
                    rel.Target[1:]
                    if rel.Target.startswith("/")
                    else f"xl/{rel.Target}"
                )
""", """                target = rel.Target
                if target.startswith("/"):
                    rId_to_file[rel.Id] = target.removeprefix("/")
                else:
                    rId_to_file[rel.Id] = "xl/" + target
"""), ("reader/xlsx.py", """        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
""", """        return {name: rId_to_file[key] for key, name in rId_to_name.items()}
""")]),
    dict(id="sh-list", props=["C21"], edits=[("reader/xlsx.py", """            def st_handler(tag: str, attr: dict[str, str]) -> None:
                nonlocal rId_to_name
                if tag == "sheet":
                    rId_to_name[attr["r:id"]] = attr["name"]
""", """            def st_handler(tag: str, attr: dict[str, str]) -> None:
                if tag == "sheet":
                    order.append((attr["name"], attr["r:id"]))
"""), ("reader/xlsx.py", """        rId_to_name = {}  # noqa: N806
""", """        order: list[tuple[str, str]] = []
"""), ("reader/xlsx.py", """        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
""", """        found = {}
        for name, key in order:
            found[name] = rId_to_file[key]
        return found
""")]),
    dict(id="sh-xlsb", props=["C21"], edits=[("reader/xlsb.py", """            for _sheet in scan_biff(io, {412}):
                _sheet = BrtBundleSh.loadr(_sheet)

                sheet_file = "xl/" + next(
                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
                )

                if sheet_file.startswith("xl//"):  # absolute target
                    sheet_file = sheet_file[4:]

                s_sheet_idx[_sheet.strName.value] = sheet_file
""", """            targets = {rel.Id: rel.Target for rel in wb_rels}
            for rec in scan_biff(io, {412}):
                bundle = BrtBundleSh.loadr(rec)
                target = targets[bundle.strRelID.value]
                s_sheet_idx[bundle.strName.value] = target[1:] if target.startswith("/") else f"xl/{target}"
""")]),
    dict(id="sh-select", props=["C21", "C10"], edits=[("reader/xlsb.py", """            if not (0 <= sheet < len(_sheets)):
                raise IndexError(sheet)
            sheet_path = next(
                y for i, (_, y) in enumerate(self.sheets.items()) if i == sheet
            )
        else:
            if sheet not in _sheets:
                raise KeyError(sheet)
            sheet_path = self.sheets[sheet]
""", """            if sheet < 0 or sheet >= len(_sheets):
                raise IndexError(sheet)
            sheet_path = list(_sheets.values())[sheet]
        else:
            sheet_path = _sheets[sheet]
""")]),
    dict(id="sh-loadr", props=["C21"], edits=[("biff_recs.py", """        with BytesIO(rc.data[8:]) as io:
            return BrtBundleSh(*u44_u(rc.data[:8]), xstr.load(io), xstr.load(io))
""", """        state, number = u44_u(rc.data[:8])
        with BytesIO(rc.data) as io:
            io.seek(8)
            rel_id = xstr.load(io)
            name = xstr.load(io)
        return BrtBundleSh(state, number, rel_id, name)
""")]),
    dict(id="st-loops", props=["C15"], edits=[("reader/xlsb.py", """                xf_ids = [x for x, y in xfs.items() if y == f_id]
                if fmt == "0":
                    continue
                if re_dt.search(re_xt.sub("", fmt)):
                    ret.update(xf_ids)
""", """                if not re_dt.search(re_xt.sub("", fmt)):
                    continue
                for style, number in xfs.items():
                    if number == f_id:
                        ret.add(style)
"""), ("reader/xlsx.py", """        ret_temporal.update(
            (
                x
                for x, y in xfs.items()
                if int(y) in TEMPORAL_STYLES and x not in ret_temporal
            ),
        )

        ret_numerics.update(
            (
                x
                for x, y in xfs.items()
                if int(y) in NUMERIC_STYLES and x not in ret_numerics
            ),
        )
""", """        for style, number in xfs.items():
            if int(number) in TEMPORAL_STYLES:
                ret_temporal.add(style)
            elif int(number) in NUMERIC_STYLES:
                ret_numerics.add(style)
""")]),
    dict(id="st-helper", props=["C15"], edits=[("reader/xlsx.py", """            if re_dt.search(re_xt.sub("", fmt)):
                ret_temporal.update(xf_id)

            elif fmt == "0" or ".00" in fmt:
                ret_numerics.update(xf_id)
""", """            plain = re_xt.sub("", fmt)
            is_date = re_dt.search(plain) is not None
            if is_date:
                ret_temporal |= set(xf_id)
            if not is_date and (".00" in fmt or fmt == "0"):
                ret_numerics |= set(xf_id)
"""), ("reader/xlsx.py", """                    xfs[str(xfs_id)] = attrs["numFmtId"]
                    xfs_id += 1
""", """                    number = attrs["numFmtId"]
                    xfs[f"{xfs_id}"] = number
                    xfs_id = xfs_id + 1
""")]),
    dict(id="st-inverse", props=["C15"], edits=[("reader/xlsb.py", """            for f_id, fmt in fms.items():
                xf_ids = [x for x, y in xfs.items() if y == f_id]
                if fmt == "0":
                    continue
                if re_dt.search(re_xt.sub("", fmt)):
                    ret.update(xf_ids)

            # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
            ret.update((
                    x
                    for x, y in xfs.items()
                    if int.from_bytes(y, "little") in TEMPORAL_STYLES
                ))

            return frozenset(ret)  # type: ignore
""", """            date_formats = {f_id for f_id, fmt in fms.items() if re_dt.search(re_xt.sub("", fmt))}

            return frozenset(
                x for x, y in xfs.items() if y in date_formats or int.from_bytes(y, "little") in TEMPORAL_STYLES
            )
""")]),

    dict(id="rd-arrays-loop", props=READ, edits=[(RC, """    arrays = [columns[x].to_arrow(g_offset, g_length, idx=idx) for x in sorted(columns)]
""", """    arrays = []
    for number in sorted(columns):
        series = columns[number]
        arrays.append(series.to_arrow(g_offset, g_length, idx=idx))
""")]),
    dict(id="rd-filters-loop", props=READ, edits=[(RC, """            filters = [
                columns[x]
                for name, x in zip(header, sorted(columns))
                if re.match(row_filters, name)
            ]
""", """            for name, number in zip(header, sorted(columns)):
                if re.match(row_filters, name) is not None:
                    filters.append(columns[number])
"""), (RC, """                filters = [
                    columns[x]
                    for i, x in enumerate(sorted(columns))
                    if i in row_filters
                ]
""", """                for place, number in enumerate(sorted(columns)):
                    if place in row_filters:
                        filters.append(columns[number])
""")]),
    dict(id="rd-order", props=READ, edits=[(RC, """    filters = []
    if row_filters:
""", """    order = sorted(columns)
    filters = []
    if row_filters:
"""), (RC, """                for name, x in zip(header, sorted(columns))
                if re.match(row_filters, name)
""", """                for name, x in zip(header, order)
                if re.match(row_filters, name)
"""), (RC, "                    for i, x in enumerate(sorted(columns))\n", "                    for i, x in enumerate(order)\n"),
        (RC, "for x in sorted(columns)]\n\n    if dtypes", "for x in order]\n\n    if dtypes")]),
    dict(id="rd-combine", props=READ, edits=[(RC, """            idx = reduce(
                pc.or_,
                boolean_filters,
            ).cast("bool")
        elif""", """            idx = boolean_filters[0]
            for mask in boolean_filters[1:]:
                idx = pc.or_(idx, mask)
            idx = idx.cast("bool")
        elif""")]),
    dict(id="rd-combine-helper", props=READ, edits=[(RC, """            idx = reduce(
                pc.or_,
                boolean_filters,
            ).cast("bool")
        elif row_filters_strategy == "and":
            idx = reduce(
                pc.and_,
                boolean_filters,
            ).cast("bool")
""", """            idx = _fold(pc.or_, boolean_filters)
        elif row_filters_strategy == "and":
            idx = _fold(pc.and_, boolean_filters)
"""), (RC, """def read(  # noqa""", """def _fold(op, masks):
    return reduce(op, masks).cast("bool")


def read(  # noqa""")]),
    dict(id="rd-cast-helper", props=READ, edits=[(RC, """            for i in range(len(arrays)):
                if arrays[i].type != dtypes:
                    try:
                        arrays[i] = arrays[i].cast(dtypes)
                    except Exception:  # noqa: BLE001
                        msg = f"Column {header[i]} cannot be cast to dtype {dtypes!r}"
                        raise ValueError(
                            msg,
                        ) from None
""", """            for i in range(len(arrays)):
                arrays[i] = _as_type(arrays[i], dtypes, header[i])
"""), (RC, """                    dtype = dtypes[col]
                    if arrays[i].type != dtype:
                        try:
                            arrays[i] = arrays[i].cast(dtype)
                        except Exception:  # noqa: BLE001
                            msg = f"Column {col} cannot be cast to dtype {dtype!r}"
                            raise ValueError(
                                msg,
                            ) from None
""", """                    arrays[i] = _as_type(arrays[i], dtypes[col], col)
"""), (RC, """def read(  # noqa""", """def _as_type(array, dtype, label):
    if array.type == dtype:
        return array
    try:
        return array.cast(dtype)
    except Exception:  # noqa: BLE001
        msg = f"Column {label} cannot be cast to dtype {dtype!r}"
        raise ValueError(msg) from None


def read(  # noqa""")]),
    dict(id="rd-cast-list", props=READ, edits=[(RC, """            for i in range(len(arrays)):
                if arrays[i].type != dtypes:
""", """            for i, array in enumerate(arrays):
                if array.type != dtypes:
"""), (RC, """            for i, dtype in enumerate(dtypes):
                if arrays[i].type != dtype:
                    try:
                        arrays[i] = arrays[i].cast(dtype)
                    except Exception:  # noqa: BLE001
                        msg = f"Column {i} ({header[i]!r})""", """            for i, (col, dtype) in enumerate(zip(header, dtypes)):
                if arrays[i].type != dtype:
                    try:
                        arrays[i] = arrays[i].cast(dtype)
                    except Exception:  # noqa: BLE001
                        msg = f"Column {i} ({col!r})""")]),
    dict(id="rd-get", props=READ, edits=[(RC, """            if _cell.col not in _columns:
                _columns[_cell.col] = xl_series(
                    _reader.shared,
                    binary,
                    conflict_resolve=conflict_resolve,
                    datetime_formats=datetime_formats,
                    float_precision=float_precision,
                )

            _columns[_cell.col].add(_cell)
""", """            series = _columns.get(_cell.col)
            if series is None:
                series = xl_series(
                    _reader.shared,
                    binary,
                    conflict_resolve=conflict_resolve,
                    datetime_formats=datetime_formats,
                    float_precision=float_precision,
                )
                _columns[_cell.col] = series

            series.add(_cell)
""")]),
    dict(id="rd-try", props=READ, edits=[(RC, """            if _cell.col not in _columns:
                _columns[_cell.col] = xl_series(
                    _reader.shared,
                    binary,
                    conflict_resolve=conflict_resolve,
                    datetime_formats=datetime_formats,
                    float_precision=float_precision,
                )

            _columns[_cell.col].add(_cell)
""", """            try:
                series = _columns[_cell.col]
            except KeyError:
                series = _columns[_cell.col] = xl_series(
                    _reader.shared,
                    binary,
                    conflict_resolve=conflict_resolve,
                    datetime_formats=datetime_formats,
                    float_precision=float_precision,
                )

            series.add(_cell)
""")]),
    dict(id="rd-factory", props=READ, edits=[(RC, """    with Reader(file, null_values=null_values) as _reader:
        for _cell""", """    def _new_column():
        return xl_series(
            _reader.shared,
            binary,
            conflict_resolve=conflict_resolve,
            datetime_formats=datetime_formats,
            float_precision=float_precision,
        )

    with Reader(file, null_values=null_values) as _reader:
        for _cell"""), (RC, """                _columns[_cell.col] = xl_series(
                    _reader.shared,
                    binary,
                    conflict_resolve=conflict_resolve,
                    datetime_formats=datetime_formats,
                    float_precision=float_precision,
                )

            _columns""", """                _columns[_cell.col] = _new_column()

            _columns""")]),
    dict(id="rd-reader-helper", props=READ, edits=[(RC, """    with ZipFile(file) as zf:
        content = zf.namelist()

        Reader: type[XlsxWorkbook]  # noqa: N806
        if "xl/workbook.xml" in content:
            Reader = XlsxWorkbook  # noqa: N806
            binary = False
        elif "xl/workbook.bin" in content:
            Reader = XlsbWorkbook  # type: ignore  # noqa: N806
            binary = True
        else:
            msg = "Invalid file content: workbook file not found!"
            raise AssertionError(msg)

""", """    Reader, binary = _kind_of(file)  # noqa: N806

"""), (RC, """def read(  # noqa""", """def _kind_of(file):
    with ZipFile(file) as zf:
        content = zf.namelist()

    if "xl/workbook.xml" in content:
        return XlsxWorkbook, False
    if "xl/workbook.bin" in content:
        return XlsbWorkbook, True
    msg = "Invalid file content: workbook file not found!"
    raise AssertionError(msg)


def read(  # noqa""")]),
    dict(id="rd-maxlen", props=READ, edits=[(RC, """    max_len = max(len(x) for x in columns.values())
""", """    max_len = max(map(len, columns.values()))
"""), (RC, """    g_offset = header_height + first_row + skip_rows_after_header
    g_length = max_len - header_height - skip_rows_after_header
""", """    skipped = header_height + skip_rows_after_header
    g_offset = first_row + skipped
    g_length = max_len - skipped
""")]),
    dict(id="rd-header", props=READ, edits=[(RC, """    header_height = 0
    if header != 0:
        if isinstance(header, (int, bool)):
            header_height = int(header)
            header = __make_header(columns, first_row, header)
        else:  # noqa: PLR5501
            if len(header) != len(columns):
                msg = f"{len(columns)} headers must be passed. {len(header)} found"
                raise ValueError(
                    msg,
                )
    else:
        header = [f"Unnamed. {i}" for i, _ in enumerate(columns)]
""", """    header_height = 0
    if header == 0:
        header = [f"Unnamed. {i}" for i in range(len(columns))]
    elif isinstance(header, int):
        header_height = int(header)
        header = __make_header(columns, first_row, header_height)
    elif len(header) != len(columns):
        msg = f"{len(columns)} headers must be passed. {len(header)} found"
        raise ValueError(msg)
""")]),
    dict(id="rd-masks-loop", props=READ, edits=[(RC, """        boolean_filters = [
            pc.invert(x.to_arrow(g_offset, g_length).is_null(nan_is_null=True))
            for x in filters
        ]
""", """        boolean_filters = []
        for column in filters:
            values = column.to_arrow(g_offset, g_length)
            boolean_filters.append(pc.invert(values.is_null(nan_is_null=True)))
""")]),
    dict(id="rd-ops-index", props=READ, edits=[(RC, """            i_boolean_filters = iter(boolean_filters)
            idx = next(i_boolean_filters)

            for op, boolean_filter in zip(row_filters_strategy, i_boolean_filters):
                if op == "and":
                    idx = pc.and_(idx, boolean_filter)
                else:
                    idx = pc.or_(idx, boolean_filter)
""", """            idx = boolean_filters[0]
            for i, op in enumerate(row_filters_strategy):
                combine = pc.and_ if op == "and" else pc.or_
                idx = combine(idx, boolean_filters[i + 1])
""")]),
    dict(id="fh-flags", props=["C17"], edits=[(RC, """        if not chunk.sum().as_py():
            continue

        return chunk.to_pylist().index(True)
    return -1
""", """        flags = chunk.to_pylist()
        if True in flags:
            return flags.index(True)

    return -1
""")]),
    dict(id="fh-enum", props=["C17"], edits=[(RC, """        if not chunk.sum().as_py():
            continue

        return chunk.to_pylist().index(True)
    return -1
""", """        for row, found in enumerate(chunk.to_pylist()):
            if found:
                return row

    return -1
""")]),
    dict(id="fh-helper", props=["C17"], edits=[(RC, """    for col in columns.values():
        chunk = pc.match(
            col.to_utf8(min_row, max_head_length),
            pattern,
            ignore_case=ignore_case,
        )
        if not chunk.sum().as_py():
            continue

        return chunk.to_pylist().index(True)
    return -1
""", """    def first_match(series):
        texts = series.to_utf8(min_row, max_head_length)
        flags = pc.match(texts, pattern, ignore_case=ignore_case)
        return flags.to_pylist().index(True) if flags.sum().as_py() else -1

    for number in columns:
        row = first_match(columns[number])
        if row >= 0:
            return row
    return -1
""")]),
    dict(id="mh-loop", props=["C16"], edits=[(RC, """        hdrs = [
            x if (x := columns[col_idx].to_utf8(first_row, 1)[0].as_py()) else "Unnamed"
            for col_idx in sorted(columns)
        ]
""", """        hdrs = []
        for col_idx in sorted(columns):
            text = columns[col_idx].to_utf8(first_row, 1)[0].as_py()
            hdrs.append(text or "Unnamed")
""")]),
    dict(id="mh-merge", props=["C16"], edits=[(RC, """        raw_hdrs = [
            dict(enumerate(columns[col_idx].to_utf8(first_row, length).to_pylist()))
            for col_idx in sorted(columns)
        ]

        prev_hdr = {}

        hdrs = []

        for parts in raw_hdrs:
""", """        prev_hdr = {}
        hdrs = []

        for col_idx in sorted(columns):
            parts = dict(enumerate(columns[col_idx].to_utf8(first_row, length).to_pylist()))
""")]),
    dict(id="mh-guard", props=["C16"], edits=[(RC, """            if (
                top_index := next((i for i, x in parts.items() if x is not None), -1)
            ) >= 0:
                if prev_hdr:
                    parts.update({i: x for i, x in prev_hdr.items() if i < top_index})

                prev_hdr = parts

                hdrs.append(
                    ", ".join(h for x in sorted(parts) if (h := parts[x])) or "Unnamed",
                )
            else:
                hdrs.append("Unnamed")
""", """            top_index = next((i for i, x in parts.items() if x is not None), None)
            if top_index is None:
                hdrs.append("Unnamed")
                continue

            for i, x in prev_hdr.items():
                if i < top_index:
                    parts[i] = x
            prev_hdr = parts

            texts = [parts[i] for i in sorted(parts) if parts[i]]
            hdrs.append(", ".join(texts) or "Unnamed")
""")]),
    dict(id="mh-helper", props=["C16"], edits=[(RC, """    result_hdrs = []

    for hdr in hdrs:
        n = hdr
        i = 1
        while n in result_hdrs:
            n = f"{hdr}.{i}"
            i += 1

        result_hdrs.append(n)

    return result_hdrs
""", """    result_hdrs = []
    for hdr in hdrs:
        result_hdrs.append(_free_name(hdr, result_hdrs))

    return result_hdrs


def _free_name(hdr, taken):
    name, i = hdr, 0
    while True:
        if name not in taken:
            return name
        i += 1
        name = f"{hdr}.{i}"
""")]),
    dict(id="mh-set", props=["C16"], edits=[(RC, """    for hdr in hdrs:
        n = hdr
        i = 1
        while n in result_hdrs:
            n = f"{hdr}.{i}"
            i += 1

        result_hdrs.append(n)
""", """    seen = set()
    for hdr in hdrs:
        n = hdr
        i = 1
        while n in seen:
            n = f"{hdr}.{i}"
            i += 1

        seen.add(n)
        result_hdrs.append(n)
""")]),
]
