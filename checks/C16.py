"""C16: data handlers pass on every record of arrays and CSV files."""
import csv
import os
import pathlib
from datetime import datetime, timedelta

import numpy as np

from hrosailing.processing.datahandler import ArrayHandler, CsvFileHandler
from hrv import Check, gen

check = Check(
    "C16",
    "Generated tables (number of rows from none to many, numbers of all "
    "magnitudes, integers, numeric text, words, time stamps, missing cells) "
    "are given as arrays with names, data frames and written CSV files, and "
    "the handled data is compared cell by cell with the table.",
    ["column names are distinct and of distinct meaning (clashes: C15)",
     "missing values of data frames may stay NaN or become None"],
)

NAMES = [("TWS", ["TWS", "tws", "Wind_speed", "true wind speed"]),
         ("TWA", ["TWA", "wind angle", "TRUE-WIND-ANGLE"]),
         ("BSP", ["BSP", "boat speeds", "Boat_Speed"]),
         ("lat", ["lat", "Latitude"]), ("lon", ["lon", "LONGITUDE"]),
         ("heel", ["heel"]), ("Rudder 1", ["Rudder 1"]), ("crew", ["crew"]),
         ("datetime", ["datetime", "Date Time", "date_time"])]


def number(rng):
    k = int(rng.integers(5))
    if k == 0:
        return float(int(rng.integers(-50, 360)))
    if k == 1:
        return float(np.round(rng.uniform(-30, 360), 3))
    if k == 2:
        return float(rng.standard_normal())
    if k == 3:
        return float(rng.uniform(1, 9) * 10.0 ** int(rng.integers(-12, 12)))
    return 0.0


def stamp(rng):
    return datetime(2023, 12, 30) + timedelta(
        seconds=int(rng.integers(10 ** 6)), microseconds=int(
            rng.integers(10 ** 6)))


def table(m, n, kinds, missing):
    """(standard name, given name, kind, values)"""
    rng = m.rng
    cols = []
    for i in rng.permutation(len(NAMES))[:int(rng.integers(1, 7))]:
        std, given = NAMES[i]
        kind = gen.pick(rng, kinds)
        if std == "datetime":
            if "stamp" not in kinds:
                continue
            kind = "stamp"
        elif kind == "stamp":
            kind = "number"
        make = {"number": number, "int": lambda r: int(r.integers(-9, 400)),
                "word": lambda r: gen.pick(r, ["jib", "spi 2", "a,b", 'x"y']),
                "stamp": stamp}[kind]
        values = [make(rng) for _ in range(n)]
        if missing and kind != "word":
            values = [None if gen.chance(rng, 0.2) else v for v in values]
        cols.append((std, gen.pick(rng, given), kind, values))
    if cols:
        return cols
    if kinds == ["int"]:
        return [("TWS", "TWS", "int", [int(rng.integers(9)) for _ in range(n)])]
    return [("TWS", "TWS", "number", [number(rng) for _ in range(n)])]


def judge(m, d, cols, n, rtol=0.0, nan=False):
    m.equal(sorted(d.keys()), sorted(c[0] for c in cols), "columns")
    m.equal(d.n_rows, n if cols else 0, "row-count")
    for std, _, kind, values in cols:
        got = list(d[std])
        m.equal(len(got), n, "row-count", std)
        for g, w in zip(got, values):
            if w is None:
                m.ok(g is None or (nan and g != g), "missing", f"{std}: {g}")
            elif kind in ("number", "int"):
                m.ok(isinstance(g, float), "float", f"{std}: {g!r}")
                m.ok(abs(g - w) <= rtol * abs(w), "value",
                     f"{std}: {g!r} instead of {w!r}")
            elif kind == "stamp":
                m.ok(isinstance(g, datetime) and g == w, "time-stamp",
                     f"{std}: {g!r} instead of {w!r}")
            else:
                m.equal(g, w, "text", std)
            m.event("cell")
    m.event("record", n)


def rows_of(rng):
    return gen.scaled(rng, gen.pick(
        rng, [0, 1, 2, 3, 5, 12, 40] * 4 + [600]))


@check.case(quick=250, thorough=3000)
def arrays(m):
    rng = m.rng
    n = rows_of(rng)
    how = gen.pick(rng, ["float", "int", "object", "text", "lists"])
    kinds = {"float": ["number"], "int": ["int"], "text": ["number", "int"],
             "object": ["number", "int", "stamp", "word"],
             "lists": ["number", "int", "stamp"]}[how]
    cols = table(m, n, kinds, how in ("object", "lists") and n > 0)
    names = [c[1] for c in cols]
    rows = [[c[3][i] for c in cols] for i in range(n)]
    m.given(names=names, rows=rows, how=how)
    if how == "lists" and n:
        arr = rows
    elif n == 0:
        arr = np.empty((0, len(cols)))
    else:
        if how == "text":
            rows = [[repr(v) for v in r] for r in rows]
        arr = np.array(rows, dtype={"float": float, "int": int, "text": str,
                                    "object": object}[how])
        if how == "float":
            arr = np.asfortranarray(arr) if gen.chance(rng, 0.5) else arr
    keys = gen.pick(rng, [tuple(names), list(names), np.array(names)])
    h = ArrayHandler()
    with m.unmutated("caller-array", arr=arr, keys=keys):
        d = h.handle((arr, keys))
        judge(m, d, cols, n)
        # what is handed out is not the caller's
        d.update({c[0]: [None] for c in cols})
    m.equal((h.get_latest_statistics()["n_rows"], h.get_latest_statistics()["n_cols"]),
            (n, len(cols)), "statistics")


@check.case(quick=150, thorough=2000)
def frames(m):
    import pandas as pd

    rng = m.rng
    n = rows_of(rng)
    cols = table(m, n, ["number", "int", "word", "stamp"], False)
    frame = pd.DataFrame({c[1]: c[3] for c in cols})
    if gen.chance(rng, 0.4) and n:
        frame.index = [f"r{i}" for i in rng.permutation(n)]
    if gen.chance(rng, 0.3) and n:
        numeric = [c for c in cols if c[2] == "number"]
        for c in numeric:
            k = int(rng.integers(n))
            c[3][k] = None
            frame.iloc[k, frame.columns.get_loc(c[1])] = np.nan
    m.given(cols=cols)
    before = frame.copy(deep=True)
    d = ArrayHandler().handle(frame)
    judge(m, d, cols, n, nan=True)
    m.ok(frame.equals(before) and list(frame.index) == list(before.index)
         and list(frame.columns) == list(before.columns), "caller-frame")


FORMATS = ["%Y-%m-%d %H:%M:%S.%f", "%d.%m.%Y %H:%M:%S.%f",
           "%m/%d/%y %I:%M:%S.%f %p", "%Y%m%dT%H%M%S%f"]


def write(m, path, cols, n, fmt, dialect):
    rng = m.rng
    padded = gen.chance(rng, 0.3)

    def cell(kind, v):
        if v is None:
            return ""
        if kind == "stamp":
            pad = gen.pick(rng, ["", "", " ", "  "]) if padded else ""
            return pad + v.strftime(fmt) + pad
        if kind == "word":
            return repr(v) if "'" not in v else v
        return repr(v)

    with open(path, "w", encoding="utf-8", newline="") as f:
        w = csv.writer(f, lineterminator=gen.pick(rng, ["\n", "\r\n"]),
                       quoting=dialect)
        w.writerow([c[1] for c in cols])
        for i in range(n):
            w.writerow([cell(c[2], c[3][i]) for c in cols])


def handler(m, fmt):
    h = CsvFileHandler(fmt) if fmt != FORMATS[0] or m.rng.random() < 0.5 \
        else CsvFileHandler()
    plain = gen.chance(m.rng, 0.4) and hasattr(h, "pand")
    if plain:  # as if pandas were not installed
        h.pand = False
    m.state("reader", "csv" if plain else "pandas")
    return h, plain


@check.case(quick=250, thorough=3000)
def csv_files(m):
    rng = m.rng
    n = rows_of(rng)
    fmt = gen.pick(rng, FORMATS)
    cols = table(m, n, ["number", "int", "word", "stamp"], n > 0)
    if len(cols) == 1:  # a line of one empty cell is a blank line
        c = cols[0]
        cols = [(c[0], c[1], c[2], [1.5 if v is None and c[2] == "number"
                                    else 7 if v is None and c[2] == "int"
                                    else datetime(2020, 1, 1) if v is None
                                    else v for v in c[3]])]
    path = os.path.join(m.scratch(), "data.csv")
    write(m, path, cols, n, fmt, gen.pick(
        rng, [csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
    with open(path, "rb") as f:
        raw = f.read()
    m.given(raw=raw.decode(), fmt=fmt)
    h, plain = handler(m, fmt)
    d = h.handle(pathlib.Path(path) if gen.chance(rng, 0.4) else path)
    judge(m, d, cols, n, rtol=1e-14)
    m.equal((h.get_latest_statistics()["n_rows"], h.get_latest_statistics()["n_cols"]),
            (n, len(cols)), "statistics")
    with open(path, "rb") as f:
        m.ok(f.read() == raw, "caller-file")


@check.case(quick=120, thorough=1000)
def malformed(m):
    rng = m.rng
    n = int(rng.integers(1, 6))
    arr = np.round(rng.uniform(0, 30, (n, 3)), 2)
    names = ["TWS", "TWA", "BSP"]
    anything = Exception
    how = gen.pick(rng, ["few", "many", "no-names", "flat"])
    bad = {"few": (arr, names[:2]), "many": (arr, names + ["lat"]),
           "no-names": (arr, []), "flat": (arr[0], names)}[how]
    m.given(how=how, arr=arr)
    m.raises(anything, lambda: ArrayHandler().handle(bad), "rejects-names",
             how)
    # entries which are neither numbers, time stamps nor literals
    cols = [("TWS", "TWS", "number", [number(rng) for _ in range(n)]),
            ("datetime", "datetime", "stamp", [stamp(rng) for _ in range(n)])]
    path = os.path.join(m.scratch(), "bad.csv")
    write(m, path, cols, n, "%Y/%m/%d %H:%M:%S.%f", csv.QUOTE_MINIMAL)
    h, _ = handler(m, FORMATS[0])
    m.raises((RuntimeError, ValueError), lambda: h.handle(path),
             "rejects-date-format")
    with open(path, "w", encoding="utf-8") as f:
        f.write("TWS,TWA,BSP\n")
        k = int(rng.integers(n))
        for i in range(n):
            if i == k:
                f.write(gen.pick(rng, ["1.5,2..5,3", "1,2,12:30", "1,2,a b",
                                       "jib,2,3", "1,nil,2", "1,2,spi2",
                                       "in,2,3", "1,class,2", "1,2,or",
                                       "+-1,2,3"]) + "\n")
            else:
                f.write(f"{i},{i + 1},{i + 2}\n")
    h, _ = handler(m, FORMATS[0])
    m.raises((RuntimeError, ValueError), lambda: h.handle(path),
             "rejects-entry")
    # more entries than names: never read into the wrong columns
    with open(path, "w", encoding="utf-8") as f:
        f.write("TWS,TWA,BSP\n")
        for i in range(n):
            f.write("90,10,20,30\n")
    h, _ = handler(m, FORMATS[0])
    m.raises(anything, lambda: h.handle(path), "rejects-long-rows")
    m.raises(OSError, lambda: h.handle(path + ".missing"), "rejects-no-file")
    # short rows are missing their last entries
    with open(path, "w", encoding="utf-8") as f:
        f.write("TWS,TWA,BSP\n")
        for i in range(n):
            f.write(f"{i + 1},{i + 30}\n" if i % 2 else
                    f"{i + 1},{i + 30},{i / 4}\n")
    h, _ = handler(m, FORMATS[0])
    d = h.handle(path)
    m.equal([(r["TWS"], r["TWA"], r["BSP"]) for r in d.rows()],
            [(float(i + 1), float(i + 30), None if i % 2 else i / 4)
             for i in range(n)], "short-rows")
    m.event("malformed", 6)


gen.large_case(check, arrays, 3000)
gen.large_case(check, frames, 3000)
gen.large_case(check, csv_files, 3000)
