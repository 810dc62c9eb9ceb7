"""C15: standardizing column names keeps all data under standard names."""
import copy
import re
from datetime import date, datetime, time, timedelta
from decimal import Decimal

import numpy as np

from hrosailing.core.constants import KEYSYNONYMS, SEPARATORS
from hrosailing.core.data import Data
from hrv import Check, gen

check = Check(
    "C15",
    "Data with spellings of all synonyms (case, separators, plural), unknown "
    "names and clashes, holding numbers of every kind, numeric and other "
    "text, dates, times and missing values, is standardized; an independent "
    "matcher decides which standard name each column belongs to, and values "
    "are matched to columns by content.",
    ["the synonym table defines the known names; columns of one standard "
     "name beyond the first are numbered as control values"],
)

# the documented synonyms, independent of the code
MINIMAL = {
    "wind": "TWS", "wind speed": "TWS", "true": "TWS", "true wind": "TWS",
    "true wind speed": "TWS", "ws": "TWS", "tws": "TWS", "wspd": "TWS",
    "apparent wind speed": "AWS", "apparent wind": "AWS", "apparent": "AWS",
    "aws": "AWS", "angle": "TWA", "wind angle": "TWA", "true angle": "TWA",
    "true wind angle": "TWA", "wa": "TWA", "twa": "TWA",
    "apparent wind angle": "AWA", "apparent angle": "AWA", "awa": "AWA",
    "speed": "BSP", "boat speed": "BSP", "boat speed knots": "BSP",
    "vessel speed": "BSP", "vessel speed knots": "BSP", "sp": "BSP",
    "bsp": "BSP", "bsps": "BSP", "water speed": "BSP",
    "water speed knots": "BSP", "wsp": "BSP", "speed over ground": "SOG",
    "speed over ground knots": "SOG", "og": "SOG", "sog": "SOG",
    "spd over grnd": "SOG", "date": "date", "datestamp": "date",
    "date stamp": "date", "time": "time", "timestamp": "time",
    "time stamp": "time", "datetime": "datetime", "date time": "datetime",
    "lat": "lat", "latitude": "lat", "lon": "lon", "long": "lon",
    "longitude": "lon", "temp": "temp", "temperature": "temp",
    "dewpoint": "dewpoint", "dewpt": "dewpoint", "dwpt": "dewpoint",
    "dwpoint": "dewpoint", "rel humidity": "humidity",
    "relative humidity": "humidity", "rel hum": "humidity",
    "relative hum": "humidity", "rhum": "humidity", "relhum": "humidity",
    "hum": "humidity", "humidity": "humidity", "wd": "WD", "wdir": "WD",
    "winddir": "WD", "wpgt": "gust", "pres": "air pressure",
    "tsun": "total sunshine",
}
BETWEEN = "".join({*",;_-+&\n\t", *SEPARATORS})
TIMES = ("date", "time", "datetime")


def spell(rng, name):
    """a spelling of a synonym"""
    words = name.split(" ")
    sep = lambda: gen.pick(rng, [" ", "_", "-", "+", "&", ",", ";", "\t"])
    out = words[0]
    for w in words[1:]:
        out += sep() + w
    k = int(rng.integers(4))
    out = [out, out.upper(), out.title(), "".join(
        c.upper() if gen.chance(rng, 0.5) else c for c in out)][k]
    if gen.chance(rng, 0.15) and not out.lower().endswith("s"):
        out += "s" if gen.chance(rng, 0.5) else "S"
    if gen.chance(rng, 0.15):
        out = gen.pick(rng, [" ", "_", "\t"]) + out
    if gen.chance(rng, 0.15):
        out += gen.pick(rng, [" ", "-", "\n"])
    return out


def standard(key):
    """the standard name of a column name or None"""
    x = re.sub("[" + re.escape(BETWEEN) + "]", " ",
               key.lower()).strip()
    table = {**KEYSYNONYMS, **MINIMAL}
    if x in table:
        return table[x]
    if key in table.values():  # "gust": no synonym, but what "wpgt" becomes
        return key
    if x.endswith("s") and x[:-1] in table:
        return table[x[:-1]]
    return None


UNKNOWN = ["heel", "rudder angle", "crew", "x", "_", "Sail!", "ß", "windy",
           "Boat Speeds (km/h)", "", "ss", "-"]


def nearly(rng):
    """a name that is close to a known one"""
    known = gen.pick(rng, sorted(MINIMAL))
    i = int(rng.integers(len(known)))
    more = gen.pick(rng, ["kn", "kts", "(kn)", "1", "deg", "my", "x", "avg",
                          "max", "[m/s]", "raw", "of", "value", "s s"])
    return gen.pick(rng, [
        f"{known} {more}", f"{known}_{more}", f"{more} {known}",
        f"{known}{more}", f"{known}({more})", known[:i] + known[i + 1:],
        known[:i] + known[i] + known[i:], f"{known}.", f"{known}:",
        f"{known}ss", known.replace(" ", "") + "_", known.replace(" ", "."),
        f"({known})", f"{known}/{known}", known.replace(" ", "  ")])


def column(rng, std, n):
    kind = gen.pick(rng, ["float", "int", "text", "decimal", "npint",
                          "npfloat", "nptext", "words", "late", "nearly"])
    if std == "date":
        kind = "date"
    if std == "time":
        kind = "time"
    if std == "datetime":
        kind = "datetime"
    out = []
    nearly = gen.pick(rng, ["{},5", "{}:30", "1 {:03d}", "{}%", "{} kn", "{}°",
                            "{}.5.1", "0x{}", "{}-1", "--{}", "{}/2"])
    for i in range(n):
        x = float(np.round(rng.uniform(0, 360), 2))
        k = int(rng.integers(0, 400))
        out.append({
            "float": x, "int": k, "text": repr(x), "decimal": Decimal(repr(x)),
            "npint": np.int64(k), "npfloat": np.float64(x),
            "nptext": np.str_(repr(x)), "words": f"w{k} x",
            # numbers as text, and one text that is none
            "late": repr(x) if i + 1 < n else "n. a.",
            # texts that look like numbers
            "nearly": nearly.format(k),
            "date": date(2024, 1, 1) + timedelta(days=k),
            "time": time(k % 24, k % 60, k % 59, k * 1000),
            "datetime": datetime(2024, 1, 1) + timedelta(minutes=k),
        }[kind])
    if gen.chance(rng, 0.3) and n > 1:
        out[int(rng.integers(n - (kind == "late")))] = None
    return ("words" if kind in ("late", "nearly") else kind), out


def as_standard(kind, col):
    if kind in ("words", "date", "time", "datetime"):
        return list(col)
    return [None if v is None else float(v) for v in col]


@check.case(quick=700, thorough=10000)
def standardize(m):
    rng = m.rng
    n = gen.size(rng, 1, 6, 400)
    names = []
    table = {**KEYSYNONYMS, **MINIMAL}
    syn = sorted(table)
    for _ in range(int(rng.integers(1, 8))):
        if gen.chance(rng, 0.2):
            name = gen.pick(rng, UNKNOWN)
            if gen.chance(rng, 0.5):
                other = nearly(rng)
                name = name if standard(other) else other
        elif gen.chance(rng, 0.25):
            name = gen.pick(rng, sorted(set(table.values())))
        else:
            name = spell(rng, gen.pick(rng, syn))
        if name not in names:
            names.append(name)
    if gen.chance(rng, 0.3):
        for s in ("date", "time", "datetime"):
            if gen.chance(rng, 0.7) and not any(
                    standard(x) == s for x in names):
                names.append(spell(rng, s))
    names = [names[i] for i in rng.permutation(len(names))]
    cols = {}
    for x in names:
        cols[x] = column(rng, standard(x), n)
    raw = {x: c for x, (k, c) in cols.items()}
    m.given(raw=raw)
    d = Data.from_dict(copy.deepcopy(raw))
    d.hrosailing_standard_format()
    m.equal(d.n_rows, n, "row-count")
    for k in d.keys():
        m.equal(len(d[k]), n, "rectangular", k)

    def is_name(got, std):
        return got == std or re.fullmatch(
            re.escape(std) + r"\(Control value \d+\)", got) is not None

    def numbered(keys, std):
        """control values are counted from 1"""
        no = sorted(int(re.findall(r"\d+", k)[-1]) for k in keys if k != std
                    and is_name(k, std))
        m.equal(no, list(range(1, len(no) + 1)), "control-numbers", str(keys))

    # group the expected columns by standard name
    groups = {}
    for x in names:
        std = standard(x)
        m.state("standard-name", std)
        groups.setdefault(std if std is not None else ("own", x), []).append(
            as_standard(*cols[x]))
    stds = {standard(x) for x in names}
    joined = "date" in stds and "time" in stds
    left = {k: list(d[k]) for k in d.keys()}
    for g, want in groups.items():
        if isinstance(g, tuple):
            m.ok(g[1] in left, "unknown-name-kept", g[1])
            m.equal(left.pop(g[1]), want[0], "unknown-values-kept", g[1])
            m.event("unknown-column")
            continue
        mine = [k for k in left if is_name(k, g)]
        if joined and g in TIMES:
            continue
        m.ok(g in left, "renamed", f"no column {g}: {list(left)}")
        m.equal(len(mine), len(want), "columns-kept", f"{g}: {mine}")
        m.ok(any(left[g] == w for w in want), "values-kept", g)
        numbered(mine, g)
        pool = list(want)
        for k in mine:
            v = left.pop(k)
            m.ok(v in pool, "values-kept", f"{k}: {v} not in {pool}")
            pool.remove(v)
        m.event("known-column", len(want))
    if joined:
        # one pair of a date and a time column is combined, the rest stays
        mine = {k: left.pop(k) for k in list(left)
                if any(is_name(k, g) for g in TIMES)}
        m.ok("date" not in mine and "time" not in mine, "combined",
             str(list(mine)))
        for g in TIMES:
            numbered(mine, g)
        stamps = groups.get("datetime", [])
        ok = False
        for dc in groups["date"]:
            for tc in groups["time"]:
                comb = [None if a is None or b is None
                        else datetime.combine(a, b) for a, b in zip(dc, tc)]
                rest = ([c for c in groups["date"] if c is not dc]
                        + [c for c in groups["time"] if c is not tc]
                        + stamps + [comb])
                got = list(mine.values())
                if len(got) == len(rest) and all(r in got for r in rest):
                    ok = True
        m.ok(ok and "datetime" in mine, "combined", str(mine), groups=groups)
        m.event("combined")
    m.equal(left, {}, "nothing-invented")
    # types
    for x in names:
        std, kind = standard(x), cols[x][0]
        key = x if std is None else std
        if key in d and kind not in ("words", "date", "time", "datetime") \
                and len(groups.get(std, [1])) == 1 and any(
                    v is not None for v in cols[x][1]):
            m.ok(d.type(key) is float, "float-type", f"{key} {d.type(key)}")
            m.ok(all(v is None or type(v) is float for v in d[key]),
                 "float-values", key)
    once = {k: list(d[k]) for k in d.keys()}
    d.hrosailing_standard_format()
    m.equal({k: list(d[k]) for k in d.keys()}, once, "idempotent")


@check.case(quick=100, thorough=500)
def every_synonym(m):
    """each synonym on its own in several spellings"""
    rng = m.rng
    syn = sorted({**KEYSYNONYMS, **MINIMAL}.items())
    name, std = syn[int(rng.integers(len(syn)))]
    for name, std in [(name, std)] + [
            gen.pick(rng, sorted(MINIMAL.items())) for _ in range(4)]:
        key = spell(rng, name)
        m.given(key=key)
        kind, col = column(rng, std, 3)
        d = Data.from_dict({"depth": [1.0, 2.0, 3.0], key: list(col)})
        d.hrosailing_standard_format()
        m.ok(std in d, "synonym", f"{key!r} became {d.keys()}")
        m.equal(list(d[std]), as_standard(kind, col), "synonym-values")
        m.equal(sorted(d.keys()), sorted(["depth", std]), "synonym")
        m.state("synonym", (name, std))
        m.event("synonym")
