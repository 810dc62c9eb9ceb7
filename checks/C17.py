"""C17: NMEA logs are decoded faithfully and in order."""
import os
import pathlib
from datetime import date, datetime, time, timedelta, timezone

import numpy as np

from hrosailing.processing.datahandler import NMEAFileHandler
from hrv import Check, gen

check = Check(
    "C17",
    "Logs of wind, position, and date/time sentences (all hemispheres, "
    "relative and true wind, empty fields, fractional and overflowing "
    "seconds, several talkers) are composed from known readings, written, "
    "and read with all kinds of sentence and attribute filters; the columns "
    "are compared with an independent decoder and row model.",
    ["consecutive sentences share a row as long as none of their fields is "
     "set in it yet (documented for compressing updates)",
     "wind speeds in knots; a damaged line is one whose checksum fails"],
)

FIELDS = {
    "MWV": ["Wind angle", "Reference", "Wind speed", "Wind speed units",
            "Status"],
    "GLL": ["Latitude", "Latitude Direction", "Longitude",
            "Longitude Direction", "Timestamp", "Status",
            "FAA mode indicator"],
    "RMC": ["Timestamp", "Status", "Latitude", "Latitude Direction",
            "Longitude", "Longitude Direction", "Speed Over Ground",
            "True Course", "Datestamp", "Magnetic Variation",
            "Magnetic Variation Direction", "Mode Indicator",
            "Navigational Status"],
    "HDG": ["Heading", "Deviation", "Deviation Direction", "Variation",
            "Variation Direction"],
}
NUMBERS = {"Wind angle", "Wind speed", "Speed Over Ground", "True Course",
           "Heading", "Deviation", "Variation"}
STANDARD = {"TWS": ["Wind speed", "Reference"],
            "AWS": ["Wind speed", "Reference"],
            "TWA": ["Wind angle", "Reference"],
            "AWA": ["Wind angle", "Reference"], "lat": ["Latitude"],
            "lon": ["Longitude"], "SOG": ["Speed Over Ground"],
            "date": ["Datestamp"], "time": ["Timestamp"]}
JUDGED = ["TWS", "TWA", "AWS", "AWA", "lat", "lon", "SOG"]


def sentence(rng):
    """(type, [(field text, meaning)])"""
    kind = gen.pick(rng, ["MWV", "MWV", "MWV", "GLL", "RMC", "HDG"])
    empty = gen.chance(rng, 0.15)

    def num(hi, dec):
        if gen.chance(rng, 0.1):
            return "", None
        v = round(float(rng.uniform(0, hi)), dec)
        s = f"{v:0{int(rng.integers(3, 8))}.{dec}f}"
        return s, float(s)

    def clock():
        if empty:
            return "", None
        h, mi, s = (int(rng.integers(x)) for x in (24, 60, 60))
        if gen.chance(rng, 0.1) and (h, mi) < (23, 59):
            s = 60
        if gen.chance(rng, 0.03) and h < 23:
            mi, s = 59, 60
        us = int(gen.pick(rng, [0, 500000, 250000, 70000, 123456, 9000]))
        frac = "" if us == 0 and gen.chance(rng, 0.5) else \
            ("." + f"{us:06d}".rstrip("0") if us else ".00")
        t = (datetime(2000, 1, 1, h, mi) + timedelta(
            seconds=s, microseconds=us)).time()
        return f"{h:02d}{mi:02d}{s:02d}{frac}", t

    def position():
        if empty:
            return ["", "", "", ""], None, None
        la, lo = int(rng.integers(0, 90)), int(rng.integers(0, 180))
        dec = int(rng.integers(2, 6))
        lam = f"{rng.uniform(0, 59.9):0{3 + dec}.{dec}f}"
        lom = f"{rng.uniform(0, 59.9):0{3 + dec}.{dec}f}"
        ns, ew = gen.pick(rng, "NS"), gen.pick(rng, "EW")
        lat = (la + float(lam) / 60) * (1 if ns == "N" else -1)
        lon = (lo + float(lom) / 60) * (1 if ew == "E" else -1)
        return [f"{la:02d}{lam}", ns, f"{lo:03d}{lom}", ew], lat, lon

    if kind == "MWV":
        a, av = num(359, int(rng.integers(0, 2)))
        s, sv = num(40, 1)
        vals = [a, gen.pick(rng, "RTRT"), s, "N", "A"]
        means = {"Wind angle": av, "Wind speed": sv}
    elif kind == "GLL":
        pos, lat, lon = position()
        c, cv = clock()
        vals = pos + [c, "A"] + (["A"] if gen.chance(rng, 0.6) else [])
        means = {"Latitude": lat, "Longitude": lon, "Timestamp": cv}
    elif kind == "RMC":
        pos, lat, lon = position()
        c, cv = clock()
        sog, sogv = num(20, 1)
        tc, tcv = num(359, 1)
        d = date(2000, 1, 1) + timedelta(days=int(rng.integers(0, 12000)))
        vals = [c, "V" if empty else "A"] + pos + [
            sog, tc, d.strftime("%d%m%y"), "", ""]
        if gen.chance(rng, 0.5):
            vals.append("A")
        means = {"Latitude": lat, "Longitude": lon, "Timestamp": cv,
                 "Speed Over Ground": sogv, "True Course": tcv,
                 "Datestamp": d}
    else:
        h, hv = num(359, 1)
        vals = [h, "", "", gen.pick(rng, ["", "2.5"]), "E"]
        means = {"Heading": hv, "Deviation": None,
                 "Variation": float(vals[3]) if vals[3] else None}
    talker = gen.pick(rng, ["II", "WI", "GP"])
    return {"kind": kind, "talker": talker, "vals": vals, "means": means}


def line(s, checksum=True):
    body = s["talker"] + s["kind"] + "," + ",".join(s["vals"])
    c = 0
    for x in body:
        c ^= ord(x)
    return f"${body}*{c:02X}" if checksum else f"${body}"


def decode(s, allowed, winds):
    """what the sentence contributes to its row"""
    out = {}
    texts = dict(zip(FIELDS[s["kind"]], s["vals"]))
    for f in FIELDS[s["kind"]]:
        if not allowed(f):
            continue
        v = s["means"].get(f, None) if f in NUMBERS or f in s["means"] \
            else texts.get(f, "")
        if s["kind"] == "MWV":
            ref = texts["Reference"]
            if f == "Reference":
                continue
            if f == "Wind angle":
                f = "TWA" if ref == "T" else "AWA"
            elif f == "Wind speed":
                f = "TWS" if ref == "T" else "AWS"
            if f in STANDARD and f not in winds:
                continue
        out[{"Latitude": "lat", "Longitude": "lon", "Timestamp": "time",
             "Datestamp": "date", "Speed Over Ground": "SOG"}.get(f, f)] = v
    return out


def table(sentences, allowed, winds):
    rows = []
    for s in sentences:
        d = decode(s, allowed, winds)
        if rows and all(rows[-1].get(k) is None for k in d):
            rows[-1].update(d)
        elif d:
            rows.append(dict(d))
    return rows


def seconds(t):
    return (t.hour * 60 + t.minute) * 60 + t.second + t.microsecond * 1e-6


def judge(m, d, rows, requested):
    has = {k: any(r.get(k) is not None for r in rows)
           for k in JUDGED + ["time", "date"]}
    for k in JUDGED:
        want = [r.get(k) for r in rows]
        if not has[k]:
            m.ok(k not in d or all(v is None for v in d[k]),
                 "nothing-invented", k, got=list(d[k]) if k in d else None)
            continue
        m.ok(k in d, "reading-lost", f"{k} missing in {d.keys()}")
        got = list(d[k])
        m.equal(len(got), len(rows), "row-count", k)
        m.ok(all((g is None) == (w is None) for g, w in zip(got, want)),
             "rows-aligned", k, got=got, want=want)
        m.ok(all(g is None or (isinstance(g, float)
                               and abs(g - w) <= 1e-9 * max(1, abs(w)))
                 for g, w in zip(got, want)), "reading", k,
             got=got, want=want)
        m.event("reading", sum(w is not None for w in want))
    exists = {k: any(k in r for r in rows) for k in ("time", "date")}
    if exists["time"] and exists["date"]:
        if not any(r.get("time") is not None and r.get("date") for r in rows):
            rows_ = []
            m.ok("datetime" not in d or all(v is None for v in d["datetime"]),
                 "nothing-invented", "datetime")
        else:
            rows_ = rows
            m.ok("datetime" in d, "time-stamp", f"{d.keys()}")
        for g, r in zip(d["datetime"] if rows_ else [], rows_):
            if r.get("time") is None or r.get("date") is None:
                m.ok(g is None, "time-stamp", f"{g} from {r}")
            else:
                w = datetime.combine(r["date"], r["time"])
                m.ok(g is not None and abs(
                    g.replace(tzinfo=None) - w) <= timedelta(microseconds=2),
                    "time-stamp", f"{g} instead of {w}")
                m.event("time stamp")
    elif has["time"]:
        m.ok("time" in d, "time-stamp", f"{d.keys()}")
        for g, r in zip(d["time"], rows):
            w = r.get("time")
            m.ok((g is None) == (w is None) and (w is None or abs(
                seconds(g) - seconds(w)) <= 2e-6), "time-stamp",
                f"{g} instead of {w}")
            m.ok(g is None or g.tzinfo in (None, timezone.utc), "time-zone")
            m.event("time of day")
        m.ok("datetime" not in d, "nothing-invented", "datetime")
    elif has["date"]:
        m.equal(list(d["date"]), [r.get("date") for r in rows], "date")
    if requested is not None:
        ok = set(requested)
        if {"time", "date"} <= ok:
            ok.add("datetime")
        m.ok(set(d.keys()) <= ok, "only-requested",
             f"{d.keys()} for {requested}")
    for k in d.keys():
        m.equal(len(d[k]), len(rows), "row-count", k)


def write(m, sentences, damage=None):
    path = os.path.join(m.scratch(), "log.vdr")
    eol = gen.pick(m.rng, ["\n", "\r\n"])
    lines = [line(s, gen.chance(m.rng, 0.85)) for s in sentences]
    if damage is not None:
        i, text = damage
        lines.insert(i, text)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("".join(x + eol for x in lines))
    return path, lines



@check.case(quick=500, thorough=8000, budget=60_000_000)
def logs(m):
    rng = m.rng
    ss = [sentence(rng) for _ in range(gen.size(rng, 1, 25, 160))]
    noise = gen.chance(rng, 0.2)
    kwargs = {}
    kept = list(ss)
    how = gen.pick(rng, ["all", "wanted", "unwanted", "both", "talker"])
    chosen = [k for k in FIELDS if gen.chance(rng, 0.5)] or ["MWV"]
    if how in ("wanted", "both"):
        kwargs["wanted_sentences"] = chosen
        kept = [s for s in ss if s["kind"] in chosen]
        if how == "both":  # documented: ignored then
            kwargs["unwanted_sentences"] = ["MWV", "RMC"]
    elif how == "unwanted":
        kwargs["unwanted_sentences"] = tuple(chosen)
        kept = [s for s in ss if s["kind"] not in chosen]
    elif how == "talker":
        kwargs["wanted_sentences"] = ["GPRMC", "WIMWV"]
        kept = [s for s in ss
                if s["talker"] + s["kind"] in ("GPRMC", "WIMWV")]
    requested = None
    allowed, winds = (lambda f: True), {"TWS", "TWA", "AWS", "AWA"}
    att = gen.pick(rng, ["all", "wanted", "wanted", "raw", "unwanted"])
    if att == "wanted":
        requested = [k for k in STANDARD if gen.chance(rng, 0.4)] or ["TWA"]
        kwargs["wanted_attributes"] = gen.pick(
            rng, [list(requested), tuple(requested)])
        fields = {f for k in requested for f in STANDARD[k]}
        allowed, winds = fields.__contains__, set(requested)
    elif att == "raw":
        some = ["Wind angle", "Wind speed", "Reference", "Latitude",
                "Longitude", "Timestamp", "Speed Over Ground"]
        some = [f for f in some if gen.chance(rng, 0.6)] or ["Latitude"]
        kwargs["wanted_attributes"] = some
        allowed = set(some).__contains__
    elif att == "unwanted":
        some = ["Wind angle", "Wind speed", "Latitude", "Longitude",
                "Timestamp", "Datestamp", "Speed Over Ground", "Status",
                "Latitude Direction", "Longitude Direction",
                "Wind speed units", "Reference"]
        some = {f for f in some if gen.chance(rng, 0.4)}
        kwargs["unwanted_attributes"] = some
        allowed = lambda f: f not in some  # noqa: E731
    if gen.chance(rng, 0.2):
        kwargs["post_filter_types"] = False if requested is None else (
            float, date, time, datetime)
    damage = None
    if noise and "wanted_sentences" in kwargs:
        # an unwanted sentence whose contents name a wanted one
        s = {"talker": "GP", "kind": "TXT",
             "vals": ["01", "01", "02", "MWV GLL RMC HDG GPRMC WIMWV"]}
        damage = (int(rng.integers(len(ss) + 1)), line(s))
    path, lines = write(m, ss, damage)
    m.given(lines=lines, kwargs={k: str(v) for k, v in kwargs.items()})
    m.state("filters", (how, att))
    h = NMEAFileHandler(**kwargs)
    src = pathlib.Path(path) if gen.chance(rng, 0.3) else path
    d = h.handle(src)
    rows = table(kept, allowed, winds)
    judge(m, d, rows, requested)
    for s in kept:
        m.event("sentence " + s["kind"])
    # a handler can be used again
    again = h.handle(path)
    m.equal({k: list(again[k]) for k in sorted(again.keys())},
            {k: list(d[k]) for k in sorted(d.keys())}, "repeatable")
    with open(path, encoding="utf-8") as f:
        m.equal(f.read().split(), "\n".join(lines).split(), "log-kept")
    st = h.get_latest_statistics()
    m.equal((st["n_rows"], st["n_cols"]), (d.n_rows, d.n_cols), "statistics")


@check.case(quick=200, thorough=2500)
def damaged(m):
    """a line whose checksum fails is rejected or skipped, never read"""
    rng = m.rng
    ss = [sentence(rng) for _ in range(int(rng.integers(1, 8)))]
    bad = line(sentence(rng))
    i = int(rng.integers(1, bad.index("*")))
    c = gen.pick(rng, [x for x in "0123456789" if x != bad[i]])
    text = bad[:i] + c + bad[i + 1:]
    path, lines = write(m, ss, (int(rng.integers(len(ss) + 1)), text))
    m.given(lines=lines, bad=text)
    kwargs = {}
    requested = None
    allowed, winds = (lambda f: True), {"TWS", "TWA", "AWS", "AWA"}
    if gen.chance(rng, 0.5):
        requested = ["TWA", "TWS", "lat"]
        kwargs["wanted_attributes"] = requested
        fields = {f for k in requested for f in STANDARD[k]}
        allowed, winds = fields.__contains__, set(requested)
    try:
        d = NMEAFileHandler(**kwargs).handle(path)
    except Exception as e:  # noqa: BLE001
        m.ok(True, "damaged-rejected")
        m.event("rejected " + type(e).__name__)
        return
    judge(m, d, table(ss, allowed, winds), requested)
    m.event("damaged line skipped")


@check.case(quick=100, thorough=600)
def truncated(m):
    """a log cut within its last line gives the earlier readings or nothing"""
    rng = m.rng
    ss = [sentence(rng) for _ in range(int(rng.integers(2, 6)))]
    full = line(ss[-1])
    cut = full[:int(rng.integers(1, 6))]  # within the address
    path, lines = write(m, ss[:-1], (len(ss) - 1, cut))
    m.given(lines=lines)
    try:
        d = NMEAFileHandler().handle(path)
    except Exception as e:  # noqa: BLE001
        m.ok(True, "damaged-rejected")
        m.event("rejected " + type(e).__name__)
        return
    judge(m, d, table(ss[:-1], lambda f: True,
                      {"TWS", "TWA", "AWS", "AWA"}), None)


gen.large_case(check, logs, 1000)
