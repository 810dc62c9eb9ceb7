"""C13: imputing leaves no gaps and never touches a measured value."""
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing.imputator import (FillLocalImputator,
                                             RemoveOnlyImputator)
from hrv import Check, gen

check = Check(
    "C13",
    "Chronological records with gaps of every pattern (missing time stamps, "
    "leading, trailing and inner gaps, empty columns, gaps in time below and "
    "above the limit, records at the same time) are imputed with default and "
    "recording fill functions; the result is compared with an independent "
    "row-by-row model and general invariants.",
    ["values never lie exactly at the time limit (the documentation leaves "
     "open whether that is still close)"],
)

T0 = datetime(2024, 5, 1, 10, 0, 0)


def records(m, n, limit):
    """chronological rows; time differences around the limit"""
    rng = m.rng
    t = T0
    rows = []
    p = float(gen.pick(rng, [0.0, 0.1, 0.3, 0.6, 0.9]))
    pt = float(gen.pick(rng, [0.0, 0.1, 0.3, 0.6]))
    steps = [0, 0.1, 0.3, 0.5, 0.9, 1.1, 2.5]
    if n > 30 and gen.chance(rng, 0.5):  # long gaps within the time limit
        steps = [0, 0.003]
        p = pt = float(gen.pick(rng, [0.9, 0.99]))
    for i in range(n):
        step = gen.pick(rng, steps)
        t = t + timedelta(seconds=round(step * limit.total_seconds()))
        row = {"datetime": None if gen.chance(rng, pt) else t}
        for k in ("TWS", "TWA", "BSP", "sail", "empty"):
            if k == "sail":
                v = gen.pick(rng, ["jib", "spi", ""])
            else:
                v = float(np.round(rng.uniform(0, 40), 2))
                if gen.chance(rng, 0.15):
                    v = 0.0
            row[k] = None if gen.chance(rng, p) or k == "empty" else v
        row["id"] = float(i)
        rows.append(row)
    return rows


def odd_values(m, rows, keys):
    """measured values that look like missing ones but are not"""
    if not gen.chance(m.rng, 0.3):
        return
    keys.append("heel")
    values = gen.pick(m.rng, [[float("nan"), 0.0, -0.0, float("inf"), 3.5],
                              ["", " ", "None"], [0, 1]])
    for r in rows:
        r["heel"] = gen.pick(m.rng, values)


def container(rows, keys):
    return Data.from_dict({k: [r[k] for r in rows] for k in keys})


def model(rows, keys, limit, before, between, after):
    """documented procedure; returns rows, ids, counts"""
    keys = [k for k in keys if any(r[k] is not None for r in rows)]
    rows = [{k: r[k] for k in keys} for r in rows]
    filled = 0
    stamps = [i for i, r in enumerate(rows) if r["datetime"] is not None]
    for a, b in zip(stamps, stamps[1:]):
        ta, tb = rows[a]["datetime"], rows[b]["datetime"]
        if tb - ta < limit:
            for j in range(a + 1, b):
                rows[j]["datetime"] = ta + (tb - ta) * ((j - a) / (b - a))
                filled += 1
    kept = [r for r in rows if r["datetime"] is not None]
    src = [dict(r) for r in kept]
    for k in keys:
        if k == "datetime":
            continue
        have = [i for i, r in enumerate(src) if r[k] is not None]
        for i, r in enumerate(kept):
            if src[i][k] is not None:
                continue
            t = r["datetime"]
            lo = [j for j in have if j < i
                  and t - src[j]["datetime"] < limit]
            hi = [j for j in have if j > i
                  and src[j]["datetime"] - t < limit]
            lo, hi = (lo[-1] if lo else None), (hi[0] if hi else None)
            if lo is None and hi is None:
                continue
            filled += 1
            if lo is None:
                mu = 1 - (src[hi]["datetime"] - t) / limit
                r[k] = before(k, src[hi][k], mu)
            elif hi is None or \
                    src[hi]["datetime"] - src[lo]["datetime"] > limit:
                mu = (t - src[lo]["datetime"]) / limit
                r[k] = after(k, src[lo][k], mu)
            else:
                span = src[hi]["datetime"] - src[lo]["datetime"]
                mu = (t - src[lo]["datetime"]) / span if span else 1
                r[k] = between(k, src[lo][k], src[hi][k], mu)
    out = [r for r in kept if all(v is not None for v in r.values())]
    return keys, out, filled, len(rows) - len(out)


def linear(name, left, right, mu):
    return left if isinstance(left, str) else (1 - mu) * left + mu * right


FILLS = {
    "default": None,
    "linear": (lambda n, r, mu: r, linear, lambda n, a, mu: a),
    "position": (
        lambda n, r, mu: f"b{mu:.6f}" if isinstance(r, str) else 1000 + mu,
        lambda n, a, b, mu: f"{a}{b}{mu:.6f}" if isinstance(a, str)
        else 2000 + mu,
        lambda n, a, mu: f"a{mu:.6f}" if isinstance(a, str) else 3000 + mu),
}


def same(m, got, want, mech, msg):
    if isinstance(want, float):
        m.close(got, want, mech, msg, rtol=1e-9, atol=1e-7)
    elif isinstance(want, datetime):
        m.ok(isinstance(got, datetime)
             and abs(got - want) <= timedelta(microseconds=5), mech,
             f"{msg}: {got} instead of {want}")
    else:
        m.equal(got, want, mech, msg)


@check.case(quick=500, thorough=8000)
def fill_local(m):
    rng = m.rng
    limit = gen.pick(rng, [timedelta(minutes=2), timedelta(seconds=30),
                           timedelta(hours=3), timedelta(seconds=90)])
    n = gen.scaled(rng, gen.pick(
        rng, [1, 2, 3, 6, 12, 25] * 6 + [150, 300]))
    # no time difference equals the limit itself
    rows = records(m, n, limit)
    limit += timedelta(microseconds=int(rng.integers(1, 400)))
    keys = ["datetime", "TWS", "TWA", "BSP", "sail", "empty", "id"]
    odd_values(m, rows, keys)
    keys = [keys[i] for i in rng.permutation(len(keys))]
    kind = gen.pick(rng, list(FILLS))
    m.given(rows=rows, limit=str(limit), kind=kind)
    kwargs = {"max_time_diff": limit}
    fills = FILLS[kind]
    if fills is None:
        fills = (lambda n, r, mu: r, lambda n, a, b, mu: a,
                 lambda n, a, mu: a)
    else:
        kwargs.update(fill_before=fills[0], fill_between=fills[1],
                      fill_after=fills[2])
    imp = FillLocalImputator(**kwargs)
    data = container(rows, keys)
    if all(r["datetime"] is None for r in rows):
        # without any time stamp nothing is documented but not to invent
        try:
            out = imp.impute(data)
        except KeyError:
            m.ok(True, "no-time-stamps")
            return
        m.equal(out.n_rows, 0, "no-time-stamps")
        return
    names, want, filled, removed = model(rows, keys, limit, *fills)
    out = imp.impute(data)
    m.equal({k: list(data[k]) for k in keys},
            {k: [r[k] for r in rows] for k in keys}, "caller-kept")
    m.equal(sorted(out.keys()), sorted(names), "columns")
    m.equal(out.n_rows, len(want), "row-count")
    got = list(out.rows())
    m.equal([r["id"] for r in got], [r["id"] for r in want], "records")
    by_id = {r["id"]: r for r in rows}
    for g, w in zip(got, want):
        orig = by_id[g["id"]]
        for k in names:
            m.ok(g[k] is not None, "no-gaps", k)
            if orig[k] is not None:
                m.equal(g[k], orig[k], "measured-values", k)
            else:
                same(m, g[k], w[k], "filled-values", f"{k} of {g['id']}")
                m.event("filled")
        m.event("record")
    m.event("removed", len(rows) - len(got))
    complete = [r["id"] for r in rows
                if all(r[k] is not None for k in names)]
    m.ok(set(complete) <= {g["id"] for g in got}, "complete-records")
    st = imp.get_latest_statistics()
    m.equal({k: st[k] for k in ("n_removed_cols", "n_removed_rows",
                                "n_filled_fields", "n_rows", "n_cols")},
            {"n_removed_cols": len(keys) - len(names),
             "n_removed_rows": removed, "n_filled_fields": filled,
             "n_rows": len(want), "n_cols": len(names)}, "statistics")
    if not got:
        return
    # imputing the result again changes nothing
    again = imp.impute(out)
    m.equal(list(again.rows()), got, "idempotent")
    m.equal(imp.get_latest_statistics()["n_filled_fields"], 0, "statistics")


@check.case(quick=200, thorough=3000)
def remove_only(m):
    rng = m.rng
    rows = records(m, int(gen.pick(rng, [0, 1, 2, 5, 20] * 6 + [300])),
                   timedelta(minutes=2))
    keys = ["datetime", "TWS", "TWA", "BSP", "sail", "id"]
    if gen.chance(rng, 0.1):
        keys.append("empty")
    odd_values(m, rows, keys)
    m.given(rows=rows, keys=keys)
    data = container(rows, keys)
    imp = RemoveOnlyImputator()
    out = imp.impute(data)
    m.equal({k: list(data[k]) for k in keys},
            {k: [r[k] for r in rows] for k in keys}, "caller-kept")
    want = [{k: r[k] for k in keys} for r in rows
            if all(r[k] is not None for k in keys)]
    m.equal(sorted(out.keys()), sorted(keys), "columns")
    for i, (g, w) in enumerate(zip(out.rows(), want)):
        m.equal({k: g[k] for k in keys}, w, "records")
        m.event("record")
    m.equal(out.n_rows, len(want), "row-count")
    st = imp.get_latest_statistics()
    m.equal((st["n_removed_cols"], st["n_removed_rows"],
             st["n_filled_fields"], st["n_rows"], st["n_cols"]),
            (0, len(rows) - len(want), 0, len(want), len(keys)),
            "statistics")
    m.event("removed", len(rows) - len(want))


gen.large_case(check, fill_local, 800)
