"""C11: weighers weigh by their definition, in [0, 1], whatever came before."""
import copy
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing import (
    AllOneWeigher,
    CylindricMeanWeigher,
    CylindricMemberWeigher,
    FluctuationWeigher,
    FuzzyVariable,
    FuzzyWeigher,
)
from hrv import Check, gen

check = Check(
    "C11",
    "Each weigher weighs several data containers and arrays with different "
    "columns, column orders, duplicates and clusters one after another; the "
    "weights are compared with an independent evaluation of the definition, "
    "with a fresh weigher, after reordering the records and under arithmetic "
    "expressions of weighers, numbers and arrays.",
    ["records whose distance lies within 1e-9 of a radius are not judged",
     "time series are in ascending order"],
)

SCALE = {"TWS": 20, "TWA": 360, "BSP": 40, "SOG": 40, "AWS": 20, "AWA": 360,
         "lat": 360, "lon": 360}
RANGE = {"TWS": (0, 30), "TWA": (0, 360), "BSP": (0, 15), "SOG": (0, 15),
         "lat": (-90, 90), "lon": (-180, 180), "depth": (0, 3)}


def column(rng, key, n):
    lo, hi = RANGE[key]
    x = gen.floats(rng, lo, hi, n)
    if gen.chance(rng, 0.5):  # clustered
        x = lo + (hi - lo) * np.round((x - lo) / (hi - lo) * 4) / 4 \
            + rng.choice([0, 0.1], n)
    if gen.chance(rng, 0.15):
        x[:] = 0.1
    return [float(v) for v in x]


def make(rng, extra=True, speed="BSP", n=None):
    n = gen.size(rng, 1, 16, 260, 0.025) if n is None else n
    keys = ["TWS", "TWA", speed]
    if extra and gen.chance(rng, 0.5):
        keys += [k for k in ("lat", "lon", "depth") if gen.chance(rng, 0.4)]
    if extra and speed == "BSP" and gen.chance(rng, 0.2):
        keys.append("SOG")
    keys = [keys[i] for i in rng.permutation(len(keys))]
    cols = {k: column(rng, k, n) for k in keys}
    if extra and gen.chance(rng, 0.4):
        cols["name"] = [gen.pick(rng, ["a", "b"]) for _ in range(n)]
    if extra and gen.chance(rng, 0.4):
        t = datetime(2024, 5, 3, 12)
        cols["datetime"] = [t + timedelta(seconds=i) for i in range(n)]
    return cols


def data(cols):
    return Data.from_dict({k: list(v) for k, v in cols.items()})


def reorder(cols, q):
    return {k: [v[i] for i in q] for k, v in cols.items()}


def floats_of(cols):
    return [k for k in cols if len(cols[k]) and isinstance(cols[k][0], float)]


def lengths(rows, i, scales):
    return np.array([np.sqrt(sum(((a - b) / s) ** 2 for a, b, s in
                                 zip(r, rows[i], scales))) for r in rows])


def mean_reference(base, bsp, scales, r, norm=None):
    """(weights, judgeable) by the definition"""
    w = []
    for i in range(len(bsp)):
        d = lengths(base, i, scales)
        if np.any(np.abs(d - r) < 1e-9):
            return None
        near = [float(b) for b, x in zip(bsp, d) if x <= r]
        if len(set(near)) == 1:
            w.append(0.0)
            continue
        mu = sum(near) / len(near)
        sd = np.sqrt(sum((x - mu) ** 2 for x in near) / len(near))
        w.append(abs(mu - bsp[i]) / sd)
    w = np.array(w)
    # a deviation that is only rounding noise cannot be normalized
    if 0 < w.max() < 1e-9:
        return None
    return 1 - (w / w.max() if w.max() > 0 else w)


def member_reference(rows, scales, r, h):
    w = []
    for i in range(len(rows)):
        d = lengths([x[:-1] for x in rows], i, scales)
        z = np.array([abs(x[-1] - rows[i][-1]) for x in rows])
        if np.any(np.abs(d - r) < 1e-9) or np.any(
                (np.abs(z - h) < 1e-9) & (h > 0)):
            return None
        w.append(int(np.sum((d <= r) & (z <= h))) - 1)
    w = np.array(w, float)
    return w / w.max() if w.max() > 0 else w


def in_range(m, w, n, mech):
    w = np.asarray(w, float)
    m.equal(w.shape, (n,), mech + "-shape")
    m.ok(np.all((w >= -1e-12) & (w <= 1 + 1e-12)), mech + "-range",
         f"weights {w}")
    m.event("weight", n)


def statistics(m, weigher, w, mech):
    s = weigher.get_latest_statistics()
    m.close(s["average_weight"], np.mean(w), mech + "-statistics", rtol=1e-9,
            atol=1e-12)
    m.close(s["minimal_weight"], np.min(w), mech + "-statistics", rtol=1e-9,
            atol=1e-12)
    m.close(s["maximal_weight"], np.max(w), mech + "-statistics", rtol=1e-9,
            atol=1e-12)
    w = np.asarray(w, float)
    tenths = np.linspace(w.min(), w.max(), 11)
    m.equal(len(s["quantiles"]), 10, mech + "-statistics")
    eps = 1e-9 * (abs(w).max() + 1)
    for q, lo, hi in zip(s["quantiles"], tenths, tenths[1:]):
        least = np.mean((w > lo + eps) & (w < hi - eps))
        most = np.mean((w >= lo - eps) & (w <= hi + eps))
        m.ok(100 * least - 0.01 <= q <= 100 * most + 0.01,
             mech + "-statistics", f"{s['quantiles']}")
    exact = np.mean(w == w.min())
    m.ok(s["quantiles"][0] >= 100 * exact - 0.01, mech + "-statistics")


def settings(w):
    return repr(w)


@check.case(quick=250, thorough=4000)
def cylindric_mean(m):
    rng = m.rng
    r = float(gen.pick(rng, [0.05, 0.1, 0.3, 1.0]))
    how = int(rng.integers(4))
    dims = None
    kw = {"radius": r}
    if how == 1:
        dims = ["TWS", "TWA", "BSP"] if gen.chance(rng, 0.5) else \
            ["BSP", "TWS"]
        if gen.chance(rng, 0.4):
            dims = [{"BSP": "SOG"}.get(k, k) for k in dims]
        kw["dimensions"] = list(dims)
    weigher = CylindricMeanWeigher(**kw)
    before = settings(weigher)
    seq = []
    for _ in range(3):
        seq.append((bool(gen.chance(rng, 0.3) and dims is None),
                    make(rng, speed="SOG" if "SOG" in (dims or ())
                         else "BSP" if dims or gen.chance(rng, 0.8)
                         else "SOG")))
    m.given(r=r, dims=dims, seq=seq)
    for as_array, cols in seq:
        n = len(cols["TWS"])
        speed = "BSP" if "BSP" in cols and "SOG" not in (
            dims or ()) else "SOG"
        if as_array:
            use = ["TWS", "TWA"]
            obj = np.column_stack([cols[k] for k in use + [speed]])
        else:
            use = [k for k in floats_of(cols) if k != speed
                   and (dims is None or k in dims)]
            obj = data(cols)
        base = [[cols[k][i] for k in use] for i in range(n)]
        want = mean_reference(base, cols[speed],
                              [SCALE.get(k, 1) for k in use], r)
        keep = copy.deepcopy(obj.data if isinstance(obj, Data) else obj)
        got = weigher.weigh(obj)
        m.equal(obj.data if isinstance(obj, Data) else obj, keep,
                "data-kept")
        in_range(m, got, n, "mean")
        statistics(m, weigher, got, "mean")
        m.state("mean-data", (as_array, tuple(use)))
        if want is not None:
            m.close(got, want, "mean-definition", rtol=1e-6, atol=1e-6,
                    use=use)
            q = rng.permutation(n)
            obj2 = obj[q] if as_array else data(reorder(cols, q))
            m.close(weigher.weigh(obj2), np.asarray(got)[q], "mean-order",
                    rtol=1e-6, atol=1e-6)
        fresh = CylindricMeanWeigher(**{**kw, **({} if dims is None else {
            "dimensions": list(dims)})}).weigh(obj)
        m.close(fresh, got, "mean-history", rtol=1e-9, atol=1e-9)
    m.equal(settings(weigher), before, "settings-kept")
    if dims is not None:
        m.equal(kw["dimensions"], dims, "settings-kept")


@check.case(quick=250, thorough=4000)
def cylindric_member(m):
    rng = m.rng
    r = float(gen.pick(rng, [0.05, 0.1, 0.3, 1.0]))
    h = float(gen.pick(rng, [0, 0.05, 1.0, 4.0]))
    dims = None
    kw = {"radius": r, "length": h}
    if gen.chance(rng, 0.3):
        dims = ["TWS", "TWA", "BSP"]
        kw["dimensions"] = list(dims)
    weigher = CylindricMemberWeigher(**kw)
    before = settings(weigher)
    seq = [(bool(gen.chance(rng, 0.4)), make(rng)) for _ in range(3)]
    m.given(r=r, h=h, dims=dims, seq=seq)
    for as_array, cols in seq:
        n = len(cols["TWS"])
        if as_array:
            use = ["TWS", "TWA", "BSP"]
            obj = np.column_stack([cols[k] for k in use])
        else:
            # the records' columns in the order of the data
            use = [k for k in floats_of(cols) if dims is None or k in dims]
            obj = data(cols)
        rows = [[cols[k][i] for k in use] for i in range(n)]
        want = member_reference(rows, [SCALE.get(k, 1) for k in use[:-1]], r,
                                h)
        keep = copy.deepcopy(obj.data if isinstance(obj, Data) else obj)
        got = weigher.weigh(obj)
        m.equal(obj.data if isinstance(obj, Data) else obj, keep,
                "data-kept")
        in_range(m, got, n, "member")
        statistics(m, weigher, got, "member")
        m.state("member-data", (as_array, tuple(use)))
        if want is not None:
            m.close(got, want, "member-definition", rtol=1e-9, atol=1e-9,
                    use=use)
            q = rng.permutation(n)
            obj2 = obj[q] if as_array else data(reorder(cols, q))
            m.close(weigher.weigh(obj2), np.asarray(got)[q], "member-order",
                    rtol=1e-9, atol=1e-9)
        fresh = CylindricMemberWeigher(**{**kw, **({} if dims is None else {
            "dimensions": list(dims)})}).weigh(obj)
        m.close(fresh, got, "member-history", rtol=1e-9, atol=1e-9)
    m.equal(settings(weigher), before, "settings-kept")
    if dims is not None:
        m.equal(kw["dimensions"], dims, "settings-kept")


@check.case(quick=100, thorough=1500)
def own_norms(m):
    """a given norm is used as given"""
    rng = m.rng
    a, b = float(rng.uniform(0.2, 3)), float(rng.uniform(0.2, 3))
    cols = make(rng, extra=False)
    order = ["TWS", "TWA", "BSP"]
    arr = np.column_stack([cols[k] for k in order])
    r, h = float(rng.uniform(5, 150)), float(rng.uniform(0.01, 8))
    m.given(a=a, b=b, arr=arr, r=r, h=h)

    def norm(v):
        return np.hypot(v[:, 0] / a, v[:, 1] / b)

    want = mean_reference(arr[:, :2].tolist(), arr[:, 2].tolist(), [a, b], r)
    got = CylindricMeanWeigher(radius=r, norm=norm).weigh(arr)
    if want is not None:
        m.close(got, want, "mean-definition", rtol=1e-6, atol=1e-6)
    want = member_reference(arr.tolist(), [a, b], r, h)
    got = CylindricMemberWeigher(radius=r, length=h, norm=norm).weigh(arr)
    if want is not None:
        m.close(got, want, "member-definition", rtol=1e-9, atol=1e-9)
    m.event("own-norm")


@check.case(quick=80, thorough=1000)
def exact_borders(m):
    """records exactly on the border of a cylinder belong to it"""
    rng = m.rng
    n = int(rng.integers(2, 25))
    q = 2.0 ** int(rng.integers(-4, 3))
    rows = np.column_stack([rng.integers(0, 8, n), rng.integers(0, 8, n),
                            rng.integers(0, 6, n)]) * q
    r, h = q * int(rng.integers(1, 6)), q * int(rng.integers(0, 4))
    m.given(rows=rows, r=r, h=h)

    def norm(v):
        return np.abs(v).max(axis=1)

    member, mean = [], []
    for x in rows:
        near = [y for y in rows if max(abs(y[0] - x[0]),
                                       abs(y[1] - x[1])) <= r]
        member.append(sum(abs(y[2] - x[2]) <= h for y in near) - 1)
        b = [y[2] for y in near]
        mean.append(abs(np.mean(b) - x[2]) / (np.std(b) or 1))
    for w, cls, kw in ((member, CylindricMemberWeigher, {"length": h}),
                       (mean, CylindricMeanWeigher, {})):
        w = np.array(w, float)
        w = w / (w.max() or 1)
        got = cls(radius=r, norm=norm, **kw).weigh(rows)
        m.close(got, w if kw else 1 - w, "border-included", cls.__name__,
                rtol=1e-9, atol=1e-9)
    m.event("border", n)


def series(rng):
    n = gen.size(rng, 1, 25, 200)
    t, times = datetime(2023, 3, 28, 11), []
    for _ in range(n):
        times.append(t)
        t += timedelta(seconds=float(rng.choice([0, 1, 5, 30, 120])))
    keys = ["datetime", "TWS", "TWA", "BSP", "name"]
    cols = {}
    for k in [keys[i] for i in rng.permutation(5)]:
        if k == "datetime":
            cols[k] = times
        elif k == "name":
            cols[k] = ["x"] * n
        else:
            cols[k] = column(rng, k, n)
    return cols


@check.case(quick=250, thorough=4000)
def fluctuation(m):
    rng = m.rng
    attrs = [k for k in ("TWS", "TWA", "BSP") if gen.chance(rng, 0.6)] or [
        "TWA"]
    attrs = [attrs[i] for i in rng.permutation(len(attrs))]
    if gen.chance(rng, 0.15):
        attrs.insert(int(rng.integers(len(attrs) + 1)), "name")
    ubs = [float(x) for x in rng.uniform(0.1, 60, len(attrs))]
    before = timedelta(seconds=float(rng.choice([0, 1, 10, 60, 600])))
    after = timedelta(0)
    if gen.chance(rng, 0.6):
        after = timedelta(seconds=float(rng.choice([0, 1, 10, 60, 600])))
        span = (before, after)
    else:
        span = before
    given_attrs, given_ubs = list(attrs), list(ubs)
    weigher = FluctuationWeigher(given_attrs, span, given_ubs)
    seq = [series(rng) for _ in range(2)]
    m.given(attrs=attrs, ubs=ubs, before=before, after=after, seq=seq)
    for cols in seq:
        d = data(cols)
        keep = copy.deepcopy(d.data)
        got = weigher.weigh(d)
        m.equal(d.data, keep, "data-kept")
        n = len(cols["TWS"])
        in_range(m, got, n, "fluctuation")
        want = []
        for i, t in enumerate(cols["datetime"]):
            win = [j for j, s in enumerate(cols["datetime"])
                   if t - before <= s <= t + after]
            w = 1.0
            for k, ub in zip(attrs, ubs):
                if k != "name":
                    w *= max(0.0, 1 - np.std([cols[k][j] for j in win]) / ub)
            want.append(w)
        m.close(got, want, "fluctuation-definition", rtol=1e-9, atol=1e-9)
        statistics(m, weigher, got, "fluctuation")
        m.equal(np.asarray(weigher.weigh(d)), np.asarray(got), "repeatable")
    m.equal((given_attrs, given_ubs), (attrs, ubs), "settings-kept")


@check.case(quick=100, thorough=1500)
def fuzzy_and_one(m):
    rng = m.rng
    x = FuzzyVariable()
    a, s = float(rng.uniform(0, 20)), float(rng.uniform(0.1, 3))
    cols = make(rng)
    n = len(cols["TWS"])
    m.given(cols=cols, a=a, s=s)
    d = data(cols)
    weigher = FuzzyWeigher((x["TWS"](s) > a) | (x["BSP"](s) < a))
    want = [max(1 / (1 + np.exp(-s * (w - a))), 1 / (1 + np.exp(s * (b - a))))
            for w, b in zip(cols["TWS"], cols.get("BSP", cols["TWS"]))] \
        if "BSP" in cols else None
    if want is not None:
        got = weigher.weigh(d)
        in_range(m, got, n, "fuzzy")
        m.close(got, want, "fuzzy-definition", rtol=1e-9, atol=1e-12)
        statistics(m, weigher, got, "fuzzy")
    arr = np.column_stack([cols["TWS"], cols["TWA"]])
    got = FuzzyWeigher(x[1](s) > a).weigh(arr)
    with np.errstate(over="ignore"):
        m.close(got, 1 / (1 + np.exp(-s * (arr[:, 1] - a))),
                "fuzzy-definition", rtol=1e-9, atol=1e-12)
    for obj in (d, arr):
        m.equal(np.asarray(AllOneWeigher().weigh(obj)), np.ones(n), "all-one")


OPS = ["+", "-", "*", "/", "**", "neg", "num+", "+num", "num*", "*num",
       "-num", "/num", "num/", "arr+", "*arr", "-arr", "arr*"]


def expression(rng, depth, n):
    """(weigher, function of the base weights, text)"""
    x = FuzzyVariable()
    if depth == 0 or gen.chance(rng, 0.2):
        k = int(rng.integers(4))
        if k == 0:
            a = float(rng.uniform(5, 20))
            w = FuzzyWeigher(x[0](0.2) > a)
            return w, w.weigh, f"fuzzy({a})"
        if k == 1:
            w = CylindricMemberWeigher(radius=1, length=5)
            return w, w.weigh, "member"
        if k == 2:
            w = CylindricMeanWeigher(radius=1)
            return w, w.weigh, "mean"
        return AllOneWeigher(), lambda p: np.ones(len(p)), "one"
    op = gen.pick(rng, OPS)
    w, f, s = expression(rng, depth - 1, n)
    if op in "+-*/" and len(op) == 1:
        v, g, t = expression(rng, depth - 1, n)
        if op == "+":
            return w + v, lambda p: f(p) + g(p), f"({s}+{t})"
        if op == "-":
            return w - v, lambda p: f(p) - g(p), f"({s}-{t})"
        if op == "*":
            return w * v, lambda p: f(p) * g(p), f"({s}*{t})"
        return w / v, lambda p: f(p) / g(p), f"({s}/{t})"
    c = float(np.round(rng.uniform(0.5, 3), 2))
    if gen.chance(rng, 0.3):
        c = int(rng.integers(1, 4))
    arr = rng.uniform(0.5, 2, n)
    k = int(rng.integers(1, 4))
    return {
        "**": lambda: (w ** k, lambda p: f(p) ** k, f"({s}**{k})"),
        "neg": lambda: (-w, lambda p: -f(p), f"(-{s})"),
        "num+": lambda: (c + w, lambda p: c + f(p), f"({c}+{s})"),
        "+num": lambda: (w + c, lambda p: f(p) + c, f"({s}+{c})"),
        "num*": lambda: (c * w, lambda p: c * f(p), f"({c}*{s})"),
        "*num": lambda: (w * c, lambda p: f(p) * c, f"({s}*{c})"),
        "-num": lambda: (w - c, lambda p: f(p) - c, f"({s}-{c})"),
        "/num": lambda: (w / c, lambda p: f(p) / c, f"({s}/{c})"),
        "num/": lambda: (c / w, lambda p: c / f(p), f"({c}/{s})"),
        "arr+": lambda: (arr + w, lambda p: arr + f(p), f"(arr+{s})"),
        "*arr": lambda: (w * arr, lambda p: f(p) * arr, f"({s}*arr)"),
        "-arr": lambda: (w - arr, lambda p: f(p) - arr, f"({s}-arr)"),
        "arr*": lambda: (arr * w, lambda p: arr * f(p), f"(arr*{s})"),
    }[op]()


@check.case(quick=300, thorough=5000)
def arithmetic(m):
    rng = m.rng
    n = int(rng.integers(2, 10))
    arr = np.column_stack([rng.uniform(0, 30, n), rng.uniform(0, 360, n),
                           rng.uniform(0, 15, n)])
    w, f, text = expression(rng, int(rng.integers(1, 4)), n)
    m.given(arr=arr, text=text)
    with np.errstate(all="ignore"):
        want = f(arr)
        with m.unmutated("data-kept", arr=arr):
            got = w.weigh(arr)
        got, want = np.asarray(got, float), np.asarray(want, float)
        m.equal(got.shape, (n,), "arithmetic-shape", text)
        same = np.isclose(got, want, rtol=1e-9, atol=1e-12) | (
            np.isnan(got) & np.isnan(want)) | (got == want)
        m.ok(same.all(), "arithmetic", f"{text}: {got} instead of {want}")
        if np.all(np.isfinite(want)) and not text.isalnum():
            s = w.get_latest_statistics()
            if s:
                m.close(s["average_weight"], want.mean(),
                        "arithmetic-statistics", rtol=1e-9, atol=1e-9)
        m.close(np.nan_to_num(np.asarray(w.weigh(arr), float)),
                np.nan_to_num(got), "repeatable", rtol=1e-12)
    m.event("expression")


def some_weigher(rng, keys):
    """a maker of equal weighers of data with columns `keys`, its text"""
    some = [k for k in keys if gen.chance(rng, 0.6)] or keys[:1]
    r = float(gen.pick(rng, [0.02, 0.05, 0.3]))
    h = float(gen.pick(rng, [0.05, 1, 4]))
    k = int(rng.integers(6))
    if k < 2:
        dims = ([x for x in some if x != "BSP"] or ["TWA"]) + ["BSP"]
        return lambda: CylindricMeanWeigher(
            radius=r, dimensions=dims), f"mean({r}, {dims})"
    if k < 4:
        dims = some if len(some) > 1 else keys[:2]
        return lambda: CylindricMemberWeigher(
            radius=r, length=h, dimensions=dims), f"member({r}, {h}, {dims})"
    if k == 4:
        ubs = [float(x) for x in rng.uniform(1, 60, len(some))]
        span = timedelta(seconds=int(rng.integers(1, 5)))
        return lambda: FluctuationWeigher(
            some, span, ubs), f"fluctuation({some}, {span}, {ubs})"
    a = float(rng.uniform(1, 15))
    return lambda: FuzzyWeigher(
        FuzzyVariable(key=some[0]) > a), f"fuzzy({some[0]} > {a})"


@check.case(quick=120, thorough=2000)
def mixtures(m):
    """two weighers, often of one kind, side by side and combined"""
    rng = m.rng
    cols = series(rng)
    keys = [k for k in ("TWS", "TWA", "BSP", "lat") if k in cols]
    first, s = some_weigher(rng, keys)
    second, t = some_weigher(rng, keys)
    for _ in range(3):
        if s.split("(")[0] != t.split("(")[0] and gen.chance(rng, 0.7):
            second, t = some_weigher(rng, keys)
    m.given(cols=cols, s=s, t=t)
    a = np.asarray(first().weigh(data(cols)), float)
    b = np.asarray(second().weigh(data(cols)), float)
    u, v = first(), second()
    for name, w, want in (
            ("+", u + v, lambda: a + b), ("-", u - v, lambda: a - b),
            ("*", u * v, lambda: a * b), ("twice", u + u, lambda: a + a),
            ("swapped", v - u, lambda: b - a),
            ("nested", (u + v) * v, lambda: (a + b) * b),
            ("mean", 0.5 * (u + v), lambda: (a + b) / 2)):
        m.close(w.weigh(data(cols)), want(), "mixture", f"{name}: {s} {t}",
                rtol=1e-9, atol=1e-12)
    m.close(u.weigh(data(cols)), a, "part-kept", s, rtol=1e-12)
    m.close(v.weigh(data(cols)), b, "part-kept", t, rtol=1e-12)
    m.event("mixture")


@check.case(quick=80, thorough=400)
def rejections(m):
    rng = m.rng
    x = float(rng.uniform(0.01, 9))
    m.given(x=x)
    m.raises(ValueError, lambda: CylindricMeanWeigher(radius=-x),
             "rejects-radius")
    m.raises(ValueError, lambda: CylindricMemberWeigher(radius=-x),
             "rejects-radius")
    m.raises(ValueError, lambda: CylindricMemberWeigher(length=-x),
             "rejects-length")
    w = gen.pick(rng, [AllOneWeigher(), CylindricMeanWeigher()])
    for bad in ("3", None, [x]):
        for f in (lambda: w + bad, lambda: w * bad, lambda: w - bad,
                  lambda: w / bad, lambda: bad / w):
            m.raises(TypeError, f, "rejects-operand", repr(bad))
    m.raises(ValueError, lambda: CylindricMeanWeigher().weigh(
        Data.from_dict({"TWS": [x, x], "TWA": [x, x]})), "rejects-no-speed")
    m.raises(TypeError, lambda: FuzzyWeigher(FuzzyVariable() > 3).weigh([x]),
             "rejects-type")
    m.event("rejected", 20)


@check.case(quick=30, thorough=100)
def empty(m):
    """weighing nothing after something"""
    rng = m.rng
    cols = make(rng)
    m.given(cols=cols)
    none = data({k: [] for k in cols})
    for w in (CylindricMeanWeigher(), CylindricMemberWeigher()):
        full = w.weigh(data(cols))
        m.equal(len(w.weigh(np.empty((0, 3)))), 0, "empty")
        m.equal(len(w.weigh(none)), 0, "empty")
        s = w.get_latest_statistics()
        m.ok(s.get("maximal_weight") is None, "empty-statistics", repr(s))
        m.close(w.weigh(data(cols)), full, "history-empty", rtol=1e-12)
        m.event("empty")
