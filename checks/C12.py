"""C12: filters keep exactly the records their rule admits."""
import numpy as np

from hrosailing.processing import BoundFilter, QuantileFilter
from hrv import Check, gen

check = Check(
    "C12",
    "Filters get weight vectors with ties, constants, extreme, single and no "
    "entries, several times per filter; each answer is compared entry by "
    "entry with the rule and the statistics with the counts of that answer.",
    ["weights within 1e-12 of an interpolated percentile are not judged"],
)


def weights(rng):
    n = int(gen.pick(rng, [0, 1, 2, 3, gen.size(rng, 1, 60, 900)]))
    k = int(rng.integers(5))
    if k == 0:
        return rng.uniform(0, 1, n)
    if k == 1:
        return rng.integers(0, 4, n) / 4
    if k == 2:
        return np.full(n, float(rng.uniform(0, 1)))
    if k == 3:
        return np.round(rng.uniform(0, 1, n), 1)
    return rng.normal(size=n) * 10 ** rng.uniform(-6, 6)


def stats(m, f, got, mech):
    s = f.get_latest_statistics()
    kept = int(np.sum(np.asarray(got, dtype=bool)))
    m.equal(s["n_filtered_points"], len(got) - kept, mech + "-removed-count")
    m.equal(s["n_rows"], kept, mech + "-kept-count")
    m.event("kept", kept)
    m.event("removed", len(got) - kept)


@check.case(quick=500, thorough=10000)
def quantile(m):
    rng = m.rng
    p = float(gen.pick(rng, [0, 25, 50, 75, 100, rng.uniform(0, 100)]))
    f = QuantileFilter(p) if p != 50 or gen.chance(rng, 0.5) \
        else QuantileFilter()
    calls = [weights(rng) for _ in range(3)]
    m.given(p=p, calls=calls)
    for w in calls:
        with m.unmutated("weights-kept", w=w):
            got = f.filter(w)
        m.equal(len(got), len(w), "quantile-shape")
        stats(m, f, got, "quantile")
        if len(w) == 0:
            continue
        m.ok(np.asarray(got).dtype == bool, "quantile-shape", "no mask")
        s = np.sort(w)
        pos = (len(w) - 1) * p / 100
        i = int(np.floor(pos))
        exact = pos == i or s[i] == s[min(i + 1, len(s) - 1)]
        lim = s[i] if exact else s[i] + (pos - i) * (s[i + 1] - s[i])
        tol = 0 if exact else 1e-12 * max(abs(s[0]), abs(s[-1]))
        judged = np.abs(w - lim) > tol if tol else np.ones(len(w), bool)
        bad = judged & (np.asarray(got) != (w >= lim))
        m.ok(not bad.any(), "quantile-rule", f"percentile {lim}: weights "
             f"{w[bad]} misjudged", w=w, got=got)
        m.ok(bool(np.asarray(got)[np.argmax(w)]), "quantile-keeps-best")
        again = f.filter(w)
        m.equal(np.asarray(again), np.asarray(got), "repeatable")
        q = rng.permutation(len(w))
        m.equal(np.asarray(f.filter(w[q])), np.asarray(got)[q],
                "order-independent")


@check.case(quick=500, thorough=10000)
def bound(m):
    rng = m.rng
    lo = float(gen.pick(rng, [0, 0.25, 0.5, rng.uniform(-1, 1)]))
    hi = float(gen.pick(rng, [lo, lo + 0.25, lo + 0.5, lo + rng.random()]))
    if gen.chance(rng, 0.25):
        lo, hi = 0.5, 1.0
        f = BoundFilter()
    else:
        f = BoundFilter(lower_bound=lo, upper_bound=hi)
    calls = [weights(rng) for _ in range(3)]
    m.given(lo=lo, hi=hi, calls=calls)
    for w in calls:
        if len(w) and gen.chance(rng, 0.5):
            w[int(rng.integers(len(w)))] = lo
            w[int(rng.integers(len(w)))] = hi
            # just beyond and just within the bounds
            for x in (lo, hi):
                w[int(rng.integers(len(w)))] = gen.pick(rng, [
                    np.nextafter(x, 9), np.nextafter(x, -9), x + 1e-9,
                    x - 1e-9, x + 1e-6, x - 1e-6, x + 1e-3, x - 1e-3])
        if len(w) and gen.chance(rng, 0.15):  # within no bounds
            w[int(rng.integers(len(w)))] = gen.pick(
                rng, [np.nan, np.inf, -np.inf])
        with m.unmutated("weights-kept", w=w):
            got = np.asarray(f.filter(w))
        m.equal(len(got), len(w), "bound-shape")
        want = np.array([lo <= x <= hi for x in w], dtype=bool)
        m.equal(got, want, "bound-rule")
        stats(m, f, got, "bound")
        m.equal(np.asarray(f.filter(w)), want, "repeatable")


@check.case(quick=60, thorough=300)
def rejections(m):
    rng = m.rng
    x = float(rng.uniform(0.001, 50))
    m.given(x=x)
    m.raises(ValueError, lambda: QuantileFilter(-x), "rejects-percent")
    m.raises(ValueError, lambda: QuantileFilter(100 + x), "rejects-percent")
    m.raises(ValueError, lambda: BoundFilter(x, -x), "rejects-bounds")
    m.event("rejected", 3)


gen.large_case(check, quantile, 20000)
gen.large_case(check, bound, 20000)
