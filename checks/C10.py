"""C10: samplers return the requested number of points within the hull."""
import numpy as np

from hrosailing.processing import (
    ArchimedeanSampler,
    FibonacciSampler,
    UniformRandomSampler,
)
from hrosailing.processing import sampler as smp
from hrv import Check, gen

check = Check(
    "C10",
    "Each sampler samples wind-like, unit, circular, thin, gridded, "
    "clustered and triangular point sets, with and without a speed column; "
    "the samples are tested against the half planes of a hull computed by an "
    "independent monotone chain, counted, and the loop iterations bounded. "
    "The smallest enclosing circle is checked against all points and a brute "
    "force optimum.",
    ["the points span a two-dimensional region (a hull with interior)"],
)
SAMPLERS = [UniformRandomSampler, FibonacciSampler, ArchimedeanSampler]
KINDS = ["wind", "unit", "circle", "thin", "grid", "triangle", "cluster",
         "int", "integer-grid", "small", "small",
         "far"]


def make(rng, kind):
    n = gen.size(rng, 3, 40, 400)
    if kind == "wind":
        p = np.column_stack([rng.uniform(0, 40, n), rng.uniform(0, 360, n)])
    elif kind == "unit":
        p = rng.uniform(0, 1, (n, 2))
    elif kind == "circle":
        a = np.linspace(0, 2 * np.pi, n, endpoint=False)
        p = np.column_stack([np.cos(a), np.sin(a)]) * rng.uniform(0.5, 20)
    elif kind == "thin":
        p = np.column_stack([rng.uniform(0, 2, n), rng.uniform(0, 360, n)])
    elif kind == "grid":
        p = np.array([(x, y) for x in range(2, 2 + 2 * int(rng.integers(2, 7)),
                                            2)
                      for y in range(0, 360, int(rng.choice([30, 45, 90])))],
                     float)
    elif kind == "triangle":
        p = np.array([[0, 0], [10, 0],
                      [rng.uniform(0, 10), rng.uniform(1, 10)]])
    elif kind == "cluster":
        p = np.concatenate([c + rng.normal(size=(6, 2)) * [0.3, 3]
                            for c in rng.uniform(0, 1, (3, 2)) * [30, 300]])
    elif kind == "small":
        p = [8, 90] + rng.uniform(0, 1, (n, 2)) * 10.0 ** rng.uniform(-8.9, 0)
    elif kind == "far":
        p = rng.uniform(0, 1, (n, 2)) + rng.uniform(-1000, 1000, 2)
    elif kind == "int":
        p = np.column_stack([rng.integers(0, 30, n), rng.integers(0, 360, n)]
                            ).astype(float)
    else:
        k = int(rng.integers(2, 5))
        p = np.array([(x, y) for x in range(k) for y in range(k)])
    if len(hull(p)) < 3 or area(hull(p)) < 1e-3 * np.prod(
            np.ptp(p, axis=0)):
        return make(rng, "wind")
    return p[rng.permutation(len(p))]


def hull(p):
    """counter clockwise hull (monotone chain)"""
    q = sorted(set((float(x), float(y)) for x, y in p))
    if len(q) < 3:
        return q

    def half(q):
        out = []
        for c in q:
            while len(out) > 1 and cross(out[-2], out[-1], c) <= 0:
                out.pop()
            out.append(c)
        return out[:-1]

    return half(q) + half(q[::-1])


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def area(h):
    return sum(cross(h[0], h[i], h[i + 1]) for i in range(1, len(h) - 1)) / 2


def outside(h, s):
    """largest distance of a sample beyond a hull edge"""
    worst = -np.inf
    for a, b in zip(h, h[1:] + h[:1]):
        n = np.hypot(b[0] - a[0], b[1] - a[1])
        d = -((b[0] - a[0]) * (s[:, 1] - a[1])
              - (b[1] - a[1]) * (s[:, 0] - a[0])) / n
        worst = max(worst, d.max())
    return worst


@check.case(quick=220, thorough=3000, budget=3_000_000)
def sample(m):
    rng = m.rng
    kind = gen.pick(rng, KINDS)
    pts = make(rng, kind)
    how = int(rng.integers(3))
    if how == 1:
        pts = np.column_stack([pts, rng.uniform(0, 20, len(pts))])
    S = gen.pick(rng, SAMPLERS)
    n = int(gen.pick(rng, [1, 2, 3, int(rng.integers(1, 80)),
                           int(rng.integers(80, 300))] * 5 + [
                               int(rng.integers(500, 1200))]))
    np.random.seed(int(rng.integers(2**31)))
    m.given(kind=kind, sampler=S.__name__, n=n, pts=pts)
    smpl = S(n)
    with m.unmutated("points-kept", pts=pts):
        got = smpl.sample(pts.tolist() if how == 2 else pts)
    m.equal(np.shape(got), (n, 2), "count", f"{S.__name__} {kind}")
    got = np.asarray(got)
    m.ok(np.all(np.isfinite(got)), "finite")
    h = hull(pts[:, :2])
    tol = 1e-12 * (np.abs(pts[:, :2]).max() + 1) + 1e-9 * np.ptp(
        pts[:, :2], axis=0).max()
    m.ok(outside(h, got) <= tol, "within-hull",
         f"{S.__name__} leaves the hull by {outside(h, got)}")
    m.equal(len(set(map(tuple, got.tolist()))), n, "distinct")
    m.event("sample-point", n)
    m.state("sampler-kind-speed", (S.__name__, kind, how))
    again = smpl.sample(pts)
    m.equal(np.shape(again), (n, 2), "count-again")
    m.ok(outside(h, np.asarray(again)) <= tol, "within-hull")


@check.case(quick=30, thorough=300)
def spread(m):
    """uniform samples reach every quarter of the hull's bounding box"""
    rng = m.rng
    lo, d = rng.uniform(-5, 30, 2), rng.uniform(1, 300, 2)
    pts = lo + d * np.array([[0, 0], [0, 1], [1, 0], [1, 1.0]])
    m.given(pts=pts)
    got = (UniformRandomSampler(400).sample(pts) - lo) / d
    for qx in (0, 1):
        for qy in (0, 1):
            k = np.sum((got[:, 0] // 0.5 == qx) & (got[:, 1] // 0.5 == qy))
            m.ok(40 < k < 160, "uniform", f"{k} of 400 samples in a quarter")
    m.event("uniform-quarter", 4)


@check.case(quick=60, thorough=800)
def reach(m):
    """many samples reach both sides of every line through the middle"""
    rng = m.rng
    kind = gen.pick(rng, ["wind", "unit", "circle", "int", "triangle", "far",
                          "strip"])
    if kind == "strip":  # some wind speeds, all angles
        pts = np.array([[0, 0], [1, 0], [0, 1], [1, 1]]) * [
            10.0 ** rng.uniform(-1, 0.5), 360] + [rng.uniform(0, 20), 0]
    else:
        pts = make(rng, kind)
    S = gen.pick(rng, SAMPLERS)
    n = int(rng.integers(60, 250))
    np.random.seed(int(rng.integers(2**31)))
    m.given(kind=kind, sampler=S.__name__, n=n, pts=pts)
    got = S(n).sample(pts)
    h = np.array(hull(pts))
    # centre of gravity of the hull
    t = [(h[0] + h[i] + h[i + 1]) / 3 for i in range(1, len(h) - 1)]
    w = [cross(h[0], h[i], h[i + 1]) for i in range(1, len(h) - 1)]
    mid = np.average(t, axis=0, weights=w)
    d = (np.asarray(got) - mid) / np.ptp(h, axis=0)
    for a in np.linspace(0, 2 * np.pi, 12, endpoint=False) + rng.uniform(0, 1):
        side = d @ [np.cos(a), np.sin(a)]
        m.ok(np.any(side > 0), "reach",
             f"{S.__name__}: none of {n} samples on one side of the middle")
    reached = np.ptp(d, axis=0)
    m.ok(reached.min() > (0.5 if S is UniformRandomSampler else 0.7),
         "reach-far", f"{S.__name__}: {n} samples span only {reached} of the "
         "hull's extent")
    m.ok(np.linalg.matrix_rank(d, tol=1e-6) == 2, "reach-flat",
         f"{S.__name__}: all samples on a line")
    m.event("reached-side", 12)


@check.case(quick=200, thorough=3000, budget=3_000_000)
def circle(m):
    """the circle encloses all points and is (nearly) the smallest one"""
    rng = m.rng
    kind = gen.pick(rng, KINDS)
    pts = make(rng, kind).astype(float)[:14]
    np.random.seed(int(rng.integers(2**31)))
    m.given(kind=kind, pts=pts)
    f = getattr(smp, "_make_circle", None)
    if f is None:
        m.event("circle", 1)
        return
    with m.unmutated("points-kept", pts=pts):
        mid, r = f(pts)
    d = np.hypot(*(pts - mid).T)
    tol = 1e-3 * min(1, np.ptp(pts, axis=0).max())
    m.ok(d.max() <= r + tol, "circle-encloses", f"{d.max()} > {r}")
    # smallest circle: fixed iteration towards the farthest point
    c = pts.mean(axis=0)
    for i in range(1, 3000):
        far = pts[np.argmax(np.hypot(*(pts - c).T))]
        c = c + (far - c) / (i + 1)
    best = np.hypot(*(pts - c).T).max()
    m.ok(r <= best * 1.02 + tol, "circle-small", f"{r} > {best}")
    m.event("circle")


@check.case(quick=40, thorough=200)
def rejections(m):
    n = -int(m.rng.integers(0, 5))
    m.given(n=n, salt=float(m.rng.random()))
    for S in SAMPLERS:
        m.raises(ValueError, lambda: S(n), "rejects-count", S.__name__)
    m.event("rejected", 3)
