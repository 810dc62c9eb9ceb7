"""C07: evaluating a diagram agrees with its data, stays in its range."""
import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing import (
    ArithmeticMeanInterpolator,
    Ball,
    IDWInterpolator,
    ImprovedIDWInterpolator,
    ScalingBall,
)
from hrosailing.processing.interpolator import Interpolator
from hrosailing.processing.neighbourhood import Neighbourhood
from hrv import Check, gen, ref

check = Check(
    "C07",
    "Tables, clouds and curves are evaluated at stored winds, near them, far "
    "from them, with wrapped angles, with several interpolators and "
    "neighbourhoods, in interleaved order; results are compared with the "
    "stored data, an independent implementation of the documented default "
    "and the range of the data.",
    ["where no data lies in the neighbourhood the result is unspecified"],
)

INTERP = [
    (None, None),
    (IDWInterpolator(), lambda p, a: ref.idw(p, a)),
    (IDWInterpolator(p=1), lambda p, a: ref.idw(p, a, 1)),
    (IDWInterpolator(p=4), lambda p, a: ref.idw(p, a, 4)),
    (ArithmeticMeanInterpolator(params=(10,)),
     lambda p, a: ref.arithmetic_mean(p, a, alpha=10)),
    (ArithmeticMeanInterpolator(),
     lambda p, a: ref.arithmetic_mean(p, a, alpha=100)),
    (ImprovedIDWInterpolator(), lambda p, a: ref.improved_idw(p, a)),
]


def near_ball(pts, at, radius):
    d = ref.dists(pts, at)
    if np.any(np.abs(d - radius) < 1e-9):
        return None
    return pts[d <= radius]


def evaluate(m, pd, pts, ws, wa, tag):
    """off-data evaluation with a random interpolator/neighbourhood"""
    rng = m.rng
    interp, formula = gen.pick(rng, INTERP)
    at = (ws, wa % 360)
    kw = {}
    if interp is not None:
        kw["interpolator"] = interp
    nh = int(rng.integers(3))
    if nh == 0:
        near = near_ball(pts, at, 1)
    elif nh == 1:
        r = float(rng.uniform(0.02, 1.2))
        kw["neighbourhood"] = Ball(radius=r)
        near = near_ball(pts, at, r)
    else:
        k = int(rng.integers(1, len(pts) + 1))
        kw["neighbourhood"] = ScalingBall(k)
        d = ref.dists(pts, at)
        lim = sorted(d)[k - 1]
        if np.any((np.abs(d - lim) < 1e-12) & (d > lim)):
            near = None
        else:
            near = pts[d <= lim]
    if near is None or len(near) == 0:
        m.event("no-data-near")
        return
    if isinstance(interp, ImprovedIDWInterpolator) and len(near) == 1:
        pass
    got = pd(ws, wa, **kw)
    m.ok(np.ndim(got) == 0 and np.isfinite(got), tag + "-finite", got=got)
    lo, hi = near[:, 2].min(), near[:, 2].max()
    tol = 1e-9 * max(1, abs(hi))
    m.ok(lo - tol <= got <= hi + tol, tag + "-range",
         f"{got} not in [{lo}, {hi}]", at=at, kw=repr(kw))
    want = ref.arithmetic_mean(near, at, alpha=50) if formula is None \
        else formula(near, at)
    if np.isfinite(want):
        m.close(got, want, tag + "-formula", rtol=1e-7, atol=1e-9, at=at,
                kw=repr(kw))
    m.event("off-data-evaluation")
    m.equal(pd(ws, wa, **kw), got, "repeatable")


@check.case(quick=300, thorough=4000)
def tables(m):
    rng = m.rng
    t = gen.table(rng, **(dict(nmax=5, amax=8) if gen.chance(rng, 0.95)
                          else dict(nmax=30, amax=80)))
    ws, wa, b = t.wind_speeds, t.wind_angles, t.boat_speeds
    pts = ref.table_points(ws, wa, b)
    m.given(ws=ws, wa=wa, b=b)
    probes = []
    for _ in range(8):
        k = int(rng.integers(3))
        if k == 0:
            i, j = int(rng.integers(len(wa))), int(rng.integers(len(ws)))
            got = t(float(ws[j]), float(wa[i]))
            m.equal(got, b[i, j], "table-stored")
            m.event("stored-evaluation")
            probes.append(((float(ws[j]), float(wa[i])), got))
        else:
            w = float(rng.uniform(0, 40))
            a = float(rng.uniform(0, 360))
            if k == 2:  # near the data
                far = gen.pick(rng, [1, 1, 1e-2, 1e-4, 1e-6])
                w = float(abs(gen.pick(rng, ws) + rng.normal() * 0.5 * far))
                a = float((gen.pick(rng, wa) + rng.normal() * 2 * far) % 360)
            if w in ws and a in wa:
                continue
            evaluate(m, t, pts, w, a, "table")
            try:
                probes.append(((w, a), t(w, a)))
            except ZeroDivisionError:
                pass
    for (w, a), got in reversed(probes):
        m.equal(t(w, a), got, "repeatable")
        turn = 360.0 * int(rng.integers(-2, 3))
        m.close(t(w, a + turn), got, "angle-modulo-360", rtol=1e-6,
                atol=1e-6) if abs((a * 64) % 1) < 1e-12 or not np.isin(
                    a, wa) else None
    m.equal((t.wind_speeds, t.wind_angles, t.boat_speeds), (ws, wa, b),
            "diagram-kept")
    # after an edit the evaluations are those of the edited table
    i, j = int(rng.integers(len(wa))), int(rng.integers(len(ws)))
    b2 = b.copy()
    if gen.chance(rng, 0.5):
        b2[i, j] = float(rng.uniform(20, 30))
        t.change_entries(b2[i, j], ws=float(ws[j]), wa=float(wa[i]))
    else:
        b2 = b2 + rng.uniform(1, 20, b2.shape)
        t.change_entries(b2[:, 0] if len(ws) == 1 else b2[0] if len(
            wa) == 1 else b2)
    fresh = PolarDiagramTable(ws, wa, b2)
    for (w, a), _ in probes:
        m.equal(t(w, a), fresh(w, a), "edited-table")
        m.event("edited-evaluation")


@check.case(quick=300, thorough=4000)
def clouds(m):
    rng = m.rng
    pts = gen.cloud_points(rng, n=gen.size(rng, 1, 40, 500))
    uniq = {(p[0], p[1]): p for p in pts[::-1]}
    c = PolarDiagramPointcloud(pts.copy())
    if gen.chance(rng, 0.3):
        more = gen.cloud_points(rng, n=5)
        c.add_points(more.copy())
        pts = np.row_stack([pts, more])
        for p in more:
            uniq.setdefault((p[0], p[1]), p)
    m.given(pts=pts)
    m.equal(c.points, pts, "cloud-points-kept")
    probes = []
    for _ in range(8):
        k = int(rng.integers(3))
        if k == 0:
            w, a, s = gen.pick(rng, list(uniq.values()))
            got = c(float(w), float(a))
            m.equal(got, s, "cloud-stored")
            m.event("stored-evaluation")
            probes.append(((float(w), float(a)), got))
            continue
        w, a = float(rng.uniform(0.1, 40)), float(rng.uniform(0, 360))
        if k == 2:
            p = gen.pick(rng, pts)
            far = gen.pick(rng, [1, 1, 1e-2, 1e-4, 1e-6])
            w = float(abs(p[0] + rng.normal() * 0.5 * far))
            a = float((p[1] + rng.normal() * 2 * far) % 360)
            if w == 0:
                continue
        if (w, a) in uniq:
            continue
        evaluate(m, c, pts, w, a, "cloud")
        try:
            probes.append(((w, a), c(w, a)))
        except ZeroDivisionError:
            pass
    for (w, a), got in reversed(probes):
        m.equal(c(w, a), got, "repeatable")
        if (w, a) not in uniq:
            turn = 360.0 * int(rng.integers(-2, 3))
            m.close(c(w, a + turn), got, "angle-modulo-360", rtol=1e-6,
                    atol=1e-6)
    m.equal(c.points, pts, "diagram-kept")
    # after adding points the evaluations are those of all points
    more = gen.cloud_points(rng, n=4)
    c.add_points(more.copy())
    fresh = PolarDiagramPointcloud(np.row_stack([pts, more]))
    for (w, a), _ in probes:
        m.equal(c(w, a), fresh(w, a), "enlarged-cloud")
        m.event("edited-evaluation")
    bad = -float(rng.uniform(0.1, 20))
    m.raises(ValueError, lambda: c(bad, 10.0), "cloud-rejects-negative")


def own(ws, wa, a, b):
    return ws * (a + np.sin(b * wa))


def own2(ws, wa, *p):
    return p[0] * ws + p[1] * wa + p[2] * wa * wa


@check.case(quick=500, thorough=6000)
def curves(m):
    rng = m.rng
    rad = gen.chance(rng, 0.5)
    k = int(rng.integers(3))
    if k == 0:
        f, p = own, [float(x) for x in rng.uniform(0, 1, 2)]
    elif k == 1:
        f, p = own2, [float(x) for x in rng.uniform(-1, 1, 3)]
    else:
        import hrosailing.core.modelfunctions as model

        name = gen.pick(rng, sorted(gen.CURVES))
        f, p = getattr(model, name), gen.curve_params(rng, name)
    c = PolarDiagramCurve(f, *p, radians=rad)
    full = 2 * np.pi if rad else 360.0
    n = gen.size(rng, 2, 7, 200)
    ws = rng.uniform(0, 35, n)
    if gen.chance(rng, 0.1):
        ws[0] = 0.0
    base = rng.uniform(0.01, 0.99, n) * full
    turns = rng.integers(-2, 3, n)
    wa = base + turns * full
    m.given(f=f.__name__, p=p, rad=rad, ws=ws, wa=wa)
    want = [f(w, a, *p) for w, a in zip(ws, base)]
    ws_, wa_ = ws.copy(), wa.copy()
    got = c(ws, wa)
    m.close(got, want, "curve-array", rtol=1e-7, atol=1e-7)
    m.equal(ws, ws_, "arguments-kept")
    m.equal(wa, wa_, "arguments-kept")
    for i in rng.permutation(n)[:9]:
        m.close(c(float(ws[i]), float(wa[i])), want[i], "curve-scalar",
                rtol=1e-7, atol=1e-7)
        m.event("curve-evaluation")
    # one wind speed with many angles and the reverse
    m.close(c(float(ws[0]), wa), [f(ws[0], a, *p) for a in base],
            "curve-broadcast", rtol=1e-7, atol=1e-7)
    m.close(c(ws, wa), want, "repeatable", rtol=1e-7, atol=1e-7)
    a_int = int(rng.integers(-400, 800))
    if not rad:
        m.close(c(7, a_int), f(7, a_int % 360, *p), "curve-scalar",
                rtol=1e-9)
    neg = ws.copy()
    neg[int(rng.integers(n))] = -float(rng.uniform(0.01, 9))
    m.raises(ValueError, lambda: c(neg, wa), "curve-rejects-negative")
    m.raises(ValueError, lambda: c(float(neg.min()), 1.0),
             "curve-rejects-negative")
    m.ok(c.radians == rad and list(c.parameters) == p and c.curve is f,
         "diagram-kept")


@check.case(quick=60, thorough=500)
def several_diagrams_interleaved(m):
    """evaluations of one diagram do not influence another"""
    rng = m.rng
    pds = [gen.table(rng), gen.cloud(rng), gen.curve(rng), gen.table(rng)]
    m.given(pds=[repr(p)[:200] for p in pds])
    calls = [(int(rng.integers(len(pds))), float(rng.uniform(1, 30)),
              float(rng.uniform(0, 360))) for _ in range(12)]

    def run(order):
        out = {}
        for i in order:
            k, w, a = calls[i]
            try:
                out[i] = float(pds[k](w, a))
            except ZeroDivisionError:
                out[i] = None
            m.event("interleaved-evaluation")
        return out

    first = run(range(12))
    second = run(rng.permutation(12))
    m.ok(first == second, "order-independent", first=first, second=second)


class Half(Neighbourhood):
    """half a plane or everything; records what it is asked"""

    def __init__(self, line):
        self.line, self.asked = line, []

    def is_contained_in(self, pts):
        self.asked.append(pts)
        pts = np.atleast_2d(np.asarray(pts, float))
        return pts @ self.line[:2] >= self.line[2]


class Law(Interpolator):
    def __init__(self):
        self.asked = []

    def interpolate(self, w_pts, grid_pt):
        self.asked.append((w_pts, grid_pt))
        return -1.5 - len(self.asked)


@check.case(quick=120, thorough=1500)
def own_parts(m):
    """own neighbourhoods and interpolators decide, and are asked properly"""
    rng = m.rng
    table = gen.chance(rng, 0.5)
    if table:
        pd = gen.table(rng, nmax=5, amax=8)
        pts = ref.table_points(pd.wind_speeds, pd.wind_angles,
                               pd.boat_speeds)
    else:
        pd = gen.cloud(rng)
        pts = pd.points
    m.given(pts=pts)
    for _ in range(4):
        w, a = float(rng.uniform(1, 40)), float(rng.uniform(-360, 720))
        if gen.chance(rng, 0.3):  # at a stored wind or only its speed
            p = gen.pick(rng, pts)
            w = float(p[0])
            a = float(p[1]) if gen.chance(rng, 0.5) else a
            if w <= 0:
                continue
        at = np.array([w, a % 360])
        n, i = Half(np.append(rng.normal(size=2), gen.pick(
            rng, [-1e9, float(rng.normal())]))), Law()
        want = n.is_contained_in(pts[:, :2] - at)
        n.asked.clear()
        got = pd(w, a, interpolator=i, neighbourhood=n)
        stored = [p[2] for p in pts if p[0] == w and p[1] == a % 360]
        if stored:
            m.equal(got, stored[0], "stored-value-first")
            m.event("stored-evaluation")
            continue
        m.equal(len(i.asked), 1, "interpolator-asked")
        m.equal(got, -2.5, "interpolator-decides")
        for x in n.asked:
            m.ok(isinstance(x, np.ndarray), "neighbourhood-gets-array")
        m.equal(np.array(sorted(map(tuple, np.vstack(n.asked)))),
                np.array(sorted(map(tuple, pts[:, :2] - at))),
                "neighbourhood-gets-differences")
        w_pts, grid = i.asked[0]
        m.ok(isinstance(grid, np.ndarray), "interpolator-gets-array")
        m.equal(grid, at, "interpolator-gets-point")
        m.equal(np.asarray(w_pts.data, float), pts[want],
                "interpolator-gets-neighbours")
        m.ok(len(set(np.asarray(w_pts.weights).tolist())) <= 1,
             "neighbours-weigh-the-same")
        m.event("own-parts")


@check.case(quick=100, thorough=500)
def curve_construction(m):
    rng = m.rng
    k = int(rng.integers(3))
    m.given(k=k, salt=float(rng.random()))
    if k == 0:
        bad = gen.pick(rng, [3, "f", None, [1]])
        m.raises(TypeError, lambda: PolarDiagramCurve(bad, 1.0),
                 "curve-not-callable")
    else:
        import hrosailing.core.modelfunctions as model

        name = gen.pick(rng, sorted(gen.CURVES))
        p = gen.curve_params(rng, name)
        few = p[: int(rng.integers(0, len(p)))]
        m.raises(ValueError,
                 lambda: PolarDiagramCurve(getattr(model, name), *few),
                 "curve-too-few-parameters")
    m.event("rejected")
