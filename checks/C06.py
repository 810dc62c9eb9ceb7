"""C06: slices and points show the diagram's own values."""
import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing import (
    ArithmeticMeanInterpolator,
    IDWInterpolator,
)
from hrosailing.processing.interpolator import Interpolator
from hrv import Check, gen


class Never(Interpolator):
    def interpolate(self, w_pts, grid_pt):
        return -77.0


check = Check(
    "C06",
    "Slices and points of tables, clouds and curves are requested for stored "
    "and unstored winds, with subdivisions, ranges, resolutions and "
    "interpolators; every record is compared with what the diagram stores or "
    "evaluates to at that wind.",
)


def expect_labels(m, labels, ws, n_steps, mech="labels"):
    want = []
    if n_steps is None:
        want = list(ws)
    else:
        for a, b in zip(ws, ws[1:]):
            want += [a + (b - a) * i / (n_steps + 1)
                     for i in range(n_steps + 1)]
        want.append(ws[-1])
    m.close(list(labels), want, mech, rtol=1e-12, atol=1e-12)


def request(rng, stored, lo=0.5, hi=38):
    ws = [float(x) for x in rng.uniform(lo, hi, int(rng.integers(1, 5)))]
    if gen.chance(rng, 0.6):
        ws[0] = float(gen.pick(rng, stored))
    if gen.chance(rng, 0.6):
        ws.sort()
    n = None if gen.chance(rng, 0.6) else int(gen.pick(rng, [
        1, 2, 3, 4, 6, 9, 16, 24, 48]))
    k = int(rng.integers(5))
    if k == 4:  # other kinds of numbers
        kind = gen.pick(rng, [np.float32, np.float16, np.int64, np.int32,
                              np.int16])
        ws = [float(kind(max(w, 1))) for w in ws]
        arg = np.array(ws, kind)
        if gen.chance(rng, 0.5):
            arg = list(arg)
    else:
        arg = [ws, tuple(ws), np.array(ws), ws][k]
    if len(ws) == 1 and gen.chance(rng, 0.5):
        arg = ws[0]
    return ws, arg, n


@check.case(quick=250, thorough=4000)
def table_slices(m):
    rng = m.rng
    t = gen.table(rng, **(dict(nmax=5, amax=6) if gen.chance(rng, 0.95)
                          else dict(nmax=30, amax=60)))
    if gen.chance(rng, 0.2):
        t = PolarDiagramTable(t.wind_speeds, t.wind_angles)
    tws, twa, b = t.wind_speeds, t.wind_angles, t.boat_speeds
    ws, arg, n = request(rng, tws)
    interp = gen.pick(rng, [None, IDWInterpolator(),
                            ArithmeticMeanInterpolator(params=(20,))])
    kw = {} if interp is None else {"interpolator": interp}
    m.given(tws=tws, twa=twa, b=b, ws=ws, n=n, interp=repr(interp))
    out = t.get_slices(arg, n_steps=n, **kw)
    m.ok(len(out) == 2, "shape")
    labels, slices = out
    expect_labels(m, labels, ws, n)
    m.ok(len(slices) == len(labels), "one-slice-per-wind-speed")
    for w, s in zip(labels, slices):
        m.ok(np.shape(s) == (3, len(twa)), "shape", got=np.shape(s))
        m.equal(s[0], np.full(len(twa), w), "slice-wind-speed")
        m.equal(s[1], twa, "slice-wind-angles")
        if w in tws:
            m.equal(s[2], b[:, list(tws).index(w)], "slice-stored-column")
            m.event("stored-slice")
        else:
            m.equal(s[2], [t(w, a, **kw) for a in twa],
                    "slice-interpolated")
            m.event("interpolated-slice")
    m.equal(t.ws_to_slices(labels, **kw), slices, "two-ways-agree")
    # the interpolator is only for what is not in the table
    for w, s in zip(tws, t.get_slices(list(tws), interpolator=Never())[1]):
        m.equal(s[2], b[:, list(tws).index(w)], "stored-not-interpolated")
    three = t.get_slices(arg, n_steps=n, full_info=True, **kw)
    m.ok(len(three) == 3, "shape")
    m.equal(three[1], slices, "full-info-same-slices")


@check.case(quick=150, thorough=2000)
def table_defaults(m):
    rng = m.rng
    kind = int(rng.integers(3))
    if kind == 0:
        t = PolarDiagramTable()
    elif kind == 1:
        ws, wa, _ = gen.table_parts(rng)
        t = PolarDiagramTable(ws, wa)
    else:
        t = gen.table(rng)
    tws, twa, b = t.wind_speeds, t.wind_angles, t.boat_speeds
    m.given(tws=tws, twa=twa, b=b)
    labels, slices = t.get_slices()
    m.equal(labels, tws, "default-labels")
    for j, s in enumerate(slices):
        m.equal(s, np.row_stack([np.full(len(twa), tws[j]), twa, b[:, j]]),
                "default-slices")
    want = {(w, a): b[i, j] for i, a in enumerate(twa)
            for j, w in enumerate(tws)}
    pts = t.get_points()
    m.ok(np.shape(pts) == (b.size, 3), "points-shape")
    got = {(p[0], p[1]): p[2] for p in pts}
    m.equal(sorted(got.items()), sorted(want.items()), "default-points")
    m.event("stored-slice", len(slices))
    m.event("point", len(pts))


@check.case(quick=60, thorough=800)
def several_sails_defaults(m):
    rng = m.rng
    pds = [gen.pick(rng, [gen.table, gen.cloud, gen.curve])(rng)
           for _ in range(int(rng.integers(1, 4)))]
    m.given(pds=[repr(p)[:200] for p in pds], salt=float(rng.random()))
    labels, slices = PolarDiagramMultiSails(pds).get_slices()
    own = [np.asarray(pd.get_slices()[0], float) for pd in pds]
    m.close([np.min(labels), np.max(labels)],
            [min(w.min() for w in own), max(w.max() for w in own)],
            "defaults-cover-all-sails", rtol=1e-9)
    m.ok(len(slices) == len(labels), "one-slice-per-wind-speed")
    m.event("stored-slice", len(slices))


@check.case(quick=300, thorough=4000)
def cloud_slices(m):
    rng = m.rng
    pts = gen.cloud_points(rng, n=gen.size(rng, 1, 40, 400))
    c = PolarDiagramPointcloud(pts.copy())
    pts = c.points
    ws, arg, n = request(rng, pts[:, 0])
    if gen.chance(rng, 0.1):  # calm
        ws[int(rng.integers(len(ws)))] = 0.0
        arg = ws if len(ws) > 1 else gen.pick(rng, [0, 0.0, [0], [0.0]])
    r = float(gen.pick(rng, [1, 0.1, 0, 3.5, 50]))
    kw = {"range_": r}
    if r == 1 and gen.chance(rng, 0.5):
        kw = {}
    m.given(pts=pts, ws=ws, n=n, r=r)
    labels, slices = c.get_slices(arg, n_steps=n, **kw)
    expect_labels(m, labels, ws, n)
    m.ok(len(slices) == len(labels), "one-slice-per-wind-speed")
    for w, s in zip(labels, slices):
        if any(abs(abs(p[0] - w) - r) < 1e-9 and (
                p[0] * 64 % 1 or w * 64 % 1 or r * 64 % 1) for p in pts):
            m.event("on the edge but for rounding")
            continue
        want = np.array([p for p in pts if abs(p[0] - w) <= r]).reshape(-1, 3)
        m.ok(np.shape(s) == (3, len(want)), "shape", got=np.shape(s))
        m.equal(s, want.T, "cloud-slice-points", f"at {w}")
        m.event("stored-slice")
        m.state("points-in-slice", len(want))
    m.equal(c.ws_to_slices(labels, **kw), slices, "two-ways-agree")
    m.equal(c.get_points(), pts, "default-points")
    lab, sl = c.get_slices()
    m.close(lab, np.linspace(pts[:, 0].min(), pts[:, 0].max(), 20),
            "default-labels")
    for w, s in zip(lab, sl):
        if any(abs(abs(p[0] - w) - 1) < 1e-9 for p in pts):
            m.event("on the edge but for rounding")
            continue
        m.equal(s, np.array([p for p in pts if abs(p[0] - w) <= 1]
                            ).reshape(-1, 3).T, "default-slices")


@check.case(quick=120, thorough=1500)
def cloud_slices_interpolated(m):
    rng = m.rng
    c = gen.cloud(rng, n=int(rng.integers(2, 25)))
    k = gen.size(rng, 2, 15, 400, 0.07)
    interp = gen.pick(rng, [IDWInterpolator(), IDWInterpolator(p=1),
                            ArithmeticMeanInterpolator(params=(30,))])
    lo, hi = c.wind_speeds.min(), c.wind_speeds.max()
    ws = [float(x) for x in rng.uniform(lo, hi, 3)]
    ws[0] = float(c.points[0, 0])
    m.given(pts=c.points, ws=ws, k=k, interp=repr(interp))
    wa = np.linspace(0, 360, k)
    near = np.array([[np.any(np.hypot((c.points[:, 0] - w) / 40,
                                      (c.points[:, 1] - a % 360) / 360)
                             <= 1) for a in wa] for w in ws])
    if not near.all():
        m.event("no-data-near")
        return
    labels, slices = c.get_slices(ws, wa_resolution=k, interpolator=interp)
    m.equal(list(labels), ws, "labels")
    for w, s in zip(ws, slices):
        m.ok(np.shape(s) == (3, k), "shape", got=np.shape(s))
        m.equal(s[0], np.full(k, w), "slice-wind-speed")
        m.close(s[1], wa, "slice-wind-angles")
        m.close(s[2], [c(w, a, interp) for a in wa], "slice-interpolated")
        m.event("interpolated-slice")


@check.case(quick=300, thorough=3000)
def curve_slices(m):
    rng = m.rng
    c = gen.curve(rng)
    ws, arg, n = request(rng, [5.0, 7.0, 20.0])
    if gen.chance(rng, 0.15):  # calm
        ws[int(rng.integers(len(ws)))] = 0.0
        arg = ws if len(ws) > 1 else gen.pick(rng, [0, 0.0, [0], [0.0]])
    k = gen.size(rng, 2, 40, 800)
    kw = {"wa_resolution": k}
    if gen.chance(rng, 0.2):
        k, kw = 100, {}
    m.given(curve=repr(c), ws=ws, n=n, k=k)
    labels, slices = c.get_slices(arg, n_steps=n, **kw)
    expect_labels(m, labels, ws, n)
    m.ok(len(slices) == len(labels), "one-slice-per-wind-speed")
    wa = np.linspace(0, 360, k)
    for w, s in zip(labels, slices):
        m.ok(np.shape(s) == (3, k), "shape", got=np.shape(s))
        m.equal(s[0], np.full(k, w), "slice-wind-speed")
        m.close(s[1], wa, "slice-wind-angles")
        m.close(s[2][1:-1], [gen.at(c, w, a) for a in wa[1:-1]],
                "slice-evaluated", rtol=1e-9)
        for i in (0, -1):  # a full turn is one of its two ends
            m.ok(any(abs(s[2][i] - v) <= 1e-9 * (1 + abs(v)) for v in (
                c.curve(w, 0.0, *c.parameters),
                c.curve(w, 2 * np.pi if c.radians else 360.0,
                        *c.parameters))), "slice-evaluated", "at 0 = 360")
        m.event("evaluated-slice")
    lab, sl = c.get_slices()
    m.close(lab, np.linspace(5, 20, 16), "default-labels")
    m.ok(len(sl) == 16, "default-slices")


@check.case(quick=6, thorough=60)
def curve_default_points(m):
    c = gen.curve(m.rng)
    m.given(curve=repr(c))
    pts = c.get_points()
    m.ok(pts.ndim == 2 and pts.shape[1] == 3 and len(pts) > 1000, "shape")
    for i in m.rng.integers(0, len(pts), 60):
        m.close(pts[i, 2], gen.at(c, pts[i, 0], pts[i, 1]),
                "points-evaluated",
                rtol=1e-9)
    m.ok(pts[:, 0].min() >= 5 and pts[:, 0].max() <= 20 and
         len(set(pts[:, 0])) > 20 and len(set(pts[:, 1])) > 20,
         "default-points")


@check.case(quick=300, thorough=4000)
def points_at_winds(m):
    rng = m.rng
    k = int(rng.integers(4))
    if k == 0:
        pd = gen.table(rng, nmax=5, amax=6)
        st = (pd.wind_speeds, pd.wind_angles)
    elif k == 1:
        pd = gen.cloud(rng, n=int(rng.integers(2, 20)))
        st = (pd.points[:, 0], pd.points[:, 1])
    elif k == 2:
        pd = gen.curve(rng)
        st = (np.arange(1, 20.0), np.arange(0, 360.0))
    else:
        pd = PolarDiagramMultiSails([gen.curve(rng), gen.curve(rng)])
        st = (np.arange(1, 20.0), np.arange(0, 360.0))
    d = gen.size(rng, 1, 7, 120)
    ws = rng.uniform(max(0.5, st[0].min()), st[0].max() + 0.6, d)
    wa = rng.uniform(st[1].min(), st[1].max() + 0.6, d)
    for i in range(d):
        if gen.chance(rng, 0.4):
            ws[i] = gen.pick(rng, st[0]) or 1.0
        if gen.chance(rng, 0.4):
            wa[i] = gen.pick(rng, st[1])
    kind = int(rng.integers(3))
    if kind == 2:
        e = int(rng.integers(1, 5))
        wa = rng.uniform(st[1].min(), st[1].max(), e)
        arg = gen.pick(rng, [(ws, wa), (list(ws), list(wa))])
        want = [(w, a) for w in ws for a in wa]
    else:
        arg = np.column_stack([ws, wa])
        if kind == 1 and d != 2:
            arg = arg.T
        want = list(zip(ws, wa))
    m.given(pd=repr(pd)[:300], ws=ws, wa=wa, kind=kind)
    try:
        vals = [pd(w, a) for w, a in want]
    except ZeroDivisionError:
        m.event("no-data-near")
        return
    got = pd.get_points(arg)
    m.ok(np.shape(got) == (len(want), 3), "points-shape", got=np.shape(got))
    if kind == 2:
        m.ok(sorted((p[0], p[1]) for p in got) == sorted(want),
             "points-winds")
    else:
        m.equal(got[:, :2], np.array(want), "points-winds")
        m.close(got[:, 2], vals, "points-speeds")
    for p in got:
        m.close(p[2], pd(p[0], p[1]), "points-speeds")
        m.event("point")


@check.case(quick=150, thorough=1000)
def rejections(m):
    rng = m.rng
    pd = gen.pick(rng, [gen.table, gen.cloud, gen.curve])(rng)
    bad = (ValueError, TypeError, IndexError)
    what = gen.pick(rng, ["str", "none-list", "steps", "wind-str", "wind-3",
                          "wind-tuple3", "obj"])
    m.given(pd=repr(pd)[:100], what=what, salt=float(rng.random()))
    fn = {
        "str": lambda: pd.get_slices(["a", "b"]),
        "none-list": lambda: pd.get_slices([1.0, None]),
        "obj": lambda: pd.get_slices(object()),
        "steps": lambda: pd.get_slices([1.0, 2.0],
                                       n_steps=-int(rng.integers(0, 4))),
        "wind-str": lambda: pd.get_points("wind"),
        "wind-3": lambda: pd.get_points(rng.uniform(1, 9, (3, 3))),
        "wind-tuple3": lambda: pd.get_points(([1.0], [2.0], [3.0])),
    }[what]
    m.raises(bad, fn, "rejects-" + what)
    m.event("rejected")


gen.large_case(check, cloud_slices, 3000)
