"""C04: symmetrizing a diagram mirrors it exactly."""
import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrv import Check, gen

check = Check(
    "C04",
    "One-sided tables and clouds (either side, with and without 0 and 180 "
    "degrees), curves in degrees and radians (library and own functions) and "
    "multi-sail diagrams of them are symmetrized; the result is compared with "
    "the mirrored data and evaluated at mirrored winds.",
    ["tables and clouds lie on one side of the 0-180 axis (two-sided ones are "
     "documented as ambiguous)"],
)


def one_sided(rng, n):
    """distinct angles on one side, possibly with 0 and 180"""
    x = gen.distinct(rng, 1, 180, n)
    if gen.chance(rng, 0.4):
        x[0] = 180.0
    if gen.chance(rng, 0.4):
        x[-1] = 0.0
    if gen.chance(rng, 0.15):  # nearly on the axis
        x[n // 2] = gen.pick(rng, [0.02, 1e-3, 1e-6, 179.98, 179.999,
                                   179.999999])
    x = np.array(list(dict.fromkeys(x.tolist())))
    if gen.chance(rng, 0.3):
        x = (360 - x) % 360
    return x[rng.permutation(len(x))]


def check_table(m, ws, wa, b, sym, mech="table"):
    n0, n180 = int(0.0 in wa), int(180.0 in wa)
    m.equal(sym.wind_speeds, np.sort(ws), mech + "-wind-speeds")
    m.ok(len(sym.wind_angles) == 2 * len(wa) - n0 - n180,
         mech + "-rows", "number of rows", got=sym.wind_angles, wa=wa)
    m.ok(sym.boat_speeds.shape == (len(sym.wind_angles), len(ws)),
         mech + "-rows")
    m.ok(len(set(sym.wind_angles.tolist())) == len(sym.wind_angles),
         mech + "-rows", "duplicate rows")
    oj = np.argsort(ws)
    for i, a in enumerate(wa):
        for side in (a, (360 - a) % 360):
            r = int(np.argmin(np.abs(sym.wind_angles - side)))
            m.ok(abs(sym.wind_angles[r] - side) < 1e-9, mech + "-angles",
                 f"no row at {side}")
            m.equal(sym.boat_speeds[r], b[i][oj], mech + "-values",
                    f"row {side}")
    m.event("row-mirrored", len(wa))


@check.case(quick=800, thorough=10000)
def tables(m):
    rng = m.rng
    wa = one_sided(rng, gen.size(rng, 1, 12, 150))
    ws = gen.wind_speeds(rng, gen.size(rng, 1, 9, 36))
    b = (rng.permutation(len(wa) * len(ws)) / 8.0).reshape(len(wa), len(ws))
    m.given(ws=ws, wa=wa, b=b)
    t = PolarDiagramTable(ws, wa, b)
    was = (t.wind_speeds, t.wind_angles, t.boat_speeds)
    sym = t.symmetrize()
    m.ok(type(sym) is PolarDiagramTable, "table-kind")
    check_table(m, ws, wa, b, sym)
    now = (t.wind_speeds, t.wind_angles, t.boat_speeds)
    m.equal(now, was, "original-kept")
    # the copies are independent
    sym.change_entries(99.0, ws=float(sym.wind_speeds[0]),
                       wa=float(sym.wind_angles[0]))
    m.equal((t.wind_speeds, t.wind_angles, t.boat_speeds), was,
            "original-kept", "after editing the symmetrized table")
    # symmetric evaluation at stored winds
    for a in wa[:15]:
        for w in ws[:9]:
            if (w, a) == (sym.wind_speeds[0], sym.wind_angles[0]):
                continue
            m.equal(t(float(w), float(a)), sym(float(w), float(a)),
                    "table-evaluation") if not (
                w == sym.wind_speeds[0] and min(
                    abs(a - sym.wind_angles[0]),
                    abs(360 - a - sym.wind_angles[0])) < 1e-9) else None


def check_cloud(m, pts, sym, mech="cloud"):
    got = sym.points
    m.ok(got.shape == (2 * len(pts), 3), mech + "-size", got=got.shape)
    if not len(pts):
        return
    mirror = pts.copy()
    mirror[:, 1] = (360 - mirror[:, 1]) % 360
    want = np.row_stack([pts, mirror])
    # as multisets
    key = lambda a: a[np.lexsort(np.round(a, 6).T[::-1])]  # noqa: E731
    m.close(key(got), key(want), mech + "-points", atol=1e-9)
    m.event("point-mirrored", len(pts))


@check.case(quick=500, thorough=6000)
def clouds(m):
    rng = m.rng
    n = gen.size(rng, 0, 30, 250)
    pts = gen.cloud_points(rng, n=n)
    wa = one_sided(rng, 12)
    pts[:, 1] = rng.choice(wa, n) if n else []
    m.given(points=pts)
    c = PolarDiagramPointcloud(pts.copy())
    was = c.points
    sym = c.symmetrize()
    check_cloud(m, pts, sym)
    m.equal(c.points, was, "original-kept")
    # mirrored points evaluate like the originals (winds named once)
    seen = {}
    for w, a, _ in pts:
        seen[(w, a)] = seen.get((w, a), 0) + 1
    for w, a, s in pts:
        if seen[(w, a)] == 1 and w > 0:
            m.equal(sym(float(w), float(a)), s, "cloud-evaluation")
            mir = float((360 - a) % 360)
            if (360 - mir) % 360 == a:
                m.equal(sym(float(w), mir), s, "cloud-evaluation")
            m.event("evaluated", 2)


def own(ws, wa, a, b):
    return ws * (a + np.sin(b * wa))


def own2(ws, wa, *p):
    return p[0] * ws + p[1] * wa + p[2] * wa * wa


def any_curve(rng):
    k = int(rng.integers(3))
    rad = gen.chance(rng, 0.5)
    if k == 0:
        return PolarDiagramCurve(own, *rng.uniform(0.01, 1, 2), radians=rad)
    if k == 1:
        return PolarDiagramCurve(own2, *rng.uniform(-1, 1, 3), radians=rad)
    return gen.curve(rng, radians=rad)


def check_curve(m, c, sym, mech="curve"):
    rng = m.rng
    m.ok(sym.radians == c.radians, mech + "-unit")
    full = 2 * np.pi if c.radians else 360.0
    ws = rng.uniform(0, 30, 6)
    wa = rng.uniform(0.02, 0.98, 6) * full
    for w, a in zip(ws, wa):
        want = 0.5 * (c(w, a) + c(w, full - a))
        m.close(sym(w, a), want, mech + "-average", rtol=1e-6, atol=1e-7)
        m.close(sym(w, full - a), sym(w, a), mech + "-symmetric",
                rtol=1e-6, atol=1e-7)
    m.close(sym(ws, wa), [sym(w, a) for w, a in zip(ws, wa)],
            mech + "-array", rtol=1e-9)
    m.event("curve-evaluated", 24)


@check.case(quick=500, thorough=6000)
def curves(m):
    c = any_curve(m.rng)
    m.given(f=c.curve.__name__, params=c.parameters, radians=c.radians)
    was = (c.curve, c.parameters, c.radians)
    at = [(float(m.rng.uniform(0, 30)), float(m.rng.uniform(0, 6)))
          for _ in range(4)]
    vals = [c(*x) for x in at]
    sym = c.symmetrize()
    m.ok(type(sym) is PolarDiagramCurve, "curve-kind")
    check_curve(m, c, sym)
    twice = sym.symmetrize()
    for w, a in at:
        m.close(twice(w, a), sym(w, a), "curve-twice", rtol=1e-6, atol=1e-7)
    m.equal((c.curve, c.parameters, c.radians), was, "original-kept")
    m.equal([c(*x) for x in at], vals, "original-kept")


@check.case(quick=250, thorough=3000)
def multi(m):
    rng = m.rng
    pds, parts = [], []
    for _ in range(gen.size(rng, 1, 5, 14)):
        k = int(rng.integers(3))
        if k == 0:
            wa = one_sided(rng, 5)
            ws = gen.wind_speeds(rng, 3)
            b = gen.bsps(rng, len(wa), 3)
            pds.append(PolarDiagramTable(ws, wa, b))
            parts.append((ws, wa, b))
        elif k == 1:
            pts = gen.cloud_points(rng, n=6, wa_hi=181)
            pds.append(PolarDiagramPointcloud(pts.copy()))
            parts.append(pds[-1].points)
        else:
            pds.append(any_curve(rng))
            parts.append(None)
    names = gen.sail_names(rng, len(pds))
    m.given(names=names, parts=parts)
    multi_ = PolarDiagramMultiSails(pds, names)
    sym = multi_.symmetrize()
    m.ok(type(sym) is PolarDiagramMultiSails, "multi-kind")
    m.equal(sym.sails, names, "multi-names")
    m.ok(len(sym.diagrams) == len(pds), "multi-sails")
    for name, pd, part in zip(names, pds, parts):
        s = sym[name]
        m.ok(type(s) is type(pd), "multi-kind")
        if isinstance(pd, PolarDiagramTable):
            check_table(m, *part, s, mech="multi-table")
        elif isinstance(pd, PolarDiagramPointcloud):
            check_cloud(m, part, s, mech="multi-cloud")
        else:
            check_curve(m, pd, s, mech="multi-curve")
    m.ok(all(a is b for a, b in zip(multi_.diagrams, pds)), "original-kept")
    m.equal(multi_.sails, names, "original-kept")


gen.large_case(check, tables, 150)
gen.large_case(check, clouds, 4000)
