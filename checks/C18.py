"""C18: true and apparent wind conversions are exact inverses."""
import numpy as np

from hrosailing.core.computing import (convert_apparent_wind_to_true,
                                       convert_true_wind_to_apparent)
from hrosailing.polardiagram import PolarDiagramPointcloud
from hrv import Check, gen

check = Check(
    "C18",
    "Winds of all strengths and angles (dead ahead, astern, both sides, "
    "beyond the full circle, calm, boat speeds of zero, equal to and above "
    "the wind speed) are converted both ways; results are compared as vectors "
    "with an independent vector sum, record by record and in bulk.",
    ["angles are compared through the wind vector: without converted wind "
     "the angle is arbitrary"],
)

SPECIAL = [0.0, 180.0, 360.0, 90.0, 270.0, 179.999999, 180.000001, 1e-9,
           359.999999999, 45.0, 315.0]


def winds(rng, n):
    ws = gen.floats(rng, 0, 40, n)
    ws[rng.random(n) < 0.1] = 0.0
    wa = gen.floats(rng, 0, 360, n)
    s = rng.random(n) < 0.3
    wa[s] = rng.choice(SPECIAL, int(s.sum()))
    bsp = gen.floats(rng, 0, 30, n)
    bsp[rng.random(n) < 0.1] = 0.0
    same = rng.random(n) < 0.15
    bsp[same] = ws[same]  # the converted wind may vanish
    if gen.chance(rng, 0.15):  # the same speed everywhere
        which = gen.pick(rng, [[ws], [bsp], [ws, bsp]])
        for col in which:
            col[:] = gen.pick(rng, [0.0, 0.0, 7.0])
    if gen.chance(rng, 0.1):  # breezes and gales far beyond
        f = 10.0 ** rng.uniform(-6, 4)
        ws, bsp = ws * f, bsp * f
    k = int(rng.integers(4))
    if k == 0:
        wa = wa + 360.0 * rng.integers(-2, 3, n)
    return np.column_stack([ws, wa, bsp])


def vector(w):
    a = np.deg2rad(np.asarray(w)[:, 1])
    return np.column_stack([w[:, 0] * np.cos(a), w[:, 0] * np.sin(a)])


def expected(w, sign):
    v = vector(w)
    v[:, 0] += sign * w[:, 2]
    return v


def judge(m, got, w, sign, tag):
    m.ok(isinstance(got, np.ndarray) and got.shape == w.shape, "shape", tag)
    m.ok(bool(np.all(np.isfinite(got))), "finite", tag, got=got, given=w)
    m.equal(got[:, 2], w[:, 2], "boat-speed-unchanged", tag)
    m.ok(bool(np.all(got[:, 0] >= 0)), "non-negative", tag, got=got)
    m.ok(bool(np.all((got[:, 1] >= 0) & (got[:, 1] <= 360))), "angle-range",
         tag, got=got, given=w)
    scale = np.maximum(1e-12, np.max(w[:, [0, 2]], axis=1))[:, None]
    m.close(vector(got) / scale, expected(w, sign) / scale, "vector-sum", tag,
            rtol=0, atol=2e-7, given=w)
    v = expected(w, sign)
    m.close(got[:, 0] / scale[:, 0], np.hypot(v[:, 0], v[:, 1]) / scale[:, 0],
            "converted-speed", tag, rtol=0, atol=2e-7, given=w)
    side = np.asarray(w[:, 1]) % 360
    # without any cross wind there is no side
    across = np.abs(v[:, 1]) > 1e-9 * scale[:, 0]
    port, starboard = across & (side > 180), across & (side <= 180)
    m.ok(bool(np.all(got[port, 1] >= 180)
              and np.all(got[starboard, 1] <= 180)),
         "same-side", tag, got=got, given=w)
    m.event("converted wind", len(w))


@check.case(quick=500, thorough=10000)
def conversions(m):
    rng = m.rng
    w = winds(rng, gen.scaled(rng, gen.pick(
        rng, [1, 1, 2, 3, 3, 5, 20, 200])))
    form = gen.pick(rng, ["array", "fortran", "list", "int", "view", "f32"])
    if form == "int":
        w = np.round(w).astype(int)
    given = {"array": w, "int": w, "list": w.tolist(),
             "fortran": np.asfortranarray(w),
             "view": np.hstack([w, w])[:, :3],
             "f32": w}[form]
    m.given(w=w, form=form)
    wf = np.array(w, float)
    for fn, back, sign, tag in [
        (convert_true_wind_to_apparent, convert_apparent_wind_to_true, 1,
         "to apparent"),
        (convert_apparent_wind_to_true, convert_true_wind_to_apparent, -1,
         "to true"),
    ]:
        with m.unmutated("caller-winds", given=given):
            got = fn(given)
        judge(m, got, wf, sign, tag)
        kept = got.copy()
        again = back(got)
        m.equal(got, kept, "caller-winds", tag)
        scale = np.maximum(1e-12, np.max(wf[:, [0, 2]], axis=1))[:, None]
        m.close(vector(again) / scale, vector(wf) / scale, "inverse", tag,
                rtol=0, atol=1e-6, given=wf)
        # records are independent of each other and of their order
        i = int(rng.integers(len(wf)))
        m.close(fn(wf[i:i + 1]), got[i:i + 1], "independent", tag,
                rtol=1e-12, atol=1e-12)
        p = rng.permutation(len(wf))
        m.close(fn(wf[p]), got[p], "independent", tag, rtol=1e-12, atol=1e-12)
        # mirrored wind gives the mirrored result
        mirrored = wf.copy()
        mirrored[:, 1] = -mirrored[:, 1]
        v, vm = vector(got), vector(fn(mirrored))
        m.close(vm / scale, v * [1, -1] / scale, "mirror", tag, rtol=0,
                atol=1e-6)


@check.case(quick=200, thorough=2000)
def clouds(m):
    """point clouds given apparent winds"""
    rng = m.rng
    true = winds(rng, int(rng.integers(1, 12)))
    true[:, 0] += 0.5
    more = winds(rng, int(rng.integers(1, 6)))
    more[:, 0] += 0.5
    app, app2 = (convert_true_wind_to_apparent(x) for x in (true, more))
    m.given(true=true, more=more)
    with m.unmutated("caller-winds", app=app, app2=app2):
        pc = PolarDiagramPointcloud(app, apparent_wind=True)
        m.equal(len(pc.points), len(true), "cloud-size")
        first = np.array(pc.points)
        pc.add_points(app2, apparent_wind=True)
    got = np.array(pc.points)
    want = np.vstack([true, more])
    m.equal(got[:len(true)], first, "cloud-kept")
    m.close(got[:, 2], want[:, 2], "cloud-boat-speed")
    scale = np.maximum(1e-12, np.max(want[:, [0, 2]], axis=1))[:, None]
    m.close(vector(got) / scale, vector(want) / scale, "cloud-true-wind",
            rtol=0, atol=1e-6)
    m.close(got, np.vstack([convert_apparent_wind_to_true(app),
                            convert_apparent_wind_to_true(app2)]),
            "cloud-converts", rtol=1e-12, atol=1e-12)
    m.event("cloud point", len(got))


@check.case(quick=60, thorough=300)
def malformed(m):
    rng = m.rng
    w = winds(rng, int(rng.integers(1, 6)))
    i = int(rng.integers(len(w)))
    bad = []
    for val in (np.nan, np.inf, -np.inf):
        for j in range(3):
            x = w.copy()
            x[i, j] = val
            bad.append(("not finite", x))
    x = w.copy()
    x[i, 0] = -float(rng.uniform(1e-6, 20))
    bad += [("negative", x), ("columns", w[:, :2]), ("flat", w[0]),
            ("deep", w[None]), ("wide", np.hstack([w, w])),
            ("text", [["a", "b", "c"]]), ("object", [[None, 1, 2]]),
            ("number", 3.0)]
    m.given(w=w)
    for tag, x in bad:
        for fn in (convert_true_wind_to_apparent,
                   convert_apparent_wind_to_true):
            m.raises((TypeError, ValueError), lambda: fn(x), "rejects", tag)
        if tag in ("not finite", "negative", "columns"):
            m.raises((TypeError, ValueError), lambda: PolarDiagramPointcloud(
                x, apparent_wind=True), "cloud-rejects", tag)
        m.event("malformed " + tag)


gen.large_case(check, conversions, 20000)
