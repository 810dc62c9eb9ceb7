"""C21: globe models measure true distances, straight shortest paths."""
import math

import numpy as np

from hrosailing.models import FlatMercatorProjection, SphericalGlobe
from hrv import Check, gen

check = Check(
    "C21",
    "Pairs and triples of positions (equal, centimetres to half a globe "
    "apart, on one meridian or parallel, across the antimeridian, at and near "
    "poles and equator) are projected, measured and joined by paths of two to "
    "many points on both globes with several radii; results are compared with "
    "the haversine and Mercator formulas and metric laws.",
    ["nearly antipodal positions have no single shortest path; the flat map "
     "is only asked away from its poles and the antimeridian"],
)


def position(rng, flat=False):
    k = int(rng.integers(8))
    lat = float(rng.uniform(-85, 85))
    lon = float(rng.uniform(-179, 179))
    if k == 0:
        lat = 0.0
    if k == 1:
        lon = 0.0
    if k == 2:
        lat, lon = float(round(lat)), float(round(lon))
    if not flat:
        if k == 3:
            lon = float(gen.pick(rng, [180.0, -180.0, 179.9999, -179.9999]))
        if k == 4:
            lat = float(gen.pick(rng, [90.0, -90.0, 89.99999, -89.99999]))
    elif k == 3:
        lat = (90 - 10.0 ** -float(rng.uniform(-1, 3.2))) * gen.pick(
            rng, [-1, 1])
        if k == 5:
            lon += 360 * int(rng.integers(-1, 2))
    return [lat, lon]


def near(rng, p, flat=False):
    """a position related to p"""
    k = int(rng.integers(7))
    if k == 0:
        return list(p)
    if k in (1, 2):
        e = 10.0 ** float(rng.integers(-9, 1))
        q = [p[0] + e * rng.standard_normal(), p[1] + e * rng.standard_normal()]
        top = 89.999 if flat else 90.0
        return [min(max(q[0], -top), top), float(q[1])]
    if k == 3:
        return [float(rng.uniform(-85, 85)), p[1]]
    if k == 4:
        return [p[0], float(rng.uniform(-179, 179))]
    return position(rng, flat)


def unit(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(la) * math.cos(lo),
                     math.cos(la) * math.sin(lo), math.sin(la)])


def haversine(p, q):
    """central angle, precise for close positions"""
    a, b = math.radians(p[0]), math.radians(q[0])
    dl = math.radians(q[1] - p[1])
    h = math.sin((b - a) / 2) ** 2 + \
        math.cos(a) * math.cos(b) * math.sin(dl / 2) ** 2
    return 2 * math.atan2(math.sqrt(h), math.sqrt(max(0.0, 1 - h)))


def mercator(p, r):
    return np.array([r * math.radians(p[1]),
                     r * math.asinh(math.tan(math.radians(p[0])))])


def chord(p, q):
    """angle between two nearby positions as computed from vectors"""
    return float(np.linalg.norm(unit(p) - unit(q)))


def form(rng, p):
    return gen.pick(rng, [list(p), tuple(p), np.array(p, float)])


def judge_path(m, model, p, q, dist, dist_fn, scale, res):
    a, b = form(m.rng, p), form(m.rng, q)
    with m.unmutated("caller-positions", a=a, b=b):
        path = model.shortest_path(a, b, res)
    path = np.asarray(path, float)
    m.equal(path.shape, (res, 2), "path-shape")
    m.ok(bool(np.all(np.isfinite(path))), "path-finite", path=path)
    tol = 1e-9 * scale
    m.ok(chord(path[0], p) <= 1e-9, "path-start", f"{path[0]} for {p}")
    one = np.asarray(model.shortest_path(a, b, 1), float)
    m.equal(one.shape, (1, 2), "path-shape", "a single point")
    m.ok(chord(one[0], p) <= 1e-9, "path-start", f"{one[0]} for {p}")
    m.ok(chord(path[-1], q) <= 1e-9, "path-end", f"{path[-1]} for {q}")
    steps = [float(dist_fn(path[i], path[i + 1])) for i in range(res - 1)]
    m.close(steps, [dist / (res - 1)] * (res - 1), "equally-spaced",
            rtol=1e-6, atol=tol + 1e-6 * dist / (res - 1))
    m.close(sum(steps), dist, "path-length", rtol=1e-7, atol=res * tol)
    m.event("path point", res)


@check.case(quick=500, thorough=8000)
def sphere(m):
    rng = m.rng
    r = float(gen.pick(rng, [21600 / 2 / np.pi, 1.0, 6371.0, 3440]))
    model = SphericalGlobe() if r == 21600 / 2 / np.pi and \
        gen.chance(rng, 0.5) else SphericalGlobe(earth_radius=r)
    p = position(rng)
    q = near(rng, p)
    s = near(rng, q)
    m.given(p=p, q=q, s=s, r=r)
    pts = np.array([p, q, s])
    with m.unmutated("caller-positions", pts=pts):
        proj = model.project(pts)
    m.equal(np.asarray(proj).shape, (3, 3), "projection-shape")
    m.close(proj, r * np.array([unit(x) for x in pts]), "projection",
            rtol=1e-12, atol=1e-12 * r)
    back = model.lat_lon(proj)
    for x, y in zip(pts, back):
        m.ok(chord(x, y) <= 1e-12, "round-trip", f"{x} became {y}")
        if abs(x[0]) < 89:
            m.close_angle(y[1], x[1], "round-trip", atol=1e-9)
            m.close(y[0], x[0], "round-trip", atol=1e-9)
        m.ok(-90 <= y[0] <= 90 and -180 <= y[1] <= 180, "lat-lon-range")
    d = {}
    for i, a in enumerate("pqs"):
        for j, b in enumerate("pqs"):
            d[a + b] = float(model.distance(form(rng, pts[i]),
                                            form(rng, pts[j])))
            ang = haversine(pts[i], pts[j])
            # sqrt of rounding errors near the antipode
            m.close(d[a + b], r * ang, "distance", rtol=1e-9,
                    atol=r * (1e-15 if ang < 3.1 else 1e-7), a=pts[i],
                    b=pts[j])
            if list(pts[i]) == list(pts[j]):
                m.equal(d[a + b], 0.0, "distance-zero", f"{pts[i]}")
            elif ang > 1e-12:
                m.ok(d[a + b] > 0, "distance-positive")
            m.event("distance")
    m.close([d["pq"], d["ps"], d["qs"]], [d["qp"], d["sp"], d["sq"]],
            "symmetric", rtol=1e-12, atol=1e-15 * r)
    m.ok(d["ps"] <= (d["pq"] + d["qs"]) * (1 + 1e-9) + 1e-14 * r, "triangle",
         d=d)
    # positions moved in place, nearly equal positions
    a, b = np.array(p), np.array(q)
    for _ in range(3):
        b[0] = max(-90.0, min(90.0, b[0] + gen.pick(rng, [1e-6, 1e-3, 5.])))
        m.close(float(model.distance(a, b)), r * haversine(a, b), "distance",
                "of a moved position", rtol=1e-9, atol=r * (
                    1e-15 if haversine(a, b) < 3.1 else 1e-7))
    if haversine(p, q) < np.pi - 1e-2:
        res = int(gen.pick(rng, [2, 3, 5, 20, 60] * 8 + [997, 2503, 5000]))
        judge_path(m, model, p, q, d["pq"], model.distance, r, res)
        path3 = np.asarray(model.shortest_projected_path(
            r * unit(p), r * unit(q), res))
        m.equal(path3.shape, (res, 3), "path-shape")
        m.close(np.linalg.norm(path3, axis=1), [r] * res, "on-globe",
                rtol=1e-9)
        m.close(path3[[0, -1]], r * np.array([unit(p), unit(q)]),
                "path-ends", rtol=0, atol=1e-9 * r)
        # straight: all points in the plane of the great circle
        n = np.cross(unit(p), unit(q))
        if np.linalg.norm(n) > 1e-6:
            m.close(path3 @ (n / np.linalg.norm(n)) / r, [0.0] * res,
                    "straight", atol=1e-8)
    m.state("angle", round(math.log10(haversine(p, q) + 1e-17)))


@check.case(quick=400, thorough=6000)
def flat(m):
    rng = m.rng
    r = float(gen.pick(rng, [3440, 1.0, 6371.0]))
    default = gen.chance(rng, 0.6)
    if default:
        model = FlatMercatorProjection() if r == 3440 else \
            FlatMercatorProjection(earth_radius=r)
    else:
        pole = [float(rng.uniform(-85, 85)), float(rng.uniform(-179, 179))]
        zero = [pole[0] - 90, pole[1]]  # at right angles to the pole
        if gen.chance(rng, 0.25):  # roughly
            zero = [zero[0] + float(rng.uniform(-30, 30)),
                    zero[1] + float(rng.uniform(-30, 30))]
        model = FlatMercatorProjection(pole, zero, r)
    p = position(rng, True)
    q = near(rng, p, True)
    s = near(rng, q, True)
    m.given(p=p, q=q, s=s, r=r, default=default)
    pts = np.array([p, q, s])
    with m.unmutated("caller-positions", pts=pts):
        proj = np.asarray(model.project(pts), float)
    m.equal(proj.shape, (3, 2), "projection-shape")
    scale = r * 10
    if default:
        m.close(proj, [mercator(x, r) for x in pts], "projection",
                rtol=1e-8, atol=1e-9 * r)
    if np.max(np.abs(proj[:, 1])) > 5 * r or \
            np.max(np.abs(proj[:, 0])) > 3.14 * r:
        m.ok(bool(np.all(np.isfinite(proj))), "finite")
        if default:  # even where the map is stretched a lot
            for x, y in zip(pts, model.lat_lon(proj)):
                m.ok(chord(x, y) <= 1e-7, "round-trip", f"{x} became {y}")
        return  # too close to a pole or the rim of the map
    kept = proj.copy()
    back = model.lat_lon(proj)
    m.equal(proj, kept, "caller-positions")
    for x, y in zip(pts, back):
        m.ok(chord(x, y) <= 1e-9, "round-trip", f"{x} became {y}")
    d = {}
    for i, a in enumerate("pqs"):
        for j, b in enumerate("pqs"):
            d[a + b] = float(model.distance(form(rng, pts[i]),
                                            form(rng, pts[j])))
            want = float(np.hypot(*(proj[i] - proj[j])))
            m.close(d[a + b], want, "distance", rtol=1e-9, atol=1e-12 * scale)
            if list(pts[i]) == list(pts[j]):
                m.equal(d[a + b], 0.0, "distance-zero")
            m.event("distance")
    m.close([d["pq"], d["ps"], d["qs"]], [d["qp"], d["sp"], d["sq"]],
            "symmetric", rtol=1e-12, atol=0)
    m.ok(d["ps"] <= (d["pq"] + d["qs"]) * (1 + 1e-12) + 1e-12 * r, "triangle")
    res = int(gen.pick(rng, [2, 3, 5, 20, 60] * 8 + [997, 2503, 5000]))
    judge_path(m, model, p, q, d["pq"], model.distance, scale, res)
    flat_path = np.asarray(model.shortest_projected_path(
        proj[0], proj[1], res))
    f = np.linspace(0, 1, res)[:, None]
    m.close(flat_path, proj[0] + f * (proj[1] - proj[0]), "straight",
            rtol=1e-12, atol=1e-9 * r)


@check.case(quick=10, thorough=60)
def default_resolution(m):
    """without a number of points a path has a thousand"""
    rng = m.rng
    p, q = position(rng, True), position(rng, True)
    m.given(p=p, q=q)
    if haversine(p, q) > np.pi - 1e-2:
        return
    for model in (SphericalGlobe(), FlatMercatorProjection()):
        path = np.asarray(model.shortest_path(p, q))
        m.equal(path.shape, (1000, 2), "path-shape")
        m.ok(chord(path[0], p) < 1e-9 and chord(path[-1], q) < 1e-9,
             "path-ends")
    m.event("default path", 2)
