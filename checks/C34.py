"""C34: point clouds hold their points."""
import numpy as np

from hrosailing.core.computing import convert_apparent_wind_to_true
from hrosailing.polardiagram import PolarDiagramPointcloud
from hrv import Check, gen

check = Check(
    "C34",
    "Histories of building a cloud, adding points in every form (lists, "
    "tuples, arrays of several types, views, apparent winds) and of rejected "
    "additions run next to a plain list of points; all views of the cloud "
    "are compared with it after every step, and views handed out before with "
    "what they were.",
    ["converted apparent winds are compared with the library's conversion, "
     "which C18 judges"],
)


def a_batch(rng, n=None):
    n = gen.size(rng, 1, 12, 400) if n is None else n
    pts = gen.cloud_points(rng, n)
    k = int(rng.integers(6))
    if k == 0:
        pts[:, 1] += 360.0 * rng.integers(-3, 4, n)
    elif k == 1:
        pts = np.round(pts) + [1, 0, 0]
    elif k == 2:
        pts[:, 1] = rng.choice([0.0, 360.0, 180.0, 720.0, -90.0], n)
    elif k == 3:
        pts = pts[rng.integers(0, n, n)]  # repeated points
    elif k == 4:
        pts *= gen.pick(rng, [1e-6, 1.0, 1e4])
        pts[:, 1] %= 360
    return pts


def dress(rng, pts):
    """(the points in some form, exact values)"""
    whole = len(pts) and np.all(pts == np.round(pts))
    k = int(rng.integers(7 if whole else 5))
    if k == 0:
        return pts.tolist()
    if k == 1:
        return tuple(tuple(p) for p in pts.tolist())
    if k == 2:
        return np.hstack([pts, pts])[:, :3]
    if k == 3:
        return np.asfortranarray(pts)
    if k == 4:
        return pts.copy()
    if k == 5:
        return pts.astype(int)
    return [[int(x) for x in p] for p in pts]


def norm(pts):
    pts = np.array(pts, float).reshape(-1, 3)
    pts[:, 1] %= 360
    return pts


def judge(m, cloud, want, mech):
    m.equal(np.asarray(cloud.points, float), want, f"{mech}-points")
    m.equal(cloud.boat_speeds, want[:, 2], f"{mech}-boat-speeds")
    m.equal(cloud.wind_speeds, np.array(sorted(set(want[:, 0].tolist()))),
            f"{mech}-wind-speeds")
    m.equal(cloud.wind_angles, np.array(sorted(set(want[:, 1].tolist()))),
            f"{mech}-wind-angles")
    m.event("point", len(want))


@check.case(quick=300, thorough=5000)
def histories(m):
    rng = m.rng
    start = a_batch(rng) if gen.chance(rng, 0.9) else np.empty((0, 3))
    apparent = gen.chance(rng, 0.2) and len(start) > 0
    if not apparent and gen.chance(rng, 0.3) and len(start):
        some = rng.random(len(start)) < 0.3
        start[some, 0] *= -1  # are ignored
        if gen.chance(rng, 0.3):
            start[int(rng.integers(len(start))), 0] = 0.0
    if apparent and gen.chance(rng, 0.4):  # as fast as the wind
        i = int(rng.integers(len(start)))
        v = float(rng.integers(1, 30))
        start[i] = [v, 0.0, v]
    m.given(start=start, apparent=apparent)
    # (integers are fine too, the cloud then holds integers until more is
    # added; they are compared as numbers)
    given = start.copy() if len(start) == 0 else dress(rng, start)
    with m.unmutated("given-points", given=given):
        cloud = PolarDiagramPointcloud(given, apparent_wind=apparent)
    want = convert_apparent_wind_to_true(start) if apparent else norm(
        start[start[:, 0] >= 0])
    judge(m, cloud, want, "new")
    handed = [(cloud.points, np.array(want))]
    for _ in range(int(rng.integers(1, 7))):
        k = int(rng.integers(5))
        if k == 4:
            pts = a_batch(rng)
            bad = gen.pick(rng, ["zero", "negative", "nan", "inf", "wide",
                                 "narrow", "apparent-negative", "text"])
            i, j = int(rng.integers(len(pts))), int(rng.integers(3))
            if bad == "zero":
                pts[i, 0] = 0.0
            elif bad == "negative" or bad == "apparent-negative":
                pts[i, 0] = -pts[i, 0]
            elif bad == "nan":
                pts[i, j] = np.nan
            elif bad == "inf":
                pts[i, j] = np.inf
            elif bad == "wide":
                pts = np.hstack([pts, pts])[:, :4]
            elif bad == "narrow":
                pts = pts[:, :2]
            else:
                pts = [["a", "b", "c"]]
            m.raises((ValueError, TypeError, IndexError), lambda: (
                cloud.add_points(pts, apparent_wind=(
                    bad == "apparent-negative"))), "bad-points-rejected", bad)
            m.event("rejected " + bad)
            judge(m, cloud, want, "after-rejection")
            continue
        pts = a_batch(rng)
        if len(want) and gen.chance(rng, 0.35):
            # points that are there already
            i = rng.integers(0, len(want), int(rng.integers(1, 5)))
            if gen.chance(rng, 0.5):
                i[0] = len(want) - 1
            known = want[i]
            known = known[known[:, 0] > 0]
            if len(known):
                pts = gen.pick(rng, [known, np.vstack([known, pts])])
        app = gen.chance(rng, 0.2)
        given = dress(rng, pts)
        with m.unmutated("given-points", given=given):
            cloud.add_points(given, apparent_wind=app)
        want = np.vstack([want, convert_apparent_wind_to_true(pts) if app
                          else norm(pts)])
        judge(m, cloud, want, "after-adding")
        for was, copy in handed:
            m.equal(np.asarray(was, float), copy, "views-handed-out-before")
        handed.append((cloud.points, np.array(want)))
        m.event("added", len(pts))
    # every stored wind answers with a stored speed
    for i in rng.integers(0, len(want), 4) if len(want) else ():
        if want[i, 0] > 0:
            same = want[(want[:, 0] == want[i, 0]) & (
                want[:, 1] == want[i, 1]), 2]
            m.ok(float(cloud(want[i, 0], want[i, 1])) in same.tolist(),
                 "answers-with-its-points")
    # what was handed out is the caller's
    p = cloud.points
    p[:] = -1
    for x in (cloud.wind_speeds, cloud.wind_angles, cloud.boat_speeds,
              cloud.default_points):
        x[:] = -1
    judge(m, cloud, want, "after-overwriting-views")


@check.case(quick=80, thorough=500)
def malformed(m):
    rng = m.rng
    pts = a_batch(rng, int(rng.integers(1, 6)))
    i, j = int(rng.integers(len(pts))), int(rng.integers(3))
    for bad in (np.nan, np.inf, -np.inf):
        x = pts.copy()
        x[i, j] = bad
        m.raises((ValueError, TypeError), lambda: PolarDiagramPointcloud(x),
                 "not-finite-rejected")
    m.raises((ValueError, TypeError, IndexError),
             lambda: PolarDiagramPointcloud([["a", "b", "c"]]),
             "text-rejected")
    m.event("malformed", 4)


gen.large_case(check, histories, 25000)
