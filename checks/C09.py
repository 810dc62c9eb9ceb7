"""C09: neighbourhoods contain exactly the points of their definition."""
import numpy as np

from hrosailing.core.computing import euclidean_norm, scaled_norm
from hrosailing.processing import Ball, Cuboid, Ellipsoid, Polytope, ScalingBall
from hrv import Check, gen, ref

check = Check(
    "C09",
    "Every neighbourhood is asked about random clouds of differences, points "
    "exactly on its boundary (dyadic coordinates), far points, duplicates and "
    "lists; each answer is compared with the set definition evaluated point "
    "by point, in any order and repeatedly on the same object.",
    ["points within 1e-9 (relative) of the boundary are only judged when "
     "their coordinates make the comparison exact"],
)

NORMS = {
    "default": None,
    "euclid": euclidean_norm,
    "dyadic": scaled_norm(euclidean_norm, [1 / 4, 1 / 32]),
    "max": lambda v: np.max(np.abs(v), axis=1),
    "one": lambda v: np.sum(np.abs(v), axis=1),
}


def length(name, p):
    x, y = float(p[0]), float(p[1])
    if name == "default":
        return np.hypot(x / 40, y / 360)
    if name == "euclid":
        return np.hypot(x, y)
    if name == "dyadic":
        return np.hypot(x / 4, y / 32)
    if name == "max":
        return max(abs(x), abs(y))
    return abs(x) + abs(y)


def points(rng, name, r):
    n = gen.size(rng, 1, 30, 700)
    unit = {"default": (40, 360), "dyadic": (4, 32)}.get(name, (1, 1))
    p = rng.normal(size=(n, 2)) * r * np.array(unit) * rng.choice(
        [0.3, 1, 5])
    if gen.chance(rng, 0.3):
        p[int(rng.integers(n))] = 0
    if gen.chance(rng, 0.3):
        p[int(rng.integers(n))] = p[0]
    if gen.chance(rng, 0.4):  # nearly as far away as another one
        q = p[rng.integers(n, size=n)] * rng.choice([-1, 1], (n, 2))
        q *= 1 + 10.0 ** -rng.uniform(3, 11, (n, 1))
        p = np.concatenate([p, q])
    return p


def judge(m, want, near, got, mech, n, **d):
    m.ok(isinstance(got, np.ndarray), mech + "-array", f"{type(got)}")
    got = np.asarray(got)
    m.ok(got.shape == (n,), mech, f"shape {got.shape} for {n} points", **d)
    m.ok(got.dtype == bool, mech, f"dtype {got.dtype}", **d)
    bad = (np.asarray(want) != got) & ~np.asarray(near)
    m.ok(not bad.any(), mech, f"points {np.flatnonzero(bad)} misjudged", **d)
    m.event("inside", int(got.sum()))
    m.event("outside", int((~got).sum()))


def again(m, nh, p, got, mech):
    """repeated, reordered, one by one, as list: the same answers"""
    rng = m.rng
    q = rng.permutation(len(p))
    nh.is_contained_in(rng.normal(size=(7, 2)) * 100)
    m.equal(np.asarray(nh.is_contained_in(p[q])), np.asarray(got)[q],
            mech + "-order")
    m.equal(np.asarray(nh.is_contained_in(p.tolist())), np.asarray(got),
            mech + "-repeat")


def alone(m, nh, p, got, mech):
    i = int(m.rng.integers(len(p)))
    m.equal(bool(np.asarray(nh.is_contained_in(p[i:i + 1]))[0]),
            bool(np.asarray(got)[i]), mech + "-independent")


@check.case(quick=400, thorough=6000)
def ball(m):
    rng = m.rng
    name = gen.pick(rng, sorted(NORMS))
    r = float(gen.pick(rng, [0.05, 0.5, 1.0, 2.0, rng.uniform(0.01, 3),
                             10.0 ** rng.uniform(-9, 4)]))
    kw = {} if name == "default" else {"norm": NORMS[name]}
    nh = Ball(radius=r, **kw)
    p = points(rng, name, r)
    m.given(name=name, r=r, p=p)
    dist = np.array([length(name, x) for x in p])
    with m.unmutated("points-kept", p=p):
        got = nh.is_contained_in(p)
    judge(m, dist <= r, np.abs(dist - r) <= 1e-9 * r, got, "ball", len(p))
    again(m, nh, p, got, "ball")
    alone(m, nh, p, got, "ball")


@check.case(quick=150, thorough=1500)
def default_ball(m):
    p = points(m.rng, "default", 0.05)
    m.given(p=p)
    dist = np.array([length("default", x) for x in p])
    judge(m, dist <= 0.05, np.abs(dist - 0.05) <= 1e-9, Ball()
          .is_contained_in(p), "ball-default", len(p))
    judge(m, dist <= 0.05, np.abs(dist - 0.05) <= 1e-9, Ellipsoid()
          .is_contained_in(p), "ellipsoid-default", len(p))
    q = m.rng.normal(size=p.shape) * 0.06
    want = np.max(np.abs(q), axis=1) <= 0.05
    judge(m, want, want & False, Cuboid().is_contained_in(q),
          "cuboid-default", len(q))
    judge(m, want, want & False, Polytope().is_contained_in(q),
          "polytope-default", len(q))


def one_by_one(v):
    """a norm which knows single points only"""
    if np.shape(v) != (2,):
        raise ValueError("not a point")
    return np.sqrt(v[0] ** 2 + v[1] ** 2)


@check.case(quick=150, thorough=1500)
def boundary(m):
    """exactly representable boundary points belong to the set"""
    rng = m.rng
    k = int(rng.integers(-3, 4))
    r = 2.0 ** k
    m.given(r=r)
    tri = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1)]
    for a, b, c in tri:
        sx, sy = rng.choice([-1.0, 1.0], 2)
        p = np.array([[sx * a * r, sy * b * r]])
        eps = 1 + 2.0 ** -40
        for nh in (Ball(radius=c * r, norm=euclidean_norm),
                   Ball(radius=c * r, norm=one_by_one),
                   Ellipsoid(radius=c * r, norm=euclidean_norm)):
            m.ok(bool(nh.is_contained_in(p)[0]), "boundary-included",
                 repr(type(nh)), p=p)
            m.ok(not nh.is_contained_in(p * eps)[0], "boundary-exact",
                 repr(type(nh)), p=p)
        dim = (abs(a * r), abs(b * r))
        m.ok(bool(Cuboid(dimensions=dim).is_contained_in(p)[0]),
             "boundary-included", "Cuboid", p=p)
        m.ok(not Cuboid(dimensions=dim).is_contained_in(p * eps)[0],
             "boundary-exact", "Cuboid", p=p)
        po = Polytope(np.array([[1, 0], [0, 1], [-1, 0], [0, -1.0]]),
                      np.array(dim + dim))
        m.ok(bool(po.is_contained_in(p)[0]), "boundary-included", "Polytope")
        m.ok(not po.is_contained_in(p * eps)[0], "boundary-exact", "Polytope")
        m.event("boundary-point", 8)


@check.case(quick=400, thorough=6000)
def scaling_ball(m):
    rng = m.rng
    name = gen.pick(rng, sorted(NORMS))
    kw = {} if name == "default" else {"norm": NORMS[name]}
    p = points(rng, name, 1)
    k = int(rng.integers(1, len(p) + 3))
    if gen.chance(rng, 0.1):
        k = len(p)
    nh = ScalingBall(k, **kw)
    m.given(name=name, k=k, p=p)
    with m.unmutated("points-kept", p=p):
        got = nh.is_contained_in(p)
    dist = np.array([length(name, x) for x in p])
    lim = np.sort(dist)[min(k, len(p)) - 1]
    near = (np.abs(dist - lim) <= 1e-12 * lim) & (dist != lim)
    judge(m, dist <= lim, near, got, "scaling-ball", len(p), k=k)
    m.ok(int(np.sum(got)) >= min(k, len(p)), "scaling-ball-enough",
         f"{np.sum(got)} < {k}")
    if not near.any():
        again(m, nh, p, got, "scaling-ball")


@check.case(quick=300, thorough=5000)
def ellipsoid(m):
    rng = m.rng
    name = gen.pick(rng, sorted(NORMS))
    r = float(rng.uniform(0.02, 2))
    if gen.chance(rng, 0.2):
        r = 10.0 ** rng.uniform(-9, 4)
    while True:
        T = rng.normal(size=(2, 2))
        if gen.chance(rng, 0.3):
            T = np.round(T * 2)
        if abs(np.linalg.det(T)) > 0.1:
            break
    long = 1.0
    if gen.chance(rng, 0.3):  # very elongated along the axes
        long = 10.0 ** rng.uniform(1, 8)
        T = np.diag([gen.pick(rng, [-1, 1]) * float(rng.uniform(0.5, 2)),
                     gen.pick(rng, [-1, 1]) * float(rng.uniform(0.5, 2))])
        T[(i := int(rng.integers(2))), i] *= gen.pick(rng, [long, 1 / long])
    kw = {} if name == "default" else {"norm": NORMS[name]}
    p = points(rng, name, r)
    m.given(T=T, r=r, name=name, p=p)
    with m.unmutated("points-kept", p=p, T=T):
        nh = Ellipsoid(T, radius=r, **kw)
        got = nh.is_contained_in(p)
    (a, b), (c, d) = T.tolist()
    det = a * d - b * c
    dist = np.array([length(name, ((d * x - b * y) / det,
                                   (a * y - c * x) / det)) for x, y in p])
    judge(m, dist <= r, np.abs(dist - r) <= 1e-8 * r, got, "ellipsoid",
          len(p))
    again(m, nh, p, got, "ellipsoid")
    alone(m, nh, p, got, "ellipsoid")


@check.case(quick=300, thorough=5000)
def cuboid(m):
    rng = m.rng
    size = tuple(float(x) for x in rng.uniform(0.02, 3, 2))
    p = rng.normal(size=(gen.size(rng, 1, 30, 700), 2)) * rng.choice(
        [.3, 1, 4])
    if gen.chance(rng, 0.3):  # very small, very large, flat
        f = 10.0 ** rng.uniform(-9, 4, 2)
        size = tuple(float(x) for x in np.array(size) * f)
        p = p * f
    kw = {}
    f = abs
    if gen.chance(rng, 0.3):
        kw["norm"] = lambda x: np.abs(x) / 2
        f = lambda x: abs(x) / 2
    m.given(size=size, p=p, kw=bool(kw))
    with m.unmutated("points-kept", p=p):
        nh = Cuboid(dimensions=size, **kw)
        got = nh.is_contained_in(p)
    want = np.array([f(x) <= size[0] and f(y) <= size[1] for x, y in p])
    judge(m, want, want & False, got, "cuboid", len(p))
    again(m, nh, p, got, "cuboid")
    alone(m, nh, p, got, "cuboid")


@check.case(quick=300, thorough=5000)
def polytope(m):
    rng = m.rng
    k = gen.size(rng, 1, 8, 40, 0.2)
    mat = rng.normal(size=(k, 2))
    b = rng.uniform(-0.5, 2, k)
    p = rng.normal(size=(gen.size(rng, 1, 30, 700), 2)) * rng.choice(
        [.3, 1, 4])
    if gen.chance(rng, 0.1):
        p, b = p * 1e-6, b * 1e-6
    m.given(mat=mat, b=b, p=p)
    with m.unmutated("points-kept", p=p, mat=mat, b=b):
        nh = Polytope(mat, b)
        got = nh.is_contained_in(p)
    slack = np.array([[mat[i][0] * x + mat[i][1] * y - b[i]
                       for i in range(k)] for x, y in p])
    near = (np.abs(slack) <= 1e-12 * np.abs(b).max()).any(axis=1)
    judge(m, (slack <= 0).all(axis=1), near, got, "polytope", len(p))
    again(m, nh, p, got, "polytope")
    alone(m, nh, p, got, "polytope")


@check.case(quick=60, thorough=300)
def rejections(m):
    rng = m.rng
    bad = -float(rng.choice([0, 1, 0.5]))
    m.given(bad=bad, salt=float(rng.random()))
    m.raises(ValueError, lambda: Ball(radius=bad), "rejects-radius")
    m.raises(ValueError, lambda: ScalingBall(int(bad)), "rejects-count")
    m.raises(ValueError, lambda: Ellipsoid(radius=bad), "rejects-radius")
    v = rng.integers(-3, 4, 2).astype(float)
    m.raises(ValueError, lambda: Ellipsoid(np.array([v, 2 * v])),
             "rejects-singular")
    m.raises(ValueError, lambda: Ellipsoid(np.eye(3)), "rejects-shape")
    m.raises(ValueError, lambda: Polytope(np.eye(3), np.ones(3)),
             "rejects-shape")
    m.raises(ValueError, lambda: Polytope(np.eye(2), np.ones(3)),
             "rejects-shape")
    m.raises(ValueError,
             lambda: Polytope(np.array([[1, np.nan], [1, 1]]), np.ones(2)),
             "rejects-nonfinite")
    m.event("rejected", 8)


gen.large_case(check, ball, 10000)
gen.large_case(check, scaling_ball, 3000)
gen.large_case(check, ellipsoid, 10000)
gen.large_case(check, cuboid, 10000)
gen.large_case(check, polytope, 300)
