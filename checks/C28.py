"""C28: regressors recover the model and never get worse than the guess."""
import numpy as np

import hrosailing.core.modelfunctions as model
from hrosailing.processing import LeastSquareRegressor, ODRegressor
from hrv import Check, gen

check = Check(
    "C28",
    "Data generated by linear, lobed, growth and saturation models, exact "
    "and noisy, in several orders, containers and with repeated records, is "
    "fitted by both regressors from guesses near and far; residuals are "
    "computed here with the model function that was passed in, linear models "
    "are compared with the normal equations.",
    ["guesses are within the basin of a sane start for non-linear models"],
)


def linear(ws, wa, a, b, c):
    return a * ws + b * np.sin(np.deg2rad(wa)) + c


def linear_star(ws, wa, *p):
    return p[0] * ws + p[1] * np.sin(np.deg2rad(wa)) + p[2]


def one(ws, wa, a):
    return a * ws * np.abs(np.sin(np.deg2rad(wa) / 2))


class Called:
    def __call__(self, ws, wa, a, b):
        return a * ws + b * ws * np.cos(np.deg2rad(wa))


def with_default(ws, wa, a, b=1):
    return a * ws + b * np.abs(np.sin(np.deg2rad(wa)))


def basis(kind, ws, wa):
    s, c = np.sin(np.deg2rad(wa)), np.cos(np.deg2rad(wa))
    return {
        "linear": [ws, s, np.ones_like(ws)],
        "linear_star": [ws, s, np.ones_like(ws)],
        "one": [ws * np.abs(np.sin(np.deg2rad(wa) / 2))],
        "called": [ws, ws * c],
        "default": [ws, np.abs(s)],
    }[kind]


LINEAR = {"linear": (linear, 3), "linear_star": (linear_star, 3),
          "one": (one, 1), "called": (Called(), 2),
          "default": (with_default, 2)}


def growth(ws, wa, a, b):
    return a * (1 - np.exp(-b * ws)) * np.abs(np.sin(np.deg2rad(wa) / 2))


def lobe(ws, wa, a, mu, sig):
    return a * np.exp(-(wa - mu) ** 2 / (2 * sig ** 2)) + 0 * ws


NONLINEAR = {
    "growth": (growth, lambda r: (r.uniform(4, 10), r.uniform(0.05, 0.3))),
    "lobe": (lobe, lambda r: (r.uniform(4, 10), r.uniform(80, 200),
                              r.uniform(30, 80))),
}


def winds(rng, n):
    ws, wa = rng.uniform(1, 20, n), rng.uniform(0, 360, n)
    if gen.chance(rng, 0.2):
        ws, wa = np.round(ws), np.round(wa)
    return ws, wa


def regressors(func, guess):
    out = [("odr", ODRegressor(func, guess)),
           ("lsq", LeastSquareRegressor(func, guess))]
    return out


def sq(func, params, pts):
    return float(np.sum((func(pts[:, 0], pts[:, 1], *params)
                         - pts[:, 2]) ** 2))


def container(rng, pts):
    if gen.chance(rng, 0.2):
        return [tuple(map(float, p)) for p in pts], "list"
    if gen.chance(rng, 0.2):
        return np.asfortranarray(pts), "fortran"
    return pts.copy(), "array"


@check.case(quick=500, thorough=6000)
def linear_models(m):
    rng = m.rng
    kind = gen.pick(rng, sorted(LINEAR))
    func, k = LINEAR[kind]
    n = int(rng.integers(k + 3, 60))
    ws, wa = winds(rng, n)
    true = rng.uniform(-5, 5, k)
    guess = gen.pick(rng, [None, np.ones(k), rng.uniform(-10, 10, k),
                           [float(x) for x in rng.uniform(0, 3, k)]])
    noise = float(gen.pick(rng, [0, 0, 0.1, 2]))
    repeat = rng.integers(0, n, n) if gen.chance(rng, 0.3) else np.arange(n)
    B = np.column_stack(basis(kind, ws, wa))
    if np.linalg.cond(B) > 1e4:
        return
    y = B @ true + rng.normal(0, 1, n) * noise
    # records that occur several times count as often
    ws, wa, y, B = ws[repeat], wa[repeat], y[repeat], B[repeat]
    if np.linalg.cond(B) > 1e4 or len(set(repeat)) < k + 2:
        return
    pts = np.column_stack([ws, wa, y])
    m.given(model=kind, points=pts, guess=guess, noise=noise)
    best, *_ = np.linalg.lstsq(B, y, rcond=None)
    least = float(np.sum((B @ best - y) ** 2))
    if guess is None:
        rs = [("lsq", LeastSquareRegressor(func))]
    else:
        rs = regressors(func, guess)
    keep = None if guess is None else np.array(guess, float)
    for name, r in rs:
        data, cont = container(rng, pts)
        m.ok(r.optimal_params is None, f"{name}-not-fitted-yet")
        r.fit(data)
        m.event("fits")
        m.equal(np.asarray(data), pts, f"{name}-data-unchanged",
                container=cont)
        if keep is not None:
            m.equal(np.array(guess, float), keep, f"{name}-guess-unchanged")
        m.ok(r.model_func is func, f"{name}-model-kept")
        p = np.asarray(r.optimal_params, float)
        m.equal(p.shape, (k,), f"{name}-parameter-count")
        got = sq(func, p, pts)
        scale = float(np.sum(y ** 2)) + 1
        m.ok(got <= least + 1e-6 * scale, f"{name}-least-squares",
             "the squared residual is not minimal", got=got, least=least,
             params=p, best=best)
        m.close(p, best, f"{name}-parameters", rtol=1e-3,
                atol=1e-3 * (1 + np.abs(best).max()))
        # in another order
        perm = rng.permutation(n)
        r2 = type(r)(func, guess) if guess is not None else type(r)(func)
        r2.fit(pts[perm])
        m.event("fits")
        m.close(r2.optimal_params, p, f"{name}-order-of-data", rtol=1e-4,
                atol=1e-4 * (1 + np.abs(best).max()))
        # fitting again forgets the first data
        other = np.column_stack([ws, wa, B @ (true + 1)])
        r.fit(other)
        m.event("refits")
        m.close(r.optimal_params, true + 1, f"{name}-refit", rtol=1e-3,
                atol=1e-3 * (1 + np.abs(true).max()))
    m.state("situation", (kind, guess is None, noise > 0, n // 10))


@check.case(quick=500, thorough=6000, budget=20_000_000)
def nonlinear_models(m):
    rng = m.rng
    kind = gen.pick(rng, ["growth", "lobe"])
    func, draw = NONLINEAR[kind]
    true = np.array(draw(rng))
    n = int(rng.integers(20, 120))
    ws, wa = winds(rng, n)
    noise = float(gen.pick(rng, [0, 0, 0.05, 0.5]))
    y = func(ws, wa, *true) + rng.normal(0, 1, n) * noise
    pts = np.column_stack([ws, wa, y])
    guess = true * rng.uniform(0.85, 1.15, len(true))
    m.given(model=kind, points=pts, guess=guess, true=true, noise=noise)
    at_guess, at_true = sq(func, guess, pts), sq(func, true, pts)
    keep = guess.copy()
    for name, r in regressors(func, guess):
        r.fit(pts.copy())
        m.event("fits")
        p = np.asarray(r.optimal_params, float)
        got = sq(func, p, pts)
        m.ok(got <= at_guess * (1 + 1e-9) + 1e-9, f"{name}-never-worse",
             "worse than the initial guess", got=got, guess=at_guess)
        m.ok(got <= at_true * (1 + 1e-6) + 1e-6 * n,
             f"{name}-not-worse-than-truth", got=got, true=at_true, params=p)
        if noise == 0:
            m.close(func(ws, wa, *p), y, f"{name}-reproduces", atol=1e-3)
        m.equal(guess, keep, f"{name}-guess-unchanged")
        p0 = p.copy()
        r.fit(pts[rng.permutation(n)])
        m.close(func(ws, wa, *r.optimal_params), func(ws, wa, *p0),
                f"{name}-order-of-data", atol=1e-2)
        m.event("refits")
        # a fit does not depend on the regressor's earlier fits
        other = pts.copy()
        far = np.array(draw(rng))
        other[:, 2] = func(ws, wa, *far) + rng.normal(0, 1, n) * noise
        fresh = type(r)(func, guess)
        try:
            fresh.fit(other.copy())
        except RuntimeError:  # documented by scipy: no convergence
            m.event("no convergence")
            continue
        r.fit(other.copy())
        m.event("refits")
        m.close(r.optimal_params, fresh.optimal_params,
                f"{name}-refit-fresh", "a second fit differs from a first "
                "one to the same data", rtol=1e-6, atol=1e-9)


@check.case(quick=60, thorough=600, budget=20_000_000)
def library_models(m):
    """the library's own model functions, many parameters"""
    rng = m.rng
    kind = gen.pick(rng, ["ws_s_s_dt_wa_gauss_comb", "ws_s_dt_wa_gauss",
                          "ws_s_wa_gauss_and_square"])
    func = getattr(model, kind)
    true = np.array(gen.curve_params(rng, kind))
    n = int(rng.integers(60, 150))
    ws, wa = rng.uniform(1, 20, n), rng.uniform(0, 360, n)
    y = func(ws, wa, *true) + rng.normal(0, 0.05, n)
    if not np.all(np.isfinite(y)):
        return
    pts = np.column_stack([ws, wa, y])
    guess = true * rng.uniform(0.95, 1.05, len(true))
    m.given(model=kind, points=pts, guess=guess)
    at_guess = sq(func, guess, pts)
    for name, r in regressors(func, guess):
        try:
            r.fit(pts.copy())
        except RuntimeError:  # documented by scipy: no convergence
            m.event("no convergence")
            continue
        m.event("fits")
        got = sq(func, np.asarray(r.optimal_params, float), pts)
        m.ok(got <= at_guess * (1 + 1e-9) + 1e-9, f"{name}-library-worse",
             "worse than the initial guess", got=got, guess=at_guess)


@check.case(quick=25, thorough=300, budget=20_000_000)
def long_valleys(m):
    """exact data that takes many iterations to fit"""
    rng = m.rng
    a, k = float(rng.uniform(5, 8)), float(rng.uniform(10, 14))

    def valley(ws, wa, a, b):
        return a * ws / 20 + (b - a * a) * k * np.sin(np.deg2rad(wa))

    ws, wa = rng.uniform(1, 20, 50), rng.uniform(0, 360, 50)
    y = valley(ws, wa, a, a * a)
    guess = [-a, a * a]
    m.given(a=a, k=k, ws=ws, wa=wa)
    r = ODRegressor(valley, guess)
    r.fit(np.column_stack([ws, wa, y]))
    m.event("fits")
    m.close(valley(ws, wa, *r.optimal_params), y, "odr-long-valley",
            "exact data is not reproduced", atol=1e-3)


@check.case(quick=30, thorough=300)
def bad_data(m):
    rng = m.rng
    kind = int(rng.integers(3))
    data = [np.empty((0, 3)), np.ones((5, 2)), np.ones((5, 1))][kind]
    m.given(kind=kind)
    for name, r in regressors(one, [1.0]):
        m.raises((ValueError, IndexError), lambda: r.fit(data),
                 f"{name}-bad-data", f"data of shape {data.shape}")
        m.ok(r.optimal_params is None, f"{name}-bad-data-no-result")
        m.event("rejected")
