"""Independent reference implementations of documented definitions."""
import math

import numpy as np


def snorm(ws, wa):
    """scaled euclidean norm of a wind difference"""
    return math.sqrt((ws / 40) ** 2 + (wa / 360) ** 2)


def dists(pts, at):
    return np.array([snorm(p[0] - at[0], p[1] - at[1]) for p in pts])


def idw(pts, at, p=2, dist=None):
    d = dists(pts, at) if dist is None else dist
    for di, pt in zip(d, pts):
        if di == 0:
            return pt[2]
    w = [1 / di ** p for di in d]
    return math.fsum(wi * pt[2] for wi, pt in zip(w, pts)) / math.fsum(w)


def arithmetic_mean(pts, at, weights=None, alpha=100, s=1, dist=None,
                    distr=None):
    d = dists(pts, at) if dist is None else dist
    for di, pt in zip(d, pts):
        if di == 0:
            return pt[2]
    weights = np.ones(len(pts)) if weights is None else weights
    if distr is None:
        w = [math.exp(-alpha * wi * di) for wi, di in zip(weights, d)]
    else:
        w = list(distr(np.asarray(d), np.asarray(weights)))
    return s * math.fsum(
        wi * pt[2] for wi, pt in zip(w, pts)) / math.fsum(w)


def shepard_weights(d):
    r = max(d)
    out = []
    for di in d:
        if 0 < di <= r / 3:
            out.append(1 / di)
        elif di <= r:
            out.append(27 / (4 * r) * (di / r - 1) ** 2)
        else:
            out.append(0.0)
    if not any(out):  # all equally far away
        out = [1.0] * len(out)
    return np.array(out)


def improved_idw(pts, at, dist=None):
    d = dists(pts, at) if dist is None else dist
    for di, pt in zip(d, pts):
        if di == 0:
            return pt[2]
    w = shepard_weights(d) ** 2
    return float(np.sum(w * np.array([p[2] for p in pts])) / np.sum(w))


def cloud_eval(pts, ws, wa, radius=1, alpha=50):
    """documented evaluation of tables and clouds off their data"""
    d = dists(pts, (ws, wa))
    near = d <= radius
    return arithmetic_mean(pts[near], (ws, wa), alpha=alpha)


def table_points(ws, wa, b):
    return np.array(
        [(w, a, b[i, j]) for i, a in enumerate(wa) for j, w in enumerate(ws)]
    )


def shepard(pts, at, contained, slope=0.1, d=None):
    """Shepard 1968 in the Euclidean plane; `contained(diffs)` -> mask"""
    n = len(pts)
    x, y, z = pts.T
    d = np.hypot(x - at[0], y - at[1]) if d is None else d
    for di, zi in zip(d, z):
        if di == 0:
            return zi
    s = shepard_weights(d)
    t = np.zeros(n)
    for i in range(n):
        acc = 0.0
        for j in range(n):
            if j == i:
                continue
            cos = ((at[0] - x[i]) * (at[0] - x[j])
                   + (at[1] - y[i]) * (at[1] - y[j])) / (d[i] * d[j])
            acc += s[j] * (1 - cos)
        t[i] = acc / s.sum()
    w = s ** 2 * (1 + t)
    a, b = np.zeros(n), np.zeros(n)
    for i in range(n):
        num_a = num_b = den = 0.0
        others = [j for j in range(n) if j != i]
        diffs = np.array([[x[j] - x[i], y[j] - y[i]] for j in others])
        mask = contained(diffs)
        for j, inside in zip(others, mask):
            if not inside:
                continue
            dd = (x[j] - x[i]) ** 2 + (y[j] - y[i]) ** 2
            num_a += w[j] * (z[j] - z[i]) * (x[j] - x[i]) / dd
            num_b += w[j] * (z[j] - z[i]) * (y[j] - y[i]) / dd
            den += w[j]
        if den:
            a[i], b[i] = num_a / den, num_b / den
    steep = math.sqrt(np.max(a ** 2 + b ** 2))
    if steep == 0:
        dz = np.zeros(n)
    else:
        nu = slope * (z.max() - z.min()) / steep
        dz = (a * (at[0] - x) + b * (at[1] - y)) * nu / (nu + d)
    return float(np.sum(w * (z + dz)) / np.sum(w))
