"""C32: plots draw exactly the diagram's slices."""
import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from scipy.spatial import cKDTree  # noqa: E402

import hrosailing.plotting as hplt  # noqa: E402
from hrosailing.polardiagram import (PolarDiagramMultiSails,  # noqa: E402
                                     PolarDiagramPointcloud,
                                     PolarDiagramTable)
from hrv import Check, gen  # noqa: E402

check = Check(
    "C32",
    "Tables, clouds, curves and multi-sail diagrams are drawn by all plot "
    "kinds with all colour, legend and slice options; the artists on the "
    "axes (line data, offsets, colours, legend entries, colour bars) are "
    "read back and compared with the slices and points of an untouched copy "
    "of the diagram.  Convex hull outlines are judged by their geometry.",
    ["convex hulls are judged for slices that surround the origin",
     "colours are judged for slices in ascending order",
     "surfaces are judged by the points their triangles use"],
)


def diagram(rng, kinds=("table", "cloud", "curve", "multi", "multi")):
    k = gen.pick(rng, kinds)
    if k == "table":
        return gen.table(rng)
    if k == "cloud":
        n = int(rng.integers(1, 25))
        pts = np.column_stack([rng.choice([4., 8., 12., 16.], n),
                               rng.uniform(0, 360, n),
                               rng.uniform(0, 12, n)])
        if gen.chance(rng, 0.2):
            pts[:, 2] *= float(gen.pick(rng, [-1, 1e-3, 1e3]))
        if gen.chance(rng, 0.2):
            pts[rng.random(n) < 0.5, 2] *= gen.pick(rng, [0, -1])
        if gen.chance(rng, 0.2):
            pts[rng.random(n) < 0.3, 1] = gen.pick(rng, [0.0, 180.0])
        return PolarDiagramPointcloud(pts)
    if k == "curve":
        return gen.lobed_curve(rng)
    n = int(rng.integers(1, 4))
    names = gen.pick(rng, [None, [f"S{i}" for i in range(n)][::-1],
                           ["Jib", "Main", "Spi"][:n]])
    pds = [diagram(rng, ("table", "table", "curve"))
           if gen.chance(rng, 0.8) else diagram(rng, ("table",))
           for _ in range(n)]
    if gen.chance(rng, 0.4):  # the same winds for all sails
        ws, wa, b = gen.table_parts(rng)
        pds = [PolarDiagramTable(ws, wa, rng.uniform(0, 9, np.shape(b)))
               for _ in range(n)]
    return PolarDiagramMultiSails(pds, names)


def wind_speeds(rng, pd):
    """ascending wind speeds to plot (or the default)"""
    if gen.chance(rng, 0.15):
        return None
    if isinstance(pd, PolarDiagramTable) and gen.chance(rng, 0.6):
        pool = np.asarray(pd.wind_speeds, float)
        k = int(rng.integers(1, len(pool) + 1))
        return sorted(float(x) for x in rng.choice(pool, k, replace=False))
    if isinstance(pd, PolarDiagramPointcloud):
        pool = np.unique(np.asarray(pd.points)[:, 0])
        k = int(rng.integers(1, len(pool) + 1))
        return sorted(float(x) for x in rng.choice(pool, k, replace=False))
    k = int(rng.integers(1, 6))
    return sorted(float(x) for x in np.round(rng.uniform(2, 20, k), 2))


def slices_of(pd, ws):
    labels, slices, info = pd.get_slices(ws, None, full_info=True)
    return (list(labels), [np.array(s, float) for s in slices],
            None if info is None else [
                None if i is None else list(i) for i in info])


def groups(slice_, info):
    """the points of a slice, by sail, ordered by angle"""
    wa, bsp = slice_[1], slice_[2]
    if info is None:
        return [sorted(zip(wa, bsp))]
    by = {}
    for s, a, b in zip(info, wa, bsp):
        by.setdefault(s, []).append((a, b))
    return sorted(sorted(v) for v in by.values())


def split(x, y):
    out, cur = [], []
    for a, b in zip(x, y):
        if math.isnan(a) or math.isnan(b):
            out.append(cur)
            cur = []
        else:
            cur.append((float(a), float(b)))
    out.append(cur)
    return out


def same_groups(m, got, want, mech, **kw):
    for g in got:
        angles = [a for a, _ in g]
        m.ok(angles == sorted(angles), mech + "-order",
             "points not in the order of their angles", got=angles)
    g = sorted(sorted(x) for x in got)
    m.equal([len(x) for x in g], [len(x) for x in want], mech + "-count",
            **kw)
    m.close([p for x in g for p in x], [p for x in want for p in x], mech,
            "not the points of the slice", **kw)


COLORS = [("green", "red"), ("#00ff00", (0.2, 0.1, 0.9)), "blue", "#123456",
          (1, 0, 0), (0.25, 0.5, 0.75), ["red", "green", "orange"],
          ["k", "c", "m", "y", "r", "g"], ["purple"], ("k", "w"), "pairs"]


def expected_colors(labels, colors):
    n = len(labels)
    if isinstance(colors, str) or (
            isinstance(colors, tuple) and isinstance(
                colors[0], (int, float))):
        return [to_rgba(colors)] * n
    if isinstance(colors[0], tuple) and not isinstance(
            colors[0][1], (int, float)):
        out = [to_rgba("blue")] * n
        for w, c in colors:
            out[labels.index(w)] = to_rgba(c)
        return out
    if len(colors) == 2 and n > 2:
        a, b = (np.array(to_rgba(c)) for c in colors)
        lo, hi = min(labels), max(labels)
        return [tuple(a + (b - a) * (0 if hi == lo else (w - lo) / (
            hi - lo))) for w in labels]
    cols = [to_rgba(c) for c in colors][:n]
    return cols + [to_rgba("blue")] * (n - len(cols))


def colors_for(rng, labels):
    c = gen.pick(rng, COLORS)
    if c != "pairs":
        return c
    if len(set(labels)) < len(labels):
        return ("green", "red")
    k = int(rng.integers(1, len(labels) + 1))
    idx = rng.choice(len(labels), k, replace=False)
    return [(labels[i], gen.pick(rng, ["r", "k", "orange"])) for i in idx]


def new_axes(rng, kind, method):
    fig = plt.figure()
    if gen.chance(rng, 0.3):
        fn = getattr(hplt, f"{method}_{kind}", None)
        if fn is not None:
            return fig, fn, None
    ax = fig.add_subplot(projection=f"hro {kind}")
    return fig, getattr(ax, method), ax


def snapshot(pd):
    if isinstance(pd, PolarDiagramMultiSails):
        return [snapshot(p) for p in pd.diagrams] + [list(pd.sails)]
    if isinstance(pd, PolarDiagramTable):
        return [np.array(pd.wind_speeds), np.array(pd.wind_angles),
                np.array(pd.boat_speeds)]
    if isinstance(pd, PolarDiagramPointcloud):
        return [np.array(pd.points)]
    return [list(pd.parameters), pd.radians]


def drawn(ax, method):
    """(groups, colour) of every slice on the axes"""
    out = []
    if method == "plot":
        for ln in ax.lines:
            x, y = np.asarray(ln.get_xdata(), float), np.asarray(
                ln.get_ydata(), float)
            out.append((split(x, y), to_rgba(ln.get_color())))
        return out
    for c in ax.collections:
        off = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
        face = np.asarray(c.get_facecolor())
        out.append((split(off[:, 0], off[:, 1]),
                    tuple(face[0]) if len(face) else None))
    return out


def to_axes_units(want, kind):
    if kind == "polar":
        return [[(math.radians(a), b) for a, b in g] for g in want]
    return want


@check.case(quick=160, thorough=2500, budget=30_000_000)
def slices(m):
    rng = m.rng
    pd = diagram(rng)
    ws = wind_speeds(rng, pd)
    if ws is not None and gen.chance(rng, 0.3):
        ws = [ws[i] for i in rng.permutation(len(ws))]
    try:
        labels, sl, info = slices_of(pd, ws)
    except (ValueError, ZeroDivisionError):
        m.event("no slices there")
        return
    kind = gen.pick(rng, ["polar", "flat"])
    method = gen.pick(rng, ["plot", "plot", "scatter"])
    colors = colors_for(rng, [float(x) for x in labels])
    legend = gen.chance(rng, 0.4)
    m.given(diagram=repr(pd)[:300], ws=ws, kind=kind, method=method,
            colors=repr(colors), legend=legend)
    before = snapshot(pd)
    try:
        fig, draw, ax = new_axes(rng, kind, method)
        kw = {} if (colors == ("green", "red")
                    and gen.chance(rng, 0.5)) else {"colors": colors}
        if legend:
            kw["show_legend"] = True
        if method == "plot" and gen.chance(rng, 0.2):
            kw["linewidth"] = 3.5
        draw(pd, **({} if ws is None else {"ws": ws}), **kw)
        ax = ax or fig.axes[0]
        m.event(f"{kind} {method}")
        m.equal(snapshot(pd), before, "plot-diagram-unchanged",
                "plotting changed the diagram")
        got = drawn(ax, method)
        m.equal(len(got), len(sl), f"{method}-number-of-slices")
        cols = expected_colors([float(x) for x in labels], colors)
        for i, ((g, c), s) in enumerate(zip(got, sl)):
            want = to_axes_units([x for x in groups(
                s, info and info[i]) if x], kind)
            same_groups(m, [x for x in g if x], want,
                        f"{kind}-{method}-points", slice=labels[i])
            if not want:
                m.event("empty slices")
                continue
            if len(want) == 1:
                m.equal(len(g), 1, "one-piece")
            m.event("points read back", s.shape[1])
            m.close(c, cols[i], "slice-color", atol=1e-6, slice=labels[i],
                    colors=repr(colors))
            m.event("colours read back")
        if kw.get("linewidth") and ax.lines:
            m.ok(all(ln.get_linewidth() == 3.5 for ln in ax.lines),
                 "line-options")
        if kind == "polar":
            m.close((ax.get_theta_offset(), ax.get_theta_direction()),
                    (math.pi / 2, -1), "compass-axes")
        if legend:
            legends(m, fig, ax, labels, colors, cols)
        else:
            m.ok(ax.get_legend() is None and len(fig.axes) == 1,
                 "legend-not-asked-for")
        m.state("plot", (kind, method, repr(colors), legend, len(labels)))
    finally:
        plt.close("all")


@check.case(quick=16, thorough=250)
def gradient_legends(m):
    """the colour bar covers the winds in whatever order they are asked for"""
    rng = m.rng
    pd = gen.smooth_table(rng)
    pool = [float(x) for x in pd.wind_speeds]
    if len(pool) < 3:
        return
    ws = [pool[i] for i in rng.permutation(len(pool))]
    kind = gen.pick(rng, ["polar", "flat"])
    colors = gen.pick(rng, [("green", "red"), ("k", "w"), ("#0000ff", "c")])
    m.given(ws=ws, kind=kind, colors=colors)
    try:
        fig = plt.figure()
        ax = fig.add_subplot(projection=f"hro {kind}")
        getattr(ax, gen.pick(rng, ["plot", "scatter"]))(
            pd, ws=ws, colors=colors, show_legend=True)
        legends(m, fig, ax, ws, colors, None)
    finally:
        plt.close("all")


def legends(m, fig, ax, labels, colors, cols):
    leg = ax.get_legend()
    if isinstance(colors, tuple) and len(colors) == 2 and len(labels) > 2:
        m.ok(leg is None and len(fig.axes) == 2, "legend-colorbar",
             "a gradient has a colour bar")
        bar = fig.axes[1]
        if min(labels) < max(labels):
            m.close(bar.get_ylim(), (min(labels), max(labels)),
                    "colorbar-range")
        m.event("colour bars")
        return
    m.ok(leg is not None and len(fig.axes) == 1, "legend-shown")
    of = {}
    for w, c in zip(labels, cols):
        of.setdefault(float(w), []).append(c)
    m.ok(len(leg.get_texts()) >= 1, "legend-entries")
    for t, h in zip(leg.get_texts(), leg.get_lines()):
        w = float(t.get_text().split()[-1])
        near = [k for k in of if abs(k - w) < 1e-9]
        m.ok(bool(near), "legend-wind-speed", entry=t.get_text())
        m.ok(any(np.allclose(to_rgba(h.get_color()), c, atol=1e-6)
                 for c in of[near[0]]), "legend-color", entry=t.get_text())
    m.event("legend entries", len(leg.get_texts()))


# -- convex hulls -------------------------------------------------------------
def around(rng):
    """a diagram whose slices surround the origin"""
    k = int(rng.integers(3))
    n = int(rng.integers(5, 14))
    wa = np.sort(rng.uniform(0, 360, n))
    if gen.chance(rng, 0.3):
        wa[0] = 0
    if gen.chance(rng, 0.3):
        wa[-1] = 360
    wa = np.unique(np.round(wa, 3))
    if gen.chance(rng, 0.2):  # from abeam to abeam
        k = min(k, 1)
        lo = float(gen.pick(rng, [90, 90, 60, 120]))
        wa = np.unique(np.append(np.round(rng.uniform(lo, lo + 180, n), 3),
                                 [lo, lo + 180]))
    ws = [6.0, 10.0][:int(rng.integers(1, 3))]
    size = float(gen.pick(rng, [1, 1, 1, 1e-3, 100]))
    b = rng.uniform(0.5, 9, (len(wa), len(ws))) * size
    if gen.chance(rng, 0.2) and wa[0] == 0:
        b[0] = 0
    if k == 0:
        return PolarDiagramTable(ws, wa, b), ws
    if k == 1:
        return PolarDiagramPointcloud(
            [[w, a, b[i, j]] for i, a in enumerate(wa)
             for j, w in enumerate(ws)]), ws
    wa2 = np.unique(np.round(rng.uniform(0, 360, n), 2))
    return PolarDiagramMultiSails([
        PolarDiagramTable(ws, wa, b),
        PolarDiagramTable(ws, wa2, rng.uniform(
            0.5, 9, (len(wa2), len(ws))) * size)]), ws


def surrounds(slice_):
    a = np.sort(slice_[1][slice_[2] > 1e-9] % 360)
    if len(a) < 3:
        return False
    gap = max(np.append(np.diff(a), a[0] + 360 - a[-1]))
    return gap < 178 or a[-1] - a[0] == gap == 180


def xy(wa, bsp):
    t = np.radians(wa)
    return np.column_stack([np.asarray(bsp) * np.cos(t),
                            np.asarray(bsp) * np.sin(t)])


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


@check.case(quick=120, thorough=2500)
def hulls(m):
    rng = m.rng
    pd, ws = around(rng)
    _, sl, _ = slices_of(pd, ws)
    kind = gen.pick(rng, ["polar", "flat"])
    method = gen.pick(rng, ["plot", "plot", "scatter"])
    m.given(diagram=repr(pd)[:300], slices=[s.tolist() for s in sl],
            kind=kind, method=method)
    before = snapshot(pd)
    try:
        ax = plt.figure().add_subplot(projection=f"hro {kind}")
        getattr(ax, method)(pd, ws=ws, use_convex_hull=True)
        m.event("hull plots")
        m.equal(snapshot(pd), before, "hull-diagram-unchanged")
        got = drawn(ax, method)
        m.equal(len(got), len(sl), "hull-number-of-slices")
        for (g, _), s in zip(got, sl):
            if not surrounds(s):
                continue
            m.equal(len(g), 1, "hull-one-outline")
            wa = np.array([a for a, _ in g[0]])
            bsp = np.array([b for _, b in g[0]])
            if kind == "polar":
                wa = np.degrees(wa)
            m.ok(np.all(np.diff(wa) >= -1e-9), "hull-order", wa=wa)
            out, pts = xy(wa, bsp), xy(s[1], s[2])
            scale = float(np.abs(pts).max())
            m.close(out[0], out[-1], "hull-closed", "the outline is open",
                    atol=1e-6 * scale, wa=wa, bsp=bsp)
            m.close((wa[0], wa[-1]), (0, 360), "hull-full-circle")
            ring = out[:-1]
            for i in range(len(ring)):
                o, a = ring[i], ring[(i + 1) % len(ring)]
                b = ring[(i + 2) % len(ring)]
                m.ok(cross(o, a, b) >= -1e-6 * scale ** 2, "hull-convex",
                     "the outline is not convex", at=wa[i], wa=wa, bsp=bsp)
                m.ok(all(cross(o, a, p) >= -1e-6 * scale ** 2 for p in pts),
                     "hull-encloses", "a point lies outside of the outline",
                     wa=wa, bsp=bsp)
            for i in range(1, len(out) - 1):  # corners are measured points
                d = np.min(np.hypot(*(pts - out[i]).T))
                m.ok(d <= 1e-6 * scale, "hull-corners",
                     "a corner that is no point of the slice", wa=wa[i])
            m.event("hulls judged")
            m.event("corners", len(ring))
        m.state("hull", (kind, method, len(sl), type(pd).__name__))
    finally:
        plt.close("all")


# -- all points ----------------------------------------------------------------
@check.case(quick=80, thorough=1000, budget=30_000_000)
def gradient(m):
    rng = m.rng
    pd = diagram(rng, ("table", "cloud", "curve", "multi"))
    colors = gen.pick(rng, [("green", "red"), ("k", "w"),
                            ("#00ff00", (0.2, 0.1, 0.9))])
    pts = np.array(pd.get_points(), float)
    method = gen.pick(rng, ["plot", "scatter"])
    legend = gen.chance(rng, 0.3)
    m.given(diagram=repr(pd)[:300], colors=repr(colors), method=method)
    before = snapshot(pd)
    try:
        fig = plt.figure()
        ax = fig.add_subplot(projection="hro color gradient")
        getattr(ax, method)(pd, colors=colors, show_legend=legend)
        m.event("gradient plots")
        m.equal(snapshot(pd), before, "gradient-diagram-unchanged")
        m.equal(len(ax.collections), 1, "gradient-one-cloud")
        c = ax.collections[0]
        off = np.asarray(c.get_offsets(), float)
        m.close(off, pts[:, :2], "gradient-points",
                "not all points are shown at their winds")
        lo, hi = pts[:, 2].min(), pts[:, 2].max()
        a, b = (np.array(to_rgba(x)) for x in colors)
        want = np.array([a + (b - a) * (0 if hi == lo else (z - lo) / (
            hi - lo)) for z in pts[:, 2]])
        face = np.asarray(c.get_facecolor())
        if len(face) == 1:
            face = np.repeat(face, len(pts), axis=0)
        m.close(face, want, "gradient-colors",
                "not the colour of the point's speed", atol=1e-6)
        m.event("points read back", len(pts))
        if legend and len(pts) > 2:
            m.equal(len(fig.axes), 2, "gradient-colorbar")
    finally:
        plt.close("all")


@check.case(quick=40, thorough=500, budget=30_000_000)
def space(m):
    rng = m.rng
    pd = diagram(rng, ("table", "cloud", "curve", "multi"))
    wind = None
    if not isinstance(pd, PolarDiagramPointcloud) and gen.chance(rng, 0.4):
        k = int(rng.integers(1, 5))
        wind = np.column_stack([np.round(rng.uniform(4, 20, k), 2),
                                np.round(rng.uniform(0, 360, k), 2)])
        if gen.chance(rng, 0.5):
            wind = (wind[:, 0], wind[:, 1])
    pts = np.array(pd.get_points(wind), float)
    colors = gen.pick(rng, [("green", "red"), ("k", "w")])
    m.given(diagram=repr(pd)[:300])
    before = snapshot(pd)
    x = pts[:, 2] * np.sin(np.radians(pts[:, 1]))
    y = pts[:, 2] * np.cos(np.radians(pts[:, 1]))
    want = np.array(sorted(zip(x, y, pts[:, 0])))
    try:
        ax = plt.figure().add_subplot(projection="hro 3d")
        kw = {} if wind is None else {"wind": wind}
        ax.scatter(pd, colors=colors, **kw)
        m.event("3d scatter")
        m.equal(snapshot(pd), before, "3d-diagram-unchanged")
        m.equal(len(ax.collections), 1, "3d-one-cloud")
        off = np.array([np.ma.filled(np.ma.asarray(v, float), np.nan)
                        for v in ax.collections[0]._offsets3d]).T
        got = np.array(sorted(map(tuple, off)))
        m.equal(got.shape, want.shape, "3d-count")
        m.close(got[:, [0, 2]].sum(axis=0), want[:, [0, 2]].sum(axis=0),
                "3d-points", rtol=1e-6, atol=1e-6)
        away = cKDTree(want).query(got)[0]
        m.ok(away.max() < 1e-6, "3d-points",
             "a point that is none of the diagram's",
             point=got[int(away.argmax())])
        away = cKDTree(got).query(want)[0]
        m.ok(away.max() < 1e-6, "3d-all-points",
             "a point of the diagram is missing",
             point=want[int(away.argmax())])
        m.event("points read back", len(pts))
        z = np.ma.filled(np.ma.asarray(
            ax.collections[0].get_array(), float), np.nan)
        m.close(np.sort(z), np.sort(pts[:, 0]), "3d-colors",
                "coloured by something else than the wind speed")
    finally:
        plt.close("all")


@check.case(quick=25, thorough=300, budget=30_000_000)
def surface(m):
    rng = m.rng
    pd = gen.smooth_table(rng, n_ws=int(rng.integers(3, 7)),
                          n_wa=int(rng.integers(8, 16)))
    pts = np.array(pd.get_points(), float)
    m.given(diagram=repr(pd)[:300])
    before = snapshot(pd)
    want = np.column_stack([pts[:, 2] * np.sin(np.radians(pts[:, 1])),
                            pts[:, 2] * np.cos(np.radians(pts[:, 1])),
                            pts[:, 0]])
    try:
        ax = plt.figure().add_subplot(projection="hro 3d")
        gen.pick(rng, [ax.plot, ax.plot_surface])(pd)
        m.event("surfaces")
        m.equal(snapshot(pd), before, "surface-diagram-unchanged")
        m.ok(len(ax.collections) >= 1, "surface-drawn")
        vec = getattr(ax.collections[0], "_vec", None)
        if vec is not None:
            corners = np.asarray(vec)[:3].T
            away = cKDTree(want).query(corners)[0]
            m.ok(away.max() < 1e-6, "surface-points",
                 "a corner that is no point of the diagram",
                 point=corners[int(away.argmax())])
            m.event("corners", np.asarray(vec).shape[1])
    finally:
        plt.close("all")


def artists(fig):
    """everything that is drawn, as numbers"""
    out = []
    for ax in fig.axes:
        got = [type(ax).__name__]
        for x in ax.lines:
            got.append((np.asarray(x.get_xdata(), float).tolist(),
                        np.asarray(x.get_ydata(), float).tolist(),
                        to_rgba(x.get_color()), x.get_linewidth(),
                        x.get_marker(), x.get_linestyle()))
        for c in ax.collections:
            off = getattr(c, "_offsets3d", None)
            vec = getattr(c, "_vec", None)
            for x in off if off is not None else [c.get_offsets()]:
                got.append(np.ma.filled(np.ma.asarray(x, float),
                                        np.nan).tolist())
            if vec is not None:
                got.append(np.asarray(vec, float).tolist())
            got.append(np.asarray(c.get_facecolor(), float).tolist())
        legend = ax.get_legend()
        got.append(legend and [t.get_text() for t in legend.get_texts()])
        got += [ax.get_xlabel(), ax.get_ylabel(), getattr(
            ax, "get_zlabel", str)()]
        out.append(got)
    return out


SHORT = [("plot_polar", "hro polar", "plot"),
         ("scatter_polar", "hro polar", "scatter"),
         ("plot_flat", "hro flat", "plot"),
         ("scatter_flat", "hro flat", "scatter"),
         ("plot_color_gradient", "hro color gradient", "plot"),
         ("plot_3d", "hro 3d", "plot"), ("scatter_3d", "hro 3d", "scatter")]


@check.case(quick=70, thorough=700, budget=40_000_000)
def short_ways(m):
    """the plot functions draw what the axes' methods draw"""
    rng = m.rng
    name, proj, method = SHORT[m.index % len(SHORT)]
    if name == "plot_3d":
        pd = gen.smooth_table(rng, n_ws=int(rng.integers(3, 6)), n_wa=10)
    else:
        pd = diagram(rng)
    kw = {}
    if proj in ("hro polar", "hro flat"):
        if gen.chance(rng, 0.6):
            kw["ws"] = wind_speeds(rng, pd)
        if gen.chance(rng, 0.5):
            kw["colors"] = gen.pick(rng, [("k", "r"), "blue"])
        if gen.chance(rng, 0.3):
            kw["show_legend"] = True
        if gen.chance(rng, 0.3):
            kw["lw" if method == "plot" else "alpha"] = 0.5
        if gen.chance(rng, 0.2) and method == "plot":
            kw["use_convex_hull"] = True
    elif gen.chance(rng, 0.5):
        kw["colors"] = gen.pick(rng, [("k", "w"), ("b", "r")])
    m.given(diagram=repr(pd)[:300], function=name, options=repr(kw))

    def result(f):
        fig = plt.figure()
        try:
            f(fig)
        except Exception as e:  # noqa: BLE001 - has to be the same one
            return f"{type(e).__name__}: {e}"
        return artists(fig)

    before = snapshot(pd)
    try:
        want = result(lambda fig: getattr(fig.add_subplot(
            projection=proj), method)(pd, **kw))
        got = result(lambda fig: getattr(hplt, name)(pd, **kw))
        m.equal(snapshot(pd), before, "short-diagram-unchanged")
        m.equal(got, want, "short-way", f"{name} draws something else")
        m.event("short ways")
        if not isinstance(want, str):
            m.ok(want and len(want[0]) > 5, "short-way-draws", name)
            m.event("short ways with artists")
    finally:
        plt.close("all")


@check.case(quick=30, thorough=300)
def ordinary_data(m):
    """what is no polar diagram is plotted as matplotlib does"""
    rng = m.rng
    n = int(rng.integers(1, 9))
    x, y = rng.uniform(0, 6, n), rng.uniform(0, 9, n)
    kind = gen.pick(rng, ["polar", "flat"])
    m.given(x=x, y=y, kind=kind)
    try:
        ax = plt.figure().add_subplot(projection=f"hro {kind}")
        ax.plot(x, y, color="k", lw=2)
        ax.scatter(x, y, color="r")
        m.event("ordinary plots", 2)
        m.equal(len(ax.lines), 1, "ordinary-line")
        m.close(ax.lines[0].get_xdata(), x, "ordinary-line")
        m.close(ax.lines[0].get_ydata(), y, "ordinary-line")
        m.close(np.asarray(ax.collections[0].get_offsets(), float),
                np.column_stack([x, y]), "ordinary-points")
    finally:
        plt.close("all")
