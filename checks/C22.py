"""C22: recommended sailing directions lead where they should, fastest."""
import numpy as np

from hrosailing.cruising import Direction, convex_direction
from hrosailing.models import InfluenceModel
from hrosailing.polardiagram import (
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrv import Check, gen

check = Check(
    "C22",
    "Random, concave, one-sided and degenerate tables, clouds, curves and "
    "multi-sail diagrams are asked for directions on, between and away from "
    "their headings (also outside [0, 360)), with and without influence "
    "models; every answer is compared with the best single heading or pair "
    "found by brute force over the slice.",
    ["between neighbouring headings of a slice the speed is taken along the "
     "straight edge, as documented for the convex hull"],
)


def brute(wa, b, direction):
    """fastest speed towards the direction by one or two headings"""
    rel = np.deg2rad((np.asarray(wa) - direction) % 360)
    z = np.asarray(b) * np.exp(1j * rel)
    on = np.asarray([(w - direction) % 360 == 0 for w in wa])
    best = float(max(np.asarray(b)[on], default=0.0))
    up, down = z[(z.imag > 0) & ~on], z[(z.imag < 0) & ~on]
    for p in up:
        if len(down):
            # real part where the segment from p to q crosses the real axis
            t = p.imag / (p.imag - down.imag)
            best = max(best, float(np.max(p.real + t * (down.real - p.real))))
    return best


def edge_speed(wa, b, direction):
    """speed of the slice's outline (of one sail) in the direction"""
    best = 0.0
    for w, s in zip(wa, b):
        if (w - direction) % 360 == 0:
            best = max(best, s)
    for i in range(len(wa) - 1):
        if abs(wa[i + 1] - wa[i]) <= 180:
            best = max(best, brute(wa[i:i + 2], b[i:i + 2], direction))
    return best


def parts_of(pd, ws):
    """[(sail, wa, bsp)] of the slice"""
    if isinstance(pd, PolarDiagramMultiSails):
        out = []
        for name, p in zip(pd.sails, pd.diagrams):
            s = p.ws_to_slices([ws])[0]
            out.append((name, s[0], s[1], s[2]))
        return out
    s = pd.ws_to_slices([ws])[0]
    return [(None, s[0], s[1], s[2])]


def diagram(rng):
    k = int(rng.integers(9))
    if k == 0:
        return gen.table(rng)
    if k == 1:
        return gen.smooth_table(rng)
    if k == 2:
        return gen.cloud(rng)
    if k == 3:
        return gen.lobed_curve(rng)
    if k == 4:  # concave dents and one-sided
        wa = np.sort(gen.wind_angles(rng, int(rng.integers(2, 9)),
                                     *gen.pick(rng, [(0, 181), (20, 170),
                                                     (0, 360), (180, 360)])))
        b = rng.choice([0.5, 1, 4, 8], (len(wa), 1))
        return PolarDiagramTable([float(rng.integers(1, 20))], wa, b)
    if k == 5:  # degenerate
        wa = gen.pick(rng, [[0], [180], [30, 210], [45, 45.001], [0, 180],
                            [90, 270], [0, 90, 180], [10, 350]])
        b = rng.choice([0.0, 0.0, 1.0, 5.0], (len(wa), 1)) \
            if gen.chance(rng, 0.3) else rng.uniform(1, 9, (len(wa), 1))
        return PolarDiagramTable([float(rng.integers(1, 20))], wa, b)
    if k == 6:
        n = int(rng.integers(1, 12))
        return PolarDiagramPointcloud(np.column_stack([
            np.full(n, 10.0), rng.choice(np.arange(0, 360, 15), n),
            rng.uniform(0, 9, n)]))
    if k == 7:
        return gen.multisails(rng, kinds=("table", "table", "cloud"))
    n = int(rng.integers(1, 4)) if gen.chance(rng, 0.7) else \
        int(rng.integers(4, 9))
    names = gen.sail_names(rng, n) if gen.chance(rng, 0.5) else None
    return PolarDiagramMultiSails(
        [gen.pick(rng, (gen.lobed_curve, gen.smooth_table, gen.table))(rng)
         for _ in range(n)], names)


class Scaled(InfluenceModel):
    """current along one axis and a factor given by the caller"""

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        f = influence_data["factor"]
        return [f * (gen.at(pd, ws, wa) + 0.01 * wa)
                for ws, wa in zip(influence_data["TWS"],
                                  influence_data["TWA"])]


def ask_direction(rng, wa):
    k = int(rng.integers(6))
    wa = np.asarray(wa, float)
    if k == 0:
        return float(gen.pick(rng, wa))
    if k == 1:
        return int(rng.integers(0, 360))
    if k == 2:
        return float(gen.pick(rng, [0.0, 180.0, 90.0, 359.999, 360.0, 1e-9]))
    if k == 3:  # between neighbours
        s = np.sort(wa)
        i = int(rng.integers(len(s)))
        lo, hi = s[i], s[(i + 1) % len(s)] + (360 if i + 1 == len(s) else 0)
        return float((lo + rng.uniform(0, 1) * (hi - lo)) % 360)
    if k == 4:
        return float(rng.uniform(-180, 540))
    return float(rng.uniform(0, 360))


def judge(m, got, parts, direction):
    wa = np.concatenate([p[2] for p in parts])
    b = np.concatenate([p[3] for p in parts])
    best = brute(wa, b, direction) if len(wa) else 0.0
    top = max(1e-300, float(b.max(initial=0)))
    if got is None:
        m.ok(best <= 1e-6 * top, "reachable-direction-refused",
             f"best speed {best}")
        m.event("refused")
        return
    m.ok(best > 0, "unreachable-direction-accepted", f"{got}")
    m.ok(isinstance(got, list) and 1 <= len(got) <= 2 and
         all(isinstance(d, Direction) for d in got), "one-or-two-directions")
    share = [d.proportion for d in got]
    m.ok(all(0 <= p <= 1 for p in share), "proportions-in-range",
         f"{share}")
    m.close(sum(share), 1.0, "proportions-add-up", rtol=1e-12)
    tol = 1e-6 * top
    names = [p[0] for p in parts]
    for d in got:
        m.ok(d.sail in names, "names-a-sail", f"{d.sail} of {names}")
        m.ok(f"{d.angle} to the wind" in str(d) and
             (not d.sail or d.sail in str(d)), "listing")
    if len(got) == 1:
        d = got[0]
        m.close_angle(d.angle, direction, "single-heading-is-requested",
                      atol=1e-9)
        speed = max(edge_speed(p[2], p[3], direction)
                    for p in parts if p[0] == d.sail)
        m.ok(speed >= best - tol, "fastest", f"{speed} instead of {best}")
        m.event("straight")
        return
    v = 0
    for d in got:
        b = [s for p in parts if p[0] == d.sail
             for w, s in zip(p[2], p[3]) if (w - d.angle) % 360 == 0]
        m.ok(b, "heading-of-the-slice", f"{d} is not in the slice")
        rel = np.deg2rad((d.angle - direction) % 360)
        v += d.proportion * max(b) * np.exp(1j * rel)
    m.ok(abs(v.imag) <= tol, "goes-in-requested-direction", f"{v}")
    m.ok(v.real >= best - tol, "fastest", f"{v.real} instead of {best}")
    m.event("two headings")
    m.state("spread", int(abs(got[0].angle - got[1].angle) // 20))


def ask(pd, ws, direction, **kw):
    try:
        return convex_direction(pd, ws, direction, **kw)
    except ValueError:
        return None


@check.case(quick=500, thorough=8000)
def recommended(m):
    rng = m.rng
    pd = diagram(rng)
    ws = float(rng.uniform(1, 30))
    if isinstance(pd, PolarDiagramTable):
        ws = float(gen.pick(rng, pd.wind_speeds)) if gen.chance(rng, 0.7) \
            else ws
    if isinstance(pd, PolarDiagramPointcloud):
        ws = float(gen.pick(rng, pd.points)[0])
    if gen.chance(rng, 0.2) and float(int(ws)) == ws and ws > 0:
        ws = int(ws)
    try:
        parts = parts_of(pd, ws)
    except ZeroDivisionError:  # no data near: the diagram itself gives up
        m.event("no-data-near")
        return
    wa = np.concatenate([p[2] for p in parts])
    dirs = [ask_direction(rng, wa) if len(wa) else 90.0 for _ in range(4)]
    m.given(pd=repr(pd)[:1500], ws=ws, directions=dirs,
            salt=float(rng.random()))
    for direction in dirs:
        got = ask(pd, ws, direction)
        judge(m, got, parts, direction)
        m.equal(ask(pd, ws, direction), got, "same-again")


@check.case(quick=120, thorough=2000)
def influenced(m):
    rng = m.rng
    pd = diagram(rng)
    while isinstance(pd, PolarDiagramPointcloud):
        pd = diagram(rng)
    ws = float(rng.uniform(1, 30))
    f = float(rng.uniform(0.2, 3))
    m.given(pd=repr(pd)[:1500], ws=ws, f=f, salt=float(rng.random()))
    model = Scaled()
    given = {"factor": f}
    try:
        parts = [(n, wss, wa, [f * (gen.at(pd, w, a) + 0.01 * a)
                               for w, a in zip(wss, wa)])
                 for n, wss, wa, _ in parts_of(pd, ws)]
    except ZeroDivisionError:
        m.event("no-data-near")
        return
    parts = [(n, w, np.asarray(a), np.asarray(b, float))
             for n, w, a, b in parts]
    wa = np.concatenate([p[2] for p in parts])
    if not len(wa):
        return
    direction = ask_direction(rng, wa)
    got = ask(pd, ws, direction, im=model, influence_data=given)
    judge(m, got, parts, direction)
    m.equal(given, {"factor": f}, "influence-data-unchanged")
    m.event("influenced")
