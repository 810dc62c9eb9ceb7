"""C23: voyage times and costs add up along the route."""
import math
from datetime import datetime, timedelta

import numpy as np

from hrosailing.cruising import cost_cruise, cruise, isochrone
from hrosailing.models import InfluenceModel, WeatherModel
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails
from hrv import Check, gen

check = Check(
    "C23",
    "Voyages of metres to hundreds of miles in all directions are computed "
    "for constant, varying, missing and calm weather; the weather model, the "
    "diagram and the cost functions record what they are asked, and times, "
    "costs and positions are compared with an ellipsoidal distance formula, "
    "the rhumb line and an independent integration of the way.",
    ["single legs that do not cross the antimeridian, away from the poles",
     "wind angles are measured as HDT minus the direction the wind comes "
     "from, GRIB components point where the wind blows to"],
)

START = datetime(2024, 2, 29, 22, 30, 17, 654321)


# -- independent navigation

def vincenty(p, q):
    """ellipsoidal distance in nautical miles of (lat, lon)"""
    a, f = 6378137.0, 1 / 298.257223563
    b = a * (1 - f)
    u1 = math.atan((1 - f) * math.tan(math.radians(p[0])))
    u2 = math.atan((1 - f) * math.tan(math.radians(q[0])))
    big_l = lam = math.radians(q[1] - p[1])
    for _ in range(200):
        ss = math.hypot(math.cos(u2) * math.sin(lam),
                        math.cos(u1) * math.sin(u2) - math.sin(u1)
                        * math.cos(u2) * math.cos(lam))
        if ss == 0:
            return 0.0
        cs = math.sin(u1) * math.sin(u2) + \
            math.cos(u1) * math.cos(u2) * math.cos(lam)
        sigma = math.atan2(ss, cs)
        sa = math.cos(u1) * math.cos(u2) * math.sin(lam) / ss
        c2 = 1 - sa * sa
        cm = cs - 2 * math.sin(u1) * math.sin(u2) / c2 if c2 else 0.0
        c = f / 16 * c2 * (4 + f * (4 - 3 * c2))
        new = big_l + (1 - c) * f * sa * (
            sigma + c * ss * (cm + c * cs * (2 * cm * cm - 1)))
        done = abs(new - lam) < 1e-13
        lam = new
        if done:
            break
    us = c2 * (a * a - b * b) / (b * b)
    k1 = 1 + us / 16384 * (4096 + us * (-768 + us * (320 - 175 * us)))
    k2 = us / 1024 * (256 + us * (-128 + us * (74 - 47 * us)))
    ds = k2 * ss * (cm + k2 / 4 * (
        cs * (2 * cm * cm - 1) - k2 / 6 * cm * (4 * ss * ss - 3)
        * (4 * cm * cm - 3)))
    return b * k1 * (sigma - ds) / 1852


def haversine(p, q):
    """spherical distance in nautical miles"""
    a, b = math.radians(p[0]), math.radians(q[0])
    dl = math.radians(q[1] - p[1])
    h = math.sin((b - a) / 2) ** 2 + \
        math.cos(a) * math.cos(b) * math.sin(dl / 2) ** 2
    return 60 * math.degrees(2 * math.atan2(math.sqrt(h), math.sqrt(1 - h)))


def bearing(p, q):
    """initial great circle course"""
    a, b = math.radians(p[0]), math.radians(q[0])
    dl = math.radians(q[1] - p[1])
    return math.degrees(math.atan2(
        math.sin(dl) * math.cos(b),
        math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(dl)
    )) % 360


def psi(lat):
    return math.degrees(math.asinh(math.tan(math.radians(lat))))


def rhumb(p, q):
    """course of the straight line on the Mercator map"""
    return math.degrees(math.atan2(q[1] - p[1], psi(q[0]) - psi(p[0]))) % 360


def beyond(p, course, miles):
    """(lat, lon) about so many miles away"""
    c = math.radians(course)
    lat = p[0] + miles / 60 * math.cos(c)
    mid = math.radians((p[0] + lat) / 2)
    return lat, p[1] + miles / 60 * math.sin(c) / math.cos(mid)


def a_leg(rng, longest):
    lat = float(gen.pick(rng, [0.0, rng.uniform(-60, 60),
                               rng.uniform(-60, 60)]))
    p = (lat, float(rng.uniform(-170, 170)))
    course = float(gen.pick(rng, [0, 90, 180, 270, rng.uniform(0, 360),
                                  rng.uniform(0, 360), rng.uniform(0, 360)]))
    miles = float(np.exp(rng.uniform(math.log(0.05), math.log(longest))))
    while abs(p[0] + miles / 60 * math.cos(math.radians(course))) > 70:
        miles /= 2
    return p, beyond(p, course, miles), course, miles


# -- recording stand-ins for what the caller provides

class Sea(WeatherModel):
    """Weather given by a function of hours, lat, lon; records queries."""

    def __init__(self, at, style, limit=None):
        self.at, self.style, self.limit = at, style, limit
        self.error = ValueError("no weather there")
        self.asked = []
        self.handed = []

    def get_weather(self, point):
        time, lat, lon = point
        hours = (time - START).total_seconds() / 3600
        self.asked.append((hours, float(lat), float(lon)))
        if self.limit is not None and self.limit(hours, lat, lon):
            raise self.error
        ws, frm = self.at(hours, float(lat), float(lon))
        if self.style == "tw":
            data = {"TWS": ws, "TWA": frm, "waves": 2.5}
        else:
            data = {"UGRID": -ws * math.sin(math.radians(frm)),
                    "VGRID": -ws * math.cos(math.radians(frm)), "waves": 2.5}
        self.handed.append((data, dict(data)))
        return data


class Boat:
    """Records the winds a diagram is asked for."""

    def __init__(self, pd):
        self.pd = pd
        self.asked = []

    def __call__(self, ws, wa):
        v = self.pd(ws, wa)
        self.asked.append((float(ws), float(wa), float(v)))
        return v


class CurveBoat(PolarDiagramCurve):
    """The same for curves, which are called in their own unit."""

    def __init__(self, pd):
        super().__init__(pd.curve, *pd.parameters, radians=pd.radians)
        self.asked = []

    def __call__(self, ws, wa):
        v = super().__call__(ws, wa)
        self.asked.append((float(ws), float(
            np.rad2deg(wa) if self.radians else wa), float(v)))
        return v


class Drift:
    """always the same speed"""

    def __init__(self, v):
        self.v = v

    def __call__(self, ws, wa):
        return self.v

    def __repr__(self):
        return f"Drift({self.v})"


def watched(pd):
    return CurveBoat(pd) if isinstance(pd, PolarDiagramCurve) else Boat(pd)


class Waves(InfluenceModel):
    def __init__(self):
        super().__init__()
        self.seen = []

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        self.seen.append({k: list(v) for k, v in influence_data.items()})
        return [pd(ws, np.deg2rad(wa) if getattr(pd, "radians", False)
                   else wa) / w for ws, wa, w in zip(
            influence_data["TWS"], influence_data["TWA"],
            influence_data["waves"])]


def parts_of(pd, ws):
    pds = pd.diagrams if isinstance(pd, PolarDiagramMultiSails) else [pd]
    return [p.ws_to_slices([ws])[0] for p in pds]


def fastest(parts, direction):
    wa = np.concatenate([s[1] for s in parts])
    b = np.concatenate([s[2] for s in parts])
    z = b * np.exp(1j * np.deg2rad((wa - direction) % 360))
    best = 0.0
    up, down = z[z.imag >= 0], z[z.imag <= 0]
    for p in up:
        t = p.imag / np.where(p.imag == down.imag, np.inf, p.imag - down.imag)
        best = max(best, float(np.max(p.real + t * (down.real - p.real),
                                      initial=0.0)))
        if p.imag == 0:
            best = max(best, p.real)
    return best


@check.case(quick=250, thorough=4000)
def cruises(m):
    rng = m.rng
    pd = gen.pick(rng, [gen.smooth_table, gen.table, gen.lobed_curve,
                        gen.lobed_curve])(rng)
    if gen.chance(rng, 0.25):
        pd = PolarDiagramMultiSails([pd, gen.smooth_table(rng)])
    p, q, _, _ = a_leg(rng, 2000)
    ws = float(rng.uniform(2, 30))
    frm = float(gen.pick(rng, [0, 90, 180, 270, rng.uniform(0, 360),
                               rng.uniform(0, 360)]))
    hdt = float(rng.uniform(0, 360))
    im = Waves() if gen.chance(rng, 0.3) else None
    waves = float(rng.uniform(0.5, 3))
    m.given(pd=repr(pd)[:1200], start=p, end=q, ws=ws, wind_from=frm,
            waves=waves if im else None, salt=float(rng.random()))
    parts = parts_of(pd, ws)
    if im:
        parts = [np.array([s[0], s[1], [gen.at(pd, w, a) / waves for w, a in
                                        zip(s[0], s[1])]]) for s in parts]
    heading = (bearing(p, q) - frm) % 360
    best = fastest(parts, heading)
    top = max(float(s[2].max()) for s in parts)
    dist = vincenty(p, q)
    turn = [float(gen.pick(rng, [0, 0, 0, -360, 360])) for _ in range(3)]
    winds = {
        "ws_wan": (ws, frm + turn[0]),
        # wind angles from port and starboard as well as all around
        "ws_wa_hdt": (ws, (hdt - frm) % 360 + turn[1], hdt + turn[2]),
        "uv_grd": (-ws * math.sin(math.radians(frm)),
                   -ws * math.cos(math.radians(frm))),
    }
    given = {"waves": waves}
    form = gen.pick(rng, [tuple, list, np.array])
    totals = []
    for fmt, wind in winds.items():
        try:
            got = cruise(pd, form(p[::-1]), form(q[::-1]), wind, wind_fmt=fmt,
                         im=im, influence_data=given if im else None)
        except ValueError:
            m.ok(best <= 1e-6 * top, "reachable-goal-refused", fmt)
            m.event("refused")
            continue
        m.equal(given, {"waves": waves}, "influence-data-unchanged")
        m.ok(best > 0, "unreachable-goal-accepted", fmt)
        m.ok(1 <= len(got) <= 2, "one-or-two-directions")
        m.ok(all(t >= 0 for _, t in got), "times-not-negative", f"{got}")
        total = sum(t for _, t in got)
        if best > 1e-4 * top:
            m.close(total, dist / best, "time-is-distance-by-speed",
                    f"{fmt}: {dist} nm at {best} kn", rtol=5e-5, atol=1e-9)
            totals.append(total)
        if len(got) == 1:
            m.close_angle(got[0][0], heading, "single-heading-is-requested",
                          fmt, atol=1e-6)
            continue
        v = 0
        for a, t in got:
            b = [s[2][i] for s in parts for i in range(len(s[1]))
                 if s[1][i] == a]
            m.ok(b, "heading-of-the-slice", f"{a}")
            v += t * max(b) * np.exp(1j * np.deg2rad(a - heading))
        m.ok(abs(v.imag) <= 1e-3 * dist + 1e-6 * total * top,
             "arrives-at-goal", f"{fmt}: ends {v} for {dist} nm")
        m.event("two headings")
    if len(totals) == 3:
        m.close(totals, [totals[0]] * 3, "wind-formats-agree", rtol=1e-5)
    m.event("voyage", len(totals))
    m.raises(AttributeError, lambda: cruise(
        pd, p[::-1], q[::-1], (ws, frm), wind_fmt="ws_wa"), "bad-format")


def judge_weather(m, sea, boat, p, q, course, hours, im=None, atol=1e-7,
                  nodes=100):
    """only places on the leg, only times of the voyage"""
    m.ok(sea.asked, "weather-asked")
    dlat, dlon = abs(q[0] - p[0]), abs(q[1] - p[1])
    tol = atol + 1e-6 * (dlat + dlon)
    for h, lat, lon in sea.asked:
        m.ok(min(p[0], q[0]) - tol <= lat <= max(p[0], q[0]) + tol and
             min(p[1], q[1]) - tol <= lon <= max(p[1], q[1]) + tol,
             "weather-of-the-leg", f"asked for {(lat, lon)}")
        if dlat > 1e-4 and dlon > 1e-4:
            f = (psi(lat) - psi(p[0])) / (psi(q[0]) - psi(p[0]))
            m.ok(abs(p[1] + f * (q[1] - p[1]) - lon) <= 1e-3 * dlon + tol,
                 "weather-of-the-leg", f"{(lat, lon)} is beside the leg")
        m.ok(-1e-6 <= h <= hours * (1 + 1e-6) + 1e-6,
             "weather-of-the-voyage", f"asked after {h} of {hours} hours")
    m.ok(max(a[0] for a in sea.asked) >= (0.9 - 1.5 / nodes) * hours - 1e-6,
         "weather-of-the-whole-voyage", f"of {hours} hours")
    for data, was in sea.handed:
        m.equal(data, was, "weather-unchanged")
    if im is not None:
        for seen in im.seen:
            m.close_angle(seen["HDT"][0], course, "heading-given",
                          atol=1e-4)
            m.equal(seen["waves"], [2.5], "influence-gets-weather")
    m.event("weather query", len(sea.asked))


@check.case(quick=200, thorough=3000)
def constant_weather(m):
    rng = m.rng
    p, q, _, _ = a_leg(rng, 60)
    course = rhumb(p, q)
    pd = gen.pick(rng, [gen.lobed_curve, gen.smooth_table])(rng)
    if gen.chance(rng, 0.2):  # for weeks
        pd = Drift(float(rng.uniform(0.06, 0.4)))
    ws = float(rng.uniform(3, 30))
    frm = float(rng.uniform(0, 360))
    style = gen.pick(rng, ["uv", "uv", "tw"])
    im = Waves() if gen.chance(rng, 0.3) else None
    c = [float(x) for x in rng.uniform(0, 3, 3)]
    m.given(pd=repr(pd)[:800], start=p, end=q, ws=ws, wind_from=frm,
            style=style, im=im is not None, costs=c)
    sea, boat = Sea(lambda *_: (ws, frm), style), watched(pd)
    told = []
    total = float(cost_cruise(boat, p, q, START, sea, im=im,
                        cost_fun_abs=lambda t, s: told.append((t, s)) or t))
    m.equal(len(told), 1, "absolute-cost-asked-once")
    t, s = (float(x) for x in told[0])
    m.equal(total, t, "absolute-cost-returned")
    m.close(s, haversine(p, q), "distance-of-the-leg", rtol=5e-3, atol=1e-9)
    want = frm if style == "tw" else (course - frm) % 360
    for w, a, _ in boat.asked:
        m.close(w, ws, "wind-on-the-way", rtol=1e-9)
        m.close_angle(a, want, "wind-on-the-way", "angle", atol=2e-4)
    v = boat.asked[0][2] / (2.5 if im else 1)
    if v < 0.05:
        m.event("hardly moving")
        return
    m.close(t, s / v, "time-is-distance-by-speed", rtol=1e-4)
    judge_weather(m, sea, boat, p, q, course, t, im)
    # default absolute cost is the time
    m.close(float(cost_cruise(pd, p, q, START, sea, im=im)), t,
            "default-cost-is-time", rtol=1e-9)
    # cost density, linear along the way: exact by trapezoids
    sea2 = Sea(lambda *_: (ws, frm), style)
    calls = []

    def dens(time, lat, lon, wm):
        m.ok(wm is sea2, "density-gets-weather")
        h = (time - START).total_seconds() / 3600
        calls.append((h, float(lat), float(lon)))
        return c[0] + c[1] * h + c[2] * (float(lon) - p[1])

    cost = float(cost_cruise(
        pd, p, q, START, sea2, im=im, cost_fun_dens=dens,
        cost_fun_abs=lambda t, s: 7 * t + s))
    integral = s * (c[0] + c[1] * t / 2 + c[2] * (q[1] - p[1]) / 2)
    m.close(cost, 7 * t + s + integral, "costs-integrate-density", rtol=1e-4)
    m.close(calls[0], (0.0, *p), "density-from-start", atol=1e-6)
    m.close(calls[-1], (t, *q), "density-to-end", atol=1e-5, rtol=1e-6)
    m.ok(all(a[0] <= b[0] + 1e-9 for a, b in zip(calls, calls[1:])),
         "density-in-order")
    m.event("density query", len(calls))
    # finer steps and a rule of the caller
    seen = []

    def rule(y, x):
        seen.append((np.asarray(y, float), np.asarray(x, float)))
        return 42.0

    cost = float(cost_cruise(
        pd, p, q, START, sea2, im=im, cost_fun_dens=dens,
        cost_fun_abs=lambda t, s: -s, integration_method=rule,
        max_step=s / 7))
    m.close(cost, 42 - s, "integration-of-the-caller", rtol=1e-9)
    y, x = seen[0]
    m.ok(len(x) >= 8 and len(x) == len(y), "integration-nodes")
    m.close([x[0], x[-1]], [0, s], "integration-nodes", rtol=1e-9)
    m.close(y, c[0] + x * (c[1] / v + c[2] * (q[1] - p[1]) / s),
            "integration-values", rtol=1e-4, atol=1e-6)


def follow(p, course, way, speed_at, n=600):
    """hours to sail `way` miles from p (independent integration, RK4)"""
    scale = 60 * math.cos(math.radians(way[1]))
    e, nn = math.sin(math.radians(course)), math.cos(math.radians(course))

    def der(s, t):
        lon = p[1] + s * e / scale
        lat = math.degrees(math.atan(math.sinh(math.radians(
            psi(p[0]) + s * nn / scale))))
        return 1 / speed_at(t, lat, lon)

    h, t = way[0] / n, 0.0
    ts = [0.0]
    for i in range(n):
        s = i * h
        k1 = der(s, t)
        k2 = der(s + h / 2, t + h / 2 * k1)
        k3 = der(s + h / 2, t + h / 2 * k2)
        k4 = der(s + h, t + h * k3)
        t += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        ts.append(t)
    return ts


@check.case(quick=40, thorough=600)
def varying_weather(m):
    rng = m.rng
    p, q, _, _ = a_leg(rng, 50)
    course = rhumb(p, q)
    k = float(rng.uniform(0.5, 3))
    a0 = float(rng.uniform(6, 20))
    a = [float(x) for x in rng.uniform(-1, 1, 3)]
    frm = float(rng.uniform(0, 360))
    m.given(start=p, end=q, k=k, a0=a0, a=a, wind_from=frm)
    miles = haversine(p, q)
    span = 60 / max(miles, 1)

    def wind(h, lat, lon):
        return a0 * (1 + 0.3 * a[0] * math.sin(h) + 0.3 * a[1]
                     * math.sin(span * (lat - p[0])) + 0.3 * a[2]
                     * math.sin(span * (lon - p[1]))), frm

    def pd(ws, wa):
        return k * math.sqrt(ws)

    def speed(h, lat, lon):
        return pd(*wind(h, lat, lon))

    sea = Sea(wind, "uv")
    told = []
    cost_cruise(pd, p, q, START, sea, rtol=1e-7, atol=1e-9,
                cost_fun_abs=lambda t, s: told.append((t, s)) or 0)
    t, s = (float(x) for x in told[0])
    want = follow(p, course, (s, (p[0] + q[0]) / 2), speed)
    m.close(t, want[-1], "time-integrates-slowness", rtol=1e-4)
    judge_weather(m, sea, None, p, q, course, t * 1.01)
    # the reached position after some hours
    hours = float(rng.uniform(0.2, 6))
    nodes = int(gen.pick(rng, [100, 50, 200, 400]))
    sea = Sea(wind, "uv")
    end, s = isochrone(pd, p, START, course, sea, total_time=hours,
                       min_nodes=nodes)
    s = float(s)
    want = follow(p, course, (s, p[0]), speed)
    m.close(want[-1], hours, "way-takes-the-time", rtol=3 / nodes + 1e-3,
            atol=1e-6)
    m.ok(len(sea.asked) >= nodes, "at-least-min-nodes")
    m.event("weather query", len(sea.asked))


@check.case(quick=150, thorough=2500, budget=6_000_000)
def reached(m):
    rng = m.rng
    p, _, course, _ = a_leg(rng, 40)
    pd = gen.pick(rng, [gen.lobed_curve, gen.smooth_table])(rng)
    ws = float(rng.uniform(3, 30))
    frm = float(rng.uniform(0, 360))
    style = gen.pick(rng, ["uv", "uv", "tw"])
    im = Waves() if gen.chance(rng, 0.3) else None
    wa = frm if style == "tw" else (course - frm) % 360
    v = float(gen.at(pd, ws, wa)) / (2.5 if im else 1)
    if v < 0.05:
        m.event("hardly moving")
        return
    hours = float(gen.pick(rng, [1, rng.uniform(0.1, 40 / v),
                                 rng.uniform(0.1, 40 / v)]))
    hours = min(hours, 40 / v)
    nodes = int(gen.pick(rng, [100, 1, 7, 100, 300]))
    m.given(pd=repr(pd)[:800], start=p, course=course, ws=ws, wind_from=frm,
            hours=hours, nodes=nodes, style=style, im=im is not None)
    sea, boat = Sea(lambda *_: (ws, frm), style), watched(pd)
    end, s = isochrone(boat, form_of(rng, p), START, course, sea, im=im,
                       total_time=hours, min_nodes=nodes)
    s = float(s)
    end = tuple(float(x) for x in end)
    v = boat.asked[0][2] / (2.5 if im else 1)
    for w, a, _ in boat.asked:
        m.close(w, ws, "wind-on-the-way", rtol=1e-9)
        m.close_angle(a, wa, "wind-on-the-way", "angle", atol=1e-6)
    m.close(s, v * hours, "way-is-speed-by-time", rtol=1e-7)
    # the map is true to scale on the parallel of the start only
    north, east = (np.abs(np.radians(np.subtract(end, p))))
    steep = np.tan(np.radians(max(abs(p[0]), abs(end[0]))))
    m.close(haversine(p, end), s, "reached-at-that-distance",
            rtol=min(2e-2, 1e-4 + north * (steep + north) + east ** 2 / 20),
            atol=1e-6)
    m.close_angle(rhumb(p, end), course, "reached-in-direction", atol=1e-3)
    m.ok(len(sea.asked) >= nodes, "at-least-min-nodes")
    last = beyond(p, course, s * 1.03 + 1e-6)
    h = max(a[0] for a in sea.asked)
    m.ok(h <= hours + 1e-6, "weather-of-the-voyage",
         f"asked after {h} of {hours}")
    judge_weather(m, sea, boat, p, last, course, hours, im,
                  atol=1e-7 + s / 60 * 0.01, nodes=nodes)
    # and the other way round
    t = float(cost_cruise(pd, p, end, START, sea, im=im))
    m.close(t, hours, "inverse-to-each-other", rtol=2e-2, atol=1e-6)
    m.event("inverted")


def form_of(rng, p):
    return gen.pick(rng, [tuple, list, np.array])(p)


@check.case(quick=60, thorough=800)
def splits_and_equal_places(m):
    rng = m.rng
    p, q, course, miles = a_leg(rng, 60)
    f = float(rng.uniform(0.05, 0.95))
    # a place on the same straight line of the map
    y = psi(p[0]) + f * (psi(q[0]) - psi(p[0]))
    mid = (math.degrees(math.atan(math.sinh(math.radians(y)))),
           p[1] + f * (q[1] - p[1]))
    ws, frm = float(rng.uniform(3, 30)), float(rng.uniform(0, 360))
    pd = gen.lobed_curve(rng)
    m.given(start=p, mid=mid, end=q, ws=ws, wind_from=frm,
            pd=repr(pd)[:300])
    sea = Sea(lambda *_: (ws, frm), "uv")

    def leg(a, b, t0=START):
        return float(cost_cruise(
            pd, a, b, t0, sea, cost_fun_dens=lambda t, la, lo, w: 2.0 + 0.1
            * (t - START).total_seconds() / 3600))

    if gen.at(pd, ws, (course - frm) % 360) < 0.05:
        m.event("hardly moving")
        return
    whole = float(cost_cruise(pd, p, q, START, sea))
    one = float(cost_cruise(pd, p, mid, START, sea))
    two = float(cost_cruise(pd, mid, q, START, sea))
    m.close(one + two, whole, "legs-add-up", rtol=5e-3)
    m.close(one, f * whole, "fraction-of-the-way", rtol=2e-2)
    a, b = leg(p, mid), leg(mid, q, START + timedelta(hours=one))
    m.close(a + b, leg(p, q), "costs-add-up", rtol=1e-2)
    # nowhere to go
    m.close(float(cost_cruise(pd, p, p, START, sea)), 0.0,
            "nowhere-takes-no-time")
    m.close(leg(p, p), 0.0, "nowhere-takes-no-time", "with density")
    m.close(sum(t for _, t in cruise(pd, p[::-1], p[::-1], (ws, frm))), 0.0,
            "nowhere-takes-no-time", "cruise") \
        if gen.at(pd, ws, (-frm) % 360) > 0.1 else None
    end, s = isochrone(pd, p, START, course, sea, total_time=0)
    m.close([*end, s], [*p, 0.0], "no-time-leads-nowhere", atol=1e-9)
    m.event("split")


@check.case(quick=60, thorough=800, budget=4_000_000)
def calm_and_no_weather(m):
    rng = m.rng
    p, q, course, miles = a_leg(rng, 40)
    hours = float(rng.uniform(0.1, 10))
    nodes = int(gen.pick(rng, [100, 10, 30]))
    v = float(rng.uniform(1, 12))
    mode = int(rng.integers(4))
    stop = float(rng.uniform(0.1, 0.9))
    m.given(start=p, end=q, hours=hours, nodes=nodes, mode=mode, v=v,
            stop=stop)
    course = rhumb(p, q)
    free = float(cost_cruise(lambda ws, wa: v, p, q, START,
                             Sea(lambda *_: (10, 0), "uv")))
    if mode == 0:  # becalmed
        sea, boat = Sea(lambda *_: (10.0, 0.0), "uv"), lambda ws, wa: 0.0
    elif mode == 1:  # no weather at all
        sea = Sea(lambda *_: (10.0, 0.0), "uv", lambda *_: True)
        boat = lambda ws, wa: v  # noqa: E731
    elif mode == 2:  # weather ends on the way
        h = stop * min(free, hours)
        sea = Sea(lambda *_: (10.0, 0.0), "uv", lambda t, *_: t > h)
        boat = lambda ws, wa: v  # noqa: E731
    else:  # wind dies on the way
        h = stop * min(free, hours)
        sea = Sea(lambda t, *_: (10.0 if t <= h else 0.0, 0.0), "uv")
        boat = lambda ws, wa: v if ws > 1 else 0.0  # noqa: E731
    if mode in (1, 2):  # failures other than missing weather are passed on
        sea.error = gen.pick(rng, [KeyError, TypeError, RuntimeError,
                                   ZeroDivisionError, IndexError])("broken")
        m.raises(type(sea.error), lambda: cost_cruise(boat, p, q, START, sea),
                 "failure-passed-on", str(sea.error))
        if mode == 1 or h < 0.9 * hours:
            m.raises(type(sea.error), lambda: isochrone(
                boat, p, START, course, sea, total_time=hours,
                min_nodes=nodes), "failure-passed-on", str(sea.error))
        sea.error = ValueError("no weather there")
        sea.asked.clear()
    t = float(cost_cruise(boat, p, q, START, sea))
    n = len(sea.asked)
    m.ok(n <= 20_000, "bounded-work", f"{n} weather queries")
    m.ok(t >= free * (1 - 1e-2), "never-quicker-without-wind",
         f"{t} hours instead of {free}")
    if mode < 2:
        m.ok(t >= 20 * free, "standing-still-is-slow", f"{t} for {free}")
    sea.asked.clear()
    end, s = isochrone(boat, p, START, course, sea, total_time=hours,
                       min_nodes=nodes)
    m.ok(np.isfinite(s) and s >= 0 and np.all(np.isfinite(end)),
         "reached-somewhere", f"{end} {s}")
    limit = (h if mode > 1 else 0) * v * (1 + 4 / nodes) + \
        0.01 * hours + 4 * 5 * hours / nodes
    if mode < 2:
        limit = 0.01 * hours
    m.ok(s <= limit, "standing-still-gets-nowhere", f"{s} > {limit}")
    m.ok(len(sea.asked) <= 60_000, "bounded-work",
         f"{len(sea.asked)} weather queries")
    m.event("stopped", 1)
    m.event("weather query", n + len(sea.asked))


