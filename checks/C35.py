"""C35: printed diagrams."""
import numpy as np

from hrosailing.polardiagram import (PolarDiagramCurve,
                                     PolarDiagramMultiSails,
                                     PolarDiagramPointcloud,
                                     PolarDiagramTable)
from hrv import Check, gen

check = Check(
    "C35",
    "Tables with few to hundreds of wind speeds and angles, clouds, curves "
    "and multi-sail diagrams are printed; the text is split into lines and "
    "entries and compared entry by entry with the numbers of the diagram.",
    ["the layout (widths, rulers) is not judged, entries are separated by "
     "blanks, speeds in tables are below 1000"],
)


def shows(text, value, digits):
    """the number rounded to so many digits (either way if halfway)"""
    try:
        got = float(text)
    except ValueError:
        return False
    if "." not in text or len(text.split(".")[1]) != digits:
        return False
    return abs(got - value) <= 0.5 * 10 ** -digits + 1e-9 * max(1, abs(value))


def is_ruler(line):
    return set(line) <= set("+ .|-=") and "+" in line


def judge_table(m, text, pd, tag=""):
    ws, wa, b = pd.wind_speeds, pd.wind_angles, pd.boat_speeds
    lines = [x for x in text.split("\n") if x.strip() and not is_ruler(x)]
    head = lines[0].split()
    m.equal(head[:3], ["TWA", "/", "TWS"], "heading", tag)
    m.equal(len(lines) - 1, len(wa), "one-line-per-angle", tag)
    head = head[3:]
    if "..." in head:
        cut = head.index("...")
        cols = list(range(cut)) + list(
            range(len(ws) - (len(head) - cut - 1), len(ws)))
        m.ok(len(ws) > 15, "short-tables-in-full", tag)
        m.ok(cut >= 1 and len(head) > cut + 1, "long-tables-show-both-ends",
             f"{head}")
        m.event("long table")
    else:
        cut = None
        cols = list(range(len(ws)))
    speeds = [x for x in head if x != "..."]
    m.equal(len(speeds), len(cols), "heading-winds", f"{tag} {head}")
    for x, j in zip(speeds, cols):
        m.ok(shows(x, ws[j], 1), "heading-winds", f"{x} for {ws[j]}")
    for i, line in enumerate(lines[1:]):
        cells = line.split()
        m.ok(shows(cells[0], wa[i], 1), "line-angle",
             f"{cells[0]} for {wa[i]}")
        cells = cells[1:]
        if cut is not None:
            m.equal(cells.pop(cut), "...", "dots-in-every-line")
        m.equal(len(cells), len(cols), "one-entry-per-wind", line)
        for x, j in zip(cells, cols):
            m.ok(shows(x, b[i, j], 2), "entries-below-their-wind",
                 f"{x} printed for {b[i, j]} at ({ws[j]}, {wa[i]})")
    m.event("printed entry", len(cols) * len(wa))


def judge_cloud(m, text, pd):
    lines = [x for x in text.split("\n") if x.strip() and not is_ruler(x)]
    m.equal(lines[0].split(), ["TWS", "TWA", "BSP"], "heading")
    m.equal(len(lines) - 1, len(pd.points), "one-line-per-point")
    for line, p in zip(lines[1:], pd.points):
        cells = line.split()
        m.ok(len(cells) == 3 and all(
            shows(x, v, 2) for x, v in zip(cells, p)), "line-of-the-point",
            f"{line} for {p}")
    m.event("printed entry", 3 * len(pd.points))


def a_table(rng):
    n = int(gen.pick(rng, [1, rng.integers(1, 14), 14, 15, 16, 17,
                           rng.integers(16, 40), gen.size(rng, 16, 40, 120)]))
    k = gen.size(rng, 1, 12, 100)
    ws = gen.distinct(rng, 0, float(gen.pick(rng, [40, 200])), n)
    wa = gen.wind_angles(rng, k)
    b = gen.bsps(rng, len(wa), n)
    if gen.chance(rng, 0.2):
        b = b * gen.pick(rng, [-1, 30, 1e-3])
    if n == 1 and gen.chance(rng, 0.5):  # wide entries
        b[:, 0] *= 10.0 ** int(rng.integers(3, 9))
    return PolarDiagramTable(ws, wa, b)


@check.case(quick=250, thorough=4000)
def tables(m):
    pd = gen.pick(m.rng, [lambda: PolarDiagramTable(), lambda: a_table(
        m.rng), lambda: a_table(m.rng), lambda: a_table(m.rng),
        lambda: a_table(m.rng)])()
    m.given(ws=pd.wind_speeds, wa=pd.wind_angles, b=pd.boat_speeds)
    was = pd.boat_speeds
    judge_table(m, str(pd), pd)
    m.equal(pd.boat_speeds, was, "diagram-unchanged")
    # and again after an edit
    b = np.round(m.rng.uniform(0, 20, was.shape), 3)
    pd.change_entries(b if min(b.shape) > 1 else b.ravel())
    judge_table(m, str(pd), pd, "edited")


@check.case(quick=150, thorough=2000)
def clouds(m):
    rng = m.rng
    pts = gen.cloud_points(rng, gen.size(rng, 0, 30, 300))
    if len(pts) and gen.chance(rng, 0.3):
        pts = pts[rng.integers(0, len(pts), len(pts))]
    if len(pts) and gen.chance(rng, 0.2):  # speeds in other units
        pts[:, [0, 2]] *= gen.pick(rng, [1e-3, 100.0, 3600.0])
    m.given(points=pts)
    pd = PolarDiagramPointcloud(pts)
    judge_cloud(m, str(pd), pd)
    pd.add_points([[1.25, 370.5, 3.004]])
    judge_cloud(m, str(pd), pd)


@check.case(quick=100, thorough=1500)
def sails(m):
    rng = m.rng
    n = gen.size(rng, 1, 5, 12)
    pds = [gen.pick(rng, [a_table, gen.cloud, gen.curve])(rng)
           for _ in range(n)]
    names = gen.sail_names(rng, n)
    if gen.chance(rng, 0.2):
        names = [gen.pick(rng, names) for _ in range(n)]
    m.given(names=names, pds=[repr(p)[:300] for p in pds])
    multi = PolarDiagramMultiSails(pds, names)
    m.equal(str(multi), "".join(
        f"{name}\n{pd}\n\n" for name, pd in zip(names, pds)),
        "every-sail-below-its-name")
    m.event("printed sail", n)


@check.case(quick=100, thorough=1500)
def curves(m):
    pd = gen.curve(m.rng)
    m.given(pd=repr(pd))
    for text in (str(pd), repr(pd)):
        m.ok(pd.curve.__name__ in text, "names-its-function", text)
        m.ok(f"radians={pd.radians}" in text, "names-its-unit", text)
        body = text[text.index(pd.curve.__name__) + len(pd.curve.__name__):
                    text.index("radians=")]
        got = [x.strip() for x in body.split(",") if x.strip()]
        m.equal([float(x) for x in got], [float(x) for x in pd.parameters],
                "names-its-parameters", text)
    m.event("printed curve")


gen.large_case(check, clouds, 3000)
