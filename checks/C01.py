"""C01: saved polar diagrams read back as the same diagram."""
import os
import pathlib

import numpy as np

import hrosailing.core.modelfunctions as model
from hrosailing.core.exceptions import FileReadingException
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
    from_csv,
)
from hrv import Check, gen

check = Check(
    "C01",
    "Diagrams of all kinds with random resolutions, magnitudes, names, "
    "functions and parameters are written to random legal file locations and "
    "read back; the file, the diagram read and the diagram written are "
    "compared. Foreign files are written by an independent writer.",
    ["file system keeps what is written", "sail names and parameters are "
     "strings resp. Python/NumPy floats and ints"],
)


def wild(rng, shape):
    """values over many magnitudes, to catch lost digits"""
    x = rng.uniform(0, 1, shape) * 10.0 ** rng.integers(-8, 9, shape)
    k = int(rng.integers(4))
    if k == 0:
        return np.round(rng.uniform(0, 30, shape), 2)
    if k == 1:
        return np.round(rng.uniform(0, 30, shape))
    if k == 2:
        return rng.uniform(0, 30, shape)
    return x


def location(m, stem=None):
    """a legal file path in a fresh directory (relative, dotted, ...)"""
    rng = m.rng
    d = m.scratch()
    stem = stem or gen.pick(rng, ["x", "polar", "My Polar", "polär", "a_b-c"])
    kind = int(rng.integers(6))
    if kind == 1:
        d = os.path.join(d, gen.pick(rng, ["v1.2", "a.b.c", ".hidden", "d.csv"]))
        os.mkdir(d)
    path = os.path.join(d, stem + ".csv")
    if kind == 2:
        os.chdir(d)
        path = "./" + stem + ".csv"
    elif kind == 3:
        sub = os.path.join(d, "sub")
        os.mkdir(sub)
        os.chdir(sub)
        path = "../" + stem + ".csv"
    elif kind == 4:
        os.chdir(d)
        path = stem + ".csv"
    elif kind == 5:
        path = pathlib.Path(path)
    m.state("location-kind", kind)
    return path


def same_table(m, got, want, mech):
    m.ok(type(got) is PolarDiagramTable, mech, f"read a {type(got)}")
    m.equal(got.wind_speeds, want.wind_speeds, mech, "wind speeds differ")
    m.equal(got.wind_angles, want.wind_angles, mech, "wind angles differ")
    m.equal(got.boat_speeds, want.boat_speeds, mech, "boat speeds differ")


def same(m, got, want, mech):
    m.ok(type(got) is type(want), mech, f"kind {type(got)} / {type(want)}")
    if isinstance(want, PolarDiagramTable):
        same_table(m, got, want, mech)
    elif isinstance(want, PolarDiagramPointcloud):
        m.equal(got.points, want.points, mech, "points differ")
    elif isinstance(want, PolarDiagramCurve):
        m.ok(got.curve is want.curve, mech, "function differs")
        m.equal(list(got.parameters), [float(p) for p in want.parameters],
                mech, "parameters differ")
        m.ok(got.radians == want.radians, mech, "angle unit differs")
        ws, wa = m.rng.uniform(1, 20), m.rng.uniform(0, 6)
        m.equal(got(ws, wa), want(ws, wa), mech, "values differ")
    else:
        m.equal(got.sails, want.sails, mech, "sail names differ")
        m.ok(len(got.diagrams) == len(want.diagrams), mech, "sails lost")
        for g, w in zip(got.diagrams, want.diagrams):
            same(m, g, w, mech)
    m.event("diagram-compared")


def a_table(rng):
    ws = gen.wind_speeds(rng, gen.size(rng, 1, 9, 39))
    if gen.chance(rng, 0.03):  # very many wind speeds
        ws = gen.distinct(rng, 0, 60, int(rng.integers(40, 200)))
    wa = gen.wind_angles(rng, gen.size(rng, 1, 12, 180))
    if gen.chance(rng, 0.2):
        return PolarDiagramTable()
    if gen.chance(rng, 0.2):
        return PolarDiagramTable(ws, wa)
    return PolarDiagramTable(ws, wa, wild(rng, (len(wa), len(ws))))


def a_cloud(rng):
    n = gen.size(rng, 0, 30, 1500)
    pts = gen.cloud_points(rng, n=n)
    pts[:, 2] = wild(rng, n)
    if gen.chance(rng, 0.2):
        pts = pts.astype(int)
    return PolarDiagramPointcloud(pts)


def a_curve(rng):
    name = gen.pick(rng, sorted(gen.CURVES))
    pars = [float(x) * float(gen.pick(rng, [1, -1]))
            for x in wild(rng, gen.CURVES[name]) + 1e-3]
    k = int(rng.integers(3))
    if k == 1:
        pars = [np.float64(x) for x in pars]
    if k == 2:
        pars = [int(x) for x in np.clip(pars, -1000, 1000)]
        pars = [x or 1 for x in pars]
    return PolarDiagramCurve(
        getattr(model, name), *pars, radians=gen.chance(rng, 0.5)
    )


def a_multi(rng, depth=0):
    n = gen.size(rng, 0 if depth else 1, 5, 14)
    makers = [a_table, a_cloud, a_curve]
    if depth == 0 and gen.chance(rng, 0.2):
        makers.append(lambda r: a_multi(r, 1))
    pds = [gen.pick(rng, makers)(rng) for _ in range(n)]
    names = None if gen.chance(rng, 0.3) else gen.sail_names(rng, n)
    if names and n > 1 and gen.chance(rng, 0.2):  # two of the same name
        names[int(rng.integers(1, n))] = names[0]
    return PolarDiagramMultiSails(pds, names)


def describe(pd):
    if isinstance(pd, PolarDiagramTable):
        return ["table", pd.wind_speeds, pd.wind_angles, pd.boat_speeds]
    if isinstance(pd, PolarDiagramPointcloud):
        return ["cloud", pd.points]
    if isinstance(pd, PolarDiagramCurve):
        return ["curve", pd.curve.__name__, list(pd.parameters), pd.radians]
    return ["multi", pd.sails, [describe(d) for d in pd.diagrams]]


@check.case(quick=500, thorough=6000)
def table_formats(m):
    pd = a_table(m.rng)
    for fmt in ("hro", "array", "orc", "opencpn"):
        path = location(m)
        m.given(pd=describe(pd), path=str(path))
        before = describe(pd)
        pd.to_csv(path, fmt=fmt)
        if fmt != "hro":
            sep = {"orc": ";", "opencpn": ",", "array": "\t"}[fmt]
            with open(path, encoding="utf-8") as f:
                widths = {len(x.rstrip("\n").split(sep)) for x in f
                          if x.strip()}
            m.equal(widths, {len(pd.wind_speeds) + 1}, "lines-as-wide",
                    "a line with more or less entries than wind speeds")
        got = from_csv(path, fmt=fmt)
        same_table(m, got, pd, f"table-roundtrip-{fmt}")
        m.equal(describe(pd), before, "saving-keeps-diagram")
        if fmt == "hro":
            pd.to_csv(path)
            same_table(m, from_csv(path), pd, "table-roundtrip-default")
        m.event("file-roundtrip")


@check.case(quick=500, thorough=6000)
def clouds_and_curves(m):
    for make, mech in ((a_cloud, "cloud-roundtrip"),
                       (a_curve, "curve-roundtrip")):
        pd = make(m.rng)
        path = location(m)
        m.given(**{mech: describe(pd), mech + "path": str(path)})
        pd.to_csv(path)
        got = from_csv(path)
        same(m, got, pd, mech)
        # a second generation is identical as well, also over the same file
        got.to_csv(path)
        same(m, from_csv(path), pd, mech + "-second")
        m.event("file-roundtrip", 2)


@check.case(quick=500, thorough=6000)
def multi_sails(m):
    """several multi-sail diagrams side by side in one directory"""
    path1 = location(m, "first")
    p = str(path1)
    path2 = p.replace("first", "second")
    if isinstance(path1, pathlib.Path):
        path2 = pathlib.Path(path2)
    one, two = a_multi(m.rng), a_multi(m.rng)
    m.given(one=describe(one), two=describe(two), path=p)
    one.to_csv(path1)
    two.to_csv(path2)
    same(m, from_csv(path1), one, "multi-roundtrip")
    same(m, from_csv(path2), two, "multi-roundtrip")
    m.event("file-roundtrip", 2)
    # every file written lies beside the main file
    d = os.path.dirname(os.path.abspath(p))
    files = os.listdir(d)
    n = len(one.diagrams) + len(two.diagrams) + 2
    m.ok(len([f for f in files if f.endswith(".csv")]) >= n,
         "multi-files-beside", "sail files are not beside the main file",
         files=files)


@check.case(quick=400, thorough=5000)
def foreign_files(m):
    """ORC/OpenCPN/array files by an independent writer"""
    rng = m.rng
    ws, wa, b = gen.table_parts(rng)
    if gen.chance(rng, 0.08):
        ws = gen.distinct(rng, 0, 60, int(rng.integers(20, 200)))
        wa = gen.wind_angles(rng, int(rng.integers(1, 150)))
        b = gen.bsps(rng, len(wa), len(ws))
    b = np.round(b, 3)
    fmt = gen.pick(rng, ["orc", "opencpn", "array"])
    m.given(ws=ws, wa=wa, b=b, fmt=fmt)
    sep = {"orc": ";", "opencpn": ",", "array": "\t"}[fmt]
    blank = rng.random(b.shape) < 0.2
    if fmt == "array":
        blank[:] = False
    deg = "°" if fmt != "array" and gen.chance(rng, 0.5) else ""

    def num(x):
        return repr(int(x)) if x == int(x) and gen.chance(rng, 0.5) else repr(
            float(x))

    lines = [sep.join(["TWA/TWS"] + [num(x) for x in ws])]
    if fmt == "orc":
        lines.append(sep.join(["0"] * (len(ws) + 1)))
    for i, a in enumerate(wa):
        lines.append(sep.join(
            [num(a) + deg]
            + ["" if blank[i, j] else num(b[i, j]) for j in range(len(ws))]))
    nl = gen.pick(rng, ["\n", "\r\n"])
    path = location(m)
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(nl.join(lines) + nl)
    got = from_csv(path, fmt=fmt)
    want = np.where(blank, 0, b)
    oi, oj = np.argsort(wa), np.argsort(ws)
    mech = f"foreign-{fmt}"
    m.equal(got.wind_speeds, ws[oj], mech, "wind speeds")
    m.equal(got.wind_angles, wa[oi], mech, "wind angles")
    m.equal(got.boat_speeds, want[oi][:, oj], mech, "boat speeds")
    m.event("foreign-file-read")


@check.case(quick=150, thorough=800)
def rejections(m):
    rng = m.rng
    pd = a_table(rng)
    path = location(m)
    m.given(pd=describe(pd))
    pd.to_csv(path)
    bad = "".join(gen.pick(rng, "abcxyz") for _ in range(5))
    m.raises(ValueError, lambda: from_csv(path, fmt=bad), "unknown-format")
    with open(path, "rb") as f:
        before = f.read()
    m.raises(NotImplementedError, lambda: pd.to_csv(path, fmt=bad),
             "unknown-format")
    with open(path, "rb") as f:
        m.equal(f.read(), before, "rejected-write-keeps-file")
    with open(path, "w", encoding="utf-8") as f:
        f.write(gen.pick(rng, ["PolarDiagramFoo", "", "TWS", "object"]) + "\n")
        f.write("TWS\n1,2\n")
    m.raises(FileReadingException, lambda: from_csv(path), "unknown-kind")
    m.event("rejected", 3)


@check.case(quick=1, thorough=1)
def dotted_names_probe(m):
    """two multi-sail files whose names share the part before a dot"""
    d = m.scratch()
    one = PolarDiagramMultiSails([PolarDiagramTable([1], [10], [[1.0]])])
    two = PolarDiagramMultiSails([PolarDiagramTable([1], [10], [[2.0]])])
    one.to_csv(os.path.join(d, "boat.v1.csv"))
    two.to_csv(os.path.join(d, "boat.v2.csv"))
    m.given(names=["boat.v1.csv", "boat.v2.csv"])
    got = from_csv(os.path.join(d, "boat.v1.csv"))
    m.ok(got.diagrams[0](1, 10) == 1.0, "multi-file-names-share-first-dot",
         "the second file overwrote the sails of the first")


gen.large_case(check, clouds_and_curves, 5000)
gen.large_case(check, table_formats, 150)
