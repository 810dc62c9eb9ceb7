"""C14: the data container stays rectangular and loses nothing."""
import copy
from datetime import date, datetime, timedelta

import numpy as np

from hrosailing.core.data import Data, WeightedPoints
from hrv import Check, gen

check = Check(
    "C14",
    "Random histories of updates (records, columns, containers, compressing), "
    "extensions, deletions, renamings, masks, slices, fills, strips, type "
    "filters and concatenations run next to a plain table model; after every "
    "operation all columns, counts, rows in every form, types and exports "
    "are compared, and all containers seen earlier are compared with their "
    "snapshots.",
    ["extend and append leave shorter columns until fill is called, as "
     "documented; histories call fill right after them"],
)

KEYS = ["TWS", "TWA", "BSP", "lat", "name", "when", "n", "day", "motor"]


def value(rng, key, none=True):
    if none and gen.chance(rng, 0.25):
        return None
    if key == "name":
        return gen.pick(rng, ["a", "b", "port", ""])
    if key == "when":
        return datetime(2024, 1, 1) + timedelta(
            minutes=int(rng.integers(1000)))
    if key == "n":
        return int(rng.integers(50))
    if key == "day":
        return date(2024, 1, 1) + timedelta(days=int(rng.integers(60)))
    if key == "motor":
        return bool(rng.integers(2))
    return float(np.round(rng.uniform(0, 30), 2))


class Table:
    """the plain table: name -> list, all equally long"""

    def __init__(self, cols=None, n=0):
        self.cols = {k: list(v) for k, v in (cols or {}).items()}
        self.n = n

    def copy(self):
        return Table(self.cols, self.n)

    def fill(self, n=None, keys=()):
        for k in keys:
            self.cols.setdefault(k, [])
        self.n = max([n or 0] + [len(v) for v in self.cols.values()]) \
            if self.cols else 0
        for v in self.cols.values():
            v.extend([None] * (self.n - len(v)))

    def update(self, d, compress=False):
        self.fill(self.n, d)
        if compress and self.n and d and all(
                self.cols[k][-1] is None for k in d):
            for k in d:
                self.cols[k].pop()
        for k, v in d.items():
            self.cols[k].extend(v if isinstance(v, list) else [v])
        self.fill()


def type_of(col):
    for v in col:
        if v is not None:
            return type(v)
    return None


def compare(m, d, t, op):
    m.equal(sorted(d.keys()), sorted(t.cols), "columns", op)
    m.equal(d.n_cols, len(t.cols), "column-count", op)
    m.equal(d.n_rows, t.n if t.cols else 0, "row-count", op)
    for k, col in t.cols.items():
        m.equal(list(d[k]), col, "column-values", f"{op}: {k}")
        m.ok(k in d, "column-membership", op)
        if type_of(col) is not None:
            m.ok(d.type(k) is type_of(col), "column-type",
                 f"{op}: {k} {d.type(k)}")
    m.equal({k: list(d.data[k]) for k in sorted(d.data)},
            {k: t.cols[k] for k in sorted(t.cols)}, "column-values", op)
    keys = d.keys()
    m.ok(isinstance(keys, list), "keys-list", op)
    if t.cols:
        rows = [{k: t.cols[k][i] for k in keys} for i in range(t.n)]
        m.equal(list(d.rows()), rows, "rows", op)
        m.equal([r for r in d], rows, "iteration", op)
        some = [k for k in keys if m.rng.random() < 0.6]
        m.equal([tuple(r) for r in list(d.rows(some, tuple))],
                [tuple(r[k] for k in some) for r in rows], "tuple-rows", op)
        m.equal(list(d.rows(some, list)),
                [[r[k] for k in some] for r in rows], "list-rows", op)
        for i in (0, t.n // 2, t.n - 1) if t.n else ():
            m.equal(d[i], rows[i], "single-row", op)
        for i in (t.n, -t.n - 1, t.n + 7):
            m.raises(IndexError, lambda: d[i],  # noqa: B023
                     "no-such-row", f"{op}: row {i} of {t.n}")
    for ty in (float, str, datetime, int, bool, date):
        want = {k: c for k, c in t.cols.items() if type_of(c) is ty}
        got = dict(zip(*d.get_by_type(ty)))
        unknown = {k for k, c in t.cols.items() if type_of(c) is None}
        m.equal({k: list(got[k]) for k in sorted(got) if k not in unknown},
                {k: want[k] for k in sorted(want)}, "by-type", op)
    full = [k for k in d.keys() if type_of(t.cols[k]) is float]
    numeric_keys, arr = d.numerical
    m.ok(set(full) <= set(numeric_keys), "numerical", op)
    if full and list(numeric_keys) == full:
        m.equal(np.asarray(arr).shape, (t.n, len(full)), "numerical", op)
        m.equal([[x for x in r] for r in np.asarray(arr).tolist()],
                [[None if t.cols[k][i] is None else t.cols[k][i]
                  for k in full] for i in range(t.n)], "numerical", op)
    m.ok(isinstance(str(d), str), "text")
    m.event("comparison")


def step(m, d, t, seen):
    """one random operation on both; returns the pair to go on with"""
    rng = m.rng
    keys = list(t.cols)
    op = gen.pick(rng, [
        "record", "record", "record", "columns", "columns", "container",
        "compress", "compress", "extend", "append", "rename", "delete-column",
        "delete-columns", "delete-row", "delete-rows", "mask", "npmask",
        "slice", "strip-cols", "strip-rows", "strip-all", "fill",
        "fill-new", "types", "concatenate", "from-dict", "empty-mask",
        "self-slice"])
    m.state("operation", op)
    some = [k for k in KEYS if gen.chance(rng, 0.4)] or ["TWS"]
    if op == "record":
        r = {k: value(rng, k) for k in some}
        d.update(dict(r))
        t.update(r)
    elif op == "columns":
        c = {k: [value(rng, k) for _ in range(int(rng.integers(0, 4)))]
             for k in some}
        mine = copy.deepcopy(c)
        d.update(mine)
        t.update(c)
        m.equal(mine, c, "caller-kept", op)
        for v in mine.values():  # later changes by the caller do not matter
            v.append(value(rng, "TWS"))
    elif op in ("container", "concatenate"):
        c = {k: [value(rng, k) for _ in range(int(rng.integers(1, 4)))]
             for k in some}
        other, ot = Data(), Table()
        other.update(copy.deepcopy(c))
        ot.update(c)
        seen.append((other, ot.copy()))
        if op == "container":
            d.update(other)
        else:
            seen.append((d, t.copy()))
            d = Data.concatenate([d, other])
            t = t.copy()
        t.update(ot.copy().cols)
    elif op == "compress":
        r = {k: value(rng, k) for k in some}
        if gen.chance(rng, 0.1):
            r = {}
        d.update(dict(r), compress=True)
        t.update(r, compress=True)
    elif op == "extend":
        k = gen.pick(rng, some)
        v = [value(rng, k) for _ in range(int(rng.integers(0, 4)))]
        mine = list(v)
        d.extend(k, mine)
        d.fill()
        mine.append(None)
        t.cols.setdefault(k, []).extend(v)
        t.fill()
    elif op == "append":
        k = gen.pick(rng, some)
        v = value(rng, k)
        d.append(k, v)
        d.fill()
        t.cols.setdefault(k, []).append(v)
        t.fill()
    elif op == "rename" and keys:
        old = gen.pick(rng, keys)
        new = old + "'" if gen.chance(rng, 0.5) and "'" not in old else old
        # renamed back at once, so that names keep their type
        d.rename(old, new)
        m.ok(new in d and (old == new or old not in d), "renamed")
        m.equal(list(d[new]), t.cols[old], "renamed-values")
        if type_of(t.cols[old]) is not None:
            m.ok(d.type(new) is type_of(t.cols[old]), "column-type", op)
        d.rename(new, old)
    elif op == "delete-column" and keys:
        k = gen.pick(rng, keys)
        d.delete(k)
        del t.cols[k]
        t.fill()
    elif op == "delete-columns" and keys:
        ks = [k for k in keys if gen.chance(rng, 0.3)]
        d.delete(list(ks))
        for k in ks:
            del t.cols[k]
        t.fill()
    elif op in ("delete-row", "delete-rows") and t.n:
        rows = [int(rng.integers(t.n))]
        if op == "delete-rows":
            rows = [int(i) for i in rng.integers(0, t.n, rng.integers(0, 4))]
        mine = list(rows)
        d.delete(rows[0] if op == "delete-row" else mine)
        m.equal(mine, rows, "caller-kept", op)
        t.cols = {k: [x for i, x in enumerate(v) if i not in rows]
                  for k, v in t.cols.items()}
        t.fill()
        t.n = len(next(iter(t.cols.values())))
    elif op in ("mask", "npmask", "empty-mask") and keys:
        mask = rng.random(t.n) < 0.6
        if op == "empty-mask":
            mask[:] = False
        seen.append((d, t.copy()))
        d = d[mask if op == "npmask" else mask.tolist()]
        t = Table({k: [x for x, b in zip(v, mask) if b]
                   for k, v in t.cols.items()}, int(mask.sum()))
    elif op in ("slice", "self-slice") and keys:
        ks = [k for k in keys if gen.chance(rng, 0.7)] or [keys[0]]
        seen.append((d, t.copy()))
        d = d[ks] if op == "slice" else d.get_slice(set(ks))
        t = Table({k: t.cols[k] for k in ks}, t.n)
    elif op.startswith("strip"):
        mode = op[6:]
        d.strip(mode) if mode != "all" or gen.chance(rng, 0.5) else d.strip()
        if mode in ("cols", "all"):
            t.cols = {k: v for k, v in t.cols.items()
                      if any(x is not None for x in v)}
            t.n = t.n if t.cols else 0
        if mode in ("rows", "all"):
            full = [i for i in range(t.n)
                    if any(v[i] is not None for v in t.cols.values())]
            a, b = (full[0], full[-1] + 1) if full else (0, 0)
            t.cols = {k: v[a:b] for k, v in t.cols.items()}
            t.n = b - a
    elif op == "fill":
        n = t.n + int(rng.integers(0, 3))
        d.fill(n)
        t.fill(n)
    elif op == "fill-new":
        d.fill(keys=list(some))
        d.fill()
        t.fill(t.n, some)
    elif op == "types":
        keep = [x for x in (float, str, datetime, int) if gen.chance(rng, 0.8)]
        # columns without values have no certain type
        for k in keys:
            if type_of(t.cols[k]) is None and d.type(k) is not None:
                d.delete(k)
                del t.cols[k]
        d.filter_types(keep)
        t.cols = {k: v for k, v in t.cols.items() if type_of(v) in keep}
        t.fill()
        t.n = t.n if t.cols else 0
    elif op == "from-dict":
        k = int(rng.integers(0, 5))
        c = {x: [value(rng, x) for _ in range(k)] for x in some}
        how = int(rng.integers(3))
        mine = {x: v if how == 0 else tuple(v) if how == 1
                else np.array(v, dtype=object) for x, v in
                copy.deepcopy(c).items()}
        d, t = Data.from_dict(mine), Table(c, k)
    return op, d, t


@check.case(quick=350, thorough=5000, budget=400_000)
def histories(m):
    rng = m.rng
    d, t = Data(), Table()
    seen, ops = [], []
    n = int(rng.integers(4, 22))
    if gen.chance(rng, 0.06):  # long columns, some with late values only
        k = gen.scaled(rng, rng.integers(100, 500))
        late = int(rng.integers(k))
        c = {x: [value(rng, x, none=gen.chance(rng, 0.5)) for _ in range(k)]
             for x in KEYS if gen.chance(rng, 0.6)}
        for x in c:
            if gen.chance(rng, 0.4):
                c[x][:late] = [None] * late
        d, t = Data.from_dict(c), Table(c, k)
        compare(m, d, t, "long columns")
        for x in c:
            d.rename(x, x + "'")
            if type_of(c[x]) is not None:
                m.ok(d.type(x + "'") is type_of(c[x]), "column-type",
                     "renamed")
            d.rename(x + "'", x)
        n = min(n, 8)
    m.given(n=n, salt=float(rng.random()))
    for _ in range(n):
        op, d, t = step(m, d, t, seen)
        ops.append(op)
        compare(m, d, t, " > ".join(ops[-4:]))
    for old, snap in seen[:12]:
        if old is not d:
            compare(m, old, snap, "earlier container after "
                    + " > ".join(ops))
            m.event("earlier-container")


@check.case(quick=150, thorough=1500)
def rejections(m):
    """refused operations leave existing values where they are"""
    rng = m.rng
    n = int(rng.integers(1, 5))
    cols = {k: [value(rng, k, none=False) for _ in range(n)]
            for k in ("TWS", "name", "when")}
    d = Data.from_dict(cols)
    m.given(cols=cols)
    m.raises(ValueError, lambda: d.rename("TWS", "name"), "rejects-rename")
    m.raises(KeyError, lambda: d.rename("nothing", "new"), "rejects-unknown")
    m.raises(KeyError, lambda: d.delete("nothing"), "rejects-unknown")
    m.raises(KeyError, lambda: d["nothing"], "rejects-unknown")
    m.raises(KeyError, lambda: d.type("nothing"), "rejects-unknown")
    m.raises(ValueError, lambda: d.extend("TWS", ["text"]), "rejects-type")
    m.raises(ValueError, lambda: d.append("name", 3.5), "rejects-type")
    m.raises(ValueError, lambda: d.extend("TWS", [1.0, "x"]), "rejects-type")
    m.raises(ValueError, lambda: d.extend("TWS", [3]), "rejects-type")
    c = Data.from_dict({"n": [1, 2], "on": [True, False],
                        "day": [datetime(2024, 1, 1).date()] * 2,
                        "when": [datetime(2024, 1, 1)] * 2})
    for k, v in [("n", True), ("on", 1), ("day", datetime(2024, 1, 1)),
                 ("when", datetime(2024, 1, 1).date()), ("n", 1.0)]:
        m.raises(ValueError, lambda: c.extend(k, [v]), "rejects-type")
        m.raises(ValueError, lambda: Data.from_dict({"x": [c[k][0], v]}),
                 "rejects-type")
    m.raises(TypeError, lambda: d.update([1.0]), "rejects-type")
    m.raises(ValueError, lambda: list(d.rows(return_type=set)),
             "rejects-row-type")
    m.raises(TypeError, lambda: d[[1, 2]], "rejects-index")
    m.raises(KeyError, lambda: list(d.rows(["nothing"])), "rejects-unknown")
    m.raises(IndexError, lambda: d[n], "rejects-index")
    compare(m, d, Table(cols, n), "after rejections")
    m.event("rejected", 13)


@check.case(quick=60, thorough=600)
def emptied_columns(m):
    """a column without values takes values of any type"""
    rng = m.rng
    n = int(rng.integers(1, 6))
    k, new = rng.permutation(KEYS)[:2]
    cols = {"n1": [float(i) for i in range(n)],
            "x": [None if gen.chance(rng, 0.5) else value(rng, k, False)
                  for _ in range(n)]}
    m.given(cols=cols, k=k, new=new)
    d = Data.from_dict(cols)
    gone = [i for i in range(n) if cols["x"][i] is not None]
    d.delete(gone)
    d.fill()
    m.ok(d.type("x") is None, "column-type", "emptied")
    v = value(rng, new, False)
    d.update({"x": v})
    left = n - len(gone)
    m.equal(list(d["x"]), [None] * left + [v], "column-values")
    m.ok(d.type("x") is type(v), "column-type", "refilled")
    m.equal(d.n_rows, left + 1, "row-count")
    m.event("refilled")


@check.case(quick=250, thorough=3000)
def weighted_points(m):
    """every weight stays with its record"""
    rng = m.rng
    kind = gen.pick(rng, ["array", "data", "dict"])

    def make(n, keys):
        cols = {k: [value(rng, k, none=False) for _ in range(n)]
                for k in keys}
        if kind == "array":
            if gen.chance(rng, 0.3):  # whole numbers
                cols = {k: [int(x * 3) for x in v] for k, v in cols.items()}
            obj = np.column_stack([cols[k] for k in keys])
        elif kind == "data":
            obj = Data.from_dict(cols)
        else:
            obj = copy.deepcopy(cols)
        return cols, obj

    keys = ["TWS", "TWA", "BSP"]
    n = int(rng.integers(1, 8))
    if kind != "array":
        keys += [k for k in KEYS[3:] if gen.chance(rng, 0.4)]
    cols, obj = make(n, keys)
    scalar = gen.chance(rng, 0.3)
    w = float(rng.random()) if scalar else rng.random(n)
    if not scalar and gen.chance(rng, 0.3):
        w = w.tolist()
    m.given(kind=kind, cols=cols, w=w)
    p = WeightedPoints(obj, w)
    ws = np.full(n, w) if scalar else np.array(w)

    def check_points(p, cols, ws, op):
        m.equal(np.asarray(p.weights), np.asarray(ws), "weights", op)
        for i, k in enumerate(keys):
            got = p.data[:, i] if kind == "array" else p.data[k]
            m.equal([x for x in got], list(cols[k]), "weighted-records",
                    f"{op}: {k}")
        m.event("weighted-points", len(ws))

    check_points(p, cols, ws, "new")
    mask = rng.random(n) < 0.6
    q = p[mask]
    mc = {k: [x for x, b in zip(v, mask) if b] for k, v in cols.items()}
    check_points(q, mc, ws[mask], "mask")
    check_points(p, cols, ws, "original after mask")
    k = int(rng.integers(1, 5))
    more, obj2 = make(k, keys)
    w2 = rng.random(k)
    other = WeightedPoints(obj2, w2)
    p.extend(other)
    both = {x: cols[x] + more[x] for x in keys}
    check_points(p, both, np.concatenate([ws, w2]), "extend")
    check_points(other, more, w2, "extended by")
    check_points(q, mc, ws[mask], "mask after extend")
    if kind == "dict":  # of columns that only one of both has nothing remains
        left = [k for k in keys if gen.chance(rng, 0.7)] or keys[:1]
        r = WeightedPoints({k: list(v) for k, v in cols.items()}, ws)
        last, obj3 = make(2, left + ["only here"] if gen.chance(rng, 0.5)
                          else left)
        r.extend(WeightedPoints(obj3, [0.5, 0.25]))
        m.equal(sorted(r.data), sorted(left), "extend-common-columns")
        m.equal({k: list(r.data[k]) for k in left},
                {k: list(cols[k]) + list(last[k]) for k in left},
                "extend-common-columns")
    if kind != "array":
        m.equal({x: list(v) for x, v in
                 (obj.data if kind == "data" else obj).items()}, cols,
                "caller-kept")
    else:
        m.equal(obj, np.column_stack([cols[x] for x in keys]), "caller-kept")
