"""C03: editing a table changes exactly the selected entries."""
import numpy as np

from hrosailing.polardiagram import PolarDiagramTable
from hrv import Check, gen

check = Check(
    "C03",
    "Random histories of accepted and rejected edits on one table (selections "
    "of none/one/some/all winds, wrapped angles, scalars/lists/arrays, "
    "shuffled selections) run against a plain matrix model; the whole table "
    "and all views handed out earlier are compared after every step.",
    ["resolutions without duplicates"],
)


def select(rng, res, angle):
    """(argument, indices): a selection of the resolution"""
    n = len(res)
    kind = int(rng.integers(5))
    if kind == 0:
        return None, list(range(n))
    k = 1 if kind in (1, 2) else int(rng.integers(1, n + 1))
    idx = rng.permutation(n)[:k]
    vals = np.array([res[i] for i in idx], float)
    if angle:
        vals = vals + 360 * rng.integers(-1, 2, k)
    if gen.chance(rng, 0.15) and k > 1:
        vals = np.append(vals, vals[0])  # naming a wind twice
    if kind == 1:
        v = float(vals[0])
        return (int(v) if v == int(v) and gen.chance(rng, 0.5) else v), [
            int(idx[0])]
    arg = gen.pick(rng, [vals, vals.tolist(), tuple(vals.tolist())])
    return arg, sorted(int(i) for i in idx)


@check.case(quick=700, thorough=8000)
def edit_histories(m):
    rng = m.rng
    ws, wa, b = gen.table_parts(rng, *gen.pick(rng, [(6, 8)] * 25 + [
        (30, 90)]))
    ws = np.sort(ws)
    wa = np.sort(np.unique(np.round(wa * 8) / 8 % 360))
    n, k = len(wa), len(ws)
    b = b[:n]
    if gen.chance(rng, 0.3):
        if gen.chance(rng, 0.5):  # whole winds, given as integers
            ws = np.unique(np.maximum(np.round(ws), 1)).astype(int)
            wa = np.unique(np.round(wa) % 360).astype(int)
            n, k = len(wa), len(ws)
        t = PolarDiagramTable(*gen.pick(rng, [
            (ws, wa), (ws.tolist(), wa.tolist())]))
        b = np.zeros((n, k))
    else:
        t = PolarDiagramTable(ws, wa, b)
    model = b.copy()
    m.given(ws=ws, wa=wa, b=b)
    history = []
    views = []
    counter = 1.0
    for _ in range(int(rng.integers(3, 15))):
        views.append((t.boat_speeds, model.copy()))
        sws, jw = select(rng, ws, False)
        swa, ia = select(rng, wa, True)
        shape = (len(ia), len(jw))
        if shape == (1, 1):
            shape_ok = (1,)
        elif shape[0] == 1:
            shape_ok = (shape[1],)
        elif shape[1] == 1:
            shape_ok = (shape[0],)
        else:
            shape_ok = shape
        size = int(np.prod(shape_ok))
        new = (counter + np.arange(size)).reshape(shape_ok) / 4
        counter += size
        if gen.chance(rng, 0.15):  # any finite number is a legal entry
            new = new * gen.pick(rng, [-1, 0, 1e-9, 1e12, -1e-3])
        bad = gen.pick(rng, ["", "", "", "shape", "nan", "ws", "wa", "empty",
                             "neg", "transposed"])
        kw = {"ws": sws, "wa": swa}
        val = new
        rejected = True
        if bad == "shape":
            val = np.append(new.ravel(), 1.0)
        elif bad == "nan":
            val = new.copy()
            val.flat[int(rng.integers(size))] = gen.pick(
                rng, [np.nan, np.inf])
        elif bad == "ws":
            kw["ws"] = [float(ws[0]), float(ws[-1]) + 0.3]
        elif bad == "wa":
            kw["wa"] = float(wa[0]) + 0.01
        elif bad == "empty":
            kw[gen.pick(rng, ["ws", "wa"])] = []
        elif bad == "neg":
            kw["ws"] = -1.0
        elif bad == "transposed" and len(shape_ok) == 2 and (
            shape_ok[0] != shape_ok[1]
        ):
            val = new.T
        else:
            rejected = False
        if not rejected:
            style = int(rng.integers(5))
            if style == 1:
                val = val.tolist()
            elif style == 2:  # other layouts of the same numbers
                val = np.asfortranarray(val)
            elif style == 3:
                val = np.repeat(val, 2, axis=-1)[..., ::2]
            if shape_ok == (1,) and gen.chance(rng, 0.5):
                val = float(new[0])
        history.append([bad if rejected else "edit", kw["ws"], kw["wa"]])
        m.given(history=history)
        if rejected:
            m.raises((ValueError, TypeError),
                     lambda: t.change_entries(val, **kw),  # noqa: B023
                     "edit-rejects-" + bad)
            m.event("edit-rejected")
        else:
            if sws is None and gen.chance(rng, 0.5):
                del kw["ws"]
            if swa is None and gen.chance(rng, 0.5):
                del kw["wa"]
            t.change_entries(val, **kw)
            model[np.ix_(ia, jw)] = new.reshape(shape)
            m.event("edit-accepted")
            m.state("selection-shape", (shape, n, k))
        m.equal(t.boat_speeds, model, "table-equals-model",
                f"after {history[-1]}")
        m.equal(t.wind_speeds, ws, "resolution-kept")
        m.equal(t.wind_angles, wa, "resolution-kept")
        i, j = int(rng.integers(n)), int(rng.integers(k))
        m.equal(t[float(ws[j]), float(wa[i])], model[i, j], "lookup-after")
    for got, was in views:
        m.equal(got, was, "handed-out-views-kept")
    # changing a handed out view does not reach the table
    for v in (t.boat_speeds, t.wind_speeds, t.wind_angles):
        v += 1
    m.equal(t.boat_speeds, model, "views-are-copies")
    m.equal(t.wind_speeds, ws, "views-are-copies")
    m.equal(t.wind_angles, wa, "views-are-copies")
