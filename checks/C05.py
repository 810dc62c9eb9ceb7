"""C05: a multi-sail diagram is exactly its sails put together."""
import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrv import Check, gen

check = Check(
    "C05",
    "Multi-sail diagrams of random tables, clouds and curves (also equal "
    "sails, other counts of names) are evaluated, sliced and listed; every "
    "answer is compared with the answers of the single sails.",
    ["sail names are distinct"],
)


def sails(rng, kinds=(0, 1, 2), n=None):
    out = []
    for _ in range(gen.size(rng, 1, 5, 16, 0.1) if n is None else n):
        k = gen.pick(rng, kinds)
        if k == 0:
            out.append(gen.table(rng))
        elif k == 1:
            out.append(gen.cloud(rng, n=int(rng.integers(2, 25))))
        else:
            out.append(gen.curve(rng))
        if len(out) > 1 and gen.chance(rng, 0.1):
            out[-1] = out[-2]
    return out


def give(m, pds, names=None):
    m.given(pds=[repr(p)[:200] for p in pds], names=names,
            salt=float(m.rng.random()))


@check.case(quick=300, thorough=4000)
def evaluation(m):
    rng = m.rng
    pds = sails(rng)
    give(m, pds)
    multi = PolarDiagramMultiSails(pds)
    for _ in range(8):
        ws, wa = float(rng.uniform(1, 39)), float(rng.uniform(0, 360))
        if gen.chance(rng, 0.4):
            t = gen.pick(rng, pds)
            if isinstance(t, PolarDiagramTable):
                ws = float(gen.pick(rng, t.wind_speeds)) or 1.0
                wa = float(gen.pick(rng, t.wind_angles))
            elif isinstance(t, PolarDiagramPointcloud):
                ws, wa, _ = (float(x) for x in gen.pick(rng, t.points))
        try:
            want = [pd(ws, wa) for pd in pds]
        except ZeroDivisionError:
            m.event("no-data-near")
            continue
        m.equal(multi(ws, wa), max(want), "fastest-sail")
        m.event("evaluated")
        m.state("winner", int(np.argmax(want)))
    ws = rng.uniform(1, 30, 4)
    wa = rng.uniform(0, 360, 4)
    try:
        want = [(w, a, max(pd(w, a) for pd in pds)) for w, a in zip(ws, wa)]
    except ZeroDivisionError:
        m.event("no-data-near")
        return
    got = multi.get_points(np.column_stack([ws, wa]))
    m.close(got, want, "points-at-winds")


@check.case(quick=110, thorough=1800)
def slices_and_info(m):
    rng = m.rng
    pds = sails(rng, kinds=gen.pick(rng, [(0, 1, 2), (0,), (1,), (2,),
                                          (0, 2)]))
    names = gen.sail_names(rng, len(pds)) if gen.chance(rng, 0.7) else None
    give(m, pds, names)
    multi = PolarDiagramMultiSails(pds, names)
    names = names or [f"Sail {i}" for i in range(len(pds))]
    ws = [float(x) for x in rng.uniform(1, 35, int(rng.integers(1, 5)))]
    t = [p for p in pds if isinstance(p, PolarDiagramTable)]
    if t and gen.chance(rng, 0.5):
        ws[0] = float(t[0].wind_speeds[0])
    labels, slices, info = multi.get_slices(ws, full_info=True)
    l2, s2 = multi.get_slices(ws)
    m.equal(list(labels), ws, "labels")
    m.equal(list(l2), ws, "labels")
    m.ok(len(slices) == len(ws) == len(info) == len(s2), "one-per-wind-speed")
    singles = [pd.get_slices(ws)[1] for pd in pds]
    for i in range(len(ws)):
        parts = [s[i] for s in singles]
        want = np.column_stack(parts)
        m.equal(slices[i], want, "slices-concatenated")
        m.equal(s2[i], want, "slices-concatenated")
        who = [n for n, p in zip(names, parts) for _ in range(p.shape[1])]
        m.equal(list(info[i]), who, "info-names-sail")
        m.event("slice", 1)
        m.event("record", want.shape[1])
    # subdivision and options reach every sail
    n = int(rng.integers(1, 4))
    if len(ws) > 1:
        labels, slices, info = multi.get_slices(ws, n_steps=n, full_info=True)
        m.ok(len(labels) == len(ws) + n * (len(ws) - 1), "labels")
        want = [np.column_stack([pd.get_slices(ws, n_steps=n)[1][i]
                                 for pd in pds]) for i in range(len(labels))]
        m.equal(slices, want, "slices-concatenated", "with n_steps")
        m.ok([len(i) for i in info] == [w.shape[1] for w in want],
             "info-names-sail")
    r = float(rng.uniform(0.2, 8))
    k = int(rng.integers(2, 20))
    _, slices, info = multi.get_slices(ws, full_info=True, range_=r,
                                       wa_resolution=k)
    for i, w in enumerate(ws):
        parts = [pd.ws_to_slices([w], range_=r, wa_resolution=k)[0]
                 for pd in pds]
        m.equal(slices[i], np.column_stack(parts), "slice-options")
        who = [nm for nm, p in zip(names, parts) for _ in range(p.shape[1])]
        m.equal(list(info[i]), who, "info-names-sail", "with options")


@check.case(quick=14, thorough=200)
def defaults(m):
    rng = m.rng
    pds = sails(rng, n=int(rng.integers(1, 4)))
    give(m, pds)
    multi = PolarDiagramMultiSails(pds)
    m.equal(multi.get_points(),
            np.row_stack([pd.get_points() for pd in pds]),
            "points-concatenated")
    both = np.concatenate([np.asarray(pd.default_slices) for pd in pds])
    labels, slices = multi.get_slices()
    m.close(labels, np.linspace(both.min(), both.max(), 20),
            "default-slices")
    m.equal(slices, [np.column_stack([pd.ws_to_slices([w])[0] for pd in pds])
                     for w in labels], "slices-concatenated", "default")
    m.event("slice", 20)


@check.case(quick=200, thorough=2000)
def names_of_sails(m):
    rng = m.rng
    n = gen.size(rng, 1, 6, 16, 0.1)
    pds = sails(rng, n=n)
    k = gen.size(rng, 0, 8, 16, 0.1)
    names = [f"{s}~" for s in gen.sail_names(rng, k)]
    if gen.chance(rng, 0.5):
        names = tuple(names)
    give(m, pds, names)
    was = list(names)
    multi = PolarDiagramMultiSails(pds, names)
    m.equal(list(names), was, "names-kept")
    got = list(multi.sails)
    m.ok(len(got) == n, "one-name-per-sail", got=got)
    m.equal(got[:min(n, k)], was[:n], "given-names-first")
    m.ok(len(set(got)) == n, "names-distinct")
    for i in range(k, n):
        m.equal(got[i], f"Sail {i}", "generated-names")
    for name, pd in zip(got, pds):
        m.ok(multi[name] is multi.diagrams[pds.index(pd)] or
             multi[name] is pd, "sail-by-name")
        m.ok(multi[name] is pd or multi[name] in pds, "sail-by-name")
        m.ok(multi[name] is pd, "sail-by-name", name)
    m.ok(all(a is b for a, b in zip(multi.diagrams, pds)) and
         len(multi.diagrams) == n, "sails-in-order")
    for surplus in was[n:]:
        m.raises((ValueError, KeyError), lambda: multi[surplus],  # noqa: B023
                 "unknown-name")
    for other in ["no such sail", got[-1] + " ", got[0].swapcase(), 0,
                  got[0][:-1], got[-1][1:], "Sail", None]:
        if other not in got:
            m.raises((ValueError, KeyError), lambda: multi[other],  # noqa: B023
                     "unknown-name", repr(other))
    if n > 1 and gen.chance(rng, 0.2):  # names that print alike
        alike = PolarDiagramMultiSails(pds[:2], [7, "7"])
        m.ok(alike["7"] is pds[1] and alike[7] is pds[0], "sail-by-name")
    m.event("looked-up", n)
    text = str(multi)
    for name, pd in zip(got, pds):
        if not isinstance(pd, (PolarDiagramTable, PolarDiagramPointcloud)):
            continue
        m.ok(name + "\n" + str(pd) in text, "listing-by-sail")
