"""C30: fuzzy statements evaluate by the rules of fuzzy logic."""
import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing import FuzzyVariable, FuzzyWeigher
from hrosailing.processing.weigher import FuzzyBool
from hrv import Check, gen

check = Check(
    "C30",
    "Random statements are built step by step (comparisons with default and "
    "explicit sharpness, with and without keys, conjunction, disjunction, "
    "negation, item access) next to a model that stores each statement's "
    "formula; after every step all statements built so far are evaluated "
    "on records and arrays and compared with their formulas.",
    ["sharpness given by x(s) holds for the one comparison built from it"],
)


def sig(z):
    return 1 / (1 + np.exp(-np.clip(z, -700, 700)))


KEYS = ["TWS", "TWA", "BSP"]
OTHER_KEYS = [KEYS, KEYS, ["lat", "lon", "wind speed"], ["Tws", " a", "TWA "],
              [0, 1, 2], ["BSP", "bsp", "0"]]


class Model:
    """formula trees evaluated independently of the package"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def at(self, rec):
        k, a = self.kind, self.args
        if k == "cmp":
            op, key, c, s = a
            z = s * ((rec if key is None else rec[key]) - c)
            if op in (">", ">="):
                return sig(z)
            if op in ("<", "<="):
                return sig(-z)
            return np.minimum(sig(z), sig(-z))
        if k == "and":
            return np.minimum(a[0].at(rec), a[1].at(rec))
        if k == "or":
            return np.maximum(a[0].at(rec), a[1].at(rec))
        if k == "not":
            return 1 - a[0].at(rec)
        return a[0].at(rec[a[1]])


def compare(v, op, c):
    return {">": lambda: v > c, ">=": lambda: v >= c, "<": lambda: v < c,
            "<=": lambda: v <= c, "==": lambda: v == c}[op]()


def comparison(rng, x, default, keyed, keys=KEYS):
    """one comparison of x, (statement, model)"""
    op = gen.pick(rng, [">", ">=", "<", "<=", "=="])
    c = gen.pick(rng, [float(np.round(rng.uniform(-5, 20), 1)),
                       int(rng.integers(-5, 20))])
    s = float(rng.uniform(0.05, 12))
    if gen.chance(rng, 0.1):
        s = float(gen.pick(rng, [0, 1e-3, 150]))
    key = gen.pick(rng, keys) if keyed else None
    v, used = x, default
    how = int(rng.integers(4))
    if keyed:
        if how == 0:
            v = x[key]
        elif how == 1:
            v, used = x[key](s), s
        elif how == 2:
            v, used = x(s)[key], s
        else:
            v = x[key]
    elif how % 2:
        v, used = x(s), s
    return compare(v, op, c), Model("cmp", op, key, c, used)


def record(rng, keyed, keys=KEYS):
    if keyed:
        return {k: float(np.round(rng.uniform(-6, 21), 1)) for k in keys}
    return float(np.round(rng.uniform(-6, 21), 1))


@check.case(quick=400, thorough=6000)
def statements(m):
    rng = m.rng
    keyed = gen.chance(rng, 0.6)
    default = 10
    if gen.chance(rng, 0.5):
        default = float(rng.uniform(0.1, 15))
        x = FuzzyVariable(default)
    else:
        x = FuzzyVariable()
    known = []
    keys = gen.pick(rng, OTHER_KEYS)
    recs = [record(rng, keyed, keys) for _ in range(4)]
    n = int(rng.integers(3, 9))
    m.given(keyed=keyed, default=default, recs=recs, n=n)
    for _ in range(n):
        k = int(rng.integers(4)) if known else 0
        if k == 0:
            known.append(comparison(rng, x, default, keyed, keys))
        elif k == 3:
            a, fa = gen.pick(rng, known)
            known.append((~a, Model("not", fa)))
        else:
            (a, fa), (b, fb) = gen.pick(rng, known), gen.pick(rng, known)
            known.append((a & b, Model("and", fa, fb)) if k == 1
                         else (a | b, Model("or", fa, fb)))
        m.state("statement", (k, len(known)))
        for i, (a, f) in enumerate(known):
            for rec in recs:
                got, want = a(rec), f.at(rec)
                m.close(got, want, "statement" if i == len(known) - 1
                        else "statement-kept", rtol=1e-9, atol=1e-12,
                        text=str(a))
                m.ok(0 <= got <= 1, "range", str(got))
                m.event("evaluation")
    # all at once on arrays
    if keyed:
        arr = {k: np.array([r[k] for r in recs]) for k in keys}
    else:
        arr = np.array(recs)
    for a, f in known:
        got = a(arr)
        m.equal(np.shape(got), (len(recs),), "pointwise-shape", str(a))
        m.close(got, [f.at(r) for r in recs], "pointwise", rtol=1e-9,
                atol=1e-12, text=str(a))
        nest = [Model("item", f, "boat")]
        m.close(a["boat"]({"boat": recs[0]}), nest[0].at({"boat": recs[0]}),
                "item", rtol=1e-9, atol=1e-12)
        m.ok(isinstance(str(a), str) and len(str(a)) > 0, "text")
        m.raises(KeyError, lambda: a["boat"]({"ship": recs[0]}),
                 "missing-item", str(a))
        if keyed and keys is not KEYS:
            m.raises(KeyError, lambda: (x["nothing"] > 1)(recs[0]),
                     "missing-item")
    if keyed and keys == [0, 1, 2]:
        a, f = known[-1]
        m.close(FuzzyWeigher(a).weigh(np.array(
            [[r[k] for k in keys] for r in recs])), [f.at(r) for r in recs],
            "weigher", rtol=1e-9, atol=1e-12)
    elif keyed:
        d = Data.from_dict({k: arr[k].tolist() for k in keys})
        a, f = known[-1]
        m.close(FuzzyWeigher(a).weigh(d), [f.at(r) for r in recs],
                "weigher", rtol=1e-9, atol=1e-12)


@check.case(quick=300, thorough=4000)
def comparison_laws(m):
    rng = m.rng
    c = float(rng.uniform(-20, 40))
    s = float(rng.uniform(0.1, 10))
    d = np.sort(rng.uniform(0, 30 / s, 8))
    m.given(c=c, s=s, d=d)
    x = FuzzyVariable()
    up, down, eq = x(s) > c, x(s) < c, x(s) == c
    for f in (up, down, eq, x >= c, x <= c):
        m.close(f(c), 0.5, "half-at-threshold", atol=1e-12)
    xs = np.concatenate([c - d[::-1], c + d])
    u = np.array([up(v) for v in xs])
    m.ok(np.all(np.diff(u) >= 0), "monotone", u=u)
    lo = np.array([down(v) for v in xs])
    m.ok(np.all(np.diff(lo) <= 0), "monotone", lo=lo)
    m.close(u + lo, np.ones(len(xs)), "opposites", atol=1e-12)
    m.close(u, 1 - u[::-1], "symmetric", atol=1e-9)
    far = 800 / s
    with np.errstate(over="ignore"):
        m.close([up(c + far), up(c - far), down(c - far), down(c + far),
                 eq(c + far), eq(c - far)], [1, 0, 1, 0, 0, 0], "limits",
                atol=1e-12)
    e = np.array([eq(v) for v in xs])
    m.close(e, e[::-1], "symmetric", atol=1e-9)
    m.close(e, np.minimum(u, lo), "equality", atol=1e-12)
    sharp = x(s * 1.7) > c
    for v in xs:
        a, b = abs(up(v) - 0.5), abs(sharp(v) - 0.5)
        m.ok(b >= a - 1e-12, "sharper-is-steeper", f"{a} {b}", v=v)
    m.event("law", 12)


@check.case(quick=300, thorough=4000)
def algebra(m):
    rng = m.rng
    vals = {i: float(rng.random()) for i in range(3)}
    a, b, c = (FuzzyBool(lambda x, i=i: x[i]) for i in range(3))
    m.given(vals=vals)

    def same(f, g, law):
        m.close(f(vals), g(vals), law, rtol=0, atol=1e-12)
        m.event("law")

    same(~(a & b), ~a | ~b, "de-morgan")
    same(~(a | b), ~a & ~b, "de-morgan")
    same(~~a, a, "double-negation")
    same(a & b, b & a, "commutative")
    same(a | b, b | a, "commutative")
    same(a & (b | c), (a & b) | (a & c), "distributive")
    same(a | (b & c), (a | b) & (a | c), "distributive")
    same(a & (a | b), a, "absorption")
    same((a & b) & c, a & (b & c), "associative")
    same((a | b) | c, a | (b | c), "associative")
    m.equal((a & b)(vals), min(vals[0], vals[1]), "minimum")
    m.equal((a | b)(vals), max(vals[0], vals[1]), "maximum")
    m.equal((~a)(vals), 1 - vals[0], "complement")


@check.case(quick=100, thorough=1000)
def sigmoid(m):
    rng = m.rng
    c, s = float(rng.uniform(-5, 5)), float(rng.uniform(0.1, 5))
    v = rng.uniform(-8, 8, 6)
    m.given(c=c, s=s, v=v)
    m.close(FuzzyBool.sigmoid(c, s, -1)(v), sig(s * (v - c)), "sigmoid",
            rtol=1e-9)
    m.close(FuzzyBool.sigmoid(c, s, 1)(v), sig(-s * (v - c)), "sigmoid",
            rtol=1e-9)
    m.event("sigmoid")
