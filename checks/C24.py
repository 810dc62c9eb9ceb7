"""C24: the pipeline runs its stages once, in order, accounting for records."""
import copy
import os
import warnings
from datetime import datetime, timedelta

import numpy as np

import hrosailing.models as mod
import hrosailing.pipeline as pl
import hrosailing.processing as pc
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.models.influencemodel import InfluenceModel
from hrosailing.processing.injector import Injector, ZeroInjector
from hrv import Check, gen

check = Check(
    "C24",
    "Pipelines of recording components (around the components of the "
    "package and around stand-ins that drop rows, add columns, hold "
    "statistics or empty the data) run with all combinations of enabled "
    "stages, aliases, several files, test data and repeated runs. The "
    "recorded calls are checked for order, multiplicity and hand-over of the "
    "data from stage to stage, the statistics against what each component "
    "reported right after its call, the records against what the stages "
    "report as removed, and runs against runs of fresh pipelines.",
    ["the k-th call of a stage belongs to the k-th file",
     "stages may be skipped for files without records"],
)


def snap(x):
    if isinstance(x, Data):
        return {k: list(x[k]) for k in x.keys()}
    if isinstance(x, WeightedPoints):
        return (snap(x.data), np.array(x.weights))
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def n_rows(s):
    if isinstance(s, dict):
        return max((len(c) for c in s.values()), default=0)
    return len(s)


class Log(list):
    def add(self, pos, name, arg, out, stats):
        self.append((pos, name, arg, out, copy.deepcopy(stats)))


def _recording(base, methods):
    class Rec(base):
        def __init__(self, inner, pos, log):
            self.inner, self.pos, self.log = inner, pos, log

        def get_latest_statistics(self):
            return self.inner.get_latest_statistics()

        def set_statistics(self, *a, **k):
            self.inner.set_statistics(*a, **k)

        def add_influence(self, pd, influence_data):
            return self.inner.add_influence(pd, influence_data)

    def make(name):
        def call(self, *args, **kw):
            args = args + tuple(kw.values())
            arg = [snap(a) for a in args]
            out = getattr(self.inner, name)(*args)
            stats = (self.inner.get_latest_statistics()
                     if hasattr(self.inner, "get_latest_statistics") else out)
            self.log.add(self.pos, name, arg, snap(out), stats)
            return out
        return call

    for name in methods:
        setattr(Rec, name, make(name))
    Rec.__abstractmethods__ = frozenset()
    return Rec


STAGES = {
    "data_handler": (pc.DataHandler, ["handle"]),
    "imputator": (pc.imputator.Imputator, ["impute"]),
    "smoother": (pc.Smoother, ["smooth"]),
    "pre_expander_weigher": (pc.Weigher, ["weigh"]),
    "pre_expander_filter": (pc.Filter, ["filter"]),
    "expander": (pl.Expander, ["expand"]),
    "pre_influence_weigher": (pc.Weigher, ["weigh"]),
    "pre_influence_filter": (pc.Filter, ["filter"]),
    "influence_model": (InfluenceModel, ["fit", "remove_influence"]),
    "post_weigher": (pc.Weigher, ["weigh"]),
    "post_filter": (pc.Filter, ["filter"]),
    "injector": (Injector, ["inject"]),
    "extension": (pl.PipelineExtension, ["process"]),
    "quality_assurance": (pl.QualityAssurance, ["check"]),
}
# names of the positions in the statistics, in the documented order
STAT = {"pre_expander_weigher": "pre_expanding_weigher",
        "pre_expander_filter": "pre_expanding_filter"}
RECORDERS = {k: _recording(*v) for k, v in STAGES.items()}


# ------------------------------------------------------------- stand-ins
class DictHandler(pc.DataHandler):
    """Files are dictionaries of columns."""

    def handle(self, data):
        out = Data.from_dict(data)
        self.set_statistics(out)
        return out


class HashWeigher(pc.Weigher):
    """Weights that depend on the row only."""

    def __init__(self, salt):
        super().__init__()
        self.salt = salt

    def weigh(self, points):
        if isinstance(points, Data):
            col = np.array(points["TWA"], float)
        else:
            col = points[:, 1]
        w = np.abs(np.sin(col * 12.9898 + self.salt))
        self.set_statistics(w)
        return w


class ThresholdFilter(pc.Filter):
    def __init__(self, level):
        super().__init__()
        self.level = level

    def filter(self, wts):
        mask = np.asarray(wts) > self.level
        self.set_statistics(mask)
        return mask


class ShiftSmoother(pc.Smoother):
    def smooth(self, data):
        out = Data.from_dict({k: data[k] for k in data.keys()})
        if out.n_rows and "BSP" in out:
            out["BSP"][:] = [b + 0.125 for b in out["BSP"]]
        super().set_statistics(n_smoothed=out.n_rows)
        return out


class AddingExpander(pl.Expander):
    def expand(self, data):
        out = Data.from_dict({k: data[k] for k in data.keys()})
        if data.n_rows:
            out.extend("wave", [0.5] * data.n_rows)
        if out.n_rows > 3:
            out.delete([1])
        self.set_statistics(out)
        return out


class KeepingModel(mod.IdentityInfluenceModel):
    """Keeps one dictionary of statistics for fits and for uses."""

    def __init__(self):
        super().__init__()
        self.mode = "one"
        self.n_fit, self._one, self._two = 0, {}, {}
        self._now = {}

    def get_latest_statistics(self):
        return self._now

    def fit(self, training_data):
        self.n_fit += 1
        self._one["fitted"] = training_data.n_rows
        self._now = self._one

    def remove_influence(self, data):
        out = super().remove_influence(data)
        self._two["removed"] = len(out)
        self._now = self._two
        return out + np.array([0.25, 0, 0])


class AddInjector(Injector):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def inject(self, weighted_points):
        self.set_statistics(self.n)
        return WeightedPoints(
            np.column_stack([np.linspace(1, 9, self.n), np.full(self.n, 7.0),
                             np.full(self.n, 3.0)]),
            np.linspace(0.1, 0.9, self.n) * (self.n % 2))


class PlainExtension(pl.PipelineExtension):
    def process(self, weighted_points):
        from hrosailing.polardiagram import PolarDiagramPointcloud
        self.set_statistics(n_points=len(weighted_points.data))
        return PolarDiagramPointcloud(weighted_points.data.copy())


class CountingQuality(pl.QualityAssurance):
    def check(self, polar_diagram, test_data):
        return {"n": len(test_data), "sum": float(np.sum(test_data))}


CHOICES = {
    "imputator": [
        lambda r: pc.RemoveOnlyImputator(),
        lambda r: pc.FillLocalImputator()],
    "smoother": [
        lambda r: pc.LazySmoother(), lambda r: ShiftSmoother()],
    "weigher": [
        lambda r: pc.AllOneWeigher(),
        lambda r: pc.CylindricMeanWeigher(radius=float(r.uniform(.05, 2))),
        lambda r: pc.CylindricMemberWeigher(radius=float(r.uniform(.05, 2))),
        lambda r: HashWeigher(float(r.uniform(0, 6))),
        lambda r: HashWeigher(float(r.uniform(0, 6)))],
    "filter": [
        lambda r: pc.QuantileFilter(float(r.uniform(0, 70))),
        lambda r: pc.BoundFilter(float(r.uniform(0, 0.5)), 1),
        lambda r: ThresholdFilter(float(r.uniform(-0.1, 0.5)))],
    "expander": [
        lambda r: pl.LazyExpander(), lambda r: AddingExpander()],
    "influence_model": [
        lambda r: mod.IdentityInfluenceModel(), lambda r: KeepingModel()],
    "injector": [
        lambda r: ZeroInjector(int(r.integers(1, 9))),
        lambda r: AddInjector(int(r.integers(0, 5)))],
    "extension": [
        lambda r: PlainExtension(), lambda r: PlainExtension(),
        lambda r: pl.TableExtension(
            wind_resolution=([4, 8, 12], [30, 60, 120, 200, 300]),
            neighbourhood=pc.Ball(radius=30),
            interpolator=pc.IDWInterpolator())],
    "quality_assurance": [
        lambda r: CountingQuality(), lambda r: pl.MinimalQualityAssurance(),
        lambda r: pl.ComformingQualityAssurance()],
}


def components(rng):
    """{position: factory with its own generator state}"""
    out = {}
    for pos in STAGES:
        if pos == "data_handler":
            continue
        kind = ("weigher" if pos.endswith("weigher") else
                "filter" if pos.endswith("filter") else pos)
        f = gen.pick(rng, CHOICES[kind])
        seed = int(rng.integers(2 ** 31))
        out[pos] = (lambda f=f, seed=seed: f(np.random.default_rng(seed)))
    if isinstance(out["quality_assurance"](), pl.ComformingQualityAssurance):
        # asks at wind speed 0, which point clouds refuse
        out["extension"] = lambda: CHOICES["extension"][2](None)
    return out


ALIAS = {"post_filter": "filter", "post_weigher": "weigher",
         "pre_influence_filter": "pre_filter",
         "pre_influence_weigher": "pre_weigher"}
FLAGS = {"smoother": "smoothing",
         "pre_expander_weigher": "pre_expander_weighing",
         "pre_expander_filter": "pre_expander_filtering",
         "pre_influence_weigher": "pre_influence_weighing",
         "pre_influence_filter": "pre_influence_filtering",
         "post_weigher": "post_weighing", "post_filter": "post_filtering",
         "injector": "injecting", "quality_assurance": "testing"}
FLAG_ALIAS = {"pre_influence_weighing": "pre_weighing",
              "pre_influence_filtering": "pre_filtering",
              "post_weighing": "weighing", "post_filtering": "filtering"}


def random_flags(rng):
    """(flags as given, {position: enabled})"""
    mode = int(rng.integers(3))
    given, enabled = {}, {}
    for pos, flag in FLAGS.items():
        on = True if mode == 0 else gen.chance(rng, 0.7 if mode == 1 else 0.4)
        enabled[pos] = on
        if on and gen.chance(rng, 0.6):
            continue  # enabled is the default
        if flag in FLAG_ALIAS and gen.chance(rng, 0.4):
            flag = FLAG_ALIAS[flag]
        given[flag] = on
    return given, enabled


def file(rng, tag, holes=True):
    n = int(rng.integers(1, 40)) if gen.chance(rng, 0.9) else 1
    if gen.chance(rng, 0.01):  # a long voyage
        n = int(rng.integers(1001, 2600))
    t0 = datetime(2021, 6, 1) + timedelta(days=tag)
    step = float(gen.pick(rng, [1, 5, 60]))
    cols = {
        "datetime": [t0 + timedelta(seconds=step * i) for i in range(n)],
        "lat": [tag + i / 1000 for i in range(n)],
        "TWS": [float(x) for x in rng.uniform(1, 15, n)],
        "TWA": [float(x) for x in rng.uniform(0, 359, n)],
        "BSP": [float(x) for x in rng.uniform(0, 9, n)]}
    if holes and gen.chance(rng, 0.5) and n > 3:
        for name in ("TWS", "TWA", "BSP"):
            for i in rng.integers(0, n, int(rng.integers(0, n // 3 + 1))):
                cols[name][i] = None
    return cols


def files(rng, base=0, n=None):
    n = int(rng.integers(1, 4)) if n is None else n
    return [file(rng, base + i) for i in range(n)]


def build(rng, comps, handlers, log, use_alias=True):
    """A pipeline of recorded components."""
    kw = {}
    for pos, factory in comps.items():
        name = ALIAS[pos] if (
            use_alias and pos in ALIAS and gen.chance(rng, 0.4)) else pos
        kw[name] = RECORDERS[pos](factory(), pos, log)
    if isinstance(handlers, int):
        kw["data_handler"] = [
            RECORDERS["data_handler"](DictHandler(), f"data_handler{i}", log)
            for i in range(handlers)]
        if gen.chance(rng, 0.3):
            kw["data_handler"] = tuple(kw["data_handler"])
    else:
        kw["data_handler"] = RECORDERS["data_handler"](
            DictHandler(), "data_handler", log)
    return pl.PolarPipeline(**kw)


class Chain:
    """Replays the documented stages over the recorded calls."""

    def __init__(self, m, log, enabled, several):
        self.m, self.on, self.several = m, enabled, several
        self.calls = {}
        for pos, name, arg, out, stats in log:
            key = "data_handler" if pos.startswith("data_handler") else pos
            self.calls.setdefault((key, name), []).append(
                (pos, arg, out, stats))
            m.event("stage call recorded")
        self.used = {k: 0 for k in self.calls}

    def take(self, pos, name, arg, may_skip=False):
        """The next call of a stage, which has to be for ``arg``."""
        m = self.m
        calls = self.calls.get((pos, name), [])
        i = self.used.get((pos, name), 0)
        if i >= len(calls) or (
                may_skip and not _eq(calls[i][1], arg)):
            if may_skip:
                return None
            m.ok(False, "stage-called", f"{pos}.{name} was not called")
        self.used[(pos, name)] = i + 1
        m.equal(calls[i][1], arg, "stage-input",
                f"{pos}.{name} gets the result of the stage before")
        return calls[i]

    def enabled(self, pos):
        return self.on.get(pos, True)

    def weigh_filter(self, data, w_pos, f_pos, stats):
        m = self.m
        empty = n_rows(data) == 0
        if self.enabled(w_pos):
            c = self.take(w_pos, "weigh", [data], may_skip=empty)
            weights = np.asarray(c[2]) if c else np.empty(0)
            stats.append((w_pos, c[3] if c else None))
        else:
            weights = np.ones(n_rows(data))
            stats.append((w_pos, "ones" if not empty else None))
        if self.enabled(f_pos):
            c = self.take(f_pos, "filter", [weights], may_skip=empty)
            mask = np.asarray(c[2], bool) if c else np.ones(0, bool)
            stats.append((f_pos, c[3] if c else None))
        else:
            mask = np.ones(n_rows(data), bool)
            stats.append((f_pos, "off"))
        m.equal(len(mask), n_rows(data), "one-decision-per-record")
        m.event("records filtered", int(np.sum(~mask)))
        if isinstance(data, dict):
            out = {k: [v for v, keep in zip(c, mask) if keep]
                   for k, c in data.items()}
        else:
            out = data[mask]
        return out, weights[mask]

    def preprocess(self, inputs, fit):
        stats, per_file, after = [], [], []
        order = []
        for k, data in enumerate(inputs):
            s = []
            c = self.take("data_handler", "handle", [data])
            order.append(c[0])
            s.append(("data_handler", c[3]))
            c = self.take("imputator", "impute", [c[2]])
            s.append(("imputator", c[3]))
            if self.enabled("smoother"):
                c = self.take("smoother", "smooth", [c[2]])
                s.append(("smoother", c[3]))
            else:
                s.append(("smoother", "off"))
            data, _ = self.weigh_filter(
                c[2], "pre_expander_weigher", "pre_expander_filter", s)
            c = self.take("expander", "expand", [data])
            s.append(("expander", c[3]))
            data, _ = self.weigh_filter(
                c[2], "pre_influence_weigher", "pre_influence_filter", s)
            after.append(data)
            per_file.append(s)
        keys = []
        for d in after:
            keys += [k for k in d if k not in keys]
        total = {k: [v for d in after for v in
                     d.get(k, [None] * n_rows(d))] for k in keys}
        fitted = {}
        if fit:
            c = self.take_data("fit", total)
            fitted = c[3]
        c = self.take_data("remove_influence", total)
        stats.append(("influence_model", {**c[3], **fitted}))
        points, weights = self.weigh_filter(
            np.asarray(c[2]), "post_weigher", "post_filter", stats)
        return points, weights, per_file, stats, order

    def take_data(self, name, total):
        """Calls of the influence model: the order of columns is free."""
        calls = self.calls.get(("influence_model", name), [])
        i = self.used.get(("influence_model", name), 0)
        self.m.ok(i < len(calls), "stage-called", f"influence_model.{name}")
        self.used[("influence_model", name)] = i + 1
        got = calls[i][1][0]
        self.m.equal({k: got[k] for k in sorted(got)},
                     {k: total[k] for k in sorted(total)}, "stage-input",
                     f"influence_model.{name} gets all files")
        return calls[i]

    def finish(self):
        for key, calls in self.calls.items():
            self.m.equal(self.used[key], len(calls), "stage-once",
                         f"number of calls of {key}")
        for pos, name in self.calls:
            self.m.ok(self.enabled(pos), "disabled-stage",
                      f"{pos} is disabled")


def _eq(a, b):
    from hrv.core import _same
    return _same(a, b)


def judge_stats(m, stats, per_file, whole, what):
    for k, s in enumerate(per_file):
        for pos, want in s:
            got = getattr(stats, STAT.get(pos, pos))
            if want == "off":
                m.ok(not got or not got.get(k), "disabled-statistics",
                     f"{what}: {pos} was disabled", got=got)
                continue
            if want is None:
                continue
            m.ok(isinstance(got, dict) and k in got, "statistics-per-file",
                 f"{what}: {pos} of file {k}")
            judge_one(m, got[k], want, f"{what}: {pos} of file {k}")
        for pos, _ in s:
            got = getattr(stats, STAT.get(pos, pos))
            m.ok(not got or set(got) <= set(range(len(per_file))),
                 "statistics-per-file", f"{pos}: one entry per file")
    for pos, want in whole:
        got = getattr(stats, pos)
        if want == "off":
            m.equal(got, {}, "disabled-statistics", f"{what}: {pos}")
        elif want is not None:
            judge_one(m, got, want, f"{what}: {pos}")


def judge_one(m, got, want, text):
    m.event("statistics compared")
    if isinstance(want, str) and want == "ones":
        if got:
            m.equal([float(got[k]) for k in ("average_weight",
                                             "minimal_weight",
                                             "maximal_weight")],
                    [1.0, 1.0, 1.0], "statistics", text)
        return
    m.equal({k: got[k] for k in sorted(got)},
            {k: want[k] for k in sorted(want)}, "statistics", text)


def strip_time(out):
    t = out.training_statistics._asdict()
    t["quality_assurance"] = {
        k: v for k, v in t["quality_assurance"].items()
        if k != "execution time"}
    return copy.deepcopy((t, out.test_statistics._asdict()))


def run(pipe, train, test, flags):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if test is None:
            return pipe(train, **flags)
        return pipe(train, test, **flags)


def judge_run(m, pipe, log, train, test, flags, enabled):
    """Runs once and checks the recorded execution."""
    del log[:]
    enabled = dict(enabled)
    testing = test is not None and enabled["quality_assurance"]
    t_in, e_in = copy.deepcopy(train), copy.deepcopy(test)
    try:
        out = run(pipe, train, test, flags)
        failed = False
    except RuntimeError as e:
        m.ok("mpty" in str(e), "empty-data", str(e))
        failed = True
    m.equal(train, t_in, "inputs-unchanged", "training data")
    m.equal(test, e_in, "inputs-unchanged", "test data")
    m.state("stages", tuple(sorted(enabled.items())) + (testing, failed))
    chain = Chain(m, log, enabled, len(train) > 1)
    points, weights, per_file, whole, order = chain.preprocess(train, True)
    m.equal(failed, len(points) == 0, "empty-data",
            "pipelines fail exactly on data without any record left")
    if failed:
        chain.finish()
        return None
    if chain.enabled("injector"):
        c = chain.take("injector", "inject", [(points, weights)])
        inj = c[2]
        whole.append(("injector", c[3]))
        points = np.row_stack([points, inj[0]])
        weights = np.concatenate([weights, inj[1]])
    else:
        whole.append(("injector", "off"))
    c = chain.take("extension", "process", [(points, weights)])
    whole.append(("extension", c[3]))
    m.ok(out.polardiagram is c[2], "diagram",
         "the diagram is that of the extension")
    judge_stats(m, out.training_statistics, per_file, whole, "training")
    qa = dict(out.training_statistics.quality_assurance)
    m.ok(qa.pop("execution time") >= 0, "execution-time")
    if testing:
        pts, _, per_file, whole2, order2 = chain.preprocess(test, False)
        judge_stats(m, out.test_statistics, per_file, whole2, "test")
        order += order2
        calls = chain.calls.get(("quality_assurance", "check"), [])
        m.equal(len(calls), 1, "stage-called", "quality_assurance")
        chain.used[("quality_assurance", "check")] = 1
        m.ok(calls[0][1][0] is c[2], "stage-input",
             "the diagram is what is tested")
        m.equal(np.asarray(calls[0][1][1]), np.asarray(pts), "stage-input",
                "tested against the preprocessed test data")
        want = dict(calls[0][2])
        want.pop("execution time", None)
        m.equal(qa, want, "statistics", "quality assurance")
        for pos in ("injector", "extension", "quality_assurance"):
            m.equal(getattr(out.test_statistics, pos), {},
                    "test-statistics", pos)
        m.event("run with test data")
    else:
        m.equal(qa, {}, "statistics", "quality assurance without tests")
        m.ok(all(not s for s in out.test_statistics), "test-statistics",
             "no test data, no statistics")
    chain.finish()
    if order and order[0] != "data_handler":
        m.equal(order, [f"data_handler{i}" for i in range(len(order))],
                "handlers", "handlers are used one after another")
    m.event("run checked")
    return out


@check.case(quick=500, thorough=12000, budget=300_000_000)
def stages(m):
    """Calls, data and statistics of single and repeated runs."""
    rng = m.rng
    comps = components(rng)
    log = Log()
    several = int(rng.integers(1, 4)) if gen.chance(rng, 0.3) else None
    n_test = int(rng.integers(1, 3)) if gen.chance(rng, 0.6) else 0
    handlers = None if several is None else several + n_test
    m.given(components={k: type(f()).__name__ for k, f in comps.items()},
            handlers=handlers)
    pipe = build(rng, comps, handlers, log)
    for r in range(int(rng.integers(1, 4))):
        train = files(rng, 0, several)
        test = files(rng, 20, n_test) if n_test else None
        flags, enabled = random_flags(rng)
        m.given(**{f"run{r}": {"flags": flags, "train": train,
                               "test": test}})
        judge_run(m, pipe, log, train, test, flags, enabled)


def same_output(m, a, b, mech, text):
    m.equal(strip_time(a), strip_time(b), mech, text + ": statistics")
    for get in ("wind_speeds", "wind_angles", "boat_speeds", "points"):
        if hasattr(a.polardiagram, get):
            m.equal(getattr(a.polardiagram, get),
                    getattr(b.polardiagram, get), mech, f"{text}: {get}")


@check.case(quick=120, thorough=4000, budget=300_000_000)
def runs(m):
    """Repeated runs are those of fresh pipelines; outputs are final."""
    rng = m.rng
    comps = components(rng)
    m.given(components={k: type(f()).__name__ for k, f in comps.items()})
    log = Log()
    pipe = build(rng, comps, None, log)
    kept = []
    for r in range(int(rng.integers(2, 5))):
        if kept and gen.chance(rng, 0.4):
            train, test, flags = kept[int(rng.integers(len(kept)))][:3]
        else:
            train = files(rng, 0)
            test = files(rng, 20) if gen.chance(rng, 0.5) else None
            flags, _ = random_flags(rng)
        m.given(**{f"run{r}": {"flags": flags, "train": train,
                               "test": test}})
        fresh = build(rng, comps, None, Log())
        try:
            out = run(pipe, train, test, dict(flags))
        except RuntimeError:
            m.raises(RuntimeError,
                     lambda: run(fresh, train, test, dict(flags)),
                     "independent-runs")
            continue
        again = run(fresh, train, test, dict(flags))
        same_output(m, out, again, "independent-runs",
                    f"run {r} and a fresh pipeline")
        kept.append((train, test, flags, out, strip_time(out)))
        m.event("run compared with a fresh pipeline")
        m.state("repeated", (r, bool(test)))
    for k, (_, _, _, out, before) in enumerate(kept):
        m.equal(strip_time(out), before, "outputs-final",
                f"the output of run {k} is not changed by later runs")


@check.case(quick=200, thorough=3000, budget=300_000_000)
def accounting(m):
    """Records are accounted for by the statistics alone."""
    rng = m.rng
    train, test = files(rng), files(rng, 20)
    flags, enabled = random_flags(rng)
    comps = components(rng)
    comps["expander"] = pl.LazyExpander
    comps["extension"] = PlainExtension
    comps["quality_assurance"] = CountingQuality
    m.given(train=train, test=test, flags=flags,
            components={k: type(f()).__name__ for k, f in comps.items()})
    kw = {k: f() for k, f in comps.items()}
    pipe = pl.PolarPipeline(data_handler=DictHandler(), **kw)
    try:
        out = run(pipe, train, test, flags)
    except RuntimeError:
        m.event("no record left")
        return
    for data, st in ((train, out.training_statistics),
                     (test, out.test_statistics)):
        if st.data_handler == {}:
            continue
        left = 0
        for k, f in enumerate(data):
            n = len(f["TWS"])
            m.equal(st.data_handler[k]["n_rows"], n, "records-read")
            n -= st.imputator[k]["n_removed_rows"]
            m.equal(st.imputator[k]["n_rows"], n, "records-imputed")
            for pos, name in (("pre_expander_filter",
                               "pre_expanding_filter"),
                              ("pre_influence_filter",
                               "pre_influence_filter")):
                s = getattr(st, name)
                if enabled[pos] and n:
                    n -= s[k]["n_filtered_points"]
                    m.equal(s[k]["n_rows"], n, "records-filtered", name)
                if pos == "pre_expander_filter":
                    m.equal(st.expander[k]["n_rows"], n, "records-expanded")
                m.event("position accounted for")
            left += n
        if enabled["post_filter"] and left:
            left -= st.post_filter["n_filtered_points"]
            m.equal(st.post_filter["n_rows"], left, "records-filtered",
                    "post_filter")
        if st is out.training_statistics:
            if enabled["injector"]:
                left += st.injector["n_injected"]
            m.equal(st.extension["n_points"], left, "records-used")
            m.equal(len(out.polardiagram.points), left, "records-used")
            m.event("diagram accounted for")


class _Frame:
    """Column files for the handlers of the package."""

    def __init__(self, rng, path):
        self.path = path
        self.kinds = []

    def write(self, cols, kind, k):
        if kind == "array":
            keys = list(cols)
            arr = np.empty((len(cols["TWS"]), len(keys)), object)
            for i, c in enumerate(keys):
                arr[:, i] = cols[c]
            return arr, keys
        name = os.path.join(self.path, f"f{k}.csv")
        with open(name, "w", encoding="utf-8") as f:
            keys = list(cols)
            f.write(",".join(keys) + "\n")
            for i in range(len(cols["TWS"])):
                f.write(",".join(
                    (cols[c][i].isoformat() if c == "datetime"
                     else repr(cols[c][i])) for c in keys) + "\n")
        return name


@check.case(quick=12, thorough=300, budget=60_000_000)
def defaults(m):
    """Components not given are the documented ones."""
    rng = m.rng
    train = [file(rng, i, holes=False) for i in range(int(rng.integers(1, 3)))]
    test = [file(rng, 20, holes=False)]
    for f in train + test:  # enough similar records to survive
        n = len(f["TWS"])
        reps = 3
        for k in f:
            f[k] = [v for v in f[k] for _ in range(reps)]
        f["datetime"] = [f["datetime"][0] + timedelta(seconds=i)
                         for i in range(n * reps)]
    explicit = {
        "imputator": pc.FillLocalImputator(), "smoother": pc.LazySmoother(),
        "pre_expander_weigher": pc.CylindricMeanWeigher(),
        "pre_expander_filter": pc.QuantileFilter(),
        "expander": pl.LazyExpander(),
        "pre_influence_weigher": pc.CylindricMeanWeigher(),
        "pre_influence_filter": pc.QuantileFilter(),
        "influence_model": mod.IdentityInfluenceModel(),
        "post_weigher": pc.CylindricMeanWeigher(),
        "post_filter": pc.QuantileFilter(),
        "injector": ZeroInjector(500), "extension": pl.TableExtension(),
        "quality_assurance": pl.MinimalQualityAssurance()}
    drop = {k for k in explicit if gen.chance(rng, 0.5)}
    given = {k: v for k, v in explicit.items() if k not in drop}
    m.given(train=train, test=test, left_out=sorted(drop))
    a = run(pl.PolarPipeline(data_handler=DictHandler(), **explicit),
            train, test, {})
    b = run(pl.PolarPipeline(data_handler=DictHandler(), **given),
            train, test, {})
    same_output(m, a, b, "defaults", "documented defaults")
    # other flags, all on unless they are switched off
    flags = {f: True for f in FLAGS.values()}
    c = run(pl.PolarPipeline(data_handler=DictHandler(), **explicit),
            train, test, flags)
    same_output(m, a, c, "defaults", "stages are enabled by default")
    # several formats handled one after another
    fr = _Frame(rng, m.scratch())
    kinds = [gen.pick(rng, ["array", "csv", "dict"]) for _ in train + test]
    make = {"array": pc.ArrayHandler, "dict": DictHandler,
            "csv": lambda: pc.CsvFileHandler("%Y-%m-%dT%H:%M:%S")}
    data = [x if k == "dict" else fr.write(x, k, i) for i, (x, k) in
            enumerate(zip(train + test, kinds))]
    p = pl.PolarPipeline(data_handler=[make[k]() for k in kinds], **explicit)
    for _ in range(2):
        d = run(p, data[:len(train)], data[len(train):], {})
        for get in ("wind_speeds", "wind_angles", "boat_speeds"):
            m.close(getattr(d.polardiagram, get),
                    getattr(a.polardiagram, get), "handlers",
                    f"the same records read by {kinds}: {get}", atol=1e-6)
        for name in ("n_rows",):
            m.equal({k: v[name] for k, v in
                     d.training_statistics.data_handler.items()},
                    {k: v[name] for k, v in
                     a.training_statistics.data_handler.items()}, "handlers")
        m.event("formats mixed")


if __name__ == "__main__":
    check.main()
