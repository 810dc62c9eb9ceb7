"""Case runner, monitors, verdicts and evidence.

A check is a list of *cases*.  A case is a function ``f(m)`` that generates one
workload from ``m.rng``, drives the public API of the real package with it and
hands what it observed to oracles through ``m``.  The runner repeats every case
with independent, reproducible generators until its iteration quota or the soft
time limit is reached.

Verdicts are three-valued:

* an oracle refuted an observation, the code under test raised where the
  property says it must not, or it exceeded its logical step budget
  -> VIOLATION, exit 1 (unless the mechanism is a listed known finding)
* every required monitor was reached and nothing was refuted -> held, exit 0
* a required monitor was never reached, or the wall clock watchdog fired
  -> inconclusive, exit 2
"""

import hashlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from contextlib import contextmanager

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HRV_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "hrosailing") + os.sep
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
HARD_WALL_S = 840
#: processor seconds for one execution (they usually take well below one);
#: catches what goes on for ever without jumps inside the package
CPU_S = {"quick": 150, "thorough": 300, "self": 3}
MEMORY = 12 << 30


class Violation(AssertionError):
    def __init__(self, mech, msg, details=None):
        super().__init__(f"[{mech}] {msg}")
        self.mech = mech
        self.msg = msg
        self.details = details or {}


class StepBudgetExceeded(BaseException):
    """The code under test made more loop iterations than its budget."""


class Inconclusive(BaseException):
    pass


# --------------------------------------------------------------------------
# execution monitor: logical steps (backward and forward jumps) spent inside
# the package, and the set of its source lines that were reached
# --------------------------------------------------------------------------
class _ExecMonitor:
    TOOL = 4

    def __init__(self):
        self.lines = set()
        self.jumps = 0
        self.budget = None
        self.active = False

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "hrv")
        ev = mon.events
        mon.register_callback(self.TOOL, ev.LINE, self._line)
        mon.register_callback(self.TOOL, ev.JUMP, self._jump)
        mon.set_events(self.TOOL, ev.LINE | ev.JUMP)
        self.active = True

    def _line(self, code, line):
        if code.co_filename.startswith(PKG):
            self.lines.add((code.co_filename[len(PKG):], line))
        return sys.monitoring.DISABLE

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        self.jumps += 1
        if self.budget is not None and self.jumps > self.budget:
            self.budget = None
            raise StepBudgetExceeded(
                f"in {code.co_qualname} ({code.co_filename[len(PKG):]})"
            )


EXEC = _ExecMonitor()


def _digest(obj, h=None):
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=12)
    if isinstance(obj, np.ndarray):
        h.update(str((obj.dtype, obj.shape)).encode())
        if obj.dtype == object:
            for x in obj.ravel():
                _digest(x, h)
        else:
            h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, dict):
        for k in obj:
            _digest(k, h)
            _digest(obj[k], h)
    elif isinstance(obj, (list, tuple)):
        h.update(b"(")
        for x in obj:
            _digest(x, h)
        h.update(b")")
    else:
        h.update(repr(obj).encode())
    return h.hexdigest() if top else None


def jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        o = o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        o = float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    return repr(o)[:300]


def _short(o, n=400):
    s = json.dumps(jsonable(o))
    return jsonable(o) if len(s) <= n else s[:n] + "..."


# --------------------------------------------------------------------------
class Monitor:
    """What one iteration of a case may use."""

    def __init__(self, check, case, index, seed):
        self.check_ = check
        self.case = case
        self.index = index
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(f"{check.id}:{case.name}".encode()), index]
        )
        self.tier = check.tier
        self.thorough = check.tier == "thorough"
        self.inputs = {}
        self.oracles = 0

    # -- recording
    def given(self, **kw):
        """Record (a snapshot of) the generated input."""
        import copy

        for k, v in kw.items():
            try:
                self.inputs[k] = copy.deepcopy(v)
            except Exception:  # noqa: BLE001 - only a description
                self.inputs[k] = repr(v)

    def event(self, kind, n=1):
        c = self.check_.events
        c[kind] = c.get(kind, 0) + n

    def state(self, kind, value):
        self.check_.states.setdefault(kind, set()).add(_digest(value))

    # -- oracles
    def ok(self, cond, mech, msg="", **details):
        self.oracles += 1
        self.check_.oracles[mech] = self.check_.oracles.get(mech, 0) + 1
        if not cond:
            raise Violation(mech, msg, details)

    def equal(self, got, want, mech, msg="", **d):
        self.ok(
            _same(got, want), mech, msg or "observed value differs",
            got=got, want=want, **d,
        )

    def close(self, got, want, mech, msg="", rtol=1e-9, atol=1e-9, **d):
        try:
            g = np.asarray(got, float)
            w = np.asarray(want, float)
            good = g.shape == w.shape and bool(
                np.all(np.isfinite(g) == np.isfinite(w))
                and np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
            )
        except (TypeError, ValueError):
            good = False
        self.ok(
            good, mech, msg or "observed value differs from the oracle",
            got=got, want=want, **d,
        )

    def close_angle(self, got, want, mech, msg="", atol=1e-6, **d):
        g = np.asarray(got, float)
        w = np.asarray(want, float)
        diff = np.abs((g - w + 180) % 360 - 180)
        self.ok(
            g.shape == w.shape and bool(np.all(diff <= atol)),
            mech, msg or "angle differs from the oracle",
            got=got, want=want, **d,
        )

    def raises(self, exc, fn, mech, msg="", **d):
        """`fn()` has to be rejected with one of `exc`."""
        try:
            res = fn()
        except exc:
            self.ok(True, mech)
            return
        except Exception as e:  # noqa: BLE001
            self.ok(
                False, mech,
                f"{msg}: rejected with {type(e).__name__}: {e}", **d,
            )
        self.ok(False, mech, f"{msg}: accepted", result=repr(res)[:200], **d)

    @contextmanager
    def unmutated(self, mech, **arrays):
        """The caller's objects must be left as they were."""
        import copy

        before = {k: copy.deepcopy(v) for k, v in arrays.items()}
        yield
        for k, v in arrays.items():
            self.ok(
                _same(v, before[k]), mech,
                f"the caller's `{k}` was modified",
                before=before[k], after=v,
            )

    @contextmanager
    def steps(self, n):
        """Logical step budget for the enclosed calls."""
        old_b, old_j = EXEC.budget, EXEC.jumps
        EXEC.budget = EXEC.jumps + n
        try:
            yield
        finally:
            used = EXEC.jumps - old_j
            self.check_.max_steps = max(self.check_.max_steps, used)
            EXEC.budget = old_b

    def scratch(self, prefix="h"):
        return tempfile.mkdtemp(prefix=prefix, dir=self.check_.scratch)


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except ValueError:
            return False
        if a_.shape != b_.shape:
            return False
        if a_.dtype == object or b_.dtype == object:
            return all(_same(x, y) for x, y in zip(a_.ravel(), b_.ravel()))
        try:
            return bool(np.array_equal(a_, b_, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a_, b_))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        r = a == b
        if r is True or r is False:
            return r
        return bool(np.all(r))
    except Exception:  # noqa: BLE001
        return False


class _Case:
    def __init__(self, name, fn, quick, thorough, budget, need):
        self.name, self.fn = name, fn
        self.quota = {"quick": quick, "thorough": thorough}
        self.budget = budget
        self.need = need  # minimal number of iterations that must finish


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.id = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.cases = []
        self.known = {}
        self.events = {}
        self.states = {}
        self.oracles = {}
        self.need_oracles = set()
        self.max_steps = 0
        self.tier = "quick"
        self.scratch = None

    def case(self, quick=100, thorough=None, budget=3_000_000, need=1):
        def deco(fn):
            self.cases.append(
                _Case(
                    fn.__name__, fn, quick,
                    quick * 8 if thorough is None else thorough,
                    budget, need,
                )
            )
            return fn

        return deco


# --------------------------------------------------------------------------
def load_known(pid):
    known = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                fields = line[len("known: "):].split(" ", 2)
                prop = fields[0].split("=", 1)[1]
                mech = fields[1].split("=", 1)[1]
                if prop == pid:
                    known[mech] = fields[2] if len(fields) > 2 else ""
    return known


def _mech_of_exception(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    inner = [f for f in tb if f.filename.startswith(PKG)]
    where = (
        f"{inner[-1].filename[len(PKG):]}:{inner[-1].name}"
        if inner else "outside-package"
    )
    return f"unexpected-{type(exc).__name__}@{where}"


def run_one(check, case, index, seed):
    m = Monitor(check, case, index, seed)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S[check.tier])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with m.steps(case.budget):
                case.fn(m)
        return m, None
    except Violation as v:
        return m, v
    except StepBudgetExceeded as e:
        return m, Violation(
            "step-budget",
            f"no result within {case.budget} logical steps {e}",
        )
    except Inconclusive:
        raise
    except _OutOfTime as e:
        return m, Violation(
            "no-result",
            f"no result within {CPU_S[check.tier]} s of processor time, {e}",
        )
    except Exception as e:  # noqa: BLE001
        mech = _mech_of_exception(e)
        return m, Violation(
            mech, f"{type(e).__name__}: {e}",
            {"traceback": traceback.format_exc()[-2500:]},
        )
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _OutOfTime(BaseException):
    pass


def _on_cpu_time(signum, frame):
    while frame and not frame.f_code.co_filename.startswith(PKG):
        frame = frame.f_back
    raise _OutOfTime(f"in {frame.f_code.co_qualname}" if frame
                     else "outside the package")


def _on_alarm(signum, frame):
    raise Inconclusive("wall clock watchdog")


def rmtree_scratch(path):
    if path and os.path.basename(path).startswith("hrv_"):
        shutil.rmtree(path, ignore_errors=True)


def main(check, argv):
    mode = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    if mode == "replay":
        with open(argv[1], encoding="utf-8") as f:
            replay = json.load(f)
        seed, check.tier = replay["seed"], replay["tier"]
    else:
        check.tier = mode
        if mode not in ("quick", "thorough"):
            print(f"unknown tier {mode}")
            return 3
    check.known = load_known(check.id)
    check.scratch = tempfile.mkdtemp(prefix=f"hrv_{check.id}_")
    os.chdir(check.scratch)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGVTALRM, _on_cpu_time)
    signal.alarm(HARD_WALL_S)
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > MEMORY:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
    EXEC.start()
    try:
        return _run(check, seed, replay)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={check.id} {e}")
        return 2
    finally:
        signal.alarm(0)
        os.chdir("/")
        rmtree_scratch(check.scratch)


def _run(check, seed, replay):
    t0 = time.time()
    soft = float(
        os.environ.get(
            "HRV_SOFT_S", "75" if check.tier == "quick" else "540"
        )
    )
    if replay is not None:
        case = next(c for c in check.cases if c.name == replay["case"])
        m, v = run_one(check, case, replay["index"], seed)
        print(f"replay {check.id} {case.name}[{replay['index']}] seed={seed}")
        print("input:", json.dumps(jsonable(m.inputs))[:4000])
        if v is None:
            print("no violation")
            return 0
        print("violation:", v)
        print(json.dumps(jsonable(v.details))[:6000])
        return 1

    digests = set()
    evaluations = 0
    samples = []
    violations = {}
    known_hits = {}
    short = []
    per_case = {}
    total_quota = sum(c.quota[check.tier] for c in check.cases)
    stopped = False
    for k, case in enumerate(check.cases):
        if stopped:
            break
        quota = case.quota[check.tier]
        done = 0
        nontrivial = 0
        bad = 0
        # every case may use at least its fair share of what time is left
        left = soft - (time.time() - t0)
        share = max(2.0, left / max(1, len(check.cases) - k) * 2.5)
        tc = time.time()
        for i in range(quota):
            if i >= case.need and time.time() - tc > share:
                break
            try:
                m, v = run_one(check, case, i, seed)
            except Inconclusive as e:
                if not violations:
                    raise
                print(f"# stopped: {e}")
                stopped = True
                break
            done += 1
            if m.oracles:
                d = _digest((case.name, m.inputs or i))
                if d not in digests:
                    digests.add(d)
                    nontrivial += 1
                    if nontrivial == 1 and len(samples) < 40:
                        samples.append(
                            {"case": case.name, "index": i,
                             "input": _short(m.inputs),
                             "oracle_evaluations": m.oracles}
                        )
            if v is None:
                continue
            key = f"{v.mech}"
            if key in check.known:
                known_hits.setdefault(key, (case.name, i, v))
                continue
            bad += 1
            if key not in violations:
                violations[key] = _write_replay(check, case, i, seed, m, v)
                print(f"# {case.name}[{i}] {v}"[:600])
            if bad >= 8 or v.mech == "no-result":
                break
        evaluations += done
        per_case[case.name] = {
            "iterations": done, "distinct_nontrivial": nontrivial,
            "seconds": round(time.time() - tc, 2),
        }
        if done < case.need or (nontrivial == 0 and not bad and done):
            short.append(case.name)
    del total_quota

    for mech, (cname, i, v) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={check.id} {mech}: "
              f"{check.known[mech] or v.msg}")
    for mech in sorted(set(check.known) - set(known_hits)):
        print(f"# listed finding did not show: {mech}")
    for key, path in violations.items():
        print(f"VIOLATION property={check.id} replay={path}")

    wall = time.time() - t0
    ev = {
        "property": check.id,
        "tier": check.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(digests),
            "rule": check.rule + " A case is non-trivial when at least one "
            "oracle judged an observation made while it ran; distinct when "
            "the digest of its generated input is new in this run.",
            "samples": samples[:12],
            "oracle_evaluations": dict(sorted(check.oracles.items())),
            "events": dict(sorted(check.events.items())),
            "distinct_states": {
                k: len(v) for k, v in sorted(check.states.items())
            },
            "cases": per_case,
            "package_lines_reached": _line_summary(),
            "logical_steps_total": EXEC.jumps,
            "logical_steps_max_per_case": check.max_steps,
            "known_findings_reproduced": sorted(known_hits),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(
        os.path.join(VERIF, "evidence", f"{check.id}.json"), "w",
        encoding="utf-8",
    ) as f:
        json.dump(jsonable(ev, -4), f, indent=1)
        f.write("\n")
    n_or = sum(check.oracles.values())
    print(
        f"{check.id} {check.tier} seed={seed}: {evaluations} executions, "
        f"{len(digests)} distinct, {n_or} oracle evaluations of "
        f"{len(check.oracles)} kinds, {sum(check.events.values())} events, "
        f"{len(EXEC.lines)} package lines, {wall:.1f}s"
    )
    if violations:
        return 1
    missing = sorted(check.need_oracles - set(check.oracles))
    if short or missing:
        print(f"INCONCLUSIVE property={check.id} unreached cases={short} "
              f"unreached oracles={missing}")
        return 2
    return 0


def _line_summary():
    per = {}
    for f, _ in EXEC.lines:
        per[f] = per.get(f, 0) + 1
    return dict(sorted(per.items()))


def _write_replay(check, case, i, seed, m, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.blake2b(
        f"{case.name}{i}{seed}{v.mech}".encode(), digest_size=4
    ).hexdigest()
    path = os.path.join(d, f"{check.id}_{case.name}_{tag}.json")
    buf = io.StringIO()
    json.dump(
        {
            "property": check.id, "case": case.name, "index": i,
            "seed": seed, "tier": check.tier, "mechanism": v.mech,
            "message": v.msg, "input": jsonable(m.inputs),
            "details": jsonable(v.details),
            "how": f"/verif/run.sh {check.id} replay {path}",
        },
        buf, indent=1,
    )
    with open(path, "w", encoding="utf-8") as f:
        f.write(buf.getvalue())
    return path


def selftest():
    """The monitors themselves: do they refute what they have to refute?"""
    c = Check("SELF", "self test")
    c.tier = "self"
    signal.signal(signal.SIGVTALRM, _on_cpu_time)

    def expect(mech, fn):
        case = _Case("self", fn, 1, 1, 2000, 1)
        _, v = run_one(c, case, 0, 1)
        got = None if v is None else v.mech.split("@")[0]
        if got != mech:
            print(f"selftest: expected {mech}, got {got}: {v}")
            return False
        return True

    def mutate(m):
        a = np.zeros(2)
        with m.unmutated("mut", a=a):
            a[0] = 1

    def forever(m):
        while True:
            pass

    EXEC.start()
    good = [
        expect(None, lambda m: m.equal([1, 2.0], [1, 2.0], "eq")),
        expect("eq", lambda m: m.equal([1, 2.0], [1, 2.5], "eq")),
        expect("close", lambda m: m.close([1.0], [np.nan], "close")),
        expect("close", lambda m: m.close([1.0], [1.0, 1.0], "close")),
        expect(None, lambda m: m.close_angle(359.9999999, 0.0, "angle")),
        expect("angle", lambda m: m.close_angle(359.0, 0.0, "angle")),
        expect("raises", lambda m: m.raises(ValueError, lambda: 1, "raises")),
        expect("mut", mutate),
        expect("unexpected-ZeroDivisionError", lambda m: 1 / 0),
        expect("no-result", forever),
    ]
    print("selftest:", "ok" if all(good) else "FAILED")
    return 0 if all(good) else 1
