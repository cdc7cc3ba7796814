"""T01: scripted and real external minimisers behind the real message passing, under injected delays, faults, foreign tells and disposals; conservation oracle over both event logs."""
import gc
import os
import pickle
import random
import signal
import sys
import threading
import time
import typing as tp
import warnings
import numpy as np
from .. import opts
from ..engine import Mon, rng_of, h64

RULE = "a distinct state is (minimiser, kind, order of the events of both threads)"
BUDGET_S = {"quick": 90, "thorough": 600}
MIN_EVALS = 4000
CASE_TIMEOUT = 90
HANG_IS_VIOLATION = True
NEED_EVENTS = ("exchange", "batch", "foreign", "fault", "finished", "disposed", "replayed", "direct-call", "shuffled-batch", "refused-ask", "violation-told", "told-again")
ASSUMPTIONS = [
    "a sequential wrapped optimizer is asked again only after its last candidate was told, as its documentation requires",
    "a deadlock is a wait which outlives 20 s for operations which take milliseconds",
]

LOGS: tp.Dict[str, tp.List[tp.List[tp.Any]]] = {}  # by execution: one log for each start of the minimiser
TRACES: tp.Dict[str, tp.List[str]] = {}
DIM = 3


class Fault(Exception):
    pass


class Script:
    """a minimiser: each requested point depends on everything it received"""

    def __init__(self, key: str, plan: tp.Dict[str, tp.Any]) -> None:
        self.key, self.plan = key, plan

    def __call__(self, objective: tp.Callable[..., tp.Any]) -> tp.Any:
        log: tp.List[tp.Any] = []
        LOGS[self.key].append(log)
        trace = TRACES[self.key]
        plan = self.plan
        r = random.Random(plan["seed"])
        state = np.zeros(DIM)
        for k in range(plan["length"]):
            n = plan["batches"][k % len(plan["batches"])] if plan["batches"] else 0
            x = state + np.random.RandomState(r.randrange(2**31)).normal(size=(n, DIM) if n else DIM)
            if plan["delays"] and r.random() < 0.3:
                time.sleep(r.random() * 0.002)
            trace.append("r")
            if plan["fault"] == k:
                raise Fault(f"fault at {k}")
            got = objective(x.copy())
            trace.append("g")
            log.append((x, got))
            if plan["delays"] and r.random() < 0.3:
                time.sleep(r.random() * 0.002)
            state = state + np.tanh(np.nan_to_num(np.mean(got))) * 0.1
        return state if plan["output"] else None


def sequential() -> tp.Any:
    from nevergrad.optimization import recaster

    class Scripted(recaster.SequentialRecastOptimizer):
        script: tp.Any = None

        def get_optimization_function(self) -> tp.Any:
            return Script(*self.script)

    globals()["Scripted"] = Scripted
    Scripted.__module__, Scripted.__qualname__ = __name__, "Scripted"
    return Scripted


def batched() -> tp.Any:
    from nevergrad.optimization import recaster

    class ScriptedBatch(recaster.BatchRecastOptimizer):
        script: tp.Any = None

        def get_optimization_function(self) -> tp.Any:
            return Script(*self.script)

    return ScriptedBatch


NODIRECT = {"CmaFmin2", "PymooBIPOP", "PymooCMAES", "PymooNSGA2"}


def wrapped() -> tp.List[str]:
    return [n for n in opts.usable() if opts.is_recast(n)]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    full = tier != "quick"
    out: tp.List[tp.Dict[str, tp.Any]] = [dict(kind="two-cobyla", seed=seed)]
    kinds = ["sequential"] * 4 + ["batch"] * 4 + ["dispose"] * 2 + ["pickle"] * 2 + ["fault"] * 2
    for k in range(4200 if full else 420):
        out.append(dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k))
    names = wrapped()
    for k in range(len(names) * (12 if full else 2)):
        out.append(dict(kind="real", opt=names[k % len(names)], seed=seed * 1000000 + 500000 + k))
    for k in range(200 if full else 20):
        out.append(dict(kind="pymoo-batch", seed=seed * 1000000 + 700000 + k))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    r = rng_of(case)
    np.random.seed(r.randrange(2**31))
    switch = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-3]))
    try:
        fun = {"sequential": scripted, "batch": batch, "dispose": scripted, "pickle": scripted, "fault": scripted}
        fun.update({"real": real, "two-cobyla": two_cobyla, "pymoo-batch": pymoo_batch})
        fun[case["kind"]](case, mon, r)
    finally:
        sys.setswitchinterval(switch)


def plan_of(r: random.Random, kind: str) -> tp.Dict[str, tp.Any]:
    length = r.choice([0, 1, 2, 5, 12, 30, 50])
    return dict(
        seed=r.randrange(2**31),
        length=length,
        fault=r.randint(0, max(0, length - 1)) if kind == "fault" and length else -1,
        delays=r.random() < 0.5,
        output=r.random() < 0.5,
        batches=[],
    )


def loss_of(r: random.Random) -> float:
    return r.choice([r.gauss(0, 10), r.gauss(0, 10), float(r.randint(0, 2)), 5e20, -1e15])


def ended_threads(mon: Mon, before: tp.Set[int], what: tp.Callable[[], str]) -> None:
    mon.event("disposed")
    deadline = time.time() + 20
    alive: tp.List[tp.Any] = []
    while time.time() < deadline:
        alive = [t for t in threading.enumerate() if t.ident not in before]
        if not alive:
            break
        gc.collect()
        time.sleep(0.002)
    mon.check(not alive, "thread-not-stopped", lambda: f"{what()}: {len(alive)} background threads still alive 20 s after disposal")


class Penalised(float):
    """a loss told along with constraint violations: the minimiser receives more"""


def compare(mon: Mon, what: str, log: tp.List[tp.Any], told: tp.List[tp.Tuple[np.ndarray, float]], complete: bool) -> None:
    """the minimiser received exactly the told losses, for its own points, in order"""
    mon.check(len(log) <= len(told), "received-too-many", lambda: f"{what}: received {len(log)} losses for {len(told)} tells")
    if complete:
        mon.check(len(log) >= len(told), "lost-loss", lambda: f"{what}: received {len(log)} losses for {len(told)} tells")
    for k, ((x, got), (y, loss)) in enumerate(zip(log, told)):
        mon.event("exchange")
        mon.check(np.allclose(x, y, rtol=1e-12, atol=1e-12), "asked-other-point", lambda: f"{what}: exchange {k}: requested {x}, asked {y}")
        if isinstance(loss, Penalised):
            mon.check(got > loss or got == loss and (loss <= 0 or loss > 1e12), "violation-not-penalised", lambda: f"{what}: exchange {k}: received {got!r}, told {loss!r} and a violation")
        elif not mon.check(got == loss, "received-other-loss", lambda: f"{what}: exchange {k}: received {got!r}, told {loss!r}"):
            break


def scripted(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    import nevergrad as ng
    from ..drive import not_supported

    key = f"{case['kind']}{case['seed']}"
    LOGS[key], TRACES[key] = [], []
    trace = TRACES[key]
    plan = plan_of(r, case["kind"])
    before = {t.ident for t in threading.enumerate()}
    cls = sequential()
    opt = cls(ng.p.Array(shape=(DIM,)), budget=60)
    opt.script = (key, plan)
    opt.parametrization.random_state.seed(case["seed"] % 2**31)
    pickling = case["kind"] == "pickle"
    violating = r.random() < 0.5
    if pickling:
        opt.enable_pickling()
    what = f"scripted minimiser {plan}"
    told: tp.List[tp.Tuple[np.ndarray, float]] = []
    steps = plan["length"] + r.choice([0, 1, 3])
    stop = r.randint(0, steps) if case["kind"] == "dispose" else steps
    failed = finished = False
    best: tp.Optional[float] = None
    for k in range(steps):
        if k >= stop:
            break
        if r.random() < 0.2:
            time.sleep(r.random() * 0.002)
        trace.append("a")
        try:
            with warnings.catch_warnings(record=True) as record:
                warnings.simplefilter("always")
                c = opt.ask()
        except Fault:
            mon.event("fault")
            mon.check(plan["fault"] == k, "fault-too-early", lambda: f"{what}: error of the minimiser raised at ask {k}")
            failed = True
            break
        except RuntimeError as e:
            mon.event("fault")
            mon.check(plan["fault"] == k and isinstance(e.__cause__, Fault), "unexpected-error", lambda: f"{what}: {e!r} at ask {k}")
            failed = True
            break
        mon.check(plan["fault"] != k, "fault-hidden", lambda: f"{what}: the error of the minimiser is not raised at ask {k}")
        converged = any("converged" in str(w.message) for w in record)
        mon.check(
            converged == (k >= plan["length"]), "finished-too-early" if converged else "not-finished", lambda: f"{what}: ask {k} {'warns' if converged else 'does not warn'} that the minimiser has converged"
        )
        trace.append("A")
        x = c.get_standardized_data(reference=opt.parametrization).copy()
        if converged:
            mon.event("finished")
            finished = True
        if r.random() < 0.3:
            f = opt.parametrization.sample()
            mon.event("foreign")
            try:
                opt.tell(f, loss_of(r))
            except not_supported():
                pass
        if r.random() < 0.2:
            opt.provide_recommendation()
        if case["kind"] == "dispose" and k == stop - 1 and r.random() < 0.5:
            break  # while a candidate is pending
        if pickling and r.random() < 0.15:
            opt, c = replayed(mon, what, opt, c, key, told, before)
            if opt is None:
                return
            opt.script = (key, plan)
        loss = loss_of(r)
        if pickling and violating and r.random() < 0.4:
            mon.event("violation-told")
            opt.tell(c, loss, [r.uniform(0.01, 3.0)])
            loss = Penalised(loss)
        else:
            opt.tell(c, loss)
        trace.append("t")
        if not converged:
            told.append((x, loss))
        if pickling and r.random() < 0.1:
            mon.event("told-again")
            try:
                opt.tell(c, loss_of(r))  # only the first loss reaches the minimiser
            except not_supported():
                pass
    if finished and plan["output"]:
        rec = opt.provide_recommendation().get_standardized_data(reference=opt.parametrization)
        state = final_state(plan, LOGS[key][-1])
        mon.check(np.allclose(rec, state, atol=1e-12), "output-not-recommended", lambda: f"{what}: recommends {rec}, the minimiser returned {state}")
    # everything told is received before the thread stops
    log: tp.List[tp.Any] = LOGS[key][-1] if LOGS[key] else []
    deadline = time.time() + 20
    while len(log) < len(told) and time.time() < deadline:
        time.sleep(0.001)
    compare(mon, what, log, told, complete=True)
    mon.check(len(LOGS[key]) <= 1 or pickling, "started-twice", lambda: f"{what}: minimiser started {len(LOGS[key])} times")
    mon.seen(case["kind"], plan["length"], failed, finished, h64("".join(trace)))
    if failed:
        # later asks must neither hang nor pretend that nothing happened
        for _ in range(2):
            try:
                opt.ask()
            except (Fault, RuntimeError):
                pass
            else:
                mon.violate("error-forgotten", f"{what}: ask accepted after the error of the minimiser")
    del opt
    ended_threads(mon, before, lambda: what)
    if log is not None:
        mon.check(len(log) <= len(told), "received-after-disposal", lambda: f"{what}: {len(log)} losses for {len(told)} tells")
    LOGS.pop(key), TRACES.pop(key)


def final_state(plan: tp.Dict[str, tp.Any], log: tp.List[tp.Any]) -> np.ndarray:
    state = np.zeros(DIM)
    for _, got in log:
        state = state + np.tanh(np.nan_to_num(np.mean(got))) * 0.1
    return state


def replayed(mon: Mon, what: str, opt: tp.Any, c: tp.Any, key: str, told: tp.Any, before: tp.Any) -> tp.Any:
    mon.event("replayed")
    data = pickle.dumps((opt, c))
    del opt
    opt2, c2 = pickle.loads(data)
    compare(mon, what + " (after unpickling)", LOGS[key][-1], told, complete=False)
    first, last = LOGS[key][-2], LOGS[key][-1]
    mon.check(
        all(np.array_equal(x, y) and u == v for (x, u), (y, v) in zip(first, last)),
        "replayed-other-losses",
        lambda: f"{what}: the minimiser received {[u for _, u in first]}, and {[u for _, u in last]} when unpickling",
    )
    mon.check(opt2.num_ask == len(told) + 1 or opt2.num_ask > len(told), "replay-lost-asks", lambda: f"{what}: {opt2.num_ask} asks after unpickling")
    return opt2, c2


def batch(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    import nevergrad as ng
    from nevergrad.optimization import recaster
    from ..drive import not_supported

    key = f"{case['kind']}{case['seed']}"
    LOGS[key], TRACES[key] = [], []
    trace = TRACES[key]
    plan = plan_of(r, r.choice(["fault", "batch"]))
    plan["batches"] = [r.randint(1, 6) for _ in range(r.randint(1, 3))]
    plan["length"] = min(plan["length"], 8)
    plan["fault"] = min(plan["fault"], plan["length"] - 1)
    before = {t.ident for t in threading.enumerate()}
    opt = batched()(ng.p.Array(shape=(DIM,)), budget=100, num_workers=6)
    opt.script = (key, plan)
    opt.parametrization.random_state.seed(case["seed"] % 2**31)
    what = f"scripted batch minimiser {plan}"
    expected: tp.List[tp.Dict[bytes, float]] = []  # losses of the points of each batch
    failed = finished = False
    for k in range(plan["length"] + r.choice([0, 1])):
        size = plan["batches"][k % len(plan["batches"])]
        pending: tp.List[tp.Any] = []
        now: tp.Dict[bytes, float] = {}
        asked = told = 0
        order: tp.List[int] = []
        while told < size:
            if asked < size and (not pending or r.random() < 0.6):
                mon.check(opt.can_ask(), "can-ask", lambda: f"{what}: batch {k}: cannot ask after {asked} asks and {told} tells of {size}")
                try:
                    with warnings.catch_warnings(record=True) as record:
                        warnings.simplefilter("always")
                        c = opt.ask()
                except (Fault, RuntimeError) as e:
                    mon.event("fault")
                    mon.check(
                        plan["fault"] == k and asked == 0 and (isinstance(e, Fault) or isinstance(e.__cause__, Fault)), "unexpected-error", lambda: f"{what}: {e!r} in batch {k}"
                    )
                    failed = True
                    break
                if any("converged" in str(w.message) for w in record):
                    mon.event("finished")
                    mon.check(k >= plan["length"], "finished-too-early", lambda: f"{what}: converged in batch {k}")
                    finished = True
                trace.append("A")
                asked += 1
                pending.append((asked, c))
            else:
                if asked == size and r.random() < 0.3 and not finished:
                    mon.event("refused-ask")
                    mon.check(not opt.can_ask(), "can-ask", lambda: f"{what}: batch {k}: can ask with {size - told} missing tells")
                    try:
                        opt.ask()
                    except recaster.TooManyAskError:
                        pass
                    else:
                        mon.violate("asked-too-many", f"{what}: batch {k}: new batch provided with {size - told} missing tells")
                        return
                if r.random() < 0.2:
                    mon.event("foreign")
                    try:
                        opt.tell(opt.parametrization.sample(), loss_of(r))
                    except not_supported():
                        pass
                rank, c = pending.pop(r.randrange(len(pending)))
                loss = loss_of(r)
                order.append(rank)
                now[c.get_standardized_data(reference=opt.parametrization).round(9).tobytes()] = loss
                opt.tell(c, loss)
                trace.append("t")
                told += 1
        if failed or finished:
            break
        if order != sorted(order):
            mon.event("shuffled-batch")
        expected.append(now)
    log: tp.List[tp.Any] = LOGS[key][-1] if LOGS[key] else []
    deadline = time.time() + 20
    while len(log) < len(expected) and time.time() < deadline:
        time.sleep(0.001)
    if mon.check(len(log) == len(expected), "lost-batch", lambda: f"{what}: {len(log)} batches received, {len(expected)} told"):
        for k, ((x, got), losses) in enumerate(zip(log, expected)):
            mon.event("batch")
            want = [losses.get(row.round(9).tobytes()) for row in x]
            if not mon.check(len(got) == len(x) and list(got) == want, "batch-losses", lambda: f"{what}: batch {k} received {list(got)}, told {want}"):
                break
    mon.seen("batch", len(expected), failed, finished, h64("".join(trace)))
    del opt
    ended_threads(mon, before, lambda: what)
    LOGS.pop(key), TRACES.pop(key)


class Enough(Exception):
    pass


def real(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    """a registered wrapper: ask and tell against a direct call of its optimization function"""
    name = case["opt"]
    budget = r.choice([12, 25, 40])
    several = name == "PymooNSGA2"
    import nevergrad as ng

    spec = {"t": "array", "shape": [2], "init": [r.uniform(-1, 1), r.uniform(-1, 1)]}
    from .. import spaces

    center = np.array([r.uniform(-2, 2), r.uniform(-2, 2)])

    def loss(x: np.ndarray) -> tp.Any:
        value = float(np.sum((x - center) ** 2) + 0.3 * abs(x[0]))
        return [value, float(np.sum(np.abs(x)))] if several else value

    before = {t.ident for t in threading.enumerate()}
    state = r.randrange(2**31)

    def fresh() -> tp.Any:
        np.random.seed(state)
        random.seed(state)
        opt = opts.make(name, spaces.build(spec), budget, 1, case["seed"])
        if several:
            opt.num_objectives = 2
        return opt

    opt = fresh()
    asked = []
    k = stop = r.randint(1, budget)
    try:
        for k in range(stop):
            c = opt.ask()
            asked.append(np.array(c.get_standardized_data(reference=opt.parametrization)))
            if k == stop - 1 and r.random() < 0.5:
                break
            opt.tell(c, loss(np.asarray(c.value)))
            if r.random() < 0.2:
                opt.provide_recommendation() if not several else opt.pareto_front()
    except Exception as e:  # pylint: disable=broad-except
        if "nlopt" not in repr(e) and "Recast optimizer raised" not in repr(e):
            raise
        mon.event("third-party-failure")
        asked = asked[:-1]
    del opt
    try:
        del c
    except UnboundLocalError:
        pass
    gc.collect()
    ended_threads(mon, before, lambda: f"{name} disposed after {k + 1} asks (budget {budget})")
    mon.seen("real", name, k)
    if name in NODIRECT or name.startswith("DS"):
        return  # calls with batches, or draws from the global random state in another order
    other = fresh()
    calls: tp.List[np.ndarray] = []

    def objective(x: tp.Any) -> tp.Any:
        if len(calls) >= len(asked):
            raise Enough
        x = np.array(x, dtype=float).ravel()
        calls.append(x)
        return loss(np.asarray(other.parametrization.spawn_child().set_standardized_data(x).value))

    try:
        other.get_optimization_function()(objective)
    except Exception:  # pylint: disable=broad-except
        if len(calls) < len(asked) and not calls:
            raise
    n = min(len(calls), len(asked))
    mon.event("direct-call", n)
    for j in range(n):
        if not mon.check(
            np.allclose(calls[j], asked[j], rtol=1e-9, atol=1e-9), f"not-a-direct-call:{name}", lambda: f"{name} budget {budget}: point {j} is {asked[j]} through ask and tell, {calls[j]} when called directly"
        ):
            break


def pymoo_batch(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    """the real batch wrapper, including candidates asked before the number of objectives is known"""
    import nevergrad as ng

    before = {t.ident for t in threading.enumerate()}
    opt = opts_make_batch(case["seed"])
    early = r.choice([0, 1, 1, 2, 3])
    if not early:
        opt.num_objectives = 2
    pending = [opt.ask() for _ in range(early)]
    total = r.randint(2, 130)
    asked = early
    r.shuffle(pending)
    told = 0
    while asked < total or pending:
        if pending and (not early or told >= early or r.random() < 0.5) and (r.random() < 0.4 or asked >= total or not opt.can_ask()):
            c = pending.pop(r.randrange(len(pending)))
            x = np.asarray(c.value)
            opt.tell(c, [float(np.sum(x**2)), float(np.sum((x - 1) ** 2))])
            told += 1
        elif asked < total and (opt.can_ask() or not pending):
            pending.append(opt.ask())
            asked += 1
    mon.check(opt.num_tell == total and opt.num_ask == total, "lost-candidates", lambda: f"PymooBatch: {opt.num_ask} asks and {opt.num_tell} tells for {total}")
    mon.event("pymoo-batch", told)
    mon.seen("pymoo-batch", early, total // 20)
    del opt
    gc.collect()
    ended_threads(mon, before, lambda: f"PymooBatch after {total} candidates")


def opts_make_batch(seed: int) -> tp.Any:
    import nevergrad as ng

    param = ng.p.Array(shape=(2,))
    param.random_state.seed(seed % 2**31)
    from nevergrad.optimization import recastlib

    return recastlib.PymooBatch(algorithm="nsga2")(param, budget=200, num_workers=10)


def two_cobyla(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    """two instances of a wrapped minimiser in one process, in a child which is stopped when it hangs"""
    for name in ("NelderMead", "SQP", "Cobyla"):
        pid = os.fork()
        if not pid:
            try:
                both = [_plain(name) for _ in range(2)]
                for _ in range(3):
                    for o in both:
                        c = o.ask()
                        o.tell(c, float(np.sum(np.asarray(c.value) ** 2)))
                os._exit(0)
            except BaseException:  # pylint: disable=broad-except
                os._exit(1)
        deadline = time.time() + 20
        done, status = 0, 0
        while not done and time.time() < deadline:
            done, status = os.waitpid(pid, os.WNOHANG)
            time.sleep(0.01)
        if not done:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        mon.event("two-instances")
        mon.check(bool(done), f"two-instances-deadlock:{name}", lambda: f"two {name} optimizers used alternately in one process wait for each other forever")
        if done:
            mon.check(status == 0, f"two-instances-failure:{name}", lambda: f"two {name} optimizers used alternately fail with status {status}")
        mon.seen("two", name)


def _plain(name: str) -> tp.Any:
    import nevergrad as ng

    return ng.optimizers.registry[name](ng.p.Array(shape=(3,)), budget=20)
