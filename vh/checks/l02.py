"""L02: minimize and ask/tell runs of the real optimizers with stopping criteria under adversarial loss sequences and a controlled clock; a monitor registered before the criterion computes at each ask whether it must fire from the told losses, the recommendations and the clock."""
import gc
import pickle
import typing as tp
import warnings
from unittest import mock
import numpy as np
from .. import opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (optimizer, criterion and its parameters, workers and batching, ask at which the run stopped)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 5000
NEED_EVENTS = ("ask", "stopped", "whole-budget", "improvement", "no-improvement", "timer", "custom", "several-criteria", "multiobjective", "reloaded", "parallel", "unevaluated-recommendation", "wrong-event")
ASSUMPTIONS = ["as the existing tests state, the no-improvement criterion fires once more than the given number of asks followed the one which saw the best loss"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 700 if tier == "quick" else 9000
    kinds = ["window", "window", "window", "timer", "custom", "several", "multi", "manual", "budget"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(case["seed"] % 2**32)
        try:
            run(case, mon, rng_of(case))
        except Unsure:
            mon.event("undecided")
    gc.collect()


class Clock:
    def __init__(self) -> None:
        self.now = 1e9

    def __call__(self) -> float:
        return self.now


class LateExecutor:
    """jobs are computed at once and reported done after a few polls"""

    def __init__(self, r: tp.Any, most: int) -> None:
        self.r, self.most = r, most

    def submit(self, func: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        out, wait = func(*args, **kwargs), self.r.randint(0, self.most)

        class Job:
            left = wait

            def done(self) -> bool:
                self.left -= 1
                return self.left < 0

            def result(self) -> tp.Any:
                return out

        return Job()


class Window:
    """reference for the no-improvement criterion, fed with the state seen at each ask"""

    def __init__(self, window: int) -> None:
        self.window, self.best, self.last, self.k = window, None, 0, 0  # type: ignore

    def __call__(self, state: tp.Any, told: tp.List[tp.Any]) -> bool:
        self.k += 1
        if state is None:
            return False
        better = self.best is None or (bool(state - self.best) if isinstance(state, frozenset) else state < self.best)
        if better:
            self.best, self.last = state, self.k
            return False
        return self.k - self.last > self.window


def front(told: tp.List[tp.Any]) -> tp.FrozenSet[tp.Any]:
    pts = set(told)
    return frozenset(p for p in pts if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in pts))


class Monitor:
    """registered on ask before the criteria"""

    def __init__(self, mon: Mon, clock: Clock, r: tp.Any) -> None:
        self.mon, self.clock, self.r = mon, clock, r
        self.asks = 0
        self.states: tp.List[tp.Any] = []
        self.told: tp.List[tp.Any] = []
        self.start: tp.Optional[float] = None
        self.now = 0.0
        self.multi = False
        self.points: tp.Set[tp.Any] = set()

    def __call__(self, opt: tp.Any) -> None:
        self.mon.event("ask")
        self.asks += 1
        self.clock.now += self.r.choice([0.0, 0.5, 1.0, 3.0])
        self.now = self.clock.now
        if self.start is None:
            self.start = self.now
        state: tp.Any = None
        if self.told and self.multi:
            state = front(self.told)
        elif self.told:
            loss = opt.provide_recommendation().loss
            if loss is None:
                self.mon.event("unevaluated-recommendation")
                loss = min(self.told)
                if len(self.points) < len(self.told):
                    raise Unsure  # which loss several evaluations of a point stand for is not specified here
            state = loss
        self.states.append(state)
        self.counts = (opt.num_ask, opt.num_tell)

    def on_tell(self, opt: tp.Any, candidate: tp.Any, loss: float) -> None:
        self.points.add(spaces.freeze(candidate.value))
        self.told.append(tuple(candidate.losses.tolist()) if self.multi else loss)


class Unsure(Exception):
    pass


class Holder:
    """a criterion which can be replaced by its pickled copy"""

    def __init__(self, inner: tp.Any) -> None:
        self.inner = inner

    def __call__(self, opt: tp.Any) -> None:
        self.inner(opt)


class Custom:
    """stops at the given ask or tell counts, and records the state it sees"""

    def __init__(self, at_ask: int, at_tell: int, monitor: Monitor) -> None:
        self.at_ask, self.at_tell, self.monitor = at_ask, at_tell, monitor
        self.calls = 0

    def __call__(self, opt: tp.Any) -> tp.Any:
        self.calls += 1
        self.monitor.mon.check((opt.num_ask, opt.num_tell) == self.monitor.counts, "stale-state", lambda: f"{(opt.num_ask, opt.num_tell)} instead of {self.monitor.counts}")
        return self.due(opt.num_ask, opt.num_tell)

    def due(self, num_ask: int, num_tell: int) -> tp.Any:
        return num_ask >= self.at_ask or num_tell >= self.at_tell


def losses(r: tp.Any) -> tp.Callable[[tp.Any, int], float]:
    kind = r.choice(["value", "constant", "decreasing", "increasing", "plateaus", "noise", "ties", "hostile"])
    plateau = r.randint(2, 9)
    return {
        "value": lambda v, k: spaces.numeric_loss(v),
        "constant": lambda v, k: 5.0,
        "decreasing": lambda v, k: -float(k),
        "increasing": lambda v, k: float(k),
        "plateaus": lambda v, k: -float(k // plateau),
        "noise": lambda v, k: r.gauss(0, 1),
        "ties": lambda v, k: float(r.randint(0, 3)),
        "hostile": lambda v, k: r.choice([1.0, 0.0, 1e30, float("inf"), float("nan"), -1e9]),
    }[kind]


def run(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.common import errors

    kind = case["kind"]
    pool = [o for o in (opts.basic() if r.random() < 0.6 else opts.core()) if o not in opts.SLOW]
    if r.random() < 0.25:
        pool = ["TBPSA", "NaiveTBPSA", "EDA", "CMA", "NoisyBandit", "OptimisticNoisyOnePlusOne", "SPSA", "NoisyDE", "cGA"]
    name = r.choice(pool)
    if kind == "multi":
        name = r.choice(["OnePlusOne", "DE", "PSO", "CMA", "RandomSearch", "DiscreteOnePlusOne", "TwoPointsDE", "NGOpt", "ES", "TBPSA"])
    budget, workers = r.randint(5, 60), r.choice([1, 1, 2, 4])
    if r.random() < 0.1:
        budget = r.randint(1, 4)
    spec = opts.SPACES[r.choice(["arr3", "bnd2", "tch", "arr2x2"])]
    if name in ("SADiscreteLenglerOnePlusOneExp09",) or opts.is_recast(name):
        spec = opts.SPACES["arr3"]
    opt = opts.build_opt(name, lambda: spaces.build(spec), budget, workers, case["seed"] % 2**31)
    workers = opt.num_workers
    clock = Clock()
    monitor = Monitor(mon, clock, r)
    monitor.multi = kind == "multi"
    # whether some criterion must fire, asked once per ask, before the criteria; those registered after one which fires are not called
    expected: tp.List[tp.Optional[str]] = []
    due: tp.List[tp.Tuple[str, tp.Callable[[], bool]]] = []

    def first_of_all(opt: tp.Any) -> None:
        mon.check(not expected or expected[-1] is None, "asks-after-stop", lambda: f"{label}: {expected[-1]} at ask {len(expected)}")
        monitor(opt)
        expected.append(next((label for label, f in due if f()), None))

    label = name
    opt.register_callback("ask", first_of_all)
    holders: tp.List[Holder] = []

    def register(early: tp.Any) -> None:
        holders.append(Holder(early))
        opt.register_callback("ask", holders[-1])

    opt.register_callback("tell", monitor.on_tell)
    chosen = {"window": ["window"], "timer": ["timer"], "custom": ["custom"], "multi": ["window"], "manual": ["window"], "budget": ["never"]}.get(kind) or r.sample(["window", "window", "timer", "custom", "never"], 2)
    if len(chosen) > 1:
        mon.event("several-criteria")
    limits: tp.List[tp.Any] = []
    for what in chosen:
        if what == "window":
            window = r.choice([0, 1, 2, 3, 5, 8, 20])
            ref = Window(window)
            register(ng.callbacks.EarlyStopping.no_improvement_stopper(window))
            due.append((f"no improvement over {window} asks", lambda ref=ref: ref(monitor.states[-1], monitor.told)))  # type: ignore
            limits.append(window)
        elif what == "timer":
            duration = r.choice([0.25, 2.25, 10.25, 40.25])
            register(ng.callbacks.EarlyStopping.timer(duration))
            due.append((f"timer {duration}", lambda d=duration: monitor.now > monitor.start + d))  # type: ignore
            mon.event("timer")
            limits.append(duration)
        elif what == "custom":
            crit = Custom(r.choice([0, 1, 3, 10, 1000]), r.choice([1, 2, 7, 1000]), monitor)
            register(ng.callbacks.EarlyStopping(crit))
            due.append((f"custom {crit.at_ask} {crit.at_tell}", lambda c=crit: c.due(*monitor.counts)))  # type: ignore
            mon.event("custom")
            limits.append((crit.at_ask, crit.at_tell))
        else:
            register(ng.callbacks.EarlyStopping(lambda opt: r.choice([False, 0, None])))
            due.append(("never", lambda: False))
            limits.append(None)
    calls: tp.List[tp.Any] = []
    make_loss = losses(r)

    def objective(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        calls.append(args)
        if monitor.multi:
            return [float(r.randint(0, 6)), float(r.randint(0, 6))] if r.random() < 0.9 else [0.0, 6.0]
        return make_loss(args[0] if args else kwargs, len(calls))

    label = f"{name} on {spec['t']} budget {budget} workers {workers} criteria {chosen} {limits}"
    if kind == "manual" and not opts.is_recast(name):
        manual(opt, objective, monitor, expected, budget, label, mon, r, holders)
        return
    executor = LateExecutor(r, r.choice([0, 2])) if workers > 1 else None
    batch = r.random() < 0.4
    if workers > 1:
        mon.event("parallel")
    with mock.patch("time.time", clock):
        out = opt.minimize(objective, executor=executor, batch_mode=batch)
    judge(opt, calls, monitor, expected, budget, label, mon)
    stop = expected.index(next(e for e in expected if e)) if any(expected) else None
    mon.seen(name, kind, tuple(map(str, limits)), workers, batch, stop)
    if calls and not monitor.multi:
        mon.check(spaces.same(out.value, opt.provide_recommendation().value) or spaces.has_random_choice(spec), "returned-value", label) if name in ("OnePlusOne", "DE", "PSO", "RandomSearch") else None
    # a tell callback is refused
    if r.random() < 0.1:
        other = ng.optimizers.registry["OnePlusOne"](2, budget=3)
        other.register_callback("tell", ng.callbacks.EarlyStopping(lambda opt: False))
        c = other.ask()
        mon.event("wrong-event")
        try:
            other.tell(c, 1.0)
        except errors.NevergradRuntimeError:
            pass
        else:
            mon.violate("tell-registration-accepted", "")


def judge(opt: tp.Any, calls: tp.List[tp.Any], monitor: Monitor, expected: tp.List[tp.Any], budget: int, label: str, mon: Mon) -> None:
    """after a call to minimize"""
    first = next((k for k, e in enumerate(expected) if e), None)
    history = f"{label}: states {monitor.states[-12:]}"
    n = len(calls)
    if monitor.multi:
        mon.event("multiobjective")
    for k in range(1, len(monitor.states)):
        if monitor.states[k] is not None and monitor.states[k - 1] is not None:
            mon.event("improvement" if monitor.states[k] != monitor.states[k - 1] else "no-improvement")
    if first is None:
        mon.event("whole-budget")
        mon.check(n == budget, "stopped-without-reason", lambda: f"{history}: stopped after {n} evaluations")
    else:
        mon.event("stopped")
        mon.check(n <= first, f"stop-missed:{expected[first].split()[0]}", lambda: f"{history}: {expected[first]} after {first} asks, but {n} evaluations")
        mon.check(n >= first, "stopped-too-early", lambda: f"{history}: {expected[first]} after {first} asks, but {n} evaluations only")
    mon.check(opt.num_ask == n and opt.num_tell == n, "lost-evaluations", lambda: f"{history}: {n} evaluations, {opt.num_ask} asks and {opt.num_tell} tells")


def manual(opt: tp.Any, objective: tp.Any, monitor: Monitor, expected: tp.List[tp.Any], budget: int, label: str, mon: Mon, r: tp.Any, holders: tp.List[Holder]) -> None:
    """ask and tell by hand: the dedicated error is raised when and only when the criterion holds"""
    from nevergrad.common import errors

    pending: tp.List[tp.Any] = []
    for _ in range(budget):
        try:
            while len(pending) < r.randint(1, opt.num_workers) and opt.num_ask < budget:
                stopped = True
                before = opt.num_ask
                pending.append(opt.ask())
                stopped = False
                mon.check(expected[-1] is None, "stop-missed:manual", lambda: f"{label}: {expected[-1]} at ask {len(expected)}")
        except errors.NevergradEarlyStopping:
            mon.check(stopped and expected[-1] is not None, "stopped-too-early", lambda: f"{label} at ask {len(expected)}: {monitor.states[-12:]}")
            mon.check(opt.num_ask == before, "stop-counts-as-ask", label)
            mon.event("stopped")
            return
        if not pending:
            break
        if r.random() < 0.15:
            for holder in holders:
                holder.inner = pickle.loads(pickle.dumps(holder.inner))
                mon.event("reloaded")
        c = pending.pop(r.randrange(len(pending)))
        opt.tell(c, objective(*c.args, **c.kwargs))
    mon.seen("manual", label)
