"""C01: constraints are evaluated again by the monitor on every asked, recommended and projected value, warnings and the losses seen by a recording optimizer are watched, and repeated points are counted against the tabu length."""
import collections
import gc
import typing as tp
import warnings
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of
from .a02 import ELITIST

RULE = "a distinct state is (optimizer, space, constraint kinds and feasible share, workers, budget known, outcome) or (kind, number of violated terms, sizes)"
BUDGET_S = {"quick": 90, "thorough": 600}
MIN_EVALS = 15000
NEED_EVENTS = (
    "ask", "violating-ask", "warned", "recommend", "foreign", "told-violation", "penalty", "violation-penalty", "projected", "layer-unsatisfied",
    "tabu-ask", "minimize", "nested", "bool", "float", "satisfied-instead",
)  # fmt: skip
CASE_TIMEOUT = 150
ASSUMPTIONS = [
    "constraints are registered before the optimizer is built, deterministic, and return a bool or a float (>= 0 when satisfied)",
    "the failed-constraint warning is emitted once per optimizer (documented), at the first violating candidate at the latest",
    "wrapped third-party minimisers, and optimizers which recommend something else than a told point, are only judged on asks",
]
DIRECT = ("OnePlusOne", "RandomSearch", "DiscreteOnePlusOne", "PSO", "ES", "CauchyOnePlusOne")  # no optimizer inside, which may warn
TABU = ("DiscreteOnePlusOneT", "PortfolioDiscreteOnePlusOneT", "DiscreteLenglerOnePlusOneT")


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out: tp.List[tp.Dict[str, tp.Any]] = []
    quick = tier == "quick"
    have = set(opts.registered())
    names = [n for n in ELITIST if n in have]
    others = [n for n in opts.core() if n not in names]
    for k in range(6 if quick else 60):
        for i, n in enumerate(names + (others if k % 4 == 0 else [])):
            j = i + 3 * k + seed
            if n.startswith("SADiscrete"):
                continue
            share = [0.7, 0.3, 0.7, 0.05, 0.0][(j // 7) % 5]
            if n not in DIRECT and not n.endswith("OnePlusOne"):
                share = max(share, 0.3)  # the optimizers inside have their own retries
            out.append(
                dict(kind="ask", opt=n, space=["arr3", "mix", "bnd2", "dct", "tch", "nested", "arr2x2"][j % 7], share=share,
                     workers=1 if opts.no_parallel(n) else [1, 3][(i + k) % 2], budget=[60, None, 60][(j // 2) % 3], seed=seed * 1000 + k, n=16)
            )  # fmt: skip
    for k in range(300 if quick else 5000):
        out.append(dict(kind=["penalty", "violation"][k % 2], seed=seed * 100000 + k))
    for k in range(48 if quick else 800):
        out.append(dict(kind="layer", seed=seed * 100000 + k))
    for k in range(32 if quick else 600):
        out.append(dict(kind="minimize", seed=seed * 100000 + k))
    for k in range(24 if quick else 400):
        out.append(dict(kind="tabu", opt=(TABU + ("RandomSearch", "DiscreteOnePlusOne", "DE"))[k % 6], seed=seed * 100000 + k))
    return out


def features(value: tp.Any) -> tp.List[float]:
    if isinstance(value, dict):
        return [x for k in sorted(value, key=str) for x in features(value[k])]
    if isinstance(value, (list, tuple)):
        return [x for v in value for x in features(v)]
    if isinstance(value, np.ndarray):
        return [float(x) for x in value.ravel()]
    if isinstance(value, str):
        return [float(sum(map(ord, value)) % 7)]
    return [float(value)] if isinstance(value, (bool, int, float, np.number)) else [0.0]


class Linear:
    """>= 0 when satisfied (or a bool): can be pickled, and counts its calls"""

    def __init__(self, weights: tp.Sequence[float], bound: float, as_bool: bool) -> None:
        self.weights, self.bound, self.as_bool = list(weights), bound, as_bool

    def slack(self, value: tp.Any) -> float:
        f = features(value)
        w = (self.weights * (1 + len(f) // len(self.weights)))[: len(f)]
        return float(self.bound - np.dot(w, f))

    def __call__(self, value: tp.Any) -> tp.Any:
        s = self.slack(value)
        return bool(s >= 0) if self.as_bool else s


def make_constraints(r: tp.Any, values: tp.List[tp.Any], share: float) -> tp.List[Linear]:
    """each one is satisfied by about this share of the values"""
    out = []
    num = r.choice([1, 1, 2])
    for _ in range(num):
        c = Linear([r.uniform(-1, 1) for _ in range(5)], 0.0, r.random() < 0.35)
        slacks = sorted(-c.slack(v) for v in values)
        q = share ** (1 / num)
        c.bound = slacks[min(len(slacks) - 1, int(q * len(slacks)))] if share > 0 else slacks[0] - 1e6
        out.append(c)
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    {"ask": run_ask, "penalty": run_penalty, "violation": run_violation, "layer": run_layer, "minimize": run_minimize, "tabu": run_tabu}[case["kind"]](case, mon)


def run_ask(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng
    from nevergrad.common import errors

    r = rng_of(case)
    nested = case["space"] == "nested"
    spec = opts.SPACES["arr3"] if nested else drive.spec_of(case)
    probe = [spaces.sample_value(spec, r) for _ in range(80)]
    constraints = make_constraints(r, probe, case["share"])
    for c in constraints:
        mon.event("bool" if c.as_bool else "float")

    def param() -> tp.Any:
        p = spaces.build(spec)
        if nested:  # the constraint is on a parameter within the parameter
            for c in constraints:
                p.register_cheap_constraint(c)
            return ng.p.Tuple(ng.p.Dict(x=p), ng.p.Scalar())
        for c in constraints:
            p.register_cheap_constraint(c)
        return p

    def satisfied(value: tp.Any) -> bool:
        return all(c.slack(value[0]["x"] if nested else value) >= 0 for c in constraints)

    if nested:
        mon.event("nested")
    elitist = case["opt"] in ELITIST and not case["opt"].startswith("Zero")
    if not elitist and case["share"] < 0.3:
        return  # slow sub-optimizations within sub-optimizations
    what = f"{case['opt']} on {case['space']} (share {case['share']}, {[c.as_bool for c in constraints]}, budget {case['budget']})"
    warned = False
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        opt = opts.build_opt(case["opt"], param, case["budget"] if elitist and case["opt"] != "LHSSearch" else 60, case["workers"], case["seed"])
        if case["share"] < 0.3 or case["opt"] not in DIRECT:
            opt._constraints_manager.update(max_trials=r.choice([4, 20, 60] if case["share"] < 0.3 else [20, 100]))
        easy = case["opt"] == "RandomSearch" and sum(satisfied(opt.parametrization.sample().value) for _ in range(100)) > 30 and case["share"] >= 0.3
        mon.event("easy", int(easy))
        pending: tp.List[tp.Any] = []
        told: tp.List[tp.Tuple[bool, float]] = []
        values: tp.List[tp.Any] = []
        foreign_ok = True
        violating = 0
        for _ in range(case["n"]):
            while len(pending) < case["workers"]:
                del caught[:]
                c = opt.ask()
                pending.append(c)
                now = any(issubclass(w.category, errors.FailedConstraintWarning) for w in caught)
                ok = satisfied(c.value)
                mon.event("ask")
                mon.event("violating-ask", int(not ok))
                mon.event("warned", int(now))
                warned |= now
                violating += not ok
                mon.check(ok or warned or not np.all(np.isfinite(features(c.value))), "unreported-violation", lambda: f"{what}: {c.value} violates without any warning")
                if case["opt"] in DIRECT:
                    mon.check(not now or not ok, "wrong-warning", lambda: f"{what}: warning but {c.value} satisfies the constraints")
                if easy:
                    mon.check(ok, "easy-constraint-violated", lambda: f"{what}: {c.value}")
            c = pending.pop(r.randrange(len(pending)))
            if elitist and foreign_ok and r.random() < 0.15:
                base = spaces.sample_value(spec, r)
                value = (dict(x=base), 0.3) if nested else base
                f = opt.parametrization.spawn_child(new_value=value)
                try:
                    opt.tell(f, -1000.0 - r.random())
                    told.append((satisfied(f.value), f.loss))
                    values.append(f.value)
                    mon.event("foreign")
                except drive.not_supported():
                    foreign_ok = False
                    told.append((satisfied(f.value), -2000.0))
            ok = satisfied(c.value)
            values.append(c.value)
            # tempting losses for violating points
            loss = min(1e9, spaces.numeric_loss(c.value)) - (0 if ok else 500)
            if elitist and ok and r.random() < 0.15:  # violations measured by the user
                opt.tell(c, loss - 500, [r.random(), r.choice([0.0, -1.0])])
                ok = False
                mon.event("told-violation")
                told.append((False, loss - 500))
            else:
                opt.tell(c, loss)
                told.append((ok, loss))
            if elitist and r.random() < 0.3 and any(good for good, _ in told):
                mon.event("recommend")
                rec = opt.provide_recommendation()
                bad_losses = [x for good, x in told if not good]
                reference = min(x for good, x in told if good)
                mon.check(satisfied(rec.value), "violating-recommendation", lambda: f"{what}: {rec.value} is recommended, satisfying points were told")
                # repeated points are averaged, and differential evolution prefers those with many evaluations
                repeated = len({spaces.freeze(v) for v in values}) < len(values)
                mon.check(rec.loss not in bad_losses and (repeated or abs(rec.loss - reference) < 1e-9 * (1 + abs(reference))), "displaced",
                          lambda: f"{what}: recommendation with loss {rec.loss} instead of {reference}, the best satisfying one")  # fmt: skip
    mon.seen(case["opt"], case["space"], case["share"], case["workers"], case["budget"], violating)


def recorder() -> tp.Any:
    from nevergrad.optimization import base

    class Recorder(base.Optimizer):
        """keeps the losses given to the algorithm"""

        def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
            super().__init__(parametrization, budget=budget, num_workers=num_workers)
            self.log: tp.List[float] = []

        def _internal_ask_candidate(self) -> tp.Any:
            return self.parametrization.sample()

        def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
            self.log.append(float(loss))

        def _internal_tell_not_asked(self, candidate: tp.Any, loss: float) -> None:
            self.log.append(float(loss))

    return Recorder


def run_penalty(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    dim = r.randint(1, 4)
    num = r.randint(1, 3)
    constraints = [Linear([r.uniform(0.1, 1) for _ in range(dim)], r.uniform(-2, 2), r.random() < 0.2) for _ in range(num)]
    nested = r.random() < 0.4
    array = ng.p.Array(shape=(dim,))
    for c in constraints:
        array.register_cheap_constraint(c)
    param = ng.p.Dict(x=array, y=ng.p.Scalar()) if nested else array
    budget = r.choice([None, 10, 100, 10000])
    what = f"{num} constraints {[c.as_bool for c in constraints]} nested={nested} budget={budget}"
    opt = recorder()(param, budget=budget)
    opt._constraints_manager.update(max_trials=10)
    asked = []
    last: tp.Dict[int, tp.Tuple[float, float]] = {}
    direction = np.array([r.uniform(0.1, 1) for _ in range(dim)])
    for _ in range(4):
        for _ in range(r.choice([0, 1, 7])):
            asked.append(opt.ask())
        results = []
        for k, t in enumerate(sorted(r.uniform(-10, 10) for _ in range(5))):
            # the further along the direction, the larger the violations
            value = direction * t
            cand = opt.parametrization.spawn_child(new_value=dict(x=value, y=0.0) if nested else value)
            loss = r.uniform(-5, 5)
            opt.tell(cand, loss)
            seen = opt.log[-1]
            slacks = [c.slack(value) for c in constraints]
            violation = sum(float(s < 0) if c.as_bool else max(0.0, -s) for s, c in zip(slacks, constraints))
            mon.event("penalty")
            if violation == 0:
                mon.check(seen == loss, "satisfying-penalised", lambda: f"{what}: {value} satisfies but loss {loss} became {seen}")
            else:
                tolerance = 1e-9 * (1 + abs(loss))
                mon.check(seen > loss - tolerance if violation < 1e-6 else seen > loss, "not-penalised", lambda: f"{what}: {value} with violations {slacks} has loss {loss} as {seen}")
            mon.check(cand.loss == loss, "reported-loss", lambda: f"{what}: told {loss}, reported {cand.loss}")
            results.append((violation, seen - loss))
            mon.seen("penalty", num, nested, budget is None, sum(s < 0 for s in slacks), k)
        for (v1, p1), (v2, p2) in zip(results, results[1:]):
            # no ask in between: only the violation changes
            mon.check(p2 >= p1 - 1e-6 if v2 - v1 < 1e-3 else p2 > p1, "penalty-not-increasing", lambda: f"{what}: violation {v1} penalised by {p1} and {v2} by {p2}")
        last[len(last)] = results[-1]
    if any(v > 0 for v, _ in last.values()):
        ratio = [p / v for v, p in last.values() if v > 1e-3]
        mon.check(all(b >= a * (1 - 1e-9) for a, b in zip(ratio, ratio[1:])), "penalty-decreases", lambda: f"{what}: penalty per violation {ratio} along the run")


def run_violation(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    dim = r.randint(1, 3)
    budget = r.choice([None, 12, 100])
    style = None if r.random() < 0.5 else [r.uniform(0, 10), r.uniform(0.1, 3), r.uniform(0.3, 2), r.uniform(0.3, 2), r.uniform(0, 1), r.uniform(0.5, 2)]
    num = r.randint(1, 4)
    what = f"budget={budget} style={style} num={num}"
    twins = [recorder()(ng.p.Array(shape=(dim,)), budget=budget) for _ in range(3)]
    best: tp.Optional[float] = None
    for step in range(16):
        value = np.array([r.uniform(-3, 3) for _ in range(dim)])
        loss = r.uniform(0.1, 5) if r.random() < 0.7 else r.uniform(-5, 0)
        ok = r.random() < 0.35
        small = [-r.random() if r.random() < 0.4 or ok else r.random() * 3 for _ in range(num)]
        large = [x + r.random() if x > 0 else x for x in small]
        k = r.randrange(num)
        if not ok:
            small[k] = abs(small[k])
            large[k] = small[k] + 0.1 + r.random()
        if r.random() < 0.2:
            small[k], large[k], ok = 0.0, 0.5, all(x <= 0 for j, x in enumerate(small) if j != k)
        given = [small, large if not ok or large[k] > 0 else small, small]
        same_form: tp.Any = np.array(small) if num > 1 or r.random() < 0.5 else small[0]
        cands = [o.parametrization.spawn_child(new_value=value) for o in twins]
        satisfied = all(x <= 0 for x in small)
        for o, c, g in zip(twins, cands, [given[0], given[1], same_form]):
            if style is None:
                o.tell(c, loss, g)
            else:
                o.tell(c, loss, g, style)
        a, b, c2 = (o.log[-1] for o in twins)
        mon.event("violation-penalty")
        mon.seen("violation", num, sum(x > 0 for x in small), style is None, budget, step)
        mon.check(abs(a - c2) <= 1e-9 * (1 + abs(a)), "violation-form", lambda: f"{what}: {small} gives {a}, {same_form!r} gives {c2}")
        if satisfied:
            mon.check(a == loss, "satisfying-violation-penalised", lambda: f"{what}: violations {small} changed {loss} into {a}")
        elif style is None or style[0] * 0 + max(loss, 0) > 0:
            # nothing to scale when the loss is not positive (documented formula), until half the budget
            late = budget is not None and twins[0].num_tell - 1 > budget / 2
            base = max(loss, 0) + ((1e5 if style is None else style[0]) if late else 0)
            mon.check(a > loss if base > 1e-9 else a >= loss, "violation-not-penalised", lambda: f"{what}: violations {small} left {loss} as {a}")
        if any(x > y for x, y in zip(given[1], given[0])) and any(x > 0 for x in given[1]):
            mon.check(b >= a and (b > a or loss <= 0 or given[1] == given[0]), "violation-penalty-not-increasing", lambda: f"{what}: violations {given[0]} give {a} and {given[1]} give {b} for loss {loss}")
        if satisfied:
            best = loss if best is None else min(best, loss)
        if best is not None:
            rec = twins[0].provide_recommendation()
            mon.check(rec.loss == best, "violation-displaced", lambda: f"{what}: recommendation has loss {rec.loss}, best satisfying loss {best}")


def run_minimize(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    name = r.choice(["RandomSearch", "OnePlusOne", "DE", "TwoPointsDE", "PSO", "ES"])
    workers = r.choice([1, 1, 3])
    bounds = [r.uniform(-1.5, 1.0) for _ in range(r.randint(1, 2))]
    opt = opts.build_opt(name, lambda: ng.p.Array(shape=(2,)), 40, workers, case["seed"] % 100000)
    calls: tp.List[tp.Tuple[tp.Tuple[float, ...], float]] = []
    measured: tp.List[tp.Set[tp.Tuple[float, ...]]] = [set() for _ in bounds]

    def objective(x: np.ndarray) -> float:
        out = float(np.sum((x - 2) ** 2))
        calls.append((tuple(x), out))
        return out

    def violation(k: int) -> tp.Callable[[np.ndarray], float]:
        def func(x: np.ndarray) -> float:
            measured[k].add(tuple(x))
            return float(x[k] - bounds[k])

        return func

    rec = opt.minimize(objective, constraint_violation=[violation(k) for k in range(len(bounds))])
    what = f"{name} with {workers} workers, bounds {bounds}"
    mon.event("minimize")
    mon.check(all({x for x, _ in calls} <= m for m in measured), "violation-not-measured", lambda: f"{what}: {len(calls)} points evaluated, {[len(m) for m in measured]} measured")
    good = [(v, x) for x, v in calls if all(x[k] <= b for k, b in enumerate(bounds))]
    mon.seen("minimize", name, workers, len(good))
    if good:
        mon.check(rec.loss == min(good)[0], "minimize-recommendation", lambda: f"{what}: recommended {rec.value} of loss {rec.loss} while the best satisfying point is {min(good)}")


def run_layer(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng
    from nevergrad.ops import constraints as ngc

    warnings.simplefilter("ignore")
    r = rng_of(case)
    dim = r.randint(1, 3)
    space = r.choice(["array", "bounded", "instru", "dict"])
    bound = r.uniform(-2, 1)
    target = r.choice([0.3, 0.3, -50.0])
    tried: tp.List[tp.Tuple[float, tp.Any]] = []

    def amount(value: tp.Any) -> tp.Any:
        x = np.array(features(value))
        out = max(0.0, float(x.sum() - bound * len(x) if target > 0 else np.abs(x).sum() + 1 + target * 0))
        tried.append((out, spaces.freeze(value)))
        return out

    def func(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        return amount((args, kwargs) if space == "instru" else args[0])

    def build() -> tp.Any:
        if space == "array":
            return ng.p.Array(shape=(dim,))
        if space == "bounded":
            return ng.p.Array(shape=(dim,), lower=-4, upper=4)
        if space == "instru":
            return ng.p.Instrumentation(ng.p.Array(shape=(dim,)), k=ng.p.Scalar())
        return ng.p.Dict(x=ng.p.Array(shape=(dim,)), c=ng.p.Choice([1.0, 2.0]))

    how = r.choice(["operator", "as_layer"])
    budget = r.choice([20, 100])
    optimizer = r.choice(["NGOpt", "OnePlusOne", "RandomSearch"])
    if how == "operator":
        param = ngc.Constraint(func, optimizer=optimizer, budget=budget)(build())
    else:
        param = build()
        param.register_cheap_constraint((lambda v: amount(v)) if space == "instru" else func, as_layer=True)
    param.random_state.seed(r.randrange(2**32))
    what = f"{space} dim={dim} {how} {optimizer} budget={budget} bound={bound:.2f} possible={target > 0}"
    for _ in range(5):
        data = np.array([r.gauss(0, 1.5) for _ in range(param.dimension)])
        child = param.spawn_child()
        gc.collect()  # a wrapped minimiser inside the projection may be alive: see the known findings of T01
        del tried[:]
        if r.random() < 0.5:
            child.set_standardized_data(data)
        else:
            child.mutate()
        value = child.value
        mon.event("projected")
        calls = list(tried)
        mon.check(bool(calls), "constraint-not-evaluated", lambda: f"{what}: no evaluation")
        final = amount(value)
        tries = [x for x, _ in calls[1:]] or [calls[0][0]]
        mon.check(final <= min(tries), "worse-than-tried", lambda: f"{what}: violation {final} after trying {sorted(calls)[:2]}")
        first = calls[0][0]
        if first <= 0:
            mon.check(len(calls) <= 2, "needless-projection", lambda: f"{what}: {len(calls)} evaluations though satisfied at once")
        else:
            mon.event("layer-unsatisfied", int(final > 0))
            mon.event("satisfied-instead", int(final <= 0))
        del tried[:]
        again = child.value
        mon.check(spaces.freeze(again) == spaces.freeze(value), "unstable-projection", lambda: f"{what}: {value} then {again}")
        mon.check(not tried, "recomputed", lambda: f"{what}: the constraint was evaluated again to read the same value")
        # the vector of the parameter is the one of the projected value
        if final <= 0 and space != "dict":
            twin = param.spawn_child()
            twin.set_standardized_data(child.get_standardized_data(reference=param))
            mon.check(spaces.same(twin.value, value, 1e-6, 1e-6), "vector-mismatch", lambda: f"{what}: {value} is read as {twin.value} from its vector")
        mon.seen("layer", space, dim, how, optimizer, budget, target > 0, first <= 0, final <= 0, len(calls))


def run_tabu(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    reps = r.choice([4, 6])
    space = r.choice(["choice", "transition", "ints"])
    n = 60

    def param() -> tp.Any:
        if space == "choice":
            p: tp.Any = ng.p.Choice(list("abcdefgh"), repetitions=reps)
        elif space == "transition":
            p = ng.p.TransitionChoice(list("abcdefgh"), repetitions=reps)
        else:
            p = ng.p.Array(shape=(reps,), lower=0, upper=7).set_integer_casting()
        return p

    length = r.choice([3, 10, 100]) if case["opt"] not in TABU else 10000
    workers = r.choice([1, 3])

    def with_tabu() -> tp.Any:
        p = param()
        if case["opt"] not in TABU:
            p.specify_tabu_length(length)
        return p

    opt = opts.build_opt(case["opt"], with_tabu, 200, workers, case["seed"] % 10000)
    recent: tp.Deque[tp.Any] = collections.deque(maxlen=min(length, n))
    repeats = []
    pending = []
    for step in range(n):
        c = opt.ask()
        v = spaces.freeze(c.value)
        mon.event("tabu-ask")
        if v in recent:
            repeats.append((step, len(recent) - list(recent).index(v)))
        recent.append(v)
        pending.append(c)
        if len(pending) == workers:
            for c in pending:
                opt.tell(c, spaces.numeric_loss(c.value))
            pending = []
    mon.note(f"repeats {case['opt']} {len(repeats)}")
    mon.check(not repeats, "tabu-repeat", lambda: f"{case['opt']} on {space} x {reps} with tabu length {length}, {workers} workers: (step, distance) {repeats}")
    for _ in range(n - 1):
        mon.check(True, "tabu", "")
    mon.seen("tabu", case["opt"], space, reps, length, workers)
