"""B03: seeded experiments re-run under disturbed global state, other orders, shared function instances and other processes (other hash seeds); differential oracle over the descriptions, plus a monitor of every objective call, every evaluation of a recommendation and the evaluated fronts."""
import contextlib
import gc
import io
import itertools
import json
import math
import os
import random
import subprocess
import sys
import typing as tp
import warnings
import numpy as np
from .. import opts
from ..engine import Mon, rng_of

RULE = "a distinct state is (plan or function, optimizer, budget, workers, steady or batch mode, kind of re-run, failure point)"
BUDGET_S = {"quick": 90, "thorough": 700}
MIN_EVALS = 4000
CASE_TIMEOUT = 100
NEED_EVENTS = ("run", "rerun", "shared-function", "other-process", "plan-experiment", "failing-optimizer", "failing-function", "penalised", "unpenalised", "multiobjective", "seed")
ASSUMPTIONS = [
    "elapsed_time is the only field of a description which is not compared",
    "plans relying on external libraries, data or simulators which upstream itself excludes from its reproducibility test are not run",
]

LOG: tp.Dict[str, tp.List[tp.Any]] = {"calls": [], "evals": [], "recs": []}
PLANS = (
    "yabbob yasmallbbob yatinybbob yatuningbbob yaboundedbbob yaboxbbob yahdlbbbob yasplitbbob yaparabbob yaconstrainedbbob yapenbbob yapensmallbbob yapenboundedbbob "
    "yaonepenbbob yaonepenboundedbbob yamegapenboundedbbob reduced_yahdlbbbob ms_bbob zp_ms_bbob pbbob illcondi alldes paraalldes hdbo4d parahdbo4d deceptive doe newdoe doe_dim4 "
    "fiveshots oneshot oneshot1 oneshot2 oneshot3 oneshot4 dim10_smallbudget dim10_select_one_feature dim10_select_two_features basic repeated_basic metanoise parallel harderparallel "
    "parallel_small_budget instrum_discrete sequential_instrum_discrete multiobjective_example multiobjective_example_hd multiobjective_example_many far_optimum_es pbt "
    "simple_tsp fishing ultrasmall_photonics verysmall_photonics pbo_reduced_suite yawidebbob yasplitbbob"
).split()
EXCLUDED = ("Hyper", "BO", "SMAC", "AX", "pysot", "HyperOpt", "PCABO", "Fast", "Neural")


def functions() -> tp.Dict[str, tp.Callable[..., tp.Any]]:
    import nevergrad as ng
    from nevergrad.functions import ArtificialFunction, ExperimentFunction, FarOptimumFunction
    from nevergrad.functions.base import MultiExperiment
    from nevergrad.functions.helpers import SpecialEvaluationExperiment

    def bad(x: tp.Any) -> bool:
        return bool(np.sum(np.asarray(x)) <= -0.3)

    class Probe(ExperimentFunction):
        def __init__(self, shift: float = 0.3, kind: str = "arr", noise: float = 0.0, multi: bool = False, fail: int = -1, what: str = "raise", constrained: bool = False) -> None:
            array = ng.p.Array(shape=(2,))
            if kind == "box":
                array = ng.p.Array(shape=(2,), lower=-3, upper=5)
            if constrained:
                array.register_cheap_constraint(bad)
            if kind == "mix":
                param: tp.Any = ng.p.Instrumentation(array, n=ng.p.Scalar(lower=-3, upper=4).set_integer_casting(), c=ng.p.Choice(["a", "b", "c"]), t=ng.p.TransitionChoice([0, 1, 2, 3]))
            elif kind == "kw":
                param = ng.p.Instrumentation(array, scale=ng.p.Log(lower=0.1, upper=10))
            else:
                param = ng.p.Instrumentation(array) if kind == "instru" else array
            super().__init__(self.compute, param.set_name(kind))
            self.shift, self.noise, self.multi, self.fail, self.what = shift, noise, multi, fail, what
            if multi:
                self.multiobjective_upper_bounds = np.array([30.0, 20.0])
            self.number = 0

        def exact(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            x = np.asarray(args[0])
            val = float(np.sum((x - self.shift) ** 2)) + kwargs.get("n", 0) ** 2 * 0.1 + 0.2 * kwargs.get("t", 0) + {"a": 1.0, "b": 0.0, "c": 0.3}[kwargs.get("c", "b")] + abs(math.log(kwargs.get("scale", 1.0)))
            if self.multi:
                return np.array([val, float(np.sum((x + self.shift - 1.0) ** 2))])
            return val

        def compute(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            self.number += 1
            out = self.exact(*args, **kwargs)
            if self.noise:
                out = out + self.noise * self.parametrization.random_state.normal()
            if self.number == self.fail:
                LOG["calls"].append("fail")
                if self.what == "raise":
                    raise OverflowError("failing function")
                return {"none": None, "text": "abc", "nan": float("nan"), "array": np.array([1.0, 2.0])}[self.what]
            LOG["calls"].append(out)
            return out

        def evaluation_function(self, *recommendations: tp.Any) -> float:
            if self.multi:
                out = super().evaluation_function(*recommendations)
            else:
                out = self.exact(*recommendations[0].args, **recommendations[0].kwargs)
            LOG["evals"].append(([c.value for c in recommendations], out))
            return out

        def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
            return 1.0 + abs(float(np.sum(np.asarray(input_parameter[0][0])))) % 3.0

    return dict(
        probe=Probe,
        artificial=ArtificialFunction,
        far=FarOptimumFunction,
        special=lambda: SpecialEvaluationExperiment(
            MultiExperiment([ArtificialFunction("sphere", 3), ArtificialFunction("cigar", 3)], upper_bounds=[50, 50]), ArtificialFunction("rastrigin", 3), pareto_size=2
        ),
        pair=lambda: MultiExperiment([ArtificialFunction("sphere", 3), ArtificialFunction("cigar", 3)], upper_bounds=[50, 50]),
    )


def failing_optimizers() -> tp.Dict[str, tp.Any]:
    import nevergrad as ng
    from nevergrad.optimization import base

    class VerifFailing(base.Optimizer):
        """random search failing at one point"""

        where, when = "ask", 3

        def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
            if self.where == "init":
                raise OverflowError("failing constructor")
            super().__init__(parametrization, budget=budget, num_workers=num_workers)
            self._count = {"ask": 0, "tell": 0}

        def _tick(self, what: str) -> None:
            self._count[what] += 1
            if self.where == what and self._count[what] == self.when:
                raise OverflowError(f"failing {what}")

        def _internal_ask_candidate(self) -> tp.Any:
            self._tick("ask")
            return self.parametrization.sample()

        def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
            self._tick("tell")

        def recommend(self) -> tp.Any:
            if self.where == "recommend":
                raise OverflowError("failing recommendation")
            return super().recommend()

    if "VerifFailing" not in ng.optimizers.registry:
        ng.optimizers.registry.register(VerifFailing)
    return {"cls": ng.optimizers.registry["VerifFailing"]}


def constraint_value(x: tp.Any) -> float:
    """positive: violated"""
    while isinstance(x, tuple):
        x = x[0]
    return float(np.sum(np.asarray(x))) + 0.4


def build(spec: tp.Dict[str, tp.Any], function: tp.Any = None) -> tp.Any:
    from nevergrad.benchmark.xpbase import Experiment

    func = functions()[spec["f"]](**spec["args"]) if function is None else function
    kwargs: tp.Dict[str, tp.Any] = {}
    if spec.get("violation"):
        kwargs["constraint_violation"] = [constraint_value]
    if "penalize" in spec:
        kwargs["penalize_violation_at_test"] = spec["penalize"]
    if spec.get("suggest"):
        kwargs["suggestions"] = [np.array([0.25, 0.5])]
    return Experiment(func, spec["opt"], budget=spec["budget"], num_workers=spec["workers"], batch_mode=spec["batch"], seed=spec["seed"], **kwargs)


def plain(x: tp.Any) -> tp.Any:
    if isinstance(x, (float, np.floating)):
        return float(x).hex() if math.isfinite(x) else str(float(x))
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return int(x)
    if isinstance(x, (tuple, list, np.ndarray)):
        return [plain(y) for y in x]
    return str(x)


def described(xp: tp.Any) -> tp.Dict[str, tp.Any]:
    with contextlib.redirect_stderr(io.StringIO()) as err, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = xp.run()
    res = {k: plain(v) for k, v in out.items() if k != "elapsed_time"}
    if res.get("error"):
        res["@trace"] = err.getvalue()[-700:]
    return res


def disturb(r: tp.Any) -> None:
    np.random.seed(r.randrange(2**31))
    random.seed(r.randrange(2**31))
    np.random.normal(size=r.randint(0, 5))
    try:
        import torch

        torch.manual_seed(r.randrange(2**31))
    except ImportError:
        pass


def plan_list(name: str, seed: int, n: int) -> tp.List[tp.Any]:
    from nevergrad.benchmark import experiments

    import inspect

    maker = experiments.registry[name]
    kwargs = {"seed": seed} if "seed" in inspect.signature(maker).parameters else {}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = list(itertools.islice(maker(**kwargs), n))
    for xp in out:
        if xp.seed is not None:
            xp.seed = int(xp.seed)  # the seeds are numpy integers, see case_known
    return out


def light(xp: tp.Any) -> bool:
    s = xp.optimsettings
    if s.name in opts.SLOW or s.name in opts.UNUSABLE or any(w in s.name for w in EXCLUDED) or s.budget > 100:
        return False
    return bool(xp.function.dimension <= 60) and not xp.is_incoherent


# ---------------------------------------------------------------- cases
def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 200 if tier == "quick" else 2600
    kinds = ["exp", "exp", "exp", "fail", "plan", "plan", "seeds"]
    out = [dict(kind=kinds[k % len(kinds)], k=k, seed=seed * 1000000 + k) for k in range(n)]
    procs = 12 if tier == "quick" else 80
    out.append(dict(kind="known", k=0, seed=seed * 1000000))
    return [dict(kind="process", k=k, seed=seed * 1000000 + 500000 + k) for k in range(procs)] + out


def draw(r: tp.Any, functions_too: bool = True) -> tp.Dict[str, tp.Any]:
    forced = r.random() < 0.25  # a probe with a hard constraint
    f = "probe" if forced else r.choice(["probe"] * 5 + (["artificial", "artificial", "far", "pair", "special"] if functions_too else []))
    multi = False
    if f == "probe":
        multi = r.random() < 0.2
        args: tp.Dict[str, tp.Any] = dict(shift=r.choice([0.3, -1.0, 2.0]), kind=r.choice(["arr", "box", "mix", "kw", "instru"]), noise=0.0 if multi else r.choice([0.0, 0.0, 0.5]), multi=multi)
        if forced:
            args.update(kind=r.choice(["arr", "box"]), shift=2.0)
        args["constrained"] = args["kind"] in ("arr", "box") and r.random() < 0.15 and not multi  # see case_known
    elif f == "artificial":
        args = dict(name=r.choice(["sphere", "cigar", "rastrigin", "rosenbrock", "hm", "griewank", "DelayedSphere"]), block_dimension=r.choice([1, 2, 3]), num_blocks=r.choice([1, 2]), noise_level=r.choice([0, 0, 1.0]))
        args.update(rotation=r.random() < 0.4, useless_variables=r.choice([0, 2]), noise_dissymmetry=r.random() < 0.2, aggregator=r.choice(["max", "mean", "sum"]), bounded=r.random() < 0.3)
        args["split"] = not args["useless_variables"] and r.random() < 0.4
        if args["name"] == "DelayedSphere":
            args.update(block_dimension=3, num_blocks=1)
    elif f == "far":
        args = dict(independent_sigma=r.random() < 0.5, mutable_sigma=r.random() < 0.5, multiobjective=r.random() < 0.4, recombination=r.choice(["crossover", "average"]), optimum=(0.8, 1) if r.random() < 0.5 else (80, 100))
    else:
        args = {}
    pool = [o for o in opts.core() if o not in opts.SLOW and not o.startswith(("Hyper", "BO"))]
    opt = r.choice(opts.basic() if r.random() < 0.6 else pool)
    workers = r.choice([1, 1, 2, 4, 10])
    if opt in opts.SEVERAL_COBYLA or opts.no_parallel(opt):
        workers = 1
    spec = dict(f=f, args=args, opt=opt, budget=r.choice([1, 2, 7, 20, 45]), workers=workers, batch=r.random() < 0.5, seed=r.randrange(2**32))
    if f == "probe" and not multi and args["kind"] in ("arr", "box") and not args["constrained"] and (forced or r.random() < 0.3):
        spec["violation"] = True
        args["shift"] = r.choice([2.0, args["shift"]])
        spec["budget"] = r.choice([1, 2, 3, 7, 20])
    if f == "probe" and (spec.get("violation") or args["constrained"]):
        spec["penalize"] = r.random() < 0.5
    if f == "probe" and args["kind"] == "arr" and not multi and r.random() < 0.2 and opt in opts.basic():
        spec["suggest"] = True
    return spec


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    globals()["case_" + case["kind"]](case, mon, r)


def same_description(a: tp.Dict[str, tp.Any], b: tp.Dict[str, tp.Any], mon: Mon, kind: str, what: str) -> None:
    a, b = ({k: v for k, v in x.items() if k != "@trace"} for x in (a, b))
    diff = {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}
    mon.check(not diff, f"not-reproducible:{kind}", lambda: f"{what}: {str(diff)[:400]}")


def hypervolume2(points: tp.List[tp.Any], upper: tp.Tuple[float, float]) -> float:
    kept = sorted((float(a), float(b)) for a, b in points if a < upper[0] and b < upper[1])
    total, height = 0.0, upper[1]
    for a, b in kept:
        if b < height:
            total += (upper[0] - a) * (height - b)
            height = b
    return total


def case_exp(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.optimization import base

    spec = draw(r)
    func = functions()[spec["f"]](**spec["args"])
    disturb(r)
    fronts: tp.List[tp.Any] = []
    original = base.Optimizer.pareto_front

    def spy(self: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        out = original(self, *args, **kwargs)
        fronts.append([c.value for c in out])
        return out

    for v in LOG.values():
        v.clear()
    base.Optimizer.pareto_front = spy  # type: ignore
    try:
        xp = build(spec, func)
        first = described(xp)
    finally:
        base.Optimizer.pareto_front = original  # type: ignore
    mon.event("run")
    what = str(spec)
    calls, evals = list(LOG["calls"]), list(LOG["evals"])
    mon.seen(spec["f"], spec["opt"], spec["budget"], spec["workers"], spec["batch"])
    mon.check(first.get("error") == "", f"error:{first.get('error')}", lambda: f"{what}: {first.get('@trace')}")
    del xp
    gc.collect()
    if first.get("error"):
        return
    loss = float.fromhex(first["loss"]) if "0x" in str(first["loss"]) else float(first["loss"])
    for key, val in dict(budget=spec["budget"], num_workers=spec["workers"], optimizer_name=spec["opt"], seed=spec["seed"], batch_mode=int(spec["batch"]), elapsed_budget=spec["budget"]).items():
        mon.check(first.get(key) == val, f"field:{key}", lambda: f"{what}: {key} is {first.get(key)}")
    for key, val in spec["args"].items():
        mon.check(first.get(key) == plain(val), "field:function", lambda: f"{what}: {key} is {first.get(key)}")
    mon.check((spec["f"] == "special" or first.get("function_class") == func.__class__.__name__) and first.get("dimension") == func.dimension and first.get("parametrization") == func.parametrization.name, "field:function", lambda: f"{what}: {first}")
    if spec["f"] == "probe":
        mon.check(len(calls) == spec["budget"], "objective-calls", lambda: f"{what}: {len(calls)} calls")
        mon.check(func.number == 0, "original-function-called", what)
        mon.check(len(evals) >= 1 and len(fronts) >= 1, "no-evaluation", what)
        values, out = evals[-1]
        mon.check(plain(values) == plain(fronts[-1]), "evaluated-something-else", lambda: f"{what}: evaluated {values}, recommended {fronts[-1]}")
        penalty = 0.0
        if any(spec.get("violation") and constraint_value(v) > 0 or spec["args"]["constrained"] and not np.sum(v) <= -0.3 for v in values):
            penalty = 1e9 if spec["penalize"] else 0.0
            mon.event("penalised" if penalty else "unpenalised")
        mon.check(loss == out + penalty, "loss-is-not-evaluation", lambda: f"{what}: loss {loss}, evaluation {out}, penalty {penalty}")
        if spec["args"]["multi"]:
            mon.event("multiobjective")
            ref = hypervolume2(calls, (30.0, 20.0))
            mon.check((loss >= penalty) if ref == 0 else abs(penalty - loss - ref) <= 1e-9 * max(1.0, ref, penalty), "multiobjective-loss", lambda: f"{what}: loss {loss}, hypervolume of all losses {ref}")
        else:
            mon.check(len(fronts[-1]) == 1, "several-recommendations", what)
    # re-runs
    for kind in r.sample(["other-state", "shared-function", "copied-function", "interleaved"], 2):
        if kind == "interleaved":
            other = draw(r)
            other["budget"] = min(other["budget"], 7)
            described(build(other))
            gc.collect()
        disturb(r)
        if kind == "shared-function":
            mon.event("shared-function")
            if r.random() < 0.5:
                func.parametrization.random_state.normal(size=3)
        again = build(spec, {"shared-function": func, "copied-function": func.copy() if kind == "copied-function" else None}.get(kind))
        second = described(again)
        mon.event("rerun")
        mon.seen(spec["f"], spec["opt"], kind)
        same_description(first, second, mon, kind, what)
        del again
        gc.collect()


def case_fail(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    spec = draw(r, False)
    spec["args"].update(constrained=False, multi=False, noise=0.0)
    spec["budget"] = r.randint(4, 20)
    for key in ("violation", "penalize", "suggest"):
        spec.pop(key, None)
    for v in LOG.values():
        v.clear()
    if r.random() < 0.5:
        cls = failing_optimizers()["cls"]
        cls.where, cls.when = r.choice(["ask", "tell", "recommend", "init", "never"]), r.randint(1, spec["budget"])
        spec["opt"] = "VerifFailing"
        expected = "" if cls.where == "never" else "OverflowError"
        mon.event("failing-optimizer")
        mon.seen("optimizer", cls.where, cls.when)
        what = f"optimizer failing at {cls.where} {cls.when}: {spec}"
        calls = {"init": 0, "ask": cls.when - 1, "tell": None, "recommend": spec["budget"], "never": spec["budget"]}[cls.where]
        if cls.where == "ask" and spec["workers"] > 1:
            calls = None
    else:
        spec["args"].update(fail=r.randint(1, spec["budget"]), what=r.choice(["raise", "raise", "none", "text"]))
        expected = {"raise": "OverflowError"}.get(spec["args"]["what"], "*")
        mon.event("failing-function")
        mon.seen("function", spec["args"]["what"], spec["args"]["fail"], spec["opt"])
        what = f"failing function: {spec}"
        calls = None
    xp = build(spec)
    res = described(xp)
    mon.check(res["error"] == expected if expected != "*" else res["error"] != "", "error-not-reported", lambda: f"{what}: error is {res['error']!r}; {res.get('@trace')}")
    mon.check(res["budget"] == spec["budget"] and res["optimizer_name"] == spec["opt"] and res["seed"] == spec["seed"], "field:failed", lambda: f"{what}: {res}")
    if calls is not None:
        mon.check(len(LOG["calls"]) == calls, "objective-calls", lambda: f"{what}: {len(LOG['calls'])} calls instead of {calls}")
    if "init" not in what.split(":")[0] and res["elapsed_budget"] != "nan":
        mon.check(res["elapsed_budget"] <= spec["budget"], "budget-exceeded", lambda: f"{what}: {res}")
    del xp
    gc.collect()  # optimizers running in a thread end with their experiment
    # an error does not disturb the next experiment
    if r.random() < 0.3:
        good = draw(r)
        a = described(build(good))
        gc.collect()
        described(build(spec))
        gc.collect()
        b = described(build(good))
        gc.collect()
        mon.event("rerun")
        same_description(a, b, mon, "after-failure", f"{good} after {what}")


def case_plan(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    name = PLANS[case["k"] * 5 % len(PLANS)] if r.random() < 0.5 else r.choice(PLANS)
    pseed = r.randrange(1000)
    disturb(r)
    n = r.choice([30, 120, 300])
    one = plan_list(name, pseed, n)
    disturb(r)
    two = plan_list(name, pseed, n)
    mon.event("plan")
    mon.check(len(one) == len(two), "plan-not-reproducible", name)
    for k, (a, b) in enumerate(zip(one, two)):
        mon.check(a == b and a.get_description().keys() == b.get_description().keys() and str(a.function.descriptors) == str(b.function.descriptors), "plan-not-reproducible", lambda: f"{name} seed {pseed}: experiment {k} is {a} then {b}")
    idx = [k for k, x in enumerate(one) if light(x)]
    r.shuffle(idx)
    idx = idx[: 3]
    results: tp.Dict[int, tp.Any] = {}
    for k in idx:
        disturb(r)
        budget, workers, opt, xseed = one[k].optimsettings.budget, one[k].optimsettings.num_workers, one[k].optimsettings.name, one[k].seed
        res = results[k] = described(one[k])
        mon.event("plan-experiment")
        mon.seen(name, opt, budget, workers)
        what = f"{name} seed {pseed} experiment {k} ({opt}, budget {budget}, workers {workers})"
        mon.check(res.get("error") == "", f"plan-error:{res.get('error')}", lambda: f"{what}: {res.get('@trace')}")
        mon.check(res["budget"] == budget and res["num_workers"] == workers and res["optimizer_name"] == opt, "field:plan", lambda: f"{what}: {res}")
        mon.check(res["seed"] == (-1 if xseed is None else int(xseed)), "field:seed", lambda: f"{what}: seed {xseed} reported {res['seed']}")
        one[k] = None
        gc.collect()
    r.shuffle(idx)
    for k in idx:
        disturb(r)
        if two[k].seed is None:
            continue
        res = described(two[k])
        mon.event("rerun")
        if not res.get("error"):
            same_description(results[k], res, mon, "plan", f"{name} seed {pseed} experiment {k} ({two[k].optimsettings.name}, budget {two[k].optimsettings.budget}, workers {two[k].optimsettings.num_workers})")
        two[k] = None
        gc.collect()


def case_seeds(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.benchmark.xpbase import create_seed_generator

    seed = r.randrange(2**32)
    disturb(r)
    before = np.random.get_state()[1].tobytes(), random.getstate()
    a = list(itertools.islice(create_seed_generator(seed), 300))
    mon.check((np.random.get_state()[1].tobytes(), random.getstate()) == before, "seeds-use-global-state", f"seed {seed}")
    disturb(r)
    gen = create_seed_generator(seed)
    b = []
    for _ in range(300):
        b.append(next(gen))
        if r.random() < 0.1:
            disturb(r)
    mon.check(a == b, "seeds-not-reproducible", f"seed {seed}")
    mon.check(len(set(a)) >= 299, "seeds-repeat", lambda: f"seed {seed}: {300 - len(set(a))} repetitions")
    mon.check(all(0 <= int(x) < 2**32 for x in a), "seeds-range", f"seed {seed}")
    other = list(itertools.islice(create_seed_generator(seed ^ 1), 300))
    mon.check(len(set(other) & set(a)) <= 1, "seeds-shared", f"seeds {seed} and {seed ^ 1}")
    mon.check(all(x is None for x in itertools.islice(create_seed_generator(None), 20)), "seeds-none", "")
    mon.event("seed", 300)
    # distinct seeds are used: an experiment draws different points
    spec = draw(r, False)
    spec.update(opt="RandomSearch", budget=3, workers=1)
    spec["args"].update(constrained=False, noise=0.0)
    for key in ("violation", "penalize", "suggest"):
        spec.pop(key, None)
    points = set()
    for s in a[:4]:
        spec["seed"] = int(s)  # see case_known
        for v in LOG.values():
            v.clear()
        described(build(spec))
        points.add(str(plain(LOG["calls"])))
    mon.check(len(points) == 4, "seed-ignored", lambda: f"{len(points)} different runs for 4 seeds: {spec}")


def case_process(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """a batch in this process, then in a new interpreter with another hash seed and another order"""
    specs = [draw(r) for _ in range(5)]
    names = [r.choice(PLANS) for _ in range(5)]
    jobs: tp.List[tp.Any] = [["spec", s] for s in specs] + [["plan", n, r.randrange(100), r.randrange(60)] for n in names]
    here = [run_job(j) for j in jobs]
    order = list(range(len(jobs)))
    r.shuffle(order)
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"b03.{os.getpid()}.{case['seed']}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump([jobs[k] for k in order], f)
    env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 2**31)))
    proc = subprocess.run([sys.executable, "-m", "vh.checks.b03", path], env=env, capture_output=True, text=True, timeout=90, check=False)
    assert proc.returncode == 0, proc.stderr[-1500:]
    there = json.loads(proc.stdout.strip().splitlines()[-1])
    mon.event("other-process")
    for k, res in zip(order, there):
        if here[k] is None:
            continue
        mon.seen("process", str(jobs[k])[:80])
        mon.event("rerun")
        same_description(here[k], res, mon, "process", str(jobs[k]))


def run_job(job: tp.Any) -> tp.Any:
    if job[0] == "spec":
        spec = dict(job[1])
        if "optimum" in spec["args"]:
            spec["args"] = dict(spec["args"], optimum=tuple(spec["args"]["optimum"]))
        xp = build(spec)
    else:
        xps = [x for x in plan_list(job[1], job[2], 200) if light(x) and x.seed is not None]
        if not xps:
            return None
        xp = xps[job[3] % len(xps)]
    out = described(xp)
    out.pop("@trace", None)
    del xp
    gc.collect()
    return json.loads(json.dumps(out))


if __name__ == "__main__":
    from ..engine import fresh_repo_imports

    fresh_repo_imports()
    with open(sys.argv[1], encoding="utf-8") as fjobs:
        results = [run_job(j) for j in json.load(fjobs)]
    print(json.dumps(results))


def case_known(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """the inputs on which the recorded defects were found, kept out of the other cases"""
    from nevergrad.benchmark.xpbase import create_seed_generator

    args = dict(shift=0.3, kind="arr", noise=0.0, multi=False, constrained=False)
    spec = dict(f="probe", args=args, opt="OnePlusOne", budget=5, workers=1, batch=False, seed=next(create_seed_generator(12)))
    res = described(build(spec))
    mon.check(res["error"] != "TypeError", "numpy-seed:TypeError", lambda: f"experiment with a seed delivered by create_seed_generator: {res.get('@trace')}")
    spec.update(seed=12, args=dict(args, multi=True, constrained=True))
    res = described(build(spec))
    mon.check(res["error"] != "RuntimeError", "multiobjective-constrained:RuntimeError", lambda: f"multiobjective experiment with a constraint: {res.get('@trace')}")
    mon.event("run", 2)
