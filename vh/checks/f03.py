"""F03: experiment functions of every light family built, copied, used and compared by the real code; monitors of the arguments received by the wrapped callables and of the state of originals and copies around every operation."""
import itertools
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of
from . import b03

RULE = "a distinct state is (family of function, operations applied between copies, symmetry and dimension, members of the aggregate)"
BUDGET_S = {"quick": 45, "thorough": 400}
MIN_EVALS = 5000
NEED_EVENTS = ("copy", "operation", "plan-function", "call", "evaluation", "symmetry", "bounded-symmetry", "multi", "special", "not-equivalent", "constraint", "renamed", "hypervolume")
ASSUMPTIONS = ["callables given to a function are shared by its copies, only the library's own state is judged"]


def draws(p: tp.Any) -> bool:
    """whether reading the value draws random numbers"""
    from nevergrad.parametrization import parameter as par

    if isinstance(p, par.Choice):
        return True
    content = getattr(p, "_content", None)
    return isinstance(content, dict) and any(draws(x) for x in content.values() if isinstance(x, par.Parameter))


def fingerprint(func: tp.Any) -> tp.Any:
    """observable state of a function"""
    p = func.parametrization
    state = p.random_state.get_state()
    value = "" if draws(p) else repr(b03.plain(p.value))
    return (
        value, state[1].tobytes(), state[2], len(p._constraint_checkers), p.name, p.dimension, repr(sorted((k, repr(v)) for k, v in func.descriptors.items())),
        repr(func.multiobjective_upper_bounds), p.generation, repr(p._meta), repr(p.heritage.get("lineage")), p.loss,
    )  # fmt: skip


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 700 if tier == "quick" else 12000
    kinds = ["copies", "copies", "calls", "symmetry", "multi", "special", "plan", "equivalence", "pareto"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(case["seed"] % 2**32)
        globals()["case_" + case["kind"]](case, mon, rng_of(case))


def satisfied(x: tp.Any) -> bool:
    return True


def zoo(r: tp.Any) -> tp.Tuple[str, tp.Any]:
    import nevergrad as ng
    from nevergrad.functions import ArtificialFunction, ExperimentFunction, FarOptimumFunction
    from nevergrad.functions.base import ArrayExperimentFunction, MultiExperiment
    from nevergrad.functions.helpers import SpecialEvaluationExperiment
    from nevergrad.functions.pbt import PBT

    class Custom(ExperimentFunction):
        def __init__(self, size: int = 2, label: str = "a", options: tp.Tuple[int, ...] = (1, 2), extra: tp.Any = None) -> None:
            param = ng.p.Instrumentation(ng.p.Array(shape=(size,)), c=ng.p.Choice(list(options)))
            super().__init__(self.compute, param.set_name(f"custom{size}"))
            self.extra = extra

        def compute(self, x: np.ndarray, c: int) -> float:
            return float(np.sum(x**2)) + c

    kind = r.choice(["custom", "plain", "artificial", "far", "multi", "special", "special-multi", "array", "pbt", "instru"])

    def sphere(k: int = 0) -> tp.Any:
        return ArtificialFunction(["sphere", "cigar", "rastrigin"][k % 3], block_dimension=2)

    def out() -> tp.Any:
        if kind == "custom":
            return Custom(r.randint(1, 3), r.choice("ab"), (1, 2, 3), extra=[1, 2])
        if kind == "plain":
            return ExperimentFunction(b03.constraint_value, ng.p.Array(shape=(r.randint(1, 3),)).set_name("arr"))
        if kind == "instru":
            param = ng.p.Instrumentation(ng.p.Scalar(), ng.p.TransitionChoice([1, 2, 3]), k=ng.p.Log(lower=0.1, upper=1))
            return ExperimentFunction(lambda x, y, k: x**2 + y + k, param.set_name(""))
        if kind == "artificial":
            return ArtificialFunction(r.choice(["sphere", "hm"]), block_dimension=2, num_blocks=r.choice([1, 2]), noise_level=r.choice([0, 1.0]), rotation=r.random() < 0.5)
        if kind == "far":
            return FarOptimumFunction(multiobjective=r.random() < 0.5)
        if kind == "multi":
            n = r.randint(1, 3)
            return MultiExperiment([sphere(k) for k in range(n)], upper_bounds=[10.0] * n)
        if kind == "special":
            return SpecialEvaluationExperiment(sphere(), sphere(1))
        if kind == "special-multi":
            return SpecialEvaluationExperiment(MultiExperiment([sphere(0), sphere(1)], upper_bounds=[10, 10]), sphere(2), pareto_size=3)
        if kind == "array":
            return ArrayExperimentFunction(b03.constraint_value, ng.p.Array(shape=(3,)).set_name("arr"), symmetry=r.randrange(8))
        return PBT(("sphere", "cigar"), (3, 2), 5)

    return kind, out()


def operate(func: tp.Any, r: tp.Any, mon: Mon) -> str:
    """one use of a function, as a user or an optimizer would"""
    import nevergrad as ng
    from nevergrad.functions.base import ArrayExperimentFunction

    what = r.choice(["call", "sample", "draw", "optimize", "evaluate", "describe", "constraint", "mutate", "seed"])
    p = func.parametrization
    if what == "constraint" and isinstance(func, ArrayExperimentFunction):
        what = "draw"  # symmetries are documented as working only without constraints
    mon.event("operation")
    if what == "call":
        c = p.sample()
        func(*c.args, **c.kwargs)
    elif what == "sample":
        p.sample()
    elif what == "draw":
        p.random_state.normal(size=3)
    elif what == "optimize":
        opt = ng.optimizers.OnePlusOne(p, budget=4)
        opt.minimize(func)
    elif what == "evaluate":
        c = p.sample()
        losses = func(*c.args, **c.kwargs)
        c._losses = np.atleast_1d(np.array(losses, dtype=float))  # as tell does
        func.evaluation_function(c)
    elif what == "describe":
        func.add_descriptors(added=r.randint(0, 3))
    elif what == "constraint":
        p.register_cheap_constraint(satisfied)
        mon.event("constraint")
    elif what == "mutate":
        p.spawn_child().mutate()
    elif what == "seed":
        p.random_state.seed(r.randrange(1000))
    return what


def independent(a: tp.Any, b: tp.Any, label: str, mon: Mon) -> None:
    from nevergrad.parametrization import core as pcore

    mon.check(a is not b and a.parametrization is not b.parametrization, f"shared-parametrization:{label}", "same parametrization object")
    mon.check(a.parametrization.random_state is not b.parametrization.random_state, f"shared-random-state:{label}", "same random state")

    def nodes(x: tp.Any) -> tp.Set[int]:
        found = {id(x)}
        content = getattr(x, "_content", None)
        if isinstance(content, dict):
            for y in content.values():
                if isinstance(y, pcore.Parameter):
                    found |= nodes(y)
        return found

    mon.check(not nodes(a.parametrization) & nodes(b.parametrization), f"shared-parameters:{label}", "some parameters are shared")


def case_copies(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common import errors

    kind, func = zoo(r)
    history: tp.List[str] = []
    for _ in range(r.randint(0, 2)):
        history.append(operate(func, r, mon))
    if r.random() < 0.2 and kind not in ("far", "pbt", "multi", "special", "special-multi", "artificial"):
        func.parametrization = func.parametrization.copy().set_name("renamed")
        history.append("rename")
        mon.event("renamed")
    before = fingerprint(func)
    copy = func.copy()
    mon.event("copy")
    mon.seen(kind, tuple(history))
    what = f"{kind} after {history}"
    mon.check(fingerprint(func) == before, f"copying-changes-original:{kind}", what)
    mon.check(type(copy) is type(func) and copy.equivalent_to(func) and func.equivalent_to(copy), f"not-equivalent:{kind}", what)
    mon.check(copy.descriptors == func.descriptors and copy.dimension == func.dimension, f"descriptors:{kind}", lambda: f"{what}: {copy.descriptors} instead of {func.descriptors}")
    mon.check(len(copy.parametrization._constraint_checkers) == len(func.parametrization._constraint_checkers), f"constraints:{kind}", what)
    mon.check(repr(copy.multiobjective_upper_bounds) == repr(func.multiobjective_upper_bounds), f"bounds:{kind}", what)
    independent(func, copy, kind, mon)
    pair = [func, copy]
    for _ in range(3):
        one, two = r.sample(pair, 2)
        before = fingerprint(two)
        op = operate(one, r, mon)
        mon.seen(kind, op)
        mon.check(fingerprint(two) == before, f"not-independent:{kind}", lambda: f"{what}: {op} on {'the copy' if one is copy else 'the original'} changed the other one")
    try:
        again = copy.copy()
    except errors.ExperimentFunctionCopyError:
        mon.violate(f"copy-of-copy:{kind}", what)
    else:
        independent(copy, again, kind, mon)
        independent(func, again, kind, mon)
        mon.check(again.equivalent_to(copy), f"not-equivalent:{kind}", what)


def case_plan(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    name = r.choice(b03.PLANS)
    xps = b03.plan_list(name, r.randrange(100), r.choice([10, 60, 200]))
    func = r.choice(xps).function
    if func.dimension > 300:
        return
    before = fingerprint(func)
    copy = func.copy()
    mon.event("plan-function")
    mon.seen("plan", name, type(func).__name__)
    kind = type(func).__name__
    mon.check(fingerprint(func) == before, f"copying-changes-original:{kind}", f"{name}: {func!r}")
    mon.check(copy.equivalent_to(func) and copy.descriptors == func.descriptors, f"not-equivalent:{kind}", f"{name}: {func!r}")
    independent(func, copy, kind, mon)
    independent(func, copy.copy(), kind, mon)
    copy.parametrization.random_state.seed(12)
    before = fingerprint(func)
    c = copy.parametrization.sample()
    copy(*c.args, **c.kwargs)
    mon.check(fingerprint(func) == before, f"not-independent:{kind}", f"{name}: {func!r}")


def case_calls(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction

    received: tp.List[tp.Any] = []
    answer = [0.0]

    def target(*args: tp.Any, **kwargs: tp.Any) -> float:
        received.append((args, kwargs))
        return answer[0]

    param = ng.p.Instrumentation(
        ng.p.Array(shape=(2,)), ng.p.Choice([object(), "b", (1, 2)]), k=ng.p.Log(lower=0.1, upper=10), d=ng.p.Dict(u=ng.p.Scalar(), v=ng.p.TransitionChoice([None, 1]))
    ).set_name("calls")  # fmt: skip
    func = ExperimentFunction(target, param)
    mon.check(func.function is target, "function-replaced", "")
    for _ in range(4):
        c = func.parametrization.sample()
        answer[0] = r.gauss(0, 1)
        received.clear()
        if r.random() < 0.5:
            out = func(*c.args, **c.kwargs)
            mon.event("call")
        else:
            out = func.evaluation_function(c)
            mon.event("evaluation")
        mon.check(out == answer[0], "value-changed", f"{out} instead of {answer[0]}")
        if mon.check(len(received) == 1, "number-of-calls", f"{len(received)} calls"):
            args, kwargs = received[0]
            mon.check(len(args) == 2 and np.array_equal(args[0], c.args[0]) and args[1] is c.args[1] and sorted(kwargs) == ["d", "k"] and kwargs["k"] == c.kwargs["k"] and kwargs["d"] == c.kwargs["d"], "arguments-changed", lambda: f"{args}, {kwargs} instead of {c.value}")
    marker = object()
    received.clear()
    func(marker, a=marker)
    mon.check(received[0][0] == (marker,) and received[0][1] == {"a": marker}, "arguments-changed", f"{received}")
    mon.seen("calls", case["seed"] % 50)
    mon.check(func.compute_pseudotime(((), {}), 1.0) == 1.0, "pseudotime", "")
    if r.random() < 0.5:
        answer[0] = np.array([1.0, 2.0])  # type: ignore
        try:
            func.evaluation_function(func.parametrization.sample())
        except AssertionError:
            pass
        else:
            mon.violate("array-evaluation-accepted", "")


def case_symmetry(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.functions.base import ArrayExperimentFunction

    d = r.randint(1, 4)
    received: tp.List[np.ndarray] = []

    def target(x: np.ndarray) -> float:
        received.append(np.array(x))
        return float(np.sum(x))

    bounds = r.choice(["none", "same", "each"])
    lower, upper = np.zeros(d), np.zeros(d)
    if bounds == "none":
        make: tp.Callable[[], tp.Any] = lambda: ng.p.Array(shape=(d,)).set_name("s")
    else:
        if bounds == "same":
            lo, up = r.choice([(-2.0, 2.0), (0.0, 1.0), (-1.0, 5.0)])
            lower, upper = np.full(d, lo), np.full(d, up)
            make = lambda: ng.p.Array(shape=(d,), lower=lo, upper=up).set_name("s")
        else:
            lower = np.array([float(r.randint(-3, 3)) for _ in range(d)])
            upper = lower + np.array([float(r.randint(1, 5)) for _ in range(d)])
            make = lambda: ng.p.Array(init=(lower + upper) / 2, lower=lower, upper=upper).set_name("s")
        mon.event("bounded-symmetry")
    middle = (lower + upper) / 2
    x = np.array([r.gauss(0, 1) for _ in range(d)]) if bounds == "none" else lower + (upper - lower) * np.array([0.05 + 0.4 * r.random() for _ in range(d)])
    seen = set()
    for s in range(2**d):
        func = ArrayExperimentFunction(target, make(), symmetry=s)
        received.clear()
        keep = x.copy()
        val = func(x)
        mon.check(np.array_equal(x, keep), "symmetry-modifies-input", "")
        mon.event("symmetry")
        mon.seen("symmetry", d, s, bounds)
        what = f"symmetry {s} in dimension {d}, bounds {lower} {upper}: {x} became {received}"
        if not mon.check(len(received) == 1, "number-of-calls", what):
            continue
        y = received[0]
        mon.check(val == float(np.sum(y)), "symmetry-value", what)
        flips = []
        for k in range(d):
            same, mirror = abs(y[k] - x[k]) < 1e-12, abs(y[k] - (2 * middle[k] - x[k])) < 1e-12
            mon.check(same or mirror, "symmetry-coordinate", what)
            flips.append(not same)
        seen.add(tuple(flips))
        if s == 0:
            mon.check(not any(flips), "symmetry-zero", what)
        if bounds != "none":
            mon.check(bool(np.all(y >= lower - 1e-12) and np.all(y <= upper + 1e-12)), "symmetry-out-of-bounds", what)
        copy = func.copy()
        received.clear()
        copy(x)
        mon.check(np.array_equal(received[-1], y), "symmetry-lost-by-copy", what)
        mon.check(copy.descriptors["symmetry"] == s, "symmetry-descriptor", what)
    mon.check(len(seen) == 2**d, "symmetries-repeated", lambda: f"{len(seen)} different symmetries in dimension {d}")


def case_multi(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction
    from nevergrad.functions.base import MultiExperiment

    n = r.randint(1, 4)
    log: tp.List[tp.Any] = []

    def member(k: int) -> tp.Any:
        def target(x: tp.Any, c: tp.Any = None) -> float:
            log.append((k, x, c))
            return float(np.sum(np.asarray(x) ** (k + 1))) + k

        param = ng.p.Instrumentation(ng.p.Array(shape=(2,)), c=ng.p.Choice(["u", "v"])).set_name("m")
        return ExperimentFunction(target, param)

    members = [member(k) for k in range(n)]
    multi = MultiExperiment(members, upper_bounds=[100.0] * n)
    mon.event("multi")
    mon.seen("multi", n)
    mon.check(multi.parametrization is members[0].parametrization and multi.dimension == members[0].dimension, "multi-parametrization", "")
    for func in (multi, multi.copy()):
        for _ in range(3):
            c = multi.parametrization.sample()
            log.clear()
            out = func(*c.args, **c.kwargs)
            ref = [float(np.sum(c.args[0] ** (k + 1))) + k for k in range(n)]
            mon.check(isinstance(out, np.ndarray) and out.tolist() == ref, "multi-values", lambda: f"{out} instead of {ref}")
            mon.check([x[0] for x in log] == list(range(n)) and all(np.array_equal(x[1], c.args[0]) and x[2] == c.kwargs["c"] for x in log), "multi-calls", lambda: f"{log}")
    for wrong in ([], [members[0], members[0]], [multi, member(0)]):
        try:
            MultiExperiment(wrong, upper_bounds=[1.0, 1.0])
        except AssertionError:
            pass
        else:
            mon.violate("multi-accepts-anything", f"{len(wrong)} members")


def hypervolume(points: tp.List[tp.Tuple[float, float]], up: tp.Tuple[float, float]) -> float:
    total, height = 0.0, up[1]
    for a, b in sorted(p for p in points if p[0] < up[0] and p[1] < up[1]):
        if b < height:
            total, height = total + (up[0] - a) * (height - b), b
    return total


def case_pareto(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """evaluation of a front: the opposite of its hypervolume"""
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction
    from nevergrad.functions.base import MultiExperiment

    members = [ExperimentFunction(f, ng.p.Array(shape=(2,)).set_name("q")) for f in (lambda x: float(x[0]), lambda x: float(x[1]))]
    up = (float(r.randint(3, 8)), float(r.randint(3, 8)))
    multi = MultiExperiment(members, upper_bounds=list(up))
    front = []
    for _ in range(r.randint(1, 6)):
        c = multi.parametrization.spawn_child(new_value=np.array([float(r.randint(0, 9)), float(r.randint(0, 9))]))
        c._losses = multi(*c.args, **c.kwargs)
        front.append(c)
    got = float(multi.evaluation_function(*front))
    ref = hypervolume([tuple(c.value) for c in front], up)
    mon.event("hypervolume")
    mon.seen("hypervolume", up, len(front))
    mon.check(abs(got + ref) < 1e-9 if ref > 0 else got >= 0, "front-evaluation", lambda: f"{got} instead of {-ref} for {[c.value for c in front]} and bounds {up}")


def case_special(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction
    from nevergrad.functions.helpers import SpecialEvaluationExperiment

    log: tp.List[str] = []

    def make(name: str) -> tp.Any:
        def target(x: np.ndarray) -> float:
            log.append(name)
            return float(np.sum((x - {"train": 1.0, "test": 2.0}[name]) ** 2))

        return ExperimentFunction(target, ng.p.Array(shape=(2,)).set_name("sp"))

    special = SpecialEvaluationExperiment(make("train"), make("test"), pareto_size=r.choice([None, 2]))
    mon.event("special")
    mon.seen("special", case["seed"] % 20)
    for func in (special, special.copy()):
        c = func.parametrization.sample()
        log.clear()
        out = func(*c.args, **c.kwargs)
        mon.check(log == ["train"] and out == float(np.sum((c.value - 1.0) ** 2)), "special-call", lambda: f"{log}")
        log.clear()
        cs = [func.parametrization.sample() for _ in range(r.randint(1, 2))]
        out = func.evaluation_function(*cs)
        ref = min(float(np.sum((x.value - 2.0) ** 2)) for x in cs)
        mon.check(set(log) == {"test"} and out == ref, "special-evaluation", lambda: f"{log}: {out} instead of {ref}")
    # one experiment per left-out function and subset method
    funcs = [make(r.choice(["train", "test"])) for _ in range(3)]
    xps = SpecialEvaluationExperiment.create_crossvalidation_experiments(funcs, pareto_size=2, pareto_subset_methods=["random", "EPS"])
    mon.check(len(xps) == 6, "crossvalidation", f"{len(xps)} experiments")
    for k, xp in enumerate(xps):
        c = xp.parametrization.sample()
        out = xp(*c.args, **c.kwargs)
        ref = [float(f(*c.args)) for j, f in enumerate(funcs) if j != k % 3]
        mon.check(np.asarray(out).tolist() == ref, "crossvalidation-training", lambda: f"{out} instead of {ref}")
        mon.check(xp.evaluation_function(c) == float(funcs[k % 3](*c.args)), "crossvalidation-test", f"experiment {k}")


def case_equivalence(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.functions import ArtificialFunction, FarOptimumFunction

    base: tp.Dict[str, tp.Any] = dict(name="sphere", block_dimension=2, num_blocks=1, useless_variables=0, noise_level=0, rotation=False, translation_factor=1.0, aggregator="max", bounded=False)
    changes = dict(name="cigar", block_dimension=3, num_blocks=2, useless_variables=1, noise_level=1.0, rotation=True, translation_factor=0.5, aggregator="sum", bounded=True)
    one = ArtificialFunction(**base)
    mon.check(one.equivalent_to(ArtificialFunction(**base)), "not-equivalent:same-arguments", "")
    positional = ArtificialFunction("sphere", 2)
    mon.check(one.equivalent_to(positional) and positional.equivalent_to(one), "not-equivalent:defaults", "")
    keys = r.sample(sorted(changes), r.randint(1, 3))
    two = ArtificialFunction(**dict(base, **{k: changes[k] for k in keys}))
    mon.event("not-equivalent")
    mon.seen("equivalence", tuple(sorted(keys)))
    mon.check(not one.equivalent_to(two) and not two.equivalent_to(one), "equivalent:different-arguments", f"{keys}")
    for k in keys:
        mon.check(two.descriptors[k] == changes[k], "argument-not-described", f"{k}")
    mon.check(not one.equivalent_to(FarOptimumFunction()) and not FarOptimumFunction().equivalent_to(one), "equivalent:different-class", "")
    copies = list(itertools.islice((f.copy() for f in itertools.cycle([one, two])), 2))
    mon.check(not copies[0].equivalent_to(copies[1]), "equivalent:different-arguments", f"copies {keys}")
    desc = one.descriptors
    desc["name"] = "changed"
    mon.check(one.descriptors["name"] == "sphere", "descriptors-exposed", "")
    one.add_descriptors(extra=3)
    mon.check(not one.equivalent_to(positional), "equivalent:different-descriptors", "")
    mon.check(one.copy().descriptors.get("extra") == 3, "added-descriptor-lost", "")
