"""S02: paired executions of one-shot optimizers under different tells, plus geometric oracles over the asked designs and recommendations."""
import math
import random
import typing as tp
import warnings
import numpy as np
from .. import opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (optimizer or configuration, search space, kind of observation, budget class, tell pattern)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 8000
NEED_EVENTS = ("paired-ask", "hostile-tell", "missing-tell", "recommend-between", "design-point", "opposition-pair", "middle-point", "recommendation", "average", "lhs", "hammersley", "rescaled")
ASSUMPTIONS = [
    "StupidRandom documents a random recommendation: only its asks are compared, and no recommendation is requested in between",
    "averages documented for the recommendation are recomputed without repeated points",
]

RANDOM_OPTIONS: tp.Dict[str, tp.List[tp.Any]] = dict(
    middle_point=[False, True],
    opposition_mode=[None, "quasi", "opposite", "special"],
    sampler=["parametrization", "gaussian", "cauchy"],
    scale=[1.0, 0.3, 5.0, "auto", "autotune", "random"],
    recommendation_rule=["pessimistic", "average_of_best", "average_of_exp_best", "average_of_hull_best"],
)
SAMPLING_OPTIONS: tp.Dict[str, tp.List[tp.Any]] = dict(
    sampler=["Halton", "Hammersley", "LHS", "Random"],
    scrambled=[False, True],
    middle_point=[False, True],
    opposition_mode=[None, None, "quasi", "opposite", "special"],
    cauchy=[False, True],
    autorescale=[False, True, "auto", "autotune"],
    scale=[1.0, 0.3, 20.0],
    rescaled=[False, False, True],
    recommendation_rule=["pessimistic", "average_of_best"],
)


def one_shot_names() -> tp.List[str]:
    import nevergrad as ng

    return sorted(n for n in ng.optimizers.registry if ng.optimizers.registry[n].one_shot)


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    r = random.Random(seed)
    full = tier != "quick"
    names = one_shot_names()
    out: tp.List[tp.Dict[str, tp.Any]] = []
    k = 0

    def add(**kwargs: tp.Any) -> None:
        nonlocal k
        k += 1
        out.append(dict(seed=seed * 1000000 + k, **kwargs))

    keys = sorted(opts.SPACES)
    for i, name in enumerate(names):
        for space in keys if full else r.sample(keys, 3):
            add(kind="pairs", opt=name, space=space)
    for _ in range(1200 if full else 150):
        add(kind="pairs", opt=r.choice(["RandomSearchMaker", "SamplingSearch"]), space=r.choice(keys))
    for _ in range(3000 if full else 900):
        add(kind="design", opt="SamplingSearch")
    for _ in range(1000 if full else 400):
        add(kind="opposition", opt=r.choice(["RandomSearchMaker", "SamplingSearch"]))
    for _ in range(1500 if full else 500):
        add(kind="recommend", opt=r.choice(["RandomSearchMaker", "SamplingSearch"] + names))
    return out


def config(r: random.Random, opt: str) -> tp.Dict[str, tp.Any]:
    options = RANDOM_OPTIONS if opt == "RandomSearchMaker" else SAMPLING_OPTIONS
    kwargs = {key: r.choice(values) for key, values in options.items() if r.random() < 0.7}
    if kwargs.get("sampler", "Halton") in ("LHS", "Random"):
        kwargs.pop("scrambled", None)
    return kwargs


def make(opt: str, kwargs: tp.Dict[str, tp.Any], param: tp.Any, budget: int, seed: int) -> tp.Any:
    import nevergrad as ng

    np.random.seed(seed % 2**31)
    if opt in ("RandomSearchMaker", "SamplingSearch"):
        factory = getattr(ng.families if hasattr(ng, "families") else ng.optimizers, opt)(**kwargs)
    else:
        factory = ng.optimizers.registry[opt]
    param.random_state.seed(seed % 2**31)
    return factory(param, budget=budget)


HOSTILE = [float("nan"), float("inf"), -float("inf"), 1e300, -1e300, 0.0, -0.0, 5e-324]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    r = rng_of(case)
    {"pairs": pairs, "design": design, "opposition": opposition, "recommend": recommend}[case["kind"]](case, mon, r)


def pairs(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    name = case["opt"]
    kwargs = config(r, name) if name in ("RandomSearchMaker", "SamplingSearch") else {}
    budget = r.choice([1, 2, 3, 5, 8, 13, 20, 33])
    what = f"{name}({kwargs}) on {case['space']}, budget {budget}"
    spec = opts.SPACES[case["space"]]
    stupid = name == "StupidRandom"

    def fresh() -> tp.Any:
        return make(name, kwargs, spaces.build(spec), budget, case["seed"])

    opt = fresh()
    reference = opt.parametrization.copy()
    expected = []
    for _ in range(budget):
        c = opt.ask()
        expected.append((spaces.freeze(c.value), c.get_standardized_data(reference=reference).copy()))
    for style in ("losses", "missing", "multi", "late"):
        opt = fresh()
        pending: tp.List[tp.Any] = []
        told = 0
        for k in range(budget):
            c = opt.ask()
            got = (spaces.freeze(c.value), c.get_standardized_data(reference=reference).copy())
            mon.event("paired-ask")
            same = got[0] == expected[k][0] and np.array_equal(got[1], expected[k][1], equal_nan=True)
            if not mon.check(
                same, "asks-depend-on-tells", lambda: f"{what}: ask {k} is {c.value} ({style}: {told} told losses), {expected[k]} without any tell"
            ):
                return
            pending.append(c)
            if style == "late":
                continue
            while pending and r.random() < 0.6:
                c = pending.pop(r.randrange(len(pending)))
                if style == "missing" and r.random() < 0.5:
                    mon.event("missing-tell")
                    continue
                loss: tp.Any = r.gauss(0, 10)
                if r.random() < 0.3:
                    mon.event("hostile-tell")
                    loss = r.choice(HOSTILE)
                if style == "multi":
                    loss = [r.gauss(0, 1), r.gauss(0, 3)]
                opt.tell(c, loss)
                told += 1
            if not stupid and told and r.random() < 0.3:
                mon.event("recommend-between")
                opt.provide_recommendation() if style != "multi" else opt.pareto_front()
        mon.seen(name, case["space"], style, min(budget, 8))


def leaf(r: random.Random) -> tp.Tuple[tp.Any, tp.Callable[[tp.Any, tp.Callable[[np.ndarray], np.ndarray]], np.ndarray]]:
    """a parameter of the search space and the documented mapping of its values to the unit cube"""
    import nevergrad as ng

    kind = r.choice(["free", "free", "bounded", "log", "scalar"])
    if kind == "free":
        shape = r.choice([(1,), (2,), (3,), (2, 2)])
        init = np.array([r.uniform(-3, 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
        sigma = r.choice([1.0, 0.5, 4.0])
        return ng.p.Array(init=init).set_mutation(sigma=sigma), lambda v, cdf: cdf((np.asarray(v) - init).ravel() / sigma)
    if kind == "scalar":
        init = r.uniform(-3, 3)
        return ng.p.Scalar(init=init), lambda v, cdf: cdf(np.array([v - init]))
    if kind == "log":
        lo = 10 ** r.uniform(-4, 1)
        hi = lo * 10 ** r.uniform(1, 5)
        return ng.p.Log(lower=lo, upper=hi), lambda v, cdf: np.array([math.log(v / lo) / math.log(hi / lo)])
    shape = r.choice([(1,), (2,), (3,)])
    low = r.uniform(-5, 5)
    high = low + r.uniform(1, 10)
    param = ng.p.Array(init=np.full(shape, low + (high - low) * r.choice([0.5, 0.3]))).set_bounds(low, high, method=r.choice(["bouncing", "clipping", "arctan", "tanh", "gaussian"]))
    return param, lambda v, cdf: (np.asarray(v).ravel() - low) / (high - low)


def scale_of(kwargs: tp.Dict[str, tp.Any], budget: int, dim: int) -> float:
    auto = kwargs.get("autorescale", False)
    if auto is True or auto == "auto":
        return (1 + math.log(budget)) / (4 * math.log(max(2, dim)))
    if auto == "autotune":
        return math.sqrt(math.log(budget) / dim)
    return kwargs.get("scale", 1.0)


def design(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    import nevergrad as ng
    from scipy import stats
    from .s01 import radical, primes

    kwargs = config(r, "SamplingSearch")
    kwargs.pop("opposition_mode", None)
    budget = r.choice([2, 3, 5, 8, 16, 30, 50])
    leaves = {f"k{i}": leaf(r) for i in range(r.randint(1, 4))}
    param = ng.p.Dict(**{key: val[0] for key, val in leaves.items()})
    what = f"SamplingSearch({kwargs}) on {param.name}, budget {budget}"
    opt = make("SamplingSearch", kwargs, param, budget, case["seed"])
    dim = opt.dimension
    scale = scale_of(kwargs, budget, dim)
    law = stats.cauchy if kwargs.get("cauchy") else stats.norm
    initial = param.value
    rows = []
    first = None
    for k in range(budget):
        c = opt.ask()
        if r.random() < 0.5:
            opt.tell(c, r.gauss(0, 1))
        if not k and kwargs.get("middle_point"):
            mon.event("middle-point")
            mon.check(spaces.same(c.value, initial, 1e-9, 1e-9), "middle-point", lambda: f"{what}: first point {c.value}, center {initial}")
            continue
        first = c.value if first is None else first
        rows.append(np.concatenate([leaves[key][1](c.value[key], lambda z: law.cdf(z / scale)) for key in sorted(leaves)]))
        mon.event("design-point")
    if not rows:
        return
    u = np.array(rows)
    n = len(u)
    mon.seen("design", kwargs.get("sampler"), kwargs.get("scrambled"), kwargs.get("rescaled"), kwargs.get("middle_point"), kwargs.get("cauchy"), kwargs.get("autorescale"), n, dim)
    if not mon.check(bool(np.all(np.isfinite(u)) and np.all(u >= -1e-9) and np.all(u <= 1 + 1e-9)), "design-outside-cube", lambda: f"{what}: {u}"):
        return
    sampler = kwargs.get("sampler", "Halton")
    tol = 1e-5
    if kwargs.get("rescaled"):
        mon.event("rescaled")
        if n > 1:
            varying = u.max(axis=0) > u.min(axis=0)
            mon.check(
                bool(np.allclose(u.min(axis=0)[varying], 0, atol=tol) and np.allclose(u.max(axis=0)[varying], 1, atol=tol) and varying.all()),
                "rescaled-not-reaching-borders",
                lambda: f"{what}: coordinates span {u.min(axis=0)} to {u.max(axis=0)}",
            )
        return
    if sampler == "LHS":
        mon.event("lhs")
        for j in range(dim):
            x = np.sort(u[:, j]) * n
            mon.check(bool(np.all(x >= np.arange(n) - tol * n) and np.all(x <= np.arange(n) + 1 + tol * n)), "design-not-stratified", lambda: f"{what}: coordinate {j}: {x}")
    if sampler == "Hammersley":
        mon.event("hammersley")
        mon.check(bool(np.allclose(u[:, 0], (np.arange(n) + 0.5) / n, atol=tol)), "design-hammersley", lambda: f"{what}: first coordinate {u[:, 0]}")
        u = u[:, 1:]
    if sampler in ("Hammersley", "Halton"):
        for j, p in enumerate(primes(u.shape[1])):
            if kwargs.get("scrambled"):
                head = [int(round(x * p)) for x in u[: p - 1, j]]
                perm: tp.Optional[tp.List[int]] = [0] + head
                if not mon.check(len(set([0] + head)) == len(head) + 1 and max([0] + head) < p, "design-not-scrambled", lambda: f"{what}: digits {head} in base {p}"):
                    continue
                if n < p - 1:
                    continue
            else:
                perm = None
            expected = np.array([radical(i + 1, p, perm) for i in range(n)])
            mon.check(bool(np.allclose(u[:, j], expected, atol=tol)), "design-not-van-der-corput", lambda: f"{what}: coordinate {j} is {u[:8, j]}, expected {expected[:8]}")


def opposition(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    import nevergrad as ng

    kwargs = config(r, case["opt"])
    mode = kwargs["opposition_mode"] = r.choice(["quasi", "opposite", "special"])
    kwargs.pop("autorescale", None) if r.random() < 0.5 else None
    dim = r.randint(1, 6)
    init = np.array([r.uniform(-3, 3) for _ in range(dim)])
    sigma = r.choice([1.0, 0.5, 4.0])
    param = ng.p.Array(init=init).set_mutation(sigma=sigma)
    budget = r.choice([2, 3, 4, 7, 12, 25])
    what = f"{case['opt']}({kwargs}), dimension {dim}, budget {budget}"
    opt = make(case["opt"], kwargs, param, budget, case["seed"])
    cands = []
    for _ in range(budget):
        c = opt.ask()
        cands.append(c)
        if r.random() < 0.5:
            opt.tell(cands[r.randrange(len(cands))], r.gauss(0, 1))
    xs = [(np.asarray(c.value) - init) / sigma for c in cands]
    start = 0
    if kwargs.get("middle_point"):
        mon.event("middle-point")
        mon.check(np.allclose(xs[0], 0), "middle-point", lambda: f"{what}: first point at {xs[0]} from the center")
        start = 1 if case["opt"] == "SamplingSearch" else 0
    for k in range(start, budget - 1, 2):
        x, y = xs[k], xs[k + 1]
        mon.event("opposition-pair")
        norm = float(np.linalg.norm(x))
        if norm < 1e-12 or not np.isfinite(norm):
            continue
        u = -float(x @ y) / norm / norm
        aligned = bool(np.allclose(y, -u * x, rtol=1e-7, atol=1e-9 * max(1.0, norm)))
        inside = -1e-9 <= u <= 1 + 1e-9 and (mode != "opposite" or abs(u - 1) < 1e-9) and (mode != "special" or u >= math.exp(-5) - 1e-9)
        mon.check(aligned and inside, f"opposition:{mode}", lambda: f"{what}: points {k} and {k + 1} are {x} and {y} from the center (ratio {-u})")
    ratios = [float(np.linalg.norm(xs[k + 1]) / np.linalg.norm(xs[k])) for k in range(start, budget - 1, 2) if np.linalg.norm(xs[k]) > 0]
    if mode != "opposite" and len(ratios) > 2:
        mon.check(len(set(np.round(ratios, 9))) > 1, f"opposition-constant:{mode}", lambda: f"{what}: constant ratio {ratios}")
    mon.seen("opposition", case["opt"], mode, kwargs.get("sampler"), kwargs.get("middle_point"), dim, budget)


def recommend(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    import nevergrad as ng

    name = case["opt"]
    if name in ("StupidRandom", "Zero"):
        return
    kwargs = config(r, name) if name in ("RandomSearchMaker", "SamplingSearch") else {}
    dim = r.choice([1, 2, 2, 3, 4])
    budget = r.choice([1, 2, 3, 4, 7, 12, 25, 60])
    rule = kwargs.get("recommendation_rule", "pessimistic")
    init = np.array([r.uniform(-3, 3) for _ in range(dim)])
    what = f"{name}({kwargs}), dimension {dim}, budget {budget}"
    opt = make(name, kwargs, ng.p.Array(init=init), budget, case["seed"])
    target = np.array([r.uniform(-2, 2) for _ in range(dim)])
    told: tp.List[tp.Tuple[float, np.ndarray]] = []
    pending = []
    for k in range(budget):
        pending.append(opt.ask())
        while pending and (r.random() < 0.6 or k == budget - 1):
            c = pending.pop(r.randrange(len(pending)))
            value = np.asarray(c.value)
            if any(np.array_equal(value, v) for _, v in told) or r.random() < 0.1:
                continue
            loss = float(np.sum((value - target) ** 2)) * (1 + 0.01 * r.random())
            opt.tell(c, loss)
            told.append((loss, value))
    if not told or len({t[0] for t in told}) < len(told):
        return
    told.sort(key=lambda t: t[0])
    n = len(told)
    if rule == "pessimistic" and kwargs == {} and any(x in name for x in ("Avg", "Hull", "TE")):
        rule = "any"
    quarter = min(n // 4, dim)
    power = int(n // 1.1**dim)
    own = name == "RandomSearchMaker"
    ks: tp.Iterable[int]
    if rule == "pessimistic":
        ks = [1]
    elif rule == "average_of_best":
        ks = [max(1, quarter)]
    elif rule == "average_of_exp_best":
        ks = [max(1, power)]
    elif rule == "average_of_hull_best":
        ks = range(1, max(1, min(quarter, power)) + 1)
    else:
        ks = range(1, max(1, quarter, power) + 1)
    rec = np.asarray(opt.provide_recommendation().value)
    means = [np.mean([v for _, v in told[:k]], axis=0) for k in ks]
    mon.event("recommendation")
    if max(ks) > 1:
        mon.event("average")
    mon.check(
        any(np.allclose(rec, m, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(told[0][1])))) for m in means),
        f"recommendation:{rule}",
        lambda: f"{what}: recommends {rec} after {n} tells, best {told[:5]} ({'own' if own else 'sampling'}, k in {list(ks)})",
    )
    mon.seen("recommend", name, rule, dim, n)
