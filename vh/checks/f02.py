"""F02: artificial functions evaluated by the real code on random inputs, perturbations and orders of calls; metamorphic and reference oracles (own block decomposition, sensitivity of each coordinate, noise replayed from the random state)."""
import hashlib
import math
import types
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (core function, block dimension, blocks, useless variables, rotation, translation, split, noise model, aggregator)"
BUDGET_S = {"quick": 45, "thorough": 400}
MIN_EVALS = 30000
NEED_EVENTS = ("deterministic", "optimum", "useful", "useless", "blocks", "noise-free", "noisy", "split", "rotation", "seed", "hashing", "shift", "statistics", "interleaved", "pseudotime", "far")
ASSUMPTIONS = ["the core functions themselves are judged by their known optima and values only", "sensitivity is judged with several perturbations of each coordinate, on the functions which depend on all their coordinates"]

# reach this value at the translated optimum
OPTIMA: tp.Dict[str, tp.Tuple[float, float]] = {  # coordinate of the optimum, value
    "sphere": (0.0, 0.0), "cigar": (0.0, 0.0), "ellipsoid": (0.0, 0.0), "altellipsoid": (0.0, 0.0), "altcigar": (0.0, 0.0), "discus": (0.0, 0.0), "bentcigar": (0.0, 0.0),
    "rastrigin": (0.0, 0.0), "bucherastrigin": (0.0, 0.0), "griewank": (0.0, 0.0), "rosenbrock": (1.0, 0.0), "ackley": (0.0, 0.0), "schwefel_1_2": (0.0, 0.0),
    "stepellipsoid": (0.0, 0.0), "sphere1": (1.0, 0.0), "sphere2": (2.0, 0.0), "sphere4": (4.0, 0.0),
}  # fmt: skip
SENSITIVE = ["sphere", "cigar", "ellipsoid", "altellipsoid", "altcigar", "discus", "bentcigar", "rastrigin", "griewank", "schwefel_1_2", "ackley", "sphere1", "sphere2", "sphere4"]
MIN_DIM = {"rosenbrock": 2, "bentcigar": 2, "discus": 2, "bucherastrigin": 2, "deceptiveillcond": 2, "deceptivepath": 2, "deceptivemultimodal": 2}
NOISY = ("DelayedSphere", "st1", "st10", "st100")  # delayed or noisy by themselves


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 5400 if tier == "quick" else 70000
    kinds = ["values", "values", "sensitivity", "noise", "seeds", "blocks", "hashing", "statistics", "transform", "others"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["case_" + case["kind"]](case, mon, rng_of(case))


def draw(r: tp.Any, names: tp.Optional[tp.List[str]] = None, **forced: tp.Any) -> tp.Dict[str, tp.Any]:
    from nevergrad.functions import corefuncs

    name = r.choice(names or sorted(x for x in corefuncs.registry if x not in NOISY))
    bd = max(r.choice([1, 2, 3, 5]), MIN_DIM.get(name, 1))
    kw = dict(name=name, block_dimension=bd, num_blocks=r.choice([1, 1, 2, 4]), useless_variables=r.choice([0, 0, 1, 3]), rotation=r.random() < 0.4)
    kw.update(translation_factor=r.choice([1.0, 0.0, 0.1, 3.0, 2]), aggregator=r.choice(["max", "mean", "sum"]), split=False, bounded=r.random() < 0.3)
    kw.update(expo=r.choice([1.0, 1.0, 3.0]))
    if not kw["useless_variables"]:
        kw["split"] = r.random() < 0.4
    kw.update(forced)
    return kw


def make(kw: tp.Dict[str, tp.Any], seed: int) -> tp.Any:
    from nevergrad.functions import ArtificialFunction

    np.random.seed(seed)
    return ArtificialFunction(**kw)


def parts(kw: tp.Dict[str, tp.Any], x: np.ndarray) -> tp.List[np.ndarray]:
    """positional arguments"""
    return [np.array(y) for y in np.split(x, kw["num_blocks"])] if kw["split"] else [np.array(x)]


def exact(func: tp.Any, kw: tp.Dict[str, tp.Any], x: np.ndarray) -> float:
    """noise-free evaluation of a point through a recommendation"""
    args = parts(kw, x)
    value: tp.Any = (tuple(args), {}) if kw["split"] else args[0]
    # points may be out of the bounds of the parametrization, as the side points of the noise
    return float(func.evaluation_function(types.SimpleNamespace(args=tuple(args), kwargs={}, value=value)))


def point(r: tp.Any, kw: tp.Dict[str, tp.Any]) -> np.ndarray:
    scale = r.choice([0.1, 1.0, 1.0]) if not kw.get("bounded") else 0.8
    x = np.array([r.gauss(0, scale) for _ in range(kw["block_dimension"] * kw["num_blocks"] + kw["useless_variables"])])
    return np.clip(x, -4.5, 4.5)


def label(kw: tp.Dict[str, tp.Any]) -> tp.Tuple[tp.Any, ...]:
    return tuple(kw.get(k) for k in ("name", "block_dimension", "num_blocks", "useless_variables", "rotation", "translation_factor", "split", "noise_level", "aggregator"))


def same(a: float, b: float, tol: float = 0.0) -> bool:
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def case_values(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    kw = draw(r, noise_level=r.choice([0, 0, 1.0]), zero_pen=r.random() < 0.1)
    seed = r.randrange(2**31)
    func = make(kw, seed)
    what = f"{kw}"
    mon.seen(*label(kw))
    dim = kw["block_dimension"] * kw["num_blocks"] + kw["useless_variables"]
    mon.check(func.dimension == dim == func.parametrization.dimension, "dimension", what)
    points = [point(r, kw) for _ in range(4)]
    if kw["split"]:
        mon.event("split")
    if kw["rotation"]:
        mon.event("rotation")
    first = [exact(func, kw, x) for x in points]
    for _ in range(6):
        k = r.randrange(4)
        if r.random() < 0.4:
            func(*parts(kw, points[r.randrange(4)]))
            mon.event("interleaved")
        if r.random() < 0.3:
            func.parametrization.random_state.normal(size=3)
            np.random.normal(size=3)
        keep = points[k].copy()
        val = exact(func, kw, points[k])
        mon.event("deterministic")
        mon.check(same(val, first[k]), "not-deterministic", lambda: f"{what}: {val} then {first[k]}")
        mon.check(np.array_equal(keep, points[k]), "input-modified", what)
    for k, x in enumerate(points):
        if not kw["noise_level"]:
            args = parts(kw, x)
            val = float(func(*args))
            mon.event("noise-free")
            mon.check(same(val, first[k]), "call-differs-from-evaluation", lambda: f"{what}: call {val}, evaluation {first[k]}")
            mon.check(all(np.array_equal(a, b) for a, b in zip(args, parts(kw, x))), "input-modified", what)
            mon.check(same(float(func.function(*args)), val), "function-differs-from-call", what)
    # the optimum of each block
    if kw["name"] in OPTIMA and not kw["zero_pen"]:
        where, val = OPTIMA[kw["name"]]
        blocks = [np.full(kw["block_dimension"], where)] * kw["num_blocks"]
        x = preimage(func, kw, blocks)
        mon.event("optimum")
        got = exact(func, kw, x)
        mon.check(abs(got - val) < 1e-5, "optimum-not-reached", lambda: f"{what}: {got} instead of {val} at {x}")
        for y in points:
            mon.check(exact(func, kw, y) >= val - 1e-9, "below-the-optimum", what)


def transforms_of(func: tp.Any, kw: tp.Dict[str, tp.Any]) -> tp.Tuple[np.ndarray, np.ndarray]:
    """affine map from inputs to concatenated blocks, observed through the transformed inputs"""
    dim = kw["block_dimension"] * kw["num_blocks"] + kw["useless_variables"]
    zero = np.concatenate(list(func.transform_var.process(np.zeros(dim))))
    cols = [np.concatenate(list(func.transform_var.process(np.eye(dim)[k]))) - zero for k in range(dim)]
    return np.array(cols).T, zero


def preimage(func: tp.Any, kw: tp.Dict[str, tp.Any], blocks: tp.List[np.ndarray]) -> np.ndarray:
    mat, zero = transforms_of(func, kw)
    return np.linalg.lstsq(mat, np.concatenate(blocks) - zero, rcond=None)[0]


def case_transform(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """structure of the map: affine, each useful variable once, rotations preserve distances, translations scale"""
    kw = draw(r, ["sphere", "cigar", "hm", "linear"])
    func = make(kw, r.randrange(2**31))
    mat, zero = transforms_of(func, kw)
    what = str(kw)
    bd, nb, dim = kw["block_dimension"], kw["num_blocks"], mat.shape[1]
    mon.seen("transform", *label(kw))
    mon.event("shift")
    used = np.abs(mat) > 1e-12
    groups = []
    for b in range(nb):
        block = mat[b * bd : (b + 1) * bd]
        groups.append([k for k in range(dim) if used[b * bd : (b + 1) * bd, k].any()])
        mon.check(len(groups[-1]) == bd, "block-size", lambda: f"{what}: block {b} uses {groups[-1]}")
        mon.check(np.allclose(block @ block.T, np.eye(bd), atol=1e-9), "not-a-rotation", what)
        if not kw["rotation"]:
            mon.check(len(groups[-1]) == bd and np.allclose(block, np.eye(dim)[groups[-1]]), "rotated-without-rotation", what)
        elif bd >= 2:
            mon.event("rotation")
            mon.check(not np.allclose(np.abs(block) @ np.ones(dim), 1.0), "rotation-missing", what)
    flat = [k for g in groups for k in g]
    mon.check(len(set(flat)) == len(flat) == bd * nb, "blocks-overlap", lambda: f"{what}: {groups}")
    mon.check(flat == sorted(flat), "blocks-unsorted", lambda: f"{what}: {groups}")
    if kw["translation_factor"] == 0:
        mon.check(np.array_equal(zero, np.zeros_like(zero)), "translated-without-translation", lambda: f"{what}: {zero}")
    else:
        mon.check(len(set(np.abs(zero).tolist())) == len(zero), "translation-missing", lambda: f"{what}: {zero}")
    for _ in range(5):
        x = point(r, kw)
        out = np.concatenate(list(func.transform_var.process(x)))
        mon.check(np.allclose(out, mat @ x + zero, atol=1e-9), "not-affine", what)


def case_sensitivity(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    kw = draw(r, SENSITIVE, aggregator=r.choice(["sum", "mean"]))
    func = make(kw, r.randrange(2**31))
    dim = kw["block_dimension"] * kw["num_blocks"] + kw["useless_variables"]
    mon.seen("sensitivity", *label(kw))
    useless = []
    for k in range(dim):
        moved = 0
        for _ in range(4):
            x = point(r, kw)
            y = x.copy()
            y[k] += r.choice([0.31, -0.57, 1.13])
            moved += exact(func, kw, x) != exact(func, kw, y)
            if moved:
                break
        if not moved:
            useless.append(k)
    mon.event("useful", dim - len(useless))
    mon.event("useless", len(useless))
    mon.check(len(useless) == kw["useless_variables"], "useless-variables", lambda: f"{kw}: {useless} have no effect")
    desc = func.descriptors
    mon.check(desc["useful_dimensions"] == kw["block_dimension"] * kw["num_blocks"] and desc["dimension"] == dim, "descriptors", lambda: f"{kw}: {desc}")


def case_blocks(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """the aggregate of the core function on each transformed block"""
    from nevergrad.functions import corefuncs

    kw = draw(r)
    func = make(kw, r.randrange(2**31))
    core = corefuncs.registry[kw["name"]]
    agg = {"max": max, "sum": math.fsum, "mean": lambda v: math.fsum(v) / len(v)}[kw["aggregator"]]
    mon.seen("blocks", *label(kw))
    plain = bool(corefuncs.registry.get_info(kw["name"]).get("no_transform", False))
    for _ in range(4):
        x = point(r, kw)
        if plain:
            x = np.abs(x)
        blocks = list(func.transform_var.process(x))
        mon.check(len(blocks) == kw["num_blocks"] and all(len(b) == kw["block_dimension"] for b in blocks), "block-size", str(kw))
        if plain:
            mon.check(all(v in x for b in blocks for v in b), "transform-of-untransformed", str(kw))
        values = [float(core(np.array(b))) for b in blocks]
        got, ref = exact(func, kw, x), agg(values)
        mon.event("blocks")
        if all(math.isfinite(v) for v in values):
            mon.check(same(got, ref, 1e-12), "aggregate", lambda: f"{kw}: {got} instead of {ref} from {values}")
    # a block only acts through its own value: with a sum, differences add up
    if kw["aggregator"] == "sum" and kw["num_blocks"] > 1 and not plain:
        x, y = point(r, kw), point(r, kw)
        bx, by = list(func.transform_var.process(x)), list(func.transform_var.process(y))
        b = r.randrange(kw["num_blocks"])
        mixed = preimage(func, kw, [by[k] if k == b else bx[k] for k in range(len(bx))]) if kw["name"] in OPTIMA and kw["name"] != "stepellipsoid" else None
        if mixed is not None:
            vx, vm = exact(func, kw, x), exact(func, kw, mixed)
            ref = float(core(np.array(by[b]))) - float(core(np.array(bx[b])))
            mon.check(abs(vm - vx - ref) <= 1e-6 * max(1.0, abs(vx), abs(vm)), "blocks-not-additive", lambda: f"{kw}: {vm - vx} instead of {ref}")


def case_noise(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """one draw of the noise replayed from a copy of the random state"""
    dissym = r.random() < 0.4
    kw = draw(r, noise_level=r.choice([0.1, 1.0, 10]), noise_dissymmetry=dissym)
    func = make(kw, r.randrange(2**31))
    mon.seen("noise", dissym, *label(kw))
    exact(func, kw, point(r, kw))
    seen = set()
    for _ in range(5):
        x = point(r, kw)
        fx = exact(func, kw, x)
        if not math.isfinite(fx):
            continue
        rng = np.random.RandomState(0)
        rng.set_state(func.parametrization.random_state.get_state())
        other = np.random.get_state()[1].tobytes()
        val = float(func(*parts(kw, x)))
        mon.check(np.random.get_state()[1].tobytes() == other, "noise-uses-global-state", str(kw))
        first = float(np.ravel(func.transform_var.process(x))[0])
        side = exact(func, kw, x + rng.normal(0, 1, size=len(x)))  # may exceed the bounds as the function itself does
        level = kw["noise_level"] * ((1.0 + 100.0 * first) if dissym else 1.0)
        expected = fx if dissym and first > 0 else fx + level * rng.normal(0, 1) * (side - fx)
        mon.event("noisy")
        if math.isfinite(expected) and not (kw["bounded"] or kw["name"] == "stepellipsoid"):
            mon.check(same(val, expected, 1e-9), "noise-model", lambda: f"{kw}: {val} instead of {expected}, exact value {fx}")
        if not dissym:
            seen.add(val == fx)
        mon.check(same(exact(func, kw, x), fx), "noise-leaks-into-evaluation", str(kw))
    mon.check(func.parametrization.function.deterministic is False, "noise-not-declared", str(kw))
    if kw["name"] in SENSITIVE and not dissym:
        mon.check(False in seen or not seen, "noise-missing", str(kw))
    quiet = dict(kw, noise_level=0, noise_dissymmetry=False)
    mon.check(make(quiet, 3).parametrization.function.deterministic is True, "deterministic-not-declared", str(quiet))


def case_statistics(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """centered on the exact value: noise signs are balanced"""
    kw = draw(r, ["sphere", "cigar", "rastrigin"], noise_level=1.0, bounded=False)
    func = make(kw, r.randrange(2**31))
    x = point(r, kw)
    fx = exact(func, kw, x)
    n = 400
    above = sum(float(func(*parts(kw, x))) > fx for _ in range(n))
    mon.event("statistics")
    mon.seen("statistics", kw["name"], kw["split"])
    mon.check(abs(above - n / 2) < 6.5 * math.sqrt(n / 4), "noise-not-centered", lambda: f"{kw}: {above} of {n} above the exact value")


def case_seeds(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    kw = draw(r, noise_level=r.choice([0, 1.0]), translation_factor=1.0)
    seed = r.randrange(2**31)
    points = [point(r, kw) for _ in range(3)]
    one = make(kw, seed)
    a = [exact(one, kw, x) for x in points] + [float(one(*parts(kw, x))) for x in points]
    np.random.seed(r.randrange(2**31))
    np.random.normal(size=r.randint(0, 9))
    two = make(kw, seed)
    np.random.seed(r.randrange(2**31))
    b = [exact(two, kw, x) for x in points] + [float(two(*parts(kw, x))) for x in points]
    mon.event("seed")
    mon.seen("seed", *label(kw))
    mon.check(all(same(u, v) for u, v in zip(a, b)), "seed-not-reproducible", lambda: f"{kw}: {a} then {b}")
    copy = one.copy()
    mon.check([exact(one, kw, x) for x in points][:1] == a[:1] or math.isnan(a[0]), "copy-changes-original", str(kw))
    if kw["name"] in SENSITIVE:
        three = make(kw, seed ^ 5)
        mon.check([exact(three, kw, x) for x in points] != a[:3], "seed-ignored", str(kw))
        mon.check([exact(copy, kw, x) for x in points] != a[:3], "copy-not-renewed", str(kw))
    # the seed of the parametrization
    vals = []
    for _ in range(2):
        func = make(kw, r.randrange(2**31))
        func.parametrization.random_state.seed(seed % 1000)
        vals.append([exact(func, kw, x) for x in points])
    mon.check(all(same(u, v) for u, v in zip(*vals)), "parametrization-seed", lambda: f"{kw}: {vals}")


def case_hashing(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    name = r.choice(["sphere", "cigar", "rastrigin"])
    kw = dict(name=name, block_dimension=1, hashing=True, rotation=False, translation_factor=r.choice([1.0, 0.0]), split=False, num_blocks=1, useless_variables=0)
    func = make(kw, r.randrange(2**31))
    pts = [np.array([r.gauss(0, 1)]) for _ in range(4)]
    a = [exact(func, kw, x) for x in pts]
    r2 = list(range(4))
    r.shuffle(r2)
    mon.event("hashing")
    mon.seen("hashing", name, kw["translation_factor"])
    for k in r2:
        mon.check(exact(func, kw, pts[k]) == a[k], "hashing-not-deterministic", str(kw))
        mon.check(float(func(pts[k])) == a[k], "hashing-call", str(kw))
    if kw["translation_factor"] == 0 and name == "sphere":
        for x, v in zip(pts, a):
            ref = np.random.RandomState(int(hashlib.md5(str(x[0]).encode()).hexdigest(), 16) % 500000).normal(0.0, 1.0) ** 2
            mon.check(abs(v - ref) < 1e-9, "hashing-value", lambda: f"{v} instead of {ref} at {x}")
    mon.check(len(set(a)) == 4, "hashing-collision", lambda: f"{a}")


def case_others(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.functions import FarOptimumFunction

    kw = draw(r, ["DelayedSphere", "sphere"], noise_level=0)
    func = make(kw, r.randrange(2**31))
    x = point(r, kw)
    blocks = list(func.transform_var.process(x))
    val = func.compute_pseudotime((tuple(parts(kw, x)), {}), exact(func, kw, x))
    ref = math.fsum(abs(1.0 / b[0]) / 1000.0 for b in blocks) if kw["name"] == "DelayedSphere" else 1.0
    mon.event("pseudotime")
    mon.seen("pseudotime", *label(kw))
    mon.check(same(float(val), ref, 1e-12), "pseudotime", lambda: f"{kw}: {val} instead of {ref}")
    optimum = r.choice([(80, 100), (0.8, 1), (0.8, 100), (-3, 4)])
    multi = r.random() < 0.5
    far = FarOptimumFunction(independent_sigma=r.random() < 0.5, mutable_sigma=r.random() < 0.5, multiobjective=multi, recombination=r.choice(["crossover", "average"]), optimum=optimum)
    mon.event("far")
    mon.seen("far", optimum, multi)
    pts = [np.array([r.gauss(0, 50), r.gauss(0, 50)]) for _ in range(3)]
    for y in pts + [np.array(optimum, dtype=float)]:
        gap = np.abs(y - np.array(optimum))
        out = far(y)
        mon.check(np.array_equal(np.asarray(out), gap) if multi else float(out) == float(np.sum(gap)), "far-value", lambda: f"{optimum}: {out} at {y}")
    recs = [far.parametrization.spawn_child(new_value=y) for y in pts[: r.randint(1, 3) if multi else 1]]
    best = min(float(np.sum(np.abs(c.value - np.array(optimum)))) for c in recs)
    mon.check(same(float(far.evaluation_function(*recs)), best, 1e-12), "far-evaluation", lambda: f"{optimum}")
