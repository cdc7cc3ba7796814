"""V01: mutation and crossover operators are applied to traceable vectors; every output coordinate is attributed to its source, the number of changed coordinates is compared to the requested rate, and inputs and global random states are watched."""
import math
import random
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (operator, dimension, arity or rate, pattern of the selected coordinates)"
BUDGET_S = {"quick": 45, "thorough": 400}
MIN_EVALS = 50000
MUTATIONS = ("discrete", "doerr", "doubledoerr", "rls", "portfolio", "coordinatewise")
CROSSOVERS = ("variablewise", "onepoint", "twopoints", "rotated_twopoints", "voronoi", "random", "mutator", "roulette")
NEED_EVENTS = MUTATIONS + CROSSOVERS + ("rate", "reproducible")
ASSUMPTIONS = [
    "vectors are in the standardized space, and discretized by the quantiles of the normal distribution",
    "vectors of one coordinate are redrawn as a whole by the one-variable mutations (documented corner case)",
    "rates are judged with a tolerance of six standard deviations",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    kinds = MUTATIONS + CROSSOVERS
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(980 if tier == "quick" else 20000)]


def bins(x: tp.Any, arity: int) -> np.ndarray:
    """quantile of the normal distribution"""
    x = np.asarray(x, dtype=float)
    if arity == 2:
        return (x > 0).astype(int)
    cdf = np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in x.ravel()])
    return np.clip(np.floor(arity * cdf), 0, arity - 1).astype(int)


def near_edge(x: tp.Any, arity: int) -> np.ndarray:
    cdf = arity * np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in np.asarray(x, dtype=float).ravel()])
    return np.abs(cdf - np.round(cdf)) < 1e-6


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    if case["kind"] in MUTATIONS:
        run_mutation(case, mon)
    elif case["kind"] == "mutator":
        run_mutator_crossover(case, mon)
    elif case["kind"] == "roulette":
        run_roulette(case, mon)
    else:
        run_crossover(case, mon)


def global_state() -> tp.Any:
    return str(np.random.get_state()), random.getstate()


def run_mutation(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    from nevergrad.optimization import mutations

    r = rng_of(case)
    kind = case["kind"]
    dim = r.choice([1, 2, 3, 4, 5, 8, 20])
    arity = r.choice([2, 2, 3, 5, 11, 50, 499, 500, 1000])
    seed = r.randrange(2**32)
    mut = mutations.Mutator(np.random.RandomState(seed))
    twin = mutations.Mutator(np.random.RandomState(seed))
    intensity = r.randint(1, dim) if r.random() < 0.7 else None
    ratio = r.choice([0.5, 1.0, 0.2])
    velocity = np.array([float(r.choice([1.0, r.uniform(0.6, max(0.7, arity / 2)), 0.1])) for _ in range(dim)])
    what = f"{kind} dim={dim} arity={arity}" + (f" intensity={intensity}" if kind == "portfolio" else "")

    def apply(m: tp.Any, parent: tp.Any) -> tp.Any:
        if kind == "discrete":
            return m.discrete_mutation(parent, arity=arity)
        if kind == "doerr":
            return m.doerr_discrete_mutation(parent, arity=arity)
        if kind == "doubledoerr":
            return m.doubledoerr_discrete_mutation(parent, max_ratio=ratio, arity=arity)
        if kind == "rls":
            return m.rls_mutation(parent, arity=arity)
        if kind == "portfolio":
            return m.portfolio_discrete_mutation(parent, intensity=intensity, arity=arity)
        return m.coordinatewise_mutation(parent, velocity, np.ones(dim, dtype=bool), arity=arity)

    counts = []
    total = 60
    moves = 0
    for _ in range(total):
        parent = np.array([r.gauss(0, 1.2) for _ in range(dim)])
        given: tp.Any = parent.copy() if r.random() < 0.8 or kind == "coordinatewise" else parent.tolist()
        before = global_state()
        out = np.array(apply(mut, given), dtype=float)
        mon.event(kind)
        mon.check(global_state() == before, "global-random", lambda: f"{what}: the global random states changed")
        mon.check(np.array_equal(np.asarray(given), parent), "parent-modified", lambda: f"{what}: {parent} became {given}")
        mon.check(out.shape == (dim,), "shape", lambda: f"{what}: {out}")
        if kind == "coordinatewise":
            if out.shape == (dim,):
                moves += coordinatewise(mon, what, parent, out, arity, velocity)
        else:
            changed = out != parent
            counts.append(int(changed.sum()))
            mon.check(bool(np.isfinite(out).all()), "not-finite", lambda: f"{what}: {out}")
            mon.check(bool(changed.any()), "nothing-changed", lambda: f"{what}: {parent} is kept")
            if arity <= 499 and (dim > 1 or kind == "discrete"):
                edge = near_edge(out, arity) | near_edge(parent, arity)
                stuck = changed & (bins(out, arity) == bins(parent, arity)) & ~edge
                mon.check(not stuck.any(), "not-significant", lambda: f"{what}: {parent} became {out}, with the same quantiles {bins(out, arity)}")
            if kind == "rls":
                mon.check(changed.sum() == 1, "count", lambda: f"{what}: {changed.sum()} changes")
            mon.seen(kind, dim, arity, tuple(changed.astype(int)))
        again = np.array(apply(twin, parent.copy()), dtype=float)
        # the global states are disturbed: only the given random state matters
        np.random.seed(r.randrange(2**32))
        random.seed(r.randrange(2**32))
        mon.check(np.array_equal(again, out), "not-reproducible", lambda: f"{what}: {out} and then {again} from the same random state")
        mon.event("reproducible")
    if kind == "coordinatewise" and velocity.max() >= 1:
        mon.check(moves > 0, "nothing-changed", lambda: f"{what}: {total} mutations moved nothing with velocity {velocity}")
    # expected number of changes, given that there is at least one
    q = None
    if kind == "discrete" or (kind == "doerr" and dim < 5):
        q = 1.0 / dim
    elif kind == "portfolio" and intensity is not None:
        q = intensity / dim
    if q is not None and dim > 1:
        p0 = (1 - q) ** dim
        mean = dim * q / (1 - p0)
        second = (dim * q * (1 - q) + (dim * q) ** 2) / (1 - p0)
        std = math.sqrt(max(0.0, second - mean**2) / total)
        got = sum(counts) / total
        mon.event("rate")
        mon.check(abs(got - mean) <= 6 * std + 1e-9, "rate", lambda: f"{what}: {got} changes on average instead of {mean}")
    if kind in ("doubledoerr", "doerr") and dim >= 5:
        # heavy tailed, always less than the ratio on average
        top = max(2, int((0.5 if kind == "doerr" else ratio) * dim)) - 1
        p = np.arange(1, top + 1) ** -1.5
        p /= p.sum()
        q_values = np.arange(1, top + 1) / dim
        cond = dim * q_values / (1 - (1 - q_values) ** dim)
        mean = float(np.sum(p * cond))
        got = sum(counts) / total
        mon.event("rate")
        mon.check(abs(got - mean) <= 6 * dim / 2 / math.sqrt(total), "heavy-tail", lambda: f"{what}: {got} changes on average instead of {mean}")


def coordinatewise(mon: Mon, what: str, parent: np.ndarray, out: np.ndarray, arity: int, velocity: np.ndarray) -> int:
    b0, b1 = bins(parent, arity), bins(out, arity)
    moved = b0 != b1
    edge = near_edge(parent, arity) | near_edge(out, arity)
    for k in range(parent.size):
        if edge[k]:
            continue
        # kept, or moved by the velocity (and clipped to the range)
        targets = {int(b0[k])} | {int(np.clip(math.floor(b0[k] + s * velocity[k] + 0.5), 0, arity - 1)) for s in (-1, 1)}
        near = {t + d for t in targets for d in (0,)}
        mon.check(int(b1[k]) in near, "coordinatewise-move", lambda: f"{what}: bin {b0[k]} became {b1[k]} with velocity {velocity[k]} ({parent[k]} to {out[k]})")
    mon.seen("coordinatewise", parent.size, arity, tuple(moved.astype(int)))
    return int(moved.sum())


def run_crossover(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng
    from nevergrad.optimization import differentialevolution as de

    r = rng_of(case)
    kind = case["kind"]
    shape = tuple(r.randint(1, 5) for _ in range(r.choice([1, 2, 2, 3])))
    dim = int(np.prod(shape))
    cr = r.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    conf: tp.Any = cr if kind == "variablewise" else kind
    seed = r.randrange(2**32)
    what = f"{kind} shape={shape} CR={cr}"
    param = ng.p.Array(shape=shape)
    param.random_state.seed(12)  # as in optimizers
    kept = 0
    total = 40
    rs, twin = np.random.RandomState(seed), np.random.RandomState(seed)
    used_cr: tp.List[float] = []
    for _ in range(total):
        donor0 = 1.0 + np.arange(dim) + 0.25 * r.random()
        individual0 = -1.0 - np.arange(dim) - 0.25 * r.random()
        donor, individual = donor0.copy(), individual0.copy()
        before = global_state()
        op = de.Crossover(rs, conf, param)
        used_cr.append(op.CR)
        op.apply(donor, individual)
        mon.event(kind)
        mon.check(global_state() == before, "global-random", lambda: f"{what}: the global random states changed")
        mon.check(np.array_equal(individual, individual0), "individual-modified", lambda: f"{what}: {individual0} became {individual}")
        mon.check(donor.shape == (dim,), "shape", lambda: f"{what}: {donor.shape}")
        own = donor == donor0
        at = [int(np.nonzero(individual0 == x)[0][0]) if (individual0 == x).any() else None for x in donor]
        mon.check(all(o or a is not None for o, a in zip(own, at)), "foreign-coordinate", lambda: f"{what}: {donor} from {donor0} and {individual0}")
        sources = tuple("d" if o else "i" for o in own)
        mon.seen(kind, shape, cr if kind == "variablewise" else None, sources)
        if kind != "rotated_twopoints" or dim < 4:
            mon.check(all(o or a == k for k, (o, a) in enumerate(zip(own, at))), "moved-coordinate", lambda: f"{what}: {donor} from {donor0} and {individual0}")
        taken = "".join(sources)
        if kind in ("variablewise", "random") or (kind in ("twopoints", "rotated_twopoints") and dim < 4) or (kind == "onepoint" and dim < 3):
            mon.check("d" in taken, "nothing-kept", lambda: f"{what}: {donor} keeps nothing of {donor0}")
            kept += taken.count("d")
        elif kind == "onepoint":
            switches = sum(a != b for a, b in zip(taken, taken[1:]))
            mon.check(switches == 1, "not-one-point", lambda: f"{what}: {taken}")
        elif kind == "twopoints" or (kind == "voronoi" and len(shape) < 2 and dim >= 2):
            switches = sum(a != b for a, b in zip(taken, taken[1:]))
            mon.check(switches in (1, 2), "not-two-points", lambda: f"{what}: {taken}")
        elif kind == "rotated_twopoints":
            switches = sum(a != b for a, b in zip(taken, taken[1:]))
            chunk = [a for o, a in zip(own, at) if not o]
            ok = switches in (1, 2) and taken.strip("d") == "i" * len(chunk) and all(b == a + 1 for a, b in zip(chunk, chunk[1:]))  # type: ignore
            mon.check(ok, "not-a-rotated-window", lambda: f"{what}: {taken} from {chunk}")
        elif kind == "voronoi" and len(shape) >= 2 and dim > 1:
            mon.check("d" in taken, "nothing-kept", lambda: f"{what}: {donor} keeps nothing of {donor0}")
        d2, i2 = donor0.copy(), individual0.copy()
        np.random.seed(r.randrange(2**32))
        de.Crossover(twin, conf, param).apply(d2, i2)
        mon.check(np.array_equal(d2, donor), "not-reproducible", lambda: f"{what}: {donor} and then {d2}")
        mon.event("reproducible")
    if kind == "variablewise" and dim > 1:
        # one coordinate is always kept, the others at the requested rate
        mean = total * (1 + (dim - 1) * cr)
        std = math.sqrt(total * (dim - 1) * cr * (1 - cr))
        mon.event("rate")
        mon.check(abs(kept - mean) <= 6 * std + 1e-9, "crossover-rate", lambda: f"{what}: kept {kept} coordinates instead of about {mean}")
    if kind == "random":
        mon.check(len(set(used_cr)) > total / 2 and all(0 <= x <= 1 for x in used_cr), "random-rate", lambda: f"{what}: rates {used_cr}")


def run_mutator_crossover(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    from nevergrad.optimization import mutations

    mixes: tp.List[np.ndarray] = []

    class Traced(mutations.Mutator):
        """the crossover ends with a mutation: the mix is caught before it"""

        def discrete_mutation(self, parent: tp.Any, arity: int = 2) -> tp.Any:
            mixes.append(np.array(parent, dtype=float))
            return super().discrete_mutation(parent, arity=arity)

    r = rng_of(case)
    dim = r.choice([1, 2, 4, 5, 6, 7, 8, 15])
    kind = r.choice(["none", "max", "min", "onepoint", "twopoint", "rand"])
    rotation = r.random() < 0.3
    seed = r.randrange(2**32)
    mut, twin = Traced(np.random.RandomState(seed)), mutations.Mutator(np.random.RandomState(seed))
    what = f"mutator crossover {kind} rotation={rotation} dim={dim}"
    for _ in range(40):
        parent = np.array([r.gauss(0, 1) for _ in range(dim)])
        donor = np.array([r.gauss(0, 1) for _ in range(dim)])
        p, d = parent.copy(), donor.copy()
        del mixes[:]
        before = global_state()
        out = np.array(mut.crossover(p, d, rotation=rotation, crossover_type=kind), dtype=float)
        mon.event("mutator")
        mon.check(global_state() == before, "global-random", lambda: f"{what}: the global random states changed")
        mon.check(np.array_equal(p, parent) and np.array_equal(d, donor), "parent-modified", lambda: f"{what}: {parent} {donor} became {p} {d}")
        mon.check(out.shape == (dim,) and bool(np.isfinite(out).all()), "shape", lambda: f"{what}: {out}")
        again = np.array(twin.crossover(parent.copy(), donor.copy(), rotation=rotation, crossover_type=kind), dtype=float)
        mon.check(np.array_equal(again, out), "not-reproducible", lambda: f"{what}: {out} and then {again}")
        if len(mixes) != 1:
            continue  # no mutation, or another one: the mix is unknown
        mix = mixes[0]
        mon.check(mix.shape == (dim,), "shape", lambda: f"{what}: mix {mix}")
        if rotation:
            ok = all(x in donor or x == parent[k] for k, x in enumerate(mix))
            shifts = [s for s in range(dim) if all(x == parent[k] or x == donor[(k + s) % dim] for k, x in enumerate(mix))]
            mon.check(ok and bool(shifts), "foreign-coordinate", lambda: f"{what}: {mix} from {parent} and {donor}")
        else:
            mon.check(bool(((mix == parent) | (mix == donor)).all()), "foreign-coordinate", lambda: f"{what}: {mix} from {parent} and {donor}")
            switches = int(np.sum((mix == parent)[1:] != (mix == parent)[:-1]))
            if kind == "onepoint" and dim > 4:
                mon.check(switches == 1, "not-one-point", lambda: f"{what}: {mix == parent}")
            elif kind == "twopoint" and dim > 6:
                mon.check(switches == 2, "not-two-points", lambda: f"{what}: {mix == parent}")
            mon.seen("mutator", kind, dim, tuple((mix == parent).astype(int)))


def run_roulette(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng
    from nevergrad.optimization import mutations, utils

    r = rng_of(case)
    dim = r.randint(1, 4)
    archive: tp.Any = utils.Archive()
    n = r.randint(1, 25)
    param = ng.p.Array(shape=(dim,))
    stored: tp.List[tp.Tuple[float, np.ndarray]] = []
    for _ in range(n):
        x = np.array([r.gauss(0, 1) for _ in range(dim)])
        value = utils.MultiValue(param.spawn_child(new_value=x), float(r.randint(0, 5)), reference=param)
        archive[x] = value
        stored.append((value.pessimistic_confidence_bound, x))
    seed = r.randrange(2**32)
    mut, twin = mutations.Mutator(np.random.RandomState(seed)), mutations.Mutator(np.random.RandomState(seed))
    for num in [None, 1, 2, n, n + 5]:
        before = global_state()
        out = mut.get_roulette(archive, num=num)
        mon.event("roulette")
        mon.check(global_state() == before, "global-random", lambda: "roulette: the global random states changed")
        bound = [b for b, x in stored if np.array_equal(x, out)]
        mon.check(bool(bound), "not-in-archive", lambda: f"roulette: {out} is not in the archive")
        better = sum(b < bound[0] for b, _ in stored) if bound else 0
        size = min(n, int(0.999 + math.sqrt(n)) if num is None else num)
        mon.check(better <= n - size, "roulette-not-best", lambda: f"roulette: {better} better points out of {n} in a tournament of {size}")
        again = twin.get_roulette(archive, num=num)
        mon.check(np.array_equal(out, again), "not-reproducible", lambda: f"roulette: {out} and then {again}")
        mon.seen("roulette", n, dim, num, better)
