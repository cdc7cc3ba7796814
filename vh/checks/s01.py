"""S01: oracles over the point sequences emitted by the real samplers (stratification, digit expansions, replay), recomputed independently."""
import math
import random
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (sampler, scrambling, dimension, budget class, seed class, kind of observation)"
BUDGET_S = {"quick": 45, "thorough": 400}
MIN_EVALS = 50000
NEED_EVENTS = ("lhs-slice", "halton-point", "scrambled-point", "elementary-block", "hammersley-first", "replay", "seeded", "rescaled", "over-budget", "random")
ASSUMPTIONS = ["float rounding of 1e-9 of a slice is tolerated at the borders of slices"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 1600 if tier == "quick" else 6000
    kinds = ["lhs", "halton", "scrambled", "hammersley", "random", "rescaler", "lhs", "scrambled"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def primes(num: int) -> tp.List[int]:
    out: tp.List[int] = []
    k = 2
    while len(out) < num:
        if all(k % q for q in out if q * q <= k):
            out.append(k)
        k += 1
    return out


def digits(n: int, base: int) -> tp.List[int]:
    out = []
    while n:
        n, d = divmod(n, base)
        out.append(d)
    return out


def radical(n: int, base: int, perm: tp.Optional[tp.Sequence[int]] = None) -> float:
    return sum((d if perm is None else perm[d]) / base ** (j + 1) for j, d in enumerate(digits(n, base)))


def make(case: tp.Dict[str, tp.Any], r: random.Random) -> tp.Tuple[tp.Any, tp.Any, tp.Dict[str, tp.Any]]:
    from nevergrad.optimization import sequences

    name = {"lhs": "LHSSampler", "random": "RandomSampler", "hammersley": "HammersleySampler"}.get(case["kind"], "HaltonSampler")
    cls = sequences.samplers[name]
    dim = r.choice([1, 2, 3, 5, 8, r.randint(1, 40), r.randint(1, 12)])
    budget = r.choice([1, 2, 3, 7, 10, 30, 64, 100, r.randint(1, 300)])
    shape = r.random()
    if shape < 0.02:  # long sequences: many digits
        dim, budget = r.randint(1, 3), r.choice([1000, 5000, 20000, r.randint(1000, 40000)])
    elif shape < 0.04:  # many coordinates: large primes
        dim, budget = r.randint(60, 800), r.randint(1, 20)
    kwargs: tp.Dict[str, tp.Any] = dict(dimension=dim, budget=budget)
    if case["kind"] == "scrambled" or case["kind"] == "hammersley" and r.random() < 0.6:
        kwargs["scrambling"] = True
    return name, cls, kwargs


def state(seed: int) -> np.random.RandomState:
    return np.random.RandomState(seed % 2**32)


def points(sampler: tp.Any, n: int) -> np.ndarray:
    return np.array([np.array(sampler(), dtype=float) for _ in range(n)])


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    r = rng_of(case)
    name, cls, kwargs = make(case, r)
    dim, n = kwargs["dimension"], kwargs["budget"]
    what = f"{name}({kwargs})"
    np.random.seed(r.randrange(2**31))
    first = cls(**kwargs, random_state=state(case["seed"]))
    pts = points(first, n)
    mon.seen(name, kwargs.get("scrambling", False), dim, min(n // 20, 6))
    if not mon.check(pts.shape == (n, dim), "wrong-shape", lambda: f"{what}: points of shape {pts.shape}"):
        return
    mon.check(bool(np.all(pts >= 0) and np.all(pts <= 1)), "outside-unit-cube", lambda: f"{what}: points in [{pts.min()}, {pts.max()}]")
    # exactly the budget
    mon.event("over-budget")
    try:
        first()
    except AssertionError:
        pass
    else:
        mon.violate("over-budget", f"{what}: provides more points than the budget")
    # replay: restart, and the same seed
    mon.event("replay")
    first.reinitialize()
    again = points(first, n)
    mon.check(bool(np.array_equal(again, pts)), "restart-differs", lambda: f"{what}: other points after reinitialize, at index {int(np.argmax(np.any(again != pts, axis=1)))}")
    first.reinitialize()
    partial = points(first, max(1, n // 2))
    first.reinitialize()
    mon.check(bool(np.array_equal(np.array(list(first)), pts) and np.array_equal(partial, pts[: len(partial)])), "iteration-differs", lambda: f"{what}: iterating provides other points")
    second = cls(**kwargs, random_state=state(case["seed"]))
    mon.event("seeded")
    mon.check(bool(np.array_equal(points(second, n), pts)), "same-seed-differs", lambda: f"{what}: other points with the same random state")
    if case["kind"] == "lhs":
        lhs(mon, what, pts, n)
        other = points(cls(**kwargs, random_state=state(case["seed"] + 1)), n)
        mon.check(not np.array_equal(other, pts), "seed-ignored", lambda: f"{what}: same points with another random state")
        mon.check(len({tuple(np.argsort(pts[:, j])) for j in range(dim)}) > 1 or dim < 3 or n < 6, "same-permutation", lambda: f"{what}: coordinates use the same permutation")
    elif case["kind"] == "random":
        mon.event("random")
        mon.check(n < 2 or len(np.unique(pts[:, 0])) == n, "repeated-random-points", lambda: f"{what}: repeated points")
    elif case["kind"] == "hammersley":
        mon.event("hammersley-first", n)
        mon.check(
            bool(np.allclose(pts[:, 0], (np.arange(n) + 0.5) / n, rtol=0, atol=1e-12)), "hammersley-first-coordinate", lambda: f"{what}: first coordinate {pts[:, 0]}"
        )
        low_discrepancy(mon, what, pts[:, 1:], kwargs.get("scrambling", False))
    elif case["kind"] == "rescaler":
        rescaler(mon, r, what, pts)
        low_discrepancy(mon, what, pts, False)
    else:
        low_discrepancy(mon, what, pts, kwargs.get("scrambling", False))


def lhs(mon: Mon, what: str, pts: np.ndarray, n: int) -> None:
    slots = np.arange(n)
    for j in range(pts.shape[1]):
        x = np.sort(pts[:, j]) * n
        mon.event("lhs-slice", n)
        mon.check(
            bool(np.all(x >= slots - 1e-9) and np.all(x <= slots + 1 + 1e-9)), "lhs-slices", lambda: f"{what}: coordinate {j} has not one point by slice: {x.tolist()}"
        )


def low_discrepancy(mon: Mon, what: str, pts: np.ndarray, scrambled: bool) -> None:
    n = pts.shape[0]
    for j, p in enumerate(primes(pts.shape[1])):
        x = pts[:, j]
        if not scrambled:
            mon.event("halton-point", n)
            expected = np.array([radical(i + 1, p) for i in range(n)])
            mon.check(
                bool(np.allclose(x, expected, rtol=0, atol=1e-12)),
                "not-van-der-corput",
                lambda: f"{what}: coordinate {j} (prime {p}) is {x[:8].tolist()}, expected {expected[:8].tolist()}",
            )
        else:
            # the permutation of digits is read on the first points
            head = [int(round(v * p)) for v in x[: p - 1]]
            perm = [0] + head
            mon.check(
                bool(np.allclose(x[: p - 1] * p, head, atol=1e-9)) and len(set(perm)) == len(perm) and max(perm) < p,
                "not-a-permutation-of-digits",
                lambda: f"{what}: first digits in base {p} are {head}",
            )
            if n >= p - 1:
                mon.event("scrambled-point", n)
                expected = np.array([radical(i + 1, p, perm) for i in range(n)])
                mon.check(
                    bool(np.allclose(x, expected, rtol=0, atol=1e-12)), "not-scrambled-van-der-corput", lambda: f"{what}: coordinate {j} (prime {p}) is not a permutation of digits"
                )
        size = p
        while 2 * size <= n + 1:
            for m in range(1, (n + 1) // size):
                block = x[m * size - 1 : (m + 1) * size - 1]
                cells = np.floor(block * size + 1e-9).astype(int)
                mon.event("elementary-block")
                if not mon.check(
                    sorted(cells.tolist()) == list(range(size)), "elementary-interval", lambda: f"{what}: coordinate {j}, block {m} of {size} points: cells {sorted(cells.tolist())}"
                ):
                    break
            size *= p


def rescaler(mon: Mon, r: random.Random, what: str, pts: np.ndarray) -> None:
    from nevergrad.optimization import sequences

    n, dim = pts.shape
    if n < 2:
        return
    # squeezed sample: the extreme points must reach the faces of the cube
    lo = np.array([r.uniform(0.01, 0.4) for _ in range(dim)])
    hi = np.array([r.uniform(0.6, 0.99) for _ in range(dim)])
    sample = lo + (hi - lo) * np.random.RandomState(r.randrange(2**31)).uniform(0.001, 0.999, (n, dim))
    keep = sample.copy()
    resc = sequences.Rescaler(iter(sample))
    out = np.array([resc.apply(x) for x in sample])
    mon.event("rescaled", n)
    mon.check(np.array_equal(keep, sample), "rescaler-modifies-input", lambda: f"{what}: the sample is modified")
    mon.check(bool(np.all(out >= 0) and np.all(out <= 1)), "rescaled-outside", lambda: f"{what}: rescaled points in [{out.min()}, {out.max()}]")
    mon.check(
        bool(np.allclose(out.min(axis=0), 0, atol=1e-9) and np.allclose(out.max(axis=0), 1, atol=1e-9)),
        "rescaled-not-reaching-faces",
        lambda: f"{what}: minima {out.min(axis=0)}, maxima {out.max(axis=0)}",
    )
    mon.check(bool(np.all(out > 0) and np.all(out < 1)), "rescaled-on-the-border", lambda: f"{what}: points exactly on the faces (infinite quantiles)")
    expected = (sample - sample.min(axis=0)) / (sample.max(axis=0) - sample.min(axis=0))
    mon.check(bool(np.allclose(out, expected, atol=1e-9)), "rescaled-not-affine", lambda: f"{what}: the rescaling is not affine by coordinate")
