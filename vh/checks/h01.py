"""H01: the real hypervolume indicator runs on random and adversarial point sets; an exact rational slicing integrator judges every result."""
import random
import typing as tp
from fractions import Fraction
import numpy as np
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (objectives, number of points, kind of set, number of non-dominated points, duplicates, coordinates on the reference): "
    "a configuration of points whose volume was compared with the exact integral"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 20000
NEED_EVENTS = ("volume", "permuted", "duplicated", "reused", "optimizer-volume")
ASSUMPTIONS = [
    "points have no coordinate above the reference (the repository's own tests pin what the indicator returns otherwise)",
    "integer coordinates are compared exactly, floats up to 1e-9 of the volume of the enclosing box",
]
KINDS = ["int", "small-int", "chain", "antichain", "ties", "float", "scales", "boundary", "negative", "one-direction"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 24 if tier == "quick" else 400
    return [dict(dim=d, kind=k, seed=seed * 10000 + i) for i in range(n // 4) for d in (1, 2, 3, 4, 5, 6, 7) for k in KINDS]


def volume(points: tp.List[tp.Tuple[Fraction, ...]], ref: tp.Tuple[Fraction, ...]) -> Fraction:
    """measure of the union of the boxes [point, ref], by slicing along the last coordinate"""
    if not points:
        return Fraction(0)
    if len(ref) == 1:
        return ref[0] - min(p[0] for p in points)
    levels = sorted({p[-1] for p in points}) + [ref[-1]]
    total = Fraction(0)
    for lo, hi in zip(levels, levels[1:]):
        if hi > lo:
            front: tp.List[tp.Tuple[Fraction, ...]] = []
            for p in sorted({p[:-1] for p in points if p[-1] <= lo}):
                if not any(all(a <= b for a, b in zip(q, p)) for q in front):
                    front.append(p)
            total += (hi - lo) * volume(front, ref[:-1])
    return total


def point_set(kind: str, dim: int, n: int, r: random.Random) -> tp.Tuple[np.ndarray, np.ndarray]:
    if kind in ("int", "antichain", "chain", "boundary", "one-direction"):
        ref = np.array([r.randint(5, 100) for _ in range(dim)], dtype=float)
        pts = np.array([[r.randint(0, int(u)) for u in ref] for _ in range(n)], dtype=float)
        if kind == "chain":
            pts = np.sort(pts, axis=0) if r.random() < 0.7 else pts.cumsum(axis=0) % ref
            pts = np.minimum(pts, ref)
        elif kind == "antichain" and dim > 1:
            s = int(ref.min())
            pts = np.array([np.bincount([r.randrange(dim) for _ in range(s)], minlength=dim) for _ in range(n)], dtype=float)
        elif kind == "boundary":
            for p in pts:
                if r.random() < 0.5:
                    k = r.randrange(dim)
                    p[k] = ref[k]
        elif kind == "one-direction":
            base = pts[0].copy()
            k = r.randrange(dim)
            pts[:, [j for j in range(dim) if j != k]] = np.delete(base, k)
    elif kind in ("small-int", "ties"):
        m = 2 if kind == "small-int" else 3
        ref = np.full(dim, float(m))
        pts = np.array([[r.randint(0, m) for _ in range(dim)] for _ in range(n)], dtype=float)
    elif kind == "negative":
        ref = np.array([r.randint(-5, 2) for _ in range(dim)], dtype=float)
        pts = np.array([[r.randint(int(u) - 30, int(u)) for u in ref] for _ in range(n)], dtype=float)
    elif kind == "float":
        ref = np.array([r.uniform(0.5, 2) for _ in range(dim)])
        pts = np.array([[u * r.random() for u in ref] for _ in range(n)])
    else:  # scales
        sc = np.array([10.0 ** r.randint(-6, 6) for _ in range(dim)])
        ref = sc * [r.random() + 1 for _ in range(dim)]
        pts = np.array([[u * r.random() for u in ref] for _ in range(n)])
    return pts, ref


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    from nevergrad.optimization.multiobjective import HypervolumeIndicator

    r = rng_of(case)
    dim, kind = case["dim"], case["kind"]
    top = {1: 20, 2: 25, 3: 14, 4: 10, 5: 8, 6: 7, 7: 6}[dim]
    indicators: tp.Dict[tp.Any, tp.Any] = {}
    for rep in range(6):
        n = r.choice([1, 2, 3, top, r.randint(1, top)])
        pts, ref = point_set(kind, dim, n, r)
        fpts = [tuple(Fraction(x) for x in p) for p in pts]
        fref = tuple(Fraction(x) for x in ref)
        exact = float(volume(fpts, fref))
        box = float(np.prod(ref - pts.min(axis=0)))
        tol = 0.0 if kind not in ("float", "scales") else 1e-9 * max(box, exact)
        key = tuple(ref)
        if key in indicators:
            mon.event("reused")
        hv = indicators.setdefault(key, HypervolumeIndicator(ref.copy()))
        distinct = set(fpts)
        nd = sum(not any(all(a <= b for a, b in zip(q, p)) and q != p for q in distinct) for p in distinct)
        mon.seen(dim, n, kind, nd, n - len(distinct), int((pts == ref).any(axis=1).sum()))

        def judge(points: tp.Any, what: str) -> None:
            before = [np.array(p, copy=True) for p in points]
            got = hv.compute(points)
            mon.event("volume")
            mon.check(abs(got - exact) <= tol, what, lambda: f"points {np.array(points).tolist()} reference {ref.tolist()}: {got} instead of {exact}")
            mon.check(all((a == b).all() for a, b in zip(before, points)) and len(before) == len(points), "input-modified", lambda: f"{before} became {points}")
            mon.check((hv.reference_point == ref).all(), "reference-modified", lambda: f"{ref} became {hv.reference_point}")

        judge(list(pts), "volume")
        judge(pts, "volume-of-array")
        for _ in range(3):
            perm = list(range(n))
            r.shuffle(perm)
            judge([pts[k] for k in perm], "order")
            mon.event("permuted")
        judge([pts[k] for k in list(range(n)) + [r.randrange(n) for _ in range(3)]], "duplicates")
        mon.event("duplicated")
        # adding a point never decreases the volume
        fewer = hv.compute(list(pts[: n - 1])) if n > 1 else 0.0
        mon.check(fewer <= exact + tol, "not-monotone", lambda: f"{pts.tolist()}: {fewer} without the last point, {exact} with it")
        mon.event("reused")
        judge(list(pts), "after-other-set")
    # the volumes computed on the way of a multi-objective run
    if dim > 1:
        optimizer_volumes(case, r, mon)


def optimizer_volumes(case: tp.Dict[str, tp.Any], r: random.Random, mon: Mon) -> None:
    import nevergrad as ng

    dim = case["dim"]
    from nevergrad.optimization.multiobjective import HypervolumePareto

    ref = [r.randint(3, 20) for _ in range(dim)]
    hp = HypervolumePareto(upper_bounds=np.array(ref, dtype=float))
    param = ng.p.Scalar()
    told: tp.List[tp.Tuple[Fraction, ...]] = []
    for _ in range(12):
        loss = [r.randint(0, ref[k] + 2) for k in range(dim)]
        c = param.spawn_child()
        c._losses = np.array(loss, dtype=float)
        hp.add(c)
        if all(a <= b for a, b in zip(loss, ref)):
            told.append(tuple(Fraction(x) for x in loss))
            exact = float(volume(sorted(set(told)), tuple(Fraction(x) for x in ref)))
            mon.event("optimizer-volume")
            mon.check(hp.best_volume == exact, "run-volume", lambda: f"told {told} reference {ref}: best volume {hp.best_volume} instead of {exact}")
