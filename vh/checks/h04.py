"""H04: non-dominated sorting, crowding distances and NSGA-II ranks of random populations, recomputed by brute force; selections of real evolution strategies observed."""
import typing as tp
import numpy as np
from .. import drive, opts
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (objectives, population size, kind, number of fronts, size of the cut front, selected number): a ranked population "
    "compared with the definition"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 20000
NEED_EVENTS = ("ranking", "crowding", "rank", "cut-front", "survivors")
ASSUMPTIONS = ["crowding distances are compared when no two points of the front have an equal objective (ties leave the order open)"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out: tp.List[tp.Dict[str, tp.Any]] = []
    for k in range(40 if tier == "quick" else 600):
        for kind in ("random", "ties", "antichain", "chain", "layers", "duplicates", "single"):
            out.append(dict(kind=kind, objectives=1 if kind == "single" else 2 + k % 4, seed=seed * 100000 + k))
    have = set(opts.registered())
    for k in range(4 if tier == "quick" else 40):
        for n in ("RecMixES", "RecES", "MixES", "ES"):
            if n in have:
                out.append(dict(kind="es", opt=n, space=["arr3", "mix", "bnd2"][k % 3], workers=[1, 3][k % 2], objectives=2 + k % 2, seed=seed * 1000 + k, n=250, budget=400))
    return out


def dom(a: tp.Any, b: tp.Any) -> bool:
    return bool(all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b)))


def fronts_of(vecs: tp.Sequence[tp.Tuple[float, ...]]) -> tp.List[tp.List[int]]:
    left = set(range(len(vecs)))
    out = []
    while left:
        f = sorted(k for k in left if not any(dom(vecs[j], vecs[k]) for j in left))
        out.append(f)
        left -= set(f)
    return out


def crowding(vecs: tp.Sequence[tp.Tuple[float, ...]]) -> tp.Optional[tp.List[float]]:
    """None if the definition leaves the result open"""
    n, d = len(vecs), len(vecs[0])
    if n <= 2:
        return [float("inf")] * n
    out = [0.0] * n
    for i in range(d):
        col = [v[i] for v in vecs]
        if len(set(col)) < n:
            return None
        order = sorted(range(n), key=lambda k: col[k])
        span = col[order[-1]] - col[order[0]]
        out[order[0]] = out[order[-1]] = float("inf")
        for a, k, b in zip(order, order[1:], order[2:]):
            out[k] += (col[b] - col[a]) / span
    return out


def population(case: tp.Dict[str, tp.Any], r: tp.Any) -> tp.List[tp.Tuple[float, ...]]:
    d, kind, n = case["objectives"], case["kind"], r.choice([1, 2, 3, 5, 8, 15, 30])
    if kind == "random" or kind == "single":
        return [tuple(r.uniform(-5, 5) for _ in range(d)) for _ in range(n)]
    if kind == "ties":
        return [tuple(float(r.randint(0, 3)) for _ in range(d)) for _ in range(n)]
    if kind == "antichain":
        out = []
        for _ in range(n):
            x = np.array([r.expovariate(1) for _ in range(d)])
            out.append(tuple(float(v) for v in x / x.sum()))
        return out
    if kind == "chain":
        base = sorted(r.uniform(0, 9) for _ in range(n))
        out = [tuple(b + 0.001 * j for j in range(d)) for b in base]
        r.shuffle(out)
        return out
    if kind == "layers":
        m = max(1, n // 3)
        return [tuple(float(v) + layer for v in np.roll([t / m, -t / m] + [0.0] * (d - 2), t if d > 2 else 0)) for layer in range(3) for t in range(m)]
    out = [tuple(r.uniform(-5, 5) for _ in range(d)) for _ in range(max(1, n // 2))]
    return [r.choice(out) for _ in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    if case["kind"] == "es":
        return strategies(case, r, mon)
    import nevergrad as ng
    from nevergrad.optimization.multiobjective import nsga2

    param = ng.p.Scalar()
    for _ in range(5):
        vecs = population(case, r)
        n = len(vecs)
        cands = []
        for v in vecs:
            c = param.spawn_child()
            if len(v) == 1:
                c.loss = v[0]
            else:
                c._losses = np.array(v)
            cands.append(c)
        index = {c.uid: k for k, c in enumerate(cands)}
        expected = fronts_of(vecs)
        text = f"{vecs}"
        ranking = nsga2.FastNonDominatedRanking().compute_ranking(list(cands))
        got = [sorted(index[c.uid] for c in f) for f in ranking]
        mon.event("ranking")
        mon.check(got == expected, "fronts", lambda: f"{text}: {got} instead of {expected}")
        k_min = r.randint(1, n)
        part = [sorted(index[c.uid] for c in f) for f in nsga2.FastNonDominatedRanking().compute_ranking(list(cands), k_min)]
        need = 0
        while sum(len(f) for f in expected[:need]) < k_min:
            need += 1
        mon.check(part == expected[:need], "trimmed-fronts", lambda: f"{text} for {k_min}: {part} instead of {expected[:need]}")
        distances: tp.Dict[int, float] = {}
        for f in expected:
            exact = crowding([vecs[k] for k in f])
            nsga2.CrowdingDistance().compute_distance([cands[k] for k in r.sample(f, len(f))])
            for j, k in enumerate(f):
                d = cands[k]._meta["crowding_distance"]
                mon.check(d >= 0, "crowding-negative", lambda: f"{text}: {d}")
                if exact is not None:
                    distances[k] = exact[j]
                    mon.event("crowding")
                    mon.check(d == exact[j] or abs(d - exact[j]) < 1e-9, "crowding", lambda: f"front {[vecs[i] for i in f]}: {d} instead of {exact[j]} for {vecs[k]}")
        for sel in {None, r.randint(1, n), n, r.randint(1, n)}:
            pop = list(cands)
            ranks = nsga2.rank(pop, sel) if sel is not None else nsga2.rank(pop)
            mon.event("rank")
            total = n if sel is None else sel
            mon.check(pop == cands, "population-modified", lambda: f"{text}: the population list was reordered")
            mon.check(len(ranks) == total and set(ranks) <= set(index), "selected-number", lambda: f"{text}: {len(ranks)} selected instead of {total}")
            where = {k: i for i, f in enumerate(expected) for k in f}
            chosen = {index[u]: v for u, v in ranks.items() if u in index}
            need = 0
            while sum(len(f) for f in expected[: need + 1]) <= total and need < len(expected):
                need += 1
            whole = {k for f in expected[:need] for k in f}
            mon.check(whole <= set(chosen), "best-front-dropped", lambda: f"{text}, selecting {sel}: {whole - set(chosen)} dropped")
            for k, (rank, front, dist) in chosen.items():
                mon.check(front == where[k], "front-number", lambda: f"{text}: {vecs[k]} in front {front} instead of {where[k]}")
                for k2, (rank2, front2, _) in chosen.items():
                    if where[k] < where[k2]:
                        mon.check(rank < rank2, "rank-order", lambda: f"{text}: {vecs[k]} of front {where[k]} has rank {rank}, {vecs[k2]} of front {where[k2]} has rank {rank2}")
                    elif sel is None and where[k] == where[k2] and k in distances and k2 in distances and distances[k] > distances[k2] + 1e-9:
                        mon.check(rank < rank2, "rank-crowding", lambda: f"{text}: {vecs[k]} is less crowded than {vecs[k2]} but has rank {rank} and not {rank2}")
            cut = expected[need] if need < len(expected) else []
            if cut and set(cut) & set(chosen):
                mon.event("cut-front")
            mon.seen(case["objectives"], n, case["kind"], len(expected), len(cut), sel)
            if all(k in distances for k in cut):
                for a in cut:
                    for b in cut:
                        if a in chosen and b not in chosen:
                            mon.check(distances[a] >= distances[b] - 1e-9, "crowded-kept", lambda: f"{text}: kept {vecs[a]} ({distances[a]}) and dropped {vecs[b]} ({distances[b]})")


def strategies(case: tp.Dict[str, tp.Any], r: tp.Any, mon: Mon) -> None:
    """survivors of evolution strategies with non-dominated sorting: no survivor may be dominated by a told point which was dropped at the same time"""
    s = drive.Session(case, r)
    population = getattr(s.opt, "_population", None)
    if not isinstance(population, dict):
        mon.note("no-population")
        return
    before: tp.Dict[str, tp.Tuple[float, ...]] = {}
    pool: tp.Dict[str, tp.Tuple[float, ...]] = {}
    for step in range(case["n"]):
        if not s.pending:
            for _ in range(s.workers):
                s.ask()
        loss = [float(r.randint(0, 30)) for _ in range(case["objectives"])]
        c = s.tell_pending(r.randrange(len(s.pending)), loss)
        pool[c.uid] = tuple(loss)
        now = {u: tuple(x.losses) for u, x in s.opt._population.items() if x._losses is not None}
        if set(now) != set(before) and set(before) - set(now):
            # a selection happened
            mon.event("survivors")
            dropped = {u: v for u, v in {**before, **pool}.items() if u not in now}
            if len(dropped) and case["opt"] in ("RecMixES", "MixES"):
                ranks = {u: i for i, f in enumerate(fronts_of(list({**before, **pool}.values()))) for u in [list({**before, **pool})[k] for k in f]}
                worst = max(ranks[u] for u in now if u in ranks)
                best = min(ranks[u] for u in dropped)
                mon.check(best >= worst, "survivor-front", lambda: f"{case['opt']}: a survivor of front {worst} and a dropped point of front {best}")
            pool = {}
        before = now
