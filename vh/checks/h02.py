"""H02: multi-objective runs of real optimizers; after every tell the Pareto front and its subsets are compared with a brute-force set of non-dominated told points."""
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, space, objectives, reference given or automatic, size of the front, told points beyond the reference or not, "
    "subset criterion or none): a front compared with the brute-force one"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 20000
NEED_EVENTS = ("front", "subset", "dominated-told", "tie-told", "beyond-told", "foreign", "reference", "automatic")
ASSUMPTIONS = ["losses are small integers, so that volumes are exact and ties frequent", "points beyond the reference may or may not be in the front"]
NAMES = ["RandomSearch", "LHSSearch", "OnePlusOne", "CMA", "DE", "TwoPointsDE", "LhsDE", "PSO", "TBPSA", "NGOpt", "RecES", "MixES", "RecMixES", "NaiveTBPSA", "DiscreteOnePlusOne", "PymooNSGA2", "EDA", "Portfolio"]
SUBSETS = ["random", "loss-covering", "EPS", "domain-covering", "hypervolume"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    have = set(opts.registered())
    sps = ["arr3", "mix", "bnd2", "dct", "tch", "cho", "one", "int"]
    out = []
    for k in range(12 if tier == "quick" else 100):
        for i, n in enumerate(x for x in NAMES if x in have):
            j = i + k * 5 + seed
            if n == "PymooNSGA2" and k % 3:
                continue
            sp = sps[j % (6 if n in opts.NOT_1D or n == "PymooNSGA2" else len(sps))]
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [1, 3][j % 2], objectives=2 + j % 3, ref=bool(k % 3 != 1), spread=[3, 12, 60][j % 3], seed=seed * 1000 + k, n=60, budget=90))
    return out


def dominates(a: tp.Sequence[float], b: tp.Sequence[float]) -> bool:
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    r = rng_of(case)
    s = drive.Session(case, r)
    opt = s.opt
    d, spread = case["objectives"], case["spread"]
    ref: tp.Optional[tp.Tuple[float, ...]] = None
    who = f"{case['opt']} on {case['space']} with {d} objectives"
    if case["ref"]:
        ref = tuple(float(r.randint(spread // 2, spread)) for _ in range(d))
        opt.tell(ng.p.MultiobjectiveReference(), list(ref))
        mon.event("reference")
    else:
        mon.event("automatic")
    told: tp.List[tp.Tuple[tp.Any, tp.Tuple[float, ...]]] = []
    supported = True
    for step in range(case["n"]):
        while len(s.pending) < s.workers and (not s.pending or r.random() < 0.7):
            s.ask()
        style = r.random()
        if told and style < 0.1:
            loss = list(r.choice(told)[1])
            mon.event("tie-told")
        elif told and style < 0.2:
            loss = [x + r.randint(0, 2) for x in r.choice(told)[1]]
        elif told and style < 0.35:
            loss = [max(0, x - r.randint(0, 2)) for x in r.choice(told)[1]]
        else:
            loss = [r.randint(0, spread) for _ in range(d)]
        vec = tuple(float(x) for x in loss)
        sent: tp.Any = list(vec) if r.random() < 0.5 else np.array(vec)
        if supported and r.random() < 0.1:
            c = s.foreign_candidate()
            supported = s.tell(c, sent, foreign=True)
            mon.event("foreign", int(supported))
            if not supported:
                return  # what a refused candidate leaves behind is not specified
        else:
            c = s.tell_pending(r.randrange(len(s.pending)), sent)
        if isinstance(sent, np.ndarray) and r.random() < 0.5:
            sent += 100.0  # the caller reuses its buffer
        if any(dominates(v, vec) for _, v in told):
            mon.event("dominated-told")
        told.append((c, vec))
        judge(case, mon, opt, told, ref, who, r)


def judge(case: tp.Dict[str, tp.Any], mon: Mon, opt: tp.Any, told: tp.List[tp.Any], ref: tp.Any, who: str, r: tp.Any) -> None:
    limit = ref
    if limit is None and len(told) > 15:
        # the automatic reference is at least the worst of the first points which are not worse than all others
        worst = list(told[0][1])
        for _, v in told[1:15]:
            if not all(x > w for x, w in zip(v, worst)):
                worst = [max(x, w) for x, w in zip(v, worst)]
        limit = tuple(worst)
    inside = [v for k, (_, v) in enumerate(told) if limit is None or all(x < u for x, u in zip(v, limit))]
    beyond = len(inside) < len(told)
    mon.event("beyond-told", int(beyond))
    vectors = {v for _, v in told}
    required = {v for v in inside if not any(dominates(w, v) for w in vectors)}
    front = opt.pareto_front()
    mon.event("front")
    by_uid = {c.uid: v for c, v in told}
    got = []
    for c in front:
        mon.check(c.uid in by_uid, "front-not-told", lambda: f"{who}: {c.value!r} in the front was not told")
        if c.uid in by_uid:
            v = tuple(float(x) for x in c.losses)
            mon.check(v == by_uid[c.uid], "front-losses", lambda: f"{who}: told {by_uid[c.uid]} but the front says {v}")
            got.append(by_uid[c.uid])
    mon.check(len({id(c) for c in front}) == len(front), "front-repeated", lambda: f"{who}: repeated members in {got}")
    for v in got:
        by = next((w for w in vectors if dominates(w, v)), None)
        # a point which is not better than the reference needs not be recorded, and does not need to be compared
        if by is not None and limit is not None and any(x >= u for x, u in zip(by, limit)):
            by = None
        mon.check(by is None, "front-dominated", lambda: f"{who}, reference {ref}: {v} of the front is dominated by {by}, told {[w for _, w in told]}")
    missing = required - set(got)
    mon.check(not missing, "front-missing", lambda: f"{who}, reference {ref}: {missing} not in the front {got}, told {[w for _, w in told]}")
    mon.seen(case["opt"], case["space"], case["objectives"], ref is not None, len(front), beyond, None)
    if len(front) < 2 or r.random() < 0.6 or not got:
        return
    before = [c.uid for c in front]
    for subset in SUBSETS:
        size = r.choice([1, len(front) - 1, len(front), len(front) + 3, r.randint(1, len(front))])
        try:
            sub = opt.pareto_front(size, subset=subset, subset_tentatives=r.choice([1, 3]))
        except RuntimeError as e:
            if subset == "hypervolume" and "not supported" in str(e):
                continue
            raise
        mon.event("subset")
        mon.seen(case["opt"], case["space"], case["objectives"], ref is not None, len(front), size, subset)
        uids = [c.uid for c in sub]
        mon.check(len(sub) == min(size, len(front)), "subset-size", lambda: f"{who}: {len(sub)} points for size {size} of {len(front)} ({subset})")
        mon.check(len(set(uids)) == len(uids), "subset-repeated", lambda: f"{who}: repeated points in the {subset} subset of {size}")
        mon.check(set(uids) <= set(before), "subset-not-front", lambda: f"{who}: the {subset} subset has points which are not in the front")
        if r.random() < 0.3:
            sub.pop()  # the list belongs to the caller
        after = [c.uid for c in opt.pareto_front()]
        mon.check(set(after) == set(before) and len(after) == len(before), "subset-altered-front", lambda: f"{who}: front of {len(before)} then {len(after)} after a {subset} subset")
