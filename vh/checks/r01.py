"""R01: twin executions from the same seed, one of them disturbed (global random states, other optimizers, extra recommendations, time), compared point by point."""
import gc
import random
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, space, workers, disturbance mix, first differing step or none): a pair of executions compared "
    "to the last point"
)
BUDGET_S = {"quick": 90, "thorough": 600}
MIN_EVALS = 8000
NEED_EVENTS = ("ask", "recommend", "disturb-global", "disturb-other", "disturb-recommend", "foreign", "one-dimensional-other")
CASE_TIMEOUT = 90
ASSUMPTIONS = [
    "optimizers run in one process with the same hash seed; points are compared bitwise",
    "wrapped third-party minimisers are run one at a time",
]
# third-party minimisers which draw from the global random state of numpy (see known_findings.jsonl)
DIRECTSEARCH = ("DS", "MultiDS", "ChainDS", "ChainMetaModelDS", "MetaModelDS")
PYMOO = ("PymooCMAES", "PymooBIPOP")
OTHERS = ["OnePlusOne", "DE", "CMA", "DiagonalCMA", "PSO", "TBPSA", "LHSSearch", "NGOpt", "DiscreteOnePlusOne", "FCMA"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = opts.usable()
    for k in range(1 if tier == "quick" else 6):
        for i, n in enumerate(names):
            j = i + k + seed
            sp = ["arr3", "mix", "bnd2", "dct", "tch", "arr2x2"][j % 6]
            if n.startswith("ImageMetaModel"):
                sp = "arr2x2"
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [1, 3][(j // 6) % 2], seed=seed * 1000 + k, n=25))
    for k in range(3 if tier == "quick" else 30):
        for i, n in enumerate(opts.core()):
            j = i + k + seed
            sp = "arr3" if n.startswith("SADiscrete") else ["arr3", "mix", "bnd2", "cho", "tch"][j % 5]  # tabu lists cover small spaces
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [4, 1][k % 2], seed=seed * 1000 + 50 + k, n=70))
    have = set(opts.registered())
    multi = [n for n in ("DE", "TwoPointsDE", "PSO", "CMA", "OnePlusOne", "RandomSearch", "ES", "RecMixES", "MixES", "NGOpt", "LhsDE", "DiscreteOnePlusOne") if n in have]
    for k in range(2 if tier == "quick" else 20):
        for i, n in enumerate(multi):
            out.append(dict(opt=n, space=["arr3", "mix"][(i + k) % 2], workers=[1, 3][k % 2], seed=seed * 1000 + 80 + k, n=90, multi=2 + (i + k) % 2))
    return out


def run(case: tp.Dict[str, tp.Any], disturbed: bool, mon: Mon) -> tp.Tuple[tp.List[tp.Any], tp.Any]:
    """the random draws of the harness which decide the schedule are the same in both executions"""
    sched = rng_of(case, "schedule")
    dist = rng_of(case, "disturb", disturbed)
    s = drive.Session(dict(case, budget=case["n"] + 10), sched)
    opt = s.opt
    multi = case.get("multi", 0)
    modes = rng_of(case, "modes").choice([("global",), ("other",), ("recommend",), ("global", "other", "recommend"), ("global", "other")])
    other: tp.Any = None
    trace: tp.List[tp.Any] = []
    supported = True
    random_rec = case["opt"] == "StupidRandom"
    for step in range(case["n"]):
        if disturbed:
            if "global" in modes:
                np.random.seed(dist.randrange(2**32))
                random.seed(dist.randrange(2**32))
                mon.event("disturb-global")
            if "other" in modes and dist.random() < 0.5:
                if other is None or dist.random() < 0.1:
                    dim = dist.choice([1, 2, 4])
                    other = opts.make(dist.choice(OTHERS), spaces.build({"t": "array", "shape": [dim]}), 100, 1, dist.randrange(1000))
                    mon.event("one-dimensional-other", int(dim == 1))
                c = other.ask()
                other.tell(c, dist.random())
                mon.event("disturb-other")
            if "recommend" in modes and s.n_tell and not multi and not random_rec and dist.random() < 0.6:
                opt.provide_recommendation()
                mon.event("disturb-recommend")
        while len(s.pending) < s.workers and (not s.pending or sched.random() < 0.7):
            c = s.ask()
            mon.event("ask")
            trace.append(("ask", spaces.freeze(c.value)))
        k = sched.randrange(len(s.pending))
        noise = sched.gauss(0, 0.3)
        base = spaces.numeric_loss(s.pending[k].value) + noise
        loss: tp.Any = [base + j * sched.random() for j in range(multi)] if multi else base
        s.tell_pending(k, loss)
        if supported and sched.random() < 0.05:
            c = s.foreign_candidate()
            base = spaces.numeric_loss(c.value)
            supported = s.tell(c, [base + j * sched.random() for j in range(multi)] if multi else base, foreign=True)
            mon.event("foreign", int(supported))
            trace.append(("foreign", supported))
    if not random_rec and not multi:
        trace.append(("recommend", spaces.freeze(opt.provide_recommendation().value)))
        mon.event("recommend")
    if multi:
        front = sorted(str(spaces.freeze(c.value)) for c in opt.pareto_front())
        trace.append(("front", tuple(front)))
    return trace, modes


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    np.random.seed(12)
    random.seed(12)
    first, modes = run(case, False, mon)
    gc.collect()
    second, _ = run(case, True, mon)
    diff = next((k for k, (a, b) in enumerate(zip(first, second)) if a != b), None)
    mon.seen(case["opt"], case["space"], case["workers"], modes, diff)
    if diff is None:
        mon.check(len(first) == len(second), "length", lambda: f"{case['opt']}: {len(first)} and {len(second)} events")
        for _ in range(len(first) - 1):
            mon.check(True, "same", "")
        return
    lib = ":directsearch" if case["opt"].startswith(DIRECTSEARCH) else ":pymoo" if case["opt"] in PYMOO else ""
    mon.violate(f"{first[diff][0]}-differs{lib}", f"{case['opt']} on {case['space']}, disturbed by {modes}: event {diff} of {len(first)} is {first[diff]} and then {second[diff]}")
