"""A05: points evaluated elsewhere told at random moments of runs of all optimizers, with shadow counters, best point and liveness monitors."""
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, space, moment of the foreign tell: before the first ask / with n points in flight / "
    "after k tells (log), accepted or refused, single or multi-objective): a foreign tell followed by a working run"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 3000
NEED_EVENTS = ("foreign-accepted", "foreign-refused", "foreign-first", "foreign-in-flight", "foreign-best")
CASE_TIMEOUT = 60
HANG_IS_VIOLATION = True
MULTI = ["OnePlusOne", "DE", "TwoPointsDE", "PSO", "CMA", "RandomSearch", "ES", "MixES", "LhsDE", "NGOpt", "MultiDE" , "NonNSGAIIES", "RecMixES", "GeneticDE", "DiscreteOnePlusOne"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = opts.usable()
    for k in range(1 if tier == "quick" else 8):
        for i, n in enumerate(names):
            sp = ["arr3", "mix", "bnd2", "dct", "tch", "int"][(i + k + seed) % 6]
            if n in opts.NOT_1D and sp in opts.ONE_DIM or n.startswith("ImageMetaModel"):
                sp = ["arr3", "arr2x2", "bnd2"][k % 3]  # the image algorithms only take arrays
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [4, 1, 2][(i + k + seed) % 3], seed=seed * 1000 + k, n=45, first=(i // 3 + k) % 2))
    # long runs: populations are full, generations change while foreign points arrive
    for k in range(1 if tier == "quick" else 12):
        for i, n in enumerate(opts.core()):
            sp = ["arr3", "mix", "bnd2"][(i + k + seed) % 3]
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [1, 6][(i + k) % 2], seed=seed * 1000 + 100 + k, n=160, first=k % 2))
    have = set(opts.registered())
    for k in range(4 if tier == "quick" else 16):
        for i, n in enumerate(x for x in MULTI if x in have):
            out.append(dict(opt=n, space=["arr3", "mix"][(i + k) % 2], workers=[1, 5][k % 2], seed=seed * 1000 + 200 + k, n=150, first=k % 2, multi=2 + k % 2))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    s = drive.Session(dict(case, budget=case["n"] + 10), r)
    opt = s.opt
    multi = case.get("multi", 0)
    best: tp.Optional[float] = None
    supported = True

    def loss(c: tp.Any) -> tp.Any:
        base = spaces.numeric_loss(c.value)
        if multi:
            return [base + k + r.random() for k in range(multi)]
        return base + 0.1 * r.random()

    def foreign() -> None:
        nonlocal supported, best
        c = s.foreign_candidate()
        x = loss(c)
        if not multi and r.random() < 0.25 and best is not None:
            x = best - 1 - r.random()
        when = "first" if not s.n_ask else min(len(s.pending), 3)
        before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked)
        ok = s.tell(c, x, foreign=True)
        mon.event("foreign-accepted" if ok else "foreign-refused")
        if when == "first":
            mon.event("foreign-first")
        elif s.pending:
            mon.event("foreign-in-flight")
        mon.seen(case["opt"], s.spec["t"], when, int(np.log2(1 + s.n_tell)), ok, multi)
        want = (before[0], before[1] + ok, before[2] + ok)
        got = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked)
        mon.check(got == want, "counters", lambda: f"{case['opt']}: foreign tell (accepted: {ok}): counters {before} -> {got}")
        if ok and not multi:
            mon.check(c.loss == x, "recorded-loss", lambda: f"told {x}, recorded {c.loss}")
            if best is None or x < best:
                mon.event("foreign-best")
                cur = opt.current_bests["minimum"]
                mon.check(
                    cur.get_estimation("minimum") <= x, "foreign-does-not-compete",
                    lambda: f"{case['opt']}: foreign point with loss {x} told, but best minimum is {cur.get_estimation('minimum')}",
                )  # fmt: skip
            best = x if best is None else min(x, best)
        elif ok:
            if r.random() < 0.3:
                opt.pareto_front()
        else:
            supported = False

    for step in range(case["n"]):
        if (step == 0 and case["first"]) or (supported and r.random() < 0.2):
            foreign()
            if not supported and step == 0:  # refused before anything else: the optimizer must be usable
                supported = False
        while len(s.pending) < s.workers and (r.random() < 0.7 or not s.pending):
            c = s.ask()
            prob = spaces.problem(s.spec, c.value)
            mon.check(prob is None, "domain", lambda: f"{case['opt']} asks {c.value} after foreign tells: {prob}")
        k = r.randrange(len(s.pending))
        x = loss(s.pending[k])
        s.tell_pending(k, x)
        if not multi:
            best = x if best is None else min(x, best)
            # repeated evaluations of a point may be averaged for other estimates, never for the minimum
            if supported or not s.n_foreign:
                got = opt.current_bests["minimum"].get_estimation("minimum")
                mon.check(got <= best + 1e-12, "best-lost", lambda: f"{case['opt']}: smallest told loss is {best}, best minimum is {got}")
        if step % 10 == 9 and not multi:
            rec = opt.provide_recommendation()
            prob = spaces.problem(s.spec, rec.value)
            mon.check(prob is None, "recommendation-domain", lambda: f"{case['opt']} recommends {rec.value}: {prob}")
