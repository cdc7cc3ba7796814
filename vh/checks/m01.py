"""M01: event log of complete minimize runs (scheduled, threaded and default executors, batch or not) checked for exactly-once accounting."""
import typing as tp
from .. import drive, minim, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, executor kind, workers, batch mode, order in which the evaluations were told relative to "
    "the order in which they were asked, hashed): a complete run with its own interleaving"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 3000
NEED_EVENTS = ("submit", "tell", "out-of-order", "batch-run", "threaded-run", "single-budget", "multi-objective-run")
CASE_TIMEOUT = 90
HANG_IS_VIOLATION = True
ASSUMPTIONS = [
    "evaluations are matched to asked points by object-independent arguments and by submission order",
    "the thread pool runs use real threads with injected delays of 0 to 2 ms",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    kinds = ["sched", "none", "reverse", "thread"]
    names = opts.usable()
    for k in range(1 if tier == "quick" else 6):
        for i, n in enumerate(names):
            j = i + k + seed
            sp = ["arr3", "mix", "bnd2", "dct", "tch"][j % 5]
            if n.startswith("ImageMetaModel") or n in opts.NOT_1D:
                sp = "arr3"
            out.append(
                dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [3, 1, 5, 2][(j // 5) % 4], budget=[13, 21, 1, 8, 30][j % 5 if j % 5 != 2 else (j // 3) % 5],
                     ex=kinds[j % 4], batch=(j // 2) % 2, verb=[0, 0, 1, 2][(j // 7) % 4], seed=seed * 1000 + k, obj=1)
            )  # fmt: skip
    basic = [n for n in opts.basic()]
    for k in range(3 if tier == "quick" else 30):
        for i, n in enumerate(basic):
            j = i * 7 + k + seed
            out.append(
                dict(opt=n, space=["arr3", "mix", "bnd2", "dct", "tch"][j % 5], workers=1 if opts.no_parallel(n) else [8, 2, 1, 4][k % 4], budget=[40, 3, 57, 1, 10][(i + k) % 5],
                     ex=kinds[(j // 5) % 4], batch=j % 2, verb=0, seed=seed * 1000 + 50 + k, obj=1 if j % 3 else 2, viol=int(j % 4 == 0))
            )  # fmt: skip
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    spec = drive.spec_of(case)
    opt = minim.build(case, spec)
    workers, budget = opt.num_workers, case["budget"]
    rec = minim.Recorder(opt, r, case["ex"], workers)
    func = rec.objective(case["obj"], noise=r.random() < 0.5)
    kwargs: tp.Dict[str, tp.Any] = dict(batch_mode=bool(case["batch"]), verbosity=case["verb"])
    if case.get("viol"):
        kwargs["constraint_violation"] = [lambda v: spaces.numeric_loss(v) % 1.0 - 0.5, lambda v: -1.0]
    try:
        out = rec.minimize(func, **kwargs)
    finally:
        rec.close()
    ev = rec.log.events
    who = f"{case['opt']} budget {budget} workers {workers} executor {case['ex']} batch {case['batch']}"
    asks = [e for e in ev if e[0] == "ask"]
    calls = [e for e in ev if e[0] == "return"]
    tells = [e for e in ev if e[0] == "tell"]
    mon.check(len(asks) == budget, "ask-count", lambda: f"{who}: {len(asks)} asks")
    mon.check(len(calls) == budget and rec.n_call == budget, "call-count", lambda: f"{who}: the objective was called {rec.n_call} times")
    mon.check(len(tells) == budget, "tell-count", lambda: f"{who}: {len(tells)} tells")
    mon.check(opt.num_ask == budget and opt.num_tell == budget, "counters", lambda: f"{who}: num_ask {opt.num_ask} num_tell {opt.num_tell}")
    mon.check(len({e[1] for e in asks}) == len(asks), "asked-twice", lambda: f"{who}: a candidate was asked twice")
    # points are evaluated where asked, each told once with its own loss
    point = {e[1]: e[2] for e in asks}
    told: tp.Dict[str, int] = {}
    mon.check(sorted(map(str, point.values())) == sorted(str(e[2]) for e in calls), "evaluated-points", lambda: f"{who}: evaluated points are not the asked ones")
    losses: tp.Dict[str, tp.List[tp.Any]] = {}
    for e in calls:
        losses.setdefault(str(e[2]), []).append(minim.lists(e[3]))
    for e in tells:
        told[e[1]] = told.get(e[1], 0) + 1
        if not mon.check(e[1] in point, "foreign-told", lambda: f"{who}: told {e[1]} which was not asked"):
            continue
        mine = losses.get(str(point[e[1]]), [])
        got = minim.lists(e[2])
        if mon.check(got in mine, "wrong-loss", lambda: f"{who}: point {point[e[1]]} told {got}, its evaluations gave {mine}"):
            mine.remove(got)
        if case.get("viol"):
            c = next(c for c in rec.asked if c.uid == e[1])
            want = tuple(f(c.value) for f in kwargs["constraint_violation"])
            mon.check(e[3] == want, "wrong-violation", lambda: f"{who}: violations {e[3]} told instead of {want}")
    mon.check(all(n == 1 for n in told.values()) and len(told) == budget, "told-once", lambda: f"{who}: {sorted(told.values())[-3:]}")
    # pending evaluations over time; in batch mode, nothing is submitted while an evaluation of the previous batch is untold
    asked_n = told_n = 0
    since_tell = 0
    order: tp.List[int] = []
    position = {e[1]: k for k, e in enumerate(asks)}
    submitted: tp.List[tp.Any] = []
    for e in ev:
        if e[0] == "ask":
            asked_n += 1
            since_tell += 1
            mon.check(asked_n - told_n <= workers, "too-many-pending", lambda: f"{who}: {asked_n - told_n} pending")
            if case["batch"]:
                mon.check(asked_n - told_n <= since_tell, "batch-overlap", lambda: f"{who}: a point is asked while {asked_n - told_n - since_tell} of the previous batch are untold")
            submitted.append(e[2])
        elif e[0] == "tell":
            told_n += 1
            since_tell = 0
            order.append(position.get(e[1], -1))
            mon.event("tell")
        elif e[0] == "submit":
            mon.event("submit")
            mon.check(bool(submitted) and submitted[-1] == e[1], "submitted-point", lambda: f"{who}: submitted {e[1]} after asking {submitted[-1:]}")
    if order != sorted(order):
        mon.event("out-of-order")
    if budget == 1:
        mon.event("single-budget")
    mon.event("batch-run", int(case["batch"]))
    mon.event("threaded-run", int(case["ex"] == "thread"))
    mon.event("multi-objective-run", int(case["obj"] > 1))
    mon.seen(case["opt"], case["ex"], workers, case["batch"], tuple(order))
    if case["obj"] == 1:
        again = opt.provide_recommendation()
        if not spaces.same(again.value, opt.provide_recommendation().value, 1e-9, 1e-12):
            mon.event("random-recommendation")  # StupidRandom recommends new random points by design
            return
        mon.check(spaces.same(out.value, again.value, 1e-9, 1e-12), "recommendation", lambda: f"{who}: minimize returned {out.value}, then the recommendation is {again.value}")
