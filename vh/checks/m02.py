"""M02: minimize runs broken by injected faults (objective, executor, callbacks, stop requests, clock jumps) and resumed, with an offline exactly-once checker over the event log."""
import time
import typing as tp
from .. import drive, minim, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, executor kind, batch mode, kind and moment of each interruption (number of points in flight, "
    "number told, log scale)): an interrupted run which was resumed"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 3000
NEED_EVENTS = ("fault-call", "fault-submit", "fault-ask", "fault-tell", "stop", "timeout", "resumed", "interrupt-in-flight", "keyboard-interrupt")
LOSSY = {"DE", "TwoPointsDE", "PSO", "CMA", "DiagonalCMA", "OnePlusOne", "TBPSA", "RandomSearch", "ScrHammersleySearch", "ES", "RecES", "DiscreteOnePlusOne", "EDA", "cGA", "NoisyDE", "QrDE", "LHSSearch", "NaiveTBPSA"}
CASE_TIMEOUT = 90
HANG_IS_VIOLATION = True
ASSUMPTIONS = [
    "the time limit is exercised with a fake clock which jumps at planned objective calls, no verdict depends on real time",
    "with the default sequential executor an evaluation which failed is attempted again when minimize is called again",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    kinds = ["sched", "none", "thread"]
    names = opts.usable()
    for k in range(1 if tier == "quick" else 5):
        for i, n in enumerate(names):
            j = i + k + seed
            sp = ["arr3", "mix", "bnd2", "tch"][j % 4]
            if n.startswith("ImageMetaModel") or n in opts.NOT_1D:
                sp = "arr3"
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [3, 1, 5][(j // 4) % 3], budget=[18, 7, 30][j % 3], ex=kinds[(j // 3) % 3], batch=(j // 2) % 2, seed=seed * 1000 + k))
    for k in range(6 if tier == "quick" else 60):
        for i, n in enumerate(opts.basic()):
            j = i + k + seed
            out.append(
                dict(opt=n, space=["arr3", "mix", "bnd2", "tch"][(i + k // 2) % 4], workers=1 if opts.no_parallel(n) else [6, 1, 3, 2][k % 4], budget=[25, 12, 40][(i + k) % 3],
                     ex=kinds[(j + i // 5) % 3], batch=(k // 3) % 2, seed=seed * 1000 + 50 + k, viol=int(k % 5 == 1), lossy=int(n in LOSSY))
            )  # fmt: skip
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    spec = drive.spec_of(case)
    opt = minim.build(case, spec)
    workers, budget = opt.num_workers, case["budget"]
    import nevergrad as ng

    # plan: at which call, submission, ask or tell something happens, and what
    plan: tp.Dict[str, tp.Dict[str, str]] = {}
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        where = r.choice(["call", "call", "call", "submit", "ask", "tell"])
        if where == "submit" and not case.get("lossy"):
            where = "call"  # a point which was asked and can not be submitted is lost: sequential optimizers wait for it
        what = "error"
        if where in ("ask", "tell") and r.random() < 0.4:
            what = "stop"
        elif where == "call" and r.random() < 0.3:
            what = "timeout"
        elif where == "call" and case["ex"] == "none" and r.random() < 0.3:
            what = "interrupt"
        plan.setdefault(where, {})[str(r.randrange(budget))] = what
    clock = {"offset": 0.0}

    def jump() -> None:
        clock["offset"] += 1e6

    def stop() -> None:
        raise ng.errors.NevergradEarlyStopping("planned stop")

    def hit(what: str) -> None:
        rec.log.add("fault", what, where_now[0])

    where_now = [""]
    faults = minim.Faults(plan, hit, {"timeout": jump, "stop": stop})
    raw_at = faults.at

    def at(where: str) -> None:
        where_now[0] = where
        raw_at(where)

    faults.at = at  # type: ignore
    rec = minim.Recorder(opt, r, case["ex"], workers, faults)
    opt.register_callback("ask", lambda *_: faults.at("ask"))
    opt.register_callback("tell", lambda *_: faults.at("tell"))
    func = rec.objective(1, noise=False)
    kwargs: tp.Dict[str, tp.Any] = dict(batch_mode=bool(case["batch"]), verbosity=0, max_time=1e5)
    if case.get("viol"):
        kwargs["constraint_violation"] = [lambda v: 0.0]
    if case["ex"] == "none":
        rec.inner = None
    real_time = time.time
    who = f"{case['opt']} budget {budget} workers {workers} executor {case['ex']} batch {case['batch']} plan {plan}"
    stuck = 0
    n_runs = 0
    done_calls = -1
    try:
        time.time = lambda: real_time() + clock["offset"]  # type: ignore
        while True:
            n_runs += 1
            before = len(rec.log.events)
            error: tp.Optional[BaseException] = None
            try:
                rec.minimize(func, **kwargs)
            except (minim.Planned, KeyboardInterrupt) as e:
                error = e
            except ng.errors.NevergradEarlyStopping:
                # stop requests are only expected to be handled when raised while asking
                error = minim.Planned("stop")
            new = rec.log.events[before:]
            hits = [e for e in new if e[0] == "fault"]
            asks = sum(e[0] == "ask" for e in rec.log.events)
            tells = sum(e[0] == "tell" for e in rec.log.events)
            mon.check(opt.num_ask == asks, "num-ask", lambda: f"{who}: num_ask {opt.num_ask} after {asks} asks")
            mon.check(opt.num_tell == tells, "num-tell", lambda: f"{who}: num_tell {opt.num_tell} after {tells} tells")
            mon.check(asks <= budget, "over-budget", lambda: f"{who}: {asks} asks")
            for h in hits:
                mon.event("timeout" if h[1] == "timeout" else ("stop" if h[1] == "stop" else f"fault-{h[2]}"))
                mon.event("keyboard-interrupt", int(h[1] == "interrupt"))
                mon.seen(case["opt"], case["ex"], case["batch"], h[1], h[2], asks - tells, tells.bit_length(), n_runs)
            if asks - tells:
                mon.event("interrupt-in-flight")
            planned_error = any(h[1] in ("error", "interrupt") for h in hits)
            if case["ex"] != "none":
                # the error of a failed job can be raised later, and again
                earlier = [e for e in rec.log.events if e[0] == "fault" and (e[1] in ("error", "interrupt") or e[1:] == ("stop", "tell"))]
                mon.check(error is None or bool(earlier), "unexpected-error", lambda: f"{who}: raised {error!r} without fault")
            else:
                # evaluated in the calls of minimize: the error must be the one of this call
                want_error = planned_error or any(h[1] == "stop" and h[2] == "tell" for h in hits)
                mon.check(want_error or error is None or stuck > 0, "unexpected-error", lambda: f"{who}: raised {error!r} without fault in this call")
                mon.check(not planned_error or error is not None, "error-swallowed", lambda: f"{who}: {hits}, but minimize returned")
            if error is None and not hits:
                break
            mon.event("resumed")
            # a job which failed in an executor is kept and raises again: nothing can progress, this is the end of the run
            if error is not None and not hits and tells == done_calls:
                stuck += 1
                if stuck >= 2:
                    break
            else:
                stuck = 0
            done_calls = tells
            if n_runs > 30:
                mon.violate("no-end", f"{who}: 30 resumed runs did not end")
                break
    finally:
        time.time = real_time  # type: ignore
        rec.close()
    ev = rec.log.events
    asked = {e[1]: e[2] for e in ev if e[0] == "ask"}
    returned: tp.Dict[str, tp.List[float]] = {}
    for e in ev:
        if e[0] == "return":
            returned.setdefault(str(e[2]), []).append(e[3])
    told: tp.Dict[str, int] = {}
    for e in ev:
        if e[0] != "tell":
            continue
        told[e[1]] = told.get(e[1], 0) + 1
        if mon.check(e[1] in asked, "foreign-told", lambda: f"{who}: told a point which was not asked"):
            mine = returned.get(str(asked[e[1]]), [])
            mon.check(e[2] in mine, "wrong-loss", lambda: f"{who}: {asked[e[1]]} told {e[2]}, its successful evaluations gave {mine}")
    mon.check(all(n == 1 for n in told.values()), "told-twice", lambda: f"{who}: {[n for n in told.values() if n > 1]}")
    if not stuck:
        # everything which was submitted and succeeded is told: only asks and submissions which failed lose their point
        lost = len(asked) - len(told)
        # without executor, submission can not fail; a failed submission loses the point which was just asked
        failed_submit = sum(e[0] == "fault" and e[1] == "error" and e[2] == "submit" for e in ev)
        mon.check(lost == failed_submit, "lost-evaluation", lambda: f"{who}: {len(asked)} asked, {len(told)} told, {failed_submit} failed submissions")
        n_stop = sum(e[0] == "fault" and e[1] == "stop" and e[2] == "ask" for e in ev)
        mon.check(len(asked) == budget or n_stop > 0, "budget-not-used", lambda: f"{who}: only {len(asked)} asks after all the resumed runs")
        if len(asked) == budget:
            mon.event("budget-completed")
