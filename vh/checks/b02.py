"""B02: the real simulated executor driven by random submission/polling schedules and by real benchmark runs, against a discrete-event reference model."""
import random
import typing as tp
import warnings
import numpy as np
from .. import opts
from ..engine import Mon, rng_of, h64

RULE = "a distinct state is (driver, mode, number of workers, kind of durations, order of deliveries)"
BUDGET_S = {"quick": 45, "thorough": 400}
MIN_EVALS = 20000
HANG_IS_VIOLATION = True
NEED_EVENTS = ("submit", "poll", "delivered", "tie", "out-of-order", "refused-read", "re-read", "failing-call", "batch", "through-minimize")
ASSUMPTIONS = ["durations are those of compute_pseudotime, or 1 for plain functions; negative durations count as zero"]

KINDS = ["unit", "constant", "ties", "random", "spread", "zero", "negative", "increasing", "decreasing"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 700 if tier == "quick" else 9000
    return [dict(kind=["direct", "direct", "minimize", "experiment"][k % 4], seed=seed * 1000000 + k) for k in range(n)]


def duration(kind: str, r: random.Random, k: int) -> float:
    return {
        "unit": 1.0,
        "constant": 2.5,
        "ties": float(r.randint(1, 3)),
        "random": r.random() * 10,
        "spread": 10 ** r.uniform(-3, 3),
        "zero": float(r.choice([0, 0, 1])),
        "negative": r.choice([-1.0, 1.0, 2.0]),
        "increasing": 1.0 + k,
        "decreasing": 1000.0 / (1 + k),
    }[kind]


def timed_function(durations: tp.Callable[[float], float], log: tp.List[tp.Any]) -> tp.Any:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction

    class Timed(ExperimentFunction):
        def __init__(self) -> None:
            super().__init__(self.compute, ng.p.Array(shape=(2,)))

        def compute(self, x: tp.Any) -> float:
            log.append(np.array(x))
            return float(np.sum(np.asarray(x) ** 2))

        def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
            x = input_parameter[0][0]
            assert loss == float(np.sum(np.asarray(x) ** 2))
            return durations(float(np.asarray(x).ravel()[0]))

    return Timed()


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    r = rng_of(case)
    np.random.seed(r.randrange(2**31))
    {"direct": direct, "minimize": through, "experiment": through}[case["kind"]](case, mon, r)


def direct(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    from nevergrad.benchmark.execution import MockedTimedExecutor

    kind = r.choice(KINDS)
    batch = r.random() < 0.35
    known: tp.Dict[float, float] = {}
    log: tp.List[tp.Any] = []
    func = timed_function(lambda x: known[x], log)
    plain = kind == "unit"
    failing = r.random() < 0.2
    calls: tp.List[tp.Any] = []
    broken: tp.Set[int] = set()

    def plain_function(x: tp.Any) -> float:
        calls.append(x)
        key = int(np.asarray(x)[1])
        if failing and key % 7 == 3 and key not in broken:
            broken.add(key)
            raise ZeroDivisionError
        return float(np.sum(np.asarray(x) ** 2))

    executor = MockedTimedExecutor(batch_mode=batch)
    clock = 0.0
    jobs: tp.List[tp.Dict[str, tp.Any]] = []
    order: tp.List[int] = []
    what = f"{'batch' if batch else 'steady'} {kind}"
    for k in range(r.choice([3, 10, 40])):
        for _ in range(r.choice([0, 1, 1, 1, 3, 6])):
            x = np.array([len(jobs) + 0.5, float(len(jobs))])
            known[float(x[0])] = d = duration(kind, r, len(jobs))
            job = executor.submit(plain_function if plain else func, x)
            mon.event("submit")
            jobs.append(dict(job=job, release=clock + max(0.0, 1.0 if plain else d), loss=float(np.sum(x**2)), read=False, submitted=clock))
        unread = [j for j, i in enumerate(jobs) if not i["read"]]
        if not unread:
            continue
        head = min(unread, key=lambda j: (jobs[j]["release"], j))
        if not batch and sum(jobs[j]["release"] == jobs[head]["release"] for j in unread) > 1:
            mon.event("tie")
        for j in r.sample(range(len(jobs)), min(len(jobs), 4)):
            mon.event("poll")
            try:
                done = jobs[j]["job"].done()
            except ZeroDivisionError:
                mon.event("failing-call")
                break
            expected = batch or jobs[j]["read"] or j == head
            mon.check(done == expected, "done", lambda: f"{what}: job {j} done is {done} at time {clock}, with unread {[(i, jobs[i]['release']) for i in unread]}")
            mon.check(executor.time == clock, "time-moved-by-polling", lambda: f"{what}: time {executor.time}, expected {clock}")
        choice = r.choice(unread) if batch or r.random() < 0.2 else head
        try:
            out = jobs[choice]["job"].result()
        except ZeroDivisionError:
            mon.event("failing-call")
            continue
        except RuntimeError:
            mon.event("refused-read")
            mon.check(not batch and choice != head, "read-refused", lambda: f"{what}: job {choice} cannot be read, unread {[(i, jobs[i]['release']) for i in unread]}")
            mon.check(executor.time == clock, "time-moved-by-refusal", lambda: f"{what}: time {executor.time}, expected {clock}")
            continue
        if not mon.check(batch or choice == head, "read-too-early", lambda: f"{what}: job {choice} read, unread {[(i, jobs[i]['release']) for i in unread]}"):
            return
        info = jobs[choice]
        info["read"] = True
        clock = max(clock, info["release"])
        mon.event("batch" if batch else "delivered")
        if order and choice < order[-1]:
            mon.event("out-of-order")
        order.append(choice)
        mon.check(out == info["loss"], "other-result", lambda: f"{what}: job {choice} returns {out}, expected {info['loss']}")
        mon.check(executor.time == clock, "wrong-time", lambda: f"{what}: time {executor.time} after job {choice}, expected {clock}")
        if r.random() < 0.2:
            # reading again is harmless
            mon.event("re-read")
            again = r.choice(order)
            try:
                same = jobs[again]["job"].result() == jobs[again]["loss"] and jobs[again]["job"].done()
            except ZeroDivisionError:
                mon.event("failing-call")
                continue
            except (AssertionError, IndexError) as e:
                mon.violate("re-read-raises", f"{what}: job {again} read again: {type(e).__name__} {e}")
                continue
            mon.check(same and executor.time == clock, "re-read", lambda: f"{what}: job {again} read again: time {executor.time}, expected {clock}")
    if not plain:
        mon.check(len(log) <= len(jobs), "called-twice", lambda: f"{what}: {len(log)} calls for {len(jobs)} jobs")
    else:
        mon.check(len(calls) <= len(jobs) + len(broken), "called-twice", lambda: f"{what}: {len(calls)} calls for {len(jobs)} jobs and {len(broken)} failures")
    mon.seen("direct", batch, kind, h64(order))


def through(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random) -> None:
    """asks and tells of a real run, against the simulation of its schedule"""
    import nevergrad as ng
    from nevergrad.benchmark.execution import MockedTimedExecutor
    from nevergrad.benchmark.xpbase import Experiment

    kind = r.choice([k for k in KINDS if k not in ("increasing", "decreasing")])
    batch = r.random() < 0.4
    workers = r.choice([1, 2, 3, 5, 8])
    budget = r.choice([1, 3, 10, 25, 40])
    table = [duration(kind, r, k) for k in range(64)]
    durations = lambda x: table[int(abs(x) * 1e6) % 64]
    log: tp.List[tp.Any] = []
    func = timed_function(durations, log)
    name = r.choice(["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "TwoPointsDE", "ScrHammersleySearch"])
    events: tp.List[tp.Tuple[str, str]] = []
    releases: tp.Dict[str, float] = {}
    times: tp.List[float] = []
    if case["kind"] == "experiment":
        xp = Experiment(func, name, budget=budget, num_workers=workers, batch_mode=batch, seed=case["seed"] % 2**31)
        executor = xp.optimsettings.executor
    else:
        opt = opts.make(name, ng.p.Array(shape=(2,)), budget, workers, case["seed"])
        executor = MockedTimedExecutor(batch_mode=batch)

    values: tp.Dict[str, float] = {}

    def on_tell(o: tp.Any, c: tp.Any, loss: tp.Any) -> None:
        if isinstance(c, ng.p.MultiobjectiveReference):
            return
        events.append(("tell", c.uid))
        times.append(executor.time)
        values[c.uid] = float(np.asarray(c.args[0]).ravel()[0])

    def on_ask(o: tp.Any) -> None:
        events.append(("ask", ""))

    if case["kind"] == "experiment":
        xp._run_with_error({"ask": on_ask, "tell": on_tell})
        opt = xp._optimizer
    else:
        opt.register_callback("ask", on_ask)
        opt.register_callback("tell", on_tell)
        opt.minimize(func, executor=executor, batch_mode=batch, verbosity=0)
    what = f"{case['kind']} {name} {'batch' if batch else 'steady'} {kind} workers={workers} budget={budget}"
    asks = sum(e[0] == "ask" for e in events)
    tells = [e[1] for e in events if e[0] == "tell"]
    mon.event("through-minimize", len(tells))
    if not mon.check(asks == budget and len(tells) == budget and len(set(tells)) == budget, "lost-jobs", lambda: f"{what}: {asks} asks, {len(tells)} tells"):
        return
    calls = [float(x[0]) for x in log][:budget]
    mon.check(sorted(calls) == sorted(values[u] for u in tells), "calls", lambda: f"{what}: objective calls differ from the told candidates")
    # reference simulation, in order of submission (= order of calls)
    clock, submitted, order, expected_times = 0.0, 0, [], []
    queue: tp.List[tp.Tuple[float, int]] = []
    shape: tp.List[str] = []
    while submitted < budget or queue:
        while submitted < budget and len(queue) < workers:
            queue.append((clock + max(0.0, durations(calls[submitted])), submitted))
            submitted += 1
            shape.append("ask")
        for item in list(queue) if batch else [min(queue)]:
            queue.remove(item)
            clock = max(clock, item[0])
            order.append(item[1])
            expected_times.append(clock)
            shape.append("tell")
    if len(set(calls)) == budget:
        mon.check([values[u] for u in tells] == [calls[k] for k in order], "order-of-tells", lambda: f"{what}: told in another order than the simulated completions")
    mon.check(times == expected_times, "times", lambda: f"{what}: times of tells {times[:8]}, expected {expected_times[:8]}")
    mon.check([e[0] for e in events] == shape, "asks-and-tells", lambda: f"{what}: {[e[0] for e in events][:20]}, expected {shape[:20]}")
    mon.check(executor.time == clock, "final-time", lambda: f"{what}: final time {executor.time}, expected {clock}")
    if case["kind"] == "experiment":
        mon.check(xp.result.get("pseudotime") == clock, "pseudotime", lambda: f"{what}: pseudotime {xp.result.get('pseudotime')}, expected {clock}")
    mon.seen(case["kind"], batch, kind, workers, h64(order))
