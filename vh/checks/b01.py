"""B01: instrumented experiment plans run through the real chunks under random splits, interruptions, resumptions and executors; exactly-once oracle over the executions and the rows."""
import contextlib
import io
import math
import os
import pickle
import random
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (plan size, repetitions, cap, seeded, sizes of the leaves of the split, number of interruptions)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 8000
CASE_TIMEOUT = 120
NEED_EVENTS = ("split", "leaf", "experiment", "interrupted-objective", "interrupted-print", "resumed", "row", "parallel", "failing-experiment", "uneven-split", "empty-leaf")
ASSUMPTIONS = ["interruptions are exceptions raised by the objective or by the processing function, as a user's interruption or a failing machine would; the interpreter's internals are not interrupted"]

EXECUTIONS: tp.List[tp.Any] = []  # (experiment, repetition seed) of each successful call of an objective
INTERRUPTS: tp.Dict[str, tp.Any] = {"plan": [], "count": 0}


class Interruption(KeyboardInterrupt):
    pass


def probe_class() -> tp.Any:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction

    class Probe(ExperimentFunction):
        def __init__(self, number: int, fails: bool = False) -> None:
            super().__init__(self.compute, ng.p.Array(shape=(2,)))
            self.number, self.fails = number, fails
            self.add_descriptors(number=number, fails=fails)

        def compute(self, x: tp.Any) -> float:
            INTERRUPTS["count"] += 1
            if INTERRUPTS["count"] in INTERRUPTS["plan"]:
                raise Interruption
            if self.fails:
                raise ZeroDivisionError("failing function")
            EXECUTIONS.append((self.number, tuple(np.asarray(x))))
            return float(np.sum((np.asarray(x) - self.number) ** 2))

        def evaluation_function(self, *recommendations: tp.Any) -> float:
            x = np.asarray(recommendations[0].value)
            return float(np.sum((x - self.number) ** 2))

    return Probe


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 300 if tier == "quick" else 4000
    kinds = ["indices", "indices", "compute", "compute", "parallel", "moduler"]
    return [dict(kind="numpy_seed", seed=seed * 1000000)] + [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    r = rng_of(case)
    np.random.seed(r.randrange(2**31))
    if case["kind"] == "moduler":
        return moduler(mon, r)
    from nevergrad.benchmark import registry
    from nevergrad.benchmark.xpbase import Experiment, create_seed_generator

    Probe = probe_class()
    size = r.choice([1, 2, 3, 5, 8, 13])
    settings = [
        dict(optimizer=r.choice(["OnePlusOne", "RandomSearch", "DE"]), budget=r.randint(1, 6), num_workers=r.choice([1, 1, 2, 3]), batch_mode=r.random() < 0.5, fails=r.random() < 0.15)
        for _ in range(size)
    ]
    made: tp.List[int] = []

    def plan(seed: tp.Optional[int] = None) -> tp.Iterator[tp.Any]:
        seedg = create_seed_generator(seed)
        for k, s in enumerate(settings):
            made.append(k)
            kwargs = {key: val for key, val in s.items() if key != "fails"}
            xseed = next(seedg)  # the seeds are numpy integers, see numpy_seed
            if xseed is not None and case["kind"] != "numpy_seed":
                xseed = int(xseed)
            yield Experiment(Probe(k, fails=s["fails"]), seed=xseed, **kwargs)

    name = f"verif_plan_{case['seed']}"
    registry[name] = plan
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            {"indices": indices, "compute": compute, "parallel": parallel, "numpy_seed": numpy_seed}[case["kind"]](mon, r, name, settings)
    finally:
        del registry[name]
        INTERRUPTS.update(plan=[], count=0)
        EXECUTIONS.clear()


def chunk_of(r: random.Random, name: str, seeded: bool) -> tp.Tuple[tp.Any, tp.Dict[str, tp.Any]]:
    from nevergrad.benchmark.core import BenchmarkChunk

    kwargs: tp.Dict[str, tp.Any] = dict(name=name, repetitions=r.choice([1, 1, 2, 3]), seed=r.randint(0, 10**6) if seeded else None)
    if r.random() < 0.3:
        kwargs["cap_index"] = r.choice([1, 2, 4, 100])
    return BenchmarkChunk(**kwargs), kwargs


def leaves_of(mon: Mon, r: random.Random, chunk: tp.Any, depth: int = 0) -> tp.List[tp.Any]:
    if depth == 3 or depth and r.random() < 0.5:
        return [chunk]
    n = r.choice([1, 2, 3, 5, 8])
    parts = chunk.split(n)
    mon.event("split")
    mon.check(len(parts) == n, "number-of-parts", lambda: f"{len(parts)} parts instead of {n}")
    mon.check(sum(len(p) for p in parts) == len(chunk), "lengths", lambda: f"{chunk}: {len(chunk)} experiments split into {[len(p) for p in parts]}")
    if len({len(p) for p in parts}) > 1:
        mon.event("uneven-split")
    mon.check(max(len(p) for p in parts) - min(len(p) for p in parts) <= 1, "unbalanced", lambda: f"{chunk} split into {[len(p) for p in parts]}")
    return [leaf for p in parts for leaf in leaves_of(mon, r, p, depth + 1)]


def signature(xp: tp.Any) -> tp.Tuple[tp.Any, ...]:
    d = xp.get_description()
    return tuple((k, str(d[k])) for k in ("number", "optimizer_name", "budget", "num_workers", "batch_mode", "seed"))


def indices(mon: Mon, r: random.Random, name: str, settings: tp.Any) -> None:
    chunk, kwargs = chunk_of(r, name, r.random() < 0.8)
    reference = {k: signature(xp) for k, xp in chunk}
    cap = min(len(settings), max(1, kwargs.get("cap_index") or 10**9))
    total = cap * kwargs["repetitions"]
    mon.check(sorted(reference) == list(range(total)) and len(chunk) == total, "plan-size", lambda: f"{kwargs}: indices {sorted(reference)}, expected {total}")
    for k, sig in reference.items():
        mon.check(dict(sig)["number"] == str(k % cap), "plan-order", lambda: f"{kwargs}: experiment {k} is {sig}")
    if kwargs["seed"] is not None:
        seeds = [dict(sig)["seed"] for sig in reference.values()]
        mon.check(len(set(seeds)) == len(seeds), "repeated-seed", lambda: f"{kwargs}: seeds {seeds}")
    leaves = leaves_of(mon, r, chunk)
    seen: tp.Dict[int, int] = {}
    for leaf in leaves:
        mon.event("leaf")
        content = list(leaf)
        if not content:
            mon.event("empty-leaf")
        mon.check(len(content) == len(leaf), "length", lambda: f"{leaf}: {len(content)} experiments, announced {len(leaf)}")
        for k, xp in content:
            mon.event("experiment")
            seen[k] = seen.get(k, 0) + 1
            mon.check(signature(xp) == reference.get(k), "other-experiment", lambda: f"{leaf}: experiment {k} is {signature(xp)}, in the plan {reference.get(k)}")
    mon.check(seen == {k: 1 for k in range(total)}, "not-a-partition", lambda: f"{kwargs}: {[repr(x) for x in leaves]}: {seen}")
    ids = [leaf.id for leaf in leaves]
    mon.check(len(set(ids)) == len(ids), "same-id", lambda: f"ids {ids}")
    mon.seen("indices", len(settings), kwargs["repetitions"], kwargs.get("cap_index"), tuple(len(x) for x in leaves))


def rows_of(selector: tp.Any) -> tp.List[tp.Dict[str, tp.Any]]:
    return [{k: v for k, v in row.items() if k != "elapsed_time"} for row in selector.to_dict("records")]


def key_of(row: tp.Dict[str, tp.Any]) -> str:
    return repr(sorted((k, str(v)) for k, v in row.items() if not (isinstance(v, float) and math.isnan(v))))


def compute(mon: Mon, r: random.Random, name: str, settings: tp.Any) -> None:
    seeded = r.random() < 0.8
    chunk, kwargs = chunk_of(r, name, seeded)
    expected = []
    if seeded:
        from nevergrad.benchmark.core import BenchmarkChunk

        expected = rows_of(BenchmarkChunk(**kwargs).compute())
    EXECUTIONS.clear()
    cap = min(len(settings), max(1, kwargs.get("cap_index") or 10**9))
    total = cap * kwargs["repetitions"]
    leaves = leaves_of(mon, r, chunk) if r.random() < 0.7 else [chunk]
    INTERRUPTS.update(plan=sorted(r.sample(range(1, 60), r.choice([0, 1, 3, 8]))), count=0)
    print_faults = set(r.sample(range(40), r.choice([0, 1, 5])))
    processed: tp.List[tp.Any] = []
    prints = [0]

    def process(c: tp.Any, xp: tp.Any) -> None:
        prints[0] += 1
        if prints[0] in print_faults:
            mon.event("interrupted-print")
            raise Interruption
        processed.append(signature(xp))

    rows: tp.List[tp.Dict[str, tp.Any]] = []
    interruptions = 0
    touched: tp.Set[int] = set()  # leaf rows whose optimization was interrupted
    for leaf in leaves:
        dirty: tp.Set[int] = set()
        for _ in range(100):
            before = INTERRUPTS["count"]
            try:
                out = leaf.compute(process)
                break
            except Interruption:
                interruptions += 1
                mon.event("resumed")
                if INTERRUPTS["count"] in INTERRUPTS["plan"]:
                    mon.event("interrupted-objective")
                    dirty.add(len(leaf.summaries))
                if r.random() < 0.3:
                    # a checkpoint of the interrupted chunk
                    pass
        got = rows_of(out)
        mon.check(len(got) == len(leaf), "rows", lambda: f"{leaf}: {len(got)} rows for {len(leaf)} experiments")
        again = rows_of(leaf.compute(process))
        mon.check([key_of(x) for x in again] == [key_of(x) for x in got], "computed-again", lambda: f"{leaf}: computing again gives {again}, expected {got}")
        for k, row in enumerate(got):
            mon.event("row")
            row["interrupted"] = k in dirty
            rows.append(row)
    mon.check(len(rows) == total, "rows", lambda: f"{kwargs}: {len(rows)} rows for {total} experiments")
    numbers = sorted(row["number"] for row in rows)
    mon.check(numbers == sorted(k % cap for k in range(total)), "experiments", lambda: f"{kwargs}: experiments {numbers}")
    per: tp.Dict[int, int] = {}
    for number, _ in EXECUTIONS:
        per[number] = per.get(number, 0) + 1
    for k in range(cap):
        want = 0 if settings[k]["fails"] else settings[k]["budget"] * kwargs["repetitions"]
        mon.check(per.get(k, 0) == want, "executions", lambda: f"{kwargs}: {per.get(k, 0)} successful evaluations of experiment {k}, expected {want} after {interruptions} interruptions")
    for row in rows:
        fails = settings[row["number"]]["fails"]
        if fails:
            mon.event("failing-experiment")
        mon.check(row["error"] == ("ZeroDivisionError" if fails else ""), "error", lambda: f"{row}")
        s = settings[row["number"]]
        mon.check(row["budget"] == s["budget"] and row["num_workers"] == s["num_workers"] and row["optimizer_name"] == s["optimizer"], "settings", lambda: f"{row}, expected {s}")
        mon.check(fails or row["elapsed_budget"] == s["budget"], "elapsed-budget", lambda: f"{row}, expected {s}")
    if seeded:
        want_rows = {row["seed"]: row for row in expected}
        mon.check(sorted(want_rows) == sorted(row["seed"] for row in rows), "seeds", lambda: f"{kwargs}: seeds {sorted(row['seed'] for row in rows)}, expected {sorted(want_rows)}")
        for row in rows:
            if row.pop("interrupted") or row["seed"] not in want_rows:
                continue  # documented: reproducibility is lost when resuming within an experiment
            mon.check(key_of(row) == key_of(want_rows[row["seed"]]), "other-result", lambda: f"{kwargs}: row {row}, unsplit {want_rows[row['seed']]}")
    mon.check(len(processed) == total, "processed", lambda: f"{len(processed)} processed experiments for {total}")
    mon.seen("compute", len(settings), kwargs["repetitions"], seeded, tuple(len(x) for x in leaves), interruptions)


class ForkJob:
    def __init__(self, fn: tp.Callable[..., tp.Any], args: tp.Any) -> None:
        read, write = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(read)
                data = pickle.dumps(fn(*args).to_dict("records"))
                with os.fdopen(write, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(write)
        self.read = read

    def result(self) -> tp.Any:
        from nevergrad.benchmark.utils import Selector

        with os.fdopen(self.read, "rb") as f:
            data = f.read()
        os.waitpid(self.pid, 0)
        return Selector(data=pickle.loads(data))

    def done(self) -> bool:
        return True


class ForkExecutor:
    def submit(self, fn: tp.Callable[..., tp.Any], *args: tp.Any) -> ForkJob:
        return ForkJob(fn, args)


class LazyExecutor:
    """runs the jobs in another order than their submission"""

    def __init__(self, r: random.Random) -> None:
        self.r = r
        self.jobs: tp.List[tp.Any] = []

    def submit(self, fn: tp.Callable[..., tp.Any], *args: tp.Any) -> tp.Any:
        outer = self

        class Job:
            out: tp.Any = None

            def run(self) -> None:
                if self.out is None:
                    self.out = fn(*args)

            def result(self) -> tp.Any:
                for j in outer.r.sample(outer.jobs, len(outer.jobs)):
                    j.run()
                return self.out

            def done(self) -> bool:
                return True

        self.jobs.append(Job())
        return self.jobs[-1]


def parallel(mon: Mon, r: random.Random, name: str, settings: tp.Any) -> None:
    from nevergrad.benchmark import core

    kwargs: tp.Dict[str, tp.Any] = dict(seed=r.randint(0, 10**6))
    if r.random() < 0.3:
        kwargs["cap_index"] = r.choice([1, 3, 100])
    expected = sorted(key_of(x) for x in rows_of(core.compute(name, **kwargs)))
    cap = min(len(settings), kwargs.get("cap_index", 100))
    mon.check(len(expected) == cap, "rows", lambda: f"{kwargs}: {len(expected)} rows for {cap} experiments")
    for workers in (r.choice([1, 2]), r.choice([3, 7])):
        workers = min(workers, cap)
        for executor in (ForkExecutor(), LazyExecutor(r)):
            np.random.seed(r.randrange(2**31))
            got = sorted(key_of(x) for x in rows_of(core.compute(name, num_workers=workers, executor=executor, **kwargs)))
            mon.event("parallel")
            mon.check(got == expected, "parallel-differs", lambda: f"{kwargs} with {workers} workers and {type(executor).__name__}: {got} instead of {expected}")
    mon.seen("parallel", len(settings), kwargs.get("cap_index"), workers)


def moduler(mon: Mon, r: random.Random) -> None:
    from nevergrad.benchmark.core import Moduler

    total = r.choice([0, 1, 2, 7, 60, r.randint(0, 400)])
    parts = [Moduler(1, 0, total_length=total)]
    for _ in range(r.randint(1, 5)):
        k = r.randrange(len(parts))
        n = r.randint(1, 9)
        parts[k : k + 1] = parts[k].split(n)
        mon.event("split")
    owners = [[j for j, part in enumerate(parts) if part(i)] for i in range(total)]
    for i, owner in enumerate(owners):
        mon.check(len(owner) == 1, "not-a-partition", lambda: f"index {i} of {total} selected by {len(owner)} of {parts}")
    for j, part in enumerate(parts):
        count = sum(o == [j] for o in owners)
        mon.check(len(part) == count, "length", lambda: f"{part}: {count} indices, announced {len(part)}")
    mon.seen("moduler", total, len(parts))


def numpy_seed(mon: Mon, r: random.Random, name: str, settings: tp.Any) -> None:
    """seeds as delivered by the seed generator"""
    from nevergrad.benchmark import core

    INTERRUPTS.update(plan=[], count=0)
    rows = rows_of(core.compute(name, seed=12))
    mon.check(len(rows) == len(settings), "rows", lambda: f"{len(rows)} rows")
    for row in rows:
        mon.check(row["error"] != "TypeError", "numpy-seed:TypeError", lambda: f"an experiment with a seed of create_seed_generator fails: {row}")
