"""L01: runs of the real optimizers with their logging callbacks, in one or several processes ended abruptly, under a controlled clock; offline checker of the log files, dumps and printed lines against the history of tells recorded by an independent monitor callback."""
import contextlib
import gc
import io
import json
import logging
import math
import os
import pickle
import re
import shutil
import sys
import tempfile
import types
import typing as tp
import warnings
from pathlib import Path
from unittest import mock
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (optimizer, kind of space, number of objectives, how tells were issued and processes ended, interval and clock jumps of the printed lines)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 10000
NEED_EVENTS = ("record", "process", "dump", "line", "silent-tell", "multiobjective", "flattened", "odd-value", "foreign-tell", "progress", "resumed")
ASSUMPTIONS = [
    "tell callbacks are called before the tell is accounted for (as the existing tests expect): counts are those of the completed tells",
    "tqdm and hiplot are not installed here: recording stand-ins with their documented calls are used",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 540 if tier == "quick" else 7000
    kinds = ["log", "log", "log", "restart", "dump", "dump", "printer", "printer", "odd", "bar"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    folder = Path(tempfile.mkdtemp(prefix="l01_", dir=os.environ.get("VERIF_SCRATCH")))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(case["seed"] % 2**32)
            globals()["case_" + case["kind"]](case, mon, rng_of(case), folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
        gc.collect()


# ---------------------------------------------------------------- expected contents
def plain(x: tp.Any) -> tp.Any:
    """what a value should be once written as json and read back (arrays and tuples are lists)"""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def equal(a: tp.Any, b: tp.Any) -> bool:
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return bool(a == b)


def columns(s: tp.Any, value: tp.Any, prefix: str = "") -> tp.Dict[str, tp.Any]:
    """documented names and values of the data and choices of a candidate"""
    def join(k: tp.Any) -> str:
        return f"{prefix}.{k}" if prefix else str(k)

    if s["t"] == "const":
        return {}
    if s["t"] == "tuple":
        parts = [(join(k), x, value[k]) for k, x in enumerate(s["items"])]
    elif s["t"] == "dict":
        parts = [(join(k), x, value[k]) for k, x in s["items"].items()]
    elif s["t"] == "instru":
        parts = [(join(k), x, value[0][k]) for k, x in enumerate(s["args"])] + [(join(k), x, value[1][k]) for k, x in s["kwargs"].items()]
    else:
        return {prefix or "0": plain(value)}
    out: tp.Dict[str, tp.Any] = {}
    for name, sub, val in parts:
        out.update(columns(sub, val, name))
    return out


def flattened(record: tp.Dict[str, tp.Any], limit: int) -> tp.Dict[str, tp.Any]:
    out: tp.Dict[str, tp.Any] = {}

    def regular(x: tp.Any) -> tp.Optional[tp.Tuple[int, ...]]:
        if not isinstance(x, list):
            return ()
        shapes = [regular(y) for y in x]
        if not x:
            return (0,)
        return None if any(s is None or s != shapes[0] for s in shapes) else (len(x),) + shapes[0]  # type: ignore

    for key, val in record.items():
        if not isinstance(val, list):
            out[key] = val
            continue
        shape = regular(val)
        if shape is None:
            out[key] = None  # ragged: naming is not specified
            continue
        for k, index in enumerate(np.ndindex(shape)):
            if k < limit:
                x = val
                for i in index:
                    x = x[i]
                out[f"{key}#" + "_".join(str(i) for i in index)] = x
    return out


class Truth:
    """independent monitor of the tells"""

    def __init__(self, spec: tp.Any, order: int = 1) -> None:
        self.spec, self.order = spec, order
        self.names: tp.List[tp.Set[str]] = []
        self.told: tp.List[tp.Dict[str, tp.Any]] = []

    def __call__(self, opt: tp.Any, candidate: tp.Any, loss: float) -> None:
        data = {
            "#parametrization": opt.parametrization.name, "#optimizer": opt.name, "#num-ask": opt.num_ask, "#num-tell": opt.num_tell,
            "#num-tell-not-asked": opt.num_tell_not_asked, "#uid": candidate.uid, "#generation": candidate.generation, "#loss": loss,
        }  # fmt: skip
        if candidate.generation > 1:
            data["#parents_uids"] = list(candidate.parents_uids)
        if opt.num_objectives > 1:
            data.update({f"#losses#{k}": float(x) for k, x in enumerate(candidate.losses)})
            data["#pareto-length"] = len(opt.pareto_front())
        data.update(columns(self.spec, candidate.value))
        self.told.append(data)
        import nevergrad as ng

        self.names.append({name or "0" for name, _ in ng.p.helpers.flatten(candidate, with_containers=False, order=self.order)})


def compare(records: tp.List[tp.Dict[str, tp.Any]], told: tp.List[tp.Dict[str, tp.Any]], what: str, mon: Mon) -> None:
    if not mon.check(len(records) == len(told), "number-of-records", lambda: f"{what}: {len(records)} records for {len(told)} tells"):
        return
    for k, (rec, ref) in enumerate(zip(records, told)):
        mon.event("record")
        for key, val in ref.items():
            kind = key.split("#")[1] if key.startswith("#") else "value"
            if mon.check(key in rec, f"missing:{kind}", lambda: f"{what}: record {k} lacks {key}: {rec}"):
                mon.check(equal(val, rec[key]), f"wrong:{kind}", lambda: f"{what}: record {k} has {key}={rec[key]!r} instead of {val!r}")


def gen_run(r: tp.Any) -> tp.Dict[str, tp.Any]:
    spec = spaces.gen(r, 2)
    pool = [o for o in (opts.basic() if r.random() < 0.7 else opts.core()) if o not in opts.SLOW]
    if any(x["t"] in ("choice", "transition") for x in [spec]) or spec["t"] in ("int",):
        pool = [o for o in pool if not o.startswith("SADiscrete")]
    return dict(space=spec, opt=r.choice(pool), workers=r.choice([1, 1, 3]), budget=r.randint(5, 25), seed=r.randrange(2**31), multi=r.random() < 0.25)


def play(run: tp.Dict[str, tp.Any], callbacks: tp.List[tp.Any], r: tp.Any, mon: tp.Optional[Mon], steps: int) -> tp.Any:
    """random asks and tells with the callbacks registered"""
    session = drive.Session(run, r)
    session.opt.__dict__.pop("suggest", None)  # the accounting wrapper cannot be pickled
    for c in callbacks:
        session.opt.register_callback("tell", c)

    def loss(c: tp.Any) -> tp.Any:
        val = spaces.numeric_loss(c.value)
        if r.random() < 0.1:
            val = r.choice([0.0, -1.5, 1e30, float("inf"), float("nan"), np.float32(0.1), 3, True])
        if run["multi"]:
            if mon:
                mon.event("multiobjective")
            return [float(val), r.gauss(0, 1)]
        return val

    try:
        for _ in range(steps):
            p = r.random()
            if p < 0.12 and session.told and "GeneticDE" not in run["opt"]:
                c = session.foreign_candidate()
                try:
                    session.opt.tell(c, loss(c))
                    if mon:
                        mon.event("foreign-tell")
                except drive.not_supported():
                    break  # what happens to the logs of a refused point is not specified
            elif len(session.pending) >= session.workers or (session.pending and p < 0.4):
                k = r.randrange(len(session.pending))
                c = session.pending.pop(k)
                session.opt.tell(c, loss(c), *([[r.choice([0.0, 1.0])]] if r.random() < 0.1 and not run["multi"] else []))
                session.told.append(c)
            elif session.opt.num_ask < run["budget"]:
                session.ask()
            else:
                break
    except (TypeError, ValueError) as e:
        if mon is None or not any(x in str(e) for x in ("picklability", "mmap", "thread.lock")):
            raise
        mon.event("refused-dump")  # documented: wrapped minimisers and multi-process objects cannot be pickled
    return session


def case_log(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    import nevergrad as ng

    run = gen_run(r)
    order = r.choice([1, 1, 0, 2])
    truth = Truth(drive.spec_of(run), order)
    path = folder / r.choice(["log.txt", "sub/dir/log.txt"])
    logger = ng.callbacks.ParametersLogger(path if r.random() < 0.5 else str(path), append=r.random() < 0.5, order=order)
    mon.check(logger.load() == [], "not-empty-at-first", "")
    session = play(run, [truth, logger], r, mon, 40)
    mon.seen(run["opt"], run["multi"], drive.spec_of(run)["t"], session.opt.num_tell_not_asked > 0)
    what = f"{run}"
    other = ng.callbacks.ParametersLogger(path)
    records = other.load()
    compare(records, truth.told, what, mon)
    for rec, names in zip(records, truth.names):
        mon.check(names <= set(rec), "missing:internal", lambda: f"{what}: {sorted(names - set(rec))} for order {order}")
        for name in rec:
            mon.check(name.startswith("#") or name in names or name.endswith("#sigma"), "additional:internal", lambda: f"{what}: {name} for order {order}")
    mon.check(equal(records, logger.load()), "reading-changes", what)
    limit = r.choice([24, 2, 1])
    for rec, flat in zip(records, other.load_flattened(max_list_elements=limit)):
        ref = flattened(rec, limit)
        mon.event("flattened")
        for key, val in ref.items():
            if val is not None or rec.get(key) is None and key in rec:
                mon.check(key in flat and equal(val, flat[key]), "flattened", lambda: f"{what}: {key} is {flat.get(key)!r} instead of {val!r}")
        mon.check(not any(isinstance(v, list) for k, v in flat.items() if ref.get(k) is not None), "list-in-flattened", lambda: f"{flat}")
    if r.random() < 0.3:
        check_hiplot(other, records, what, mon)
    ng.callbacks.ParametersLogger(path, append=True)
    mon.check(len(other.load()) == len(truth.told), "append-drops-records", what)
    ng.callbacks.ParametersLogger(path, append=False)
    mon.check(other.load() == [], "replace-keeps-records", what)


def check_hiplot(logger: tp.Any, records: tp.List[tp.Any], what: str, mon: Mon) -> None:
    class Experiment:
        def __init__(self) -> None:
            self.datapoints: tp.List[tp.Any] = []

        def display_data(self, display: tp.Any) -> tp.Dict[str, tp.Any]:
            return {}

    hip = types.SimpleNamespace(Experiment=Experiment, Datapoint=lambda **k: types.SimpleNamespace(**k), Displays=types.SimpleNamespace(XY=0))
    with mock.patch.dict(sys.modules, hiplot=hip):
        xp = logger.to_hiplot_experiment()
    mon.check([d.uid for d in xp.datapoints] == [x["#uid"] for x in records], "hiplot-points", what)
    for d, rec in zip(xp.datapoints, records):
        mon.check(equal(rec["#loss"], d.values["#loss"]), "hiplot-values", what)
        mon.check(d.from_uid == (rec["#parents_uids"][0] if rec["#parents_uids"] else None), "hiplot-parents", what)


def case_restart(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    """several processes, ended abruptly, append to the same file"""
    import nevergrad as ng

    path = folder / "log.txt"
    told: tp.List[tp.Any] = []
    runs = []
    for k in range(r.randint(2, 3)):
        run = gen_run(r)
        while opts.is_recast(run["opt"]):
            run["opt"] = r.choice(opts.basic())
        runs.append(run)
        append = k == 0 or r.random() < 0.85
        steps, seed = r.randint(1, 25), r.randrange(2**31)
        report = folder / f"told{k}"
        pid = os.fork()
        if not pid:
            code = 1
            try:
                import random

                truth = Truth(drive.spec_of(run))
                play(run, [truth, ng.callbacks.ParametersLogger(path, append=append)], random.Random(seed), None, steps)
                report.write_bytes(pickle.dumps(truth.told))
                code = 0
            except BaseException:  # pylint: disable=broad-except
                import traceback

                (folder / "error").write_text(traceback.format_exc())
            finally:
                os._exit(code)  # nothing is flushed or closed
        _, status = os.waitpid(pid, 0)
        mon.event("process")
        if status:
            mon.violate("failing-run", (folder / "error").read_text()[-600:])
            return
        told = (told if append else []) + pickle.loads(report.read_bytes())
    mon.seen("restart", len(runs), tuple(x["opt"] for x in runs))
    compare(ng.callbacks.ParametersLogger(path).load(), told, f"{runs}", mon)


ODD: tp.List[tp.Any] = [
    np.float32(0.5), np.int8(3), np.bool_(True), np.array([1.0, 2.0]), (np.float64(1.0), "a"), {"k": np.array([1, 2])}, {"k": [np.int_(3)]}, [1, [2, 3]], ("a", 1, None), None, True,
    float("nan"), float("-inf"), "line\nbreak \u2028 é", "", 2**70, [], ((1, 2), (3,)), [True, 2.5], {"a": {"b": (1,)}},
]  # fmt: skip


def case_odd(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    """choices among values of many types"""
    import nevergrad as ng

    path = folder / "log.txt"
    marker = object()
    options = r.sample(ODD, 4) + ([marker] if r.random() < 0.4 else [])
    if r.random() < 0.3:
        options.append(ng.p.Instrumentation(ng.p.Array(shape=(2,)), k=ng.p.Choice([np.float32(1.0), np.array([3])])))
    param = ng.p.Instrumentation(ng.p.Choice(options), x=ng.p.Scalar())
    param.random_state.seed(case["seed"] % 2**32)
    opt = ng.optimizers.registry[r.choice(["RandomSearch", "DiscreteOnePlusOne", "OnePlusOne"])](param, budget=12)
    logger = ng.callbacks.ParametersLogger(path)
    values: tp.List[tp.Any] = []
    opt.register_callback("tell", logger)
    for k in range(12):
        c = opt.ask()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            opt.tell(c, float(k))
        known = c.args[0] is not marker
        mon.event("odd-value")
        mon.check(not known or not any("json" in str(w.message) for w in caught), "record-lost", lambda: f"{c.args[0]!r}: {[str(w.message) for w in caught]}")
        values.append((float(k), known, c.args[0]))
    records = logger.load()
    mon.seen("odd", case["seed"] % 100)
    by_loss = {x["#loss"]: x for x in records}
    mon.check([x["#loss"] for x in records] == [x for x, known, _ in values if known or x in by_loss], "number-of-records", lambda: f"{len(records)}")
    for num, known, val in values:
        if known and num in by_loss:
            mon.check(equal(plain(val), by_loss[num]["0"]), "wrong:value", lambda: f"{by_loss[num]['0']!r} instead of {val!r}")
    flat = logger.load_flattened()
    mon.check(len(flat) == len(records), "flattened", "")
    for rec, fl in zip(records, flat):
        for key, val in flattened(rec, 24).items():
            if val is not None:
                mon.check(key in fl and equal(val, fl[key]), "flattened", lambda: f"{key}: {fl.get(key)!r} instead of {val!r} for {rec['0']!r}")


def case_dump(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    import nevergrad as ng

    run = gen_run(r)
    while opts.is_recast(run["opt"]):
        run["opt"] = r.choice(opts.basic())
    path = folder / "dump.pkl"
    what = f"{run}"
    seen: tp.List[tp.Any] = []

    class Watch:
        """called right after the dump"""

        def __call__(self, opt: tp.Any, candidate: tp.Any, loss: float) -> None:
            new = type(opt).load(path)
            mon.event("dump")
            mon.check((new.num_ask, new.num_tell, new.num_tell_not_asked) == (opt.num_ask, opt.num_tell, opt.num_tell_not_asked), "dump-counts", lambda: f"{what}: {new.num_ask} {new.num_tell} instead of {opt.num_ask} {opt.num_tell}")
            mon.check(new.budget == opt.budget and new.num_workers == opt.num_workers and new.name == opt.name, "dump-configuration", what)
            mon.check(len(new.archive) == len(opt.archive), "dump-archive", lambda: f"{what}: {len(new.archive)} points instead of {len(opt.archive)}")
            mon.check(all(new.current_bests[k].mean == b.mean for k, b in opt.current_bests.items()), "dump-bests", what)
            seen.append((opt.num_tell, candidate.uid))

        def __getstate__(self) -> tp.Dict[str, tp.Any]:
            return {}

    globals()["Watch"] = Watch
    Watch.__qualname__ = "Watch"
    session = play(run, [ng.callbacks.OptimizerDump(path if r.random() < 0.5 else str(path)), Watch()], r, mon, 25)
    mon.seen("dump", run["opt"], len(seen))
    if not seen:
        return
    # a new process resumes from the file
    again = type(session.opt).load(path)
    mon.check(again.num_tell == seen[-1][0], "dump-is-not-the-last", f"{what}: {again.num_tell} instead of {seen[-1][0]}")
    again.remove_all_callbacks()
    before = again.num_tell
    if not run["multi"]:
        for _ in range(2):
            if again.num_ask < run["budget"]:
                c = again.ask()
                again.tell(c, spaces.numeric_loss(c.value))
                before += 1
        mon.check(again.num_tell == before, "resume", what)
        again.recommend()
        mon.event("resumed")


class Clock:
    def __init__(self) -> None:
        self.now = 1e9

    def __call__(self) -> float:
        return self.now


def case_printer(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    import nevergrad as ng

    every, seconds = r.choice([1, 2, 5, 10, 100]), r.choice([0.5, 10.0, 60.0])
    which = r.choice(["print", "log"])
    level = r.choice([logging.INFO, logging.WARNING])
    multi = r.random() < 0.3
    clock = Clock()
    lines: tp.List[tp.Tuple[int, str]] = []

    class Handler(logging.Handler):
        def emit(self, record: tp.Any) -> None:
            lines.append((record.levelno, record.getMessage()))

    log = logging.getLogger(f"l01.{case['seed']}")
    log.setLevel(logging.DEBUG)
    log.propagate = False
    log.addHandler(Handler())
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(case["seed"] % 2**32)
    opt = ng.optimizers.registry[r.choice(["OnePlusOne", "DE", "RandomSearch", "CMA", "PSO", "TBPSA"])](param, budget=60, num_workers=r.choice([1, 4]))
    with mock.patch("time.time", clock), mock.patch("time.monotonic", clock), mock.patch("time.perf_counter", clock):
        if which == "print":
            callback = ng.callbacks.OptimizationPrinter(print_interval_tells=every, print_interval_seconds=seconds)
        else:
            callback = ng.callbacks.OptimizationLogger(logger=log, log_level=level, log_interval_tells=every, log_interval_seconds=seconds)
        last_n, last_t, first = 0, clock.now, True
        pending: tp.List[tp.Any] = []
        mins: tp.List[float] = []
        what = f"{which} every {every} tells or {seconds} seconds, {'multi-objective ' if multi else ''}{opt.name}"
        for _ in range(r.choice([40, 150])):
            clock.now += r.choice([0.0, 0.01, seconds / 3, seconds * 0.99, seconds * 1.01] if r.random() < 0.3 else [0.001])
            while len(pending) < opt.num_workers:
                pending.append(opt.ask())
            c = pending.pop(r.randrange(len(pending)))
            losses = [float(np.sum(c.value**2)), float(np.sum((c.value - 1) ** 2))]
            opt.tell(c, losses if multi else losses[0])
            del lines[:]
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                callback(opt, c, losses[0])
            new = [(None, x) for x in out.getvalue().splitlines()] if which == "print" else list(lines)
            n = opt.num_tell
            due = n - last_n >= every or clock.now >= last_t + seconds
            what_now = f"{what}: at tell {n}, {clock.now - last_t} seconds and {n - last_n} tells after the previous line"
            if not mon.check(len(new) <= 1, "several-lines", lambda: f"{what_now}: {new}"):
                continue
            mon.check(bool(new) or not due, f"line-missing:{which}", what_now)
            if not first:
                mon.check(due or not new, f"line-too-early:{which}", what_now)
            if not new:
                mon.event("silent-tell")
                continue
            mon.event("line")
            mon.seen(which, every, seconds, multi, n - last_n)
            first, last_n, last_t = False, n, clock.now
            text = new[0][1]
            found = re.search(r"After (\d+)", text)
            mon.check(found is not None and int(found.group(1)) == n, f"wrong-count:{which}", lambda: f"{what_now}: {text}")
            if which == "log":
                mon.check(new[0][0] == level, "log-level", f"{new[0][0]} instead of {level}")
                if multi:
                    mins = np.min([x.losses for x in opt.pareto_front()], axis=0).tolist()
                    numbers = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[+-]?\d+)?", text.split(" is ")[-1])]
                    mon.check(len(numbers) == 2 and np.allclose(numbers, mins, rtol=1e-5, atol=1e-7), "logged-losses", lambda: f"{what_now}: {text} instead of {mins}")
            if not multi:
                mon.check(str(opt.provide_recommendation()) in text, f"recommendation:{which}", lambda: f"{what_now}: {text} for {opt.provide_recommendation()}")


def case_bar(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any, folder: Path) -> None:
    import nevergrad as ng

    bars: tp.List[tp.Any] = []

    class Bar:
        def __init__(self) -> None:
            self.total, self.n = None, 0
            bars.append(self)

        def update(self, n: int = 1) -> None:
            self.n += n

        def __reduce__(self) -> tp.Any:
            raise TypeError("cannot pickle a progress bar")

    param = ng.p.Array(shape=(2,))
    param.random_state.seed(case["seed"] % 2**32)
    budget = r.randint(6, 30)
    opt = ng.optimizers.registry[r.choice(["OnePlusOne", "DE", "CMA"])](param, budget=budget)
    opt.register_callback("tell", ng.callbacks.ProgressBar())
    with mock.patch.dict(sys.modules, tqdm=types.SimpleNamespace(tqdm=Bar)):
        for k in range(1, budget + 1):
            c = opt.ask()
            opt.tell(c, float(np.sum(c.value**2)))
            mon.event("progress")
            mon.check(bars[-1].n == k and bars[-1].total == budget, "progress", lambda: f"{bars[-1].n}/{bars[-1].total} instead of {k}/{budget}")
            if r.random() < 0.15:
                opt.dump(folder / "bar.pkl")
                if r.random() < 0.6:
                    opt = type(opt).load(folder / "bar.pkl")
    mon.seen("bar", len(bars), budget)
