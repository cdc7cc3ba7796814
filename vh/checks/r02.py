"""R02: dump/load at random points of an execution; the loaded optimizer, the dumped one and a twin which was never dumped are driven with the same losses and compared point by point, in the same and in another process."""
import gc
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import typing as tp
import warnings
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (optimizer, space, workers, number of asks and tells and points in flight at the dump): a dump compared to the last point"
BUDGET_S = {"quick": 90, "thorough": 600}
MIN_EVALS = 10000
CASE_TIMEOUT = 120
NEED_EVENTS = ("ask", "dump", "in-flight", "other-process", "second-dump", "foreign", "multiobjective", "unused", "constraint")
ASSUMPTIONS = [
    "wrapped third-party minimisers running in a thread are not expected to be dumped: the refusal must be an error",
    "points in flight are carried along with pickle, as they are for workers in other processes",
    "both processes use the same hash seed; points are compared bitwise",
]
INTERLEAVED = tuple(opts.BASIC)
MULTI = ("DE", "TwoPointsDE", "PSO", "CMA", "OnePlusOne", "RandomSearch", "ES", "RecMixES", "NGOpt", "LhsDE", "DiscreteOnePlusOne")


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    quick = tier == "quick"
    for k in range(1 if quick else 8):
        for i, n in enumerate(opts.usable()):
            j = i + k + seed
            sp = "arr2x2" if n.startswith("ImageMetaModel") else ["arr3", "mix", "bnd2", "dct", "tch", "arr2x2"][j % 6]
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [3, 1][(j // 6) % 2], seed=seed * 1000 + k, n=24))
    for k in range(2 if quick else 24):
        for i, n in enumerate(opts.core()):
            j = i + k + seed
            sp = "arr3" if n.startswith("SADiscrete") else ["arr3", "mix", "bnd2", "cho", "int"][j % 5]
            case = dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [1, 4][k % 2], seed=seed * 1000 + 50 + k, n=60)
            if j % 4 == 0:
                case["constraint"] = True
            if j % (10 if quick else 40) == 3:
                case["process"] = True
            out.append(case)
    have = set(opts.registered())
    for k in range(1 if quick else 12):
        for i, n in enumerate(m for m in MULTI if m in have):
            out.append(dict(opt=n, space=["arr3", "mix"][(i + k) % 2], workers=[1, 3][(i + k) % 2], seed=seed * 1000 + 80 + k, n=70, multi=2))
    return out


def not_huge(*args: tp.Any) -> bool:
    """a constraint which can be pickled"""
    total = 0.0
    for x in args:
        if isinstance(x, (float, np.ndarray)):
            total += float(np.sum(x))
    return total < 4


class Player:
    """drives an optimizer: everything but the optimizer and its points is a function of the case"""

    def __init__(self, case: tp.Dict[str, tp.Any], opt: tp.Any) -> None:
        self.case, self.opt = case, opt
        self.sched = rng_of(case, "schedule")
        self.pending: tp.List[tp.Any] = []
        self.supported = True
        self.step = 0
        self.tells = 0
        self.trace: tp.List[tp.Any] = []

    def state(self) -> tp.Any:
        return pickle.dumps((self.pending, self.sched.getstate(), self.supported, self.step, self.tells))

    def resumed(self, opt: tp.Any, state: bytes) -> "Player":
        out = Player(self.case, opt)
        out.pending, sched, out.supported, out.step, out.tells = pickle.loads(state)
        out.sched.setstate(sched)
        for c in out.pending:
            c.random_state = opt.parametrization.random_state  # as the points in flight of the original
        return out

    def recommend(self) -> None:
        # the recommendation is drawn randomly by some optimizers: all executions do it at the same time
        if self.tells and not self.case.get("multi"):
            self.trace.append(("recommend", str(spaces.freeze(self.opt.provide_recommendation().value))))
        elif self.tells:
            self.trace.append(("front", str(sorted(str(spaces.freeze(c.value)) for c in self.opt.pareto_front()))))
        self.trace.append(("counts", self.opt.num_ask, self.opt.num_tell, self.opt.num_tell_not_asked, self.opt.budget, self.opt.num_workers))

    def loss(self, value: tp.Any) -> tp.Any:
        base = spaces.numeric_loss(value) + self.sched.gauss(0, 0.3)
        m = self.case.get("multi", 0)
        return [base + j * self.sched.random() for j in range(m)] if m else base

    def one(self, workers: int) -> None:
        while len(self.pending) < workers and (not self.pending or self.sched.random() < 0.7):
            c = self.opt.ask()
            self.pending.append(c)
            self.trace.append(("ask", str(spaces.freeze(c.value))))
        k = self.sched.randrange(len(self.pending))
        c = self.pending.pop(k)
        self.opt.tell(c, self.loss(c.value))
        self.tells += 1
        if self.supported and self.sched.random() < 0.08:
            value = spaces.sample_value(drive.spec_of(self.case), self.sched)
            c = self.opt.parametrization.spawn_child(new_value=value)
            try:
                self.opt.tell(c, self.loss(c.value))
                self.trace.append(("foreign", True))
            except drive.not_supported():
                self.supported = False
                self.trace.append(("foreign", False))
        self.step += 1

    def play(self, until: int) -> None:
        while self.step < until:
            self.one(self.case["workers"])


def fresh(case: tp.Dict[str, tp.Any]) -> Player:
    spec = drive.spec_of(case)

    def param() -> tp.Any:
        p = spaces.build(spec)
        if case.get("constraint"):
            p.register_cheap_constraint(not_huge)
        return p

    np.random.seed(12)
    random.seed(12)
    return Player(case, opts.build_opt(case["opt"], param, case["n"] + 10, case["workers"], case["seed"]))


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    from nevergrad.optimization import base

    warnings.simplefilter("ignore")
    r = rng_of(case)
    at = r.choice([0, 1, 2, 3, r.randrange(case["n"]), r.randrange(case["n"]), r.randrange(case["n"]), case["n"] // 2])
    again = r.randrange(at, case["n"]) if r.random() < 0.4 else None
    what = f"{case['opt']} on {case['space']} with {case['workers']} workers, dumped at step {at}"
    first = fresh(case)
    first.play(at)
    fd, path = tempfile.mkstemp(prefix="r02-", suffix=".pkl")
    os.close(fd)
    try:
        try:
            first.opt.dump(path)
        except (ValueError, TypeError) as e:
            if not refusal(e):
                raise
            mon.event("refused")
            return
        mon.event("dump")
        mon.event("in-flight", int(bool(first.pending)))
        mon.event("unused", int(at == 0))
        mon.event("multiobjective", int("multi" in case))
        mon.event("constraint", int(bool(case.get("constraint"))))
        state = first.state()
        mon.seen(case["opt"], case["space"], case["workers"], first.opt.num_ask, first.opt.num_tell, len(first.pending))
        remote = other_process(case, path, state) if case.get("process") else None
        begin, first.trace = first.trace, []
        loaded = first.resumed(base.Optimizer.load(path) if r.random() < 0.5 else type(first.opt).load(path), state)
        mon.check(type(loaded.opt) is type(first.opt) and loaded.opt.name == first.opt.name, "other-type", lambda: f"{what}: loaded {loaded.opt}")
        # one after the other, or taking turns: they share nothing
        turns = case["opt"] in INTERLEAVED and r.random() < 0.7
        players = [first, loaded] if r.random() < 0.5 else [loaded, first]
        if turns:
            for p in players:
                p.recommend()
            while first.step < case["n"]:
                for p in players:
                    p.play(p.step + 1)
                again = second_dump(loaded, again, path, mon)
            for p in players:
                p.recommend()
            mon.event("turns")
        for p in players:
            if not turns:
                p.recommend()
                while p.step < case["n"]:
                    p.play(p.step + 1)
                    if p is loaded:
                        again = second_dump(p, again, path, mon)
                p.recommend()
            p.opt = None  # some wrapped minimisers exist once per process only
            gc.collect()
        twin = fresh(case)
        twin.play(at)
        twin_at = len(twin.trace)
        twin.recommend()
        twin.play(case["n"])
        twin.recommend()
        compare(mon, what, "original-changed", twin.trace, begin + first.trace)
        compare(mon, what, "loaded-differs", twin.trace[twin_at:], loaded.trace)
        if remote is not None:
            compare(mon, what + ", loaded in another process", "other-process-differs", twin.trace[twin_at:], remote)
            mon.event("other-process")
        for kind, *_ in twin.trace:
            mon.event(kind)
    finally:
        os.unlink(path)


def second_dump(p: Player, again: tp.Optional[int], path: str, mon: Mon) -> tp.Optional[int]:
    from nevergrad.optimization import base

    if again is None or p.step <= again:
        return again
    try:
        p.opt.dump(path)
    except (ValueError, TypeError) as e:
        if not refusal(e):
            raise
        return None
    new = p.resumed(base.Optimizer.load(path), p.state())
    p.opt, p.pending = new.opt, new.pending
    mon.event("second-dump")
    return None


def refusal(e: Exception) -> bool:
    """threads of wrapped minimisers and their shared memory can not be dumped"""
    return any(x in str(e) for x in ("picklability", "mmap", "thread.lock"))


def compare(mon: Mon, what: str, key: str, expected: tp.List[tp.Any], got: tp.List[tp.Any]) -> None:
    diff = next((k for k, (a, b) in enumerate(zip(expected, got)) if tuple(a) != tuple(b)), None)
    if diff is None and len(expected) == len(got):
        for _ in expected:
            mon.check(True, "same", "")
        return
    if diff is None:
        mon.violate(key, f"{what}: {len(got)} events instead of {len(expected)}")
    else:
        mon.violate(key, f"{what}: event {diff} of {len(expected)} is {got[diff]} instead of {expected[diff]}")


def other_process(case: tp.Dict[str, tp.Any], path: str, state: bytes) -> tp.List[tp.Any]:
    with tempfile.NamedTemporaryFile(prefix="r02-", suffix=".state") as f:
        f.write(state)
        f.flush()
        out = subprocess.run(
            [sys.executable, "-m", "vh.checks.r02", json.dumps(case), path, f.name], capture_output=True, text=True, timeout=100, check=False,
            cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
        )
    if out.returncode:
        raise RuntimeError(f"the loading process failed: {out.stderr[-600:]}")
    return [tuple(x) for x in json.loads(out.stdout.splitlines()[-1])]


def remote_main(argv: tp.List[str]) -> None:
    from nevergrad.optimization import base

    warnings.simplefilter("ignore")
    case = json.loads(argv[0])
    with open(argv[2], "rb") as f:
        state = f.read()
    player = Player(case, None).resumed(base.Optimizer.load(argv[1]), state)
    player.recommend()
    player.play(case["n"])
    player.recommend()
    print(json.dumps(player.trace))


if __name__ == "__main__":
    remote_main(sys.argv[1:])
