"""H03: every scalar loss derived from a vector loss in real multi-objective runs is compared with an exact model fed with the same tells."""
import typing as tp
from fractions import Fraction
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of
from .h01 import volume

RULE = (
    "a distinct state is (optimizer or raw accumulator, objectives, reference given or automatic, class of the told point "
    "(initial, refused initial, enlarging, dominated, beyond), size of the front): a scalar loss compared with the model"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 10000
NEED_EVENTS = ("initial", "worst-initial", "enlarging", "dominated", "beyond", "worse-twin", "foreign")
ASSUMPTIONS = [
    "optimizers whose multi-objective mode uses volumes; integer losses, for which volumes are exact",
    "the first point after the automatic bounds are known counts as enlarging; points without volume which are not dominated are not judged",
]
NAMES = ["OnePlusOne", "CMA", "PSO", "TBPSA", "DiscreteOnePlusOne", "NaiveTBPSA", "EDA", "RecES", "NGOptSingle16", "Portfolio", "DiagonalCMA", "RealSpacePSO"]
CAP = 5.0e20


class Model:
    def __init__(self, ref: tp.Optional[tp.Tuple[int, ...]], initial: int) -> None:
        self.ref = ref
        self.initial = 0 if ref is not None else initial
        self.inside: tp.List[tp.Tuple[int, ...]] = []
        self.best: tp.Optional[float] = None

    def hv(self, points: tp.List[tp.Tuple[int, ...]]) -> float:
        assert self.ref is not None
        front = {p for p in points if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in points)}
        return float(volume([tuple(map(Fraction, p)) for p in front], tuple(map(Fraction, self.ref))))

    def add(self, loss: tp.Tuple[int, ...]) -> tp.Tuple[str, tp.Optional[float]]:
        if self.initial:
            self.initial -= 1
            if self.ref is not None and all(x > u for x, u in zip(loss, self.ref)):
                return "worst-initial", CAP
            self.ref = loss if self.ref is None else tuple(max(a, b) for a, b in zip(loss, self.ref))
            self.inside.append(loss)
            return "initial", 0.0
        assert self.ref is not None
        if any(x > u for x, u in zip(loss, self.ref)):
            excess = float(sum(max(0, x - u) for x, u in zip(loss, self.ref)))
            if self.best is None or self.best < 0:
                self.best = max(-excess, -np.inf if self.best is None else self.best)
            return "beyond", excess
        new = self.hv(self.inside + [loss])
        dominated = any(all(y <= x for x, y in zip(loss, p)) for p in self.inside)
        if self.best is None or new > self.best:
            self.best = new
            self.inside.append(loss)
            return "enlarging", -new
        # points without volume are not kept in the front
        return "dominated", -new + self.excess(loss) if dominated else None

    def excess(self, loss: tp.Tuple[int, ...]) -> float:
        """smallest excess over a member of the front which dominates the point"""
        front = [p for p in self.inside if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in self.inside)]
        return float(min(min(x - y for x, y in zip(loss, p)) for p in front if all(y <= x for x, y in zip(loss, p))))


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    have = set(opts.registered())
    out = []
    names = ["raw"] * 6 + [x for x in NAMES if x in have]
    for k in range(8 if tier == "quick" else 80):
        for i, n in enumerate(names):
            j = i + k * 3 + seed
            out.append(dict(opt=n, space=["arr3", "bnd2", "mix"][j % 3], workers=1 if n == "raw" or opts.no_parallel(n) else [1, 3][j % 2], objectives=2 + (i + k) % 3, ref=j % 2 == 0, spread=[3, 12, 50][(j // 2) % 3], seed=seed * 1000 + k, n=70, budget=100, pos=i))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng
    from nevergrad.optimization.multiobjective import HypervolumePareto

    r = rng_of(case)
    d, spread = case["objectives"], case["spread"]
    who = f"{case['opt']} with {d} objectives"
    ref = tuple(r.randint(max(1, spread // 2), spread) for _ in range(d)) if case["ref"] else None
    seen: tp.List[float] = []
    s: tp.Any = None
    if case["opt"] == "raw":
        auto = r.choice([1, 2, 15, 30])
        hp = HypervolumePareto(upper_bounds=np.array(ref, dtype=float)) if ref is not None else HypervolumePareto(auto_bound=auto)
        param = ng.p.Scalar()
        model = Model(ref, auto)
    else:
        s = drive.Session(case, r)
        s.opt.register_callback("tell", lambda o, c, l: seen.append(l))
        if ref is not None:
            s.opt.tell(ng.p.MultiobjectiveReference(), [float(x) for x in ref])
        initial = 15
        model = Model(ref, initial)
    told: tp.List[tp.Tuple[int, ...]] = []
    volumes: tp.List[float] = []
    last: tp.Optional[tp.Tuple[tp.Tuple[int, ...], float, int]] = None
    for step in range(case["n"]):
        style = r.random()
        if last is not None and style < 0.25:
            vec = tuple(x + 1 for x in last[0])  # worse in every objective than the last dominated point
            mon.event("worse-twin")
        elif told and style < 0.4:
            vec = tuple(x + r.randint(0, 2) for x in r.choice(told))
        elif told and style < 0.55:
            vec = tuple(max(0, x - r.randint(0, 2)) for x in r.choice(told))
        elif told and style < 0.6:
            vec = r.choice(told)
        else:
            vec = tuple(r.randint(0, spread + 1) for _ in range(d))
        if case["opt"] == "raw":
            c = param.spawn_child()
            c._losses = np.array(vec, dtype=float)
            got = hp.add(c)
            got = CAP if got > CAP else got
        else:
            if not s.pending:
                for _ in range(s.workers):
                    s.ask()
            seen.clear()
            if r.random() < 0.1 and not opts.is_recast(case["opt"]):
                c = s.foreign_candidate()
                if not s.tell(c, [float(x) for x in vec], foreign=True):
                    return
                mon.event("foreign")
            else:
                c = s.tell_pending(r.randrange(len(s.pending)), [float(x) for x in vec])
            mon.check(len(seen) == 1, "callback", lambda: f"{who}: {len(seen)} calls of the callback")
            got = seen[0]
            mon.check(c.loss == got, "candidate-loss", lambda: f"{who}: callback received {got} and the candidate has {c.loss}")
            mon.check(tuple(c.losses) == vec, "candidate-losses", lambda: f"{who}: told {vec}, the candidate has {c.losses}")
        front = len(model.inside)
        kind, expected = model.add(vec)
        told.append(vec)
        mon.event(kind)
        mon.seen(case["opt"], d, case["ref"], kind, front)
        if expected is not None:
            mon.check(abs(got - expected) <= 1e-12 * abs(expected), f"loss-{kind}", lambda: f"{who}, reference {model.ref}: {vec} ({kind}) got {got} instead of {expected}, told before {told[:-1]}")
        if kind == "dominated" and expected is not None:
            assert model.best is not None
            mon.check(got >= -model.best, "dominated-better", lambda: f"{who}: dominated {vec} got {got}, the front is worth {-model.best}")
            last = (vec, got, len(volumes))
        elif kind == "enlarging":
            if volumes:
                mon.check(-got > volumes[-1], "volume-decreased", lambda: f"{who}: volume {volumes[-1]} then {-got}")
            volumes.append(-got)
        if case["opt"] == "raw" and model.best is not None:
            mon.check(hp.best_volume == model.best, "best-volume", lambda: f"{who}, reference {model.ref}, told {told}: best volume {hp.best_volume} instead of {model.best}")
