"""A02: shadow history of all losses per point, estimates recomputed and compared with the reported bests after each tell."""
import math
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, loss kind, number of remembered points (log scale), count of the best point, whether "
    "the archive was pruned, estimate name): a moment of a run at which the reported best points were compared with "
    "estimates recomputed from the whole history of told losses"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 5000
NEED_EVENTS = ("tell", "repeat", "prune", "foreign", "noise-free-recommendation", "default-recommendation:minimum", "default-recommendation:pessimistic")
NAMES = ["optimistic", "pessimistic", "average", "minimum"]
# optimizers which recommend the best point told (no estimate of their own): checked on noise-free problems
ELITIST = [
    "OnePlusOne", "DE", "TwoPointsDE", "PSO", "RandomSearch", "DiscreteOnePlusOne", "LhsDE", "QrDE", "MiniDE",
    "ScrHammersleySearch", "LHSSearch", "PortfolioDiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne", "ES", "MixES",
    "NonNSGAIIES", "CauchyOnePlusOne", "RotationInvariantDE", "GeneticDE", "OnePointDE", "HaltonSearch", "Zero",
    "LengletDiscreteOnePlusOne" , "BigLognormalDiscreteOnePlusOne", "SADiscreteLenglerOnePlusOneExp09", "SQOPSO",
    "ParametrizationDE", "ORandomSearch", "HammersleySearch", "RealSpacePSO", "MutDE", "AdaptiveDiscreteOnePlusOne",
]  # fmt: skip


# optimizers with the default recommendation (the best told point under the estimate which suits the problem)
DEFAULT = ["OnePlusOne", "RandomSearch", "DiscreteOnePlusOne", "ES", "MixES", "CauchyOnePlusOne", "DoubleFastGADiscreteOnePlusOne", "LengletDiscreteOnePlusOne", "Portfolio"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = ["RandomSearch", "OnePlusOne", "DE", "NGOpt", "DiscreteOnePlusOne", "OptimisticNoisyOnePlusOne", "ES",
             "CMA", "NoisyBandit", "PSO", "TBPSA", "PortfolioDiscreteOnePlusOne", "MetaModel", "Portfolio"]  # fmt: skip
    reps = 3 if tier == "quick" else 14
    kinds = ["noise", "ties", "free", "big"]
    for k in range(reps):
        for i, n in enumerate(names):
            for j, kind in enumerate(kinds):
                out.append(
                    dict(kind="hist", opt=n, space=["int", "arr3", "mix", "tch", "one", "bnd2"][(i + j + k) % 6], loss=kind,
                         workers=[1, 5][(i + k) % 2], steps=150 if tier == "quick" else 400, prune=[None, 3, 10][(i + j) % 3], seed=seed * 100 + k)
                )  # fmt: skip
    have = set(opts.registered())
    for k in range(2 if tier == "quick" else 8):
        for i, n in enumerate(x for x in ELITIST if x in have):
            out.append(dict(kind="free", opt=n, space=["arr3", "mix", "int", "tch", "bnd2", "dct"][(i + k) % 6], workers=[1, 4][(i + k) % 2],
                            loss=["free", "ties", "decr", "incr"][(i // 2 + k) % 4], steps=70, seed=seed * 100 + k))  # fmt: skip
    for k in range(4 if tier == "quick" else 24):
        for i, n in enumerate(x for x in DEFAULT if x in have):
            out.append(dict(kind="default", opt=n, space=["one", "arr3", "tch", "int", "cho", "bnd2"][(i + 5 * k) % 6], workers=[1, 4][(i + k) % 2], noisy=bool((i + k) % 2),
                            loss="noise", steps=60, seed=seed * 100 + k))  # fmt: skip
    for k in range(1 if tier == "quick" else 4):  # default pruning kicks in
        out.append(dict(kind="hist", opt="RandomSearch", space="arr3", loss="noise", workers=1, steps=2300, prune=None, seed=seed * 100 + k))
        out.append(dict(kind="hist", opt="OnePlusOne", space="bnd2", loss="big", workers=3, steps=2300, prune=None, seed=seed * 100 + k))
    return out


def clip(y: float) -> float:
    return min(max(y, -1e10), 1e10)


class Shadow:
    """all losses told for one remembered point"""

    def __init__(self, y: float) -> None:
        self.ys = [y]
        self.version = 0

    def add(self, y: float) -> None:
        self.ys.append(clip(y))

    def estimates(self) -> tp.Dict[str, float]:
        n = len(self.ys)
        mean = math.fsum(self.ys) / n
        sq = math.fsum(y * y for y in self.ys) / n
        var = 1e6 if n == 1 else math.sqrt(n / (n - 1.0)) * max(sq - mean * mean, 0.0)
        width = 0.1 * math.sqrt(var / (1 + n))
        return dict(optimistic=mean - width, pessimistic=mean + width, average=mean, minimum=min(self.ys))

    def tol(self) -> float:
        big = max(abs(y) for y in self.ys)
        # variance is a difference of squares: its square root keeps about half of the digits
        return 1e-9 + 3e-8 * big * (1 if len(self.ys) == 1 else len(self.ys) ** 0.5)


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    if case["kind"] == "free":
        return noise_free(case, mon)
    if case["kind"] == "default":
        return default_recommendation(case, mon)
    from nevergrad.optimization import utils

    r = rng_of(case)
    s = drive.Session(dict(case, budget=case["steps"]), r)
    opt = s.opt
    if case["prune"]:
        opt.pruning = utils.Pruning(min_len=case["prune"], max_len=3 * case["prune"])
    max_len = 3 * case["prune"] if case["prune"] else None
    table: tp.Dict[tp.Any, float] = {}
    scale = 1e7 if case["loss"] == "big" else 1.0

    def loss(c: tp.Any) -> float:
        key = spaces.freeze(c.value)
        base = table.setdefault(key, r.gauss(0, 2) if case["loss"] != "ties" else float(r.randint(0, 4)))
        if case["loss"] in ("free", "ties"):
            return base
        return scale * (base + r.gauss(0, 1))

    shadow: tp.Dict[bytes, Shadow] = {}
    pruned = False
    lost: tp.Set[bytes] = set()

    def observe(c: tp.Any, y: float) -> None:
        nonlocal pruned
        mon.event("tell")
        key = c.get_standardized_data(reference=opt.parametrization).tobytes()
        before = dict(shadow)
        if key in shadow:
            shadow[key].add(y)
            mon.event("repeat")
        else:
            shadow[key] = Shadow(y)
        have = {k.tobytes() if isinstance(k, np.ndarray) else bytes(k): v for k, v in zip(opt.archive.bytesdict, opt.archive.values())}
        mon.check(set(have) <= set(shadow), "archive-invents-points", "the archive holds a point which was never told")
        gone = set(shadow) - set(have)
        if gone:
            pruned = True
            mon.event("prune")
            mon.check(opt.pruning is not None, "lost-point", "a point was forgotten without any pruning")
            # documented: for each criterion, the min_len best points are kept
            est = {k: v.estimates() for k, v in shadow.items()}
            tol = {k: v.tol() for k, v in shadow.items()}
            min_len = opt.pruning.min_len
            for name in NAMES[:3]:
                vals = np.array([est[k][name] - tol[k] for k in est])
                for k in gone:
                    better = int(np.sum(vals <= est[k][name] + tol[k])) - 1
                    mon.check(better >= min_len, "pruned-a-best-point", lambda: f"forgot a point with {name}={est[k][name]}, only {better} are as good")
            for k in gone:
                del shadow[k]
                lost.add(k)
        elif len(before) and max_len is not None:
            mon.check(len(have) <= max_len, "archive-too-long", f"{len(have)} remembered points with max_len={max_len}")
        e = {k: v.estimates() for k, v in shadow.items()}
        # 1. statistics of each remembered point
        for k in ([key] if r.random() < 0.8 or len(have) > 300 else list(have)):
            if k not in have:
                continue
            mv = have[k]
            mon.check(mv.count == len(shadow[k].ys), "count", lambda: f"count {mv.count} for {len(shadow[k].ys)} evaluations")
            for name in NAMES:
                got = mv.get_estimation(name)
                t = shadow[k].tol()
                if name in ("optimistic", "pessimistic"):  # sqrt of a cancellation
                    t = max(t, 0.1 * math.sqrt(1e-14 * max(abs(y) for y in shadow[k].ys) ** 2 * len(shadow[k].ys)))
                mon.check(abs(got - e[k][name]) <= t, "estimate:" + name, lambda: f"{name} is {got}, recomputed {e[k][name]} from {shadow[k].ys}")
        # 2. reported bests minimise the estimates
        for name in NAMES:
            best = opt.current_bests[name]
            got = best.get_estimation(name)
            mn = min((mv.get_estimation(name) for mv in have.values()), default=float("inf"))
            mon.check(got <= mn, "best-is-not-minimal:" + name, lambda: f"best has {name}={got}, but a told point has {mn} (tell {s.n_tell})")
            bkey = best.parameter.get_standardized_data(reference=opt.parametrization).tobytes()
            mon.check(bkey in shadow or bkey in lost, "best-never-told:" + name, "the best point was never told")
            if bkey in shadow and bkey not in lost:
                t = shadow[bkey].tol() * 10
                mon.check(abs(got - e[bkey][name]) <= t, "best-estimate:" + name, lambda: f"best has {name}={got}, recomputed {e[bkey][name]}")
            mon.seen(case["opt"], case["loss"], int(math.log2(1 + len(have))), min(best.count, 6), pruned, name)

    for _ in range(case["steps"]):
        p = r.random()
        if (p < 0.5 and len(s.pending) < s.workers) or (not s.pending and p < 0.85):
            s.ask()
        elif p < 0.85:
            k = r.randrange(len(s.pending))
            y = loss(s.pending[k])
            c = s.tell_pending(k, y)
            observe(c, y)
        elif p < 0.93 and s.told:
            c = r.choice(s.told[-30:])
            y = loss(c)
            if s.tell(c, y, foreign=True):
                observe(c, y)
            else:
                return
        else:
            c = s.foreign_candidate()
            y = loss(c)
            if s.tell(c, y, foreign=True):
                mon.event("foreign")
                observe(c, y)
            else:
                return


def noise_free(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    s = drive.Session(dict(case, budget=case["steps"] + 5), r)
    table: tp.Dict[tp.Any, float] = {}
    repeated = False
    seq = iter(opts.rand_loss_seq(r, 10000, case["loss"]))
    best: tp.Optional[float] = None
    for k in range(case["steps"]):
        while len(s.pending) < s.workers:
            s.ask()
        c = s.pending[r.randrange(len(s.pending))]
        key = c.get_standardized_data(reference=s.opt.parametrization).tobytes()
        repeated |= key in table
        if key not in table:
            table[key] = next(seq)
        s.tell_pending(s.pending.index(c), table[key])
        best = table[key] if best is None else min(best, table[key])
        if k % 7 == 0 or k > case["steps"] - 5:
            rec = s.opt.provide_recommendation()
            mon.event("noise-free-recommendation")
            rkey = rec.get_standardized_data(reference=s.opt.parametrization).tobytes()
            got = table.get(rkey)
            mon.check(got is not None, "recommendation-never-told", lambda: f"{case['opt']} recommends {rec.value}, never told")
            # differential evolution recommends the best pessimistic bound, which is tighter for repeated points
            mon.check(
                got == best or (repeated and "DE" in case["opt"]), "recommendation-not-the-best", lambda: f"{case['opt']} recommends a point with loss {got} while {best} was told"
            )
            mon.check(rec.loss == got, "recommendation-loss", lambda: f"recommended candidate has loss {rec.loss}, it was told {got}")
            mon.seen(case["opt"], case["space"], case["loss"], k // 14)


def default_recommendation(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    """the same points are told several different losses: the recommendation has the smallest observed loss (or the smallest
    pessimistic bound, on problems declared as noisy), as carried by its best candidate"""
    r = rng_of(case)
    s = drive.Session(dict(case, budget=2 * case["steps"]), r)
    opt = s.opt
    opt.parametrization.function.deterministic = not case["noisy"]
    shadow: tp.Dict[bytes, Shadow] = {}
    smallest: tp.Dict[bytes, tp.Tuple[float, tp.Any]] = {}
    for k in range(case["steps"]):
        while len(s.pending) < s.workers:
            s.ask()
        y = r.choice([r.gauss(0, 3), float(r.randint(-2, 2))])
        if s.told and r.random() < 0.4:
            # the same point as another candidate (sampled choices can have another value)
            data = r.choice(s.told[-15:]).get_standardized_data(reference=opt.parametrization)
            c = opt.parametrization.spawn_child().set_standardized_data(data)
            if not s.tell(c, y, foreign=True):
                return
        else:
            c = s.tell_pending(r.randrange(len(s.pending)), y)
        key = c.get_standardized_data(reference=opt.parametrization).tobytes()
        if key in shadow:
            shadow[key].add(y)
            mon.event("repeat")
        else:
            shadow[key] = Shadow(y)
        if key not in smallest or y < smallest[key][0]:
            smallest[key] = (y, spaces.freeze(c.value))
        rec = opt.provide_recommendation()
        rkey = rec.get_standardized_data(reference=opt.parametrization).tobytes()
        if not mon.check(rkey in shadow, "default-recommendation-never-told", lambda: f"{case['opt']} recommends {rec.value}, never told"):
            return
        name = "pessimistic" if case["noisy"] else "minimum"
        mon.event("default-recommendation:" + name)
        got = shadow[rkey].estimates()[name]
        best = min(shadow.values(), key=lambda v: v.estimates()[name])
        tol = 1e-5 + best.tol() + shadow[rkey].tol() if case["noisy"] else 0.0
        mon.check(
            got <= best.estimates()[name] + tol, "default-recommendation:" + name, lambda: f"{case['opt']} (deterministic={not case['noisy']}) recommends a point with {name}={got}, another has {best.estimates()[name]}"
        )
        mon.check(rec.loss == smallest[rkey][0], "recommended-candidate", lambda: f"{case['opt']} recommends a candidate told {rec.loss}, its point was told {sorted(shadow[rkey].ys)}")
        value = spaces.freeze(rec.value)
        mon.check(value == smallest[rkey][1], "recommended-value", lambda: f"{case['opt']} recommends {value}, the candidate with the smallest loss at this point had {smallest[rkey][1]}")
        mon.seen(case["opt"], name, min(len(shadow[rkey].ys), 5), k // 20)
