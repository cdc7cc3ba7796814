"""A03: hostile losses (NaN, infinities, huge, tiny, every scalar type) injected in runs of all optimizers, with monitors on later calls and on the best point."""
import math
import typing as tp
from fractions import Fraction
import numpy as np
from .. import drive, opts, spaces
from . import a02
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, workers, kind of the loss told, whether a finite loss was told before): a hostile tell "
    "after which the run went on and the reported best points were compared with the told losses"
)
BUDGET_S = {"quick": 70, "thorough": 600}
MIN_EVALS = 5000
NEED_EVENTS = ("nan", "inf", "huge", "tiny", "typed", "reject", "recommend")
CASE_TIMEOUT = 60
KINDS = ["nan", "inf", "huge", "tiny", "typed", "normal"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = opts.usable()
    reps = 1 if tier == "quick" else 4
    for k in range(reps):
        for i, n in enumerate(names):
            w = 1 if opts.no_parallel(n) else [1, 3][(i + k) % 2]
            sp = ["arr3", "mix", "bnd2", "dct"][(i + k + seed) % 4]
            out.append(dict(opt=n, space=sp, workers=w, prob=[0.2, 0.5, 1.0][(i // 2 + k + seed) % 3], seed=seed * 1000 + k))
    for k in range(2 if tier == "quick" else 8):
        for i, n in enumerate(opts.basic()):
            out.append(dict(opt=n, space=["int", "tch", "arr2x2"][(i + k) % 3], workers=1 + (i + k) % 2, prob=0.6, seed=seed * 1000 + 50 + k))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    s = drive.Session(dict(case, budget=50), r)
    opt = s.opt
    bad: tp.Set[bytes] = set()  # points told an undefined or infinite loss and nothing else
    good: tp.Dict[bytes, float] = {}

    def key(c: tp.Any) -> bytes:
        return c.get_standardized_data(reference=opt.parametrization).tobytes()

    def loss(kind: str) -> tp.Any:
        if kind == "nan":
            return r.choice([float("nan"), np.float32("nan"), np.array(np.nan), -float("nan"), np.array([np.nan]), [float("nan")]])
        if kind == "inf":
            return r.choice([float("inf"), np.float64("inf"), np.array(np.inf), np.float32("inf"), [float("inf")]])
        if kind == "huge":
            return r.choice([1e300, 1e25, -1e18, 5e20, 10**30, np.float32(3e38), 1e19])
        if kind == "tiny":
            return r.choice([5e-324, -5e-324, 1e-300, 0.0, -0.0, np.float32(1e-45), -1e-200])
        x = r.gauss(0, 3)
        if kind == "typed":
            return r.choice([
                int(x), np.int8(int(x)), np.uint16(abs(int(x))), np.float16(x), np.float32(x), np.longdouble(x), Fraction(int(x * 8), 7),
                np.array(x), np.array(int(x)), np.array([x]), (x,), [x], [int(x)], np.array([int(x)]), bool(x > 0), np.bool_(x > 0) * 1,
            ])  # fmt: skip
        return x

    def observe_best() -> None:
        if opt.num_tell == 0:
            return
        rec = opt.provide_recommendation()
        mon.event("recommend")
        v = rec.value
        pb = spaces.problem(s.spec, v)
        mon.check(pb is None, "recommendation-outside-domain", lambda: f"{case['opt']} recommends {v}: {pb}")
        if not good:
            return
        lo = min(good.values())
        for name, mv in opt.current_bests.items():
            k = key(mv.parameter)
            mon.check(k not in bad, "undefined-loss-is-best:" + name, lambda: f"{case['opt']}: best {name} was told nan/inf, while {lo} was told")
        got = key(rec)
        # (center-based optimizers such as EDA recommend the center of their distribution, not a told point)
        if got not in good and got in bad and case["opt"] in a02.ELITIST:
            mon.violate("undefined-loss-recommended", f"{case['opt']} recommends a point told nan/inf, while {lo} was told")
        mon.evals += 1

    for step in range(40):
        while len(s.pending) < s.workers:
            s.ask()
        kind = r.choice(KINDS[:5]) if r.random() < case["prob"] else "normal"
        x = loss(kind)
        if r.random() < 0.12:
            for wrong in r.sample(["1", None, {}, object(), [[1.0, 2.0], [3.0]], ["a"], 1j, [1.0, 2.0], set([1.0])], 3):
                if isinstance(wrong, list) and len(wrong) == 2 and wrong == [1.0, 2.0] and not opt.num_tell:
                    continue
                before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked)
                try:
                    opt.tell(s.pending[0], wrong)
                except Exception:  # pylint: disable=broad-except
                    mon.check(True, "invalid-loss-accepted")
                else:
                    mon.check(False, "invalid-loss-accepted", f"{case['opt']}: tell accepted the loss {wrong!r}")
                    return
                mon.check(
                    before == (opt.num_ask, opt.num_tell, opt.num_tell_not_asked), "rejected-loss-counted", f"counters moved after {wrong!r}"
                )
            mon.event("reject")
        c = s.tell_pending(r.randrange(len(s.pending)), x)
        mon.event(kind)
        mon.seen(case["opt"], s.workers, kind, bool(good))
        f = float(np.asarray(x, dtype=float).ravel()[0]) if not isinstance(x, Fraction) else float(x)
        if math.isfinite(f) and f < 5e20:
            good[key(c)] = min(f, good.get(key(c), math.inf))
            bad.discard(key(c))
        elif key(c) not in good and not math.isfinite(f):
            bad.add(key(c))
        mon.check(isinstance(c.loss, float), "loss-type", f"told {x!r} ({type(x)}), recorded {c.loss!r} ({type(c.loss)})")
        if math.isfinite(f) and f < 5e20:
            mon.check(c.loss == f, "recorded-loss", f"told {x!r}, recorded {c.loss!r}")
        else:
            mon.check(c.loss > 1e18 or math.isnan(f) and not c.loss < 1e18, "recorded-loss", f"told {x!r}, recorded {c.loss!r}")
        if step % 6 == 0 or step > 36:
            observe_best()
