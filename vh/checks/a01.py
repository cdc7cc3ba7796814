"""A01: shadow counters, id registry and callback traces next to random ask/tell interleavings."""
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, workers, operation kind, #pending, whether duplicates/foreign points were told "
    "before): an operation of a random ask/tell/retell/foreign-tell interleaving after which all counters, ids, "
    "losses and callback traces were compared with the shadow accounting"
)
BUDGET_S = {"quick": 40, "thorough": 600}
MIN_EVALS = 2000
NEED_EVENTS = ("ask", "tell", "retell", "foreign", "reject")
CASE_TIMEOUT = 60


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    names = opts.usable()
    out = []
    reps = 2 if tier == "quick" else 5
    sp = ["arr3", "mix", "bnd2", "dct", "tch", "int"]
    for k in range(reps):
        for i, n in enumerate(names):
            w = 1 if opts.no_parallel(n) else [1, 4, 2][(i + k) % 3]
            out.append(dict(opt=n, space=sp[(i + 2 * k + seed) % len(sp)], workers=w, seed=seed * 1000 + k, multi=(i + k) % 4 == 3))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    if case["opt"] in opts.NOT_1D and case["space"] in opts.ONE_DIM:
        case = dict(case, space="arr3")
    s = drive.Session(dict(case, budget=60), r)
    opt = s.opt
    ask_log: tp.List[tp.List[tp.Any]] = [[], []]
    tell_log: tp.List[tp.List[tp.Any]] = [[], []]
    for j in range(2):
        opt.register_callback("ask", lambda *a, j=j, **k: ask_log[j].append((a, k)))
        opt.register_callback("tell", lambda *a, j=j, **k: tell_log[j].append((a, k)))
    uids: tp.Set[str] = set()
    multi = case["multi"] and _supports_multi(case["opt"])
    asks = 0
    tells: tp.List[tp.Tuple[tp.Any, float]] = []
    foreign_ok = True
    dup = False

    def loss() -> tp.Any:
        if multi:
            v = [r.gauss(0, 1), r.gauss(0, 1)]
            return r.choice([v, tuple(v), np.array(v)])
        x = r.gauss(0, 3)
        return r.choice([x, np.float64(x), np.float32(x), int(x), np.array(x), np.int64(int(x))])

    def after(op: str) -> None:
        mon.event(op)
        mon.seen(case["opt"], case["workers"], op, len(s.pending), dup, s.n_foreign > 0, multi)
        ok = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked) == (s.n_ask, s.n_tell, s.n_foreign)
        mon.check(
            ok, "counters",
            lambda: f"{case['opt']} after {op}: (ask,tell,not asked)=({opt.num_ask},{opt.num_tell},{opt.num_tell_not_asked}) "
            f"but history says ({s.n_ask},{s.n_tell},{s.n_foreign})",
        )  # fmt: skip
        for j in range(2):
            mon.check(len(ask_log[j]) == asks, "ask-callback-count", lambda: f"{len(ask_log[j])} ask callbacks for {asks} asks")
            good = len(tell_log[j]) == len(tells)
            mon.check(good, "tell-callback-count", lambda: f"{len(tell_log[j])} tell callbacks for {len(tells)} tells")
            if good and tells and op in ("tell", "retell", "foreign"):
                a, kw = tell_log[j][-1]
                c, raw = tells[-1]
                mon.check(
                    not kw and len(a) == 3 and a[0] is opt and a[1] is c and (multi or abs(a[2] - raw) <= 1e-6 * max(1, abs(raw))),
                    "tell-callback-arguments",
                    lambda: f"tell callback got {a} for tell of {c} with {raw}",
                )
            if ask_log[j]:
                mon.check(ask_log[j][-1] == ((opt,), {}), "ask-callback-arguments")

    def told(op: str, c: tp.Any, x: tp.Any) -> None:
        raw = float(np.asarray(x, dtype=float)) if not multi else None
        tells.append((c, raw))
        if not multi:
            mon.check(c.loss == raw, "recorded-loss", lambda: f"candidate.loss={c.loss} after being told {x!r}")
            mon.check(np.array_equal(c.losses, [raw]), "recorded-loss", lambda: f"candidate.losses={c.losses}, told {x!r}")
        else:
            mon.check(
                np.array_equal(np.asarray(c.losses), np.asarray(x, dtype=float)), "recorded-losses",
                lambda: f"candidate.losses={c.losses} after being told {x!r}",
            )  # fmt: skip
            mon.check(isinstance(c.loss, float), "recorded-loss", "no scalar loss recorded")
        after(op)

    for _ in range(45):
        op = r.random()
        if (op < 0.45 and len(s.pending) < s.workers) or (op < 0.9 and not s.pending):
            asks += 1
            c = s.ask()
            mon.check(c.uid not in uids, "unique-uid", f"uid {c.uid} asked twice")
            mon.check(drive.frozen(c), "asked-not-frozen", "asked candidate can be modified")
            mon.check(c.loss is None or c.uid in uids, "asked-with-loss", f"freshly asked candidate has loss {c.loss}")
            uids.add(c.uid)
            after("ask")
        elif op < 0.88:
            x = loss()
            c = s.tell_pending(r.randrange(len(s.pending)), x)
            told("tell", c, x)
        elif op < 0.93 and s.told and foreign_ok:
            c = r.choice(s.told)
            x = loss()
            if s.tell(c, x, foreign=True):
                dup = True
                told("retell", c, x)
            else:
                foreign_ok = False
                tells.append((c, None))  # callbacks are called before the refusal
        elif op < 0.97 and foreign_ok:
            c = s.foreign_candidate()
            x = loss()
            if s.tell(c, x, foreign=True):
                told("foreign", c, x)
            else:
                foreign_ok = False
                tells.append((c, None))
        elif s.pending:
            bad = r.choice(["x", None, {}, [1.0, 2.0, 3.0] if not multi else [1.0], object()])
            if isinstance(bad, list) and not s.n_tell:
                continue  # the number of objectives is not known yet
            try:
                opt.tell(r.choice(s.pending), bad)
                mon.check(False, "invalid-loss-accepted", f"loss {bad!r} accepted")
            except Exception:  # pylint: disable=broad-except
                mon.check(True, "invalid-loss-accepted")
            after("reject")
    mon.sample = dict(asks=s.n_ask, tells=s.n_tell, foreign=s.n_foreign)


def _supports_multi(name: str) -> bool:
    return name in ("OnePlusOne", "DE", "TwoPointsDE", "PSO", "CMA", "RandomSearch", "ES", "MixES", "LhsDE", "NGOpt",
                    "ScrHammersleySearch", "DiagonalCMA", "DiscreteOnePlusOne", "NonNSGAIIES", "LHSSearch", "TBPSA")  # fmt: skip
