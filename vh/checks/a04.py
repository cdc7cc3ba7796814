"""A04: shadow stack of suggestions compared with what each ask returns, over random interleavings of suggest, ask and tell."""
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, space type, depth of the suggestion stack, operation, workers): an operation after "
    "which the asked point was compared with the shadow stack of suggestions"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 3000
NEED_EVENTS = ("suggest", "ask-suggested", "ask-own", "refused-suggestion", "tell-suggested")
CASE_TIMEOUT = 60


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = opts.usable()
    reps = 1 if tier == "quick" else 3
    for k in range(reps):
        for i, n in enumerate(names):
            sp = ["arr3", "mix", "bnd2", "dct", "tch", "int"][(i + k + seed) % 6]
            if n in opts.NOT_1D and sp in opts.ONE_DIM:
                sp = "arr3"
            out.append(dict(opt=n, space=sp, workers=1 if opts.no_parallel(n) else [1, 3][(i + k) % 2], seed=seed * 1000 + k))
    core = opts.core()
    for k in range(400 if tier == "quick" else 2500):  # random parametrizations
        r = rng_of(dict(seed=seed, k=k))
        out.append(dict(opt=core[k % len(core)] if k % 2 else "RandomSearch", space=spaces.gen(r), workers=r.choice([1, 2]), seed=seed * 1000 + k))
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    try:
        s = drive.Session(dict(case, budget=60), r)
    except Exception:  # pylint: disable=broad-except
        if isinstance(case["space"], str):
            raise
        mon.note("optimizer refuses the random space")  # dimension limits etc. (other properties decide those)
        return
    opt = s.opt
    stype = case["space"] if isinstance(case["space"], str) else case["space"]["t"]
    stack: tp.List[tp.Any] = []
    supported = True

    def judge_ask() -> None:
        c = s.ask()
        if stack:
            want = stack.pop()
            if opt.parametrization.tabu_length > 0 and not spaces.same(c.value, want, rtol=1e-6, atol=1e-9):
                # a suggestion which is in the tabu list is dropped like one which violates a cheap constraint; the next
                # ones are then tried, so the shadow stack is not known any more
                mon.note("suggestion in the tabu list")
                raise StopIteration
            mon.event("ask-suggested")
            mon.check(
                spaces.same(c.value, want, rtol=1e-6, atol=1e-9), "suggestion-not-asked",
                lambda: f"{case['opt']}: suggested {want}, asked {c.value}",
            )  # fmt: skip
            c._vh_suggested = True  # type: ignore
        else:
            mon.event("ask-own")
            mon.evals += 1
        if hasattr(c, "args"):
            spec = s.spec
            if spec["t"] == "instru":
                mon.check(spaces.same(c.value, (c.args, c.kwargs)), "args-kwargs", lambda: f"{c.value} vs {c.args}, {c.kwargs}")
        mon.seen(case["opt"], stype, min(len(stack), 4), "ask", s.workers)

    def interleave() -> None:
        nonlocal supported
        for _ in range(24):
            op = r.random()
            if op < 0.3 and len(stack) < 5 and supported:
                v = spaces.sample_value(s.spec, r)
                drive.suggest(opt, v)
                stack.append(v)
                mon.event("suggest")
                mon.seen(case["opt"], stype, min(len(stack), 4), "suggest", s.workers)
            elif op < 0.36:
                wrong = bad_value(s.spec, r)
                if wrong is None:
                    continue
                before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked)
                try:
                    drive.suggest(opt, wrong)
                except Exception:  # pylint: disable=broad-except
                    mon.check(True, "bad-suggestion-accepted")
                else:
                    mon.check(False, "bad-suggestion-accepted", f"{case['opt']}: suggestion {wrong!r} accepted on {s.spec}")
                    return
                mon.event("refused-suggestion")
                mon.check(before == (opt.num_ask, opt.num_tell, opt.num_tell_not_asked), "bad-suggestion-counters")
            elif op < 0.7 and len(s.pending) < s.workers:
                judge_ask()
            elif s.pending:
                k = r.randrange(len(s.pending))
                c = s.pending[k]
                sug = getattr(c, "_vh_suggested", False)
                told = s.n_tell
                s.tell_pending(k, spaces.numeric_loss(c.value) + r.random())
                if sug:
                    mon.event("tell-suggested")
                    if s.n_tell == told:
                        supported = False
                mon.check(
                    (opt.num_ask, opt.num_tell, opt.num_tell_not_asked) == (s.n_ask, s.n_tell, s.n_foreign), "counters",
                    lambda: f"{case['opt']}: {(opt.num_ask, opt.num_tell, opt.num_tell_not_asked)} instead of {(s.n_ask, s.n_tell, s.n_foreign)}",
                )  # fmt: skip
            if not supported and not stack and not s.pending:
                break
        if supported:
            while stack and len(s.pending) < s.workers:  # exactly once: nothing remains
                judge_ask()

    try:
        interleave()
    except StopIteration:
        pass
    if supported and not s.suggested and len(s.pending) < s.workers and not opt.parametrization.tabu_length:
        # a suggested point competes for the best one
        v = spaces.sample_value(s.spec, r)
        drive.suggest(opt, v)
        c = s.ask()
        s.pending.remove(c)
        mon.check(spaces.same(c.value, v, rtol=1e-6, atol=1e-9), "suggestion-not-asked", lambda: f"{case['opt']}: suggested {v}, asked {c.value}")
        if s.tell(c, -1e7):
            got = opt.current_bests["minimum"].parameter
            mon.check(got is c or got.uid == c.uid, "suggestion-does-not-compete", lambda: f"{case['opt']}: best is {got}, suggested {c} had the smallest loss")
    if opt.num_tell:
        opt.provide_recommendation()


def bad_value(spec: tp.Dict[str, tp.Any], r: tp.Any) -> tp.Any:
    """a value which is clearly outside the domain, or None"""
    t = spec["t"]
    if t == "array":
        k = r.random()
        if k < 0.5:
            return np.zeros(np.prod(spec["shape"]) + 1)
        if spec.get("upper") is not None:
            return np.full(spec["shape"], spec["upper"] + 10.0)
        if spec.get("lower") is not None:
            return np.full(spec["shape"], spec["lower"] - 10.0)
        return None
    if t in ("scalar", "log"):
        if spec.get("upper") is not None:
            return spec["upper"] + 5
        if spec.get("lower") is not None and t == "scalar":
            return spec["lower"] - 5
        return None
    if t in ("choice", "transition"):
        return "not an option" if spec["rep"] is None else ("not an option",) * spec["rep"]
    if t == "tuple":
        vals = list(spaces.sample_value(spec, r))
        k = r.randrange(len(vals))
        sub = bad_value(spec["items"][k], r)
        if sub is None:
            return None
        vals[k] = sub
        return tuple(vals)
    if t == "dict":
        d = dict(spaces.sample_value(spec, r))
        k = r.choice(sorted(d))
        sub = bad_value(spec["items"][k], r)
        if sub is None:
            return None
        d[k] = sub
        return d
    if t == "instru":
        a, kw = spaces.sample_value(spec, r)
        if kw and r.random() < 0.5:
            sub = bad_value({"t": "dict", "items": spec["kwargs"]}, r)
            return None if sub is None else (a, sub)
        if a:
            sub = bad_value({"t": "tuple", "items": spec["args"]}, r)
            return None if sub is None else (sub, kw)
    return None
