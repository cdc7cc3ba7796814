"""P05: random choice parameters are set, sampled, mutated and applied vectors to; selected options are judged against the declared ones, and observed frequencies against the softmax of the weights (exact likelihood-ratio bound); the discretization helpers are judged on all bins."""
import math
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (kind of choice, options, repetitions, selected options or bin): a selection which was judged"
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 50000
NEED_EVENTS = ("set", "deterministic", "frequency", "initial-frequency", "after-set-frequency", "independent-repetitions", "transition-bin", "unordered-bin", "mutate", "transition-mutate", "threshold", "encoder", "nested", "coverage")
ASSUMPTIONS = ["an option which is itself a parameter holds one value for all repetitions (setting several at once is unspecified)", "frequencies are refused when the likelihood ratio statistic has probability below 1e-12 (Chernoff bound)"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 300 if tier == "quick" else 6000
    out: tp.List[tp.Dict[str, tp.Any]] = []
    for k in range(n):
        out.append(dict(kind=["choice", "transition", "frequency", "discretization"][k % 4], seed=seed * 1000000 + k))
    return out


def too_rare(counts: np.ndarray, probs: np.ndarray) -> tp.Optional[str]:
    """bound on the probability of the empirical distribution: (N+1)^k exp(-N KL)"""
    n = counts.sum()
    if (counts[probs <= 0] > 0).any():
        return f"impossible option drawn: {counts} for {probs}"
    f = counts / n
    ok = f > 0
    kl = float((f[ok] * np.log(f[ok] / probs[ok])).sum())
    logp = len(counts) * math.log(n + 1) - n * kl
    if logp < math.log(1e-12):
        return f"frequencies {f.round(3).tolist()} over {n} draws for probabilities {probs.round(3).tolist()} (log probability < {logp:.1f})"
    return None


def softmax(w: np.ndarray) -> np.ndarray:
    e = np.exp(w - w.max())
    return e / e.sum()


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    r = rng_of(case)
    {"choice": choice_case, "transition": transition_case, "frequency": frequency_case, "discretization": discretization_case}[case["kind"]](r, mon)


def options(r: tp.Any, nested: bool = True) -> tp.Tuple[int, tp.List[tp.Any]]:
    """option k is a constant, or a scalar in [10 k, 10 k + 5]"""
    n = r.choice([1, 2, 2, 3, 4, 5, 8])
    out: tp.List[tp.Any] = []
    for k in range(n):
        if nested and r.random() < 0.3:
            out.append(("scalar", 10.0 * k, 10.0 * k + 5.0))
        else:
            out.append(("const", r.choice([f"o{k}", (k, "x"), -k - 0.5, -k - 1])))
    return n, out


def build(kind: str, opts: tp.List[tp.Any], rep: tp.Optional[int], **kw: tp.Any) -> tp.Any:
    import nevergrad as ng

    lst = [o[1] if o[0] == "const" else ng.p.Scalar(lower=o[1], upper=o[2]) for o in opts]
    return (ng.p.Choice if kind == "choice" else ng.p.TransitionChoice)(lst, repetitions=rep, **kw)


def belongs(opts: tp.List[tp.Any], v: tp.Any) -> tp.Optional[int]:
    """index of the option having this value"""
    for k, o in enumerate(opts):
        if o[0] == "const":
            if type(o[1]) is type(v) and o[1] == v:
                return k
        elif isinstance(v, float) and o[1] - 1e-9 <= v <= o[2] + 1e-9 and not any(p[0] == "const" and p[1] == v for p in opts):
            return k
    return None


def judge(mon: Mon, what: str, p: tp.Any, opts: tp.List[tp.Any], rep: tp.Optional[int]) -> tp.List[int]:
    v = p.value
    values = [v] if rep is None else list(v)
    mon.check(rep is None or (isinstance(v, tuple) and len(v) == rep), "repetitions", lambda: f"{what}: {v!r} instead of {rep} repetitions")
    inds = [int(x) for x in p.indices.value]
    mon.check(len(inds) == (rep or 1) and all(0 <= i < len(opts) for i in inds), "indices", lambda: f"{what}: indices {inds} for {len(opts)} options")
    for k, (x, i) in enumerate(zip(values, inds)):
        b = belongs(opts, x)
        mon.check(b is not None, "not-an-option", lambda: f"{what}: {x!r} is no option of {opts}")
        if opts[i][0] == "const":
            mon.check(x == opts[i][1], "not-the-selected-option", lambda: f"{what}: {x!r} for index {i} of {opts}")
        else:
            mon.check(x == p.choices[i].value, "not-the-selected-option", lambda: f"{what}: {x!r} for {p.choices[i].value}")
            mon.event("nested")
    mon.check(rep is not None or p.index == inds[0], "index", lambda: f"{what}: index {p.index} with indices {inds}")
    mon.check(spaces.freeze(p.value) == spaces.freeze(v), "unstable", lambda: f"{what}: {v!r} then {p.value!r}")
    mon.check(len(p) == len(opts), "len", lambda: f"{what}: length {len(p)}")
    mon.seen(what.split(":")[0], len(opts), rep, tuple(inds))
    return inds


def set_values(mon: Mon, r: tp.Any, kind: str, p: tp.Any, opts: tp.List[tp.Any], rep: tp.Optional[int]) -> tp.Tuple[tp.Any, tp.List[int]]:
    """sets random options, and checks that they were selected"""
    import nevergrad as ng

    used: tp.Dict[int, tp.Any] = {}
    inds = [r.randrange(len(opts)) for _ in range(rep or 1)]
    vals = [used.setdefault(i, opts[i][1] if opts[i][0] == "const" else r.uniform(opts[i][1], opts[i][2])) for i in inds]
    v = vals[0] if rep is None else tuple(vals)
    child = p.spawn_child(new_value=v)
    what = f"{kind}: {opts} set to {v!r}"
    got = judge(mon, what, child, opts, rep)
    mon.check(spaces.same(child.value, v, 1e-9, 1e-7), "set-value", lambda: f"{what}: read {child.value!r}")
    mon.check(got == inds or [opts[i] for i in got] == [opts[i] for i in inds], "set-index", lambda: f"{what}: indices {got} instead of {inds}")
    mon.event("set")
    # the vector leads back to the same options
    z = child.get_standardized_data(reference=p)
    back = p.spawn_child()
    with ng.p.helpers.deterministic_sampling(back):
        back.set_standardized_data(z, reference=p)
    mon.check(spaces.same(back.value, v, 1e-9, 1e-6), "set-roundtrip", lambda: f"{what}: {back.value!r} through {z}")
    judge(mon, what, back, opts, rep)
    return child, got


def choice_case(r: tp.Any, mon: Mon) -> None:
    import nevergrad as ng

    for _ in range(4):
        n, opts = options(r)
        rep = r.choice([None, None, 1, 2, 4])
        det = r.random() < 0.4
        p = build("choice", opts, rep, deterministic=det)
        p.random_state.seed(r.randrange(2**32))
        what = f"choice: {opts} rep={rep} det={det}"
        inds = judge(mon, what, p, opts, rep)
        mon.check(not det or inds == [0] * (rep or 1), "deterministic-initial", lambda: f"{what}: initial options {inds}")
        for _ in range(3):
            set_values(mon, r, "choice", p, opts, rep)
        # the most likely option is the one of the largest weight
        rows = rep or 1
        for _ in range(4):
            w = np.array([[r.gauss(0, 2) for _ in range(n)] for _ in range(rows)])
            c = p.spawn_child()
            with ng.p.helpers.deterministic_sampling(c):
                c.indices.set_standardized_data(w.ravel(), reference=p.indices)
                inds = judge(mon, what, c, opts, rep)
                mon.check(inds == w.argmax(axis=1).tolist(), "deterministic", lambda: f"{what}: options {inds} with weights {w.tolist()}")
                mon.event("deterministic")
            if det:
                c = p.spawn_child()
                c.indices.set_standardized_data(w.ravel(), reference=p.indices)
                inds = judge(mon, what, c, opts, rep)
                mon.check(inds == w.argmax(axis=1).tolist(), "deterministic", lambda: f"{what}: options {inds} with weights {w.tolist()}")
        c = p
        for _ in range(5):
            c = c.spawn_child()
            before = {k: (o.value if hasattr(o, "value") else o) for k, o in ((k, c.choices[k]) for k in range(n))}
            c.mutate()
            inds = judge(mon, what, c, opts, rep)
            for k in range(n):
                # only the options selected in the course of the mutation can be mutated
                if opts[k][0] == "const":
                    mon.check(c.choices[k].value == before[k], "constant-mutated", lambda: f"{what}: option {k} became {c.choices[k].value}")
            mon.event("mutate")
            judge(mon, what, p.sample(), opts, rep)


def transition_case(r: tp.Any, mon: Mon) -> None:
    for _ in range(4):
        n, opts = options(r)
        rep = r.choice([None, None, 1, 2, 3])
        ordered = r.random() < 0.6
        trans = r.choice([None, (1.0, 1.0), (0.5, 1.0, 2.0), (1e-9, 1.0)])
        kw = {} if trans is None else {"transitions": trans}
        p = build("transition", opts, rep, ordered=ordered, **kw)
        p.random_state.seed(r.randrange(2**32))
        what = f"transition: {opts} rep={rep} ordered={ordered}"
        judge(mon, what, p, opts, rep)
        starts = [p] + [set_values(mon, r, "transition", p, opts, rep)[0] for _ in range(3)]
        # the vector of the indices covers all the options, uniformly for a normal distribution from the middle
        rows = rep or 1
        seen: tp.Set[int] = set()
        ntrans = len(trans) if trans is not None else 2
        others = p.dimension - rows
        mon.check(others == sum(o[0] != "const" for o in opts), "dimension", lambda: f"{what}: dimension {p.dimension}")
        for k in range(n):
            u = [(k + r.uniform(0.02, 0.98)) / n for _ in range(rows)]
            z = np.array([_ppf(x) for x in u])
            c = p.spawn_child()
            c.indices.set_standardized_data(z, reference=p.indices)
            inds = judge(mon, what, c, opts, rep)
            mon.check(inds == [k] * rows, "bin", lambda: f"{what}: option {inds} instead of {k} for {z}")
            seen |= set(inds)
            mon.event("transition-bin")
            if not ordered:  # whatever the current option
                src = r.choice(starts).spawn_child()
                src.set_standardized_data(np.concatenate([np.zeros(others), z]), reference=src.copy())
                inds = judge(mon, what, src, opts, rep)
                mon.check(inds == [k] * rows, "unordered-bin", lambda: f"{what}: option {inds} instead of {k} for {z}")
                mon.event("unordered-bin")
        mon.check(seen == set(range(n)), "coverage", lambda: f"{what}: only {seen} are reachable")
        mon.event("coverage")
        # mutations move to neighbours, or anywhere if unordered
        c = r.choice(starts)
        for _ in range(8):
            prev = [int(x) for x in c.indices.value]
            c = c.spawn_child()
            c.mutate()
            inds = judge(mon, what, c, opts, rep)
            if ordered:
                reach = ntrans - 1
                mon.check(all(abs(a - b) <= reach for a, b in zip(prev, inds)), "transition-too-far", lambda: f"{what}: moves from {prev} to {inds} with {ntrans} transitions")
            mon.event("transition-mutate")


def _ppf(u: float) -> float:
    import statistics

    return statistics.NormalDist().inv_cdf(u)


def frequency_case(r: tp.Any, mon: Mon) -> None:
    import nevergrad as ng

    n = r.randint(2, 5)
    big = 400
    N = big * 20
    p = ng.p.Choice(n, repetitions=big)
    p.random_state.seed(r.randrange(2**32))

    def draw(src: tp.Any) -> np.ndarray:
        out = []
        for _ in range(N // big):
            out.append(src.spawn_child().value)
        return np.array(out)  # type: ignore

    draws = draw(p)
    prob = too_rare(np.bincount(draws.ravel(), minlength=n), np.ones(n) / n)
    mon.check(prob is None, "initial-frequency", lambda: f"initial choice of {n}: {prob}")
    mon.event("initial-frequency")
    mon.seen("initial", n)
    # repetitions are independent
    pairs = draws[:, ::2] * n + draws[:, 1::2]
    prob = too_rare(np.bincount(pairs.ravel(), minlength=n * n), np.ones(n * n) / n**2)
    mon.check(prob is None, "repetitions-dependent", lambda: f"pairs of repetitions of {n} options: {prob}")
    mon.event("independent-repetitions")
    # with weights
    for _ in range(3):
        w = np.array([r.gauss(0, 1.5) for _ in range(n)])
        if r.random() < 0.3:
            w[r.randrange(n)] -= 1e3  # excluded
        c = p.spawn_child()
        c.set_standardized_data(np.tile(w, big), reference=p)
        prob = too_rare(np.bincount(draw(c).ravel(), minlength=n), softmax(w))
        mon.check(prob is None, "frequency", lambda: f"weights {w.tolist()}: {prob}")
        mon.event("frequency")
        mon.seen("weights", n, tuple(np.argsort(w)))
    # a single choice and its children
    single = ng.p.Choice([f"o{k}" for k in range(n)])
    single.random_state = p.random_state
    w = np.array([r.gauss(0, 1) for _ in range(n)])
    c = single.spawn_child()
    c.set_standardized_data(w, reference=single)
    names = [c.spawn_child().value for _ in range(600)]
    prob = too_rare(np.array([names.count(f"o{k}") for k in range(n)]), softmax(w))
    mon.check(prob is None, "frequency", lambda: f"weights {w.tolist()}: {prob}")
    # after being set, an option is selected more often but the others remain reachable
    k = r.randrange(n)
    p.value = (k,) * big
    got = np.bincount(draw(p).ravel(), minlength=n)
    others = np.delete(got, k)
    mon.check(got[k] > N / n and (others > 0).all(), "after-set-frequency", lambda: f"option {k} of {n} was set, children draw {got}")
    prob = too_rare(others, np.ones(n - 1) / (n - 1)) if n > 2 else None
    mon.check(prob is None, "after-set-frequency", lambda: f"option {k} of {n} was set, children draw {got}: {prob}")
    mon.event("after-set-frequency")


class FixedRng:
    def __init__(self, u: float) -> None:
        self.u = u

    def rand(self, *shape: int) -> np.ndarray:
        return np.full(shape, self.u)


def discretization_case(r: tp.Any, mon: Mon) -> None:
    from nevergrad.parametrization import discretization as d

    arity = r.choice([2, 3, 4, 7, 10, 100, 1000])
    inds = list(range(arity)) if arity <= 100 else r.sample(range(arity), 100)
    z = d.inverse_threshold_discretization(inds, arity)
    mon.check(np.isfinite(z).all() and list(d.threshold_discretization(z, arity)) == inds, "threshold-inverse", lambda: f"arity {arity}: {inds} to {z} to {d.threshold_discretization(z, arity)}")
    rng = np.random.RandomState(r.randrange(2**32))
    z2 = d.noisy_inverse_threshold_discretization(inds, arity, rng)
    mon.check(list(d.threshold_discretization(z2, arity)) == inds, "threshold-noisy-inverse", lambda: f"arity {arity}: {inds} to {z2} to {d.threshold_discretization(z2, arity)}")
    x = np.sort(np.concatenate([rng.normal(size=50) * r.choice([1, 5]), [-1e300, 1e300, -np.inf, np.inf]]))
    keep = x.copy()
    out = list(d.threshold_discretization(x, arity))
    mon.check(min(out) == 0 and max(out) == arity - 1 and out == sorted(out) and all(isinstance(o, int) for o in out), "threshold-range", lambda: f"arity {arity}: {out}")
    mon.check((x == keep).all(), "threshold-input", "the input was modified")
    import statistics

    cdf = [statistics.NormalDist().cdf(v) for v in x]
    for c, o, v in zip(cdf, out, x):
        if abs(c * arity - round(c * arity)) > 1e-6:
            mon.check(o == min(arity - 1, int(c * arity)), "threshold-bin", lambda: f"arity {arity}: {v} in bin {o} instead of {c * arity}")
    mon.check(list(d.threshold_discretization([float("nan"), 10.0], arity)) == [0, arity - 1], "threshold-nan", lambda: f"arity {arity}: nan")
    mon.event("threshold")
    mon.seen("threshold", arity)
    # encoder
    for _ in range(10):
        rows, n = r.randint(1, 4), r.randint(1, 6)
        w = rng.normal(size=(rows, n)) * r.choice([1.0, 10.0, 1000.0])
        for _ in range(r.randint(0, 3)):
            w[r.randrange(rows), r.randrange(n)] = r.choice([np.nan, np.inf, -np.inf, 0.0, 0.0])
        enc = d.Encoder(w, rng)
        probs = enc.probabilities()
        expected = np.zeros_like(w)
        for k in range(rows):
            row = np.where(np.isnan(w[k]), -np.inf, w[k])
            if np.isposinf(row).any():
                expected[k] = np.isposinf(row) / np.isposinf(row).sum()
            elif np.isneginf(row).all():
                expected[k] = 1.0 / n
            else:
                expected[k] = softmax(row)
        mon.check(np.allclose(probs, expected, rtol=1e-9, atol=1e-15), "probabilities", lambda: f"{w.tolist()} gives {probs.tolist()}")
        det = enc.encode(deterministic=True)
        row = np.where(np.isnan(w), -np.inf, w)
        mon.check(det.shape == (rows,) and (det == row.argmax(axis=1)).all(), "encode-deterministic", lambda: f"{w.tolist()} gives {det}")
        for u in (0.0, 0.25, 0.5, 0.75, 1 - 2.0**-53, r.random()):
            sel = d.Encoder(w, FixedRng(u)).encode()  # type: ignore
            mon.check(sel.shape == (rows,) and all(0 <= s < n for s in sel), "encode-range", lambda: f"{w.tolist()} gives {sel}")
            mon.check(all(expected[k, s] > 0 for k, s in enumerate(sel)), "encode-impossible", lambda: f"{w.tolist()} with u={u} selects {sel} of probabilities {expected.tolist()}")
            mon.event("encoder")
        mon.seen("encoder", rows, n, tuple(det))
