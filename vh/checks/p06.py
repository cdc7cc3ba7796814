"""P06: random chains of arithmetic operations are applied to data parameters and, as numpy operations, to the values of the parameters they are built from; both are compared through mutations, samples, vectors and setters."""
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (base parameter, chain of operations, kind of update): a derived value compared with numpy on the base value"
BUDGET_S = {"quick": 40, "thorough": 400}
MIN_EVALS = 20000
NEED_EVENTS = ("vector", "mutate", "sample", "set", "set-modulo", "base-unchanged", "angle", "optimizer", "add", "mul", "pow", "rpow", "mod", "div", "rdiv", "neg", "sub", "bounds-above", "refused")
ASSUMPTIONS = ["operations are compared on values which remain in [1e-6, 1e6] in magnitude; relative tolerance 1e-7"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 1200 if tier == "quick" else 25000
    return [dict(kind="angle" if k % 8 == 7 else "chain", seed=seed * 1000000 + k) for k in range(n)]


def base_param(r: tp.Any) -> tp.Tuple[str, tp.Any, float, float]:
    """name, parameter, interval of its values (by its bounds)"""
    import nevergrad as ng

    k = r.randrange(6)
    lo = r.choice([-3.0, 0.5, 1.0])
    hi = lo + r.choice([1.0, 4.0])
    n = r.choice([1, 2, 3])
    if k == 0:
        return f"array{n}", ng.p.Array(shape=(n,)), -np.inf, np.inf
    if k == 1:
        return f"array{n}({lo},{hi})", ng.p.Array(init=np.full(n, (lo + hi) / 2), lower=lo, upper=hi), lo, hi
    if k == 2:
        return "scalar", ng.p.Scalar(init=r.gauss(0, 1)), -np.inf, np.inf
    if k == 3:
        return f"scalar({lo},{hi})", ng.p.Scalar(lower=lo, upper=hi), lo, hi
    if k == 4:
        return "log", ng.p.Log(lower=0.1, upper=10.0), 0.1, 10.0
    return "array2x2", ng.p.Array(init=np.full((2, 2), (lo + hi) / 2)).set_bounds(lo, hi, method=r.choice(["clipping", "bouncing", "arctan"])), lo, hi


class Op:
    def __init__(self, name: str, on_param: tp.Callable[[tp.Any], tp.Any], on_value: tp.Callable[[tp.Any], tp.Any], bijective: bool) -> None:
        self.name, self.on_param, self.on_value, self.bijective = name, on_param, on_value, bijective


def gen_op(r: tp.Any, lo: float, hi: float, shape: tp.Any) -> tp.Tuple[Op, float, float]:
    """operation defined on values in [lo, hi], and interval of its image"""
    kinds = ["add", "radd", "sub", "mul", "rmul", "div", "neg"]
    bounded = np.isfinite(lo) and np.isfinite(hi)
    if bounded:
        kinds += ["mod", "pow-odd"]
        if max(abs(lo), abs(hi)) < 20:
            kinds += ["rpow", "rpow"]
        if lo >= 0.05:
            kinds += ["rdiv", "pow-any", "pow-even"]
    kind = r.choice(kinds)
    c: tp.Any = r.choice([r.gauss(0, 1), r.randint(1, 4), r.uniform(0.3, 2)])
    if shape is not None and r.random() < 0.4 and kind in ("add", "sub", "mul", "div"):
        c = np.array([r.choice([-1, 1]) * r.uniform(0.3, 2) for _ in range(int(np.prod(shape)))]).reshape(shape)
    cmin, cmax = float(np.min(c)), float(np.max(c))
    if kind in ("add", "radd"):
        f = (lambda p: p + c) if kind == "add" else (lambda p: c + p)
        return Op("add", f, lambda v: v + c, True), lo + cmin, hi + cmax
    if kind == "sub":
        return Op("sub", lambda p: p - c, lambda v: v - c, True), lo - cmax, hi - cmin
    if kind in ("mul", "rmul", "div"):
        ends = [x * y for x in (lo, hi) for y in ((cmin, cmax) if kind != "div" else (1 / cmin, 1 / cmax))]
        if cmin < 0 < cmax and kind == "div":  # mixed signs
            inv = 1 / np.asarray(c)
            ends = [x * y for x in (lo, hi) for y in (float(inv.min()), float(inv.max()))]
        fs = {"mul": (lambda p: p * c, lambda v: v * c), "rmul": (lambda p: c * p, lambda v: c * v), "div": (lambda p: p / c, lambda v: v / c)}[kind]
        return Op("mul" if kind != "div" else "div", fs[0], fs[1], True), min(ends), max(ends)
    if kind == "neg":
        return Op("neg", lambda p: -p, lambda v: -v, True), -hi, -lo
    if kind == "mod":
        m = r.choice([1, 2.5, 0.7, 3])
        return Op("mod", lambda p: p % m, lambda v: v % m, False), 0.0, float(m)
    if kind == "rpow":
        b = r.choice([2, 10.0, 0.5, 1.3])
        ends = [b**lo, b**hi]
        return Op("rpow", lambda p: b**p, lambda v: b**v, True), min(ends), max(ends)
    if kind == "rdiv":
        d = r.choice([1, 2.0, 5])
        return Op("rdiv", lambda p: d / p, lambda v: d / v, True), d / hi, d / lo
    e = {"pow-odd": [1, 3], "pow-even": [2, 4], "pow-any": [0.5, 1.7, -1, -2, 2]}[kind]
    q = r.choice(e)
    ends = [float(lo) ** q, float(hi) ** q]
    return Op("pow", lambda p: p**q, lambda v: v**q, True), min(ends), max(ends)


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    r = rng_of(case)
    if case["kind"] == "angle":
        angle_case(r, mon)
        return
    rs = np.random.RandomState(r.randrange(2**32))
    name, base, lo, hi = base_param(r)
    base.random_state.seed(r.randrange(2**32))
    unbounded = not np.isfinite(lo)
    v0 = base.value
    shape = v0.shape if isinstance(v0, np.ndarray) else None
    ops: tp.List[Op] = []
    derived = base
    before = spaces.freeze(base.value)
    chain = name
    for _ in range(r.randint(1, 4)):
        op, nlo, nhi = gen_op(r, lo, hi, shape)
        if np.isfinite(nlo) and (max(abs(nlo), abs(nhi)) > 1e5 or 0 < nhi - nlo < 1e-4 * max(abs(nlo), abs(nhi))):
            continue
        prev = derived
        prev_value = spaces.freeze(prev.value)
        derived = op.on_param(derived)
        lo, hi = nlo, nhi
        ops.append(op)
        chain += "|" + op.name
        mon.event(op.name)
        mon.check(derived is not prev and spaces.freeze(prev.value) == prev_value, "operand-changed", lambda: f"{chain}: the operand became {prev.value!r}")
        mon.check(type(derived) is type(prev), "type", lambda: f"{chain}: {type(derived)} for {type(prev)}")
    if not ops:
        return
    mod = any(not o.bijective for o in ops)

    def f(v: tp.Any) -> tp.Any:
        for o in ops:
            v = o.on_value(v)
        return v

    def wrap_safe(v: tp.Any) -> bool:
        """whether no modulo is close to a jump"""
        for o in ops:
            v = o.on_value(v)
            if not o.bijective and (np.min(v) < 1e-5 or np.min(np.abs(np.asarray(v) - hi_of(o))) < 1e-5):
                return False
        return bool(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e6)

    def hi_of(o: Op) -> float:
        return float(o.on_value(np.array(-1e-9))) + 1e-9

    def close(a: tp.Any, b: tp.Any) -> bool:
        return np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=1e-7, atol=1e-7))

    mon.check(derived.dimension == base.dimension, "dimension", lambda: f"{chain}: dimension {derived.dimension}")
    mon.check(not wrap_safe(v0) or close(derived.value, f(v0)), "initial", lambda: f"{chain}: {derived.value!r} for {v0!r} (expected {f(v0)!r})")
    # vectors, mutations, samples
    for kind in ("vector", "mutate", "sample", "vector", "mutate", "sample"):
        if kind == "vector":
            child = derived.spawn_child().set_standardized_data(rs.normal(size=derived.dimension) * 1.5, reference=derived)
        elif kind == "mutate":
            child = derived.spawn_child()
            child.mutate()
        else:
            child = derived.sample()
        value = child.value
        z = child.get_standardized_data(reference=derived)
        b = base.spawn_child().set_standardized_data(z, reference=base).value
        if wrap_safe(b):
            mon.check(close(value, f(b)), f"value:{kind}", lambda: f"{chain}: {value!r} for base {b!r} (expected {f(b)!r})")
            mon.event(kind)
            mon.seen(chain, kind)
        mon.check(spaces.freeze(base.value) == before, "base-changed", lambda: f"{chain}: the base became {base.value!r}")
        mon.event("base-unchanged")
    # setters
    for _ in range(4):
        b = base.sample().value if not name == "scalar" else r.gauss(0, 2)
        if not wrap_safe(b):
            continue
        target = f(b)
        try:
            child = derived.spawn_child(new_value=target)
        except Exception as e:  # pylint: disable=broad-except
            if mod:  # (the multiple of the module which is kept can be out of the bounds)
                continue
            mon.violate("set-refused", f"{chain}: {target!r} (image of {b!r}) refused: {e!r}")
            continue
        mon.check(close(child.value, target), "set-value", lambda: f"{chain}: set {target!r}, read {child.value!r}")
        back = base.spawn_child().set_standardized_data(child.get_standardized_data(reference=derived), reference=base).value
        if not mod:
            mon.check(np.allclose(back, b, rtol=1e-5, atol=1e-5), "set-base", lambda: f"{chain}: set {target!r} image of {b!r}, but the base is {back!r}")
            mon.event("set")
        else:
            mon.event("set-modulo")
        mon.check(spaces.freeze(base.value) == before, "base-changed", lambda: f"{chain}: the base became {base.value!r}")
        mon.seen(chain, "set")
    # values out of the image are refused
    if ops[-1].name == "rpow" or (ops[-1].name == "pow" and lo > 0):
        try:
            bad = derived.spawn_child(new_value=f(v0) * -1.0 if shape is not None else -float(f(v0))).value
        except Exception:  # pylint: disable=broad-except
            mon.check(True, "refused", "")
            mon.event("refused")
        else:
            mon.check(bool(np.all(np.isfinite(bad))), "accepted-nan", lambda: f"{chain}: negative value accepted, read {bad!r}")
    # bounds can be added above
    if unbounded and not mod and wrap_safe(v0):
        v = derived.value
        margin = 0.5 + 0.1 * float(np.max(np.abs(v)))
        above = derived.copy()
        blo, bhi = float(np.min(v)) - margin, float(np.max(v)) + margin
        if not any(o.name in ("pow", "rdiv", "rpow") for o in ops) and blo >= lo and bhi <= hi:
            above.set_bounds(blo, bhi, method=r.choice(["clipping", "bouncing"]))
            for _ in range(3):
                x = np.asarray(above.sample().value)
                mon.check((x >= blo - 1e-9).all() and (x <= bhi + 1e-9).all(), "bounds-above", lambda: f"{chain}: sample {x} out of ({blo}, {bhi})")
                mon.event("bounds-above")
            mon.check(close(above.value, v), "bounds-above-value", lambda: f"{chain}: {above.value!r} instead of {v!r}")
    # in an optimizer
    opt = ng.optimizers.registry[r.choice(["OnePlusOne", "RandomSearch", "DE"])](derived.copy(), budget=10)
    for _ in range(3):
        c = opt.ask()
        b = base.spawn_child().set_standardized_data(c.get_standardized_data(reference=opt.parametrization), reference=base).value
        if wrap_safe(b):
            mon.check(close(c.value, f(b)), "value:optimizer", lambda: f"{chain}: asked {c.value!r} for base {b!r} (expected {f(b)!r})")
        opt.tell(c, r.random())
        mon.event("optimizer")


def angle_case(r: tp.Any, mon: Mon) -> None:
    from nevergrad.parametrization import _datalayers  # not exposed elsewhere

    shape = r.choice([(1,), (3,), (2, 2)])
    deg = r.random() < 0.5
    turn = 360.0 if deg else 2 * np.pi
    p = _datalayers.Angles(shape=shape, deg=deg, bound_method=r.choice([None, "clipping", "bouncing"]))
    p.random_state.seed(r.randrange(2**32))
    rs = np.random.RandomState(r.randrange(2**32))
    for k in range(8):
        if k % 2:
            a = (rs.rand(*shape) - 0.5) * turn * 0.999
            c = p.spawn_child(new_value=a)
            mon.check(np.allclose(c.value, a, atol=1e-6 * turn), "angle-set", lambda: f"{a} read as {c.value}")
        else:
            c = p.spawn_child()
            c.mutate()
        v = c.value
        mon.check(v.shape == shape and (np.abs(v) <= turn / 2 * (1 + 1e-12)).all(), "angle-range", lambda: f"{v} (turn {turn})")
        z = c.get_standardized_data(reference=p)
        back = p.spawn_child().set_standardized_data(z, reference=p).value
        d = np.abs(back - v)
        mon.check((np.minimum(d, turn - d) < 1e-6 * turn).all(), "angle-roundtrip", lambda: f"{v} through {z} becomes {back}")
        mon.event("angle")
        mon.seen("angle", shape, deg, k)
