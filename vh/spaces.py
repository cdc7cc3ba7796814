"""Random parametrization programs ("specs") with an independent description of their domain.

A spec is a JSON-able dict. build(spec) gives the nevergrad parameter, problem(spec, value) says why a value
is outside the declared domain (None if inside), sample_value(spec, rng) gives an admissible value.
"""
import math
import numbers
import random
import typing as tp
import numpy as np

Spec = tp.Dict[str, tp.Any]
STR_OPTS = ["a", "b", "c", "d", "e", "f"]


# ---------------------------------------------------------------- generation
def gen_bounds(r: random.Random, partial: bool = True) -> tp.Tuple[tp.Optional[float], tp.Optional[float]]:
    kind = r.random()
    lo = r.choice([-10.0, -3.5, -1.0, 0.0, 0.25, 1.0, 2.0, 100.0])
    width = r.choice([0.01, 0.5, 1.0, 2.0, 7.25, 40.0, 1000.0])
    if partial and kind < 0.2:
        return lo, None
    if partial and kind < 0.4:
        return None, lo
    return lo, lo + width


def gen_array(r: random.Random, maxsize: int = 4, ints: bool = True) -> Spec:
    shape = r.choice([[1], [2], [3], [2, 2], [maxsize]])
    s: Spec = {"t": "array", "shape": shape}
    k = r.random()
    if k < 0.65:
        method = r.choice(["bouncing", "clipping", "arctan", "tanh", "gaussian", "init"])
        lo, hi = gen_bounds(r, partial=method in ("bouncing", "clipping", "init"))
        if method in ("arctan", "tanh", "gaussian") and lo is not None and hi is not None and hi - lo < 0.1:
            hi = lo + 1.0
        s.update(lower=lo, upper=hi, method=method)
    if ints and r.random() < 0.3:
        lo, hi = s.get("lower"), s.get("upper")
        if lo is None or hi is None or hi - lo >= 2:
            s["int"] = True
    if r.random() < 0.2:
        s["sigma"] = r.choice([0.1, 3.0])
    if r.random() < 0.15:
        s["mutable_sigma"] = True
    if r.random() < 0.5:
        s["init"] = np.array([leaf_value(s, r) for _ in range(int(np.prod(shape)))]).reshape(shape).tolist()
    elif s.get("lower") is not None or s.get("upper") is not None:
        if s.get("lower") is None or s.get("upper") is None or s.get("method") != "init":
            # zeros would not be in the bounds
            s["init"] = np.array([leaf_value(s, r) for _ in range(int(np.prod(shape)))]).reshape(shape).tolist()
    return s


def gen_scalar(r: random.Random) -> Spec:
    s: Spec = {"t": "scalar"}
    if r.random() < 0.7:
        method = r.choice(["bouncing", "clipping", "arctan", "tanh", "gaussian", "init"])
        lo, hi = gen_bounds(r, partial=method in ("bouncing", "clipping", "init"))
        if method in ("arctan", "tanh", "gaussian") and lo is not None and hi is not None and hi - lo < 0.1:
            hi = lo + 1.0
        s.update(lower=lo, upper=hi, method=method)
    lo, hi = s.get("lower"), s.get("upper")
    if r.random() < 0.35 and (lo is None or hi is None or hi - lo >= 2):
        s["int"] = True
    if r.random() < 0.5 or (s.get("method") not in (None, "init")) or ((lo is None) != (hi is None)):
        s["init"] = leaf_value(s, r)
    if r.random() < 0.2:
        s["mutable_sigma"] = r.random() < 0.5
    if r.random() < 0.15:
        s["sigma"] = r.choice([0.2, 2.0])
    return s


def gen_log(r: random.Random) -> Spec:
    lo = r.choice([1e-5, 0.01, 0.5, 1.0])
    hi = lo * r.choice([3.0, 10.0, 1e4])
    k = r.random()
    s: Spec = {"t": "log"}
    if k < 0.6:
        s.update(lower=lo, upper=hi)
    elif k < 0.7:
        s.update(lower=lo, init=lo * 2)
    elif k < 0.8:
        s.update(upper=hi, init=hi / 2)
    else:
        s.update(init=lo)
    if r.random() < 0.3:
        s["exponent"] = r.choice([1.3, 2.0, 5.0])
    if s.get("upper") and hi >= 10 * 1.0 and lo >= 0.5 and r.random() < 0.4:
        s["int"] = True
    return s


def gen_leaf(r: random.Random) -> Spec:
    return r.choice([gen_array, gen_scalar, gen_scalar, gen_log])(r)


def gen_choice(r: random.Random, depth: int) -> Spec:
    n = r.choice([2, 2, 3, 4, 5])
    opts: tp.List[tp.Any] = []
    nested = depth > 0 and r.random() < 0.35
    for k in range(n):
        if nested and r.random() < 0.5:
            opts.append({"t": "scalar", "lower": 10.0 * k, "upper": 10.0 * k + 5.0, "method": "init"})
        else:
            opts.append({"t": "const", "v": r.choice([STR_OPTS[k], STR_OPTS[k] * 2])})
    return {"t": "choice", "opts": opts, "rep": r.choice([None, None, 1, 2, 3]), "det": r.random() < 0.3}


def gen_transition(r: random.Random, depth: int) -> Spec:
    s = gen_choice(r, depth)
    s["t"] = "transition"
    del s["det"]
    s["ordered"] = r.random() < 0.8
    return s


def gen(r: random.Random, depth: int = 2, root: bool = True) -> Spec:
    if depth == 0 or r.random() < (0.35 if root else 0.55):
        k = r.random()
        if k < 0.6:
            return gen_leaf(r)
        if k < 0.8:
            return gen_choice(r, depth)
        return gen_transition(r, depth)
    kind = r.choice(["tuple", "dict", "instru"])
    sub = lambda: gen(r, depth - 1, False) if r.random() < 0.85 else {"t": "const", "v": r.choice([1, "x", 2.5])}
    if kind == "tuple":
        items = [sub() for _ in range(r.randint(1, 3))]
        return {"t": "tuple", "items": _ensure_var(items, r)}
    keys = r.sample(["x", "y", "alpha", "b0", "zz", "k"], r.randint(1, 3))
    if kind == "dict":
        vals = _ensure_var([sub() for _ in keys], r)
        return {"t": "dict", "items": dict(zip(keys, vals))}
    nargs = r.randint(0, 2)
    items = _ensure_var([sub() for _ in range(nargs + len(keys))], r)
    return {"t": "instru", "args": items[:nargs], "kwargs": dict(zip(keys, items[nargs:]))}


def _ensure_var(items: tp.List[Spec], r: random.Random) -> tp.List[Spec]:
    if all(i["t"] == "const" for i in items):
        items[0] = gen_leaf(r)
    return items


# ---------------------------------------------------------------- building
def build(s: Spec) -> tp.Any:
    import nevergrad as ng

    t = s["t"]
    if t == "const":
        return s["v"]
    if t == "array":
        kw: tp.Dict[str, tp.Any] = {}
        lo, hi = s.get("lower"), s.get("upper")
        if s.get("method") == "init":
            kw.update(lower=lo, upper=hi)
        if s.get("mutable_sigma"):
            kw["mutable_sigma"] = True
        if s.get("init") is not None:
            p: tp.Any = ng.p.Array(init=np.array(s["init"], dtype=float), **kw)
        else:
            p = ng.p.Array(shape=tuple(s["shape"]), **kw)
        if (lo is not None or hi is not None) and s.get("method") != "init":
            p.set_bounds(lo, hi, method=s["method"])
        if s.get("sigma"):
            p.set_mutation(sigma=s["sigma"])
        if s.get("int"):
            p.set_integer_casting()
        return p
    if t == "scalar":
        kw = {}
        if "mutable_sigma" in s:
            kw["mutable_sigma"] = s["mutable_sigma"]
        lo, hi = s.get("lower"), s.get("upper")
        if s.get("method") == "init":
            p = ng.p.Scalar(init=s.get("init"), lower=lo, upper=hi, **kw)
        else:
            p = ng.p.Scalar(init=s.get("init"), **kw)
            if lo is not None or hi is not None:
                p.set_bounds(lo, hi, method=s["method"])
        if s.get("sigma"):
            p.set_mutation(sigma=s["sigma"])
        if s.get("int"):
            p.set_integer_casting()
        return p
    if t == "log":
        p = ng.p.Log(init=s.get("init"), lower=s.get("lower"), upper=s.get("upper"), exponent=s.get("exponent"))
        if s.get("int"):
            p.set_integer_casting()
        return p
    if t == "choice":
        return ng.p.Choice([build(o) for o in s["opts"]], repetitions=s["rep"], deterministic=s["det"])
    if t == "transition":
        return ng.p.TransitionChoice(
            [build(o) for o in s["opts"]], repetitions=s["rep"], ordered=s.get("ordered", True)
        )
    if t == "tuple":
        return ng.p.Tuple(*[build(i) for i in s["items"]])
    if t == "dict":
        return ng.p.Dict(**{k: build(v) for k, v in s["items"].items()})
    if t == "instru":
        return ng.p.Instrumentation(
            *[build(i) for i in s["args"]], **{k: build(v) for k, v in s["kwargs"].items()}
        )
    raise ValueError(t)


# ---------------------------------------------------------------- domain
def leaf_value(s: Spec, r: random.Random) -> tp.Any:
    """admissible python number for one coordinate"""
    lo, hi = s.get("lower"), s.get("upper")
    if s["t"] == "log":
        a = lo if lo is not None else (s["init"] * 0.1 if hi is None else hi * 0.01)
        b = hi if hi is not None else (s["init"] * 10)
        x = math.exp(r.uniform(math.log(a), math.log(b)))
        x = min(max(x, a), b)
    else:
        a = lo if lo is not None else ((hi if hi is not None else 0.0) - 5.0)
        b = hi if hi is not None else ((lo if lo is not None else 0.0) + 5.0)
        open_ends = s.get("method") in ("arctan", "tanh", "gaussian")
        if open_ends:  # keep away from the infinite ends
            m = 0.05 * (b - a)
            x = r.uniform(a + m, b - m)
        else:
            x = r.choice([a, b]) if r.random() < 0.15 else r.uniform(a, b)
    if s.get("int"):
        lo_i, hi_i = math.ceil(a - 1e-12), math.floor(b + 1e-12)
        x = float(min(max(round(x), lo_i), hi_i))
        if s.get("method") in ("arctan", "tanh", "gaussian"):
            if x - a < 0.02 * (b - a) or b - x < 0.02 * (b - a):
                x = float(round((a + b) / 2))
    return x


def sample_value(s: Spec, r: random.Random) -> tp.Any:
    t = s["t"]
    if t == "const":
        return s["v"]
    if t == "array":
        n = int(np.prod(s["shape"]))
        return np.array([leaf_value(s, r) for _ in range(n)]).reshape(s["shape"])
    if t in ("scalar", "log"):
        x = leaf_value(s, r)
        return int(x) if s.get("int") else x
    if t in ("choice", "transition"):
        if s["rep"] is None:
            return sample_value(r.choice(s["opts"]), r)
        # nested options hold one value per option: stay consistent by using each nested option once
        used: tp.Dict[int, tp.Any] = {}
        out = []
        for _ in range(s["rep"]):
            k = r.randrange(len(s["opts"]))
            if k not in used:
                used[k] = sample_value(s["opts"][k], r)
            out.append(used[k])
        return tuple(out)
    if t == "tuple":
        return tuple(sample_value(i, r) for i in s["items"])
    if t == "dict":
        return {k: sample_value(v, r) for k, v in s["items"].items()}
    if t == "instru":
        return (
            tuple(sample_value(i, r) for i in s["args"]),
            {k: sample_value(v, r) for k, v in s["kwargs"].items()},
        )
    raise ValueError(t)


def _num_problem(s: Spec, x: float, where: str) -> tp.Optional[str]:
    if not math.isfinite(x):
        # one-sided/unbounded parameters may overflow; bounded ones may not
        if x > 0 and s.get("upper") is None or x < 0 and s.get("lower") is None:
            return None
        return f"{where}: non-finite {x}"
    lo, hi = s.get("lower"), s.get("upper")
    scale = max(abs(lo or 0.0), abs(hi or 0.0), 1e-300)
    tol = 1e-9 * scale if s["t"] != "log" else 0.0
    if s["t"] == "log":
        if x < 0 or (x == 0 and lo is not None):  # (0.0 is an underflow of an unbounded log parameter)
            return f"{where}: non positive {x}"
        if lo is not None and x < lo * (1 - 1e-9):
            return f"{where}: {x!r} below {lo}"
        if hi is not None and x > hi * (1 + 1e-9):
            return f"{where}: {x!r} above {hi}"
    else:
        if lo is not None and x < lo - tol:
            return f"{where}: {x!r} below {lo}"
        if hi is not None and x > hi + tol:
            return f"{where}: {x!r} above {hi}"
    return None


def problem(s: Spec, v: tp.Any, where: str = "value") -> tp.Optional[str]:
    t = s["t"]
    if t == "const":
        return None if v == s["v"] else f"{where}: constant {s['v']!r} became {v!r}"
    if t == "array":
        if not isinstance(v, np.ndarray):
            return f"{where}: not an array but {type(v)}"
        if list(v.shape) != list(s["shape"]):
            return f"{where}: shape {v.shape} instead of {s['shape']}"
        if s.get("int") and not np.issubdtype(v.dtype, np.integer):
            return f"{where}: dtype {v.dtype} for an integer array"
        if not s.get("int") and not np.issubdtype(v.dtype, np.floating):
            return f"{where}: dtype {v.dtype} for a float array"
        for x in v.ravel().tolist():
            out = _num_problem(s, x, where)
            if out:
                return out
        return None
    if t in ("scalar", "log"):
        if s.get("int"):
            if not isinstance(v, numbers.Integral) or isinstance(v, bool):
                return f"{where}: {v!r} ({type(v)}) is not an int"
        elif not isinstance(v, float):
            return f"{where}: {v!r} ({type(v)}) is not a float"
        return _num_problem(s, float(v), where)
    if t in ("choice", "transition"):
        if s["rep"] is None:
            probs = [problem(o, v, where) for o in s["opts"]]
            return None if any(x is None for x in probs) else f"{where}: {v!r} not an option ({probs[0]})"
        if not isinstance(v, tuple) or len(v) != s["rep"]:
            return f"{where}: {v!r} instead of {s['rep']} repetitions"
        for k, sub in enumerate(v):
            out = problem(dict(s, rep=None), sub, f"{where}[{k}]")
            if out:
                return out
        return None
    if t == "tuple":
        if not isinstance(v, tuple) or len(v) != len(s["items"]):
            return f"{where}: {v!r} is not a tuple of {len(s['items'])}"
        for k, (sub, x) in enumerate(zip(s["items"], v)):
            out = problem(sub, x, f"{where}[{k}]")
            if out:
                return out
        return None
    if t == "dict":
        if not isinstance(v, dict) or set(v) != set(s["items"]):
            return f"{where}: {v!r} does not have keys {sorted(s['items'])}"
        for k, sub in s["items"].items():
            out = problem(sub, v[k], f"{where}[{k}]")
            if out:
                return out
        return None
    if t == "instru":
        if not isinstance(v, tuple) or len(v) != 2:
            return f"{where}: {v!r} is not (args, kwargs)"
        return problem({"t": "tuple", "items": s["args"]}, v[0], where + ".args") or problem(
            {"t": "dict", "items": s["kwargs"]}, v[1], where + ".kwargs"
        )
    raise ValueError(t)


# ---------------------------------------------------------------- helpers on specs
def any_node(s: Spec, pred: tp.Callable[[Spec], bool]) -> bool:
    if pred(s):
        return True
    subs: tp.List[Spec] = list(s.get("opts", [])) + list(s.get("args", []))
    it = s.get("items")
    if isinstance(it, dict):
        subs += list(it.values())
    elif it:
        subs += list(it)
    subs += list(s.get("kwargs", {}).values())
    return any(any_node(x, pred) for x in subs)


def has_random_choice(s: Spec) -> bool:
    return any_node(s, lambda n: n["t"] == "choice" and not n.get("det"))


def same(a: tp.Any, b: tp.Any, rtol: float = 0.0, atol: float = 0.0) -> bool:
    """structural equality of values (exact if no tolerance)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))
        if rtol or atol:
            with np.errstate(invalid="ignore"):
                return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | ((a != a) & (b != b))))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (int, float, np.number)) and not isinstance(b, bool):
        return bool(a == b or (a != a and b != b) or abs(a - b) <= atol + rtol * abs(b))
    return bool(a == b)


def freeze(v: tp.Any) -> tp.Any:
    """hashable exact snapshot of a value"""
    if isinstance(v, np.ndarray):
        return ("nd", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, freeze(v[k])) for k in sorted(v))
    if isinstance(v, (float, np.floating)):
        return ("f", float(v).hex())
    return ("o", type(v).__name__, repr(v))


def numeric_loss(v: tp.Any) -> float:
    """some deterministic loss over any value"""
    if isinstance(v, np.ndarray):
        with np.errstate(all="ignore"):
            return float(np.sum((np.clip(v.astype(float), -1e6, 1e6) - 0.3) ** 2))
    if isinstance(v, (tuple, list)):
        return float(sum(numeric_loss(x) for x in v))
    if isinstance(v, dict):
        return float(sum(numeric_loss(v[k]) for k in sorted(v)))
    if isinstance(v, str):
        return float(sum(map(ord, v)) % 7)
    if isinstance(v, (int, float, np.number)):
        return float((min(max(float(v), -1e6), 1e6) - 0.7) ** 2)
    return 0.0
