"""P02: random parametrization programs are given admissible and inadmissible values through every public setter; an independent description of the domain judges what is read back, refused, and left unchanged."""
import copy
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (structure of the parametrization, setter or kind of inadmissible value): a value set and read back, or refused"
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 20000
NEED_EVENTS = ("set", "child", "suggestion", "refused", "refused-bounds", "refused-option", "refused-shape", "refused-structure", "alias-in", "alias-out", "number-type", "constructor", "half-integers")
ASSUMPTIONS = [
    "out of bounds means beyond the bound by more than 0.1% of the range (bounds transforms tolerate rounding errors)",
    "the \"constraint\" bounding method flags candidates instead of refusing values, and is not covered",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 1600 if tier == "quick" else 30000
    out = [dict(kind="tree", seed=seed * 1000000 + k, depth=[0, 0, 1, 2, 3][k % 5]) for k in range(n)]
    out += [dict(kind="constructor", seed=seed * 1000000 + k) for k in range(n // 10)]
    return out


def bad_values(s: spaces.Spec, v: tp.Any, r: tp.Any) -> tp.List[tp.Tuple[str, tp.Any]]:
    """inadmissible variants of an admissible value, with what is wrong"""
    t = s["t"]
    out: tp.List[tp.Tuple[str, tp.Any]] = []
    if t == "const":
        return [("option", "no such constant")]
    if t in ("scalar", "log", "array"):
        lo, hi = s.get("lower"), s.get("upper")
        width = max(abs(lo) if lo is not None else 0.0, abs(hi) if hi is not None else 0.0, (hi - lo) if lo is not None and hi is not None else 1.0)
        width *= r.choice([1.0, 1.0, 100.0, 0.002])
        if s.get("int"):
            width = max(width, 1.0)
        outside = []
        if lo is not None:
            outside.append(lo - width)
        if hi is not None:
            outside.append(hi + width)
        for x in outside:
            if t == "array":
                a = np.array(v, dtype=float)
                a.ravel()[r.randrange(a.size)] = x  # (ravel of a contiguous array is a view)
                out.append(("bounds", a))
            else:
                out.append(("bounds", x))
        if t == "array":
            a = np.array(v, dtype=float)
            out.append(("shape", np.concatenate([a.ravel(), a.ravel()])))
            out.append(("shape", a[None]))
            if a.size > 1:
                out.append(("shape", a.ravel()[:1]))
                out.append(("shape", float(a.ravel()[0])))
        else:
            out.append(("shape", np.array([float(v), float(v)])))
            out.append(("shape", "not a number"))
            out.append(("shape", [float(v), float(v)]))
        return out
    if t in ("choice", "transition"):
        if s["rep"] is None:
            return [("option", "no such option")]
        w = list(v)
        w[r.randrange(len(w))] = "no such option"
        return [("option", tuple(w)), ("structure", tuple(v) + (v[0],)), ("structure", tuple(v[1:]))]
    if t == "tuple":
        k = r.randrange(len(v))
        for kind, b in bad_values(s["items"][k], v[k], r)[:2]:
            out.append((kind, v[:k] + (b,) + v[k + 1 :]))
        return out + [("structure", v + (v[0],)), ("structure", v[1:])]
    if t == "dict":
        k = r.choice(sorted(v))
        for kind, b in bad_values(s["items"][k], v[k], r)[:2]:
            out.append((kind, dict(v, **{k: b})))
        out.append(("structure", {x: y for x, y in v.items() if x != k}))
        return out + [("structure", dict(v, another=1.0)), ("structure", dict({x: y for x, y in v.items() if x != k}, another=v[k]))]
    args, kwargs = v
    if args:
        for kind, b in bad_values({"t": "tuple", "items": s["args"]}, args, r)[:3]:
            out.append((kind, (b, kwargs)))
    if kwargs:
        for kind, b in bad_values({"t": "dict", "items": s["kwargs"]}, kwargs, r)[:3]:
            out.append((kind, (args, b)))
    return out + [("structure", (args + (1.0,), kwargs)), ("structure", (args, dict(kwargs, another=2)))]


def arrays_in(v: tp.Any) -> tp.List[np.ndarray]:
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in arrays_in(x)]
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays_in(x)]
    return []


def other_types(s: spaces.Spec, v: tp.Any, r: tp.Any) -> tp.Any:
    """the same value with other number types"""
    t = s["t"]
    if t == "array":
        if s.get("int"):
            return np.array(v, dtype=r.choice([np.int64, np.int32, np.float64]))
        return r.choice([lambda x: x, lambda x: np.asfortranarray(x), lambda x: np.array(np.stack([x, x], -1)[..., 0])])(v)
    if t in ("scalar", "log"):
        return r.choice([np.int64, np.float64, int, float])(v) if s.get("int") else r.choice([np.float64, float])(v)
    if t == "tuple":
        return tuple(other_types(i, x, r) for i, x in zip(s["items"], v))
    if t == "dict":
        keys = list(v)
        r.shuffle(keys)
        return {k: other_types(s["items"][k], v[k], r) for k in keys}
    if t == "instru":
        return (other_types({"t": "tuple", "items": s["args"]}, v[0], r), other_types({"t": "dict", "items": s["kwargs"]}, v[1], r))
    return v


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    if case["kind"] == "constructor":
        constructor_case(r, mon)
        return
    spec = spaces.gen(r, case["depth"])
    steep = spaces.any_node(spec, lambda n: n.get("method") in ("arctan", "tanh", "gaussian"))
    rtol = 1e-6 if steep else 1e-9
    param = spaces.build(spec)
    param.random_state.seed(r.randrange(2**32))
    shape = str(spec)

    def same(a: tp.Any, b: tp.Any) -> bool:
        return spaces.same(a, b, rtol, 1e-9 * max([1.0] + [abs(x) for y in (a, b) for x in numbers_of(y)]))

    # reading changes nothing
    first = spaces.freeze(param.value)
    for _ in range(3):
        mon.check(spaces.freeze(param.value) == first, "read-changes", lambda: f"{spec}: read {param.value!r} after {first!r}")
    if not spaces.has_random_choice(spec):
        vec = param.get_standardized_data(reference=param)
        repr(param), param.name, param.get_value_hash(), param.dimension, param.satisfies_constraints()
        mon.check(bool((param.get_standardized_data(reference=param) == vec).all()), "read-changes", lambda: f"{spec}: the vector changed by reading")
        mon.check(spaces.freeze(param.value) == first, "read-changes", lambda: f"{spec}: read {param.value!r} after {first!r}")
    ref = param.copy()
    for k in range(4):
        v = spaces.sample_value(spec, r)
        if r.random() < 0.5:
            given = copy.deepcopy(other_types(spec, v, r))
            mon.event("number-type")
        else:
            given = copy.deepcopy(v)
        keep = spaces.freeze(given)
        how = ["set", "child", "suggestion", "set"][k]
        try:
            if how == "set":
                param.value = given
                target = param
            elif how == "child":
                target = param.spawn_child(new_value=given)
            else:
                opt = ng.optimizers.registry["RandomSearch"](param.copy(), budget=3)
                if spec["t"] == "instru":
                    opt.suggest(*given[0], **given[1])
                else:
                    opt.suggest(given)
                target = opt.ask()
        except Exception as e:  # pylint: disable=broad-except
            mon.violate(f"refused-admissible:{how}", f"{spec}: {how} {given!r} refused: {e!r}")
            continue
        mon.event(how)
        mon.check(spaces.freeze(given) == keep, "input-modified", lambda: f"{spec}: the given value became {given!r}")
        got = target.value
        mon.check(same(got, v), f"not-read-back:{how}", lambda: f"{spec}: {how} {v!r} then read {got!r}")
        prob = spaces.problem(spec, got)
        mon.check(prob is None, "out-of-domain", lambda: f"{spec}: {how} {v!r} then read {got!r}: {prob}")
        # no aliasing
        keep = spaces.freeze(target.value)
        for a in arrays_in(given):
            if a.flags.writeable:
                a += 7
                mon.event("alias-in")
        mon.check(spaces.freeze(target.value) == keep, "alias-in", lambda: f"{spec}: the value follows the array given to the setter")
        for a in arrays_in(target.value):
            if a.flags.writeable:
                a += 7
                mon.event("alias-out")
        mon.check(spaces.freeze(target.value) == keep, "alias-out", lambda: f"{spec}: the value follows the array which was read")
        if spec["t"] == "instru":
            mon.check(same((target.args, target.kwargs), v), "args-kwargs", lambda: f"{spec}: {v!r} read as {target.args} {target.kwargs}")
        else:
            mon.check(same((target.args, target.kwargs), ((v,), {})), "args-kwargs", lambda: f"{spec}: {v!r} read as {target.args} {target.kwargs}")
        mon.seen(shape, how)
    # integers are rounded
    if spec["t"] in ("array", "scalar") and spec.get("int"):
        v = spaces.sample_value(spec, r)
        lo, hi = spec.get("lower"), spec.get("upper")
        x = np.array(v, dtype=float) + r.uniform(-0.45, 0.45)
        inside = (lo is None or x.min() > lo + 0.05) and (hi is None or x.max() < hi - 0.05)
        if inside and not steep:
            child = param.spawn_child(new_value=x if spec["t"] == "array" else float(x))
            mon.check(same(child.value, v), "not-rounded", lambda: f"{spec}: {x} became {child.value} instead of {v}")
            mon.event("half-integers")
    # inadmissible values are refused
    for _ in range(2):
        v = spaces.sample_value(spec, r)
        param = ref.spawn_child(new_value=v)
        before = spaces.freeze(param.value)
        for kind, b in bad_values(spec, v, r):
            target = param if spec["t"] in ("array", "scalar", "log") else ref.spawn_child(new_value=v)
            try:
                if r.random() < 0.5:
                    target.value = b
                else:
                    target.spawn_child(new_value=b)
            except Exception:  # pylint: disable=broad-except
                mon.check(True, "refused", "")
                mon.event("refused")
                mon.event("refused-" + kind)
                mon.seen(shape, kind)
            else:
                mon.violate(f"accepted:{kind}", f"{spec}: {b!r} accepted ({kind}), value {target.value!r}")
                break
            mon.check(target is not param or spaces.freeze(param.value) == before, "changed-by-refusal", lambda: f"{spec}: {param.value!r} instead of {v!r} after the refusal of {b!r}")


def constructor_case(r: tp.Any, mon: Mon) -> None:
    import nevergrad as ng

    a = r.choice([0.0, -3.5, 2.0, 1e6]) + r.random()
    w = r.choice([0.5, 3.0, 1e5])
    pos = 10.0 ** r.uniform(-5, 3)
    n = r.randint(1, 4)
    arr = np.array([a + w * r.random() for _ in range(n)])
    good = {
        "scalar": lambda: ng.p.Scalar(lower=min(a, 0.0) - 1, upper=max(a, 0.0) + w),
        "scalar-init": lambda: ng.p.Scalar(init=a + w / 2, lower=a, upper=a + w),
        "scalar-at-bound": lambda: ng.p.Scalar(init=a, lower=a, upper=a + w),
        "scalar-one-sided": lambda: ng.p.Scalar(init=a + w, lower=a),
        "log": lambda: ng.p.Log(lower=pos, upper=pos * 10),
        "log-init": lambda: ng.p.Log(init=pos),
        "array": lambda: ng.p.Array(init=arr, lower=a - 1, upper=a + w + 1),
        "array-bounds": lambda: ng.p.Array(init=arr, lower=arr - 1, upper=arr + w),
        "choice": lambda: ng.p.Choice(list(range(n + 1))),
    }
    for key, f in good.items():
        p = f()
        mon.check(p.value is not None, "constructor-good", key)
        expected = {"scalar-init": a + w / 2, "scalar-at-bound": a, "scalar-one-sided": a + w, "log-init": pos, "array": arr, "array-bounds": arr}
        if key in expected:
            mon.check(spaces.same(p.value, expected[key], 1e-9, 1e-9 * max(1, abs(a) + w)), "constructor-init", lambda: f"{key}: initial value {p.value!r} instead of {expected[key]!r}")
    bad = {
        "scalar-reversed": lambda: ng.p.Scalar(lower=a + w, upper=a),
        "scalar-equal": lambda: ng.p.Scalar(lower=a, upper=a),
        "scalar-init-above": lambda: ng.p.Scalar(init=a + 2 * w, lower=a, upper=a + w),
        "scalar-init-below": lambda: ng.p.Scalar(init=a - w, lower=a, upper=a + w),
        "scalar-init-below-lower": lambda: ng.p.Scalar(init=a - w, lower=a),
        "scalar-init-above-upper": lambda: ng.p.Scalar(init=a + w, upper=a),
        "scalar-default-init": lambda: ng.p.Scalar(lower=pos),
        "scalar-default-init-upper": lambda: ng.p.Scalar(upper=-pos),
        "array-reversed": lambda: ng.p.Array(shape=(n,), lower=a + w, upper=a),
        "array-init-out": lambda: ng.p.Array(init=arr, lower=arr + w, upper=arr + 2 * w),
        "array-one-out": lambda: ng.p.Array(init=np.append(arr, a - 1), lower=a - 0.5),
        "array-no-shape": lambda: ng.p.Array(),
        "array-two-shapes": lambda: ng.p.Array(init=arr, shape=(n + 1,)),
        "array-bounds-shape": lambda: ng.p.Array(init=np.zeros((n,)), lower=-np.ones((n + 1,)), upper=np.ones((n + 1,))),
        "set-bounds-reversed": lambda: ng.p.Scalar().set_bounds(a + w, a),
        "set-bounds-none": lambda: ng.p.Scalar().set_bounds(None, None),
        "set-bounds-method": lambda: ng.p.Scalar().set_bounds(-1, 1, method="no such method"),
        "log-reversed": lambda: ng.p.Log(lower=10 * pos, upper=pos),
        "log-negative": lambda: ng.p.Log(init=-pos),
        "log-zero": lambda: ng.p.Log(init=0.0),
        "log-lower-negative": lambda: ng.p.Log(lower=-pos, upper=pos),
        "log-init-out": lambda: ng.p.Log(init=20 * pos, lower=pos, upper=10 * pos),
        "log-no-information": lambda: ng.p.Log(),
        "choice-empty": lambda: ng.p.Choice([]),
        "transition-empty": lambda: ng.p.TransitionChoice([]),
        "tuple-repeated": lambda: ng.p.Tuple(*[ng.p.Scalar()] * 2),
    }
    for key, f in bad.items():
        try:
            p = f()
        except Exception:  # pylint: disable=broad-except
            mon.check(True, "constructor", "")
            mon.event("constructor")
            mon.seen(key, int(a), w)
        else:
            mon.violate(f"constructor-accepted:{key}", f"{key} accepted with a={a} w={w} pos={pos} n={n}: {p} {p.value!r}")


def numbers_of(v: tp.Any) -> tp.List[float]:
    if isinstance(v, np.ndarray):
        return [float(x) for x in v.ravel()]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in numbers_of(y)]
    if isinstance(v, dict):
        return [x for y in v.values() for x in numbers_of(y)]
    return [float(v)] if isinstance(v, (int, float)) else []
