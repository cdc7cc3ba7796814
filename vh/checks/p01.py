"""P01: random parametrization programs are converted to standardized vectors and back; an independent description of the tree (sizes, order, values) judges every conversion."""
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (structure of the parametrization, kind of conversion): a vector or value converted and compared"
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 20000
NEED_EVENTS = ("value-roundtrip", "vector-roundtrip", "reference-zero", "concatenation", "isolation", "wrong-size", "alias", "bounded", "nested", "edited")
ASSUMPTIONS = ["random choices are compared on their most likely option", "float comparisons up to 1e-7 of the scale (bounds transforms saturate beyond 8 sigmas)"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    return [dict(seed=seed * 1000000 + k, depth=[0, 1, 2, 3][k % 4]) for k in range(1600 if tier == "quick" else 30000)]


def size_of(s: tp.Dict[str, tp.Any]) -> int:
    t = s["t"]
    if t == "const":
        return 0
    if t == "array":
        return int(np.prod(s["shape"]))
    if t in ("scalar", "log"):
        return 1
    if t in ("choice", "transition"):
        rep = s["rep"] or 1
        return rep * (len(s["opts"]) if t == "choice" else 1) + sum(size_of(o) for o in s["opts"])
    return sum(size_of(x) for _, x in children_of(s))


def children_of(s: tp.Dict[str, tp.Any]) -> tp.List[tp.Tuple[tp.Any, tp.Dict[str, tp.Any]]]:
    """children of a container in the order of their vectors"""
    if s["t"] == "tuple":
        return list(enumerate(s["items"]))
    if s["t"] == "dict":
        return sorted(s["items"].items())
    if s["t"] == "instru":
        return [(0, {"t": "tuple", "items": s["args"]}), (1, {"t": "dict", "items": s["kwargs"]})]
    return []


def steep(s: tp.Dict[str, tp.Any]) -> bool:
    """bounds through which the conversion loses precision"""
    return spaces.any_node(s, lambda n: n.get("method") in ("arctan", "tanh", "gaussian"))


def reversed_spec(s: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    s = dict(s)
    for key in ("items", "kwargs"):
        if isinstance(s.get(key), dict):
            s[key] = {k: reversed_spec(v) for k, v in reversed(list(s[key].items()))}
        elif s.get(key):
            s[key] = [reversed_spec(v) for v in s[key]]
    if s.get("args"):
        s["args"] = [reversed_spec(v) for v in s["args"]]
    return s


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    rs = np.random.RandomState(r.randrange(2**32))
    spec = spaces.gen(r, case["depth"])
    ref = spaces.build(spec)
    ref.random_state.seed(r.randrange(2**32))
    n = size_of(spec)
    shape = str(spec)
    mon.event("bounded", int(spaces.any_node(spec, lambda x: x.get("lower") is not None or x.get("upper") is not None)))
    mon.event("nested", int(case["depth"] > 1))
    mon.check(ref.dimension == n, "dimension", lambda: f"{spec}: dimension {ref.dimension} instead of {n}")
    random_choice = spaces.has_random_choice(spec)

    def value_of(p: tp.Any) -> tp.Any:
        if not random_choice:
            return p.value
        p = p.copy()
        with ng.p.helpers.deterministic_sampling(p):
            p.set_standardized_data(p.get_standardized_data(reference=ref), reference=ref)
            return p.value

    def apply(vec: tp.Any) -> tp.Any:
        child = ref.spawn_child()
        with ng.p.helpers.deterministic_sampling(child):
            child.set_standardized_data(vec, reference=ref)
        return child

    # the reference is the origin, and is not changed by all what follows
    start = spaces.freeze(ref.value)
    zero = ref.get_standardized_data(reference=ref)
    mon.check(zero.shape == (n,) and not zero.any(), "reference-not-zero", lambda: f"{spec}: the reference maps to {zero}")
    mon.event("reference-zero")
    child = ref.spawn_child()
    mon.check(not child.get_standardized_data(reference=ref).any(), "child-not-zero", lambda: f"{spec}: a child maps to {child.get_standardized_data(reference=ref)}")
    mon.check(random_choice or spaces.freeze(child.value) == start, "child-value", lambda: f"{spec}: child value {child.value} of {ref.value}")
    if n == 0:
        return
    # value -> vector -> value
    for _ in range(3):
        v = spaces.sample_value(spec, r)
        try:
            child = ref.spawn_child(new_value=v)
        except Exception as e:  # pylint: disable=broad-except
            mon.violate("value-refused", f"{spec}: {v!r} refused: {e!r}")
            continue
        vec = child.get_standardized_data(reference=ref)
        mon.check(vec.shape == (n,) and bool(np.isfinite(vec).all()), "vector", lambda: f"{spec}: {v!r} maps to {vec}")
        back = apply(vec)
        rtol = 1e-5 if steep(spec) else 1e-9
        scale = 1e-9 * max([1.0] + [abs(x) for x in numbers_of(v)])
        mon.check(spaces.same(back.value, v, rtol, scale), "value-roundtrip", lambda: f"{spec}: {v!r} became {back.value!r} through {vec}")
        vec2 = back.get_standardized_data(reference=ref)
        if not spaces.any_node(spec, lambda x: bool(x.get("int"))):
            # (integers are rounded, the vector of the rounded value can differ)
            mon.check(bool(np.allclose(vec, vec2, rtol=1e-5, atol=1e-6)), "vector-of-value", lambda: f"{spec}: {v!r} maps to {vec} and then {vec2}")
        mon.event("value-roundtrip")
        mon.seen(shape, "value")
    # vector -> value -> vector -> value
    for k in range(4):
        z = rs.normal(size=n) * [0.3, 1.0, 3.0, 0.0][k]
        keep = z.copy()
        first = apply(z)
        value = first.value
        prob = spaces.problem(spec, value)
        mon.check(prob is None, "out-of-domain", lambda: f"{spec}: {z.tolist()} gives {value!r}: {prob}")
        mon.check(bool((z == keep).all()), "input-modified", lambda: f"{spec}: {keep} became {z}")
        z2 = first.get_standardized_data(reference=ref)
        second = apply(z2)
        mon.check(spaces.same(second.value, value, 1e-6 if steep(spec) else 1e-9, 1e-7), "vector-roundtrip", lambda: f"{spec}: {z.tolist()} gives {value!r} then {second.value!r}")
        free = not spaces.any_node(spec, lambda x: x.get("lower") is not None or x.get("upper") is not None or x["t"] in ("transition", "log"))
        if free and np.abs(z).max() < 100:
            mon.check(bool(np.allclose(z, z2, rtol=1e-9, atol=1e-9)), "vector-not-kept", lambda: f"{spec}: {z.tolist()} read again as {z2.tolist()}")
        # neither the vector given nor the one obtained belong to the parameter
        frozen = spaces.freeze(value)
        z += 1000.0
        z2 += 1000.0
        mon.check(spaces.freeze(first.value) == frozen, "alias", lambda: f"{spec}: the value changed with the vector of the caller")
        z3 = first.get_standardized_data(reference=ref)
        mon.check(bool(np.allclose(z3 + 1000.0, z2, rtol=1e-9)), "alias", lambda: f"{spec}: the vector changed with the vector of the caller")
        mon.event("alias")
        mon.event("vector-roundtrip")
        mon.seen(shape, "vector", k)
    # containers concatenate the vectors of their children in a fixed order
    parts = children_of(spec)
    if parts:
        z = rs.normal(size=n)
        whole = apply(z)
        pos = 0
        for key, sub in parts:
            m = size_of(sub)
            if sub["t"] != "const":
                piece = whole[key].get_standardized_data(reference=ref[key])
                total = whole.get_standardized_data(reference=ref)
                mon.check(bool((piece == total[pos : pos + m]).all()), "concatenation", lambda: f"{spec}: child {key} has {piece}, the container {total} (from {pos})")
                mon.event("concatenation")
                z4 = z.copy()
                z4[pos : pos + m] = rs.normal(size=m)
                other = apply(z4)
                for key2, sub2 in parts:
                    if key2 != key and sub2["t"] != "const":
                        a, b = whole[key2].value, other[key2].value
                        mon.check(spaces.freeze(a) == spaces.freeze(b), "isolation", lambda: f"{spec}: changing the data of {key} changed {key2} from {a!r} to {b!r}")
                        mon.event("isolation")
            pos += m
        rev = spaces.build(reversed_spec(spec))
        with ng.p.helpers.deterministic_sampling(rev):
            twin = rev.spawn_child().set_standardized_data(z, reference=rev)
            vec = twin.get_standardized_data(reference=rev)
        mon.check(bool((vec == whole.get_standardized_data(reference=ref)).all()), "key-order", lambda: f"{spec}: the vector depends on the order of the keys")
        mon.check(spaces.same(value_of_twin(ng, rev, z), whole.value), "key-order", lambda: f"{spec}: {z.tolist()} gives {whole.value!r}, or {value_of_twin(ng, rev, z)!r} with keys in another order")
    # components can be replaced, swapped or added after the vectors were used
    if spec["t"] in ("tuple", "dict") and parts:
        items = dict(parts)
        for _ in range(3):
            kind = r.choice(["replace", "swap", "add"])
            if kind == "swap" and len(items) > 1:
                k1, k2 = r.sample(sorted(items), 2)
                items[k1], items[k2] = items[k2], items[k1]
                edits = [k1, k2]
            elif kind == "add" and spec["t"] == "dict":
                edits = ["new%d" % r.randrange(5)]
                items[edits[0]] = spaces.gen(r, 1)
            else:
                edits = [r.choice(sorted(items))]
                items[edits[0]] = spaces.gen(r, 1)
            for e in edits:
                ref[e] = spaces.build(items[e])
            keys = sorted(items)
            total = sum(size_of(items[k]) for k in keys)
            mon.check(ref.dimension == total, "edited-dimension", lambda: f"{spec} with {kind} {edits}: dimension {ref.dimension} instead of {total}")
            z = rs.normal(size=total)
            try:
                whole = apply(z)
                vec = whole.get_standardized_data(reference=ref)
            except Exception as e:  # pylint: disable=broad-except
                mon.violate("edited-refused", f"{spec} with {kind} {edits}: vector of size {total} refused: {e!r}")
                break
            pos = 0
            for k in keys:
                m = size_of(items[k])
                twin = ref[k].spawn_child()
                with ng.p.helpers.deterministic_sampling(twin):
                    twin.set_standardized_data(z[pos : pos + m], reference=ref[k])
                a, b = twin.value, whole[k].value
                mon.check(spaces.freeze(a) == spaces.freeze(b), "edited-layout", lambda: f"{spec} with {kind} {edits}: {k} is {b!r} instead of {a!r}")
                if m:
                    mon.check(bool((whole[k].get_standardized_data(reference=ref[k]) == vec[pos : pos + m]).all()), "edited-layout", lambda: f"{spec} with {kind} {edits}: vector {vec} for {k} from {pos}")
                pos += m
            mon.event("edited")
            mon.seen(shape, kind)
        n = ref.dimension
        start = spaces.freeze(ref.value)
        if n == 0:
            return
    # wrong sizes are refused
    for m in {0, n - 1, n + 1, 2 * n} - {n}:
        try:
            ref.spawn_child().set_standardized_data(np.zeros(m), reference=ref)
        except Exception:  # pylint: disable=broad-except
            mon.check(True, "wrong-size", "")
        else:
            mon.violate("wrong-size", f"{spec}: a vector of size {m} was accepted for dimension {n}")
        mon.event("wrong-size")
    mon.check(spaces.freeze(ref.value) == start, "reference-changed", lambda: f"{spec}: the reference became {ref.value!r}")


def value_of_twin(ng: tp.Any, rev: tp.Any, z: np.ndarray) -> tp.Any:
    twin = rev.spawn_child()
    with ng.p.helpers.deterministic_sampling(twin):
        twin.set_standardized_data(z, reference=rev)
    return twin.value


def numbers_of(v: tp.Any) -> tp.List[float]:
    if isinstance(v, np.ndarray):
        return [float(x) for x in v.ravel()]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in numbers_of(y)]
    if isinstance(v, dict):
        return [x for y in v.values() for x in numbers_of(y)]
    return [float(v)] if isinstance(v, (int, float)) else []
