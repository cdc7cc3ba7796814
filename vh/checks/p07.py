"""P07: programs of sample/mutate/recombine/apply-vector operations on random parametrizations; a domain oracle judges every value, and a twin run under disturbance (global random state, other parameters, other threads) must produce the same sequence."""
import threading
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (structure of the parametrization, operation): a value judged against the domain and against the undisturbed twin"
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 30000
NEED_EVENTS = ("sample", "mutate", "recombine", "vector", "huge-vector", "child", "twin", "disturbed", "shared-state", "reseeded")
ASSUMPTIONS = ["vectors are finite; magnitudes up to 1e6"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    return [dict(seed=seed * 1000000 + k, depth=[0, 1, 2, 3][k % 4], steps=30) for k in range(800 if tier == "quick" else 25000)]


def subparameters(p: tp.Any) -> tp.List[tp.Any]:
    import nevergrad as ng

    out = [p]
    if isinstance(p, ng.p.Instrumentation):
        out += [p[0], p[1]] + [y for x in (p[0], p[1]) for y in subparameters(x)]
    elif isinstance(p, ng.p.Dict):
        out += [y for k in p.value for y in subparameters(p[k])]
    elif isinstance(p, ng.p.Tuple):
        out += [y for k in range(len(p.value)) for y in subparameters(p[k])]
    elif isinstance(p, (ng.p.Choice, ng.p.TransitionChoice)):
        out += subparameters(p.choices) + [p.indices]
    return out


class Noise:
    """unrelated activity: draws from global generators, activity of other parameters"""

    def __init__(self, r: tp.Any) -> None:
        import nevergrad as ng

        self.r = r
        self.other = spaces.build(spaces.gen(r, 2))
        self.ng = ng

    def __call__(self) -> None:
        k = self.r.randrange(5)
        if k == 0:
            np.random.seed(self.r.randrange(2**32))
        elif k == 1:
            np.random.rand(self.r.randrange(5))
        elif k == 2:
            self.other.sample().value  # pylint: disable=expression-not-assigned
            self.other.spawn_child().mutate()
        elif k == 3:
            t = threading.Thread(target=lambda: self.other.sample().value)
            t.start()
            t.join()
        else:
            spaces.build(spaces.gen(self.r, 1)).sample().value  # pylint: disable=expression-not-assigned


def program(case: tp.Dict[str, tp.Any], spec: spaces.Spec, mon: tp.Optional[Mon], disturb: bool) -> tp.List[tp.Any]:
    """executes the program of operations, returns the sequence of its observable results"""
    r = rng_of(case, "program")
    param = spaces.build(spec)
    seed = r.randrange(2**32)
    if disturb:
        param.random_state = np.random.RandomState(seed)
    else:
        param.random_state.seed(seed)
    noise = Noise(rng_of(case, "noise")) if disturb else lambda: None
    shape = str(spec)
    random_choice = spaces.has_random_choice(spec)
    pool = [param]
    trace: tp.List[tp.Any] = []
    init = spaces.freeze(param.value)
    for k in range(case["steps"]):
        op = r.choice(["sample", "mutate", "recombine", "vector", "huge-vector", "child", "reseeded"])
        p = r.choice(pool)
        noise()
        if op == "sample":
            c = p.sample()
        elif op == "mutate":
            c = p.spawn_child()
            c.mutate()
        elif op == "recombine":
            c = p.spawn_child()
            c.recombine(*[r.choice(pool) for _ in range(r.randint(1, 3))])
        elif op in ("vector", "huge-vector"):
            scale = 1.0 if op == "vector" else 10.0 ** r.uniform(0, 6)
            z = np.array([r.gauss(0, 1) * scale * (r.random() < 0.8) for _ in range(param.dimension)])
            c = p.spawn_child()
            if param.dimension:
                c.set_standardized_data(z, reference=r.choice([None, p, param]))
        elif op == "reseeded":
            p.random_state.seed(r.randrange(2**32))
            c = p.spawn_child()
        else:
            c = p.spawn_child()
            if mon is not None and not random_choice:
                v = spaces.freeze(p.value)
                mon.check(spaces.freeze(c.value) == v, "child-value", lambda: f"{spec}: child {c.value!r} of {v}")
        noise()
        value = c.value
        trace.append((op, spaces.freeze(value)))
        if param.dimension:
            trace.append(c.get_standardized_data(reference=param).tolist())
        if mon is not None:
            mon.event(op)
            prob = spaces.problem(spec, value)
            mon.check(prob is None, f"out-of-domain:{op}", lambda: f"{spec}: {op} gave {value!r}: {prob}")
            mon.check(c.dimension == param.dimension, "structure", lambda: f"{spec}: {op} changed the dimension {param.dimension} into {c.dimension}")
            mon.check(spaces.freeze(c.value) == spaces.freeze(value), "unstable-value", lambda: f"{spec}: {value!r} then {c.value!r} without modification")
            mon.seen(shape, op)
            if k % 10 == 0:
                states = {id(q.random_state) for q in subparameters(c) if type(q).__name__ != "Constant"}
                mon.check(states == {id(param.random_state)}, "random-state-not-shared", lambda: f"{spec}: {len(states)} random states in {op} {'(not the one of the source)' if len(states) == 1 else ''}")
                mon.event("shared-state")
        # overflowed log parameters are no sources
        if all(np.isfinite(x) for x in numbers_of(value)):
            pool.append(c)
            if len(pool) > 6:
                pool.pop(r.randrange(1, len(pool) - 1))
    if mon is not None and not random_choice:
        mon.check(spaces.freeze(param.value) == init, "source-changed", lambda: f"{spec}: {init} became {param.value!r}")
        mon.check(spaces.freeze(param.spawn_child().value) == init, "initial-value", lambda: f"{spec}: {init} became {param.spawn_child().value!r}")
    return trace


def numbers_of(v: tp.Any) -> tp.List[float]:
    if isinstance(v, np.ndarray):
        return [float(x) for x in v.ravel()]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in numbers_of(y)]
    if isinstance(v, dict):
        return [x for y in v.values() for x in numbers_of(y)]
    return [float(v)] if isinstance(v, (int, float)) else []


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    spec = spaces.gen(rng_of(case), case["depth"])
    # the sizes of the programs depend on the dimension only
    first = program(case, spec, mon, False)
    np.random.seed(case["seed"] % 2**32)
    second = program(case, spec, None, False)
    mon.event("twin")
    third = program(case, spec, None, True)
    mon.event("disturbed")
    for name, other in (("twin", second), ("disturbed", third)):
        diff = next((k for k, (x, y) in enumerate(zip(first, other)) if repr(x) != repr(y)), None)
        mon.check(diff is None and len(first) == len(other), f"not-reproducible:{name}", lambda: f"{spec}: step {diff} {first[diff] if diff is not None else None} became {other[diff] if diff is not None else None}")
