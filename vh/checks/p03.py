"""P03: histories of spawn_child/copy/sample/mutate/set/recombine/freeze/configure over pools of related parameters; after every operation the snapshots of all the other relatives are compared."""
import typing as tp
import warnings
import numpy as np
from .. import spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (structure of the parametrization, operation, relation of the target): an operation after which all the relatives were compared"
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 50000
OPS = ("spawn", "copy", "sample", "mutate", "set-value", "set-data", "recombine", "freeze", "sigma", "bounds", "name", "constraint", "heritage", "function", "subparameter", "replace", "integer", "optimizer")
NEED_EVENTS = OPS + ("frozen-refusal", "compared", "children-independent")
ASSUMPTIONS = ["the random state is shared by design between a parameter and its descendants, and is not part of the snapshots"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    return [dict(seed=seed * 1000000 + k, depth=[0, 1, 2, 3][k % 4], steps=60) for k in range(400 if tier == "quick" else 10000)]


def walk(p: tp.Any, path: tp.Tuple[tp.Any, ...] = ()) -> tp.Iterator[tp.Tuple[tp.Tuple[tp.Any, ...], tp.Any]]:
    """all the (sub)parameters reachable through public indexing"""
    import nevergrad as ng

    yield path, p
    if isinstance(p, ng.p.Dict):
        for k in p._content if not hasattr(p, "keys") else p.keys():
            yield from walk(p[k], path + (k,))
    elif isinstance(p, ng.p.Tuple):
        for k in range(len(p)):
            yield from walk(p[k], path + (k,))
    elif isinstance(p, (ng.p.Choice, ng.p.TransitionChoice)):
        yield from walk(p.choices, path + ("choices",))
        yield from walk(p.indices, path + ("indices",))


def snapshot(p: tp.Any) -> tp.Dict[str, tp.Any]:
    import nevergrad as ng

    out: tp.Dict[str, tp.Any] = {}
    out["value"] = spaces.freeze(p.value)
    out["args"] = spaces.freeze((p.args, p.kwargs))
    out["repr"] = repr(p)
    out["name"] = p.name
    out["uid"] = p.uid
    out["generation"] = p.generation
    out["parents"] = tuple(p.parents_uids)
    out["heritage"] = repr(sorted(p.heritage.items(), key=repr))
    out["loss"] = p.loss
    out["satisfies"] = p.satisfies_constraints()
    out["function"] = repr(p.function)
    out["dimension"] = p.dimension
    out["descriptors"] = repr(ng.p.helpers.list_data(p) if False else [x.integer for _, x in walk(p) if isinstance(x, ng.p.Data)])
    for path, sub in walk(p):
        out[f"sub{path}"] = spaces.freeze(sub.value) if not isinstance(sub, ng.p.Constant) else 0
        if isinstance(sub, ng.p.Data):
            out[f"sigma{path}"] = spaces.freeze(sub.sigma.value)
            out[f"bounds{path}"] = repr(getattr(sub, "bounds", None))
            out[f"uid{path}"] = sub.uid
    return out


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    spec = spaces.gen(r, case["depth"])
    shape = str(spec)
    root = spaces.build(spec)
    root.random_state.seed(r.randrange(2**32))
    random_choice = spaces.has_random_choice(spec)
    pool: tp.List[tp.Any] = [root]
    plain: tp.Set[int] = {id(root)}  # relatives with the initial structure and domain
    frozen: tp.Set[int] = set()
    snaps = [snapshot(root)]
    history: tp.List[str] = []
    keep: tp.List[tp.Any] = [root]

    def add(p: tp.Any, source: tp.Any) -> None:
        keep.append(p)
        if id(source) in plain:
            plain.add(id(p))
        pool.append(p)
        snaps.append(snapshot(p))
        if len(pool) > 9:
            k = r.randrange(len(pool) - 1)
            frozen.discard(id(pool[k]))
            del pool[k], snaps[k]

    def compare(skip: tp.Any, op: str) -> None:
        for k, p in enumerate(pool):
            if p is skip:
                snaps[k] = snapshot(p)
                continue
            now = snapshot(p)
            diff = [x for x in set(now) | set(snaps[k]) if now.get(x) != snaps[k].get(x)]
            mon.check(not diff, f"relative-changed:{op}:{diff[0].split('(')[0] if diff else ''}", lambda: f"{spec}: after {history[-6:]}, relative {k} changed {[(x, snaps[k].get(x), now.get(x)) for x in diff[:3]]}")
            mon.event("compared")
            if diff:
                snaps[k] = now

    def value(p: tp.Any) -> tp.Any:
        return spaces.freeze(p.value)

    for _ in range(case["steps"]):
        op = r.choice(OPS)
        ind = r.randrange(len(pool))
        p = pool[ind]
        is_frozen = id(p) in frozen
        changed: tp.Any = p
        history.append(f"{op}:{ind}")
        mon.seen(shape, op, min(p.generation, 3), is_frozen)
        before = snaps[ind]
        try:
            if op == "spawn":
                child = p.spawn_child()
                mon.check(child.generation == p.generation + 1, "generation", lambda: f"{spec}: child of generation {child.generation} for {p.generation}")
                mon.check(list(child.parents_uids) == [p.uid], "parents", lambda: f"{spec}: parents {child.parents_uids} instead of {p.uid}")
                mon.check(child.heritage["lineage"] == p.heritage["lineage"], "lineage", lambda: f"{spec}: lineage of the child {child.heritage} for {p.heritage}")
                mon.check(all(child.heritage.get(k) == v for k, v in p.heritage.items()), "heritage", lambda: f"{spec}: heritage of the child {child.heritage} for {p.heritage}")
                changed = None
            elif op == "copy":
                child = p.copy()
                mon.check(child.generation == p.generation and list(child.parents_uids) == list(p.parents_uids), "copy-parenthood", lambda: f"{spec}: copy {child.generation} {child.parents_uids} of {p.generation} {p.parents_uids}")
                changed = None
            elif op == "sample":
                child = p.sample()
                mon.check(child.heritage["lineage"] == child.uid, "sample-lineage", lambda: f"{spec}: sample of lineage {child.heritage} with uid {child.uid}")
                mon.check(child.generation == 0 and not child.parents_uids, "sample-parenthood", lambda: f"{spec}: sample {child.generation} {child.parents_uids}")
                changed = None
            if op in ("spawn", "copy", "sample"):
                mon.check(child.uid not in {x.uid for x in keep}, "uid", lambda: f"{spec}: {op} with the uid of another parameter")
                mon.check(child.loss is None, "loss-inherited", lambda: f"{spec}: {op} with loss {child.loss}")
                if op != "sample" and not random_choice:
                    mon.check(value(child) == before["value"], f"{op}-value", lambda: f"{spec}: {op} of {before['value']} is {child.value!r}")
                mon.event(op)
                add(child, p)
                # a fresh relative is never frozen
                try:
                    child.mutate()
                except RuntimeError as e:
                    if "rozen" in str(e):
                        mon.violate("born-frozen", f"{spec}: {op} of {'frozen' if is_frozen else 'free'} parameter: {e}")
                    else:
                        raise
                changed = child
            else:
                done = modify(ng, op, p, pool, plain, frozen, spec, r)
                if not done:
                    history.pop()
                    continue
                mon.event(op)
                if op == "freeze":
                    frozen.add(id(p))
                    mon.check(value(p) == before["value"], "freeze-value", lambda: f"{spec}: {p.value!r} after freezing {before['value']}")
                if op == "optimizer":
                    frozen.add(id(p))
                if is_frozen and op in ("mutate", "set-value", "set-data", "recombine"):
                    mon.violate(f"frozen-modified:{op}", f"{spec}: {op} on a frozen parameter did not raise")
                if op in ("bounds", "subparameter", "replace", "integer", "sigma", "constraint"):
                    plain.discard(id(p))
        except RuntimeError as e:
            if is_frozen and "rozen" in str(e):
                mon.event("frozen-refusal")
                changed = None  # nothing must have changed
            else:
                raise
        compare(changed, op)
    # the children of all relatives are independent too
    for k, p in enumerate(pool):
        child = p.spawn_child()
        child.mutate()
        mon.event("children-independent")
    compare(None, "mutate-children")


def modify(ng: tp.Any, op: str, p: tp.Any, pool: tp.List[tp.Any], plain: tp.Set[int], frozen: tp.Set[int], spec: spaces.Spec, r: tp.Any) -> bool:
    """applies one modification to the given parameter, returns whether it was applicable"""
    is_frozen = id(p) in frozen
    leaves = [x for path, x in walk(p) if isinstance(x, ng.p.Data) and "indices" not in path]
    if op == "mutate":
        p.mutate()
    elif op == "set-value":
        if id(p) not in plain:
            return False
        p.value = spaces.sample_value(spec, r)
    elif op == "set-data":
        if not p.dimension:
            return False
        p.set_standardized_data(np.array([r.gauss(0, 1) for _ in range(p.dimension)]))
    elif op == "recombine":
        others = [q for q in pool if id(q) in plain and q is not p]
        if id(p) not in plain or not others:
            return False
        p.recombine(*r.sample(others, min(len(others), r.randint(1, 2))))
    elif op == "freeze":
        p.freeze()
    elif op == "optimizer":
        if not p.dimension or not p.satisfies_constraints():
            return False  # (the resolution of impossible constraints is long)
        opt = ng.optimizers.registry[r.choice(["OnePlusOne", "DE", "RandomSearch"])](p, budget=4)
        for _ in range(3):
            c = opt.ask()
            opt.tell(c, r.random())
    elif op == "name":
        p.set_name(f"name{r.randrange(100)}")
    elif op == "constraint":
        flag = r.random() < 0.5

        def checker(v: tp.Any) -> bool:  # pylint: disable=unused-argument
            return flag

        p.register_cheap_constraint(checker)
    elif op == "heritage":
        p.heritage[f"key{r.randrange(3)}"] = r.random()
    elif op == "function":
        p.function.deterministic = not p.function.deterministic
        p.function.metrizable = r.random() < 0.5
    elif op in ("sigma", "bounds", "integer", "subparameter"):
        if not leaves or is_frozen:
            return False
        leaf = r.choice(leaves)
        if op == "sigma":
            leaf.set_mutation(sigma=r.choice([0.1, 3.0, 0.7]))
        elif op == "bounds":
            v = np.asarray(leaf.value, dtype=float)
            if leaf.integer or isinstance(leaf, ng.p.Log) or tuple(leaf.bounds) != (None, None) or not np.isfinite(v).all():
                return False
            leaf.set_bounds(float(v.min()) - 2, float(v.max()) + 3)
        elif op == "integer":
            leaf.set_integer_casting()
        else:
            leaf.mutate()
    elif op == "replace":
        if is_frozen or not isinstance(p, (ng.p.Dict, ng.p.Tuple)) or isinstance(p, ng.p.Instrumentation):
            return False
        key = [path[0] for path, _ in walk(p) if len(path) == 1]
        p[r.choice(sorted(key))] = ng.p.Scalar()
    return True
