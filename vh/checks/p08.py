"""P08: custom crossovers and mutations are applied to arrays of distinct entries, so that the origin of every entry can be traced; conservation, position, contiguity and size limits are judged on the traces."""
import itertools
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (operator, shape, axes, extent of the change): one application whose entries were traced"
BUDGET_S = {"quick": 40, "thorough": 400}
MIN_EVALS = 20000
KINDS = ("crossover", "ravel", "fft", "translation", "jumping", "local", "choice", "cauchy", "default")
NEED_EVENTS = KINDS + ("inherited", "integers", "bounded", "frozen", "parameter-setting", "nested")
ASSUMPTIONS = ["axes have at least two entries, and jumps a size between 2 and the length of their axis"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    return [dict(kind=KINDS[k % len(KINDS)], seed=seed * 1000000 + k) for k in range(1350 if tier == "quick" else 27000)]


def window(mask: np.ndarray, axes: tp.Sequence[int]) -> tp.Optional[tp.List[int]]:
    """sizes along the axes if the mask is the product of one window per axis (everything along the other axes)"""
    if not mask.any():
        return None
    idx = np.nonzero(mask)
    lo = [int(i.min()) for i in idx]
    hi = [int(i.max()) + 1 for i in idx]
    if not mask[tuple(slice(a, b) for a, b in zip(lo, hi))].all():
        return None
    for a in range(mask.ndim):
        if a not in axes and (lo[a] > 0 or hi[a] < mask.shape[a]):
            return None
    return [hi[a] - lo[a] for a in axes]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    warnings.simplefilter("ignore")
    r = rng_of(case)
    rs = np.random.RandomState(r.randrange(2**32))
    kind = case["kind"]
    M = ng.p.mutation
    shape = tuple(r.randint(2, 6) for _ in range(r.choice([1, 1, 2, 2, 3])))
    if kind == "fft":
        shape = tuple(2 * ((s + 1) // 2) for s in shape)
    size = int(np.prod(shape))
    ndim = len(shape)
    axes = sorted(r.sample(range(ndim), r.randint(1, ndim)))
    axis_arg: tp.Any = r.choice([tuple(axes), axes] + ([axes[0]] if len(axes) == 1 else []) + ([None] if len(axes) == ndim else []))
    integers = r.random() < 0.3 and kind not in ("fft", "local", "cauchy")
    bounded = r.random() < 0.4
    first = rs.permutation(size).reshape(shape).astype(float)
    base = ng.p.Array(init=first)
    if bounded:
        base.set_bounds(-5, 2000 + size, method=r.choice(["clipping", "bouncing"]))
        mon.event("bounded")
    if integers:
        base.set_integer_casting()
        mon.event("integers")
    base.random_state.seed(r.randrange(2**32))
    what = f"{kind} shape={shape} axes={axis_arg} integers={integers} bounded={bounded}"
    limit = None
    if kind in ("crossover", "fft"):
        limit = r.choice([None, None, 1, 2, 3, 10])
        arg: tp.Any = limit
        if limit is not None and limit > 1 and r.random() < 0.3:
            arg = ng.p.Scalar(init=limit, lower=1, upper=limit).set_integer_casting()
            mon.event("parameter-setting")
        op: tp.Any = M.Crossover(axis=axis_arg, max_size=arg, fft=kind == "fft")
    elif kind == "ravel":
        limit = r.choice([None, 1, 2, 5])
        op = M.RavelCrossover(max_size=limit)
    elif kind == "translation":
        op = M.Translation(axis=axis_arg)
    elif kind == "jumping":
        axis = r.randrange(ndim)
        limit = r.randint(2, shape[axis])
        op = M.Jumping(axis=axis, size=limit)
    elif kind == "local":
        limit = r.randint(1, min(shape[a] for a in axes) - 1)
        op = M.LocalGaussian(size=limit, axes=axis_arg)
    elif kind == "choice":
        op = M.MutationChoice([M.Translation(axis=None), M.Jumping(axis=0, size=shape[0])], with_default=r.random() < 0.5)
    elif kind == "cauchy":
        op = M.Cauchy()
    else:
        op = None
    param = base if op is None else op(base)
    what += f" limit={limit}"
    mon.check(param is base or np.array_equal(base.value, first), "base-changed", lambda: f"{what}: the base became {base.value}")
    second = first + 1000
    # the settings are inherited through generations and containers
    for _ in range(r.randint(0, 3)):
        param = param.spawn_child() if r.random() < 0.7 else param.copy()
        mon.event("inherited")
    holder = None
    if r.random() < 0.3:
        holder = ng.p.Dict(x=param, other=ng.p.Scalar())
        mon.event("nested")

    def child_of(value: np.ndarray) -> tp.Any:
        if holder is not None:
            return holder.spawn_child(new_value=dict(x=value, other=0.5))
        return param.spawn_child(new_value=value)

    def value_of(c: tp.Any) -> np.ndarray:
        return c["x"].value if holder is not None else c.value

    for _ in range(12):
        child, other = child_of(first), child_of(second)
        before = np.array(value_of(other))
        if kind in ("crossover", "ravel", "fft", "default"):
            child.recombine(other)
        else:
            child.mutate()
        out = value_of(child)
        mon.event(kind)
        mon.check(np.array_equal(value_of(other), before), "other-changed", lambda: f"{what}: the other parent became {value_of(other)}")
        mon.check(out.shape == shape and bool(np.isfinite(out).all()), "shape", lambda: f"{what}: {out}")
        mon.check(not bounded or (out.min() >= -5 and out.max() <= 2000 + size), "bounds", lambda: f"{what}: {out} out of bounds")
        mon.check(not integers or np.issubdtype(out.dtype, np.integer), "integers", lambda: f"{what}: {out.dtype}")
        mon.check(np.array_equal(value_of(child), out), "unstable", lambda: f"{what}: {out} then {value_of(child)}")
        # the standardized vector corresponds to the new value
        twin = child_of(first)
        twin.set_standardized_data(child.get_standardized_data(reference=child_of(first)), reference=child_of(first))
        mon.check(np.allclose(value_of(twin), out, rtol=0, atol=1e-6 * (1 + np.abs(out).max())), "vector", lambda: f"{what}: {out} read through its vector as {value_of(twin)}")
        if kind in ("crossover", "ravel"):
            from_second = np.abs(out - second) < 1e-9
            from_first = np.abs(out - first) < 1e-9
            mon.check((from_first ^ from_second).all(), "mixed-entry", lambda: f"{what}: {out.tolist()} with entries of none of the parents at their position")
            if kind == "ravel":
                sizes = window(from_second.ravel(), [0])
                n, m, naxes = size, size, 1
            else:
                sizes = window(from_second, axes)
                n, m, naxes = size, min(shape[a] for a in axes), len(axes)
            mon.check(sizes is not None and len(set(sizes)) == 1, "not-a-window", lambda: f"{what}: {from_second.astype(int).tolist()}")
            top = min(int(((n + 1) / 2) ** (1 / naxes) + 1e-9) if limit is None else limit, m - 1)
            if sizes:
                mon.check(1 <= sizes[0] <= max(1, top), "crossover-size", lambda: f"{what}: size {sizes} over the limit {top}")
                mon.seen(kind, shape, tuple(axes), sizes[0])
        elif kind == "fft":
            mon.seen(kind, shape, tuple(axes), limit)
        elif kind == "translation":
            mon.check(is_roll(first, out, axes), "not-a-translation", lambda: f"{what}: {first.tolist()} became {out.tolist()}")
            mon.seen(kind, shape, tuple(axes), tuple(out.ravel()[:2]))
        elif kind == "jumping":
            mon.check(is_jump(first, out, axis, limit), "not-a-jump", lambda: f"{what}: axis {axis}: {first.tolist()} became {out.tolist()}")
            mon.seen(kind, shape, axis, tuple(out.ravel()[:3]))
        elif kind == "local":
            changed = np.abs(out - first) > 1e-9
            sizes = window(changed, axes)
            mon.check(sizes is not None and all(s == limit for s in sizes), "not-local", lambda: f"{what}: changed {changed.astype(int).tolist()} instead of a window of size {limit}")
            mon.seen(kind, shape, tuple(axes), tuple(np.argwhere(changed)[0]) if changed.any() else ())
        elif kind == "choice":
            conserved = sorted(out.ravel().tolist()) == sorted(first.ravel().tolist())
            ok = is_roll(first, out, range(ndim)) or is_jump(first, out, 0, shape[0]) or not conserved
            mon.check(ok, "no-declared-mutation", lambda: f"{what}: {first.tolist()} became {out.tolist()}")
            mon.seen(kind, shape, conserved)
        elif kind == "default" and not integers:
            mon.check(np.allclose(out, (first + second) / 2, rtol=1e-9), "default-recombination", lambda: f"{what}: {out.tolist()} is not the mean of {first.tolist()} and {second.tolist()}")
            mon.seen(kind, shape)
        else:
            mon.seen(kind, shape, integers, bounded)
    # frozen parameters refuse
    child = child_of(first)
    child.freeze()
    for f in (child.mutate, lambda: child.recombine(child_of(second))):
        try:
            f()
        except RuntimeError:
            mon.check(True, "frozen", "")
        else:
            mon.violate("frozen-modified", f"{what}: a frozen parameter was modified")
    mon.check(np.array_equal(value_of(child), first), "frozen-changed", lambda: f"{what}: a frozen parameter became {value_of(child)}")
    mon.event("frozen")


def is_roll(a: np.ndarray, b: np.ndarray, axes: tp.Iterable[int]) -> bool:
    axes = list(axes)
    pos = np.argwhere(np.abs(b - a.ravel()[0]) < 1e-9)
    if len(pos) != 1:
        return False
    shifts = [int(pos[0][ax]) for ax in axes]
    return bool(np.allclose(np.roll(a, shifts, axis=tuple(axes)), b, atol=1e-9))


def is_jump(a: np.ndarray, b: np.ndarray, axis: int, limit: int) -> bool:
    n = a.shape[axis]
    order = []
    for k in range(n):
        sl = np.take(b, k, axis=axis)
        found = [j for j in range(n) if np.allclose(np.take(a, j, axis=axis), sl, atol=1e-9)]
        if len(found) != 1:
            return False
        order.append(found[0])
    for start, length in itertools.product(range(n), range(0, limit)):
        chunk = list(range(n))[start : start + length]
        remain = [k for k in range(n) if k not in chunk]
        for pos in range(len(remain) + 1):
            if remain[:pos] + chunk + remain[pos:] == order:
                return True
    return False
