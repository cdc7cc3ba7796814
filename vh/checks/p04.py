"""P04: every data transform with random (scalar, array, one-sided, extreme) bounds is applied to random and extreme points; range, monotonicity, inversion and refusals are judged by exact formulas on the bounds."""
import typing as tp
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (transform, kind of bounds, magnitude, kind of points): a batch of points mapped, compared and mapped back"
BUDGET_S = {"quick": 40, "thorough": 400}
MIN_EVALS = 30000
NEED_EVENTS = ("range", "monotone", "forward-backward", "backward-forward", "refused", "image-accepted", "constructor", "reverted", "parameter", "one-sided", "array-bounds", "fourier")
ASSUMPTIONS = ["magnitudes of the bounds between 1e-8 and 1e12 and points up to 1e150; float precision relative to the magnitude of the bounds"]
KINDS = ("tanh", "arctan", "gaussian", "cauchy", "clipping", "bouncing", "affine", "exponentiate", "fourier")


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    return [dict(seed=seed * 1000000 + k, kind=KINDS[k % len(KINDS)]) for k in range(3000 if tier == "quick" else 60000)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    from nevergrad.parametrization import transforms as tr
    import nevergrad as ng

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    r = rng_of(case)
    rs = np.random.RandomState(r.randrange(2**32))
    kind = case["kind"]
    n = r.choice([1, 1, 2, 4])
    arrays = n > 1 and r.random() < 0.5
    mag = 10.0 ** r.uniform(-6, 8)
    off = r.choice([0.0, 0.0, mag, -mag, 100 * mag])
    if arrays:
        lo = off + mag * rs.normal(size=n)
        hi = lo + mag * np.exp(rs.normal(size=n))
        mon.event("array-bounds")
    else:
        lo = off + mag * r.gauss(0, 1)
        hi = lo + mag * np.exp(r.gauss(0, 1))
        if r.random() < 0.2:
            lo, hi = float(np.floor(lo)), float(np.ceil(hi) + 1)
    lo_a, hi_a = np.broadcast_to(np.asarray(lo, float), (n,)), np.broadcast_to(np.asarray(hi, float), (n,))
    width = hi_a - lo_a
    tol = 4e-15 * np.maximum(np.maximum(np.abs(lo_a), np.abs(hi_a)), width)

    if kind == "affine":
        a, b = rs.normal(size=n) * mag, rs.normal(size=n) * mag
        t: tp.Any = tr.Affine(a if arrays else a[0], b if arrays else b[0])
        x = rs.normal(size=n) * 10.0 ** r.uniform(-3, 6)
        aa, bb = (a, b) if arrays else (a[0], b[0])
        y = t.forward(x)
        mon.check(np.allclose(y, aa * x + bb, rtol=1e-12, atol=0), "affine-forward", lambda: f"{t}: {x} gives {y}")
        mon.check(np.allclose(t.backward(y), x, rtol=1e-9, atol=1e-12 * float(np.max(np.abs(bb / aa)))), "affine-back", lambda: f"{t}: {x} back as {t.backward(y)}")
        mon.event("forward-backward")
        for bad in ([0.0], 0.0, np.append(a, 0.0)):
            refused(mon, lambda bad=bad: tr.Affine(bad, 1.0), "affine-zero", f"Affine({bad}, 1)")
        reverted(mon, t, x, y)
        mon.seen(kind, arrays, int(np.log10(mag)))
        return
    if kind == "exponentiate":
        base, coeff = r.choice([2.0, 10.0, 1.5]), r.choice([1.0, -1.0, 0.3])
        t = tr.Exponentiate(base, coeff)
        x = np.sort(rs.normal(size=n) * 10.0 ** r.uniform(-3, 2))
        y = t.forward(x)
        ok = np.isfinite(y) & (y > 0)
        mon.check((y >= 0).all(), "exp-range", lambda: f"{t}: {x} gives {y}")
        mon.check((np.diff(y) * coeff >= 0).all(), "exp-monotone", lambda: f"{t}: {x} gives {y}")
        mon.check(np.allclose(t.backward(y[ok]), x[ok], rtol=1e-9, atol=1e-12), "exp-back", lambda: f"{t}: {x} back as {t.backward(y)}")
        y = np.exp(rs.normal(size=n) * 5)
        mon.check(np.allclose(t.forward(t.backward(y)), y, rtol=1e-9), "exp-forth", lambda: f"{t}: {y} forth as {t.forward(t.backward(y))}")
        mon.event("backward-forward")
        reverted(mon, t, x[ok], t.forward(x[ok]))
        mon.seen(kind, base, coeff)
        return
    if kind == "fourier":
        shape = tuple(2 * r.randint(1, 4) for _ in range(r.randint(1, 3)))
        axes: tp.Any = r.sample(range(len(shape)), r.randint(1, len(shape)))
        t = tr.Fourrier(axes if len(axes) > 1 else axes[0])
        x = rs.normal(size=shape)
        y = t.forward(x)
        back = t.backward(y)
        mon.check(back.shape == x.shape and np.allclose(back, x, rtol=1e-9, atol=1e-12), "fourier-back", lambda: f"{t}: shape {x.shape} back as {back.shape}")
        odd = rs.normal(size=tuple(s + 1 for s in shape))
        refused(mon, lambda: t.forward(odd), "fourier-odd", f"{t} on odd shape {odd.shape}")
        mon.event("fourier")
        mon.seen(kind, shape)
        return

    one_sided = kind in ("clipping", "bouncing") and r.random() < 0.4
    lower: tp.Any = lo
    upper: tp.Any = hi
    if one_sided:
        if r.random() < 0.5:
            lower, lo_a = None, np.full(n, -np.inf)
        else:
            upper, hi_a = None, np.full(n, np.inf)
        mon.event("one-sided")
    scale = 1.0
    if kind == "tanh":
        t = tr.TanhBound(lower, upper)
    elif kind == "arctan":
        t = tr.ArctanBound(lower, upper)
    elif kind in ("gaussian", "cauchy"):
        if arrays:  # scalar bounds only
            lo_a, hi_a = np.full(n, lo_a[0]), np.full(n, hi_a[0])
            lower, upper = float(lo_a[0]), float(hi_a[0])
            width = hi_a - lo_a
            tol = 4e-15 * np.maximum(np.maximum(np.abs(lo_a), np.abs(hi_a)), width)
        scale = r.choice([1.0, 1.0, 3.0])
        t = tr.CumulativeDensity(lower=lower, upper=upper, scale=scale, density=kind)
    else:
        t = tr.Clipping(lower, upper, bounce=kind == "bouncing")
    name = f"{kind}({lower}, {upper})"
    clip = kind in ("clipping", "bouncing")

    # forward: range, shape, no modification of the input
    inside = lo_a + width * rs.rand(n) if not one_sided else np.where(np.isinf(lo_a), hi_a - width * rs.rand(n), lo_a + width * rs.rand(n))
    points = {
        "normal": rs.normal(size=n) if not clip else off + mag * 3 * rs.normal(size=n),
        "wide": rs.normal(size=n) * (50 if not clip else 50 * mag),
        "huge": rs.normal(size=n) * 10.0 ** r.uniform(3, 150),
        "zero": np.zeros(n),
        "bounds": np.where(np.isinf(lo_a), hi_a, lo_a) if clip else np.full(n, r.choice([-8.0, 8.0])),
        "inside": inside.copy(),
    }
    for label, x in points.items():
        keep = x.copy()
        y = t.forward(x)
        mon.check(y.shape == x.shape, "shape", lambda: f"{name}: shape {x.shape} becomes {y.shape}")
        mon.check(np.isfinite(y).all() and (y >= lo_a - tol).all() and (y <= hi_a + tol).all(), f"range:{kind}", lambda: f"{name}: {x.tolist()} gives {y.tolist()}")
        mon.check((x == keep).all(), "input-modified", lambda: f"{name}: {keep} became {x}")
        mon.event("range")
        mon.seen(kind, arrays, one_sided, int(np.log10(mag)), off > 0, label)
        # the image is accepted on the way back, and maps to itself
        try:
            z = t.backward(y)
            y2 = t.forward(z)
        except ValueError as e:
            mon.violate(f"image-refused:{kind}", f"{name}: {x.tolist()} gives {y.tolist()}, which is refused: {e}")
            continue
        eps = 1e-9 * width * 1.01 if kind in ("gaussian", "cauchy") else 1e-12 * width
        mon.check((np.abs(y2 - y) <= eps + 4 * tol).all(), f"image-moved:{kind}", lambda: f"{name}: {y.tolist()} goes back and forth as {y2.tolist()}")
        mon.event("image-accepted")
    # domain -> back -> forth
    y = inside
    z = t.backward(y)
    mon.check(z.shape == y.shape and np.isfinite(z).all(), f"backward:{kind}", lambda: f"{name}: {y} comes from {z}")
    y2 = t.forward(z)
    mon.check((np.abs(y2 - y) <= 1e-9 * width * 1.01 + 4 * tol).all(), f"backward-forward:{kind}", lambda: f"{name}: {y.tolist()} comes from {z.tolist()} which gives {y2.tolist()}")
    mon.event("backward-forward")
    # real -> forth -> back, where the float precision of the bounds allows it
    if not clip:
        precise = float((tol / width).max())
        x = rs.normal(size=n) * scale
        z = t.backward(t.forward(x))
        slope = {"tanh": lambda u: np.cosh(u) ** 2, "arctan": lambda u: 1 + u**2, "cauchy": lambda u: 1 + u**2, "gaussian": lambda u: np.exp(u**2 / 2)}[kind](x / scale)
        err = 1e-8 + 100 * precise * slope
        mon.check((np.abs(z - x) <= err * scale * (1 + np.abs(x))).all(), f"forward-backward:{kind}", lambda: f"{name}: {x.tolist()} comes back as {z.tolist()} (tolerance {err})")
        mon.event("forward-backward")
    else:
        z = t.forward(inside)
        mon.check((z == inside).all(), f"identity-inside:{kind}", lambda: f"{name}: {inside.tolist()} inside of the bounds becomes {z.tolist()}")
        if kind == "bouncing" and not one_sided:
            over = rs.rand(n) * width  # bounces once
            z = t.forward(hi_a + over)
            mon.check(np.allclose(z, hi_a - over, rtol=0, atol=1e-9 * (np.abs(hi_a).max() + width.max())), "bounce", lambda: f"{name}: {hi_a + over} bounces to {z} instead of {hi_a - over}")
            z = t.forward(lo_a - over)
            mon.check(np.allclose(z, lo_a + over, rtol=0, atol=1e-9 * (np.abs(hi_a).max() + width.max())), "bounce", lambda: f"{name}: {lo_a - over} bounces to {z} instead of {lo_a + over}")
        elif kind == "clipping":
            x = off + 5 * mag * rs.normal(size=n)
            z = t.forward(x)
            expected = np.minimum(np.maximum(x, lo_a), hi_a)
            mon.check((z == expected).all(), "clip", lambda: f"{name}: {x} clips to {z} instead of {expected}")
    # monotone: coordinate by coordinate
    if kind != "bouncing":
        grid = np.sort(np.concatenate([rs.normal(size=6), rs.normal(size=4) * 30, [0.0]]))
        if clip:
            grid = off + mag * grid
        ys = np.array([t.forward(np.full(n, g)) for g in grid])
        mon.check((np.diff(ys, axis=0) >= -tol).all(), f"monotone:{kind}", lambda: f"{name}: {grid.tolist()} gives {ys.tolist()}")
        mon.check((ys[-1] >= ys[0]).all() and (clip or (ys[-1] > ys[0]).all()), f"monotone:{kind}", lambda: f"{name}: constant on {grid.tolist()}: {ys.tolist()}")
        mon.event("monotone")
    # points outside are refused on the way back, whatever the coordinate
    for sign in (-1, 1):
        y = inside.copy()
        k = r.randrange(n)
        y[k] = (lo_a[k] - width[k] * r.choice([1e-3, 1.0, 1e6])) if sign < 0 else (hi_a[k] + width[k] * r.choice([1e-3, 1.0, 1e6]))
        if np.isfinite(y[k]) and (y[k] < lo_a[k] or y[k] > hi_a[k]):
            refused(mon, lambda y=y: t.backward(y), f"out-of-range:{kind}", f"{name} backward {y.tolist()}")
    reverted(mon, t, inside * 0.0 if not clip else inside, t.forward(inside * 0.0 if not clip else inside))
    # constructors
    cls = type(t)
    kw = ("lower", "upper") if kind in ("gaussian", "cauchy") else ("a_min", "a_max")
    flo, fhi = lo if not arrays else list(lo), hi if not arrays else list(hi)
    if kind in ("gaussian", "cauchy") and arrays:
        flo, fhi = flo[0], fhi[0]  # type: ignore
    refused(mon, lambda: cls(**{kw[0]: fhi, kw[1]: flo}), f"reversed-bounds:{kind}", f"{cls} reversed bounds")
    refused(mon, lambda: cls(**{kw[0]: flo, kw[1]: flo}), f"equal-bounds:{kind}", f"{cls} equal bounds")
    if arrays and kind not in ("gaussian", "cauchy"):
        bad = np.array(hi)
        bad[r.randrange(n)] = np.array(lo).min() - 1
        refused(mon, lambda: cls(**{kw[0]: lo, kw[1]: bad}), f"one-reversed:{kind}", f"{cls} bounds {lo} {bad}")
        refused(mon, lambda: t.forward(np.zeros(n + 1)), f"wrong-shape:{kind}", f"{name} on shape {n + 1}")
        refused(mon, lambda: t.backward(np.repeat(inside, 2)), f"wrong-shape:{kind}", f"{name} back on shape {2 * n}")
    mon.event("constructor")
    # the same through bounded parameters
    method = {"cauchy": None}.get(kind, kind)
    if method and not one_sided and kind not in ("clipping", "bouncing"):
        p = ng.p.Array(init=inside).set_bounds(lower, upper, method=method)
        mon.check(np.allclose(p.value, inside, rtol=0, atol=2e-9 * width.max() + 8 * tol.max()), f"parameter:{kind}", lambda: f"{name}: initial value {inside} read as {p.value}")
        mon.event("parameter")


def refused(mon: Mon, f: tp.Callable[[], tp.Any], key: str, what: str) -> None:
    try:
        out = f()
    except Exception:  # pylint: disable=broad-except
        mon.check(True, key, "")
        mon.event("refused")
    else:
        mon.violate(f"accepted:{key}", f"{what} accepted: {out!r}")


def reverted(mon: Mon, t: tp.Any, x: np.ndarray, y: np.ndarray) -> None:
    rev = t.reverted()
    a, b = rev.forward(y), t.backward(y)
    mon.check(np.array_equal(a, b), "reverted", lambda: f"{t}: reverted gives {a} instead of {b}")
    a, b = rev.backward(x), t.forward(x)
    mon.check(np.array_equal(a, b), "reverted", lambda: f"{t}: reverted gives {a} instead of {b}")
    mon.event("reverted")
