"""D01: every asked point and recommendation of all optimizers on random parametrization programs judged by an independent description of the domain."""
import typing as tp
import numpy as np
from .. import drive, opts, spaces
from ..engine import Mon, rng_of

RULE = (
    "a distinct state is (optimizer, structure of the parametrization (types, bounds method, integer casting, repetitions), "
    "point type asked/recommended/pareto): a judged point of that optimizer on that structure"
)
BUDGET_S = {"quick": 60, "thorough": 600}
MIN_EVALS = 8000
NEED_EVENTS = ("ask", "recommend", "bounded", "integer", "choice", "nested", "hostile-loss")
CASE_TIMEOUT = 60
ASSUMPTIONS = ["the domain is described by vh/spaces.py independently from nevergrad", "bounds are compared with a relative tolerance of 1e-9"]
ARRAY_ONLY = ("ImageMetaModel",)


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    names = opts.usable()
    for k in range(1 if tier == "quick" else 10):
        for i, n in enumerate(names):
            out.append(dict(opt=n, prog=(seed * 131 + i * 7 + k * 1009) % 100003, workers=1 if opts.no_parallel(n) else [1, 3][(i + k) % 2], seed=seed * 1000 + k, n=18))
    for k in range(4 if tier == "quick" else 60):
        for i, n in enumerate(opts.core()):
            out.append(dict(opt=n, prog=(seed * 173 + i * 11 + k * 2003 + 50000) % 100003, workers=1 if opts.no_parallel(n) else [1, 4][(i + k) % 2], seed=seed * 1000 + 100 + k, n=45))
    return out


def shape_of(s: tp.Dict[str, tp.Any]) -> tp.Any:
    t = s["t"]
    if t in ("array", "scalar", "log"):
        return (t, s.get("method"), s.get("lower") is not None, s.get("upper") is not None, bool(s.get("int")))
    if t in ("choice", "transition"):
        return (t, s["rep"], s.get("det", s.get("ordered")), tuple(shape_of(o) for o in s["opts"]))
    if t == "const":
        return t
    if t == "dict":
        return (t, tuple(shape_of(v) for v in s["items"].values()))
    if t == "tuple":
        return (t, tuple(shape_of(v) for v in s["items"]))
    return (t, tuple(shape_of(v) for v in s["args"]), tuple(shape_of(v) for v in s["kwargs"].values()))




def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    r = rng_of(case)
    spec = None
    for _ in range(50):
        cand = spaces.gen(r, depth=r.choice([0, 1, 2]))
        if case["opt"].startswith(ARRAY_ONLY) and cand["t"] != "array":
            continue
        dim = spaces.build(cand).dimension
        if dim == 0 or dim > (5 if case["opt"] == "NLOPT_GN_AGS" else 30) or (dim < 2 and case["opt"] in opts.NOT_1D):
            continue
        spec = cand
        break
    if spec is None:
        spec = opts.SPACES["arr3"]
    opt = opts.build_opt(case["opt"], lambda: spaces.build(spec), case["n"] + 5, case["workers"], case["seed"])
    workers = opt.num_workers
    who = f"{case['opt']} on {spec}"
    mon.event("bounded", int(spaces.any_node(spec, lambda n: n.get("lower") is not None or n.get("upper") is not None)))
    mon.event("integer", int(spaces.any_node(spec, lambda n: bool(n.get("int")))))
    mon.event("choice", int(spaces.any_node(spec, lambda n: n["t"] in ("choice", "transition"))))
    mon.event("nested", int(spec["t"] in ("dict", "tuple", "instru")))
    shape = shape_of(spec)

    def judge(c: tp.Any, what: str) -> None:
        v = c.value
        prob = spaces.problem(spec, v)
        mon.check(prob is None, f"{what}-out-of-domain", lambda: f"{who}: {what} {v!r}: {prob}")
        again = c.value
        mon.check(spaces.freeze(v) == spaces.freeze(again), f"{what}-reread", lambda: f"{who}: {v!r} then {again!r}")
        if isinstance(c, ng.p.Instrumentation):
            ok = spaces.freeze((tuple(c.args), dict(c.kwargs))) == spaces.freeze((tuple(v[0]), dict(v[1])))
        elif isinstance(c, ng.p.Dict) or isinstance(c, ng.p.Tuple):
            ok = spaces.freeze(tuple(c.args)) == spaces.freeze((v,)) and not c.kwargs
        else:
            ok = spaces.freeze(tuple(c.args)) == spaces.freeze((v,)) and not c.kwargs
        mon.check(ok, f"{what}-arguments", lambda: f"{who}: value {v!r} but args {c.args!r} kwargs {c.kwargs!r}")
        mon.event("ask" if what == "asked" else "recommend")
        mon.seen(case["opt"], shape, what)

    pending: tp.List[tp.Any] = []
    kind = r.choice(["plain", "plain", "hostile", "ties", "decreasing"])
    for step in range(case["n"]):
        while len(pending) < workers and (not pending or r.random() < 0.8):
            try:
                c = opt.ask()
            except ValueError as e:
                if case["opt"] == "HyperOpt" and "bound" in str(e):
                    mon.event("refused")  # hyperopt announces that it needs bounds
                    return
                raise
            judge(c, "asked")
            pending.append(c)
        c = pending.pop(r.randrange(len(pending)))
        loss = spaces.numeric_loss(c.value)
        if kind == "hostile" and r.random() < 0.3:
            loss = r.choice([float("nan"), float("inf"), 1e30, -1e19, 1e-300, 0.0])
            mon.event("hostile-loss")
        elif kind == "ties":
            loss = float(r.randint(0, 2))
        elif kind == "decreasing":
            loss = -float(step)
        if not np.isfinite(loss) and kind != "hostile":
            loss = 1e10
        opt.tell(c, loss)
        if r.random() < 0.12:
            judge(opt.provide_recommendation(), "recommended")
    judge(opt.provide_recommendation(), "recommended")
