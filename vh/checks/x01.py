"""X01: probe optimizers are plugged as leaves of real composite optimizers; every ask and tell they receive is compared online with what happens at the top."""
import random
import typing as tp
import warnings
import numpy as np
from .. import opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (shape of the composition, workers, stage of the run, kind of operation)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 15000
NEED_EVENTS = ("ask", "tell", "foreign", "chain-stage", "portfolio-turn", "portfolio-narrowed", "split-slices", "rescaled", "competence-map",
               "scalarized", "refused", "sequential-leaf", "suggestion", "no-crossing", "discarded-in-flight")  # fmt: skip
ASSUMPTIONS = [
    "probes are ordinary subclasses of the public Optimizer class, with public ask and tell recorded",
    "compositions are over unbounded arrays, where coordinates are exact up to the floating point rounding of scales",
    "losses of the histories are pairwise distinct, so that the best point is unique",
]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out: tp.List[tp.Dict[str, tp.Any]] = []
    n = 1 if tier == "quick" else 12
    for k in range(220 * n):
        out.append(dict(kind="tree", seed=seed * 1000000 + k))
    for k in range(160 * n):
        out.append(dict(kind="portfolio", seed=seed * 1000000 + 200000 + k))
    for k in range(100 * n):
        out.append(dict(kind="chain", seed=seed * 1000000 + 400000 + k))
    for k in range(20 * n):
        out.append(dict(kind="msr", seed=seed * 1000000 + 600000 + k))
    names = ["NGOpt", "NGOpt4", "NGOpt8", "NGOpt10", "NGOpt12", "NGOpt13", "NGOpt14", "NGOpt15", "NGOpt16", "NGOpt21", "NGOpt36", "NGOpt38", "NGOpt39",
             "NGO", "Shiwa", "ABBO", "MetaCMA", "CMA", "NgIoh4", "NgIoh5", "NgIoh6", "NGOptRW", "Wiz", "NgIoh", "NgIoh2", "NgIoh3", "NgIoh7"]  # fmt: skip
    for i, name in enumerate(names):
        for k in range(n if tier != "quick" else 1):
            out.append(dict(kind="map", opt=name, space=["arr3", "mix", "int", "tch", "bnd2", "dct", "one"][(i + k + seed) % 7],
                            workers=[1, 4][(i // 2 + k) % 2], budget=[12, 30, 90, 300][(i + k) % 4], seed=seed * 1000 + k))  # fmt: skip
    return out


# ---------------------------------------------------------------- probes
class Log:
    """what the leaves see during one top-level operation"""

    def __init__(self) -> None:
        self.asks: tp.List[tp.Any] = []
        self.tells: tp.List[tp.Any] = []
        self.leaves: tp.List[tp.Any] = []


def probe_class(log: Log, r: random.Random, label: str, supports: bool = True, sequential: bool = False) -> tp.Any:
    from nevergrad.optimization import base

    class Probe(base.Optimizer):
        no_parallelization = sequential

        def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
            super().__init__(parametrization, budget=budget, num_workers=num_workers)
            self.label = label
            self.flight: tp.Dict[str, np.ndarray] = {}  # what it proposed, and is not told
            self.answered: tp.Set[str] = set()
            self.own = 0
            self.waiting: tp.Set[str] = set()
            log.leaves.append(self)

        def std(self, c: tp.Any) -> np.ndarray:
            return np.array(c.get_standardized_data(reference=self.parametrization), dtype=float)

        def _internal_ask_candidate(self) -> tp.Any:
            x = np.array([r.gauss(0, 1) for _ in range(self.dimension)])
            self.own += 1
            return self.parametrization.spawn_child().set_standardized_data(x)

        def ask(self) -> tp.Any:
            own = self.own
            c = super().ask()
            self.flight[c.uid] = self.std(c)
            if self.own > own:  # and not a suggestion
                self.waiting.add(c.uid)
            log.asks.append((self, c.uid, self.std(c)))
            return c

        def tell(self, candidate: tp.Any, loss: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> None:
            mine = candidate.uid in self.flight
            self.waiting.discard(candidate.uid)
            expected = self.flight.pop(candidate.uid, None)
            again = candidate.uid in self.answered
            if mine:
                self.answered.add(candidate.uid)
            log.tells.append((self, candidate.uid, self.std(candidate), loss, mine, expected, again))
            super().tell(candidate, loss, *args, **kwargs)

        def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
            pass

        def _internal_tell_not_asked(self, candidate: tp.Any, loss: float) -> None:
            if not supports:
                from nevergrad.common import errors

                raise errors.TellNotAskedNotSupportedError

    Probe.__name__ = f"Probe{label}"
    return Probe


# ---------------------------------------------------------------- random compositions
class Node:
    """a composite optimizer class, and what each of its leaves sees: slice and scale of the coordinates"""

    def __init__(self, cls: tp.Any, shape: str, leaves: tp.List[tp.Tuple[str, slice, float]]) -> None:
        self.cls, self.shape, self.leaves = cls, shape, leaves


def tree(r: random.Random, log: Log, dim: int, depth: int, budget: int, workers: int, counter: tp.List[int], supports: bool) -> Node:
    import nevergrad as ng

    kind = "leaf" if depth == 0 else r.choice(["portfolio", "chain", "rescaled", "split", "split", "leaf"] if depth < 3 else ["portfolio", "chain", "rescaled", "split"])
    if kind == "split" and dim < 2:
        kind = "rescaled"
    if kind == "leaf":
        counter[0] += 1
        label = str(counter[0])
        return Node(probe_class(log, r, label, supports), "L", [(label, slice(0, dim), 1.0)])
    if kind == "rescaled":
        sub = tree(r, log, dim, depth - 1, budget, workers, counter, supports)
        scale = r.choice([0.1, 2.0, 1e-3, 30.0])
        return Node(ng.optimizers.Rescaled(base_optimizer=sub.cls, scale=scale), f"R({sub.shape})", [(n, s, f * scale) for n, s, f in sub.leaves])
    if kind == "split":
        # the same class is instantiated for all groups: leaves are told apart by order of creation
        if r.random() < 0.5:
            most = r.randint(1, dim)
            sizes = [most] * (dim // most) + ([dim % most] if dim % most else [])
            how: tp.Dict[str, tp.Any] = dict(max_num_vars=most)
        else:
            groups = r.randint(1, dim + 1)
            how = dict(num_optims=groups)
            groups = min(groups, dim)
            sizes = [dim // groups + (dim % groups > i) for i in range(groups)]
        multi, mono = probe_class(log, r, "multi", supports), probe_class(log, r, "mono", supports)
        leaves, start = [], 0
        for d in sizes:
            leaves.append(("multi" if d > 1 else "mono", slice(start, start + d), 1.0))
            start += d
        conf = ng.optimizers.ConfSplitOptimizer(**how, multivariate_optimizer=multi, monovariate_optimizer=mono)
        return Node(conf, f"S{len(sizes)}", leaves)
    subs = [tree(r, log, dim, depth - 1, budget, workers, counter, supports) for _ in range(r.randint(2, 3))]
    leaves = [x for s in subs for x in s.leaves]
    shape = "".join(s.shape for s in subs)
    if kind == "portfolio":
        return Node(ng.optimizers.ConfPortfolio(optimizers=[s.cls for s in subs], warmup_ratio=r.choice([None, 0.3, 0.7])), f"P({shape})", leaves)
    budgets = [r.choice([3, 7, "half", "tenth", "num_workers"]) for _ in subs[1:]]
    return Node(ng.optimizers.Chaining([s.cls for s in subs], budgets), f"C({shape})", leaves)


def close(a: np.ndarray, b: np.ndarray) -> bool:
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-11))


class Top:
    """drives the composite and judges each operation"""

    def __init__(self, mon: Mon, r: random.Random, opt: tp.Any, log: Log, views: tp.Dict[int, tp.Tuple[slice, float]], what: str) -> None:
        self.mon, self.r, self.opt, self.log, self.views, self.what = mon, r, opt, log, views, what
        self.owner: tp.Dict[str, tp.List[tp.Tuple[tp.Any, str]]] = {}  # top uid -> the leaves which contributed
        self.pending: tp.List[tp.Any] = []
        self.loss_count = 0
        self.losses: tp.Dict[str, float] = {}
        self.n_ask = self.n_tell = 0
        self.can_refuse = False
        self.crossing = True

    def std(self, c: tp.Any) -> np.ndarray:
        return np.array(c.get_standardized_data(reference=self.opt.parametrization), dtype=float)

    def seen_by(self, leaf: tp.Any, x: np.ndarray) -> np.ndarray:
        part, scale = self.views[id(leaf)]
        return x[part] / scale

    def ask(self) -> tp.Any:
        self.log.asks.clear()
        self.log.tells.clear()
        c = self.opt.ask()
        self.n_ask += 1
        x = self.std(c)
        self.owner[c.uid] = [(leaf, uid) for leaf, uid, _ in self.log.asks]
        self.pending.append(c)
        self.mon.event("ask")
        for leaf, _, y in self.log.asks:
            self.mon.check(
                close(y, self.seen_by(leaf, x)),
                "asked-point-differs",
                lambda: f"{self.what}: the point {x.tolist()} is asked but leaf {leaf.label} proposed {y.tolist()} (expected {self.seen_by(leaf, x).tolist()})",
            )
        self.mon.check(not self.log.tells, "tell-while-asking", lambda: f"{self.what}: leaf told during an ask")
        if not self.log.asks and "P" in self.what.split(" ")[0]:
            self.mon.event("suggested-by-portfolio")  # first point of the members of portfolios
            return c
        # variables of the asking leaves: disjoint, all covered
        cover = sorted(k for leaf, _, _ in self.log.asks for k in range(*self.views[id(leaf)][0].indices(x.size)))
        self.mon.check(
            cover == list(range(x.size)), "variables-not-partitioned", lambda: f"{self.what}: the leaves asked together cover variables {cover} of {x.size}"
        )
        if len(self.log.asks) > 1:
            self.mon.event("split-slices")
        if any(self.views[id(leaf)][1] != 1.0 for leaf, _, _ in self.log.asks):
            self.mon.event("rescaled")
        return c

    def tell(self, c: tp.Any) -> bool:
        from nevergrad.common import errors

        self.loss_count += 1
        loss = self.loss_count * 1e-3 + self.r.gauss(0, 5)  # distinct
        x = self.std(c)
        asked = c.uid in self.owner
        self.log.asks.clear()
        self.log.tells.clear()
        try:
            self.opt.tell(c, loss)
        except errors.TellNotAskedNotSupportedError:
            self.mon.event("refused")
            if not asked:
                self.losses[c.uid] = loss  # the base class may have recorded it as its best point before the refusal (unspecified)
                return False
            self.mon.violate("asked-point-refused", f"{self.what}: the loss of an asked point is refused")
        self.n_tell += 1
        self.losses[c.uid] = loss
        self.mon.event("tell")
        self.mon.check(not self.log.asks, "ask-while-telling", lambda: f"{self.what}: leaf asked during a tell")
        for leaf, _, y, told, mine, expected, again in self.log.tells:
            self.mon.check(told == loss, "loss-of-another-point", lambda: f"{self.what}: leaf {leaf.label} is told {told} when {loss} is told")
            self.mon.check(
                close(y, self.seen_by(leaf, x)),
                "told-point-differs",
                lambda: f"{self.what}: {x.tolist()} is told, but leaf {leaf.label} receives {y.tolist()} (expected {self.seen_by(leaf, x).tolist()})",
            )
            if mine:
                self.mon.check(close(y, expected), "told-coordinates-changed", lambda: f"{self.what}: leaf proposed {expected.tolist()} and is told about {y.tolist()}")
            else:
                self.mon.check(not again, "leaf-told-twice", lambda: f"{self.what}: leaf {leaf.label} is told several times about a point it proposed")
        for leaf, uid in self.owner.get(c.uid, []):
            n = sum(1 for rec in self.log.tells if rec[0] is leaf and rec[1] == uid)
            discarded = id(leaf) in self.discarded()
            self.mon.check(
                n == 1 or discarded and not n, "proposer-not-told-once", lambda: f"{self.what}: the leaf {leaf.label} which proposed the point is told {n} times"
            )
        for leaf in {id(rec[0]): rec[0] for rec in self.log.tells}.values():
            n = sum(1 for rec in self.log.tells if rec[0] is leaf)
            self.mon.check(n == 1, "several-tells", lambda: f"{self.what}: leaf {leaf.label} is told {n} times for one loss")
        return True

    def discarded(self) -> tp.Set[int]:
        return set()

    def foreign(self) -> tp.Any:
        c = self.opt.parametrization.spawn_child()
        c.set_standardized_data(np.array([self.r.gauss(0, 1) for _ in range(self.opt.dimension)]), reference=self.opt.parametrization)
        return c


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon)


def setup(r: random.Random, dim: int) -> tp.Any:
    import nevergrad as ng

    param = ng.p.Array(shape=(dim,))
    param.random_state.seed(r.randrange(2**31))
    return param


def run_tree(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    dim, workers, budget = r.randint(1, 6), r.choice([1, 1, 3, 6]), r.choice([20, 50, 90])
    log = Log()
    supports = r.random() < 0.8
    node = tree(r, log, dim, 3, budget, workers, [0], supports)
    log.leaves.clear()  # configurations are tried when they are defined
    opt = node.cls(setup(r, dim), budget=budget, num_workers=workers)
    what = f"{node.shape} budget={budget} workers={workers}"
    if not mon.check(len(log.leaves) == len(node.leaves), "missing-leaf", lambda: f"{what}: {len(log.leaves)} leaves created, {len(node.leaves)} expected"):
        return
    views: tp.Dict[int, tp.Tuple[slice, float]] = {}
    # instances are created in the order of the composition
    for leaf, (label, part, scale) in zip(log.leaves, node.leaves):
        mon.check(leaf.label == label and leaf.dimension == part.stop - part.start, "leaf-dimension",
                  lambda: f"{what}: leaf {leaf.label} of dimension {leaf.dimension}, expected {label} {part}")  # fmt: skip
        views[id(leaf)] = (part, scale)
    top = LooseTop(mon, r, opt, log, views, what)
    top.can_refuse = not supports
    for k in range(budget + 5):
        while top.pending and (len(top.pending) >= workers or r.random() < 0.4):
            top.tell(top.pending.pop(r.randrange(len(top.pending))))
        if supports and r.random() < 0.08:
            if top.tell(top.foreign()):
                mon.event("foreign")
        top.ask()
        mon.seen(node.shape, workers, k * 5 // budget, len(log.asks))


class LooseTop(Top):
    """compositions with portfolios: leaves may be discarded after the warm-up"""

    def discarded(self) -> tp.Set[int]:
        if "P" not in self.what.split(" ")[0]:
            return set()
        return set(self.views)


def run_portfolio(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    r = rng_of(case)
    num = r.randint(2, 4)
    workers = r.choice([1, 1, 2, 4, 7])
    budget, ratio = r.choice([25, 60, 100]), r.choice([None, 0.2, 0.5, 0.8])
    flags = [(r.random() < 0.7, r.random() < 0.3) for _ in range(num)]
    if all(seq for _, seq in flags) and workers > num:
        flags[0] = (flags[0][0], False)
    log = Log()
    classes = [probe_class(log, r, str(i), sup, seq) for i, (sup, seq) in enumerate(flags)]
    conf = ng.optimizers.ConfPortfolio(optimizers=classes, warmup_ratio=ratio)
    log.leaves.clear()
    try:
        opt = conf(setup(r, 3), budget=budget, num_workers=workers)
    except ValueError:
        mon.event("portfolio-rejected")
        return
    what = f"portfolio of {flags} (tell-not-asked, sequential), workers={workers} budget={budget} warmup={ratio}"
    leaves = list(log.leaves)
    gone: tp.Set[int] = set()

    class PTop(Top):
        def discarded(self) -> tp.Set[int]:
            return gone

    top = PTop(mon, r, opt, log, {id(x): (slice(0, 3), 1.0) for x in leaves}, what)
    kept: tp.Optional[tp.Any] = None
    recent: tp.List[int] = []
    warmup = None if ratio is None else int(ratio * budget)
    for k in range(budget + 5):
        while top.pending and (len(top.pending) >= workers or r.random() < 0.4):
            c = top.pending.pop(r.randrange(len(top.pending)))
            if gone and any(id(leaf) in gone for leaf, _ in top.owner[c.uid]):
                mon.event("discarded-in-flight")
            top.tell(c)
        if r.random() < 0.06:
            if top.tell(top.foreign()):
                mon.event("foreign")
        # who should be asked?
        narrow = None
        if kept is None and warmup is not None and top.n_tell > warmup:
            best = min(top.losses, key=top.losses.get)  # type: ignore
            owner = top.owner.get(best)
            if owner and (workers == 1 or owner[0][0].num_workers > 1):
                narrow = owner[0][0]
        busy = {id(leaf): len(leaf.waiting) for leaf in leaves}
        top.ask()
        leaf = log.asks[0][0]
        index = leaves.index(leaf)
        mon.seen("portfolio", num, workers, ratio, kept is not None, k * 4 // budget)
        if not mon.check(len(log.asks) == 1, "several-members-asked", lambda: f"{what}: {len(log.asks)} members asked at once"):
            return
        if narrow is not None:
            kept = narrow
            gone.update(id(x) for x in leaves if x is not kept)
            mon.event("portfolio-narrowed")
        if kept is not None:
            mon.check(
                leaf is kept, "not-the-member-behind-the-best", lambda: f"{what}: member {index} is asked at ask {k}, {leaves.index(kept)} provided the best point at the end of the warm-up"
            )
            continue
        if flags[index][1] and any(not seq for _, seq in flags):
            mon.event("sequential-leaf")
            mon.check(
                busy[id(leaf)] == 0, "sequential-member-asked-while-busy", lambda: f"{what}: sequential member {index} is asked with {busy[id(leaf)]} points in flight"
            )
        recent.append(index)
        mon.event("portfolio-turn")
        if workers == 1:
            counts = [recent.count(i) for i in range(num)]
            mon.check(max(counts) - min(counts) <= 1, "members-not-used-equally", lambda: f"{what}: members were asked {counts} times")
        else:
            window = recent[-(num + 1) * (workers + 1) :]
            if len(window) == (num + 1) * (workers + 1):
                lost = [i for i in range(num) if not flags[i][1] and i not in window]
                mon.check(not lost, "member-not-used", lambda: f"{what}: members {lost} not asked in the last {len(window)} asks")


def run_chain(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    r = rng_of(case)
    num = r.randint(2, 4)
    workers = r.choice([1, 1, 3, 6])
    budget = r.choice([None, 12, 30, 77])
    names = ["half", "third", "fourth", "tenth", "equal", "most", "sqrt", "dimension", "num_workers", 1, 4, 11]
    budgets = [r.choice(names) for _ in range(num - 1)]
    no_crossing = r.random() < 0.4
    dim = r.randint(1, 5)
    log = Log()
    supports = [True] * num
    classes = [probe_class(log, r, str(i), supports[i]) for i in range(num)]
    conf = ng.optimizers.Chaining(classes, budgets, no_crossing=no_crossing)
    log.leaves.clear()
    opt = conf(setup(r, dim), budget=budget, num_workers=workers)
    what = f"chain {budgets} budget={budget} workers={workers} dimension={dim} no_crossing={no_crossing}"
    b = budget
    fractions = {"half": (1, 2), "third": (1, 3), "fourth": (1, 4), "tenth": (1, 10), "most": (4, 5)}

    def share(x: tp.Any) -> int:
        if isinstance(x, int):
            return x
        if x == "dimension":
            return dim
        if x == "num_workers" or b is None:
            return workers
        if x == "equal":
            return max(1, b // num)
        if x == "sqrt":
            return max(1, int(np.sqrt(b)))
        return max(1, b * fractions[x][0] // fractions[x][1])

    ends = list(np.cumsum([share(x) for x in budgets]))
    leaves = list(log.leaves)
    top = Top(mon, r, opt, log, {id(x): (slice(0, dim), 1.0) for x in leaves}, what)
    total = int(ends[-1]) + 15
    for k in range(min(total, 150)):
        while top.pending and (len(top.pending) >= workers or r.random() < 0.4):
            c = top.pending.pop(r.randrange(len(top.pending)))
            top.tell(c)
            if no_crossing:
                mon.event("no-crossing")
                owners = {id(leaf) for leaf, _ in top.owner[c.uid]}
                others = [rec[0].label for rec in log.tells if id(rec[0]) not in owners]
                mon.check(not others, "crossing", lambda: f"{what}: stages {others} are told about the point of another stage")
        if r.random() < 0.06:
            top.tell(top.foreign())
            mon.event("foreign")
        if r.random() < 0.04:
            opt.suggest(np.array([r.gauss(0, 1) for _ in range(dim)]))
            c = opt.ask()
            top.n_ask += 1
            mon.event("suggestion")
            if r.random() < 0.7:
                top.tell(c)
            continue
        stage = next((i for i, e in enumerate(ends) if top.n_ask < e), num - 1)
        top.ask()
        index = leaves.index(log.asks[0][0])
        mon.event("chain-stage")
        mon.seen("chain", tuple(map(str, budgets)), budget, workers, index)
        mon.check(
            len(log.asks) == 1 and index == stage, "wrong-stage", lambda: f"{what}: ask {top.n_ask} goes to stage {index}, expected {stage} (ends: {ends})"
        )


def run_msr(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    import nevergrad as ng

    r = rng_of(case)
    log = Log()
    num, m, workers = r.randint(1, 5), r.randint(1, 4), r.choice([1, 3])
    cls = probe_class(log, r, "x")
    conf = ng.optimizers.MultipleSingleRuns(num_single_runs=num, base_optimizer=cls)
    log.leaves.clear()
    opt = conf(setup(r, 3), budget=60, num_workers=workers)
    data: tp.List[tp.Tuple[np.ndarray, tp.Dict[int, float]]] = []
    pending: tp.List[tp.Any] = []
    what = f"{num} single runs with {m} objectives"
    for _ in range(30):
        while pending and (len(pending) >= workers or r.random() < 0.5):
            c = pending.pop(r.randrange(len(pending)))
            y = np.array([r.uniform(-3, 3) for _ in range(m)])
            log.tells.clear()
            opt.tell(c, y.copy() if m > 1 else float(y[0]))
            mon.check(len(log.tells) == num and len({id(t[0]) for t in log.tells}) == num, "single-run-not-told", lambda: f"{what}: {len(log.tells)} tells")
            mon.check(all(t[1] == c.uid for t in log.tells), "single-run-other-point", lambda: f"{what}: told about another point")
            data.append((y, {log.leaves.index(t[0]): float(t[3]) for t in log.tells}))
            mon.event("scalarized")
        pending.append(opt.ask())
    mon.seen("msr", num, m, workers)
    Y = np.array([y for y, _ in data])
    for i in range(num):
        z = np.array([t.get(i, np.nan) for _, t in data])
        coeffs, *_ = np.linalg.lstsq(Y, z, rcond=None)
        mon.check(
            bool(np.allclose(Y @ coeffs, z, atol=1e-8) and np.all(coeffs >= -1e-9) and np.all(coeffs <= 1 + 1e-9)),
            "scalarization-not-fixed",
            lambda: f"{what}: run {i} does not receive one fixed non-negative combination of the losses ({coeffs})",
        )


def run_map(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    """competence maps behave as the optimizer they select"""
    import gc
    import nevergrad as ng

    r = rng_of(case)
    name, workers, budget = case["opt"], case["workers"], case["budget"]
    if name not in ng.optimizers.registry or name in opts.SLOW or name in opts.UNUSABLE:
        return
    spec = opts.SPACES[case["space"]]

    def new(n: str) -> tp.Any:
        return opts.build_opt(n, lambda: spaces.build(spec), budget, workers, case["seed"])

    a = new(name)
    if not hasattr(a, "optim"):
        mon.event("not-a-map")
        return
    sub = a.optim.name
    if sub not in ng.optimizers.registry or sub in opts.SLOW or sub in opts.UNUSABLE or sub == name or opts.is_recast(sub):
        mon.event("selected-not-registered")
        return
    b = new(sub)
    what = f"{name} selects {sub} on {case['space']} (budget={budget}, workers={workers})"
    flight: tp.List[tp.Any] = []
    mon.seen("map", name, sub)
    for k in range(min(budget, 60)):
        while flight and (len(flight) >= workers or r.random() < 0.4):
            ca, cb = flight.pop(r.randrange(len(flight)))
            loss = r.gauss(0, 3)
            a.tell(ca, loss)
            b.tell(cb, loss)
        ca, cb = a.ask(), b.ask()
        mon.event("competence-map")
        if not mon.check(spaces.same(ca.value, cb.value, 1e-12, 0.0), "competence-map-differs", lambda: f"{what}: ask {k} is {ca.value} instead of {cb.value}"):
            return
        flight.append((ca, cb))
    del a, b
    gc.collect()
