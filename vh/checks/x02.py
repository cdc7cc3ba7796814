"""X02: monitors on the ancestry of asked candidates (who is mutated, in which lineage) against a shadow population rebuilt from the log of asks and tells."""
import collections
import random
import typing as tp
import warnings
import numpy as np
from .. import opts, spaces
from ..engine import Mon, rng_of

RULE = "a distinct state is (family, configuration, workers, kind of losses, phase of the run, size of the population)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 20000
NEED_EVENTS = ("one-parent", "one-pareto-parent", "de-parent", "de-popsize", "de-fair", "de-violation", "pso-pull", "pso-position",
               "es-slot", "es-best", "foreign")  # fmt: skip
ASSUMPTIONS = [
    "the parent of a candidate is the first uid in its parents_uids, and its slot is heritage['lineage']",
    "(1+1) is judged until the first repeated point: repeated points are averaged with confidence bounds (A02)",
    "the pull of particle swarms is observed through configurations without inertia, where a child lies between its parent and the bests",
    "losses are finite, or clipped as documented",
]
MAX = 5.0e20
DE_CONF: tp.List[tp.Dict[str, tp.Any]] = [
    dict(popsize=5), dict(popsize=8, initialization="QR"), dict(popsize=6, crossover="twopoints"), dict(popsize=7, initialization="LHS"),
    dict(popsize=9, crossover="onepoint", F1=0.3), dict(popsize=5, crossover="parametrization"), dict(popsize=6, propagate_heritage=True),
    dict(popsize=6, initialization="QO", crossover="dimension"), dict(popsize=4, initialization="gaussian", crossover="rotated_twopoints"),
    dict(popsize=10, recommendation="pessimistic"), dict(popsize=6, recommendation="noisy"), dict(popsize=6, recommendation="mean"),
    dict(popsize="small"), dict(popsize="dimension"), dict(popsize="large", crossover="random"), dict(popsize=7, high_speed=True),
    dict(popsize=6, initialization="SO", scale="mini"),
]  # fmt: skip
ONE_CONF: tp.List[tp.Dict[str, tp.Any]] = [
    dict(), dict(mutation="cauchy"), dict(mutation="discrete"), dict(mutation="fastga"), dict(mutation="doublefastga"), dict(mutation="portfolio"),
    dict(mutation="rls"), dict(mutation="lengler"), dict(mutation="lenglerhalf"), dict(mutation="adaptive"), dict(mutation="discreteBSO"),
    dict(mutation="lognormal"), dict(mutation="coordinatewise_adaptive"), dict(mutation="discrete", crossover=True),
    dict(crossover=True, rotation=True), dict(mutation="discrete", sparse=True), dict(smoother=True), dict(mutation="discrete", smoother=True, antismooth=3),
    dict(mutation="doerr"), dict(crossover=True, crossover_type="onepoint"), dict(mutation="biglognormal"),
]  # fmt: skip
ES_CONF: tp.List[tp.Dict[str, tp.Any]] = [
    dict(popsize=5), dict(popsize=6, recombination_ratio=1), dict(popsize=8, recombination_ratio=0.5),
    dict(popsize=5, offsprings=4), dict(popsize=6, offsprings=9, recombination_ratio=1), dict(popsize=4, offsprings=1),
]  # fmt: skip
REGISTERED_DE = ["DE", "LPSDE", "TwoPointsDE", "LhsDE", "QrDE", "QODE", "SPQODE", "NoisyDE", "RotationInvariantDE", "DiscreteDE", "MiniDE"]
REGISTERED_ONE = ["OnePlusOne", "DiscreteOnePlusOne", "CauchyOnePlusOne", "PortfolioDiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne",
                  "AdaptiveDiscreteOnePlusOne", "BigLognormalDiscreteOnePlusOne", "SmoothDiscreteOnePlusOne"]  # fmt: skip


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    out: tp.List[tp.Dict[str, tp.Any]] = []
    for k in range(20 if tier == "quick" else 120):
        s = seed * 100000 + k * 1000
        losses = ["gauss", "decr", "incr", "ties", "wild", "sphere"]
        for i, conf in enumerate(ONE_CONF + REGISTERED_ONE):  # type: ignore
            out.append(dict(kind="one", conf=conf, loss=losses[(i + k) % 6], workers=[1, 3, 8][(i // 2 + k) % 3], foreign=(i + k) % 3 == 2, seed=s + i))
        for i, conf in enumerate(DE_CONF + REGISTERED_DE):  # type: ignore
            out.append(dict(kind="de", conf=conf, loss=losses[(i + k) % 6], workers=[1, 4, 12][(i // 2 + k) % 3], foreign=(i + k) % 4 >= 2,
                            violation=(i + k) % 5 == 1, seed=s + 100 + i))  # fmt: skip
        for i, conf in enumerate(ES_CONF + ["MutDE", "RecMutDE", "MixES", "RecMixES"]):  # type: ignore
            out.append(dict(kind="es", conf=conf, loss=losses[(i + k) % 6], workers=[1, 4, 12][(i + k) % 3], violation=(i + k) % 3 == 1, seed=s + 200 + i))
        for i in range(9):
            out.append(dict(kind="pso", transform=["identity", "arctan", "gaussian"][i % 3], phip=[0.0, 0.5, 0.0][(i + k) % 3], qo=(i + k) % 4 == 0,
                            loss=losses[(i + k) % 6], workers=[1, 4, 1, 20][(i + k) % 4], foreign=(i + k) % 3 == 2, violation=(i + k) % 5 == 1,
                            seed=s + 300 + i))  # fmt: skip
        for i in range(3):
            out.append(dict(kind="pareto", workers=[1, 4][i % 2], loss="gauss", seed=s + 400 + i, mutation=["gaussian", "discrete", "cauchy"][i]))
    return out


def draw(kind: str, r: random.Random, n: int, x: tp.Any) -> float:
    if kind == "ties":
        return float(r.randint(0, 4))
    if kind == "incr":
        return float(n)
    if kind == "decr":
        return float(-n)
    if kind == "sphere":
        return float(np.sum((np.asarray(x) - 0.7) ** 2))
    if kind == "wild":
        return r.choice([r.gauss(0, 1), 10 ** r.uniform(-9, 15), -(10 ** r.uniform(-9, 15)), float("inf"), float("nan"), 1e300])
    return r.gauss(0, 10)


def effective(loss: float) -> float:
    return loss if loss < MAX else MAX


class Run:
    """optimizer, out-of-order tells, and the log"""

    def __init__(self, case: tp.Dict[str, tp.Any], mon: Mon, opt: tp.Any, r: random.Random) -> None:
        self.case, self.mon, self.opt, self.r = case, mon, opt, r
        self.pending: tp.List[tp.Any] = []
        self.by_uid: tp.Dict[str, tp.Any] = {}
        self.loss: tp.Dict[str, float] = {}  # effective loss of told candidates
        self.infeasible: tp.Set[str] = set()
        self.n = 0
        self.repeated = False
        self._xs: tp.Set[bytes] = set()
        self.suggested = 0
        inner = opt.suggest

        def suggest(*args: tp.Any, **kwargs: tp.Any) -> None:
            inner(*args, **kwargs)
            self.suggested += 1

        opt.suggest = suggest

    def std(self, c: tp.Any) -> np.ndarray:
        return np.array(c.get_standardized_data(reference=self.opt.parametrization), dtype=float)

    def ask(self) -> tp.Tuple[tp.Any, bool]:
        waiting = self.suggested
        c = self.opt.ask()
        if waiting:
            self.suggested -= 1
        self.by_uid[c.uid] = c
        self.pending.append(c)
        return c, bool(waiting)

    def register(self, c: tp.Any) -> float:
        x = self.std(c)
        key = x.tobytes()
        self.repeated |= key in self._xs
        self._xs.add(key)
        self.n += 1
        return draw(self.case["loss"], self.r, self.n, x)

    def tell(self, c: tp.Any) -> None:
        loss = self.register(c)
        self.by_uid[c.uid] = c
        if self.case.get("violation") and self.r.random() < 0.4:
            # a huge violation makes the point worse than any feasible one; the penalty is proportional to the loss,
            # which must therefore be positive
            loss = 1.0 + self.r.random()
            self.opt.tell(c, loss, [1e25], (1e5, 1.0, 1.0, 1.0, 0.0, 1.0))
            self.infeasible.add(c.uid)
            self.mon.event("violated")
        else:
            self.opt.tell(c, loss)
            self.loss[c.uid] = effective(loss)

    def tell_random(self) -> tp.Any:
        c = self.pending.pop(self.r.randrange(len(self.pending)))
        self.tell(c)
        return c

    def tell_foreign(self) -> tp.Any:
        c = self.opt.parametrization.spawn_child()
        c.set_standardized_data(np.array([self.r.gauss(0, 1) for _ in range(self.opt.dimension)]), reference=self.opt.parametrization)
        self.tell(c)
        self.mon.event("foreign")
        return c

    def value(self, uid: str) -> float:
        """loss for comparisons: infeasible and untold points are worse than anything else"""
        return self.loss.get(uid, float("inf"))


def build(case: tp.Dict[str, tp.Any], r: random.Random, dim: int, workers: int, budget: tp.Optional[int]) -> tp.Any:
    import nevergrad as ng

    param = ng.p.Array(shape=(dim,))
    param.random_state.seed(r.randrange(2**31))
    conf = case.get("conf")
    if isinstance(conf, str):
        cls: tp.Any = ng.optimizers.registry[conf]
    elif case["kind"] == "de":
        cls = ng.optimizers.DifferentialEvolution(**conf)
    elif case["kind"] == "es":
        cls = ng.families.EvolutionStrategy(**conf)
    elif case["kind"] == "pso":
        cls = ng.families.ConfPSO(
            transform=case["transform"], popsize=case["popsize"], omega=0.0, phip=case["phip"], phig=1.0 - case["phip"], qo=case["qo"]
        )
    elif case["kind"] == "pareto":
        cls = ng.families.ParametrizedOnePlusOne(mutation=case["mutation"], use_pareto=True)
    else:
        cls = ng.families.ParametrizedOnePlusOne(**conf)
    return cls(param, budget=budget, num_workers=workers)


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, mon)


def run_one(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    conf = case["conf"]
    workers = 1 if isinstance(conf, dict) and conf.get("mutation") == "doerr" else case["workers"]
    run = Run(case, mon, build(case, r, r.randint(2, 8), workers, 200), r)
    tag = conf if isinstance(conf, str) else str(sorted(conf.items()))
    for k in range(120):
        if run.repeated:
            mon.event("one-repeated")
            break
        while run.pending and (len(run.pending) >= workers or r.random() < 0.4):
            run.tell_random()
        if case["foreign"] and k and r.random() < 0.1:
            run.tell_foreign()
        if run.repeated:
            continue
        c, from_suggestion = run.ask()
        if from_suggestion or not run.loss:
            continue
        best = min(run.loss.values())
        parents = [u for u in c.parents_uids if u in run.by_uid]
        mon.event("one-parent")
        mon.seen("one", tag, workers, case["loss"], case["foreign"], min(k // 20, 4))
        mon.check(
            bool(parents) and run.value(parents[0]) == best,
            "one-plus-one-parent-not-best",
            lambda: f"{tag}: ask {k} with {workers} workers mutates a point of loss {run.value(parents[0]) if parents else None}, best is {best}",
        )


def run_pareto(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    opt = build(case, r, r.randint(2, 5), case["workers"], 200)
    pending: tp.List[tp.Any] = []
    losses: tp.Dict[str, np.ndarray] = {}
    for k in range(100):
        while pending and (len(pending) >= case["workers"] or r.random() < 0.4):
            c = pending.pop(r.randrange(len(pending)))
            losses[c.uid] = np.array([r.gauss(0, 5), r.gauss(0, 5)])
            opt.tell(c, losses[c.uid].copy())
        c = opt.ask()
        pending.append(c)
        if len(losses) < 2:
            continue
        parents = [u for u in c.parents_uids if u in losses]
        mon.event("one-pareto-parent")
        mon.seen("pareto", case["mutation"], case["workers"], len(losses) // 20)
        if mon.check(bool(parents), "pareto-parent-unknown", lambda: f"the parent of ask {k} was never told: {c.parents_uids}"):
            y = losses[parents[0]]
            dominating = [u for u, z in losses.items() if np.all(z <= y) and np.any(z < y)]
            mon.check(not dominating, "pareto-parent-dominated", lambda: f"ask {k}: parent {y} is dominated by {losses[dominating[0]]}")


def run_de(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    conf, workers = case["conf"], case["workers"]
    dim = r.randint(1, 6)
    run = Run(case, mon, build(case, r, dim, workers, 400), r)
    tag = conf if isinstance(conf, str) else str(sorted(conf.items()))
    size = conf.get("popsize", "standard") if isinstance(conf, dict) else "?"
    slots(case, mon, run, r, tag, size if isinstance(size, int) else None, "de")
    # a recommendation is available for all modes
    rec = run.opt.provide_recommendation()
    if isinstance(conf, dict) and conf.get("recommendation") in ("mean", "pessimistic") and run.loss and not run.repeated:
        mon.check(run.value(rec.uid) == min(run.loss.values()), "de-recommendation", lambda: f"{tag}: {run.value(rec.uid)} vs {min(run.loss.values())}")


def slots(case: tp.Dict[str, tp.Any], mon: Mon, run: Run, r: random.Random, tag: str, size: tp.Optional[int], fam: str) -> None:
    """lineages: the parent of a new candidate is always the best told point of its lineage; all lineages are used in turn"""
    workers = run.opt.num_workers
    slot: tp.Dict[str, float] = {}  # best loss of each lineage
    where: tp.Dict[str, str] = {}  # uid -> lineage
    in_flight: tp.Counter[str] = collections.Counter()
    lineages: tp.List[str] = []
    last_use: tp.Dict[str, int] = {}  # last ask or tell of the lineage
    removed = False
    n_ask, max_flight = 0, 0
    steps = 4 * (size or 30) + 60 if workers == 1 else 6 * (size or 30) + 100
    since_tell: tp.List[str] = []  # lineages asked without a tell between

    def told(c: tp.Any, foreign: bool = False) -> None:
        nonlocal removed
        lin = where.get(c.uid, c.uid)
        since_tell.clear()
        in_flight[lin] -= 1
        last_use[lin] = n_ask
        # founder of a lineage (initial or foreign), or child in its lineage; a child of a replaced lineage founds its own
        slot[lin] = min(slot.get(lin, float("inf")), run.value(c.uid))
        if removed:
            slot[c.uid] = min(slot.get(c.uid, float("inf")), run.value(c.uid))

    for k in range(steps):
        while run.pending and (len(run.pending) >= workers or r.random() < 0.4):
            told(run.tell_random())
        if case.get("foreign") and k > 5 and r.random() < 0.08:
            c = run.tell_foreign()
            removed = True
            slot[c.uid] = run.value(c.uid)
        c, from_suggestion = run.ask()
        n_ask += 1
        lin = c.heritage["lineage"]
        where[c.uid] = lin
        in_flight[lin] += 1
        max_flight = max(max_flight, len(run.pending))
        phase = "init" if lin == c.uid else "main"
        mon.seen(fam, tag, workers, case["loss"], phase, min(len(lineages) // 3, 5), removed, bool(case.get("violation")))
        if phase == "init":
            lineages.append(lin)
            if size is not None and not removed:
                mon.event(f"{fam}-popsize")
                mon.check(len(lineages) <= size, f"{fam}-too-many-individuals", lambda: f"{tag}: {len(lineages)} individuals, popsize={size}")
            continue
        parent = next(iter(c.parents_uids), "none")
        mon.event(f"{fam}-parent" if fam == "de" else "es-slot")
        if case.get("violation"):
            mon.event(f"{fam}-violation")
        mon.check(
            run.value(parent) == slot.get(lin, float("inf")),
            f"{fam}-slot-loss-increased",
            lambda: f"{tag}: ask {n_ask} uses a parent of loss {run.value(parent)} in a slot which had {slot.get(lin)} (workers={workers})",
        )
        # fairness, once the population is complete, and when slots are never replaced
        since_tell.append(lin)
        if not removed and lineages:
            mon.event(f"{fam}-fair")
            bound = len(lineages) + max_flight + 1
            late = [u for u in lineages if in_flight[u] <= 0 and u != lin and n_ask - last_use.get(u, n_ask) > bound]
            mon.check(not late, f"{fam}-slot-starved", lambda: f"{tag}: a told slot was not asked for {bound} asks ({len(lineages)} slots, {workers} workers)")
        last_use[lin] = n_ask
    if removed and fam == "de" and run.loss and not run.repeated:
        # points told from elsewhere replace the worst individual: the best one is still used
        best = min(run.loss.values())
        parents = [run.ask()[0].parents_uids[:1] for _ in range(3 * (size or 40) + 2 * max_flight + 2)]
        values = [run.value(u[0]) for u in parents if u]
        mon.event("de-best-kept")
        mon.check(bool(values) and min(values) == best, "de-best-lost", lambda: f"{tag}: the best point told has loss {best}, the best parent of {len(values)} asks {min(values, default=None)}")
    if removed or size is None:
        return
    mon.check(len(lineages) == size, f"{fam}-population-incomplete", lambda: f"{tag}: {len(lineages)} individuals after {n_ask} asks, popsize={size}")
    # burst without tells: every slot is used again
    used = set()
    for _ in range(3 * size + 2 * max_flight + 2):
        used.add(run.ask()[0].heritage["lineage"])
    mon.check(used == set(lineages), f"{fam}-slot-starved-in-flight", lambda: f"{tag}: {len(used)} of {len(lineages)} slots used in a burst of asks")


def run_es(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    conf, workers = case["conf"], case["workers"]
    run = Run(case, mon, build(case, r, r.randint(2, 6), workers, 600), r)
    tag = conf if isinstance(conf, str) else str(sorted(conf.items()))
    size = conf["popsize"] if isinstance(conf, dict) else 40
    offsprings = conf.get("offsprings") if isinstance(conf, dict) else {"MixES": 20, "RecMixES": 20}.get(conf)
    if offsprings is None:
        slots(case, mon, run, r, tag, size, "es")
        return
    # (mu + lambda): the best told point is asked as a parent within the next generation
    best: tp.Optional[str] = None
    used_at, best_since = -1, 0
    told = 0
    for k in range(4 * (size + offsprings) + 150):
        while run.pending and (len(run.pending) >= workers or r.random() < 0.5):
            c = run.tell_random()
            told += 1
            if c.uid in run.loss and (best is None or run.loss[c.uid] < run.loss[best]):
                best, best_since = c.uid, told
                used_at = -1
        c, _ = run.ask()
        if best is not None and any(u in run.loss and run.loss[u] == run.loss[best] for u in c.parents_uids):
            used_at = told
        mon.seen("es", tag, workers, case["loss"], min(k // 40, 5), used_at >= 0)
        if best is None or told < size + 2 * offsprings + workers:
            continue
        mon.event("es-best")
        wait = told - (used_at if used_at >= 0 else best_since)
        # selection happens every "offsprings" tells, and restarts from the best of the population
        mon.check(
            wait <= 2 * offsprings + 2 * workers + 2,
            "es-best-individual-lost",
            lambda: f"{tag}: the best point (loss {run.loss[best]}) is not used as a parent for {wait} tells (offsprings={offsprings})",
        )


def run_pso(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    case = dict(case, popsize=r.choice([3, 5, 8]))
    workers = case["workers"]
    run = Run(case, mon, build(case, r, r.randint(3, 6), workers, 400), r)
    position: tp.Dict[str, str] = {}  # last told point of each lineage
    personal: tp.Dict[str, tp.List[str]] = collections.defaultdict(list)
    where: tp.Dict[str, str] = {}
    in_flight: tp.Counter[str] = collections.Counter()
    crowded: tp.Set[str] = set()  # lineages which had several points in flight: no defined personal best
    removed = False
    for k in range(110):
        while run.pending and (len(run.pending) >= workers or r.random() < 0.4):
            c = run.tell_random()
            lin = where[c.uid]
            in_flight[lin] -= 1
            position[lin] = c.uid
            personal[lin].append(c.uid)
        if case["foreign"] and k > 5 and r.random() < 0.08:
            run.tell_foreign()
            removed = True
        c, _ = run.ask()
        parents = [u for u in c.parents_uids if u in run.by_uid]
        lin = c.heritage["lineage"]
        where[c.uid] = lin
        in_flight[lin] += 1
        if in_flight[lin] > 1:
            crowded.add(lin)
        mon.seen("pso", case["transform"], case["phip"], case["qo"], workers, case["loss"], min(k // 20, 5), removed)
        if not parents:
            continue  # initial particle
        parent = parents[0]
        if not removed:
            mon.event("pso-position")
            if not run.infeasible:
                mon.check(
                    position.get(lin, lin) == parent, "pso-wrong-position", lambda: f"particle at {position.get(lin)} but child of {parent}"
                )
        if not run.loss or run.value(parent) == float("inf") and not run.infeasible and parent not in run.loss:
            continue
        if case["phip"] and (removed or lin in crowded or run.infeasible):
            continue
        low = min(run.loss.values())
        bests = [u for u, v in run.loss.items() if v == low]
        x, y = run.std(run.by_uid[parent]), run.std(c)
        candidates = [u for u in personal[lin] if u in run.loss]
        plow = min((run.loss[u] for u in candidates), default=0.0)
        mine = [u for u in candidates if run.loss[u] == plow] if case["phip"] else [parent]
        # the identity transform may overflow with wild values, others are clipped at 1e-10 of the unit interval
        ok = False
        for b in bests:
            for m in mine or [parent]:
                pts = np.array([x, run.std(run.by_uid[b]), run.std(run.by_uid[m])])
                tol = 1e-6 * (1 + np.abs(pts).max(axis=0)) if case["transform"] == "identity" else 1e-5 * (1 + np.abs(pts).max(axis=0) ** 2)
                ok |= bool(np.all(y >= pts.min(axis=0) - tol) and np.all(y <= pts.max(axis=0) + tol))
        mon.event("pso-pull")
        mon.check(
            ok,
            "pso-global-best",
            lambda: f"{case['transform']}: child {y.tolist()} of {x.tolist()} is not between it and the best told point {run.std(run.by_uid[bests[0]]).tolist()}",
        )
