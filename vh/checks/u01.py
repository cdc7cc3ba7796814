"""U01: random operation sequences, including failing bodies and nested or generator uses, on the shared utilities of the real code; each result is judged online against a reference model (lists, dictionaries, multisets)."""
import itertools
import math
import os
import pickle
import typing as tp
import warnings
from collections import Counter
from unittest import mock
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (utility, sequence of operations, size of the content)"
BUDGET_S = {"quick": 30, "thorough": 240}
MIN_EVALS = 30000
NEED_EVENTS = ("iterate", "set-op", "registry-op", "env", "env-failure", "archive-op", "queue-op", "prune", "job", "sleep", "flatten", "difference", "collision")
ASSUMPTIONS = ["adding again an element of an ordered set moves it to the end, as the uid queue relies on"]


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 2000 if tier == "quick" else 30000
    kinds = ["iter", "set", "registry", "env", "archive", "queue", "prune", "misc"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(case["seed"] % 2**32)
        globals()["case_" + case["kind"]](case, mon, rng_of(case))


def raises(exc: tp.Any, func: tp.Callable[[], tp.Any]) -> bool:
    try:
        func()
    except exc:
        return True
    return False


def case_iter(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common import tools

    for _ in range(6):
        data = [r.choice([0, 1, None, "a", (), 2.5, "b"]) for _ in range(r.randint(0, 12))]
        as_input: tp.Callable[[tp.List[tp.Any]], tp.Any] = r.choice([list, tuple, iter, lambda x: (y for y in x)])
        mon.event("iterate")
        mon.seen("iter", len(data), as_input.__name__)
        mon.check(list(tools.pairwise(as_input(data))) == [(data[k], data[k + 1]) for k in range(len(data) - 1)], "pairwise", lambda: f"{data}")
        n, fill = r.randint(1, 5), r.choice([None, "x", 0])
        padded = data + [fill] * (-len(data) % n)
        mon.check([list(x) for x in tools.grouper(as_input(data), n, fill)] == [padded[k : k + n] for k in range(0, len(padded), n)], "grouper", lambda: f"{data} by {n}")
        many = [[(j, k) for k in range(r.randint(0, 5))] for j in range(r.randint(0, 4))]
        ref = [x for row in itertools.zip_longest(*many) for x in row if x is not None]
        mon.check(list(tools.roundrobin(*[as_input(x) for x in many])) == ref, "roundrobin", lambda: f"{many}")


def case_set(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common.tools import OrderedSet

    start = [r.randint(0, 8) for _ in range(r.randint(0, 6))]
    real: tp.Any = OrderedSet(start) if start or r.random() < 0.5 else OrderedSet()
    ref: tp.List[int] = []
    for x in start:
        ref = [y for y in ref if y != x] + [x]
    done: tp.List[str] = []
    for _ in range(25):
        op, x = r.choice(["add", "add", "discard", "remove", "popright", "pop", "update", "difference", "or", "and", "sub", "pickle", "iterate", "clear" if r.random() < 0.1 else "add"]), r.randint(0, 8)
        other = [r.randint(0, 8) for _ in range(r.randint(0, 4))]
        mon.event("set-op")
        done.append(f"{op} {x} {other}")
        what = lambda: f"{start}, then {done}"
        before = list(ref)
        if op == "add":
            real.add(x)
            ref = [y for y in ref if y != x] + [x]
        elif op == "discard":
            real.discard(x)
            ref = [y for y in ref if y != x]
        elif op == "remove":
            failed = raises(KeyError, lambda: real.remove(x))
            mon.check(failed == (x not in ref), "remove", what)
            ref = [y for y in ref if y != x]
        elif op in ("pop", "popright"):
            if not ref:
                mon.check(raises((KeyError, StopIteration), getattr(real, op)), "pop-empty", what)
            else:
                out = getattr(real, op)()
                mon.check(out == (ref[-1] if op == "popright" else ref[0]), op, lambda: f"{what()}: {out} of {before}")
                ref = [y for y in ref if y != out]
        elif op == "update":
            real |= other  # type: ignore
            for y in other:
                ref = [z for z in ref if z != y] + [y]
        elif op == "difference":
            real -= set(other)  # type: ignore
            ref = [y for y in ref if y not in other]
        elif op in ("or", "and", "sub"):
            out = {"or": lambda: real | set(other), "and": lambda: real & set(other), "sub": lambda: real - set(other)}[op]()
            expected = {"or": set(ref) | set(other), "and": set(ref) & set(other), "sub": set(ref) - set(other)}[op]
            mon.check(set(out) == expected and len(out) == len(expected) and isinstance(out, OrderedSet), f"set-{op}", what)
        elif op == "pickle":
            real = pickle.loads(pickle.dumps(real))
        elif op == "clear":
            real.clear()
            ref = []
        mon.check(list(real) == ref and len(real) == len(ref) and bool(real) == bool(ref), "order", lambda: f"{what()}: {list(real)} instead of {ref}")
        mon.check(all((y in real) == (y in ref) for y in range(9)), "membership", what)
        mon.check(real == set(ref) and (set(ref) <= real), "comparison", what)
    mon.seen("set", tuple(d.split()[0] for d in done[:6]), len(ref))


def case_registry(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common.decorators import Registry

    real: tp.Any = Registry()
    ref: tp.Dict[str, tp.Any] = {}
    info: tp.Dict[str, tp.Any] = {}

    def make(name: str) -> tp.Any:
        if r.random() < 0.5:
            out: tp.Any = lambda: name
            out.__name__ = name
            return out
        return type(name, (), {})

    done: tp.List[str] = []
    for _ in range(25):
        name = r.choice("abcd")
        op = r.choice(["register", "register_name", "with_info", "unregister", "delete", "info", "set", "pop", "edit"])
        done.append(f"{op} {name}")
        what = lambda: f"{done}"
        mon.event("registry-op")
        new = make(name)
        data = r.choice([None, {"k": r.randint(0, 3)}, {"k": 1, "l": 2}])
        if op in ("register", "register_name", "with_info"):
            if op == "register":
                act = lambda: real.register(new, data)
            elif op == "register_name":
                new = r.choice([new, 12, None])
                act = lambda: real.register_name(name, new, data)
            else:
                act = lambda: real.register_with_info(**(data or {}))(new)
                data = data or {}
            if name in ref:
                mon.event("collision")
                mon.check(raises(RuntimeError, act), "collision-accepted", what)
            else:
                out = act()
                mon.check(op == "register_name" or out is new, "decorator-result", what)
                ref[name], info[name] = new, dict(data or {})
        elif op == "unregister":
            real.unregister(name)
            ref.pop(name, None), info.pop(name, None)
        elif op in ("delete", "pop"):
            failed = raises(KeyError, lambda: real.__delitem__(name) if op == "delete" else real.pop(name))
            mon.check(failed == (name not in ref), "delete", what)
            ref.pop(name, None), info.pop(name, None)
        elif op == "set" and name not in ref:
            real[name] = new
            ref[name], info[name] = new, {}
        elif op == "edit" and name in ref:
            real.get_info(name)["edited"] = 1
            info[name]["edited"] = 1
        for n in "abcd":
            mon.check((n in real) == (n in ref), "membership", what)
            if n in ref:
                mon.check(real[n] is ref[n] and real.get(n) is ref[n], "wrong-object", what)
                mon.check(real.get_info(n) == info[n], "wrong-information", lambda: f"{done}: {n} has {real.get_info(n)} instead of {info[n]}")
            else:
                mon.check(raises(KeyError, lambda: real[n]) and raises(ValueError, lambda: real.get_info(n)), "unknown-name", what)
        mon.check(list(real) == list(ref) and len(real) == len(ref), "names", lambda: f"{done}: {list(real)} instead of {list(ref)}")
    mon.seen("registry", tuple(d.split()[0] for d in done[:6]), len(ref))


def case_env(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common.tools import set_env

    names = ["VERIF_U01_A", "VERIF_U01_B", "VERIF_U01_C"]
    with mock.patch.dict(os.environ):
        for n in names:
            os.environ.pop(n, None)
            if r.random() < 0.5:
                os.environ[n] = r.choice(["", "old", "1"])
        before = dict(os.environ)
        log: tp.List[str] = []

        def body(depth: int) -> None:
            chosen = {n: r.choice([1, "x", 2.5, None, ""]) for n in r.sample(names, r.randint(1, 3))}
            outer = dict(os.environ)
            log.append(f"set {chosen}")
            mon.event("env")
            try:
                with set_env(**chosen):
                    for n in names:
                        mon.check(os.environ.get(n) == (str(chosen[n]) if n in chosen else outer.get(n)), "not-set", lambda: f"{log}")
                    act = r.choice(["nothing", "delete", "overwrite", "raise", "nested", "delete-raise"])
                    log.append(act)
                    if "delete" in act:
                        for n in r.sample(sorted(chosen), r.randint(1, len(chosen))):
                            os.environ.pop(n, None)
                    if act == "overwrite":
                        os.environ[r.choice(sorted(chosen))] = "other"
                    if act == "nested" and depth < 3:
                        body(depth + 1)
                    if "raise" in act:
                        mon.event("env-failure")
                        raise OverflowError("inside")
            except OverflowError as e:
                mon.check(str(e) == "inside" and "raise" in log[-1], "wrong-exception", lambda: f"{log}: {e}")
            else:
                mon.check(True, "", "")
            mon.check(dict(os.environ) == outer, "not-restored", lambda: f"{log}: {[(n, os.environ.get(n), outer.get(n)) for n in names]}")

        body(0)
        mon.seen("env", tuple(log[1::2]))
        mon.check(raises(ValueError, lambda: set_env(verif_u01_a=1).__enter__()) and dict(os.environ) == before, "lower-case-accepted", "")


def case_archive(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.optimization.utils import Archive

    real: tp.Any = Archive()
    ref: tp.Dict[tp.Tuple[float, ...], int] = {}
    points = [tuple(r.choice([0.0, 1.0, -2.5, 1e-300, float("inf")]) for _ in range(2)) for _ in range(6)]
    ops = []
    for k in range(25):
        x = r.choice(points)
        key: tp.Any = r.choice([list, tuple, np.array])(x)
        op = r.choice(["set", "set", "get", "contains", "pickle"])
        ops.append(op)
        mon.event("archive-op")
        if op == "set":
            real[key] = k
            ref[x] = k
            if isinstance(key, np.ndarray):
                key[0] += 1  # the key must have been copied
        elif op == "get":
            marker = r.choice([None, -1])
            mon.check(real.get(key, marker) == ref.get(x, marker), "archive-get", lambda: f"{x}")
            mon.check(raises(KeyError, lambda: real[key]) == (x not in ref), "archive-missing", lambda: f"{x}")
        elif op == "pickle":
            real = pickle.loads(pickle.dumps(real))
        for p in points:
            mon.check((np.array(p) in real) == (p in ref) and (p not in ref or real[np.array(p)] == ref[p]), "archive-content", lambda: f"{ops}: {p}")
        mon.check(len(real) == len(ref) and list(real.values()) == list(ref.values()), "archive-values", lambda: f"{ops}")
        mon.check([tuple(a) for a in real.keys_as_arrays()] == list(ref) and [(tuple(a), v) for a, v in real.items_as_arrays()] == list(ref.items()), "archive-items", lambda: f"{ops}")
    mon.seen("archive", tuple(ops[:6]), len(ref))


def case_queue(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.optimization.utils import UidQueue

    real: tp.Any = UidQueue()
    told: tp.List[str] = []
    asked: tp.List[str] = []
    log = []
    waiting: tp.List[str] = []
    for k in range(40):
        op = r.choice(["ask", "ask", "tell", "tell-new", "discard", "pickle" if r.random() < 0.2 else "ask", "clear" if r.random() < 0.05 else "tell"])
        log.append(op)
        mon.event("queue-op")
        if op == "ask":
            if not told and not asked:
                mon.check(raises(RuntimeError, real.ask), "ask-empty", lambda: f"{log}")
                continue
            ref = told.pop(0) if told else asked[0]
            asked = [x for x in asked if x != ref] + [ref]
            out = real.ask()
            mon.check(out == ref, "queue-ask", lambda: f"{log}: {out} instead of {ref}")
            waiting.append(out)
        elif op == "tell" and asked:
            x = r.choice(asked)
            real.tell(x)
            asked.remove(x)
            told.append(x)
        elif op == "tell-new":
            x = f"u{r.randint(0, 6)}"
            real.tell(x)
            asked = [y for y in asked if y != x]
            told.append(x)
        elif op == "discard":
            x = f"u{r.randint(0, 6)}"
            real.discard(x)
            asked, told = [y for y in asked if y != x], [y for y in told if y != x]
        elif op == "pickle":
            real = pickle.loads(pickle.dumps(real))
        elif op == "clear":
            real.clear()
            asked, told = [], []
    # fairness: every waiting uid is given before one is repeated
    count = len(set(told) | set(asked))
    if count and len(set(told)) == len(told) and not set(told) & set(asked):
        out = [real.ask() for _ in range(count)]
        mon.check(Counter(out) == Counter(set(told) | set(asked)), "queue-unfair", lambda: f"{log}: {out} for {told} {asked}")
    mon.seen("queue", tuple(log[:6]), len(told), len(asked))


def case_prune(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import nevergrad as ng
    from nevergrad.optimization.utils import Archive, MultiValue, Pruning

    ref = ng.p.Array(shape=(1,))
    ref.random_state.seed(0)
    keep = r.randint(1, 10)
    size = r.randint(1, 60)
    most = r.randint(3 * keep, 3 * keep + 30)
    archive: tp.Any = Archive()
    for k in range(size):
        val = MultiValue(ref.spawn_child(new_value=np.array([float(k)])), r.gauss(0, 100), reference=ref)
        for _ in range(r.choice([0, 0, 1, 3, 10])):
            val.add_evaluation(val.mean + r.gauss(0, 30))
        archive[np.array([float(k)])] = val
    content = dict(archive.bytesdict)
    pruning = Pruning(min_len=keep, max_len=most)
    new = pruning(archive)
    mon.event("prune")
    mon.seen("prune", keep, size, most)
    mon.check(archive.bytesdict == content, "pruning-modifies", "")
    if size < most:
        mon.check(new.bytesdict == content, "pruned-too-early", f"{size} points, maximum {most}")
        return
    expected = set()
    for name in ("optimistic", "pessimistic", "average"):
        expected |= set(sorted(content, key=lambda b: content[b].get_estimation(name))[:keep])
    mon.check(set(new.bytesdict) == expected and all(new.bytesdict[b] is content[b] for b in expected), "pruning", lambda: f"kept {len(new)} of {size} instead of {len(expected)}")


def case_misc(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.common import tools
    from nevergrad.optimization.utils import SequentialExecutor

    # jobs run once, when their result is needed
    calls: tp.List[tp.Any] = []
    result = r.choice([None, 0, "x", [1]])

    def func(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        calls.append((args, kwargs))
        return result

    job = SequentialExecutor().submit(func, 1, [2], key="v")
    mon.event("job")
    mon.check(job.done() and all(job.result() is result for _ in range(r.randint(1, 4))), "job-result", "")
    mon.check(calls == [((1, [2]), {"key": "v"})], "job-calls", lambda: f"{calls}")

    # nested structures
    def tree(depth: int) -> tp.Any:
        k = r.random()
        if depth == 0 or k < 0.3:
            return r.choice([1, "a", None, 2.5])
        if k < 0.6:
            return [tree(depth - 1) for _ in range(r.randint(0, 3))]
        if k < 0.7:
            return tuple(tree(depth - 1) for _ in range(r.randint(1, 3)))
        return {r.choice(["x", "y", "z", 4]): tree(depth - 1) for _ in range(r.randint(0, 3))}

    def leaves(obj: tp.Any, prefix: str = "") -> tp.Dict[str, tp.Any]:
        items = obj.items() if isinstance(obj, dict) else enumerate(obj) if isinstance(obj, (list, tuple)) else None
        if items is None:
            return {prefix[:-1]: obj}
        out: tp.Dict[str, tp.Any] = {}
        for k, v in items:
            out.update(leaves(v, f"{prefix}{k}."))
        return out

    for _ in range(4):
        obj = tree(3)
        mon.event("flatten")
        if isinstance(obj, (dict, list, tuple)):
            mon.check(tools.flatten(obj) == leaves(obj), "flatten", lambda: f"{obj}: {tools.flatten(obj)}")
        else:
            mon.check(tools.flatten(obj) is obj, "flatten-leaf", "")

    class Thing:
        def __init__(self, a: int = 1, b: str = "x", c: tp.Any = None, _hidden: int = 0) -> None:
            self.a, self.b, self.c, self._hidden = a, b, c, _hidden
            self.other = 3

    args = {k: v for k, v in dict(a=r.choice([1, 2]), b=r.choice(["x", "y"]), c=r.choice([None, 0]), _hidden=r.choice([0, 5])).items() if r.random() < 0.7}
    mon.event("difference")
    defaults = dict(a=1, b="x", c=None, _hidden=0)
    mon.check(tools.different_from_defaults(instance=Thing(**args)) == {k: v for k, v in args.items() if v != defaults[k] and not k.startswith("_")}, "different-from-defaults", lambda: f"{args}")
    mon.check(raises(RuntimeError, lambda: tools.different_from_defaults(instance=Thing(**args), check_mismatches=True)), "mismatch-accepted", "")
    mon.check(tools.different_from_defaults(instance=Thing(), instance_dict=dict(defaults, **args), check_mismatches=True) == {k: v for k, v in args.items() if v != defaults[k] and not k.startswith("_")}, "different-from-defaults", lambda: f"{args}")

    # waiting times
    now = [1e9]
    slept: tp.List[float] = []
    low, high = r.choice([(1e-7, 1.0), (0.01, 0.5)])
    with mock.patch("time.time", lambda: now[0]), mock.patch("time.sleep", slept.append):
        sleeper = tools.Sleeper(min_sleep=low, max_sleep=high, averaging_size=3)
        durations: tp.List[float] = []
        started: tp.Optional[float] = None
        for _ in range(12):
            op = r.choice(["start", "stop", "sleep", "wait"])
            if op == "start":
                sleeper.start_timer()
                started = now[0] if started is None else started
            elif op == "stop":
                sleeper.stop_timer()
                if started is not None:
                    durations.append(now[0] - started)
                started = None
            elif op == "wait":
                now[0] += r.choice([0.0, 0.5, 100.0])
            else:
                sleeper.sleep()
                mon.event("sleep")
                value = float(np.mean(durations[-3:])) / 10 if durations else 0.0 if started is None else (now[0] - started) / 10
                mon.check(math.isclose(slept[-1], min(max(value, low), high), rel_tol=1e-9), "sleeping-time", lambda: f"{slept[-1]} after {durations}, started {started}")
    mon.seen("misc", case["seed"] % 60, len(durations))
