"""Engine: runs the cases of one check in worker processes, collects what the monitors observed,
classifies violations against the known-findings file, writes evidence and replay files.

Vocabulary
----------
case       JSON-able dict, fully determines one monitored execution (the replay unit)
Mon        the monitor handed to a case: counts oracle evaluations, events, distinct states, violations
verdict    violated (exit 1) / held on what was observed (exit 0) / inconclusive (exit 2)
"""
import faulthandler
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import typing as tp
from multiprocessing import connection
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE", str(ROOT / "evidence")))
KNOWN = ROOT / "known_findings.jsonl"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def h64(*objs: tp.Any) -> int:
    """stable 64 bit hash of repr"""
    return int.from_bytes(hashlib.blake2b(repr(objs).encode(), digest_size=8).digest(), "big")


def rng_of(case: tp.Dict[str, tp.Any], *extra: tp.Any) -> "random.Random":
    return random.Random(h64(json.dumps(case, sort_keys=True, default=str), *extra))


class Mon:
    """Monitor state of one case"""

    MAX_STATES = 3000

    def __init__(self) -> None:
        self.evals = 0  # oracle judgements made
        self.counts: tp.Dict[str, int] = {}  # observed events by kind
        self.states: tp.Set[int] = set()  # distinct non-trivial observations
        self.violations: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
        self.notes: tp.Dict[str, int] = {}
        self.sample: tp.Any = None

    def event(self, kind: str, n: int = 1) -> None:
        self.counts[kind] = self.counts.get(kind, 0) + n

    def seen(self, *state: tp.Any) -> None:
        if len(self.states) < self.MAX_STATES:
            self.states.add(h64(state))

    def check(self, cond: tp.Any, key: str, msg: tp.Any = "", **detail: tp.Any) -> bool:
        """one oracle judgement; key identifies the mechanism which fails (used for known findings)"""
        self.evals += 1
        if not bool(cond):
            self.violate(key, msg() if callable(msg) else msg, **detail)
            return False
        return True

    def violate(self, key: str, msg: str = "", **detail: tp.Any) -> None:
        if key not in self.violations:
            self.violations[key] = {"key": key, "msg": str(msg)[:1500], "detail": _jsonable(detail), "count": 0}
        self.violations[key]["count"] += 1

    def note(self, key: str) -> None:
        self.notes[key] = self.notes.get(key, 0) + 1

    def dump(self) -> tp.Dict[str, tp.Any]:
        return dict(
            evals=self.evals,
            counts=self.counts,
            states=self.states,
            violations=list(self.violations.values()),
            notes=self.notes,
            sample=_jsonable(self.sample) if self.sample is not None else None,
        )


class Inconclusive(Exception):
    """the harness could not decide (not a verdict)"""


def _jsonable(x: tp.Any) -> tp.Any:
    try:
        return json.loads(json.dumps(x, default=repr))
    except Exception:  # pylint: disable=broad-except
        return repr(x)[:500]


def fresh_repo_imports() -> None:
    """Never trust a bytecode cache for the code under test"""
    import importlib.machinery as m

    orig = m.SourceFileLoader.get_code
    prefix = os.path.join(os.path.realpath(REPO), "")

    def get_code(self: tp.Any, fullname: str) -> tp.Any:
        path = self.get_filename(fullname)
        if os.path.realpath(path).startswith(prefix):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    m.SourceFileLoader.get_code = get_code  # type: ignore


def exc_key(e: BaseException) -> str:
    """type + innermost function of the code under test (robust to line changes)"""
    tb = traceback.extract_tb(e.__traceback__)
    inner = ""
    for fr in tb:
        if "/nevergrad/" in fr.filename and fr.filename.startswith(os.path.realpath(REPO)):
            inner = os.path.basename(fr.filename).replace(".py", "") + "." + fr.name
    return f"{type(e).__name__}@{inner or 'harness'}"


def run_one(mod: tp.Any, case: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    import warnings
    import numpy as np

    mon = Mon()
    seed = h64(json.dumps(case, sort_keys=True, default=str)) % 2**32
    np.random.seed(seed)
    random.seed(seed)
    t0 = time.time()
    status = "ok"
    info = ""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.run_case(case, mon)
        except Inconclusive as e:
            status, info = "inconclusive", str(e)
        except (MemoryError, KeyboardInterrupt) as e:
            status, info = "inconclusive", repr(e)
        except BaseException as e:  # pylint: disable=broad-except
            mon.violate(
                "unexpected-exception:" + exc_key(e),
                "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1400:],
            )
    gc.collect()  # disposes of optimizers kept by reference cycles (they may own background threads)
    out = mon.dump()
    out.update(status=status, info=info, wall=time.time() - t0)
    return out


def _worker(mod: tp.Any, conn: tp.Any) -> None:
    # the workload may print a lot: keep the protocol clean
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)
    gc.freeze()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        k, case = msg
        out = run_one(mod, case)
        conn.send((k, out))


class _Slot:
    def __init__(self, ctx: tp.Any, mod: tp.Any) -> None:
        self.ctx, self.mod = ctx, mod
        self.start()

    def start(self) -> None:
        self.conn, child = self.ctx.Pipe()
        self.proc = self.ctx.Process(target=_worker, args=(self.mod, child), daemon=False)
        self.proc.start()
        child.close()
        self.k: tp.Optional[int] = None
        self.t0 = 0.0

    def give(self, k: int, case: tp.Any) -> None:
        self.k, self.t0 = k, time.time()
        self.conn.send((k, case))

    def kill(self) -> None:
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            self.proc.kill()
        except Exception:  # pylint: disable=broad-except
            pass
        self.proc.join(10)
        self.conn.close()


def load_known(prop: str) -> tp.List[tp.Dict[str, tp.Any]]:
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            d = json.loads(line)
            if d["property"] == prop:
                out.append(d)
    return out


def run_check(prop: str, mod: tp.Any, tier: str, seed: int) -> int:
    t0 = time.time()
    cases: tp.List[tp.Dict[str, tp.Any]] = list(mod.cases(tier, seed))
    limit = mod.BUDGET_S[tier]
    case_timeout = getattr(mod, "CASE_TIMEOUT", 120)
    hang_is_violation = getattr(mod, "HANG_IS_VIOLATION", False)
    stall_retry: tp.Set[int] = set()
    ctx = mp.get_context("fork")
    prepare = getattr(mod, "prepare", None)
    if prepare is not None:
        prepare()
    slots = [_Slot(ctx, mod) for _ in range(min(NPROC, max(1, len(cases))))]
    todo = list(range(len(cases)))[::-1]
    results: tp.Dict[int, tp.Dict[str, tp.Any]] = {}
    skipped = 0
    violations: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
    inconclusive: tp.List[tp.Tuple[int, str]] = []

    def over() -> bool:
        return time.time() - t0 > limit

    def finish(k: int, out: tp.Dict[str, tp.Any]) -> None:
        results[k] = out
        if out["status"] == "inconclusive":
            inconclusive.append((k, out["info"]))
        for v in out["violations"]:
            w = violations.get(v["key"])
            if w is None:
                violations[v["key"]] = dict(v, case=cases[k], also=[])
            else:
                w["count"] += v["count"]
                if len(w["also"]) < 40:
                    w["also"].append({"case": cases[k], "msg": v["msg"][:300]})

    while True:
        for s in slots:
            if s.k is None and todo and (not over() or todo[-1] in stall_retry):
                k = todo.pop()
                s.give(k, cases[k])
        if over() and todo:
            keep = [k for k in todo if k in stall_retry]  # never drop an execution which died or stalled
            skipped += len(todo) - len(keep)
            todo[:] = keep
        busy = [s for s in slots if s.k is not None]
        if not busy:
            break
        ready = connection.wait([s.conn for s in busy] + [s.proc.sentinel for s in busy], timeout=1.0)
        for s in busy:
            if s.conn in ready or s.proc.sentinel in ready:
                try:
                    k, out = s.conn.recv() if s.conn.poll(0) else (_ for _ in ()).throw(EOFError())
                    finish(k, out)
                    s.k = None
                    continue
                except (EOFError, ConnectionError, OSError):
                    if s.proc.is_alive():
                        s.proc.join(2)
                    k = s.k  # type: ignore
                    code = s.proc.exitcode
                    s.kill()
                    if k not in stall_retry:
                        stall_retry.add(k)
                        todo.append(k)
                    else:
                        finish(
                            k,
                            dict(Mon().dump(), status="inconclusive", info=f"worker died, code {code}", wall=0),
                        )
                    s.start()
                    continue
            if s.k is not None and time.time() - s.t0 > case_timeout:
                k = s.k
                s.kill()
                print(f"[{prop}] watchdog: {json.dumps(cases[k], default=repr)[:300]}", file=sys.stderr, flush=True)
                if k not in stall_retry:  # once more, alone is best effort: avoids load-related stalls
                    stall_retry.add(k)
                    todo.append(k)
                else:
                    m = Mon()
                    if hang_is_violation:
                        m.evals += 1
                        m.violate(
                            "no-progress",
                            f"the execution made no progress within the watchdog ({case_timeout}s, twice)",
                        )
                        finish(k, dict(m.dump(), status="ok", info="", wall=case_timeout))
                    else:
                        finish(
                            k, dict(m.dump(), status="inconclusive", info="watchdog fired twice", wall=case_timeout)
                        )
                s.start()
        if len(inconclusive) > 20:
            break
    for s in slots:
        s.kill()

    # aggregate
    evals = sum(r["evals"] for r in results.values())
    counts: tp.Dict[str, int] = {}
    notes: tp.Dict[str, int] = {}
    states: tp.Set[int] = set()
    samples: tp.List[tp.Any] = []
    for k in sorted(results):
        r = results[k]
        for n, v in r["counts"].items():
            counts[n] = counts.get(n, 0) + v
        for n, v in r["notes"].items():
            notes[n] = notes.get(n, 0) + v
        states |= r["states"]
    for k in sorted(results, key=lambda k: h64(k, seed))[:4]:
        samples.append({"case": cases[k], "observed": results[k]["counts"], "sample": results[k]["sample"]})
    known = load_known(prop)
    known_keys = {d["key"]: d for d in known}
    new = {k: v for k, v in violations.items() if k not in known_keys}
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    slowest = sorted(((r["wall"], cases[k]) for k, r in results.items()), key=lambda x: -x[0])[:12]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": samples,
            "executions": len(results),
            "executions_planned": len(cases),
            "executions_skipped_for_time": skipped,
            "events": counts,
            "notes": notes,
            "inconclusive_executions": len(inconclusive),
            "slowest": slowest,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=repr) + "\n")
    print(
        f"[{prop}] tier={tier} seed={seed} executions={len(results)}/{len(cases)} judgements={evals} "
        f"distinct={len(states)} wall={time.time() - t0:.1f}s events={json.dumps(counts)}"
    )
    for d in known:
        hit = violations.get(d["key"])
        print(
            f"KNOWN-FINDING: property={prop} {d['what']} [key={d['key']}; observed {hit['count'] if hit else 0} times in this run]"
        )
    if new:
        rdir = EVIDENCE / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        for key, v in sorted(new.items()):
            path = rdir / f"{prop}-{h64(key):016x}.json"
            path.write_text(json.dumps(dict(v, property=prop, tier=tier, seed=seed), indent=1, default=repr) + "\n")
            print(f"  violated: {key}: {v['msg'][:1200]}")
            if os.environ.get("VERIF_DEBUG"):
                for c in [v] + v["also"]:
                    print("    in", json.dumps(c["case"], default=repr)[:300], "::", c["msg"][-150:].replace("\n", " | "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive:
        for k, info in inconclusive[:10]:
            print(f"INCONCLUSIVE: {info} case={json.dumps(cases[k], default=repr)[:300]}")
        return 2
    floor = mod.MIN_EVALS[tier] if isinstance(getattr(mod, "MIN_EVALS", 0), dict) else getattr(mod, "MIN_EVALS", 1)
    if evals < floor or not states:
        print(f"INCONCLUSIVE: only {evals} judgements (floor {floor}), {len(states)} distinct states observed")
        return 2
    need = getattr(mod, "NEED_EVENTS", ())
    missing = [n for n in need if not counts.get(n)]
    if missing and not skipped:
        print(f"INCONCLUSIVE: monitors never observed {missing}")
        return 2
    return 0


def main(argv: tp.List[str]) -> int:
    faulthandler.enable()
    fresh_repo_imports()
    sys.path.insert(0, REPO)
    import importlib

    if argv and argv[0] == "replay":
        d = json.loads(Path(argv[1]).read_text())
        mod = importlib.import_module(f"vh.checks.{d['property'].lower()}")
        getattr(mod, "prepare", lambda: None)()
        out = run_one(mod, d["case"])
        print(json.dumps({k: v for k, v in out.items() if k != "states"}, indent=1, default=repr))
        hit = [v for v in out["violations"] if v["key"] == d["key"]]
        if hit:
            print(f"VIOLATION property={d['property']} replay={argv[1]}")
            return 1
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"vh.checks.{prop.lower()}")
    import nevergrad

    got = os.path.realpath(nevergrad.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        print(f"INCONCLUSIVE: nevergrad imported from {got}, not from {REPO}")
        return 2
    return run_check(prop, mod, tier, seed)
