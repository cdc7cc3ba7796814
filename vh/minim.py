"""Recording harness around Optimizer.minimize: scheduled executors, fault plans, and the event log judged by M01/M02."""
import concurrent.futures
import contextlib
import io
import random
import threading
import time
import typing as tp
import warnings
import numpy as np
from . import opts, spaces


class Planned(Exception):
    """an injected failure"""


class Log:
    """events in order: (kind, data). Everything nevergrad does is observed through its public interface"""

    def __init__(self) -> None:
        self.lock = threading.Lock()
        self.events: tp.List[tp.Tuple[tp.Any, ...]] = []

    def add(self, *event: tp.Any) -> None:
        with self.lock:
            self.events.append(event)


class Job:
    """future-like: finished after some polls, according to a random schedule; evaluates at one of three moments"""

    def __init__(self, ex: "Scheduled", fn: tp.Any, args: tp.Any, kwargs: tp.Any) -> None:
        self.ex, self.fn, self.args, self.kwargs = ex, fn, args, kwargs
        self.polls = ex.r.choice([0, 0, 1, 2, 3, 7]) if ex.kind != "reverse" else ex.reverse_polls()
        self.out: tp.Any = None
        self.error: tp.Optional[BaseException] = None
        self.computed = False
        if ex.r.random() < 0.3:
            self.compute()

    def compute(self) -> None:
        if not self.computed:
            self.computed = True
            try:
                self.out = self.fn(*self.args, **self.kwargs)
            except BaseException as e:  # pylint: disable=broad-except
                self.error = e

    def done(self) -> bool:
        self.polls -= 1
        if self.polls < 0:
            self.compute()
            return True
        return False

    def result(self) -> tp.Any:
        assert self.polls < 0, "result requested before the job is done"
        self.compute()
        if self.error is not None:
            error = self.error
            if self.ex.retry:  # as with the default executor, the evaluation is attempted again at the next request
                self.error, self.computed = None, False
            raise error
        return self.out


class Scheduled:
    def __init__(self, kind: str, r: random.Random) -> None:
        self.kind, self.r = kind, r
        self.retry = kind == "sched" and r.random() < 0.75
        self._next = 12

    def reverse_polls(self) -> int:
        self._next = self._next - 1 if self._next > 0 else 12
        return self._next

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> Job:
        return Job(self, fn, args, kwargs)


class Recorder:
    """wraps the executor given to minimize and the ask and tell methods of the optimizer (through the instance)"""

    def __init__(self, opt: tp.Any, r: random.Random, executor: str, workers: int, faults: tp.Optional["Faults"] = None) -> None:
        self.opt, self.r, self.log = opt, r, Log()
        self.faults = faults
        self.kind = executor
        self.pool: tp.Any = None
        self.inner: tp.Any
        if executor == "thread":
            self.pool = self.inner = concurrent.futures.ThreadPoolExecutor(max_workers=workers)
        elif executor in ("sched", "reverse"):
            self.inner = Scheduled(executor, r)
        else:
            self.inner = None
        self.n_call = 0
        self.asked: tp.List[tp.Any] = []
        self.call_lock = threading.Lock()
        ask, tell = opt.ask, opt.tell

        def rec_ask() -> tp.Any:
            c = ask()
            self.asked.append(c)
            self.log.add("ask", c.uid, spaces.freeze((c.args, c.kwargs)))
            return c

        def rec_tell(c: tp.Any, loss: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            self.log.add("tell-start", c.uid, loss)
            out = tell(c, loss, *args, **kwargs)
            self.log.add("tell", c.uid, loss, tuple(np.ravel(args[0]).tolist()) if args else None)
            return out

        opt.ask, opt.tell = rec_ask, rec_tell

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        if self.faults is not None:
            self.faults.at("submit")
        self.log.add("submit", spaces.freeze((args, kwargs)))
        return self.inner.submit(fn, *args, **kwargs)

    def objective(self, n_obj: int, noise: bool) -> tp.Callable[..., tp.Any]:
        delays = [self.r.choice([0, 0, 0.0005, 0.002]) for _ in range(64)]

        def func(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            with self.call_lock:
                k = self.n_call
                self.n_call += 1
            self.log.add("call", k, spaces.freeze((args, kwargs)))
            if self.kind == "thread":
                time.sleep(delays[k % 64])
            if self.faults is not None:
                self.faults.at("call")
            base = spaces.numeric_loss((args, kwargs)) + (k * 1e-7 if noise else 0.0)
            out: tp.Any = base if n_obj == 1 else [base + j * (k % 7) for j in range(n_obj)]
            self.log.add("return", k, spaces.freeze((args, kwargs)), out)
            return out

        return func

    def minimize(self, func: tp.Any, **kwargs: tp.Any) -> tp.Any:
        ex = None if self.kind == "none" else self
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return self.opt.minimize(func, executor=ex, **kwargs)

    def close(self) -> None:
        if self.pool is not None:
            self.pool.shutdown(wait=True)


class Faults:
    """raises (or acts) at given occurrences of the hooked moments"""

    def __init__(self, plan: tp.Dict[str, tp.Dict[str, str]], log: tp.Callable[[str], None], actions: tp.Dict[str, tp.Callable[[], None]]) -> None:
        self.plan, self.counts, self.lock = plan, {}, threading.Lock()
        self.log, self.actions = log, actions

    def at(self, where: str) -> None:
        with self.lock:
            n = self.counts.get(where, 0)  # type: ignore
            self.counts[where] = n + 1  # type: ignore
        what = self.plan.get(where, {}).get(str(n))
        if what is None:
            return
        self.log(what)
        if what in self.actions:
            self.actions[what]()
        elif what == "interrupt":
            raise KeyboardInterrupt(f"planned {where} {n}")
        else:
            raise Planned(f"planned {where} {n}")


def lists(x: tp.Any) -> tp.Any:
    return [float(v) for v in np.ravel(x)]


def build(case: tp.Dict[str, tp.Any], spec: tp.Dict[str, tp.Any]) -> tp.Any:
    return opts.build_opt(case["opt"], lambda: spaces.build(spec), case["budget"], case["workers"], case.get("seed", 1))
