"""Shared ask/tell driver: one optimizer, its shadow accounting, and random operations on it."""
import random
import typing as tp
import warnings
import numpy as np
from . import opts, spaces


def not_supported() -> tp.Any:
    from nevergrad.common import errors

    return errors.TellNotAskedNotSupportedError


def frozen(candidate: tp.Any) -> bool:
    """observed through the public behaviour: modification is refused"""
    try:
        candidate.value = candidate.value
    except RuntimeError:
        return True
    return False


def spec_of(case: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    s = case["space"]
    return opts.SPACES[s] if isinstance(s, str) else s


class Session:
    def __init__(self, case: tp.Dict[str, tp.Any], r: random.Random) -> None:
        self.case, self.r = case, r
        self.spec = spec_of(case)
        self.opt = opts.build_opt(
            case["opt"], lambda: spaces.build(self.spec), case.get("budget", 60), case.get("workers", 1), case.get("seed", 1)
        )
        self.workers = self.opt.num_workers
        # some optimizers suggest points to themselves: those are "suggested" in the documented accounting
        self.suggested = 0
        inner = self.opt.suggest

        def suggest(*args: tp.Any, **kwargs: tp.Any) -> None:
            inner(*args, **kwargs)
            self.suggested += 1

        self.opt.suggest = suggest
        self.from_suggestion: tp.Set[str] = set()
        self.pending: tp.List[tp.Any] = []
        self.told: tp.List[tp.Any] = []
        self.n_ask = self.n_tell = self.n_foreign = 0

    def ask(self) -> tp.Any:
        waiting = self.suggested
        c = self.opt.ask()
        self.n_ask += 1
        if waiting:
            self.suggested -= 1
            self.from_suggestion.add(c.uid)
        self.pending.append(c)
        return c

    def tell(self, c: tp.Any, loss: tp.Any, foreign: bool = False) -> bool:
        """False when the optimizer refuses it with the dedicated error"""
        try:
            self.opt.tell(c, loss)
        except not_supported():
            if not foreign and c.uid not in self.from_suggestion:
                raise
            return False
        self.n_tell += 1
        self.n_foreign += foreign or c.uid in self.from_suggestion
        return True

    def tell_pending(self, k: int, loss: tp.Any) -> tp.Any:
        c = self.pending.pop(k)
        self.tell(c, loss)
        self.told.append(c)
        return c

    def foreign_candidate(self) -> tp.Any:
        return self.opt.parametrization.spawn_child(new_value=spaces.sample_value(self.spec, self.r))


def suggest(opt: tp.Any, value: tp.Any) -> None:
    import nevergrad as ng

    if isinstance(opt.parametrization, ng.p.Instrumentation):
        opt.suggest(*value[0], **value[1])
    else:
        opt.suggest(value)
