"""B04: result tables saved, appended, selected, cleaned and aggregated by the real code under random tables and histories; row-by-row and brute-force oracles over the tables, files and win rates observed."""
import collections
import contextlib
import csv
import io
import itertools
import math
import os
import pathlib
import typing as tp
import unittest.mock
import warnings
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (operation, number of rows, columns, optimizers, categories, specials among the losses, duplicated index)"
BUDGET_S = {"quick": 40, "thorough": 400}
MIN_EVALS = 8000
NEED_EVENTS = ("append", "new-columns", "select", "unique", "winners", "tie", "nan-loss", "inf-loss", "aggregate", "winrates", "errors-removed", "duplicated-index", "make-data", "normalised", "placement", "plots", "merged-name")
ASSUMPTIONS = ["the categories of compared settings hold no missing value (create_plots fills them before comparing)"]

WORDS = ["alpha", "b", "x,y", 'quo"te', "new\nline", "", "None", "NA", "nan", "007", "1e5", "True", "é", " spaced ", "null", "N/A", "a;b"]


NA_LIKE = ("NA", "N/A", "nan", "NaN", "null", "NULL", "None", "n/a", "#N/A", "-nan", "<NA>", "-NaN", "", "True", "False")


def table(r: tp.Any, n: int, columns: tp.List[str]) -> tp.List[tp.Dict[str, tp.Any]]:
    # (last digits, NA-like names, huge integers and booleans: see case_known)
    kinds = {c: r.choice(["float", "int", "str", "mix"]) for c in columns}

    def cell(c: str) -> tp.Any:
        k = kinds[c] if kinds[c] != "mix" else r.choice(["float", "int", "str"])
        if k == "float":
            return r.choice([r.randint(-8000, 8000) / 8, r.randint(-99, 99) / 1024, float("nan"), float("inf"), -0.1, 0.3, 1.0])
        if k == "int":
            return r.choice([0, 1, -7, r.randrange(2**50), 2**31])
        return r.choice([w for w in WORDS if w not in NA_LIKE])

    return [{c: cell(c) for c in columns} for _ in range(n)]


def text(x: tp.Any) -> str:
    return "" if isinstance(x, float) and math.isnan(x) else str(x)


def read(path: tp.Any) -> tp.Tuple[tp.List[str], tp.List[tp.List[str]]]:
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def equal_cell(found: str, expected: tp.Any) -> bool:
    if isinstance(expected, (bool, np.bool_)):
        return found in (str(bool(expected)),)
    if isinstance(expected, (int, float)):
        if isinstance(expected, float) and math.isnan(expected):
            return found in ("", "nan")
        try:
            return float(found) == float(expected)
        except ValueError:
            return False
    return found == expected


def quiet() -> tp.Any:
    stack = contextlib.ExitStack()
    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
    stack.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    return stack


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 560 if tier == "quick" else 7000
    kinds = ["append", "select", "winners", "winners", "rates", "errors", "data", "placement", "plots", "merge"]
    return [dict(kind="known", seed=seed * 1000000)] + [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    globals()["case_" + case["kind"]](case, mon, rng_of(case))


# ---------------------------------------------------------------- append
def case_append(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import core, utils

    path = pathlib.Path(os.environ["VERIF_SCRATCH"]) / f"b04.{os.getpid()}.{case['seed']}.csv"
    universe = ["optimizer_name", "loss", "seed", "c one", "d,e", "info/x", "error", "flag"]
    columns = r.sample(universe, r.randint(1, 5))
    known: tp.List[str] = []
    rows: tp.List[tp.Dict[str, tp.Any]] = []
    for step in range(r.randint(1, 5)):
        if step and r.random() < 0.5:
            extra = [c for c in universe if c not in columns]
            if extra and r.random() < 0.7:
                columns = columns + [r.choice(extra)]
            elif len(columns) > 1:
                columns = r.sample(columns, len(columns) - 1)
            mon.event("new-columns")
        if r.random() < 0.3:
            columns = r.sample(columns, len(columns))
        new = table(r, r.randint(1, 6), columns)
        if len(columns) == 1:  # a single empty cell cannot be told from an empty line
            new = [x for x in new if text(list(x.values())[0])] or [{columns[0]: 1}]
        df = pd.DataFrame(new, columns=columns)
        if r.random() < 0.5:
            df = utils.Selector(df)
        if r.random() < 0.3:
            df.index = [r.randrange(3) for _ in range(len(df))]
            mon.event("duplicated-index")
        before_new = df.copy()
        stored = read(path) if path.exists() else ([], [])
        with quiet():
            core.save_or_append_to_csv(df, path)
        mon.event("append")
        head, lines = read(path)
        known += [c for c in columns if c not in known]
        rows += [{c: before_new[c].iloc[k] for c in columns} for k in range(len(new))]
        what = f"step {step}, columns {columns}"
        mon.seen("append", len(rows), tuple(sorted(known)))
        mon.check(sorted(head) == sorted(known), "append-columns", lambda: f"{what}: columns {head} instead of {known}")
        if not mon.check(len(lines) == len(rows), "append-rows", lambda: f"{what}: {len(lines)} rows instead of {len(rows)}"):
            return
        # earlier rows keep what the file said
        for k, old in enumerate(stored[1]):
            now = dict(zip(head, lines[k]))
            for c in known:
                said = dict(zip(stored[0], old)).get(c, "")
                mon.check(now[c] == said or same_number(now[c], said), "append-changes-earlier-row", lambda: f"{what}: row {k} column {c} was {said!r} and is now {now[c]!r}")
        for k in range(len(rows) - len(new), len(rows)):
            now = dict(zip(head, lines[k]))
            for c in known:
                val = rows[k].get(c, float("nan"))
                mon.check(equal_cell(now[c], val.item() if isinstance(val, np.generic) else val), "append-new-row", lambda: f"{what}: row {k} column {c} should be {val!r} and is {now[c]!r}")
        mon.check(before_new.equals(df), "append-changes-table", what)
    os.remove(path)


def same_number(a: str, b: str) -> bool:
    try:
        return float(a) == float(b)
    except ValueError:
        return False


# ---------------------------------------------------------------- selection
def case_select(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import utils

    n = r.randint(0, 12)
    pools = {"a": ["x", "y", "xy", "", "z"], "b": [0, 1, 2, -1], "c": [0.5, float("nan"), 2.0, float("inf")], "d": ["p", "q"]}
    rows = [{c: r.choice(v) for c, v in pools.items()} for _ in range(n)]
    df = pd.DataFrame(rows, columns=list(pools))
    if r.random() < 0.4:
        df.index = [r.randrange(4) for _ in range(n)]
        mon.event("duplicated-index")
    sel = utils.Selector(df)
    keep = sel.copy()
    criteria: tp.Dict[str, tp.Any] = {}
    tests: tp.Dict[str, tp.Callable[[tp.Any], bool]] = {}
    for c in r.sample(list(pools), r.randint(0, 3)):
        kind = r.choice(["value", "list", "tuple", "set", "call", "generator", "array"])
        vals = [v for v in r.sample(pools[c], r.randint(0, len(pools[c]))) if v == v]
        if kind == "value":
            v = r.choice([x for x in pools[c] if x == x])
            criteria[c], tests[c] = v, (lambda x, v=v: x == v)
        elif kind == "call":
            if c in ("a", "d"):
                criteria[c] = tests[c] = lambda x: "x" in x or x == "p"
            else:
                criteria[c] = tests[c] = lambda x: x > 0.7
        else:
            criteria[c] = {"list": list, "tuple": tuple, "set": set, "generator": lambda v: (x for x in v), "array": lambda v: np.array(v, dtype=object)}[kind](vals)
            tests[c] = lambda x, vals=tuple(vals): x in vals
    expected = [row for row in rows if all(t(row[c]) for c, t in tests.items())]
    drop = r.random() < 0.3
    out = sel.select_and_drop(**criteria) if drop else sel.select(**criteria)
    cols = [c for c in pools if not drop or c not in criteria]
    mon.event("select")
    mon.seen("select", n, len(expected), tuple(sorted(criteria)), drop)
    found = [tuple(map(repr, map(float_or, row))) for row in out.itertuples(index=False)] if cols else [()] * len(out)
    mon.check(isinstance(out, utils.Selector), "select-type", f"{type(out)}")
    mon.check(list(out.columns) == cols, "select-columns", lambda: f"{list(out.columns)} instead of {cols}")
    wanted = [tuple(repr(float_or(row[c])) for c in cols) for row in expected]
    if cols:
        mon.check(found == wanted, "select-rows", lambda: f"criteria {criteria}: {found} instead of {wanted}")
    mon.check(sel.equals(keep) and list(sel.index) == list(keep.index), "select-changes-table", f"{criteria}")
    # unique values
    c = r.choice(["a", "b", "d"])
    mon.event("unique")
    mon.check(sel.unique(c) == {row[c] for row in rows}, "unique", lambda: f"{sel.unique(c)}")
    cc = r.sample(["a", "b", "d"], r.randint(1, 3))
    mon.check(sel.unique(cc) == {tuple(row[x] for x in cc) for row in rows}, "unique", lambda: f"{cc}: {sel.unique(cc)}")
    shuffled = utils.Selector(sel.iloc[r.sample(range(n), n)].loc[:, r.sample(list(sel.columns), 4)])
    clean = "c"
    sel.drop(columns=clean).assert_equivalent(shuffled.drop(columns=clean))
    if n:
        changed = shuffled.drop(columns=clean).reset_index(drop=True)
        changed.loc[r.randrange(n), "b"] = 77
        try:
            sel.drop(columns=clean).reset_index(drop=True).assert_equivalent(changed)
        except AssertionError:
            pass
        else:
            mon.violate("equivalent-misses-difference", f"{rows}")


def float_or(x: tp.Any) -> tp.Any:
    return float(x) if isinstance(x, (int, float, np.number)) else str(x)


# ---------------------------------------------------------------- victories
def results(r: tp.Any, special: bool, scaled: bool = False) -> tp.Tuple[tp.List[tp.Dict[str, tp.Any]], tp.List[str], tp.List[str]]:
    names = r.sample(["OnePlusOne", "RandomSearch", "DE", "CMA", "PSO(a=1)", "x_y", "Search(1/3)"], r.randint(1, 5))
    cats = r.sample(["function", "budget", "noise", "dim"], r.randint(0, 3))
    pools = {"function": ["sphere", "cigar", "hm"], "budget": [10, 20, 50], "noise": [0.0, 0.5], "dim": [2]}
    rows = []
    scale = 2.0 ** r.choice([0, 0, 0, -40, -200, 40, 200]) if scaled else 1.0  # exact: comparisons and means are those of the integers
    for _ in range(r.randint(1, 45)):
        loss: float = scale * r.randint(-3, 6)
        if special and r.random() < 0.12:
            loss = r.choice([float("nan"), float("inf"), float("inf"), float("nan"), -float("inf")])
        rows.append(dict({c: r.choice(pools[c]) for c in cats}, optimizer_name=r.choice(names), loss=loss, seed=r.randrange(10)))
    return rows, cats, names


def mean(vals: tp.List[float]) -> float:
    vals = [v for v in vals if v == v]
    if not vals:
        return float("nan")
    if float("inf") in vals or -float("inf") in vals:
        return float("nan") if float("inf") in vals and -float("inf") in vals else [v for v in vals if math.isinf(v)][0]
    return math.fsum(vals) / len(vals)


def victories(rows: tp.List[tp.Dict[str, tp.Any]], cats: tp.List[str]) -> tp.Tuple[tp.Dict[tp.Tuple[str, str], float], int]:
    groups: tp.Dict[tp.Any, tp.Dict[str, tp.List[float]]] = {}
    for row in rows:
        groups.setdefault(tuple(row[c] for c in cats), {}).setdefault(row["optimizer_name"], []).append(row["loss"])
    out: tp.Dict[tp.Tuple[str, str], float] = collections.defaultdict(float)
    for g in groups.values():
        means = {n: mean(v) for n, v in g.items()}
        for a, b in itertools.product(means, means):
            tie = means[a] == means[b] and not math.isinf(means[a])  # (equal infinities: see case_known)
            out[a, b] += 1.0 if means[a] < means[b] else (0.5 if tie else 0.0)
    return out, len(groups)


def case_winners(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import plotting, utils

    special = r.random() < 0.5
    rows, cats, names = results(r, special, scaled=True)
    df = utils.Selector(pd.DataFrame(rows))
    if r.random() < 0.3:
        df.index = [r.randrange(5) for _ in range(len(df))]
        mon.event("duplicated-index")
    allnames = names + ["absent"]
    r.shuffle(allnames)
    for label, val in (("nan-loss", float("nan")), ("inf-loss", float("inf"))):
        if any(repr(row["loss"]) == repr(val) for row in rows):
            mon.event(label)
    keep = df.copy()
    with quiet():
        one = plotting._make_winners_df(pd.DataFrame(df) if r.random() < 0.3 else df, allnames)
        many, total = plotting.aggregate_winners(df, cats, allnames)
    mon.check(df.equals(keep), "winners-change-table", "")
    for found, cc, event in ((one, [], "winners"), (many, cats, "aggregate")):
        ref, num = victories(rows, cc)
        mon.event(event)
        mon.seen(event, len(rows), tuple(cc), special, len(names))
        if cc or event == "aggregate":
            mon.check(total == num, "number-of-cases", lambda: f"{total} cases instead of {num}: {cc}")
        mon.check(sorted(found.index) == sorted(allnames) and sorted(found.columns) == sorted(allnames), "winners-names", lambda: f"{list(found.index)}")
        for a, b in itertools.product(allnames, allnames):
            val = float(found.loc[a, b])
            mon.check(val == ref[a, b], f"victories:{event}", lambda: f"{a} beats {b} {val} times instead of {ref[a, b]} in {[(x['optimizer_name'], x['loss'], [x[c] for c in cc]) for x in rows]}")
            if a < b and ref[a, b] % 1:
                mon.event("tie")


def rates_oracle(rows: tp.List[tp.Dict[str, tp.Any]], cats: tp.List[str], complete: bool = False) -> tp.Any:
    ref, total = victories(rows, cats)
    names = sorted({row["optimizer_name"] for row in rows})
    if complete:
        most = max(ref[n, n] for n in names)
        names = [n for n in names if ref[n, n] == most]
        rows = [row for row in rows if row["optimizer_name"] in names]
        ref, total = victories(rows, cats)
    rates = {}
    for b in names:  # not playing where the opponent does is losing
        games = max(ref[a, b] + ref[b, a] for a in names)
        for a in names:
            rates[a, b] = ref[a, b] / games
    return names, rates, {n: int(2 * ref[n, n]) for n in names}, total


def compare_rates(found: tp.Any, rows: tp.List[tp.Dict[str, tp.Any]], cats: tp.List[str], complete: bool, num_rows: int, mon: Mon, what: str) -> None:
    names, rates, played, total = rates_oracle(rows, cats, complete)
    labels = {f"{n} ({played[n]}/{total})": n for n in names}
    cols = list(found.columns)
    if not mon.check(sorted(cols) == sorted(labels), "winrates-labels", lambda: f"{what}: {cols} instead of {sorted(labels)}"):
        return
    order = [labels[c] for c in cols]
    means = [sum(rates[a, b] for b in names) / len(names) for a in order]
    mon.check(all(x >= y - 1e-12 for x, y in zip(means, means[1:])), "winrates-order", lambda: f"{what}: {list(zip(order, means))}")
    mon.check(len(found) == min(num_rows, len(names)), "winrates-rows", lambda: f"{what}: {len(found)} rows")
    data = np.array(found)
    for i in range(len(found)):
        mon.check(str(found.index[i]).startswith(order[i].replace("Search", "")), "winrates-row-names", lambda: f"{what}: row {i} is {found.index[i]} instead of {order[i]}")
        for j, b in enumerate(order):
            mon.check(abs(data[i, j] - rates[order[i], b]) < 1e-12, "winrates", lambda: f"{what}: {order[i]} vs {b}: {data[i, j]} instead of {rates[order[i], b]}")


def case_rates(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import plotting, utils

    rows, cats, _ = results(r, False)
    df = utils.Selector(pd.DataFrame(rows))
    complete = r.random() < 0.5
    num_rows = r.choice([1, 3, 6])
    with quiet():
        found = plotting.FightPlotter.winrates_from_selection(df, cats, num_rows=num_rows, complete_runs_only=complete)
    mon.event("winrates")
    mon.seen("winrates", len(rows), tuple(cats), complete, num_rows)
    compare_rates(found, rows, cats, complete, num_rows, mon, f"categories {cats}, complete {complete}: {[(x['optimizer_name'], x['loss'], [x[c] for c in cats]) for x in rows]}")


# ---------------------------------------------------------------- cleaning
def case_errors(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import plotting, utils

    rows, _, _ = results(r, r.random() < 0.7)
    for k, row in enumerate(rows):
        row["number"] = k
        row["error"] = r.choice(["", "", float("nan"), "ValueError"])
    df = pd.DataFrame(rows)
    if r.random() < 0.3:
        df = df.drop(columns="error")
    if r.random() < 0.5:
        df.index = r.sample(range(99), len(df))  # (duplicated indices: see case_known)
    with quiet():
        out = plotting.remove_errors(utils.Selector(df.copy()) if r.random() < 0.5 else df.copy())
    mon.event("errors-removed")
    mon.seen("errors", len(rows), "error" in df.columns)
    if "error" not in df.columns:
        mon.check(list(out["number"]) == list(range(len(rows))), "errors-rows", "no error column")
        return
    kept = [row for row in rows if row["loss"] == row["loss"]]
    mon.check(list(out["number"]) == [row["number"] for row in kept], "errors-rows", lambda: f"kept {list(out['number'])} instead of {[row['number'] for row in kept]}; index {list(df.index)}")
    mon.check("error" not in out.columns and set(out.columns) == set(df.columns) - {"error"}, "errors-columns", f"{list(out.columns)}")
    if len(out) == len(kept):
        for k, row in enumerate(kept):
            mon.check(all(out[c].iloc[k] == row[c] for c in out.columns), "errors-change-row", lambda: f"{row}")


def case_data(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import plotting, utils

    rows, cats, _ = results(r, False)
    for row in rows:
        row.setdefault("budget", r.choice([10, 20]))
        row["elapsed_time"], row["elapsed_budget"], row["pseudotime"] = r.random(), row["budget"], float(r.randint(1, 9))
    if r.random() < 0.3:
        for row in rows:
            del row["pseudotime"]
    df = utils.Selector(pd.DataFrame(rows))
    with quiet():
        out = plotting.XpPlotter.make_data(df.copy())
    mon.event("make-data")
    mon.seen("data", len(rows), tuple(cats))
    check_data(out, rows, mon, f"{rows}")
    # normalisation: each setting is spread on [0, 1] in the same order
    desc = [c for c in cats if c != "budget"]
    if not desc:
        return
    with quiet():
        norm = plotting.normalized_losses(df, descriptors=desc)
    mon.event("normalised")
    groups: tp.Dict[tp.Any, tp.List[int]] = {}
    for k, row in enumerate(rows):
        groups.setdefault(tuple(row[c] for c in desc), []).append(k)
    mon.check(list(df["loss"]) == [row["loss"] for row in rows], "normalisation-changes-table", "")
    for g, ks in groups.items():
        losses = [rows[k]["loss"] for k in ks]
        lo, hi = min(losses), max(losses)
        for k in ks:
            ref = (rows[k]["loss"] - lo) / (hi - lo) if hi > lo else 1.0
            mon.check(abs(float(norm["loss"].iloc[k]) - ref) < 1e-12, "normalised-loss", lambda: f"setting {g}: {norm['loss'].iloc[k]} instead of {ref}")


def check_data(out: tp.Any, rows: tp.List[tp.Dict[str, tp.Any]], mon: Mon, what: str) -> None:
    ref: tp.Dict[str, tp.Dict[int, tp.List[tp.Any]]] = {}
    for row in rows:
        ref.setdefault(row["optimizer_name"], {}).setdefault(row["budget"], []).append(row)
    mon.check(set(out) == set(ref), "data-optimizers", lambda: f"{what}: {set(out)}")
    for name in set(out) & set(ref):
        budgets = sorted(ref[name])
        if not mon.check([int(b) for b in out[name]["budget"]] == budgets, "data-budgets", lambda: f"{what}: {out[name]['budget']}"):
            continue
        for k, b in enumerate(budgets):
            losses = [row["loss"] for row in ref[name][b]]
            mon.check(abs(float(out[name]["loss"][k]) - float(np.median(losses))) < 1e-12, "data-loss", lambda: f"{what}: {name} budget {b}: {out[name]['loss'][k]} for {losses}")
            mon.check(int(out[name]["num_eval"][k]) == len(losses) == int(out[name]["loss_nums"][k]), "data-count", lambda: f"{what}: {name} budget {b}: {out[name]['num_eval'][k]} for {losses}")
            if len(losses) > 1:
                mon.check(abs(float(out[name]["loss_std"][k]) - float(np.std(losses, ddof=1))) < 1e-9, "data-std", lambda: f"{what}: {name} {b}")
            if "pseudotime" in rows[0]:
                mon.check(abs(float(out[name]["pseudotime"][k]) - float(np.median([row["pseudotime"] for row in ref[name][b]]))) < 1e-12, "data-pseudotime", lambda: f"{what}: {name} {b}")


def case_placement(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    from nevergrad.benchmark import plotting

    for _ in range(6):
        n = r.randint(1, 14)
        pos = sorted(r.choice([r.random(), r.randint(0, 3) / 4, r.gauss(0, 1)]) for _ in range(n))
        gap = r.choice([0.001, 0.05, 0.25, 1.0])
        out = plotting.compute_best_placements(list(pos), gap)
        mon.event("placement")
        mon.seen("placement", n, gap)
        what = f"positions {pos}, gap {gap}: {out}"
        mon.check(len(out) == n, "placement-number", what)
        mon.check(all(b - a >= gap - 1e-9 for a, b in zip(out, out[1:])), "placement-overlap", what)
        if all(b - a >= gap + 1e-9 for a, b in zip(pos, pos[1:])):
            mon.check(np.allclose(out, pos, atol=1e-12), "placement-moves-for-nothing", what)
        mon.check(abs(float(np.mean(out)) - float(np.mean(pos))) < 1e-9 * max(1, n), "placement-centre", what)


def case_merge(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    import pandas as pd
    from nevergrad.benchmark import plotting, utils

    rows, _, _ = results(r, False)
    for row in rows:
        row["parametrization"] = r.choice(["p1", "p2", ""]) if row["optimizer_name"] != "DE" else "p1"
        row["other"] = r.choice([1, 2])
    df = utils.Selector(pd.DataFrame(rows))
    keep = df.copy()
    pattern, merge = r.choice([("", False), ("", True), ("{optimizer_name}-{other}", False), ("{parametrization}:{optimizer_name}/{other}", False)])
    with quiet():
        out = plotting.merge_optimizer_name_pattern(df, pattern, merge_parametrization=merge)
    mon.event("merged-name")
    mon.seen("merge", pattern, merge, len(rows))
    mon.check(df.equals(keep), "merge-changes-table", "")
    full = pattern or ("{optimizer_name},{parametrization}" if merge else "{optimizer_name}")
    used = [c for c in ("parametrization", "other") if "{" + c + "}" in full]
    variants: tp.Dict[str, tp.Set[tp.Any]] = {}
    for row in rows:
        variants.setdefault(row["optimizer_name"], set()).add(tuple(row[c] for c in used))
    several = len({v for vs in variants.values() for v in vs}) > 1
    expected = [full.format(**row) if several and len(variants[row["optimizer_name"]]) > 1 else row["optimizer_name"] for row in rows]
    mon.check(list(out["optimizer_name"]) == expected, "merged-names", lambda: f"{full}: {list(out['optimizer_name'])} instead of {expected}")
    mon.check(list(out["loss"]) == [row["loss"] for row in rows], "merge-losses", full)
    mon.check(set(out.columns) == set(df.columns) - set(used), "merge-columns", lambda: f"{full}: {list(out.columns)}")


# ---------------------------------------------------------------- whole plots
def case_plots(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """the data handed to the plotters by create_plots"""
    import pandas as pd
    from nevergrad.benchmark import plotting

    rows, _, _ = results(r, False)
    for k, row in enumerate(rows):
        row.setdefault("budget", r.choice([10, 20, 50]))
        row.setdefault("function", r.choice(["sphere", "cigar"]))
        row["elapsed_time"], row["elapsed_budget"], row["pseudotime"] = r.random(), row["budget"], float(k)
        row["constant"], row["info/x"] = "same", r.random()
        row["error"] = ""
        if k and r.random() < 0.1:
            row["loss"] = float("nan")
    df = pd.DataFrame(rows)
    if r.random() < 0.4:
        df.index = r.sample(range(99), len(df))  # (duplicated indices: see case_known)
    kept = [row for row in rows if row["loss"] == row["loss"]]
    fights: tp.List[tp.Any] = []
    curves: tp.List[tp.Any] = []
    folder = pathlib.Path(os.environ["VERIF_SCRATCH"]) / f"plots.{os.getpid()}.{case['seed']}"
    with quiet(), contextlib.ExitStack() as stack:
        for cls, store in ((plotting.FightPlotter, fights), (plotting.XpPlotter, curves)):

            def init(self: tp.Any, data: tp.Any, *args: tp.Any, _store: tp.Any = store, **kwargs: tp.Any) -> None:
                _store.append((data, args, kwargs))
                self.winrates = data

            stack.enter_context(unittest.mock.patch.object(cls, "__init__", init))
            stack.enter_context(unittest.mock.patch.object(cls, "save", lambda self, *a, **k: None))
            stack.enter_context(unittest.mock.patch.object(cls, "__del__", lambda self: None))
        plotting.create_plots(df, folder, max_combsize=r.choice([0, 1]))
    mon.event("plots")
    varying = [c for c in ("function", "noise", "dim", "budget") if c in rows[0] and (c == "budget" or len({row[c] for row in kept}) > 1)]
    mon.seen("plots", len(rows), tuple(varying))
    what = f"varying {varying}: {[(x['optimizer_name'], x['loss'], [x[c] for c in varying]) for x in kept]}"
    # the first fights hold everything
    compare_rates(fights[0][0], kept, varying, False, 6, mon, what)
    compare_rates(fights[1][0], kept, varying, True, 6, mon, what)
    # the per-setting curves
    others = [c for c in varying if c != "budget" and any(len({row[c] for row in kept if row["budget"] == b}) > 1 for b in {row["budget"] for row in kept})]
    settings: tp.Dict[tp.Any, tp.List[tp.Any]] = {}
    for row in kept:
        settings.setdefault(tuple(str(row[c]) for c in others), []).append(row)
    plain = [c for c in curves if "pure_only" not in c[2]]
    if mon.check(len(plain) == len(settings), "number-of-curves", lambda: f"{what}: {len(plain)} figures for settings {list(settings)}"):
        total = sum(int(np.sum(v["num_eval"])) for data, _, _ in plain for v in data.values())
        mon.check(total == len(kept), "curves-rows", lambda: f"{what}: {total} results plotted of {len(kept)}")
        if not others:
            check_data(plain[0][0], kept, mon, what)
    import shutil

    shutil.rmtree(folder, ignore_errors=True)


def case_known(case: tp.Dict[str, tp.Any], mon: Mon, r: tp.Any) -> None:
    """the inputs on which the recorded defects were found, kept out of the other cases"""
    import pandas as pd
    from nevergrad.benchmark import core, plotting, utils

    path = pathlib.Path(os.environ["VERIF_SCRATCH"]) / f"b04.{os.getpid()}.known.csv"
    for key, old, new in (
        ("append-rounds-last-digits", dict(x=0.1 + 0.2), dict(x=0.5)),
        ("append-drops-na-like-names", dict(x="NA"), dict(x="b")),
        ("append-rounds-huge-integers", dict(x=2**60 + 1), dict(y=1)),
    ):
        with quiet():
            core.save_or_append_to_csv(pd.DataFrame([old]), path)
            core.save_or_append_to_csv(pd.DataFrame([old]), path)
            core.save_or_append_to_csv(pd.DataFrame([new]), path)
        head, lines = read(path)
        mon.event("append")
        for row, vals in zip([old, old, new], lines):
            for c, val in row.items():
                now = dict(zip(head, vals))[c]
                mon.check(now == str(val) or same_number(now, str(val)) and not isinstance(val, int) or now == f"{val}.0" and val == 1, key, lambda: f"appending {new} to a file with {old}: {c} should be {val!r} and is {now!r}")
        os.remove(path)
    for sign in (1, -1):
        df = utils.Selector(pd.DataFrame([dict(optimizer_name=n, loss=sign * float("inf")) for n in "ab"]))
        with quiet():
            found = plotting._make_winners_df(df, ["a", "b"])
        mon.event("winners")
        mon.check(found.loc["a", "b"] == 0.5 == found.loc["b", "a"], "infinite-losses-no-tie", lambda: f"two losses {sign * float('inf')}: {found.to_dict()}")
    df = pd.DataFrame([dict(optimizer_name="ab"[k % 2], loss=float(k), error="") for k in range(6)])
    df.index = [0, 1, 2, 0, 1, 2]  # as concatenated by compute
    with quiet():
        out = plotting.remove_errors(df)
    mon.event("errors-removed")
    mon.check(list(out["loss"]) == [float(k) for k in range(6)], "remove-errors-shared-index", lambda: f"losses {list(out['loss'])} instead of 0 ... 5 for rows of indices 0 1 2 0 1 2")
