"""F01: generated instrumented folders run through the real instantiation and command pipeline under concurrency and failing commands; oracles over instantiated texts, folder digests, leftover temporary files and returned values."""
import ast
import gc
import hashlib
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import typing as tp
from pathlib import Path
import numpy as np
from ..engine import Mon, rng_of

RULE = "a distinct state is (kind of case, file types, number of placeholders, kinds of values, outcome of the command)"
BUDGET_S = {"quick": 60, "thorough": 500}
MIN_EVALS = 4000
CASE_TIMEOUT = 60
HANG_IS_VIOLATION = True
NEED_EVENTS = ("instantiated", "substituted", "digest", "wrong-names", "called", "concurrent-call", "failed-command", "big-output", "refused", "clean-copy", "no-leftover")
ASSUMPTIONS = ["commands only write new files: other files are documented to be symlinked, so that a command could modify them"]

COMMENT = {".py": "#", ".c": "//", ".h": "//", ".cpp": "//", ".hpp": "//", ".m": "%", ".PY": "#", ".Cpp": "//"}
TOKEN = "@nevergrad" + "@"


def cases(tier: str, seed: int) -> tp.List[tp.Dict[str, tp.Any]]:
    n = 520 if tier == "quick" else 9000
    kinds = ["text"] * 5 + ["run"] * 3 + ["command"] * 2 + ["refused"] * 2 + ["copy"]
    return [dict(kind=kinds[k % len(kinds)], seed=seed * 1000000 + k) for k in range(n)]


def digest(folder: Path) -> tp.Dict[str, tp.Any]:
    out: tp.Dict[str, tp.Any] = {}
    for root, dirs, files in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), folder)] = "dir"
        for f in files:
            path = os.path.join(root, f)
            data = open(path, "rb").read() if os.path.exists(path) else b"broken"
            out[os.path.relpath(path, folder)] = hashlib.sha1(data).hexdigest()
    return out


def value_of(r: random.Random, arrays: bool = True) -> tp.Any:
    kind = r.choice(["int", "float", "str", "none", "bool", "list", "tuple", "array", "weird"])
    if kind == "int":
        return r.randint(-(10**9), 10**9)
    if kind == "float":
        return r.choice([r.gauss(0, 100), 1e-300, -0.0, 1e22, 0.1])
    if kind == "str":
        return "".join(r.choice("abcXYZ09 _'\"\\\n\t{}|#/%é") for _ in range(r.randint(0, 12)))
    if kind == "none":
        return None
    if kind == "bool":
        return r.random() < 0.5
    if kind == "list":
        return [value_of(r, False) for _ in range(r.randint(0, 3))]
    if kind == "tuple":
        return tuple(value_of(r, False) for _ in range(r.randint(0, 3)))
    if kind == "array" and arrays:
        shape = r.choice([(2,), (1,), (2, 2), (3, 1), (0,)])
        data = np.array([r.gauss(0, 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return data.astype(int) if r.random() < 0.3 else data
    return r.choice(["NG_ARG" + "{other}", "\\1\\g<name>", "[1, 2]", "{x}"])


LITERALS = ["x = 1\n", "  y\n", "\n", "a NG_ARG b {}\n", "# comment\n", "}\n", "\\d+ $1\n", "text with | and {name}\n", "tab\there\n", "NG_ARG" + "{}\n", "é\n"]


def file_text(r: random.Random, ext: str, names: tp.List[str]) -> tp.Tuple[str, tp.List[tp.Any]]:
    """source text, and expected output as a list of literals and names"""
    src: tp.List[str] = []
    out: tp.List[tp.Any] = []

    def literal(text: str) -> None:
        src.append(text)
        out.append(text)

    for name in names:
        for _ in range(r.randint(0, 3)):
            literal(r.choice(LITERALS))
        hole = "NG_ARG" + "{" + name + (r.choice(["|a comment", "|c:1 [x]"]) if r.random() < 0.4 else "") + "}"
        before, after = r.choice(["v = ", "", "f(", "call("]), r.choice(["", ")", "; // end", "suffix"])
        if r.random() < 0.5:
            indent = " " * r.choice([0, 2, 4])
            src.append(indent + COMMENT[ext] + " " * r.randint(0, 2) + TOKEN + " " * r.randint(0, 2) + before + hole + after + "\n")
            out.append(indent + before)
        else:
            src.append(before + hole + after + "\n")
            out.append(before)
        out.append((name,))
        out.append(after + "\n")
    if r.random() < 0.5:
        literal("last line" + r.choice(["", "\n", "\n\n"]))
    return "".join(src), out


def make_tree(r: random.Random, folder: Path) -> tp.Tuple[tp.Dict[str, tp.Tuple[str, tp.List[tp.Any]]], tp.List[str]]:
    folder.mkdir(parents=True)
    dirs = [folder]
    for k in range(r.randint(0, 4)):
        d = r.choice(dirs) / r.choice([f"sub{k}", f"with space {k}", f"été{k}"])
        d.mkdir()
        dirs.append(d)
    count = r.randint(1, 5)
    names = [r.choice(["value", "x", "NG", "Long_name_", "_p", "9"]) + str(k) for k in range(count)]
    parts: tp.List[tp.List[str]] = [[] for _ in range(r.randint(1, 3))]
    for name in names:
        r.choice(parts).append(name)
    files: tp.Dict[str, tp.Tuple[str, tp.List[tp.Any]]] = {}
    for k, part in enumerate(parts):
        if not part:
            continue
        ext = r.choice(sorted(COMMENT))
        path = r.choice(dirs) / f"file{k}{ext}"
        text, out = file_text(r, ext, part)
        path.write_text(text, encoding="utf8")
        files[str(path.relative_to(folder))] = (ext, out)
    for k in range(r.randint(0, 4)):
        path = r.choice(dirs) / r.choice([f"data{k}.bin", f"plain{k}.py", f"notes{k}.txt", f".hidden{k}"])
        data = b"print(1)\n" if path.suffix == ".py" else bytes(r.randrange(256) for _ in range(r.randint(0, 50)))
        path.write_bytes(data)
    return files, names


def text_ok(ext: str, out: tp.List[tp.Any], values: tp.Dict[str, tp.Any], text: str) -> tp.Optional[str]:
    """None if the text is as expected, else why"""
    pos = 0
    for k, item in enumerate(out):
        if isinstance(item, str):
            if not text.startswith(item, pos):
                return f"expected {item!r}, found {text[pos:pos + 60]!r}"
            pos += len(item)
        else:
            value = values[item[0]]
            rest = "".join(x for x in out[k + 1 : k + 2])
            if isinstance(value, np.ndarray):
                want = repr(value.tolist())
                if ext.lower() in (".c", ".h", ".cpp", ".hpp"):
                    want = want.replace("[", "{").replace("]", "}")
            else:
                want = repr(value)
            if not text.startswith(want + rest, pos):
                return f"expected {want!r} for {value!r}, found {text[pos:pos + 60]!r}"
            pos += len(want)
            if ext.lower() == ".py" and not isinstance(value, float):
                back = ast.literal_eval(want)
                assert np.array_equal(back, value) if isinstance(value, np.ndarray) else back == value
    return None if pos == len(text) else f"unexpected end {text[pos:]!r}"


class Scratch:
    """all temporary files of the case are created (and looked for) there"""

    def __enter__(self) -> "Scratch":
        self.path = Path(tempfile.mkdtemp(prefix="verif_f01_"))
        self.tmp = self.path / "tmp"
        self.tmp.mkdir()
        self.previous = tempfile.tempdir
        self.env = os.environ.pop("CLEAN_COPY_DIRECTORY", None)
        tempfile.tempdir = str(self.tmp)
        self.cwd = os.getcwd()
        return self

    def __exit__(self, *args: tp.Any) -> None:
        tempfile.tempdir = self.previous
        os.chdir(self.cwd)
        os.environ.pop("CLEAN_COPY_DIRECTORY", None)
        if self.env is not None:
            os.environ["CLEAN_COPY_DIRECTORY"] = self.env
        shutil.rmtree(str(self.path), ignore_errors=True)


def run_case(case: tp.Dict[str, tp.Any], mon: Mon) -> None:
    r = rng_of(case)
    with Scratch() as scratch:
        {"text": text, "run": run, "command": command, "refused": refused, "copy": clean_copy}[case["kind"]](case, mon, r, scratch)


def leftovers(mon: Mon, scratch: Scratch, what: str, allowed: int = 0) -> None:
    mon.event("no-leftover")
    left = sorted(os.listdir(scratch.tmp))
    mon.check(len(left) == allowed, "temporary-files-left", lambda: f"{what}: {left} left in the temporary directory")


def text(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random, scratch: Scratch) -> None:
    from nevergrad.parametrization import instantiate

    folder = scratch.path / r.choice(["project", "with space", "pro.ject"])
    files, names = make_tree(r, folder)
    before = digest(folder)
    copy = r.random() < 0.3
    inst = instantiate.FolderInstantiator(folder if r.random() < 0.5 else str(folder), clean_copy=copy)
    mon.check(sorted(p.name for p in inst.placeholders) == sorted(names), "placeholders", lambda: f"placeholders {inst.placeholders}, expected {names}")
    for _ in range(3):
        values = {name: value_of(r) for name in names}
        what = f"{sorted(files)} with {values}"
        with inst.instantiate(**values) as out:
            mon.event("instantiated")
            mon.check(scratch.tmp in out.parents, "instantiated-elsewhere", lambda: f"{what}: instantiated in {out}")
            after = digest(out)
            mon.check(set(after) == set(before), "other-files", lambda: f"{what}: files {sorted(after)}, expected {sorted(before)}")
            for path, code in before.items():
                if path not in files:
                    mon.check(after.get(path) == code, "other-content", lambda: f"{what}: content of {path} differs")
            for path, (ext, expected) in files.items():
                got = (out / path).read_bytes().decode("utf8")
                why = text_ok(ext, expected, values, got)
                mon.event("substituted")
                mon.check(why is None, "wrong-text", lambda: f"{path} with {values}: {why}")
                # writing in the private copy of an instrumented file does not reach the original
                (out / path).write_text("modified")
            (out / "new.txt").write_text("new")
        mon.check(not out.exists(), "instance-left", lambda: f"{what}: {out} still exists")
        mon.event("digest")
        mon.check(digest(folder) == before, "original-modified", lambda: f"{what}: the original folder was modified")
        leftovers(mon, scratch, what, int(copy))
    # wrong names
    values = {name: value_of(r) for name in names}
    wrong = dict(values)
    mode = r.choice(["missing", "extra", "renamed"])
    if mode != "extra":
        wrong.pop(r.choice(names))
    if mode != "missing":
        wrong["unknown_name"] = 1
    mon.event("wrong-names")
    try:
        with inst.instantiate(**wrong):
            mon.violate("wrong-names", f"names {sorted(wrong)} accepted for placeholders {sorted(names)}")
    except (AssertionError, KeyError, RuntimeError, ValueError):
        pass
    leftovers(mon, scratch, f"refused names {sorted(wrong)}", int(copy))
    # the body fails
    try:
        with inst.instantiate(**values):
            raise ZeroDivisionError
    except ZeroDivisionError:
        pass
    leftovers(mon, scratch, "error in the context", int(copy))
    # explicit folder
    target = scratch.path / "out" / "deep"
    inst.instantiate_to_folder(target, values)
    for path, (ext, expected) in files.items():
        why = text_ok(ext, expected, values, (target / path).read_bytes().decode("utf8"))
        mon.check(why is None and not (target / path).is_symlink(), "wrong-text", lambda: f"{path} with {values}: {why}")
    mon.check(digest(folder) == before, "original-modified", lambda: "instantiate_to_folder: the original folder was modified")
    mon.seen("text", tuple(sorted(x[0] for x in files.values())), len(names), copy, mode)


SCRIPT = """import sys, os, json
# {token} a = {a}
# {token} b = {b}
sys.path.insert(0, "project/sub")
import data
print("noise", data.c)
{extra}
with open("project/created", "w") as f:
    f.write("x")
print("total"); print(repr(a * 2 + b + data.c)){end}
"""


def run(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random, scratch: Scratch) -> None:
    from nevergrad.parametrization import FolderFunction, utils

    folder = scratch.path / "project"
    (folder / "sub").mkdir(parents=True)
    mode = r.choice(["fine", "fine", "fine", "big", "exit", "kill", "silent", "text", "sometimes"])
    extra = {
        "big": "sys.stderr.write('e' * 300000); sys.stderr.flush(); print('o' * 300000)",
        "exit": "sys.stderr.write('my ' + 'message %s' % a); sys.stderr.flush(); sys.exit(3)",
        "kill": "sys.stdout.flush(); os.kill(os.getpid(), 9)",
        "silent": "sys.stdout.flush(); os._exit(0)",
        "sometimes": "a > 0 or sys.exit('negative %s' % a)",
    }.get(mode, "pass")
    if mode == "silent":
        extra = "os.dup2(os.open(os.devnull, os.O_WRONLY), 1)"
    end = "; print('not a number')" if mode == "text" else r.choice(["", "; print()", "; sys.stderr.write('warning')"])
    script = SCRIPT.format(token=TOKEN, a="NG_ARG" + "{a}", b="NG_ARG" + "{b|comment}", extra=extra, end=end)
    (folder / "main.py").write_text(script)
    (folder / "sub" / "data.py").write_text("c = NG_ARG" + "{c}\n")
    (folder / "README").write_text("readme")
    before = digest(folder)
    copy = r.random() < 0.3
    func = FolderFunction(folder, [sys.executable, "-I", "-S", "-B", "project/main.py"], clean_copy=copy)
    threads = r.choice([1, 3, 6])
    results: tp.List[tp.Any] = []

    def work(seed: int) -> None:
        rr = random.Random(seed)
        for _ in range(2):
            values = {"a": rr.gauss(0, 10), "b": rr.randint(-5, 5), "c": rr.random()}
            try:
                results.append((values, func(**values), None))
            except Exception as e:  # pylint: disable=broad-except
                results.append((values, None, e))

    workers = [threading.Thread(target=work, args=(r.randrange(2**31),)) for _ in range(threads)]
    for w in workers:
        w.start()
    for w in workers:
        w.join()
    mon.check(len(results) == 2 * threads, "lost-call", lambda: f"{mode}: {len(results)} outcomes for {2 * threads} calls")
    for values, out, error in results:
        mon.event("concurrent-call" if threads > 1 else "called")
        fails = mode in ("exit", "kill", "silent", "text") or mode == "sometimes" and values["a"] <= 0
        if mode == "big":
            mon.event("big-output")
        if not fails:
            expected = values["a"] * 2 + values["b"] + values["c"]
            mon.check(error is None and out == expected, "wrong-output", lambda: f"{mode}, {values}: returned {out} ({error!r}), expected {expected}")
            continue
        mon.event("failed-command")
        if not mon.check(error is not None, "failure-hidden", lambda: f"{mode}, {values}: returned {out}"):
            continue
        if mode in ("exit", "sometimes", "kill"):
            mon.check(isinstance(error, utils.FailedJobError), "failure-type", lambda: f"{mode}: raised {error!r}")
        if mode in ("exit", "sometimes"):
            message = f"{'my message' if mode == 'exit' else 'negative'} {values['a']}"
            mon.check(message in str(error), "error-output-lost", lambda: f"{mode}: error {error!r}, expected {message}")
    mon.check(digest(folder) == before, "original-modified", lambda: f"{mode}: the original folder was modified: {digest(folder)}")
    leftovers(mon, scratch, f"{mode} with {threads} threads", int(copy))
    mon.seen("run", mode, threads, copy, end)


ECHO = "import sys, os; o=%d; e=%d; sys.stdout.write('x' * o + ('\\n' if o else '')); sys.stderr.write('y' * e); sys.stdout.flush(); sys.stderr.flush(); print(repr(sys.argv[1:])); print(os.getcwd()); print(os.environ.get('VERIF_X')); sys.exit(%d)"


def command(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random, scratch: Scratch) -> None:
    from nevergrad.parametrization import utils

    code = r.choice([0, 0, 0, 1, 7])
    out, err = r.choice([0, 10, 200000]), r.choice([0, 10, 100000, 400000])
    base = [sys.executable, "-I", "-S", "-B", "-c", ECHO % (out, err, code)]
    initial = list(base)
    where = scratch.path / "where"
    where.mkdir()
    env = {"VERIF_X": "a b"} if r.random() < 0.4 else None
    func = utils.CommandFunction(base, cwd=r.choice([where, str(where)]), env=env)
    args = [r.choice([1, 2.5, "a b", "--x", "", "$HOME", "é", True, None]) for _ in range(r.randint(0, 3))]
    kwargs = {f"k{i}": r.choice([1, -2.5, "a b", "", None]) for i in range(r.randint(0, 2))}
    what = f"{args} {kwargs} out={out} err={err} code={code}"
    quiet = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    stderr, sys.stderr = sys.stderr, open(os.devnull, "w")
    try:
        got = func(*args, **kwargs)
    except utils.FailedJobError as e:
        mon.event("failed-command")
        mon.check(code != 0, "spurious-failure", lambda: f"{what}: {str(e)[:200]}")
        mon.check("y" * err in str(e), "error-output-lost", lambda: f"{what}: error output has {len(str(e))} characters")
        if err > 10:
            mon.event("big-output")
    else:
        mon.event("called")
        if mon.check(code == 0, "failure-hidden", lambda: f"{what}: no error"):
            lines = got.splitlines()
            if err > 10 or out > 10:
                mon.event("big-output")
            want = [str(a) for a in args] + [f"--{k}={v}" for k, v in kwargs.items()]
            expected = (["x" * out] if out else []) + [repr(want), os.path.realpath(where), repr(None if env is None else "a b").strip("'")]
            mon.check(lines == expected, "wrong-command-output", lambda: f"{what}: {[l[:80] for l in lines]}, expected {[l[:80] for l in expected]}")
    finally:
        sys.stderr.close()
        sys.stderr = stderr
        os.close(quiet)
        os.close(null)
    mon.check(base == initial, "command-modified", lambda: f"{what}: the command is modified")
    leftovers(mon, scratch, what)
    mon.seen("command", code, out, err, len(args), len(kwargs), env is None)


def refused(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random, scratch: Scratch) -> None:
    from nevergrad.parametrization import FolderFunction

    def hole(name: str) -> str:
        return "NG_ARG" + "{" + name + "}"

    folder = scratch.path / "project"
    (folder / "sub").mkdir(parents=True)
    (folder / "main.py").write_text(f"a = {hole('a')}\nprint(a)\n")
    mode = r.choice(["same-file", "other-file", "none", "deprecated", "bad-token", "custom", "custom", "absent", "string-command"])
    arg: tp.Any = ["echo", "3"]
    ok = False
    where: tp.Any = folder
    if mode == "same-file":
        (folder / "sub" / "b.c").write_text(f"{hole('b')} {hole('b')}\n")
    elif mode == "other-file":
        (folder / r.choice([".", "sub"]) / r.choice(["b.c", "z.py", "k.m"])).write_text(f"{hole('b')}, {hole('a')}\n")
    elif mode == "none":
        (folder / "main.py").write_text("print(1)\n")
    elif mode == "deprecated":
        (folder / "sub" / "b.py").write_text("x = NG_" + r.choice(["G", "OD", "SC"]) + "{1, 2}\n")
    elif mode == "bad-token":
        (folder / "sub" / "b.py").write_text(f"x // {TOKEN} {hole('b')}\n")
    elif mode == "absent":
        where = scratch.path / "missing"
    elif mode == "string-command":
        arg = "echo 3"
    else:
        suffix = r.choice([".R", ".lua", ".ml", ".sql", "jl", ".F90"])
        chars = {".R": "#", ".lua": "--", ".ml": "(*", ".sql": "--", "jl": "#", ".F90": "!"}[suffix]
        from nevergrad.parametrization import instantiate

        saved = dict(instantiate.COMMENT_CHARS)
        FolderFunction.register_file_type(suffix, chars)
        dot = suffix if suffix.startswith(".") else "." + suffix
        (folder / "sub" / ("b" + dot)).write_text(f"first\n  {chars} {TOKEN} y = {hole('b')}\nend\n")
        try:
            func = FolderFunction(folder, arg)
            mon.check(sorted(p.name for p in func.placeholders) == ["a", "b"], "registered-type-ignored", lambda: f"registered {suffix}: placeholders {func.placeholders}")
            with func.instantiator.instantiate(**{p.name: 12 for p in func.placeholders}) as out:
                got = (out / "sub" / ("b" + dot)).read_text()
            mon.check(got == "first\n  y = 12\nend\n", "registered-type-text", lambda: f"registered {suffix} {chars}: {got!r}")
        finally:
            instantiate.COMMENT_CHARS.clear()
            instantiate.COMMENT_CHARS.update(saved)
        ok = True
    mon.event("refused")
    mon.seen("refused", mode)
    if ok:
        return
    before = digest(folder)
    func: tp.Any = None
    try:
        func = FolderFunction(where, arg, clean_copy=r.random() < 0.3)
        if mode == "string-command":
            func(a=1)
    except (RuntimeError, AssertionError, TypeError, OSError):
        pass
    else:
        mon.violate(f"accepted:{mode}", f"{mode}: accepted with placeholders {func.placeholders}")
    func = None
    gc.collect()
    mon.check(digest(folder) == before, "original-modified", lambda: f"{mode}: the original folder was modified")
    leftovers(mon, scratch, mode)


def clean_copy(case: tp.Dict[str, tp.Any], mon: Mon, r: random.Random, scratch: Scratch) -> None:
    """later modifications of the original do not reach a clean copy"""
    from nevergrad.parametrization import FolderFunction, utils

    folder = scratch.path / "project"
    folder.mkdir()
    (folder / "main.py").write_text("import sys; sys.path.insert(0, 'project')\nimport other\nprint(NG_ARG" + "{a} + other.value)\n")
    (folder / "other.py").write_text("value = 100\n")
    where: tp.Any = folder
    style = r.choice(["path", "string", "dot", "relative", "home"])
    home = os.environ.get("HOME")
    if style == "string":
        where = str(folder) + r.choice(["", "/"])
    elif style == "dot":
        os.chdir(folder)
        where = "."
    elif style == "relative":
        os.chdir(scratch.path)
        where = "project"
    elif style == "home":
        os.environ["HOME"] = str(scratch.path)
        where = "~/project"
    other = scratch.path / "copies"
    if r.random() < 0.4:
        other.mkdir()
        utils.TemporaryDirectoryCopy.set_clean_copy_environment_variable(other)
    try:
        func = FolderFunction(where, [sys.executable, "-I", "-S", "-B", "project/main.py"], clean_copy=True)
    finally:
        if home is not None:
            os.environ["HOME"] = home
    os.chdir(scratch.cwd)
    change = r.choice(["modified", "deleted", "untouched"])
    if change == "modified":
        (folder / "other.py").write_text("value = -1\n")
        (folder / "main.py").write_text("print(0)\n")
    elif change == "deleted":
        shutil.rmtree(str(folder))
    mon.event("clean-copy")
    value = r.randint(0, 50)
    mon.check(func(a=value) == 100 + value, "clean-copy-follows-original", lambda: f"{style}, original {change}: {func.last_full_output}")
    if other.exists():
        mon.check(len(os.listdir(other)) == 1, "clean-copy-elsewhere", lambda: f"copies in {os.listdir(other)}")
    del func
    gc.collect()
    leftovers(mon, scratch, f"{style}, original {change}")
    if other.exists():
        mon.check(not os.listdir(other), "temporary-files-left", lambda: f"{os.listdir(other)} left in the directory of copies")
    mon.seen("copy", style, change, other.exists())
