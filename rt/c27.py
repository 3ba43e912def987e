from rt.core import *  # noqa: F403
from rt.c18 import run
import ast
import builtins
import importlib.util
import json
import os
import shutil
import sys
import tempfile
import textwrap
import warnings

import logging
logging.getLogger("effectful.handlers.llm.evaluation").setLevel(logging.ERROR)

V = "effectful.handlers.llm.evaluation."
NAMES = ["a", "b", "c", "f"]


def providers(rng):
    from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
    return rng.choice([UnsafeEvalProvider, RestrictedEvalProvider])()


def execute(provider, src, env, name="<rt>"):
    from effectful.handlers.llm import evaluation as ev
    from effectful.ops.semantics import handler
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with handler(provider):
            code = ev.compile(ev.parse(src, name), name)
            ev.exec(code, env)


def statements(rng, n):
    """Random statements in the common subset of both providers."""
    def expr():
        return rng.choice([lambda: str(rng.randint(0, 9)), lambda: rng.choice(NAMES), lambda: f"({rng.choice(NAMES)} + {rng.choice(NAMES)})", lambda: repr("t"), lambda: f"[{rng.choice(NAMES)}]", lambda: "len('abc')", lambda: "True", lambda: "1.0"])()
    out = []
    for _ in range(n):
        x = rng.choice(NAMES)
        out.append(rng.choice([
            lambda: f"{x} = {expr()}", lambda: f"{x} = {expr()}", lambda: f"{x} = {rng.choice(NAMES)} = {expr()}", lambda: f"del {x}", lambda: f"def {x}(q):\n    return (q, {expr()})", lambda: f"if {expr()}:\n    {x} = 1\nelse:\n    {rng.choice(NAMES)} = 2",
            lambda: f"for {x} in [1, 2]:\n    {rng.choice(NAMES)} = {x}", lambda: f"class {x}:\n    v = {expr()}", lambda: f"try:\n    {x} = {expr()}\nexcept TypeError:\n    {x} = None", lambda: f"{x} = [w for w in [{expr()}]]", lambda: "1 / 0", lambda: f"{x} = {rng.choice(NAMES)}(1)", lambda: f"({x} := {expr()})",
            lambda: f"{x} = [1, 2]\n{x}[0] = {expr()}", lambda: f"{x} = {{'k': 1}}\n{x}['k'] = 2", lambda: f"class {x}:\n    v = 1\n{x}.v = {expr()}",
            lambda: "pass"])())
    return "\n".join(out) + "\n"


def plainly(v, seen=()):
    """A value to compare between runs."""
    if id(v) in seen:
        return "..."
    seen = (*seen, id(v))
    import types
    if isinstance(v, types.FunctionType):
        return ("function", v.__name__)
    if isinstance(v, type):
        return ("class", v.__name__, plainly(getattr(v, "v", None), seen))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [plainly(x, seen) for x in v])
    return (type(v).__name__, v)


@contract("C27", "execution", [V + "UnsafeEvalProvider.exec", V + "RestrictedEvalProvider.exec", V + "exec"],
          "random programs (bindings, rebindings, deletions, functions, classes, loops, failing statements) in random environments, under both providers: the environment afterwards holds what running the program in a plain dictionary gives, also when it raises the same error; objects of the environment are the same objects; names not in it are not defined; other environments and the builtins are untouched", "programs of up to 7 statements")
def execution(t):
    def one(rng):
        src = statements(rng, rng.randint(1, 7))
        shared = [7]
        start = {x: rng.choice([1, "s", shared, None]) for x in NAMES if rng.random() < .6}

        def copy(e):
            return {k: list(v) if v is shared else v for k, v in e.items()}
        ref, out = copy(start), None
        try:
            exec(compile(src, "<ref>", "exec"), ref)
        except Exception as e:
            out = type(e).__name__
        env, other = copy(start), {"a": 1}
        kept = dict(env)
        bs = dict(vars(builtins))
        p = providers(rng)
        try:
            execute(p, src, env)
            got = None
        except Exception as e:
            got = type(e).__name__
        what = f"{type(p).__name__} {src!r} in {start}"
        eq(got, out, f"{what}: the error")
        ref.pop("__builtins__", None)
        env.pop("__builtins__", None)
        eq({k: plainly(v) for k, v in sorted(env.items())}, {k: plainly(v) for k, v in sorted(ref.items())}, what)
        for k, v in kept.items():
            if k in env and not any(s in src for s in (f"{k} =", f"{k} :=", f"for {k} ", f"def {k}(", f"class {k}:", f"except {k}", f"del {k}")):
                is_(env[k], v, f"{what}: the object {k}")
        eq(other, {"a": 1}, "another environment")
        require(dict(vars(builtins)) == bs, f"{what}: builtins changed")
        return None if out is None else "trivial"
    for k, rng in t.each(t.n(300, 6000)):
        yield k, (lambda rng=rng: one(rng))

    def printing():
        import contextlib
        import io
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
        for p in (UnsafeEvalProvider(), RestrictedEvalProvider()):
            env, buf = {"x": 3}, io.StringIO()
            with contextlib.redirect_stdout(buf):
                execute(p, "print(x, 'y', sep='-')\ndef f():\n    print('in f', end='!')\nf()\n", env)
            eq(buf.getvalue(), "3-y\nin f!", "what is printed")
            eq(sorted(k for k in env if k != "__builtins__"), ["f", "x"], f"the names bound by printing code ({type(p).__name__})")
    yield "printing", printing

    def elsewhere():
        """What is printed to a file of one's own goes there and nowhere else."""
        import contextlib
        import io
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
        for p in (UnsafeEvalProvider(), RestrictedEvalProvider()):
            mine, buf = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(buf):
                execute(p, "print('here')\nprint('there', file=mine)\nprint('back', file=None)\n", {"mine": mine})
            eq((mine.getvalue(), buf.getvalue()), ("there\n", "here\nback\n"), f"what is printed where ({type(p).__name__})")
    yield "elsewhere", elsewhere

    def sourced(rng):
        """Code given to a session as text runs as parsed and compiled by the provider."""
        from effectful.handlers.llm import evaluation as ev
        from effectful.ops.semantics import handler
        src = rng.choice(["x = a + 1\ny = x\n", "def f():\n    return a\nx = f()\n", "x =", "x = missing\n", "for i in [1, 2]:\n    x = i + a\n"])
        s, seen = ev.ReplSession({"a": 5}), []
        p = providers(rng)
        name = f"<rt27-src{rng.randrange(10**6)}>"
        with handler(p), handler({ev.exec: lambda c, env: (seen.append(c.co_filename), __import__("effectful.ops.semantics", fromlist=["fwd"]).fwd())[1]}):
            import contextlib
            import io
            with contextlib.redirect_stderr(io.StringIO()):
                more = s.runsource(src, name)
        eq(more, False, f"{src!r} is complete")
        ok = src != "x ="
        eq(seen, [name] if ok else [], f"what runs of {src!r}")
        v = {"x = a": 6, "def f": 5, "for i": 7}.get(src[:5])
        eq(s.locals.get("x"), v, f"x after {src!r}")
        if ok:
            import linecache
            eq("".join(linecache.getlines(name)), src, "its source")
    for k, rng in t.each(t.n(30, 200), "sourced"):
        yield k, (lambda rng=rng: sourced(rng))


FORBIDDEN = ["y = x.__class__", "y = ().__class__.__bases__", "__import__('os')", "import_ = __builtins__", "x.__dict__ = 1", "_hidden = 1", "y = __name__", "def _f():\n    return 1", "async def f():\n    return 1", "y = (lambda _q: 1)(2)", "class A(metaclass=type):\n    __slots__ = ()\n    def m(self):\n        return self.__x", "exec('1')", "eval('1')", "for _i in x:\n    y = 1", "y = [_i for _i in x]", "x._private", "del x._private", "import _thread", "from os import _exit", "match x:\n    case 1:\n        y = 1", "y: int = 3", "getattr_ = x.f_globals", "y = x.gi_frame", "with x as _t:\n    pass", "def f():\n    nonlocal_ = x.__mro__"]
ABSENT = ["open", "compile", "globals", "locals", "vars", "input", "memoryview", "ast", "os", "subprocess", "linecache", "sys", "codeop", "tempfile", "shutil", "inspect", "logging", "typing", "Guards", "safe_globals", "rglobals", "env", "self", "bytecode", "before", "parse", "type_check", "RestrictedEvalProvider", "help", "exit", "quit", "type"]


@contract("C27", "restriction", [V + "RestrictedEvalProvider.compile", V + "RestrictedEvalProvider.exec"],
          "under the restricted evaluator each forbidden construct, alone or after or inside other code, is refused when compiled, before anything runs; names that are neither in the environment nor permitted builtins are undefined; forbidden attributes reached through getattr, setattr or format raise; the environment cannot replace the restricted builtins; imports fail", "25 constructs, 32 names")
def restriction(t):
    def forbidden(src, how):
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider
        ran = []
        env = {"x": [1], "mark": lambda: ran.append(1)}
        code = {0: src, 1: "mark()\n" + src, 2: "mark()\ndef outer(x):\n" + textwrap.indent(src, "    ") + "\n", 3: "mark()\nif x:\n" + textwrap.indent(src, "    ") + "\n"}[how] + "\n"
        before = dict(env)
        r = run(lambda: execute(RestrictedEvalProvider(), code, env))
        eq(r, ("exc", "SyntaxError"), f"{code!r} is refused")
        eq(ran, [], f"{code!r} runs nothing")
        eq(env, before, f"{code!r} leaves the environment")
    for i, src in enumerate(FORBIDDEN):
        for how in range(4):
            yield f"forbidden{i}/{how}", (lambda src=src, how=how: forbidden(src, how))

    def absent(name, how):
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider
        src = {0: f"y = {name}", 1: f"def f():\n    return {name}\ny = f()", 2: f"y = (lambda: {name})()"}[how]
        env = {"x": 1, "__builtins__": {name: 1, "y": 2}}
        eq(run(lambda: execute(RestrictedEvalProvider(), src, env)), ("exc", "NameError"), f"{src!r}: {name} is not defined")
        require("y" not in env, f"{src!r} binds y")
        given = object()
        env = {name: given}
        execute(RestrictedEvalProvider(), src, env)
        is_(env["y"], given, f"{name} as given")
    for name in ABSENT:
        for how in range(3):
            yield f"{name}/{how}", (lambda name=name, how=how: absent(name, how))

    def guards():
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider

        class Obj:
            field = 1
        o = Obj()
        for src, err in [("y = getattr(o, '__class__')", "NotImplementedError,AttributeError"), ("y = getattr(o, '_x', 1)", "AttributeError,NotImplementedError"), ("import os", "ImportError"), ("from os import path", "ImportError"), ("y = '{0.__class__}'.format(o)", "NotImplementedError,AttributeError"), ("y = getattr('', 'format')", "NotImplementedError,AttributeError"), ("setattr(o, '__class__', 1)", "TypeError,AttributeError,NotImplementedError"), ("y = unknown", "NameError"), ("setattr(o, 'field', 2)", "TypeError"), ("setattr(o, '_secret', 2)", "TypeError,AttributeError")]:
            env = {"o": o}
            r = run(lambda: execute(RestrictedEvalProvider(), src, env))
            require(r[0] == "exc" and r[1] in err.split(","), f"{src!r}: {r!r}")
            eq(set(env) - {"__builtins__"}, {"o"}, f"{src!r}: the environment")
        env = {"o": o}
        execute(RestrictedEvalProvider(), "y = o.field\nz = getattr(o, 'field')\nw = getattr(o, 'none', 5)\n", env)
        eq((env["y"], env["z"], env["w"]), (1, 1, 5), "permitted attributes")
        env = {"getattr": 5}
        execute(RestrictedEvalProvider(), "x = 1", env)
        eq(env, {"getattr": 5, "x": 1}, "a name of the environment like a guard")
    yield "guards", guards


@contract("C27", "restriction of one's own", [V + "RestrictedEvalProvider.__init__", V + "RestrictedEvalProvider.compile"],
          "a restricted evaluator with a policy of one's own refuses, before anything runs, exactly what that policy refuses", "8 constructs, policies forbidding any of them")
def own_policy(t):
    from RestrictedPython import RestrictingNodeTransformer
    from effectful.handlers.llm.evaluation import RestrictedEvalProvider
    kinds = {"While": "while x:\n    x = 0\n", "For": "for i in [1]:\n    y = i\n", "FunctionDef": "def f():\n    return 1\n", "ClassDef": "class K:\n    v = 1\n", "Lambda": "y = (lambda q: q)(1)\n", "Dict": "y = {1: 2}\n", "Try": "try:\n    y = 1\nfinally:\n    z = 2\n", "Delete": "y = 1\ndel y\n"}

    def one(rng):
        no = {k for k in kinds if rng.random() < .4}

        def refuse(self, node):
            self.error(node, "refused")
        pol = type("Policy", (RestrictingNodeTransformer,), {f"visit_{k}": refuse for k in no})
        k = rng.choice(list(kinds))
        env = {"x": 1, "ran": []}
        got = run(lambda: execute(RestrictedEvalProvider(policy=pol), "ran.append(1)\n" + kinds[k], env))
        if k in no:
            eq((got[0], env["ran"]), ("exc", []), f"{kinds[k]!r} with {sorted(no)} forbidden: {got}")
        else:
            eq((got, env["ran"]), (("ok", None), [1]), f"{kinds[k]!r} with {sorted(no)} forbidden")
    for k, rng in t.each(t.n(40, 300)):
        yield k, (lambda rng=rng: one(rng))


@contract("C27", "parsing and compiling", [V + "UnsafeEvalProvider.parse", V + "UnsafeEvalProvider.compile", V + "RestrictedEvalProvider.parse", V + "RestrictedEvalProvider.compile"],
          "parsing and compiling random programs under both providers runs nothing, changes neither environment, builtins nor modules, gives the tree of the source and keeps its lines for tracebacks and inspect, also of several sources; text that does not parse raises SyntaxError", "programs of up to 7 statements")
def parsing(t):
    def one(rng):
        import inspect
        import linecache
        from effectful.handlers.llm import evaluation as ev
        from effectful.ops.semantics import handler
        p = providers(rng)
        mods, bs, cwd = set(sys.modules), dict(vars(builtins)), os.getcwd()
        made = []
        with handler(p):
            for i in range(rng.randint(1, 4)):
                src = statements(rng, rng.randint(0, 5)) + rng.choice(["", "def g(x):\n    # text\n    return x"])
                name = f"<rt27-{i}>"
                m = ev.parse(src, name)
                eq(ast.dump(m, include_attributes=True), ast.dump(ast.parse(src), include_attributes=True), f"the tree of {src!r}")
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    c = ev.compile(m, name)
                eq(c.co_filename, name, "the file name")
                made.append((src, name))
            for src, name in made:
                eq("".join(linecache.getlines(name)), src, "the lines kept")
            for bad in ["x =", "def", "(", "\n  x = 1\n y", "return", "\0"]:
                r = run(lambda: ev.compile(ev.parse(bad, "<bad>"), "<bad>"))
                require(r in (("exc", "SyntaxError"), ("exc", "IndentationError")), f"{bad!r}: {r!r}")
            env = {}
            ev.exec(ev.compile(ev.parse("def g(x):\n    # text\n    return x\n", "<rt27-g>"), "<rt27-g>"), env)
            eq(inspect.getsource(env["g"]), "def g(x):\n    # text\n    return x\n", "the source of a function")
        require(dict(vars(builtins)) == bs and os.getcwd() == cwd, "builtins and directory")
        require(not {m for m in set(sys.modules) - mods if m.startswith("rt27")}, "modules")
    for k, rng in t.each(t.n(60, 800)):
        yield k, (lambda rng=rng: one(rng))

    def unhandled():
        from effectful.handlers.llm import evaluation as ev
        for f in (lambda: ev.parse("1", "<x>"), lambda: ev.compile(ast.parse("1"), "<x>"), lambda: ev.exec(compile("1", "<x>", "exec"), {}), lambda: ev.type_check("1")):
            eq(run(f), ("exc", "NotImplementedError"), "without a provider")
    yield "unhandled", unhandled


class Fake:
    """Stands for the subprocess module: gives prepared type checker output."""

    def __init__(self, out, status=0, err="", exc=None):
        self.out, self.status, self.err, self.exc, self.seen = out, status, err, exc, []

    def run(self, cmd, **kw):
        path = next(c for c in cmd if str(c).endswith(".py"))
        self.seen.append((path, open(path, encoding="utf-8").read(), list(cmd)))
        if self.exc:
            raise self.exc
        import subprocess
        return subprocess.CompletedProcess(cmd, self.status, self.out, self.err)


@contract("C27", "error regions", [V + "_region_errors", V + "_mypy_check_region"],
          "random type checker output (errors, notes, warnings at random lines, blank lines) and regions, open or closed at either end: a TypeError naming exactly the errors in the region, nothing without such; a failing checker is a RuntimeError; the source is given to it as it is and nothing is left behind, also when it fails", "up to 8 diagnostics")
def regions(t):
    def one(rng):
        from effectful.handlers.llm import evaluation as ev
        from effectful.ops.semantics import handler
        ds = []
        for i in range(rng.randint(0, 8)):
            ds.append({"file": "x.py", "line": rng.randint(1, 12), "column": 0, "message": f'm{i}; é "q"', "hint": None, "code": "c", "severity": rng.choice(["error", "error", "note", "warning"])})
        lo, hi = rng.choice([None, rng.randint(1, 12)]), rng.choice([None, rng.randint(1, 12)])
        out = "".join(json.dumps(d) + rng.choice(["\n", "\n\n", "\r\n"]) for d in ds)
        kind = rng.choice(["ok"] * 6 + ["fatal", "raises", "garbage"])
        fake = Fake(out, 1 if ds else 0)
        if kind == "fatal":
            fake = Fake(rng.choice([out, "", None]), 2, rng.choice(["broken", "", None]))
        elif kind == "raises":
            fake = Fake(out, exc=rng.choice([OSError("no"), KeyboardInterrupt(), ValueError("x")]))
        elif kind == "garbage":
            fake = Fake("not json\n", 1)
        want = [d for d in ds if d["severity"] == "error" and (lo is None or d["line"] >= lo) and (hi is None or d["line"] <= hi)]
        src = rng.choice(["x = 1\n", "é = 'ü'\n", "", "a\n" * 5])
        tmp = tempfile.mkdtemp(prefix="rt-c27-")
        old, cwd = tempfile.tempdir, set(os.listdir("."))
        real = ev.subprocess
        tempfile.tempdir, ev.subprocess = tmp, fake
        try:
            how = rng.randrange(3)
            try:
                if how == 0:
                    ev._mypy_check_region(src, lo, hi)
                else:
                    with handler([ev.UnsafeEvalProvider, ev.RestrictedEvalProvider][how - 1]()):
                        ev.type_check(src, lo, hi, lenient=rng.random() < .5)
                got = None
            except BaseException as e:
                got = e
            left = os.listdir(tmp)
        finally:
            tempfile.tempdir, ev.subprocess = old, real
            shutil.rmtree(tmp, ignore_errors=True)
        what = f"{kind} lines {[(d['severity'], d['line']) for d in ds]} in [{lo}, {hi}]"
        eq(left, [], f"{what}: files left")
        eq(set(os.listdir(".")), cwd, f"{what}: files left in the directory")
        eq(len(fake.seen), 1, "runs of the checker")
        eq(fake.seen[0][1], src, "the source checked")
        if kind == "fatal":
            require(isinstance(got, RuntimeError), f"{what}: {got!r}")
        elif kind == "raises":
            is_(got, fake.exc, what)
        elif kind == "garbage":
            require(got is not None, f"{what}: unreadable output passes")
        elif want:
            require(type(got) is TypeError, f"{what}: {got!r}")
            eq([json.loads(x) for x in str(got).splitlines() if x.startswith("{")], want, f"{what}: the errors reported")
        else:
            is_(got, None, what)
        return None if ds else "trivial"
    for k, rng in t.each(t.n(250, 4000)):
        yield k, (lambda rng=rng: one(rng))


HEADS = ["def {f}(x: int) -> int:", "@wrap\ndef {f}(x: int) -> int:", "@wrap\n@wrap\ndef {f}(\n    x: int,\n    y: int = 1,\n) -> int:", "async def {f}(x: int) -> int:"]


def module(rng):
    """A module source whose functions ('f0', ...) can be templates; names of those reachable."""
    n, lines = rng.randint(1, 5), ["import functools", "", "def wrap(f):", "    return f", ""]
    where = []
    for i in range(n):
        head = rng.choice(HEADS).format(f=rng.choice(["f", f"f{i}"]) if False else f"f{i}")
        body = rng.choice(['"""doc {x}"""\nraise NotImplementedError', "return 1", '"""a\nb"""\nif x:\n    def inner():\n        return 2\nreturn 3'])
        text = head + "\n" + textwrap.indent(body, "    ")
        k = rng.randrange(4)
        if k == 0:
            lines += [text, ""]
            where.append((f"f{i}", lambda m, i=i: getattr(m, f"f{i}")))
        elif k == 1:
            lines += [f"class C{i}:", "    attr = 1", "", textwrap.indent(text, "    "), ""]
            where.append((f"C{i}.f{i}", lambda m, i=i: vars(getattr(m, f"C{i}"))[f"f{i}"]))
        elif k == 2:
            lines += [f"def make{i}():", "    def before():", "        return 0", textwrap.indent(text, "    "), f"    return f{i}", ""]
            where.append((f"make{i}.f{i}", lambda m, i=i: getattr(m, f"make{i}")()))
        else:
            lines += ["if True:", textwrap.indent(text, "    "), "x = [1,", "     2]", ""]
            where.append((f"if f{i}", lambda m, i=i: getattr(m, f"f{i}")))
    return "\n".join(lines) + "\n", where


GENERATED = ["def g() -> int:\n    return 1\n", "@wrap\ndef g() -> int:\n    return 1\n", "y = 1\n\ndef helper(a):\n    return a\n\n@wrap\n@wrap\ndef g() -> int:\n    return helper(y)\n", "class K:\n    v = 1\n    def m(self):\n        return 2\n\ndef g():\n    return K().m()\n", "@wrap\nclass K:\n    v = '''a\nb'''\n\nasync def g():\n    return K\n", "x = [1,\n     2]\ndef g(p, *, q=1):\n    '''doc'''\n    return p\n"]
SNIPPETS = ["y = 1\n", "y = 2", "@wrap\ndef h():\n    return y\n", "for i in [1]:\n    z = i\nprint(z)\n", "@wrap\n@wrap\nclass K:\n    v = 1\n\nk = K()\n", "# nothing\n", "", "s = '''a\nb'''\n", "import math\n"]


def same_tree(a, b):
    return ast.dump(a) == ast.dump(b)


@contract("C27", "splicing", [V + "splice_into_source", V + "_splice_repl", V + "_recover_template_def", V + "_find_def_at_lineno", V + "scan_non_nestable"],
          "random modules (functions, decorated, in classes, nested, in blocks) and generated code: the source checked is the module with that function's body alone replaced by the generated code, and the region is exactly the lines of the generated code, from its first decorator; of several snippets, of the last only; star and __future__ imports are refused at any depth; source that is gone is skipped, drifted source raises", "modules of up to 5 functions")
def splicing(t):
    def load(src):
        d = tempfile.mkdtemp(prefix="rt-c27-")
        path = os.path.join(d, f"rt27_{os.path.basename(d).replace('-', '_')}.py")
        with open(path, "w") as f:
            f.write(src)
        spec = importlib.util.spec_from_file_location("rt27_mod", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m, d

    def locate(tree, fn):
        """The definition of the function in the tree, by name and first line (the reference)."""
        found = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == fn.__name__ and fn.__code__.co_firstlineno in (n.lineno, *[d.lineno for d in n.decorator_list])]
        eq(len(found), 1, "the definition")
        return found[0]

    def check(src, fn, result, body, first, last, what):
        """`result` is the module with fn's body replaced by `body`, the region its statements first..last."""
        checked, lo, hi = result
        tree = ast.parse(src)
        locate(tree, fn).body = body
        want = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
        got = ast.parse(checked)
        require(same_tree(got, want), f"{what}: checked\n{checked}\nfor\n{ast.unparse(want)}")
        # the definition: the one whose body is the new one
        ds = [n for n in ast.walk(got) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == fn.__name__ and len(n.body) == len(body) and all(same_tree(p, q) for p, q in zip(n.body, body))]
        spans = {(min(d.body[first].lineno, *[x.lineno for x in getattr(d.body[first], "decorator_list", [])] or [d.body[first].lineno]), d.body[last].end_lineno) for d in ds}
        require((lo, hi) in spans or any(lo == a and (b <= hi <= d.end_lineno) for d in ds for a, b in spans), f"{what}: the region [{lo}, {hi}] for {spans} in\n{checked}")

    def one(rng):
        from effectful.handlers.llm import evaluation as ev
        src, where = module(rng)
        m, d = load(src)
        try:
            name, get = rng.choice(where)
            fn = get(m)
            anchor = fn
            if rng.random() < .3:
                import functools
                anchor = functools.wraps(fn)(lambda *a: None)
            g = rng.choice(GENERATED)
            gen = ast.parse(g)
            last = gen.body[-1].name
            what = f"{name} in\n{src}with {g!r}"
            r = ev.splice_into_source(gen, anchor)
            require(isinstance(r, tuple), f"{what}: {r!r}")
            check(src, fn, r, ast.parse(g).body + [ast.Return(ast.Name(last, ast.Load()))], 0, -1, what)
            prior = [rng.choice(SNIPPETS) for _ in range(rng.randint(0, 3))]
            s = rng.choice(SNIPPETS)
            r = ev._splice_repl(prior, s, anchor)
            n = len(ast.parse(s).body)
            if n == 0:
                is_(r, None, f"nothing to check in {s!r}")
            else:
                body = [q for p in [*prior, s] for q in ast.parse(p).body]
                check(src, fn, r, body, -n, -1, f"{name} in\n{src}with {prior} then {s!r}")
                eq(r[2], max(r[1], r[2]), "the end of the region")
            # drifted: other lines than compiled
            path = m.__file__
            import linecache
            with open(path, "w") as f:
                f.write("# moved\n" * 2 + "def other():\n    return 1\n")
            linecache.checkcache(path)
            eq(run(lambda: ev.splice_into_source(ast.parse(g), fn)), ("exc", "RuntimeError"), "drifted source")
            os.remove(path)
            linecache.clearcache()
            eq(run(lambda: ev.splice_into_source(ast.parse(g), fn)), ("ok", None), "source that is gone")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for k, rng in t.each(t.n(120, 1500)):
        yield k, (lambda rng=rng: one(rng))

    def imports(rng):
        from effectful.handlers.llm import evaluation as ev
        good = ["import os", "from os import path", "from os import path as star", "x = 1", "def f():\n    from os import path\n", "pass"]
        bad = ["from os import *", "if x:\n    from os import *", "try:\n    pass\nexcept Exception:\n    from os import *", "with x:\n    if y:\n        from os import *", "for i in x:\n    from os import *", "while x:\n    from os import *", "from .m import *"]
        body = [rng.choice(good) for _ in range(rng.randint(0, 3))]
        evil = rng.random() < .6
        if evil:
            body.insert(rng.randint(0, len(body)), rng.choice(bad))
        src = "\n".join(body) + "\n"
        if rng.random() < .2:
            src, evil = "from __future__ import annotations\n" + src, True
        eq(run(lambda: ev.scan_non_nestable(ast.parse(src))), ("exc", "ValueError") if evil else ("ok", None), repr(src))
    for k, rng in t.each(t.n(60, 400), "imports"):
        yield k, (lambda rng=rng: imports(rng))

    def refused():
        from effectful.handlers.llm import evaluation as ev
        for g in ["", "x = 1\n", "def f():\n    return 1\nf()\n"]:
            eq(run(lambda: ev.splice_into_source(ast.parse(g), refused)), ("exc", "TypeError"), repr(g))
    yield "refused", refused


@contract("C27", "type checking", [V + "_mypy_check_region", V + "splice_into_source", V + "_splice_repl"],
          "real type checker runs on spliced modules whose surroundings hold errors: errors of the generated code (also in its decorators) are reported, those of the surroundings are not", "8 cases with one run each")
def typing_(t):
    SRC = "from undefined_names import nothing\n\nbefore: int = 'wrong'\n\ndef deco(f):\n    return f\n\n\nclass Holder:\n    def ask(self, n: int) -> int:\n        return n\n\n\ndef template(n: int, h: Holder) -> Missing:\n    return 'text' + 1\n\n\nafter: str = 5\n"
    CASES = [("def g(n: int) -> int:\n    return n\n", False), ("@undefined_decorator\ndef g(n: int) -> int:\n    return n\n", True), ("def g(k: int) -> int:\n    return k + 'x'\n", True), ("def g(k: int) -> int:\n    return h.ask(k) + n\n", False), ("y: str = n\n\ndef g(k: int) -> int:\n    return k\n", True)]
    REPL = [(["y = 1\n"], "z = y + 'a'\n", True), (["y = 1 + 'a'\n"], "z = 2\n", False), (["y = 1\n"], "@nothing_here\ndef f() -> int:\n    return 1\n", True), (["def f() -> int:\n    return 1\n"], "def f() -> str:\n    return 'a'\n", False), ([], "w = n + h.ask(1)\n", False), (["x = 1\n"], "x = 'a'\ny = x.upper()\n", False)]

    def one(i, repl):
        import types
        from effectful.handlers.llm import evaluation as ev
        import linecache
        name = "<rt27-typing>"
        linecache.cache[name] = (len(SRC), None, SRC.splitlines(True), name)
        code = compile(SRC, name, "exec")
        fn = types.FunctionType(next(c for c in code.co_consts if isinstance(c, types.CodeType) and c.co_name == "template"), {"__name__": "rt27"})
        if repl:
            prior, s, bad = REPL[i]
            args, kw, what = ev._splice_repl(prior, s, fn), {"lenient": True}, (prior, s)
        else:
            g, bad = CASES[i]
            args, kw, what = ev.splice_into_source(ast.parse(g), fn), {}, g
        tmp, old = tempfile.mkdtemp(prefix="rt-c27-"), tempfile.tempdir
        tempfile.tempdir = tmp
        try:
            r = run(lambda: ev._mypy_check_region(*args, **kw))
            left = os.listdir(tmp)
        finally:
            tempfile.tempdir = old
            shutil.rmtree(tmp, ignore_errors=True)
        eq(r, ("exc", "TypeError") if bad else ("ok", None), f"checking {what!r} in\n{args[0]} [{args[1]}, {args[2]}]")
        eq(left, [], "files left")
    for i in range(len(CASES)):
        yield f"generated{i}", (lambda i=i: one(i, False))
    for i in range(len(REPL)):
        yield f"repl{i}", (lambda i=i: one(i, True))


@contract("C27", "sessions", [V + "ReplSession.__init__", V + "ReplSession.exec_code", V + "ReplSession.runcode"],
          "random snippets (printing, binding, failing, nested) in one session under both providers: each call gives exactly what it printed, then the traceback if it failed; bindings persist; the seed is untouched; the snippets so far are recorded; exits propagate; standard output is restored", "sessions of up to 6 snippets")
def sessions(t):
    def one(rng):
        from collections import ChainMap
        from effectful.handlers.llm import evaluation as ev
        from effectful.ops.semantics import handler
        seed = {"a": 1, "b": [2]}
        chain = rng.random() < .5
        env = ChainMap({}, seed) if chain else seed
        s = ev.ReplSession(env)
        t_ = ev.ReplSession({"a": 5})
        p = providers(rng)
        ref = {"a": 1, "b": [2]}
        srcs = []
        with handler(p), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i in range(rng.randint(1, 6)):
                src, out, err = rng.choice([
                    lambda: (f"print('p{i}')", f"p{i}\n", None), lambda: (f"a = {i}", "", None), lambda: ("print(a)", f"{ref['a']}\n", None), lambda: ("print('x', end='')", "x", None), lambda: ("print('y')\n1 / 0\nprint('z')", "y\n", "ZeroDivisionError"), lambda: ("missing", "", "NameError"),
                    lambda: (f"c{i} = a\nraise ValueError('é')", "", "ValueError"), lambda: ("b.append(3)\nprint(len(b))", f"{len(ref['b']) + 1}\n", None), lambda: ("", "", None), lambda: ("# only text", "", None), lambda: ("def f():\n    print('in f')\nf()", "in f\n", None)])()
                if src.startswith("a ="):
                    ref["a"] = i
                if src.startswith("b.app"):
                    ref["b"].append(3)
                name = f"<rt27-s{i}>"
                code = ev.compile(ev.parse(src, name), name)
                srcs.append(src)
                so, se = sys.stdout, sys.stderr
                got = s.exec_code(code)
                require(sys.stdout is so and sys.stderr is se, "standard output restored")
                require(got.startswith(out) and (got == out if err is None else err in got[len(out):] and "Traceback" in got[len(out):]), f"{src!r} gives {got!r}")
                eq(list(s.prior_snippets), srcs, "the snippets so far") if all("raise" not in q and "1 / 0" not in q and "missing" not in q for q in srcs) else None
                eq(s.locals["a"], ref["a"], f"a after {srcs}")
                if src.startswith(f"c{i} ="):
                    eq(s.locals.get(f"c{i}"), ref["a"], "a name bound before failing")
                if chain:
                    eq(env["a"], ref["a"], "a in the call's environment")
            eq(seed["a"], 1, "the seed")
            eq(set(seed), {"a", "b"}, "the seed's names")
            eq((t_.locals["a"], t_.stdout.getvalue(), list(t_.prior_snippets)), (5, "", []), "another session")
            if type(p).__name__ == "UnsafeEvalProvider":
                for err in ("KeyboardInterrupt", "GeneratorExit", "BaseException"):
                    code = ev.compile(ev.parse(f"print('first')\nraise {err}()", f"<rt27-{err}>"), f"<rt27-{err}>")
                    try:
                        got = s.exec_code(code)
                    except BaseException as e:
                        raise Bad(f"{type(e).__name__} raised by a snippet propagates") from None
                    require(got.startswith("first\n") and err in got[6:], f"a snippet that raises {err} gives {got!r}")
                code = ev.compile(ev.parse("raise SystemExit(3)", "<rt27-x>"), "<rt27-x>")
                try:
                    got = s.exec_code(code)
                except SystemExit as e:
                    got = e.code
                eq(got, 3, "the exit code that propagates")
                require(sys.stdout is so and sys.stderr is se, "standard output restored")
    for k, rng in t.each(t.n(120, 1500)):
        yield k, (lambda rng=rng: one(rng))


@contract("C27", "checked when decoded", ["effectful.handlers.llm.encoding._pydantic_callable", "effectful.handlers.llm.encoding._pydantic_type_code", V + "splice_into_source", V + "_splice_repl"],
          "random generated functions and snippets decoded with and without a template to check against: with one, the type checker is asked once, about the spliced source and its region (for a snippet after those the session ran without error, leniently), before anything runs; what it rejects is rejected and never run; without one it is not asked", "modules of up to 5 functions, 3 earlier snippets")
def decoded(t):
    import types
    from collections.abc import Callable
    from effectful.handlers.llm import evaluation as ev
    from effectful.handlers.llm import encoding as en
    from effectful.ops.semantics import handler
    from rt.c26 import enc

    def one(rng):
        src, where = module(rng)
        d = tempfile.mkdtemp(prefix="rt-c27-")
        try:
            path = os.path.join(d, f"rt27_{os.path.basename(d).replace('-', '_')}.py")
            with open(path, "w") as f:
                f.write(src)
            spec = importlib.util.spec_from_file_location("rt27_mod", path)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            name, get = rng.choice(where)
            anchor = get(m)
            asked, ran = [], []
            reject = rng.random() < .4
            anchored = rng.random() < .8

            def check(*a, **k):
                asked.append((a, k, len(ran)))
                if reject:
                    raise TypeError("no")
            env = {"hit": lambda: ran.append(1)}
            with handler(ev.UnsafeEvalProvider()), handler({ev.type_check: check}):
                if rng.random() < .5:
                    code = "hit()\n\ndef g(p: int) -> int:\n    return p\n"
                    if rng.random() < .3:
                        code = "y = 1\n\n" + code
                    key = en.TYPE_CHECK_ANCHOR_KEY
                    ctx = {**env, key: anchor} if anchored else dict(env)
                    out = run(lambda: enc(Callable[[int], int]).validate_python({"module_code": code}, context=ctx)(7))
                    want = ev.splice_into_source(ast.parse(code), anchor)
                    lenient, should_run = False, not (anchored and reject)
                    ok = ("ok", 7)
                else:
                    prior = [rng.choice(["a = 1", "b = a2 = 2\n", "def q():\n    return 3\n"]) for _ in range(rng.randint(0, 3))]
                    code = rng.choice(["hit()\nc = 1\n", "c = 2\n", "# nothing\n", ""])
                    session = ev.ReplSession({})
                    for i, p in enumerate(prior):
                        session.exec_code(ev.compile(ev.parse(p, f"<rt-{i}-{id(session)}>"), f"<rt-{i}-{id(session)}>"))
                    ctx = {**env, en.REPL_ANCHOR_KEY: anchor} if anchored else dict(env)
                    with handler({ev._repl_session: lambda env: session}):
                        out = run(lambda: isinstance(enc(types.CodeType).validate_python(code, context=ctx), types.CodeType))
                    want = ev._splice_repl(prior, code, anchor)
                    lenient, should_run = True, False
                    ok = ("ok", True)
            what = f"{code!r} for {name} in\n{src}"
            if not anchored or want is None:
                eq(asked, [], f"no type check of {what}")
                eq(out, ok, what)
                return
            eq(len(asked), 1, f"type checks of {what}")
            a, k, before = asked[0]
            import inspect
            b = inspect.signature(ev.UnsafeEvalProvider().type_check).bind(*a, **k)
            b.apply_defaults()
            eq((b.arguments["source"], b.arguments["lo"], b.arguments["hi"], bool(b.arguments["lenient"]), before), (*want, lenient, 0), f"what is checked of {what}")
            if reject:
                require(out[0] == "exc", f"{what} was rejected: {out}")
            else:
                eq(out, ok, what)
            eq(len(ran), int(should_run), f"runs of {what}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for k, rng in t.each(t.n(80, 800)):
        yield k, (lambda rng=rng: one(rng))


@contract("C27", "a session per call", ["effectful.handlers.llm.completions.PythonRepl._apply", "effectful.handlers.llm.completions.PythonRepl._collect", V + "ReplSession.__init__", V + "ReplSession.exec_code"],
          "scripted conversations whose model runs snippets: bindings last from one snippet to the next of the same call and are seen nowhere else (another call, a call made by a tool, the scope of the template); without the session no such tool is offered", "calls of up to 4 snippets, one nested call")
def per_call(t):
    import json
    import litellm
    from effectful.handlers.llm import Template, Tool
    from effectful.handlers.llm import evaluation as ev
    from effectful.handlers.llm.completions import LiteLLMProvider, PythonRepl, completion
    from effectful.ops.semantics import handler
    from effectful.ops.types import NotHandled

    def answer(content=None, calls=()):
        return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": content, "tool_calls": [
            {"id": i, "type": "function", "function": {"name": n, "arguments": json.dumps(a)}} for i, n, a in calls] or None}}])

    def shown(m):
        return m["content"] if isinstance(m["content"], str) else "".join(p.get("text", "") for p in m["content"])

    def one(rng):
        seed = rng.randint(1, 99)
        listed = [seed]  # noqa: F841

        @Template.define
        def inner(x: int) -> str:
            """Inner {x}."""
            raise NotHandled

        @Tool.define
        def again() -> str:
            """Ask again."""
            return inner(1)

        @Template.define
        def outer(x: int) -> str:
            """Outer {x}. {seed}"""
            raise NotHandled
        n = [0]
        log = []

        def script(kind):
            """Snippets, and what they print in a session of their own."""
            vars_, out, deferred = {}, [], []
            for _ in range(rng.randint(1, 4)):
                k, v = rng.choice("abc"), rng.randint(0, 99)
                what = rng.choice(["bind", "bind", "show", "seed", "grow", "define", "later", "later", "nested" if kind == "outer" else "show"])
                if what == "bind":
                    vars_[k] = v
                    out.append((f"{k} = {v}", ""))
                elif what == "show":
                    out.append((f"print({k} if '{k}' in dir() else 'nothing')", f"{vars_.get(k, 'nothing')}\n"))
                elif what == "seed":
                    out.append(("print(seed)\nseed = 0", f"{vars_.get('seed', seed)}\n"))
                    vars_["seed"] = 0
                elif what == "grow":
                    out.append((f"x = x + {v}\nprint(x)", f"{vars_.get('x', arg[kind]) + v}\n"))
                    vars_["x"] = vars_.get("x", arg[kind]) + v
                elif what == "later" and deferred:
                    out.append((f"later = {v}\nprint(early())", f"{v}\n"))
                elif what == "later":
                    deferred.append(1)
                    out.append(("def early():\n    return later", ""))
                elif what == "define":
                    out.append((f"def {k}f():\n    return {v}\nprint({k}f())", f"{v}\n"))
                else:
                    out.append(("nested", None))
            return out
        arg = {"outer": 3, "inner": 1}
        todo = []

        def model(*a, messages, tools, **k):
            names = [q["function"]["name"] for q in tools]
            eq(names.count("exec_code"), 1, "the tool that runs snippets")
            last = messages[-1]
            if last["role"] == "user":
                todo.append((script("inner" if "Inner" in shown(last) else "outer"), []))
            rest, waiting = todo[-1]
            if waiting:
                got = [shown(m) for m in messages[-len(waiting):]]
                for g, (src, want) in zip(got, waiting):
                    if want is not None:
                        eq(g, want, f"what {src!r} prints after {[s for s, _ in log]}")
                waiting.clear()
            if not rest:
                todo.pop()
                return answer("done")
            k_ = rng.randint(1, len(rest))
            calls = []
            for src, want in rest[:k_]:
                n[0] += 1
                calls.append((f"c{n[0]}", "again", {}) if src == "nested" else (f"c{n[0]}", "exec_code", {"code": src}))
                waiting.append((src, want))
                log.append((src, want))
            del rest[:k_]
            return answer(None, calls)
        p = ev.UnsafeEvalProvider()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with handler(LiteLLMProvider(model="m")), handler(p), handler({ev.type_check: lambda *a, **k: None}), handler({completion: model}):
                with handler(PythonRepl()):
                    for _ in range(rng.randint(1, 2)):
                        eq(outer(3), "done", "the answer")
                sent = []
                with handler({completion: lambda *a, tools, **k: (sent.append([q["function"]["name"] for q in tools]), answer("ok"))[1]}):
                    outer(3)
                require("exec_code" not in sent[0], f"without the session {sent[0]} are offered")
        eq(todo, [], "every call is over")
        eq((seed, listed, outer.__context__["seed"]), (listed[0], [seed], seed), "the scope of the template")
        require(not {"a", "b", "c", "af", "bf", "cf", "early", "later"} & set(outer.__context__), "the scope of the template has new names")
    for k, rng in t.each(t.n(12, 200)):
        yield k, (lambda rng=rng: one(rng))
