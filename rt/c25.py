import random
from rt.core import *  # noqa: F403
from rt.c18 import run
from rt.c24 import L, Pair, Point, World, converse
import json


@contract("C25", "answers", [L + "completions.call_tool", L + "completions.call_assistant", L + "encoding._validate_tool_call", L + "completions.LiteLLMProvider._call"],
          "random conversations with tool requests (several at once, positional-only, keyword-only and defaulted parameters, dataclass and named tuple arguments, nested templates, failing tools, requests that do not decode): exactly one answer per request, with its identifier and the encoded result, in order; each tool is called once with the decoded arguments and never for a request that does not decode", "up to 4 calls, 3 tool requests an answer")
def answers(t):
    for k, rng in t.each(t.n(150, 3000)):
        yield k, (lambda rng=rng: converse(rng, rng.random() < .3) and None)


def make_tools(rng, log):
    from effectful.handlers.llm import Agent, Template, Tool
    from effectful.ops.types import NotHandled

    def tool(i):
        @Tool.define
        def f(x: int) -> int:
            """A tool.

            It has more than one paragraph,
              and an indented line.
            """
            log.append(i)
            return x + i
        return f

    def template(i):
        def g(x: int) -> str:
            """A template {x}."""
            raise NotHandled
        return Template.define(g)

    class Base(Agent):
        """An agent."""

        @Tool.define
        def base(self, x: int) -> int:
            """Inherited."""
            return x

        @Tool.define
        def over(self, x: int) -> int:
            """Overridden."""
            return x

        @Tool.define
        def hidden(self, x: int) -> int:
            """Hidden."""
            return x

        @property
        def fails(self):
            raise ValueError("no")

        def method(self):
            return 1

    class Derived(Base):
        hidden = None

        @Tool.define
        def over(self, x: int) -> int:
            """Overriding."""
            return -x

        @Tool.define
        @staticmethod
        def st(x: int) -> int:
            """Static."""
            return x

        @Template.define
        def ask(self, x: int) -> str:
            """Ask {x}."""
            raise NotHandled

    class Slotted(Base):
        __slots__ = ("unset",)

    class ByClass(Base):
        @Tool.define
        @classmethod
        def cm(cls, x: int) -> int:
            """Of the class."""
            return x
    return tool, template, {"Base": (Base, ["base", "over", "hidden"]), "Derived": (Derived, ["base", "over", "st", "ask"]), "Slotted": (Slotted, ["base", "over", "hidden"]), "ByClass": (ByClass, ["base", "over", "hidden", "cm"])}


@contract("C25", "tools offered", [L + "completions.collect_tools", L + "completions.LexicalReaders._collect", L + "encoding._serialize_tool", L + "encoding._validate_tool", L + "template.Template.tools"],
          "random scopes (tools under several names, templates, agents with inherited, overriding, hidden, static and class methods and failing properties, other values): the tools collected are exactly the distinct ones reachable, each once and under one of its names; with readers also one for each other value, giving it; what is offered to the model is under those names and each is found again by its name; a template is offered to itself only when recursive", "scopes of up to 8 names")
def offered(t):
    def one(rng):
        from collections import ChainMap
        import pydantic
        from effectful.handlers.llm import Agent, Template, Tool
        from effectful.handlers.llm.completions import LexicalReaders, collect_tools
        from effectful.handlers.llm.encoding import Encodable
        from effectful.ops.semantics import handler
        log = []
        tool, template, classes = make_tools(rng, log)
        env, names = {}, {}
        pool = [tool(i) for i in range(3)] + [template(i) for i in range(2)]
        plain = {}
        for i in range(rng.randint(0, 8)):
            name = rng.choice("abcdefgh") + str(i)
            k = rng.randrange(6)
            if k < 2:
                env[name] = rng.choice(pool)
                names.setdefault(env[name], set()).add(name)
            elif k < 4:
                cls, ms = classes[rng.choice(list(classes))]
                obj = cls() if rng.random() < .8 or not any(isinstance(v, Agent) for v in env.values()) else rng.choice([v for v in env.values() if isinstance(v, Agent)])
                env[name] = obj
                for m in next(ms for c, ms in classes.values() if c is type(obj)):
                    names.setdefault(getattr(obj, m), set()).add(f"{name}__{m}")
                if rng.random() < .3:
                    m = rng.choice(["base", "over"])
                    env["z" + name] = getattr(obj, m)
                    names[env["z" + name]].add("z" + name)
            elif rng.random() < .4:
                env[rng.choice([name, name + " x", "1" + name])] = rng.choice([rng, iter([1]), (q for q in ()), random])
            elif rng.random() < .2:
                env[rng.choice(["1", "a b", "x-y", ""]) + "-" + name] = 3
            else:
                env[name] = rng.choice([3, "text", [1, 2], None, {"k": 1}, 2.5])
                plain[name] = env[name]
        env = rng.choice([dict, lambda e: ChainMap({}, e)])(env)
        got = dict(collect_tools(env))
        eq(sorted(map(id, got.values())), sorted(map(id, names)), f"the tools of {list(env)}: {list(got)} for {sorted(map(sorted, names.values()))}")
        for n, q in got.items():
            require(n in names[q], f"{n} is a name of {q}: {names[q]}")
        with handler(LexicalReaders()):
            more = dict(collect_tools(env))
        eq({n: id(q) for n, q in more.items() if n in got}, {n: id(q) for n, q in got.items()}, "the tools with readers")
        eq(sorted(set(more) - set(got)), sorted(plain), "the readers")
        for n in plain:
            require(isinstance(more[n], Tool) and more[n]() is plain[n], f"reader of {n}")
            eq(more[n].__name__, n, "the reader's own name")
        enc = pydantic.TypeAdapter(Encodable[Tool])
        for n, q in more.items():
            spec = enc.dump_python(q, mode="json", context={n: q})
            eq(spec["function"]["name"], n, "the name offered")
            eq(spec["function"]["description"].split(), (q.__default__.__doc__ or "").split(), f"the description of {n}")
            is_(spec["function"]["strict"], True, "whether the arguments are held to the schema")
            ps = spec["function"]["parameters"]
            is_(ps["additionalProperties"], False, f"whether {n} takes other arguments")
            eq(list(ps["properties"]), list(q.__signature__.parameters), f"the parameters of {n}")
            is_(enc.validate_python(spec, context=more), q, f"the tool offered as {n}")
        return None if len(names) > 1 else "trivial"
    for k, rng in t.each(t.n(120, 2000)):
        yield k, (lambda rng=rng: one(rng))

    def recursion(rng):
        import litellm
        from typing import Annotated
        from effectful.handlers.llm import Agent, Template
        from effectful.handlers.llm.completions import LiteLLMProvider, completion
        from effectful.handlers.llm.template import IsRecursive
        from effectful.ops.semantics import handler
        from effectful.ops.types import NotHandled
        sent = []

        def model(*a, tools=None, **k):
            sent.append([q["function"]["name"] for q in tools])
            return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": '{"value": "x"}'}}])

        class A(Agent):
            """An agent."""

            @Template.define
            def once(self, x: int) -> str:
                """Once {x}."""
                raise NotHandled

            @Template.define
            def again(self, x: int) -> Annotated[str, IsRecursive]:
                """Again {x}."""
                raise NotHandled

        @Template.define
        def free(x: int) -> str:
            """Free {x}."""
            raise NotHandled

        @Template.define
        def looping(x: int) -> Annotated[str, IsRecursive]:
            """Loop {x}."""
            raise NotHandled
        a = A()
        other = free  # noqa: F841
        with handler(LiteLLMProvider(model="m")), handler({completion: model}):
            for f, own, names in ((a.once, False, ["self__once", "a__once"]), (a.again, True, ["self__again", "a__again"]), (free, False, ["free", "other"]), (looping, True, ["looping"])):
                sent.clear()
                f(1)
                eq(len(sent), 1, "requests")
                mine = [n for n in sent[0] if n in names]
                eq(len(mine), 1 if own else 0, f"{names} offered to itself: {sent[0]}")
                eq(len(sent[0]), len(set(sent[0])), f"distinct names: {sent[0]}")
                eq(sorted(set(sent[0]) - {"self__" + n for n in ("once", "again")} - {"a__once", "a__again"}) , sorted(n for n in f.tools if "__" not in n and f.tools[n] is not f or n in mine and "__" not in n), "the others offered")
    for k, rng in t.each(2, "recursion"):
        yield k, (lambda rng=rng: recursion(rng))


@contract("C25", "requests", [L + "encoding._validate_tool_call", L + "encoding._serialize_tool_call", L + "completions.call_tool"],
          "tool requests for each kind of parameter: the decoded arguments are bound to the parameters of their names; encoding the decoded request and decoding that gives the same; a request under an alias keeps it; requests with unknown tools, unknown, missing or undecodable arguments raise and call nothing", "5 tools")
def requests(t):
    def one(rng):
        import pydantic
        from effectful.handlers.llm import Tool
        from effectful.handlers.llm.completions import call_tool
        from effectful.handlers.llm.encoding import DecodedToolCall, Encodable
        w = World()
        enc = pydantic.TypeAdapter(Encodable[DecodedToolCall])
        n, s = rng.randrange(100), rng.choice(["", "a", "é{}", '"'])
        name, args, want, out = rng.choice([
            ("add", {"x": n}, ("add", n, 1), str(n + 1)), ("add", {"y": n, "x": 2}, ("add", 2, n), str(n + 2)), ("echo", {"s": s}, ("echo", s, 1), s), ("echo", {"times": 3, "s": s}, ("echo", s, 3), s * 3),
            ("move", {"by": {"first": n, "second": s}, "p": {"x": 1, "y": 2}}, ("move", Point(1, 2), Pair(n, s)), json.dumps([{"x": 1 + n, "y": 2}, {"x": 1, "y": 2}]))])
        alias = rng.choice([name, "other_name"])
        ctx = {**w.tools, alias: w.tools[name]}
        rid = f"id{n}"
        req = {"id": rid, "type": "function", "function": {"name": alias, "arguments": json.dumps(args)}}
        d = enc.validate_python(req, context=ctx)
        is_(d.tool, w.tools[name], "the tool")
        eq((d.id, d.name), (rid, alias), "identifier and name")
        eq(w.log, [], "nothing called by decoding")
        again = enc.dump_python(d, mode="json", context=ctx)
        eq((again["id"], again["function"]["name"]), (rid, alias), "the encoded request")
        e = enc.validate_python(again, context=ctx)
        require(e.tool is d.tool and e.bound_args == d.bound_args, f"{e} for {d}")
        m = call_tool(d)
        eq(w.log, [want], "the call")
        eq((m["role"], m["tool_call_id"]), ("tool", rid), "the answer's identifier")
        eq("".join(p["text"] for p in m["content"]), out, "the answer")
        w.log.clear()
        for bad in ({**req["function"], "name": "nothing"}, {**req["function"], "arguments": json.dumps({**args, "zz": 1})}, {**req["function"], "arguments": "{"}, {**req["function"], "arguments": "[1]"}, {**req["function"], "arguments": json.dumps({k: {"no": []} for k in args})}, {**req["function"], "arguments": "{}"}):
            r = run(lambda: enc.validate_python({**req, "function": bad}, context=ctx))
            eq(r[0], "exc", f"{bad} decodes")
        eq(w.log, [], "nothing called by requests that do not decode")
        del Tool
    for k, rng in t.each(t.n(60, 800)):
        yield k, (lambda rng=rng: one(rng))


@contract("C25", "scope", [L + "template.Template.define", L + "template.Template.tools", L + "completions.collect_tools"],
          "templates defined in nested functions and in classes inside them, reached through functions of other scopes and through recursion: the names they see and the tools they are offered are those bound around their definition, the innermost binding of each name, and none of the callers'", "functions nested up to 3 deep, up to 5 names")
def scope(t):
    POOL = "abcde"

    def one(rng):
        from effectful.handlers.llm import Template, Tool
        from effectful.ops.types import NotHandled
        made = []

        def mk():
            @Tool.define
            def f(x: int) -> int:
                """A tool."""
                return x
            made.append(f)
            return f
        n = rng.randint(1, 3)
        pool = POOL[: rng.randint(2, 5)]
        levels, src = [{k: None for k in pool if rng.random() < .4}], []
        g = {"Template": Template, "NotHandled": NotHandled, "mk": mk, "keep": (kept := []), "__name__": __name__}
        for k in levels[0]:
            g[k] = levels[0][k] = mk()
        hidden = rng.sample(pool, rng.randint(1, len(pool)))
        src.append("def through(fn, *rest):\n" + "".join(f"    {k} = mk()\n" for k in hidden) + "    return fn(*rest)\n")
        how = rng.choice(["function", "class", "classes", "named"])
        same = rng.randrange(n) if how != "named" and rng.random() < .5 else None
        for i in range(n):
            pad = "    " * i
            names = [k for k in pool if rng.random() < .4]
            levels.append({k: None for k in names})
            src.append(f"{pad}def lvl{i}(again={int(same == i)}):\n")
            pad += "    "
            if same == i:
                src.append(f"{pad}if again:\n" + "".join(f"{pad}    {k} = mk()\n" for k in pool if k not in names) + f"{pad}    return through(lvl{i}, 0)\n")
            for k in names:
                src.append(f"{pad}{k} = mk()\n{pad}keep.append(({i + 1}, {k!r}, {k}))\n")
        pad = "    " * n
        if how != "function":
            for j in range(2 if how == "classes" else 1):
                src.append(f"{pad}class {'lvl0' if how == 'named' else f'K{j}'}:\n")
                pad += "    "
                for k in rng.sample(pool, 2):
                    src.append(f"{pad}{k} = mk()\n")
        src.append(f"{pad}@Template.define\n{pad}def ask({'self, ' if how != 'function' else ''}x: int) -> str:\n{pad}    \"\"\"Ask {{x}}.\"\"\"\n{pad}    raise NotHandled\n{pad}keep.append(ask)\n")
        for i in reversed(range(n)):
            src.append("    " * i + (f"through(lvl{i})\n" if rng.random() < .5 else f"lvl{i}()\n"))
        text = "".join(src)
        exec(compile(text, f"<rt25-{rng.random()}>", "exec"), g)
        ask = kept.pop()
        for i, k, v in kept:
            levels[i][k] = v
        want = {}
        for level in levels:
            want.update(level)
        ctx = ask.__context__
        got = {k: ctx[k] for k in pool if k in ctx}
        eq({k: made.index(v) for k, v in got.items()}, {k: made.index(v) for k, v in want.items()}, f"the names around the template of\n{text}")
        tools = {k: v for k, v in ask.tools.items() if k in pool}
        eq({k: made.index(v) for k, v in tools.items()}, {k: made.index(v) for k, v in want.items()}, f"the tools of the template of\n{text}")
        require(not any(v is ask for v in ask.tools.values()), "the template is offered to itself")
        late = g["late"] = mk()
        require(ask.tools.get("late") is late, "a tool of the module defined after the template is not offered")
        return None if len(want) > 1 else "trivial"
    for k, rng in t.each(t.n(80, 1500)):
        yield k, (lambda rng=rng: one(rng))

    def given(rng):
        """What a handler gives as the tools is not changed by leaving the template itself out."""
        import types
        from effectful.handlers.llm import Template
        from effectful.handlers.llm.completions import collect_tools
        from effectful.ops.semantics import handler
        from effectful.ops.types import NotHandled

        @Template.define
        def ask(x: int) -> str:
            """Ask {x}."""
            raise NotHandled

        @Template.define
        def other(x: int) -> str:
            """Other {x}."""
            raise NotHandled
        held = {"ask": ask, "other": other, "again": ask}
        for m in (held, types.MappingProxyType(held)):
            with handler({collect_tools: lambda env: m}):
                got = dict(ask.tools)
            eq(list(got), ["other"], "the tools without the template")
            eq(list(held), ["ask", "other", "again"], "the tools the handler has")
    for k, rng in t.each(1, "given"):
        yield k, (lambda rng=rng: given(rng))
