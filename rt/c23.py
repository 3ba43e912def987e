from rt.core import *  # noqa: F403
import dataclasses
import json
import typing
import warnings

L = "effectful.handlers.llm."
TEXTS = ["", "a", "é\u2028", '"\\', "{x}", "}", "null", "a\nb", " s ", "{{", "image_url", "%s {0}"]


@dataclasses.dataclass
class Point:
    x: int
    name: str


@dataclasses.dataclass
class Tagged:
    type: str
    x: int


class Pair(typing.NamedTuple):
    first: int
    second: str


def image(rng):
    from PIL import Image
    im = Image.new("RGB", (rng.randint(1, 2), 1), tuple(rng.randrange(256) for _ in range(3)))
    return im


def block(im):
    import base64
    import io
    b = io.BytesIO()
    im.save(b, format="PNG")
    return {"type": "image_url", "image_url": {"detail": "auto", "url": "data:image/png;base64," + base64.b64encode(b.getvalue()).decode()}}


def merge(parts):
    """Text and media, in order; adjacent text merged and empty text left out."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def shown(content):
    """Message content as text and media; checks that it is merged."""
    out, last = [], None
    for p in content:
        require(isinstance(p, dict) and "type" in p, f"{p!r} is no content part")
        if p["type"] == "text":
            require(set(p) == {"type", "text"} and isinstance(p["text"], str), f"{p!r} is no text part")
            require(last != "text", f"adjacent text parts in {content!r:.300}")
            out.append(p["text"])
        else:
            out.append(p)
        last = p["type"]
    return merge(out)


def pieces(rng, d, media=True):
    """(value, its linear form): what JSON prints, with media in their places."""
    k = rng.randrange(13)
    if d <= 0 or k < 3:
        v = rng.choice([0, -7, True, False, None, 1.5, 10**20, *TEXTS])
        return v, [json.dumps(v)]
    if k == 3 and media:
        im = image(rng)
        return im, [block(im)]
    if k == 4:
        v = Pair(rng.randint(0, 5), rng.choice(TEXTS))
        return v, [json.dumps({"item_0": v.first, "item_1": v.second})]
    if k == 5:
        v = Point(rng.randint(0, 5), rng.choice(TEXTS))
        return v, [json.dumps(dataclasses.asdict(v))]
    if k == 6:
        v = Tagged(rng.choice(["text", "image_url", "file", "x", "document"]), rng.randint(0, 5))
        return v, [json.dumps(dataclasses.asdict(v))]
    if k == 7:
        n = rng.randint(0, 3)
        ims = [image(rng) for _ in range(n)] if media else [rng.randint(0, 9) for _ in range(n)]
        lin = [[block(i)] if media else [json.dumps(i)] for i in ims]
        return ims, ["[", *join(lin), "]"]
    if k == 8:
        im = image(rng)
        v = {rng.choice(TEXTS): im} if media else {"k": 1}
        v = {q: [w, w] for q, w in v.items()}
        lin = [[json.dumps(q) + ": [", *(join([[block(i)] if media else [json.dumps(i)] for i in w])), "]"] for q, w in v.items()]
        return v, ["{", *join(lin), "}"]
    parts = [pieces(rng, d - 1, media) for _ in range(rng.randint(0, 3))]
    if not parts:
        return (), ["[]"]
    return tuple(v for v, _ in parts), ["{", *join([[f'"item_{i}": ', *lin] for i, (_, lin) in enumerate(parts)]), "}"]


def join(ls):
    out = []
    for i, x in enumerate(ls):
        out += ([", "] if i else []) + list(x)
    return out


def value(rng):
    """(value, linear form as a prompt field): text stands for itself."""
    if rng.random() < .35:
        s = rng.choice(TEXTS)
        return s, [s]
    v, lin = pieces(rng, 2)
    if isinstance(v, str):
        lin = [v]
    return v, merge(lin)


class Holder:
    def __init__(self, v):
        self.attr = v


def literal(rng):
    return rng.choice(["", "", "text ", "{", "}", "{x}", "line\n", "é", "a  b", "\n\n", "${}", "!r", ":>4"])


@contract("C23", "prompts", [L + "completions.call_user", L + "encoding.to_content_blocks"],
          "random templates (literal text with escaped braces, fields with attribute and index access, conversions, format specifications, also nested) and values (text, numbers, tuples, named tuples, dataclasses, lists and dictionaries holding images, dataclasses with a field type): the content is the literal text and the values in their places, adjacent text merged; the message is appended to the history as it is; non-trivial: text and media interleave", "templates of up to 6 fields, values nested twice")
def prompts(t):
    def one(rng):
        from collections import ChainMap, OrderedDict
        from effectful.handlers.llm.completions import _get_history, call_user
        from effectful.ops.semantics import handler
        env, tpl, want = {"width": 12, "fill": "*"}, "", []
        for i in range(rng.randint(0, 6)):
            lit = literal(rng)
            tpl += lit.replace("{", "{{").replace("}", "}}")
            want.append(lit)
            v, lin = value(rng)
            name = f"v{rng.randint(0, 3)}" if rng.random() < .3 and not any(q.startswith("v") for q in env) else f"u{i}"
            how = rng.randrange(4)
            if how == 0:
                env[name], field = v, name
            elif how == 1:
                env[name], field = Holder(v), f"{name}.attr"
            elif how == 2:
                env[name], field = [None, v, None], f"{name}[1]"
            else:
                env[name], field = {"key one": Holder([v])}, f"{name}[key one].attr[0]"
            conv, spec, real = "", "", ""
            if len(lin) <= 1 and not (lin and isinstance(lin[0], dict)):
                s = lin[0] if lin else ""
                conv = rng.choice(["", "", "r", "s", "a"])
                spec = rng.choice(["", "", ">9", "*^12", ".2", "<3s", "{fill}>{width}", ":^{width}.3"])
                real = spec.format(**env)
                s = {"": str, "s": str, "r": repr, "a": ascii}[conv](s)
                want.append(format(s, real))
            else:
                want += lin
            tpl += "{" + field + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}"
        lit = literal(rng)
        tpl += lit.replace("{", "{{").replace("}", "}}")
        want.append(lit)
        if any(line.strip() == "" and line for line in tpl.split("\n")) or tpl.startswith((" ", "\n")):
            tpl, want = "x" + tpl, ["x", *want]
            import textwrap
            if textwrap.dedent(tpl) != tpl:
                raise Skip
        env = rng.choice([dict, ChainMap, lambda e: ChainMap({}, e)])(env)
        h = OrderedDict(old={"id": "old", "role": "user", "content": "x"})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with handler({_get_history: lambda: h}):
                m = call_user(tpl, env)
        eq(m["role"], "user", "role")
        got = shown(m["content"])
        require(got == merge(want), f"{tpl!r} with {dict(env)!r:.300}: {got!r:.400} for {merge(want)!r:.400}")
        eq(list(h), ["old", m["id"]], "history")
        require(h[m["id"]] == m, "the message is in the history")
        return None if any(isinstance(p, dict) for p in got) and any(isinstance(p, str) for p in got) else "trivial"
    for k, rng in t.each(t.n(350, 6000)):
        yield k, (lambda rng=rng: one(rng))

    def indented(rng):
        from effectful.handlers.llm.completions import call_user
        lines = [rng.choice(["first", "second {x}", "  deeper", "", "{x}{x} end", "\t tab"]) for _ in range(rng.randint(1, 5))]
        ind = rng.choice(["", "    ", "\t", "  "])
        lines = ["start", *lines, "end"]
        tpl = "\n".join(ind + q if q else q for q in lines)
        x = rng.choice(["a", "  b\n  c", "1\n", ""])
        got = shown(call_user(tpl, {"x": x})["content"])
        eq(got, merge(["\n".join(lines).replace("{x}", x)]), repr(tpl))
    for k, rng in t.each(t.n(60, 600), "indented"):
        yield k, (lambda rng=rng: indented(rng))


@contract("C23", "content blocks", [L + "encoding.to_content_blocks"],
          "random JSON values with content blocks of every kind the encoder may hold and dictionaries that only look like one: putting each block's JSON back in its place gives json.dumps of the value; a text alone stands for itself", "values nested at most 4 deep")
def content(t):
    BLOCKS = [{"type": "image_url", "image_url": {"url": "data:,x", "detail": "auto"}}, {"type": "image_url", "image_url": "data:,y"}, {"type": "input_audio", "input_audio": {"data": "QUJD", "format": "wav"}}, {"type": "file", "file": {"file_id": "f1"}}, {"type": "video_url", "video_url": {"url": "data:,z"}}]
    LIKE = [{"type": "text"}, {"type": "text", "text": 3}, {"type": "file", "x": 1}, {"type": "image_url", "more": []}, {"type": ["text"]}, {"type": {"text": 1}}, {"type": None}, {"type": "other", "text": "x"}, {"type": "text", "text": "x", "lang": "en"}, {"Type": "text", "text": "x"}]

    def gen(rng, d):
        k = rng.randrange(9)
        if d <= 0 or k < 3:
            return rng.choice([0, -1, 2.5, True, None, *TEXTS])
        if k == 3:
            return rng.choice(BLOCKS)
        if k == 4:
            return rng.choice(LIKE)
        if k in (5, 6):
            return [gen(rng, d - 1) for _ in range(rng.randint(0, 3))]
        return {rng.choice(TEXTS + ["type", "k"]): gen(rng, d - 1) for _ in range(rng.randint(0, 3))}

    def one(rng):
        from effectful.handlers.llm.encoding import to_content_blocks
        v = gen(rng, 4)
        before = json.dumps(v)
        bs = to_content_blocks(v)
        eq(json.dumps(v), before, "the value afterwards")
        if isinstance(v, str):
            eq(bs, [{"type": "text", "text": v}], f"the text {v!r}")
            return "trivial"
        for b in bs:
            require(b["type"] == "text" or b in BLOCKS, f"{b!r} is a part of {before}")
        eq("".join(b["text"] if b["type"] == "text" else json.dumps(next(c for c in BLOCKS if c == b)) for b in bs), before, f"the parts of {before}")
        n = sum(before.count(json.dumps(b)) for b in BLOCKS)
        eq(sum(b["type"] != "text" for b in bs), n, f"media parts of {before}")
        return None if n else "trivial"
    for k, rng in t.each(t.n(300, 5000)):
        yield k, (lambda rng=rng: one(rng))


@contract("C23", "system prompts and calls", [L + "completions.call_system", L + "completions.LiteLLMProvider._call"],
          "the prompt a template call sends: one system message with the template's own text or the default, first (the history's own if it begins with one), then the history, then the docstring rendered with the arguments of the call (positional, keyword, defaulted, variadic) over the names of the enclosing scope", "templates with up to 4 parameters")
def calls(t):
    def one(rng):
        import litellm
        from effectful.handlers.llm import Template
        from effectful.handlers.llm.completions import DEFAULT_SYSTEM_PROMPT, LiteLLMProvider, completion
        from effectful.ops.semantics import handler
        from effectful.ops.types import NotHandled
        outer, shadowed = rng.choice(TEXTS), rng.choice(TEXTS)  # noqa: F841

        def ask(a: str, b: str = "bee", *, shadowed: str = "inner", c: str) -> str:
            """A {a} B {b} C {c} S {shadowed} O {outer}."""
            raise NotHandled
        outer_names = (outer,)  # noqa: F841
        tpl = Template.define(ask)
        sp = rng.choice(["", "You are a poet."])
        tpl.__system_prompt__ = sp
        past = []
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            role = rng.choice(["system", "user"] if i == 0 else ["user", "assistant"])
            past.append({"role": role, "content": f"earlier {i}", "id": f"message_{i}"})
        if past or rng.random() < .5:
            import collections
            tpl.__history__ = collections.OrderedDict((m["id"], m) for m in past)
        headed = bool(past) and past[0]["role"] == "system"
        sent = []

        def fake(*args, **kwargs):
            sent.append((args, kwargs))
            return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": "done"}}])
        a, b, c, s = (rng.choice(TEXTS) for _ in range(4))
        kw = {"c": c}
        if rng.random() < .5:
            kw["shadowed"] = s
        else:
            s = "inner"
        args = [a]
        if rng.random() < .5:
            args.append(b)
        elif rng.random() < .5:
            kw["b"] = b
        else:
            b = "bee"
        with handler(LiteLLMProvider(model="m")), handler({completion: fake}):
            eq(tpl(*args, **kw), "done", "the answer")
        eq(len(sent), 1, "requests")
        ms = sent[0][1]["messages"]
        eq([m["role"] for m in ms], ([] if headed else ["system"]) + [m["role"] for m in past] + ["user"], "roles")
        if not headed:
            eq(ms[0]["content"], sp or DEFAULT_SYSTEM_PROMPT, "the system prompt")
        eq([m["content"] for m in ms[not headed:-1]], [m["content"] for m in past], "the earlier messages")
        eq(shown(ms[-1]["content"]), [f"A {a} B {b} C {c} S {s} O {outer}."], "the prompt")
    for k, rng in t.each(t.n(30, 300)):
        yield k, (lambda rng=rng: one(rng))

    def agents(rng):
        """The system message of an agent's template: that of its module, then the agent's own."""
        import inspect
        import sys
        import types
        import litellm
        from effectful.handlers.llm.completions import DEFAULT_SYSTEM_PROMPT, LiteLLMProvider, completion
        from effectful.ops.semantics import handler
        mdoc = rng.choice([None, "", "About the module.", "Lines\n\n  of text {x}."])
        adoc = rng.choice(["An agent.", "One {that}\n    speaks."])
        own = rng.choice([None, "", "Speak up."])
        mod = types.ModuleType("rt23_module", mdoc)
        src = f"from effectful.handlers.llm import Agent, Template\nfrom effectful.ops.types import NotHandled\nclass A(Agent):\n    {adoc!r}\n"
        if own is not None:
            src += f"    __system_prompt__ = {own!r}\n"
        src += "    @Template.define\n    def ask(self, x: str) -> str:\n        'Ask {x}.'\n        raise NotHandled\n"
        src += "@Template.define\ndef free(x: str) -> str:\n    'Free {x}.'\n    raise NotHandled\n"
        sys.modules["rt23_module"] = mod
        try:
            exec(compile(src, "<rt23>", "exec"), mod.__dict__)
            a = mod.A()
            sent = []

            def fake(*args, **kwargs):
                sent.append(kwargs["messages"])
                return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": "done"}}])
            with handler(LiteLLMProvider(model="m")), handler({completion: fake}):
                a.ask("u")
                mod.free("v")
        finally:
            del sys.modules["rt23_module"]
        m = inspect.cleandoc(mdoc or "")
        mine = inspect.cleandoc(adoc) if own is None else own
        eq(sent[0][0]["content"], "\n\n".join(p for p in (m, mine) if p) or DEFAULT_SYSTEM_PROMPT, "the system message of an agent")
        eq(sent[1][0]["content"], m or DEFAULT_SYSTEM_PROMPT, "the system message of a module's template")
        eq([[q["role"] for q in ms] for ms in sent], [["system", "user"]] * 2, "roles")
    for k, rng in t.each(t.n(12, 60), "agents"):
        yield k, (lambda rng=rng: agents(rng))
