"""C23: rendering a prompt: text and other parts in order, nothing lost or repeated."""
import ast

import z3

from pyvc.engine import I, zand, znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403
from pyvc.engine import is_strv
from contracts.c24 import CO, histories, install, ops
from contracts.c25 import default_of

EN = "effectful.handlers.llm.encoding."


class Tokens:
    """What a list of parts and a buffer of text stand for: the texts and other parts in order.

    A text part made by joining texts stands for those texts; a symbolic stretch for itself."""

    def __init__(self, h):
        self.h, self.e = h, h.e
        e = self.e
        e.st.ghost["joins"] = {}
        h.note("a text part stands for the texts joined in it; the texts themselves are opaque")
        e.natives["litellm.ChatCompletionTextObject"] = lambda ctx, a, k: ctx.new_dict(k)
        old = type(e).str_method

        def str_method(o, name, args, kwargs):
            if name == "join":
                h.prove("texts are put together with nothing in between", o == "")
                s = e.iter_seq(args.concrete()[0])
                t = e.fresh("joined")
                e.typed(t, ExtV("builtins.str"))
                d = dict(e.st.ghost["joins"])
                d[t.get_id()] = s
                e.keep.append(t)
                e.st.ghost["joins"] = d
                return t
            return old(e, o, name, args, kwargs)
        e.str_method = str_method

    def texts(self, s):
        """Tokens of a buffer."""
        out = []
        for g in s.segs:
            if isinstance(g, One):
                v = self.e.unbox(g.v)
                if isinstance(v, str) and v == "":
                    continue
                out.append(("text", g.v))
            else:
                if isinstance(g.n, int) and g.n == 0:
                    continue
                out.append(("stretch", g))
        return out

    def parts(self, s):
        """Tokens of a list of parts; and whether its text parts are merged."""
        out, kinds = [], []
        for g in s.segs:
            if not isinstance(g, One):
                out.append(("stretch", g))
                kinds.append("?")
                continue
            v = self.e.unbox(g.v)
            o = self.e.obj(v) if isinstance(v, Ref) else None
            t = None
            ty = self.e.unbox(self.e.map_get(o.map, "type")) if isinstance(o, DictObj) and o.map.base is None else None
            if isinstance(ty, str) and ty == "text":
                t = self.e.map_get(o.map, "text")
            if t is None:
                out.append(("part", g.v))
                kinds.append("part")
                continue
            kinds.append("text")
            js = self.e.st.ghost["joins"].get(t.get_id()) if is_V_(t) else None
            out += self.texts(js) if js is not None else [("text", t)]
        return out, kinds

    def solid(self, toks):
        """Without the stretches known to be empty."""
        return [t for t in toks if t[0] != "stretch" or not self.h.proved(I(t[1].n) == 0)]

    def text(self, v):
        v = self.e.unbox(v)
        if isinstance(v, str):
            return z3.StringVal(v)
        return v if is_strv(v) else z3.Function("text of", V, z3.StringSort())(self.e.box(v))

    def merged(self, toks):
        """With texts next to each other put together."""
        out = []
        for k, x in self.solid(toks):
            if k != "text":
                out.append((k, x))
                continue
            t = self.text(x)
            if out and out[-1][0] == "text":
                t = z3.simplify(z3.Concat(out.pop()[1], t))
            out.append(("text", t))
        return [t for t in out if not (t[0] == "text" and z3.is_string_value(t[1]) and t[1].as_string() == "")]

    def same(self, a, b):
        a, b = self.merged(a), self.merged(b)
        if len(a) != len(b):
            return False
        r = []
        for (k, x), (l, y) in zip(a, b):
            if k != l:
                return False
            if k == "text":
                r.append(x == y)
            elif k == "stretch":
                r.append(x is y or (x.term is not None and y.term is not None and x.term.eq(y.term)))
            else:
                r.append(self.h.deep_same(x, y))
        return zand(*r)


def is_V_(t):
    return isinstance(t, z3.ExprRef)


def inner(node):
    return isinstance(node, ast.For) and not any(isinstance(x, ast.For) for x in ast.walk(node) if x is not node)


@harness("C23", "prompt", budget=200.0)
def prompt(h):
    e = h.e
    h.expect_cover("text", "part", "literal only", "done")
    h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    hist = new(h.val("before"))
    install(h, gh, hist)
    T = Tokens(h)
    h.note("parsing and formatting of templates (string.Formatter), encoders and content blocks are opaque functions that do not raise")
    e.natives["pydantic.validate_call"] = lambda ctx, a, k: a.segs[0].v if a.segs else NativeV("validate_call", lambda c, a2, k2: a2.segs[0].v)
    app = e.app
    n = h.int("pieces")
    h.assume(n >= 0)
    template, env = h.val("template"), h.mapping("env")
    F = {w: z3.Function("piece:" + w, z3.IntSort(), V) for w in ("literal", "field", "spec", "conv")}
    isnone = z3.Function("no field", z3.IntSort(), z3.BoolSort())
    g = e.st.ghost
    g["parsed"] = []

    def at(i):
        lit = F["literal"](I(i))
        e.typed(lit, ExtV("builtins.str"))
        fld = None if e.decide(isnone(I(i))) else F["field"](I(i))
        if fld is not None:
            e.assume(znot(e.same(fld, None)))
        return TupleV(Seq.of([lit, fld, F["spec"](I(i)), F["conv"](I(i))]))

    def parse(ctx, a, k):
        ctx.st.ghost["parsed"] = ctx.st.ghost["parsed"] + [a.concrete()[0]]
        return GenV(lambda: Seq([Block(n, at)]))
    text_of = lambda p: mget(p, e.box("text"))  # noqa: E731

    def get_field(ctx, a, k):
        c = a.concrete()
        h.prove("fields are looked up among the arguments given", len(c) == 3 and h.same(c[2], env))
        return TupleV(Seq.of([app("value of", c[0]), None]))

    def vformat(ctx, a, k):
        c = a.concrete()
        h.prove("nested fields too", len(c) == 3 and h.same(c[2], env))
        return app("expanded", c[0])
    fm = {"parse": parse, "get_field": get_field, "vformat": vformat,
          "convert_field": lambda ctx, a, k: app("converted", *a.concrete()), "format_field": lambda ctx, a, k: app("formatted", *a.concrete())}
    e.natives["string.Formatter"] = lambda ctx, a, k: ctx.alloc(Inst(ExtV("string.Formatter"), {x: NativeV(x, f) for x, f in fm.items()}))
    e.natives["textwrap.dedent"] = lambda ctx, a, k: app("dedented", a.concrete()[0])
    e.contracts["effectful.internals.unification.nested_type"] = lambda ctx, a, k: ctx.alloc(Inst(ExtV("Box"), {"value": app("type of", a.concrete()[0])}))

    def adapter(ctx, a, k):
        ty = a.concrete()[0]
        return ctx.alloc(Inst(ExtV("pydantic.TypeAdapter"), {"dump_python": NativeV("dump_python", lambda c, a2, k2: app("encoded", a2.concrete()[0]))}))
    e.natives["pydantic.TypeAdapter"] = adapter

    def block(x, i):
        return z3.Function("block", V, z3.IntSort(), V)(x, I(i))

    def blocks(ctx, a, k):
        x = ctx.box(a.concrete()[0])
        m = z3.Function("blocks", V, z3.IntSort())(x)
        ctx.assume(m >= 0)

        def bat(i):
            p = block(x, i)
            ctx.typed(p, ExtV("collections.abc.Mapping"))
            for kk in ("type", "text"):
                ctx.assume(mhas(p, ctx.box(kk)))
            ctx.typed(mget(p, ctx.box("text")), ExtV("builtins.str"))
            return p
        return GenV(lambda: Seq([Block(m, bat)]))
    e.contracts[EN + "to_content_blocks"] = blocks
    made = []

    def make(ctx, a, k):
        made.append((a.concrete()[0], ctx.st))
        return msg
    msg = h.val("message")
    e.contracts[CO + "_make_message"] = make
    log = []
    e.contracts[CO + "append_message"] = lambda ctx, a, k: log.append((a.concrete(), ctx.trivially_empty(k)))

    def lists(env):
        buf, parts = e.env_get(env, "buf")[1], e.env_get(env, "parts")[1]
        return e.unbox(buf), e.unbox(parts)

    def start(env):
        """An arbitrary state of the two lists; the parts end in text only if the buffer is empty."""
        buf, parts = lists(env)
        P, B = h.args("P"), h.args("B")
        e.st.heap[parts.oid], e.st.heap[buf.oid] = ListObj(P), ListObj(B)
        e.st.ghost["start"] = T.parts(P)[0] + T.texts(B)
        e.st.ghost["added"] = []
        return [buf.oid, parts.oid]

    def state(env):
        buf, parts = lists(env)
        b, p = e.obj(buf).seq, e.obj(parts).seq
        toks, kinds = T.parts(p)
        return toks + T.texts(b), kinds

    def goals(env):
        toks, kinds = state(env)
        want = e.st.ghost["start"] + e.st.ghost["added"]
        return [("what was rendered so far is there, in order, once", T.same(toks, want)),
                ("texts are merged", not any(a == b == "text" for a, b in zip(kinds, kinds[1:])) and (not kinds or kinds[-1] != "text"))]

    def check(env, j):
        g = e.st.ghost
        if "start" not in g:
            g["start"], g["added"] = [], []
            return goals(env)
        return goals(env)

    def havoc(env, j):
        return start(env)

    qual = CO + "call_user"

    # outer loop: one piece of the template
    def out_check(env, j):
        g = e.st.ghost
        if g.get("piece") is None:
            g["start"], g["added"] = [], []
            return [("every piece is rendered", I(g["rounds"]) == n)] + goals(env)
        if g.get("rendered") is None:
            i = g["piece"]
            h.cover("literal only")
            lit = F["literal"](I(i))
            g["added"] = [("text", lit)] if not h.proved(znot(e.truth_f(lit))) else []
            return [("a piece without a field gives its literal text only", znot(znot(isnone(I(i)))) if not isinstance(i, int) else True)] + goals(env)
        return goals(env)

    def out_havoc(env, j):
        g = e.st.ghost
        fr = start(env)
        g["piece"], g["rendered"] = j, None
        return fr

    # inner loop: one block of the value
    def content_of(i):
        return e.iter_seq(blocks(e, Seq.of([app("encoded", app("value of", F["field"](I(i))))]), None))

    def in_check(env, j):
        g = e.st.ghost
        i = g["piece"]
        if isinstance(j, int):  # entering: the literal text has been rendered, nothing else
            lit = F["literal"](I(i))
            g["added"] = [("text", lit)] if not h.proved(znot(e.truth_f(lit))) else []
            return [("every block is rendered", I(g["rounds"]) == e.seq_len(content_of(i)))] + goals(env)
        x = e.box(app("encoded", app("value of", F["field"](I(i)))))
        k = z3.simplify(j - 1)
        p = block(x, k)
        if e.decide(e.same(mget(p, e.box("type")), "text")):
            h.cover("text")
            t = text_of(p)
            conv, spec = F["conv"](I(i)), F["spec"](I(i))
            if e.truth(conv):
                t = app("converted", t, conv)
            spec = spec if e.truth(spec) else ""
            g["added"] = [("text", app("formatted", t, app("expanded", spec)))]
        else:
            h.cover("part")
            g["added"] = [("part", p)]
        return goals(env)

    def in_havoc(env, j):
        g = e.st.ghost
        fr = start(env)
        g["rendered"] = True
        return fr

    h.invariant(qual, "pieces", out_check, out_havoc, "For", pick=lambda nd: not inner(nd))
    h.invariant(qual, "blocks", in_check, in_havoc, "For", pick=inner)
    f = default_of(h, qual)
    r = h.call(f, template, env)
    h.prove("rendering succeeds", r.ok)
    if not r.ok:
        return
    h.cover("done")
    g = e.st.ghost
    h.prove("the template itself is parsed, once", len(g["parsed"]) == 1 and h.same(g["parsed"][0], app("dedented", template)))
    h.prove("one message is made", len(made) >= 1)
    m = e.map_of(made[-1][0])
    h.prove("of the user", h.same(e.map_get(m, "role"), "user"))
    ps = e.unbox(e.map_get(m, "content"))
    toks, kinds = T.parts(e.obj(ps).seq if isinstance(ps, Ref) else Seq())
    want = g["start"]
    h.prove("its content is all that was rendered", T.same(toks, want))
    h.prove("it is appended, and given", len(log) >= 1 and len(log[-1][0]) == 1 and h.same(log[-1][0][0], msg) and log[-1][1] and h.same(r.val, msg))


TCB = EN + "to_content_blocks"


@harness("C23", "content blocks", budget=200.0)
def content_blocks(h):
    """What a value is rendered to: JSON text, with content blocks in their places.

    By induction on the value: a value inside another is taken to be rendered as claimed."""
    e = h.e
    h.expect_cover("string", "block", "object", "array", "other", "done")
    T = Tokens(h)
    h.note("json.dumps is an opaque function giving text; whether a dictionary is a content block is opaque (checked at run time)")
    h.note("induction over values: a value inside another is rendered as claimed")
    e.natives["pydantic.validate_call"] = lambda ctx, a, k: a.segs[0].v if a.segs else NativeV("validate_call", lambda c, a2, k2: a2.segs[0].v)
    dumps = z3.Function("dumps", V, z3.StringSort())

    def jd(ctx, a, k):
        h.prove("json.dumps with its defaults", ctx.trivially_empty(k))
        return dumps(ctx.box(a.concrete()[0]))
    e.natives["json.dumps"] = jd
    isblock = z3.Function("is a block", V, z3.BoolSort())
    e.contracts[EN + "_is_content_block"] = lambda ctx, a, k: isblock(ctx.box(a.concrete()[0]))
    g = e.st.ghost
    textonly = z3.Function("only text", V, z3.BoolSort())
    W = {w: z3.Function("rendered:" + w, V, z3.StringSort()) for w in ("all", "tail")}
    head = z3.Function("rendered:head", V, V)

    def pair(env):
        return e.unbox(e.env_get(env, "buf")[1]), e.unbox(e.env_get(env, "blocks")[1])

    def rendered(x):
        """What a value inside another is rendered to."""
        if e.decide(textonly(x)):
            return [("text", W["all"](x))]
        return [("part", head(x)), ("text", W["tail"](x))]

    def walk(ctx, a, k):
        f = ctx.callee
        env = f.env
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            g = ctx.st.ghost
            g["start"], g["added"] = state(env)[0], []
            h.prove("nothing precedes the value", len(T.solid(g["start"])) == 0)
            start(env)
            r = ctx.exec_function(f, a, k)
            kind(env)
            for name, c in goals(env):
                h.prove("a value: " + name, c)
            # for the caller: the contract
            b, p = pair(env)
            ctx.st.heap[p.oid], ctx.st.heap[b.oid] = ListObj(Seq()), ListObj(Seq())
            g["final"] = render(ctx, env, ctx.box(value))
            return r
        c = a.concrete()
        h.prove("one value at a time", c is not None and len(c) == 1 and ctx.trivially_empty(k))
        render(ctx, env, ctx.box(c[0]))

    def render(ctx, env, x):
        b, p = pair(env)
        bs, ps = ctx.obj(b).seq, ctx.obj(p).seq
        toks = rendered(x)
        if len(toks) == 1:
            bs = bs + Seq.of([toks[0][1]])
        else:
            if not h.proved(I(ctx.seq_len(bs)) == 0):
                if ctx.decide(I(ctx.seq_len(bs)) > 0):
                    t = ctx.str_method("", "join", Seq.of([ctx.new_list(bs)]), Map())
                    ps = ps + Seq.of([ctx.new_dict(Map().plus(("store", "type", "text")).plus(("store", "text", t)))])
            ps = ps + Seq.of([head(x)])
            bs = Seq.of([toks[1][1]])
        ctx.st.heap[p.oid], ctx.st.heap[b.oid] = ListObj(ps), ListObj(bs)
        return toks
    e.contracts[TCB + ".<locals>.walk"] = walk

    def start(env):
        b, p = pair(env)
        P, B = h.args("P"), h.args("B")
        e.st.heap[p.oid], e.st.heap[b.oid] = ListObj(P), ListObj(B)
        e.st.ghost["start"] = T.parts(P)[0] + T.texts(B)
        e.st.ghost["added"] = []
        return [b.oid, p.oid]

    def state(env):
        b, p = pair(env)
        toks, kinds = T.parts(e.obj(p).seq)
        return toks + T.texts(e.obj(b).seq), kinds

    def goals(env):
        toks, kinds = state(env)
        return [("what was rendered so far is there, in order, once", T.same(toks, e.st.ghost["start"] + e.st.ghost["added"])),
                ("texts are merged", not any(a == b == "text" for a, b in zip(kinds, kinds[1:])) and (not kinds or kinds[-1] != "text"))]

    def opening():
        return "{" if e.decide(e.isinst(value, ExtV("builtins.dict"))) else "["

    def kind(env):
        """What the value is to be rendered to, besides what its parts are."""
        g = e.st.ghost
        if e.decide(e.isinst(value, ExtV("builtins.dict"))):
            if e.decide(isblock(e.box(value))):
                h.cover("block")
                g["added"] = [("part", value)]
            else:
                h.cover("object")
                h.prove("an object: its entries are rendered", g.get("looped") == "exit")
                g["added"] = [("text", "}")]
        elif e.decide(e.isinst(value, ExtV("builtins.list"))):
            h.cover("array")
            h.prove("an array: its items are rendered", g.get("looped") == "exit")
            g["added"] = [("text", "]")]
        else:
            h.cover("other")
            g["added"] = [("text", dumps(e.box(value)))]

    def check(env, j):
        g = e.st.ghost
        isd = e.decide(e.isinst(value, ExtV("builtins.dict")))
        if isinstance(j, int):
            g["added"] = [("text", opening())]
            size = e.seq_len(e.iter_seq(items(isd)))
            return [("every item is rendered", I(g["rounds"]) == size)] + goals(env)
        k = z3.simplify(j - 1)
        it = e.seq_at(e.iter_seq(items(isd)), k)
        added = [("text", ", ")] if e.decide(k > 0) else []
        if isd:
            key, it = e.unbox(it).seq.concrete()
            added += [("text", dumps(e.box(key))), ("text", ": ")]
        g["added"] = added + rendered(e.box(it))
        return goals(env)

    def items(isd):
        return ViewV("items", e.obj(value).map) if isd else value

    def havoc(env, j):
        fr = start(env)
        e.st.ghost["looped"] = "exit"
        return fr
    h.invariant(TCB + ".<locals>.walk", "items", check, havoc, "For")
    if e.choose("an object"):
        value = h.dict("entries")
    elif e.choose("an array"):
        value = e.new_list(h.args("items"))
    else:
        value = h.val("value")
        h.assume(znot(e.isinst(value, ExtV("builtins.dict"))))
        h.assume(znot(e.isinst(value, ExtV("builtins.list"))))
    f = h.fn(TCB)
    r = h.call(f, value)
    h.prove("rendering succeeds", r.ok)
    if not r.ok:
        return
    ps = e.unbox(r.val)
    seq = e.obj(ps).seq
    toks, kinds = T.parts(seq)
    if e.decide(e.isinst(value, ExtV("builtins.str"))):
        h.cover("string")
        h.prove("a string at the top is its own text", T.same(toks, [("text", value)]) if len(kinds) == 1 else False)
        return
    h.cover("done")
    h.prove("all that was rendered is given", T.same(toks, g_final(e)))
    h.prove("with texts merged", not any(a == b == "text" for a, b in zip(kinds, kinds[1:])))


def g_final(e):
    return e.st.ghost.get("final", [("missing", None)])
