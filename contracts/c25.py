"""C25: one request, one answer: calling a tool, and reading a model's answer."""
import ast

import z3

from pyvc.engine import I, Infeasible, keysT, sat_, slen, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403
from contracts.c24 import CO, appends, current_hist, histories, install, ops


def default_of(h, qual):
    """The default behaviour of an operation defined with @Operation.define."""
    op = h.fn(qual)
    return h.e.st.attrs[(op.get_id(), "__default__")]


@harness("C25", "calling a tool")
def calling(h):
    e = h.e
    h.expect_cover("answered", "fails")
    h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    hist = new(h.val("before"))
    install(h, gh, hist)
    appends(h)
    tc = h.obj("effectful.handlers.llm.encoding.DecodedToolCall", "tool_call")
    tool, ba, id_ = e.V_field(tc, "tool"), e.V_field(tc, "bound_args"), e.V_field(tc, "id")
    args, kwargs = e.V_field(ba, "args"), e.V_field(ba, "kwargs")
    e.typed(args, ExtV("builtins.tuple"))
    e.typed(kwargs, ExtV("collections.abc.Mapping"))
    made = []
    msg = h.val("message")

    def make(ctx, a, k):
        made.append(a.concrete()[0])
        return msg
    e.contracts[CO + "_make_message"] = make
    h.note("pydantic.validate_call is taken to leave well-typed calls unchanged")
    e.natives["pydantic.validate_call"] = lambda ctx, a, k: a.segs[0].v if a.segs else NativeV("validate_call", lambda c, a2, k2: a2.segs[0].v)
    blocks = []

    def to_blocks(ctx, a, k):
        blocks.append(a.concrete())
        t = ctx.app("blocks", a.concrete()[0])
        return t
    e.contracts["effectful.handlers.llm.encoding.to_content_blocks"] = to_blocks
    nested = []

    def ntype(ctx, a, k):
        nested.append(a.concrete())
        return ctx.alloc(Inst(ExtV("Box"), {"value": ctx.app("type of", a.concrete()[0])}))
    e.contracts["effectful.internals.unification.nested_type"] = ntype
    encoded = []

    def enc(ctx, a, k):
        encoded.append((a.concrete(), k))
        return ctx.app("encoded", a.concrete()[0])

    def adapter(ctx, a, k):
        return ctx.alloc(Inst(ExtV("pydantic.TypeAdapter"), {"dump_python": NativeV("dump_python", enc)}))
    e.natives["pydantic.TypeAdapter"] = adapter
    calls = []
    orig = h.val("original")

    def on(ctx, ev):
        if h.proved(e.same(ev.f, tool)):
            calls.append(ev)
            if ctx.choose("tool fails"):
                ctx.st.ghost["failed"] = True
                raise PyExc(orig)
            ctx.st.ghost["result"] = ctx.fresh("result")
            return ctx.st.ghost["result"]
        return NotImplemented
    e.st.ghost["opaque_hook"] = on
    f = default_of(h, CO + "call_tool")
    r = h.call(f, tc)
    h.prove("the tool named is called once", len(calls) == 1)
    if len(calls) != 1:
        return
    h.prove("with the positional arguments decoded", h.seq_same(calls[0].args, e.sym_seq(args)))
    h.prove("and the keyword arguments decoded", h.map_same(calls[0].kwargs, Map(kwargs)))
    log = e.st.ghost.get("log", ())
    if e.st.ghost.get("failed"):
        h.cover("fails")
        h.prove("a failing tool appends nothing", len(log) == 0)
        exc = e.isinst(orig, ExtV("builtins.Exception"))
        if not e.decide(exc):
            h.prove("an exit or interrupt surfaces", r.exc and h.same(r.val, orig))
            return
        v = e.unbox(r.val)
        ok = r.exc and isinstance(v, Ref) and e.is_sub(e.class_of(v), h.fn(CO + "ToolCallExecutionError"))
        h.prove("its error is reported as the tool's", ok)
        if ok:
            h.prove("with the request and the error", h.same(e.getattr(v, "raw_tool_call"), tc) and h.same(e.getattr(v, "original_error"), orig))
        return
    h.cover("answered")
    res = e.st.ghost["result"]
    h.prove("one message is made of the result", r.ok and len(made) == 1 and len(encoded) == 1 and len(blocks) == 1)
    if not (r.ok and len(made) == 1 and len(encoded) == 1 and len(blocks) == 1):
        return
    h.prove("the result is encoded as a value of its own type", h.same(encoded[0][0][0], res) and len(nested) == 1 and h.same(nested[0][0], res))
    h.prove("and put into content blocks", h.same(blocks[0][0], e.app("encoded", res)))
    m = e.map_of(made[0])
    h.prove("the answer carries the identifier of the request", h.same(e.map_get(m, "tool_call_id"), id_))
    h.prove("as a tool message", h.same(e.map_get(m, "role"), "tool"))
    h.prove("with the encoded result", h.same(e.map_get(m, "content"), e.app("blocks", e.app("encoded", res))))
    h.prove("it is appended once, last, to the history in force", len(log) == 1 and h.same(log[0][0], msg) and log[0][1] and log[0][2] == hist)
    h.prove("and is the answer", h.same(r.val, msg))


@harness("C25", "asking the model", budget=200.0)
def asking(h):
    e = h.e
    h.expect_cover("requests", "undecodable request", "text", "value", "undecodable value", "request fails", "itself", "offered")
    h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    c0 = h.val("before")
    hist = new(c0)
    install(h, gh, hist)
    appends(h)
    e.natives["pydantic.validate_call"] = lambda ctx, a, k: a.segs[0].v if a.segs else NativeV("validate_call", lambda c, a2, k2: a2.segs[0].v)
    h.note("pydantic and litellm objects are opaque; decoding a tool request or a result either gives a function of it or raises an Exception")
    env, model = h.mapping("env"), h.val("model")
    is_str = e.choose("text asked for")
    rtype = ExtV("builtins.str") if is_str else h.obj("builtins.object", "response_type")
    anchor = h.val("anchor") if e.choose("anchored") else None
    if anchor is not None:
        h.assume(znot(h.same(anchor, None)))
    tools = h.mapping("tools")
    CT, CP = h.fn(CO + "collect_tools"), h.fn(CO + "completion")
    rec = z3.Function("recursive signature", V, z3.BoolSort())
    REC = "effectful.handlers.llm.template._is_recursive_signature"
    e.contracts[REC] = lambda ctx, a, k: rec(ctx.box(a.concrete()[0]))
    g = e.st.ghost
    g.update(collected=[], asked=[])
    response = h.val("response")
    choice, message = e.app("choice", response), h.val("message")
    raws = e.new_list(h.args("raw_calls"))
    if not is_str:
        h.assume(znot(h.same(rtype, ExtV("builtins.str"))))
    text = h.val("text")
    e.typed(text, ExtV("builtins.str"))
    h.assume(e.truth_f(text))

    def on(ctx, ev):
        if h.proved(e.same(ev.f, CT)):
            ctx.st.ghost["collected"] = ctx.st.ghost["collected"] + [ev]
            return tools
        if h.proved(e.same(ev.f, CP)):
            ctx.st.ghost["asked"] = ctx.st.ghost["asked"] + [(ev, content(hist), ctx.st.ghost.get("log", ()))]
            if ctx.choose("request fails"):
                x = ctx.fresh("failure")
                ctx.st.ghost["failure"] = x
                raise PyExc(x)
            return ctx.alloc(Inst(ExtV("litellm.Response"), {"choices": ctx.new_list(Seq.of([chv]))}))
        return NotImplemented
    e.st.ghost["opaque_hook"] = on
    msgv = e.alloc(Inst(ExtV("litellm.Message"), {
        "role": "assistant", "model_dump": NativeV("model_dump", lambda ctx, a, k: dumped),
        "get": NativeV("get", lambda ctx, a, k: {"tool_calls": raws, "content": text}.get(a.concrete()[0]))}))
    dumped = h.mapping("dumped")
    chv = e.alloc(Inst(ExtV("litellm.types.utils.Choices"), {"message": msgv}))
    made = []
    raw_message = h.val("raw_message")

    def make(ctx, a, k):
        made.append(a.concrete()[0])
        return raw_message
    e.contracts[CO + "_make_message"] = make
    decodes = z3.Function("request decodes", V, z3.BoolSort())
    ok_value = h.bool("result decodes")
    contexts = []

    def adapter(ctx, a, k):
        def dump(c, a2, k2):
            return c.app("spec", a2.concrete()[0])

        def validate(c, a2, k2):
            x = c.box(a2.concrete()[0])
            contexts.append(c.map_get(k2, "context"))
            if c.decide(decodes(x)):
                return c.app("decoded", x)
            y = c.app("decode error", x)
            c.assume(c.isinst(y, ExtV("builtins.Exception")))
            raise PyExc(y)
        return ctx.alloc(Inst(ExtV("pydantic.TypeAdapter"), {"dump_python": NativeV("dump_python", dump), "validate_python": NativeV("validate_python", validate)}))
    e.natives["pydantic.TypeAdapter"] = adapter
    bad = h.val("badvalue")
    h.assume(e.isinst(bad, ExtV("builtins.Exception")))
    value = h.val("value")
    parsed = []

    def validate_model(ctx, a, k):
        parsed.append(a.concrete()[0])
        if ctx.decide(ok_value):
            return ctx.alloc(Inst(ExtV("BoxedResponse"), {"value": value}))
        raise PyExc(bad)
    boxed = e.alloc(Inst(ExtV("pydantic.Model"), {"model_validate": NativeV("model_validate", validate_model)}))
    e.natives["pydantic.create_model"] = lambda ctx, a, k: boxed
    e.natives["json.loads"] = lambda ctx, a, k: ctx.app("json", a.concrete()[0])
    f = default_of(h, CO + "call_assistant")
    opt = h.val("option")
    kw = {"temperature": opt}
    if anchor is not None or e.choose("anchor given"):
        kw["anchor"] = anchor
    r = h.call(f, env, rtype, model, **kw)
    g = e.st.ghost
    log = g.get("log", ())
    h.prove("the tools are collected from the scope", len(g["collected"]) >= 1 and all(h.seq_same(x.args, Seq.of([env])) for x in g["collected"]))
    h.prove("the model is asked once", len(g["asked"]) == 1)
    if len(g["asked"]) != 1:
        return
    ev, c_at, log_at = g["asked"][0]
    h.prove("before anything is appended", len(log_at) == 0)
    if "failure" in g:
        h.cover("request fails")
        h.prove("a request that fails surfaces, and appends nothing", r.exc and h.same(r.val, g["failure"]) and len(log) == 0)
        return
    a, k = ev.args.concrete(), ev.kwargs
    h.prove("it is the model configured", a is not None and len(a) == 1 and h.same(a[0], model))
    h.prove("options are passed on", h.same(e.map_get(k, "temperature"), opt))
    h.prove("the anchor is not sent", e.map_get(k, "anchor") is e.MISSING)
    ms = e.unbox(e.map_get(k, "messages"))
    hv = e.app("history:values", c0)
    h.prove("all messages of the history are sent, in order", isinstance(ms, Ref) and h.seq_same(e.obj(ms).seq, e.iter_seq(hv)))
    rf = e.map_get(k, "response_format")
    h.prove("a structured answer is asked for unless text is", (rf is None) if is_str else (rf is not e.MISSING and h.same(rf, boxed)))
    h.prove("the answer's message is made of all of the answer", len(made) >= 1 and all(h.map_same(e.map_of(m), Map(dumped)) for m in made))
    h.prove("and appended, once, last", len(log) == 1 and h.same(log[0][0], raw_message) and log[0][1] and log[0][2] == hist)
    j = h.int("j")
    if contexts and e.unbox(contexts[-1]) is not e.MISSING and e.choose("a tool"):
        # the tools offered are those requests are decoded with
        name = h.val("name")
        e.typed(name, ExtV("builtins.str"))
        KEY = e.unbox(h.fn("effectful.handlers.llm.encoding.REPL_ANCHOR_KEY"))
        h.assume(znot(h.same(name, KEY)))
        t = e.map_get(Map(tools), name)
        got = e.map_get(e.map_of(contexts[-1]), name)
        if t is e.MISSING:
            h.prove("only tools collected are offered", got is e.MISSING)
        else:
            own = h.same(e.V_field(t, "__default__"), anchor) if anchor is not None else False
            hide = zand(own, znot(rec(e.box(e.V_field(t, "__signature__")))))
            if e.decide(hide):
                h.cover("itself")
                h.prove("a template is not offered to itself unless it is recursive", got is e.MISSING)
            else:
                h.cover("offered")
                h.prove("every other tool collected is offered, under its name", got is not e.MISSING and h.same(got, t))
        return
    rs = e.iter_seq(raws)
    n = I(e.seq_len(rs))
    if r.ok:
        v = e.unbox(r.val)
        ok = isinstance(v, TupleV) and v.seq.concrete() is not None and len(v.seq.concrete()) == 3
        h.prove("the answer is a message, its requests and its result", ok)
        if not ok:
            return
        m, calls, res = v.seq.concrete()
        h.prove("its message is the one appended", h.same(m, raw_message))
        cs = e.iter_seq(calls)
        h.prove("every request is decoded", I(e.seq_len(cs)) == n)
        if e.decide(zand(j >= 0, j < n, j < I(e.seq_len(cs)))):
            h.prove("each in its place", h.same(e.seq_at(cs, j), e.app("decoded", e.box(e.seq_at(rs, j)))))
        if e.decide(n > 0):
            h.cover("requests")
            h.prove("an answer with requests has no result", res is None)
        elif is_str:
            h.cover("text")
            h.prove("a text is given as it is", h.same(res, text))
        else:
            h.cover("value")
            h.prove("a value is decoded from the text", h.same(res, value) and len(parsed) == 1 and h.same(parsed[0], e.app("json", text)))
        return
    x = e.unbox(r.val)
    cls = e.class_of(x) if isinstance(x, Ref) else None
    if cls is not None and e.is_sub(cls, h.fn(CO + "ToolCallDecodingError")):
        h.cover("undecodable request")
        raw = e.getattr(x, "raw_tool_call")
        h.prove("a request is reported only if it cannot be decoded", znot(decodes(e.box(raw))))
        h.prove("with what was wrong with it", h.same(e.getattr(x, "original_error"), e.app("decode error", raw)))
        h.prove("and the message it was in", h.same(e.getattr(x, "raw_message"), raw_message))
    else:
        ok = cls is not None and e.is_sub(cls, h.fn(CO + "ResultDecodingError"))
        h.prove("only undecodable requests and results are reported", ok)
        if ok:
            h.cover("undecodable value")
            h.prove("a result is reported only if it cannot be decoded", zand(n == 0, znot(ok_value), not is_str))
            h.prove("with its error", h.same(e.getattr(x, "original_error"), bad))
            h.prove("and its message", h.same(e.getattr(x, "raw_message"), raw_message))




COLLECT = CO + "collect_tools"


def _loop(word):
    return lambda nd: word in ast.dump(nd.iter)


def scope_of(h):
    """An arbitrary scope, agents with arbitrary classes and attributes."""
    e = h.e
    h.runtime()
    e.solver.set("timeout", 400)
    h.note("precondition: the names made for an agent's tools (agent__method) collide neither with each other nor with names of the scope")
    h.note("reading an attribute of an agent gives one value per object and name; the classes do not change while tools are collected")
    s = Inst(None, {}).fields
    et = e.fresh("scope")
    s["env"], s["names"] = et, keysT(et)
    s["joined"], s["attribute"], s["static"] = [z3.Function(n, V, V, V) for n in ("joined", "attribute of", "static attribute of")]
    s["class"], s["mro"], s["vars"] = [z3.Function(n, V, V) for n in ("class of", "mro of", "vars of")]
    J = s["joined"]
    s["follow"] = []
    Tool = h.fn("effectful.handlers.llm.template.Tool")
    s["agent"] = lambda v: e.isinst(v, h.fn("effectful.handlers.llm.template.Agent"))
    s["tool"] = lambda v: e.isinst(v, Tool)
    s["property"] = lambda o, x: zor(*[e.isinst(s["static"](o, x), ExtV(p)) for p in ("builtins.property", "functools.cached_property")])

    def formatted(node, env, mod):
        a, b = [e.box(e.ev(x.value, env, mod)) for x in node.values if not isinstance(x, ast.Constant)]
        e.assume(z3.Not(mhas(et, J(a, b))))
        for c, d in s["follow"]:
            e.assume(z3.Implies(J(a, b) == J(c, d), z3.And(a == c, b == d)))
        return J(a, b)
    e.ev_JoinedStr = formatted
    e.natives["builtins.type"] = lambda ctx, a_, k: s["class"](ctx.box(a_.concrete()[0]))
    old = e.V_attr

    def V_attr(o, name, default):
        if name in ("__mro__", "__dict__"):
            t = s["mro" if name == "__mro__" else "vars"](o)
            e.keep.append(t)
            e.typed(t, ExtV("builtins.tuple" if name == "__mro__" else "collections.abc.Mapping"))
            e.assume(kind(t) == K_OBJ)
            return t
        return old(o, name, default)
    e.V_attr = V_attr
    e.natives["inspect.getattr_static"] = lambda ctx, a_, k: s["static"](*[ctx.box(x) for x in a_.concrete()])

    def read(ctx, a_, k):
        o, x = [ctx.box(v) for v in a_.concrete()[:2]]
        h.prove("no property of an agent is read", znot(s["property"](o, x)))
        for f in s.get("read", ()):
            f(o, x)
        return s["attribute"](o, x)
    e.natives["builtins.getattr"] = read
    return s


def known(e, t, k):
    """The place of a key among the keys of a map."""
    q = midx(t, k)
    e.assume(z3.Implies(mhas(t, k), z3.And(0 <= q, q < slen(keysT(t)), sat_(keysT(t), q) == k)))
    return q


def B(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


@harness("C25", "collecting tools", budget=300.0)
def collecting(h):
    """collect_tools collects every tool in the scope and every tool method of an agent in it, and nothing else."""
    e = h.e
    h.expect_cover("collected")
    s = scope_of(h)
    et = s["env"]
    x, n0, n1, a1 = [e.box(h.val(n)) for n in ("name", "direct", "agent", "method")]
    ci = e.fresh("class index", z3.IntSort())
    follow = "direct" if e.choose("a tool bound directly") else "agent" if e.choose("a method of an agent") else "any"
    o1 = mget(et, n1)
    m1 = s["mro"](s["class"](o1))
    c1 = sat_(m1, ci)
    J1 = s["joined"](n1, a1)
    w0, w1, wa = known(e, et, n0), known(e, et, n1), known(e, s["vars"](c1), a1)
    if follow == "direct":
        e.assume(zand(mhas(et, n0), s["tool"](mget(et, n0))))
    if follow == "agent":
        e.assume(zand(mhas(et, n1), s["agent"](o1), znot(s["tool"](o1)), ci >= 0, ci < slen(m1), mhas(s["vars"](c1), a1), znot(s["property"](o1, a1)), s["tool"](s["attribute"](o1, a1))))
    reach = z3.Function("reachable from the scope", V, z3.BoolSort())
    at = {}
    s["follow"].append((n1, a1))
    e.assume(z3.Not(mhas(et, J1)))
    s["read"] = [lambda o, y: e.assume(z3.Implies(o == mget(et, at["name"]), reach(s["attribute"](o, y))))]

    def entered(j):
        """Values of the scope, and attributes of its values, are reachable."""
        at["name"] = sat_(keysT(et), I(j))
        e.assume(z3.Implies(mhas(et, at["name"]), reach(mget(et, at["name"]))))
    key, want = (n0, mget(et, n0)) if follow == "direct" else (J1, s["attribute"](o1, a1))

    def facts(env, done):
        m = e.map_of(e.env_get(env, "result")[1])
        if follow == "any":
            v = e.map_get(m, x)
            return [("only tools reachable from the scope are collected", True if v is e.MISSING else zand(s["tool"](e.box(v)), reach(e.box(v))))]
        what = "a tool bound in the scope is collected under its name" if follow == "direct" else "a tool method of an agent is collected"
        v = e.map_get(m, key)
        return [(what, z3.Implies(B(done), B(False if v is e.MISSING else e.box(v) == want)))]

    def anything(env, done):
        r = e.env_get(env, "result")[1]
        f = e.fresh("collected")
        if follow == "any":
            e.assume(z3.Implies(mhas(f, x), z3.And(B(s["tool"](mget(f, x))), reach(mget(f, x)))))
        else:
            e.assume(z3.Implies(B(done), z3.And(mhas(f, key), mget(f, key) == want)))
        e.st.heap[r.oid] = DictObj(Map(f))
        return {r.oid}
    name = lambda env: e.box(e.env_get(env, "name")[1])  # noqa: E731

    def outer(env, j):
        return True if follow == "any" else I(j) > (w0 if follow == "direct" else w1)

    def passed(env):
        return True if follow == "any" else known(e, et, name(env)) > (w0 if follow == "direct" else w1)

    def mid(env, j):
        return zor(passed(env), zand(name(env) == n1, I(j) > ci)) if follow == "agent" else passed(env)

    def inner(env, j):
        if follow != "agent":
            return passed(env)
        return zor(passed(env), zand(name(env) == n1, at["class"] > ci), zand(name(env) == n1, at["class"] == ci, I(j) > wa))

    def outer_havoc(env, j):
        entered(j)
        return anything(env, outer(env, j))

    def mid_havoc(env, j):
        at["class"] = I(j)
        return anything(env, mid(env, j))
    h.invariant(COLLECT, "scope", lambda env, j: facts(env, outer(env, j)), outer_havoc, "For", pick=_loop("'env'"))
    h.invariant(COLLECT, "classes", lambda env, j: facts(env, mid(env, j)), mid_havoc, "For", pick=_loop("__mro__"))
    h.invariant(COLLECT, "methods", lambda env, j: facts(env, inner(env, j)), lambda env, j: anything(env, inner(env, j)), "For", pick=_loop("'vars'"))

    def in_order(ctx, a_, k):
        h.cover("collected")
        seq = ctx.iter_seq(a_.concrete()[0])
        h.prove("what is collected is what is offered", ctx.seq_len(seq) is not None)
        raise Infeasible
    e.natives["builtins.sorted"] = in_order
    h.call(default_of(h, COLLECT), e.new_dict(Map(et)))


@harness("C25", "one name per tool", budget=300.0)
def naming(h):
    """collect_tools offers each tool collected under exactly one of the names it was collected under."""
    e = h.e
    h.expect_cover("offered", "still offered")
    s = scope_of(h)
    f = e.fresh("collected")
    N = slen(keysT(f))
    x, y = e.box(h.val("name")), e.box(h.val("another name"))
    last = []
    a, b = z3.Consts("a! b!", V)
    e.assume(z3.ForAll([a, b], z3.Implies(z3.And(mhas(f, a), mhas(f, b)), pyeqF(a, b) == (a == b)), patterns=[pyeqF(a, b)]))  # names are texts
    srt, place = z3.Function("in order", z3.IntSort(), V), z3.Function("place in order", V, z3.IntSort())

    def collected(env, j):
        """Whatever was collected (contract: collecting tools)."""
        if e.trail[-1]:
            raise Infeasible
        r = e.env_get(env, "result")[1]
        e.st.heap[r.oid] = DictObj(Map(f))
        return {r.oid}
    h.invariant(COLLECT, "scope", lambda env, j: [], collected, "For", pick=_loop("'env'"))

    def in_order(ctx, a_, k):
        seq = ctx.iter_seq(a_.concrete()[0])
        q = ctx.fresh("q", z3.IntSort())
        if ctx.choose("look at an entry"):
            ctx.assume(z3.And(q >= 0, q < N))
            it = ctx.unbox(ctx.seq_at(seq, q))
            n = ctx.seq_at(it.seq, 0)
            h.prove("names and tools are put in order", zand(h.same(n, sat_(keysT(f), q)), h.same(ctx.seq_at(it.seq, 1), mget(f, ctx.box(n)))))
            raise Infeasible
        h.prove("all of them", I(ctx.seq_len(seq)) == N)

        def at(j):
            ctx.assume(z3.Implies(z3.And(I(j) >= 0, I(j) < N), z3.And(mhas(f, srt(I(j))), place(srt(I(j))) == I(j))))
            return TupleV(Seq.of([srt(I(j)), mget(f, srt(I(j)))]))
        return ctx.new_list(Seq([Block(N, at)]))
    h.note("sorted gives the same entries in some order; operations are equal and hash alike only to themselves (proved: C09)")
    e.natives["builtins.sorted"] = in_order

    def stays(env, j, n):
        """Is the entry at a name to be there after j rounds?"""
        q = known(e, f, n)
        e.assume(z3.Implies(mhas(f, n), z3.And(0 <= place(n), place(n) < N, srt(place(n)) == n)))
        if not e.decide(mhas(f, n)):
            return False
        last.append(e.map_of(e.env_get(env, "tool2name")[1]))
        t = e.map_get(last[-1], mget(f, n))
        h.prove("every tool has a name", t is not e.MISSING)
        return znot(zand(q < I(j), e.box(t) != n))

    def check(env, j):
        m = e.map_of(e.env_get(env, "result")[1])
        out = []
        for n in (x, y):
            v = e.map_get(m, n)
            out.append(("an entry goes when it is looked at and its tool has another name, not otherwise", B(v is not e.MISSING) == B(stays(env, j, n))))
            out.append(("no entry changes", True if v is e.MISSING else e.box(v) == mget(f, n)))
        return out

    def havoc(env, j):
        g = e.fresh("kept")
        names = [x, y]
        if e.trail[-1]:
            cur = sat_(keysT(f), I(j))
            e.assume(z3.And(mhas(f, cur), midx(f, cur) == I(j)))
            names.append(cur)
        for n in names:
            e.assume(mhas(g, n) == B(stays(env, j, n)))
            e.assume(z3.Implies(mhas(g, n), mget(g, n) == mget(f, n)))
        r = e.env_get(env, "result")[1]
        e.st.heap[r.oid] = DictObj(Map(g))
        return {r.oid}
    h.invariant(COLLECT, "names", check, havoc, "For", pick=_loop("'result'"))
    h.assume(z3.And(*[z3.Implies(mhas(f, n), z3.And(0 <= place(n), place(n) < N, srt(place(n)) == n)) for n in (x, y)]))
    out = h.call(default_of(h, COLLECT), e.new_dict(Map(s["env"])))
    h.prove("collecting succeeds", out.ok)
    if not out.ok:
        return
    m = e.map_of(out.val)
    a = e.map_get(m, x)
    if a is not e.MISSING:
        h.cover("offered")
        h.prove("what is offered was collected under that name", zand(mhas(f, x), e.box(a) == mget(f, x)))
        b = e.map_get(m, y)
        if b is not e.MISSING:
            h.prove("no tool is offered under two names", z3.Implies(e.box(a) == e.box(b), x == y))
    elif e.decide(mhas(f, x)):
        h.cover("still offered")
        # y: the other name its tool has
        t = e.map_get(last[-1], mget(f, x))
        h.prove("a tool left out has a name", t is not e.MISSING)
        e.assume(e.box(t) == y)
        b = e.map_get(m, y)
        h.prove("a tool left out at one name is offered at another", False if b is e.MISSING else e.box(b) == mget(f, x))
