"""C24: the message history of a template call, and of a retried request."""
import z3

from pyvc.engine import I, zand, znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

CO = "effectful.handlers.llm.completions."
OD = ExtV("collections.OrderedDict")
EMPTY = "history:empty"
CALLS = ("call_system", "call_user", "call_assistant", "call_tool")


def histories(h):
    """Ordered dictionaries as objects with an abstract content; what is done to them is tracked by value."""
    e = h.e
    h.note("an ordered dictionary of messages is modelled by its contents (copy, clear, update, item assignment, move_to_end)")
    empty = e.global_const(EMPTY)

    def new(content):
        return e.alloc(Inst(OD, {"content": content}))

    def put(r, c):
        o = e.obj(r)
        e.st.heap[r.oid] = Inst(o.cls, {**o.fields, "content": c})
    e.natives["collections.OrderedDict"] = lambda ctx, a, k: new(empty if not a.segs else content(a.segs[0].v))

    def is_hist(o):
        o = e.unbox(o)
        return isinstance(o, Ref) and isinstance(e.obj(o), Inst) and e.obj(o).cls == OD

    def content(r):
        return e.obj(e.unbox(r)).fields["content"]
    old, olds, oldt = type(e).method, type(e).setitem, type(e).truth_f

    def method(o, name, args, kwargs):
        if is_hist(o):
            o = e.unbox(o)
            c = args.concrete()
            if name == "copy":
                return new(content(o))
            if name == "clear":
                return put(o, empty)
            if name == "update":
                x = content(c[0])
                return put(o, x if e.decide(content(o) == empty) else e.app("history:updated", content(o), x))
            if name == "move_to_end":
                last = e.map_get(kwargs, "last") if len(c) < 2 else c[1]
                return put(o, content(o) if last is True or last is e.MISSING else e.app("history:first", content(o), c[0]))
            if name == "values":
                x = e.app("history:values", content(o))
                e.typed(x, ExtV("collections.abc.ValuesView"))
                return x
            raise Unsupported("history." + name)
        return old(e, o, name, args, kwargs)

    def setitem(o, k, v):
        if is_hist(o):
            return put(e.unbox(o), appended(h, content(o), k, v))
        return olds(e, o, k, v)

    def truth_f(o):
        if is_hist(o):
            return content(o) != empty
        return oldt(e, o)
    oldg = type(e).getattr

    def getattr_(o, name, *d):
        if is_hist(o):
            return NativeV("history." + name, lambda ctx, a, k: method(o, name, a, k))
        return oldg(e, o, name, *d)
    e.method, e.setitem, e.truth_f, e.getattr = method, setitem, truth_f, getattr_
    return new, content, put


def appended(h, c, k, v):
    return h.e.app("history:appended", c, k, v)


def current(h):
    """What _get_history gives here: the active history, or MISSING."""
    e = h.e
    f = e.map_get(e.interp_snapshot(), h.fn(CO + "_get_history"))
    return f


def ops(h, on_call):
    """Calling an operation (contract of C02): the handler in force, or the default."""
    e = h.e
    gh = h.fn(CO + "_get_history")
    named = {n: h.fn(CO + n) for n in CALLS}

    def call(ctx, args, kwargs):
        f, rest = args.segs[0].v, Seq(args.segs[1:])
        if h.proved(e.same(f, gh)):
            v = e.map_get(e.interp_snapshot(), gh)
            if v is e.MISSING:
                ctx.throw(h.fn(CO + "_NoActiveHistoryException"))
            return ctx.call(v, rest, kwargs)
        for n, o in named.items():
            if h.proved(e.same(f, o)):
                return on_call(n, rest, kwargs)
        return ctx.opaque(f, rest, kwargs, what="op")
    e.contracts["effectful.ops.types.Operation.__call__"] = call
    for o in [gh] + list(named.values()):
        e.keep.append(o)
    return gh


def install(h, gh, hist):
    e = h.e
    d = e.obj(e.st.ghost["runtime"]).fields["interpretation"]
    m = e.obj(d).map
    e.st.heap[d.oid] = DictObj(m.plus(("store", gh, h.native("history", lambda a, k: hist))) if hist is not None else m.plus(("del", gh)))


@harness("C24", "appending")
def appending(h):
    e = h.e
    h.expect_cover("active", "none", "first")
    h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    msg = h.val("message")
    e.typed(msg, ExtV("collections.abc.Mapping"))
    h.assume(mhas(msg, e.box("id")))
    c0 = h.val("before")
    hist = new(c0)
    active = e.choose("active")
    install(h, gh, hist if active else None)
    first = e.choose("first")
    f = h.fn(CO + "append_message")
    out = h.call(f, msg, last=False) if first else h.call(f, msg)
    h.prove("appending succeeds, and calls nothing", out.ok and len(h.events()) == 0)
    k = mget(msg, e.box("id"))
    if not active:
        h.cover("none")
        h.prove("without an active history nothing changes", h.same(content(hist), c0))
    else:
        want = appended(h, c0, k, msg)
        if first:
            h.cover("first")
            want = e.app("history:first", want, k)
        h.cover("active")
        h.prove("the message is put in under its identifier, last or first as asked", h.same(content(hist), want))


RETRY = CO + "RetryLLMHandler."


def appends(h):
    """append_message by contract (verified above): what it is given, in order."""
    e = h.e

    def app(ctx, args, kwargs):
        c = args.concrete()
        last = ctx.map_get(kwargs, "last")
        ctx.st.ghost["log"] = ctx.st.ghost.get("log", ()) + ((c[0], last is ctx.MISSING or last is True, current_hist(h)),)
        return None
    e.contracts[CO + "append_message"] = app


def current_hist(h):
    e = h.e
    v = e.map_get(e.interp_snapshot(), h.fn(CO + "_get_history"))
    return None if v is e.MISSING else e.call(v, Seq(), Map())


def impl(h, qual, op):
    """The function behind @implements(op)."""
    e = h.e
    d = e.obj(e.unbox(h.fn(qual)))
    h.prove("it implements " + op.rpartition(".")[2], h.same(d.fields["op"], h.fn(op)))
    return d.fields["impl"]


@harness("C24", "between attempts")
def before_sleep(h):
    e = h.e
    h.expect_cover("hook", "no hook")
    h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    appends(h)
    for c in ("ToolCallDecodingError", "ResultDecodingError"):
        if e.choose(c):
            break
    err = h.obj(CO + c, "error")
    raw, fb = e.V_field(err, "raw_message"), h.val("feedback")
    hook = h.val("hook") if e.choose("hook") else None
    tb = h.bool("include_traceback")
    self_ = e.alloc(Inst(h.fn(CO + "RetryLLMHandler"), {"include_traceback": tb, "_user_before_sleep": hook}))
    if hook is not None:
        h.assume(znot(h.same(hook, None)))
    state = h.val("state")

    def on(ctx, ev):
        if ev.what in ("method", "call") and isinstance(ev.f, BoundV):
            pass
        return NotImplemented
    asked = []

    def feedback(ctx, args, kwargs):
        asked.append(args.concrete())
        return fb
    for k in ("ToolCallDecodingError", "ResultDecodingError", "DecodingError"):
        e.contracts[CO + k + ".to_feedback_message"] = feedback
    out = e.st.ghost
    oldv = type(e).V_attr

    def V_attr(o, name, default):
        if name == "outcome":
            return e.alloc(Inst(ExtV("tenacity.Future"), {"exception": NativeV("exception", lambda ctx, a, k: err)}))
        return oldv(e, o, name, default)
    e.V_attr = V_attr
    install(h, gh, new(h.val("before")))
    r = h.call(h.fn(RETRY + "_before_sleep"), self_, state)
    log = e.st.ghost.get("log", ())
    h.prove("two messages are appended: the malformed answer, then what was wrong with it", len(log) == 2 and h.same(log[0][0], raw) and h.same(log[1][0], fb) and log[0][1] and log[1][1])
    h.prove("the feedback is asked of the error, with the traceback as configured", len(asked) == 1 and h.same(asked[0][0], err) and len(asked[0]) == 2 and h.same(asked[0][1], tb))
    evs = h.events()
    if hook is None:
        h.cover("no hook")
        h.prove("nothing else is called", r.ok and len(evs) == 0)
    else:
        h.cover("hook")
        h.prove("then the user's hook, once, with the same state", len(evs) == 1 and h.same(evs[0].f, hook) and h.seq_same(evs[0].args, Seq.of([state])))
        h.prove("what it raises is raised", r.ok == evs[0].ok)


@harness("C24", "configuration")
def configuration(h):
    e = h.e
    h.expect_cover("ok")
    h.runtime()
    stop, tb, catch, extra = h.val("stop"), h.bool("tb"), h.val("catch"), h.val("wait")
    self_ = e.alloc(Inst(h.fn(CO + "RetryLLMHandler"), {}))
    hook = h.val("hook") if e.choose("hook") else None
    kw = dict(include_traceback=tb, catch_tool_errors=catch, stop=stop, wait=extra)
    if hook is not None:
        kw["before_sleep"] = hook
    e.st.ghost["opaque_raises"] = False
    r = h.call(h.fn(RETRY + "__init__"), self_, **kw)
    h.prove("configuring succeeds", r.ok)
    evs = h.events()
    mk = [x for x in evs if x.f == ExtV("tenacity.Retrying")]
    if not r.ok or len(mk) != 1:
        h.prove("one retryer is made", False)
        return
    h.cover("ok")
    k = mk[0].kwargs
    which = [x for x in evs if x.f == ExtV("tenacity.retry_if_exception_type")]
    ok = len(which) == 1 and h.same(e.map_get(k, "retry"), which[0].result)
    h.prove("it retries by the kind of the error", ok)
    if ok:
        c = which[0].args.concrete()
        got = e.unbox(c[0]).seq.concrete() if c and isinstance(e.unbox(c[0]), TupleV) else c
        names = {x.qual for x in got if isinstance(x, ClassV)} if got else set()
        h.prove("only after decoding and validation failures", names == {CO + "ToolCallDecodingError", CO + "ResultDecodingError"} and len(got) == 2)
    h.prove("at most as often as configured", h.same(e.map_get(k, "stop"), stop))
    h.prove("an error that is given up on surfaces itself", e.map_get(k, "reraise") is True)
    h.prove("other options are passed on", h.same(e.map_get(k, "wait"), extra))
    f = e.map_get(k, "before_sleep")
    h.prove("the feedback is given between attempts", isinstance(f, BoundV) and getattr(f.func, "qual", "") == RETRY + "_before_sleep" and h.same(f.self_, self_) if isinstance(f, BoundV) and hasattr(f, "self_") else isinstance(f, BoundV))
    fields = e.obj(self_).fields
    h.prove("the user's hook is kept", h.same(fields.get("_user_before_sleep"), hook))
    h.prove("the retryer is the one made", h.same(fields.get("call_assistant_retryer"), mk[0].result))
    h.prove("the settings are kept", h.same(fields.get("include_traceback"), tb) and h.same(fields.get("catch_tool_errors"), catch))


@harness("C24", "retried request")
def retried(h):
    e = h.e
    h.expect_cover("answered", "given up")
    rt = h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    appends(h)
    c0 = h.val("before")
    hist = new(c0)
    install(h, gh, hist)
    old = e.obj(rt).fields["interpretation"]
    retryer = h.val("retryer")
    self_ = e.alloc(Inst(h.fn(CO + "RetryLLMHandler"), {"call_assistant_retryer": retryer}))
    msg, calls, res = h.val("message"), h.val("calls"), h.val("result")
    seen = []
    c1 = h.val("attempts")

    def on(ctx, ev):
        if ev.f is not retryer and not h.proved(e.same(ev.f, retryer)):
            return NotImplemented
        now = current_hist(h)
        seen.append((ev, now, content(now)))
        put(now, c1)     # the attempts append whatever they like to the history they see
        if ctx.choose("gives up"):
            x = ctx.fresh("failure")
            ctx.st.ghost["failure"] = x
            raise PyExc(x)
        return TupleV(Seq.of([msg, calls, res]))
    e.st.ghost["opaque_hook"] = on
    r = h.call(impl(h, RETRY + "_call_assistant", CO + "call_assistant"), self_, h.val("env"), h.val("type"), h.val("model"), extra=h.val("extra"))
    h.prove("one retried request is made", len(seen) == 1)
    if len(seen) != 1:
        return
    ev, now, c = seen[0]
    h.prove("of the enclosing implementation, with the arguments of the call", h.seq_same(ev.args, Seq.of([h.fn("effectful.ops.semantics.fwd")])) and e.trivially_empty(ev.kwargs))
    h.prove("the attempts see a history of their own", now is not None and now != hist)
    h.prove("which starts as the caller's", h.same(c, c0))
    h.prove("what they append to it stays out of the caller's", h.same(content(hist), c0))
    h.prove("afterwards the caller's history is in force", h.same(e.obj(rt).fields["interpretation"], old))
    log = e.st.ghost.get("log", ())
    if r.ok:
        h.cover("answered")
        h.prove("the answer is the last attempt's", isinstance(e.unbox(r.val), TupleV) and h.seq_same(e.unbox(r.val).seq, Seq.of([msg, calls, res])))
        h.prove("its message, and only it, is appended to the caller's history", len(log) == 1 and h.same(log[0][0], msg) and log[0][1] and log[0][2] == hist)
    else:
        h.cover("given up")
        h.prove("a request given up on appends nothing", len(log) == 0)
        h.prove("and raises what the last attempt did", h.same(r.val, e.st.ghost.get("failure")))


@harness("C24", "failing tools")
def failing(h):
    e = h.e
    h.expect_cover("answers", "caught", "not caught", "other error")
    rt = h.runtime()
    new, content, put = histories(h)
    gh = ops(h, None)
    appends(h)
    hist = new(h.val("before"))
    install(h, gh, hist)
    catch, tb, tc, fb = h.val("catch"), h.bool("tb"), h.val("tool_call"), h.val("feedback")
    self_ = e.alloc(Inst(h.fn(CO + "RetryLLMHandler"), {"catch_tool_errors": catch, "include_traceback": tb}))
    T = h.fn(CO + "ToolCallExecutionError")
    tee = h.obj(CO + "ToolCallExecutionError", "failure")
    orig = e.V_field(tee, "original_error")
    how = "exec" if e.choose("tool fails") else "other" if e.choose("other failure") else "ok"
    answer, oth = h.val("answer"), h.val("other")
    if how == "other":
        h.assume(znot(e.isinst(oth, T)))
    fw = h.fn("effectful.ops.semantics.fwd")
    calls = []

    def on(ctx, ev):
        if h.proved(e.same(ev.f, fw)):
            calls.append(ev)
            if how == "ok":
                return answer
            raise PyExc(tee if how == "exec" else oth)
        return NotImplemented
    e.st.ghost["opaque_hook"] = on
    asked = []
    is_ = e.natives["builtins.isinstance"]
    kinds = z3.Function("isinstance", V, V, z3.BoolSort())

    def isinst(ctx, args, kwargs):
        c = args.concrete()
        if c[1] is catch:
            return kinds(ctx.box(c[0]), catch)
        return is_(ctx, args, kwargs)
    e.natives["builtins.isinstance"] = isinst

    def feedback(ctx, args, kwargs):
        asked.append(args.concrete())
        return fb
    for k in ("ToolCallExecutionError", "DecodingError"):
        e.contracts[CO + k + ".to_feedback_message"] = feedback
    r = h.call(impl(h, RETRY + "_call_tool", CO + "call_tool"), self_, tc)
    h.prove("the tool is called once, as requested", len(calls) == 1 and (len(calls[0].args.segs) == 0 or h.seq_same(calls[0].args, Seq.of([tc]))))
    log = e.st.ghost.get("log", ())
    if how == "ok":
        h.cover("answers")
        h.prove("its answer is the answer", r.ok and h.same(r.val, answer))
        h.prove("and nothing more is appended", len(log) == 0)
    elif how == "other":
        h.cover("other error")
        h.prove("errors that are not the tool's surface", r.exc and h.same(r.val, oth) and len(log) == 0)
    elif e.decide(kinds(orig, catch)):
        h.cover("caught")
        h.prove("an error of the kinds configured is answered by a message about it", r.ok and h.same(r.val, fb))
        h.prove("asked of the failure", len(asked) == 1 and h.same(asked[0][0], tee) and h.same(asked[0][1], tb))
        h.prove("which is appended, once", len(log) == 1 and h.same(log[0][0], fb) and log[0][1] and log[0][2] == hist)
    else:
        h.cover("not caught")
        h.prove("any other error surfaces", r.exc and h.same(r.val, tee) and len(log) == 0)


def template_call(h):
    """LiteLLMProvider._call on an arbitrary template, with arbitrary outcomes of the requests it makes."""
    e = h.e
    rt = h.runtime()
    h.note("the requests a template call makes (call_system, call_user, call_assistant, call_tool) may append anything to the history in force and return or raise anything; the message of call_user has the role user")
    h.note("signature binding and the template's attributes are opaque")
    new, content, put = histories(h)
    g = e.st.ghost
    g.update(last=None, answered=0, calls=None, res=None, asked=False, log=())
    c0 = h.val("before")
    hist = new(c0)
    outer = new(h.val("enclosing")) if e.choose("within another call") else None
    agent = e.choose("agent")
    tmpl = h.obj("effectful.handlers.llm.template.Template", "template")
    old_attr, old_getattr = type(e).V_attr, type(e).getattr
    ann = h.val("return_annotation")

    sig0 = e.natives["inspect.signature"]

    def sig(ctx, args, kwargs):
        c = args.concrete()
        if not (is_z3(ctx.unbox(c[0])) and ctx.unbox(c[0]).eq(tmpl)):
            return sig0(ctx, args, kwargs)
        bound = ctx.fresh("bound")
        ba = ctx.alloc(Inst(ExtV("inspect.BoundArguments"), {"arguments": bound, "apply_defaults": NativeV("apply_defaults", lambda c, a, k: None)}))

        def bind(c, a, k):
            c.st.ghost["bind"] = (args.concrete(), a, k)
            if c.choose("cannot bind"):
                x = c.fresh("binderror")
                c.st.ghost["failure"] = x
                raise PyExc(x)
            return ba
        return ctx.alloc(Inst(ExtV("inspect.Signature"), {"bind": NativeV("bind", bind)}))
    e.natives["inspect.signature"] = sig
    envs = []

    def child(ctx, a, k):
        t = ctx.fresh("env")
        ctx.typed(t, ExtV("collections.abc.Mapping"))
        x = ctx.alloc(Inst(ExtV("collections.ChainMap"), {"new_child": NativeV("new_child", child), "items": NativeV("items", lambda c, a2, k2: ViewV("items", Map(t), t))}))
        envs.append(x)
        return x
    ctxv = e.alloc(Inst(ExtV("collections.ChainMap"), {"new_child": NativeV("new_child", child)}))
    sigv = e.alloc(Inst(ExtV("inspect.Signature"), {"return_annotation": ann}))
    deflt, prompt = h.val("default"), h.val("prompt")
    own = {"__context__": ctxv, "__signature__": sigv, "__default__": deflt, "__prompt_template__": prompt}
    if agent:
        own["__history__"] = hist

    def V_attr(o, name, default):
        if o is tmpl or (is_z3(o) and o.eq(tmpl)):
            if name in own:
                return own[name]
            if name == "__history__":
                return default if default is not e.MISSING else old_attr(e, o, name, default)
        return old_attr(e, o, name, default)
    e.V_attr = V_attr

    def getattr_(o, name, *d):
        if is_z3(e.unbox(o)) and e.unbox(o).eq(tmpl) and (name in own or name == "__history__"):
            return own[name] if name in own else d[0]
        return hg(o, name, *d)
    hg = e.getattr
    e.getattr = getattr_
    ga = e.natives["builtins.getattr"]

    def getattr_model(ctx, args, kwargs):
        c = args.concrete()
        if c and c[1] == "__history__":
            return getattr_(c[0], c[1], *c[2:])
        return ga(ctx, args, kwargs)
    e.natives["builtins.getattr"] = getattr_model
    e.contracts["effectful.handlers.llm.template._is_recursive_signature"] = lambda ctx, a, k: ctx.fresh("recursive", z3.BoolSort())
    e.contracts[CO + "_is_recursive_signature"] = e.contracts["effectful.handlers.llm.template._is_recursive_signature"]
    e.natives["builtins.next"] = lambda ctx, a, k: first

    first = message(h)

    def role(m):
        return e.same(mget(m, e.box("role")), "assistant")

    def on_call(n, args, kwargs):
        g = e.st.ghost
        now = current_hist(h)
        g["log"] = g["log"] + ((n, args, kwargs, now),)
        h.prove("every request sees a history", isinstance(now, Ref))
        if isinstance(now, Ref):
            h.prove("a history of this call's own", now != hist and (outer is None or now != outer))
            if g.get("own") is None:
                h.prove("which starts as the one before", h.same(content(now), c0 if agent else e.global_const(EMPTY)))
            else:
                h.prove("one and the same all along", now == g["own"])
            g["own"] = now
            put(now, e.fresh("after"))
        if n == "call_tool":
            c = args.concrete()
            k = g["answered"]
            if g["calls"] is not None:
                ok = zand(I(k) < I(e.seq_len(e.iter_seq(g["calls"]))))
                h.prove("only requests of the last answer are answered", ok)
                if h.proved(ok):
                    h.prove("each request is answered in its turn", len(c) == 1 and e.trivially_empty(kwargs) and h.same(c[0], e.seq_at(e.iter_seq(g["calls"]), k)))
            else:
                h.prove("only requests of the last answer are answered", False)
            g["answered"] = k + 1
        if n == "call_user":
            c = args.concrete()
            h.prove("the prompt asked is the template's", len(c) >= 1 and h.same(c[0], prompt) and [x[0] for x in g["log"]] in (["call_user"], ["call_system", "call_user"]))
        if n == "call_system":
            h.prove("the system message is for the template", [x[0] for x in g["log"]] == ["call_system"] and h.same(args.concrete()[0], tmpl))
        if n == "call_assistant":
            c = args.concrete()
            h.prove("the answer is asked for as the template's result type", c is not None and len(c) == 2 and h.same(c[1], ann))
            h.prove("with the template as its anchor", h.same(e.map_get(kwargs, "anchor"), deflt))
        if e.choose(n + " fails"):
            x = e.fresh("failure")
            g["failure"] = x
            raise PyExc(x)
        m = message(h)
        if n == "call_user":
            h.assume(e.same(mget(m, e.box("role")), "user"))
        if n == "call_assistant":
            if g["calls"] is not None:
                h.prove("every request of an answer has been answered before the next is asked for", I(g["answered"]) == I(e.seq_len(e.iter_seq(g["calls"]))))
            calls, res = e.new_list(h.args("calls")), h.val("res")
            g.update(calls=calls, res=res, answered=0, last=m, asked=True)
            g["request"] = (args, kwargs)
            return TupleV(Seq.of([m, calls, res]))
        g["last"] = m
        return m
    gh = ops(h, on_call)
    install(h, gh, outer)

    def local(env, name):
        return e.env_get(env, name)[1]

    def check(env, j):
        g = e.st.ghost
        m, calls, res = local(env, "message"), local(env, "tool_calls"), local(env, "result")
        out = [("the last message is the one looked at", h.same(m, g["last"])), ("the result is that of the last answer", h.same(res, g["res"]))]
        if g["calls"] is None:
            n = e.seq_len(e.iter_seq(calls))
            out.append(("before the first answer nothing is requested", simp_(e, I(n) == 0)))
            out.append(("and it is asked for", znot(role(g["last"]))))
        else:
            out.append(("the requests are those of the last answer", h.same(calls, g["calls"])))
            out.append(("all of them are answered", I(g["answered"]) == I(e.seq_len(e.iter_seq(g["calls"])))))
        return out

    def havoc(env, j):
        g = e.st.ghost
        fresh = e.choose("first iteration")
        if fresh:
            for v, x in (("message", g["last"]), ("tool_calls", e.new_list(Seq())), ("result", None)):
                e.env_set(env, v, x)
            return frame()
        m, calls, res = message(h), e.new_list(h.args("calls")), h.val("res")
        n = h.int("answered")
        h.assume(n == I(e.seq_len(e.iter_seq(calls))))
        g.update(last=m, calls=calls, res=res, answered=n, asked=True)
        for v, x in (("message", m), ("tool_calls", calls), ("result", res)):
            e.env_set(env, v, x)
        if isinstance(g.get("own"), Ref):
            put(g["own"], e.fresh("after"))
        return frame()

    def frame():
        own = e.st.ghost.get("own")
        return [own.oid] if isinstance(own, Ref) else []

    def check_in(env, j):
        g = e.st.ghost
        return [("one answer per request so far", I(g["answered"]) == I(j)), ("the last message is the one looked at", h.same(local(env, "message"), g["last"]))]

    def havoc_in(env, j):
        g = e.st.ghost
        m = message(h)
        g.update(last=m, answered=j)
        e.env_set(env, "message", m)
        if isinstance(g.get("own"), Ref):
            put(g["own"], e.fresh("after"))
        return frame()
    qual = CO + "LiteLLMProvider._call"
    h.invariant(qual, "asking", check, havoc, "While")
    h.invariant(qual, "answering", check_in, havoc_in, "For")
    f = impl_apply(h)
    config = h.mapping("config")
    h.assume(znot(mhas(config, e.box("anchor"))))
    h.note("precondition: the provider is not configured with an option named anchor")
    self_ = e.alloc(Inst(h.fn(CO + "LiteLLMProvider"), {"config": config}))
    args, kwargs = h.args(), h.kwargs()
    for n in ("self", "template"):
        h.assume(znot(e.map_has(kwargs, n)))
    out = h.callx(f, Seq([One(self_), One(tmpl)] + list(args.segs)), kwargs)
    return rt, out, hist, outer, agent, c0, content, (tmpl, args, kwargs, ann, deflt, prompt, envs, self_)


def message(h):
    m = h.mapping("message")
    h.assume(mhas(m, h.e.box("role")))
    return m


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def simp_(e, c):
    return c


def impl_apply(h):
    d = h.e.obj(h.e.unbox(h.fn(CO + "LiteLLMProvider._call")))
    return d.fields["impl"]


@harness("C24", "template call", budget=300.0)
def template_history(h):
    e = h.e
    h.expect_cover("succeeds", "fails", "nested", "no agent")
    rt, out, hist, outer, agent, c0, content, _ = template_call(h)
    g = e.st.ghost
    if out.exc:
        h.cover("fails")
        h.prove("a call that fails leaves the history as it was", h.same(content(hist), c0))
        h.prove("and raises what failed", "failure" in g and h.same(out.val, g["failure"]))
        return
    h.prove("the value is the result of the last answer", h.same(out.val, g["res"]))
    h.prove("which requests no tools", g["calls"] is not None and I(e.seq_len(e.iter_seq(g["calls"]))) == 0)
    if not agent:
        h.cover("no agent")
        h.prove("a template without a history leaves none", h.same(content(hist), c0))
    elif outer is not None:
        h.cover("nested")
        h.prove("a call made within another leaves the history to it", h.same(content(hist), c0))
    else:
        h.cover("succeeds")
        h.prove("the history is the one the call's messages were appended to", isinstance(g.get("own"), Ref) and h.same(content(hist), content(g["own"])))
