"""C02: what calling an operation does."""
from pyvc.harness import harness, Out
from pyvc.values import *  # noqa: F403

T = "effectful.ops.types.Operation."


def ev_args(h, ev, args, kwargs, lead=()):
    """The event's arguments are exactly lead + args and kwargs."""
    e = h.e
    return h.seq_same(ev.args, Seq.of(list(lead)) + args), h.map_same(ev.kwargs, kwargs)


def check_outcome(h, what, out, ev):
    e = h.e
    if ev.out[0] == "exc":
        h.cover(what + " raises")
        h.prove(what + ": its exception propagates unchanged", out.exc and h.same(out.val, ev.out[1]))
    else:
        h.cover(what + " returns")
        h.prove(what + ": its result is returned", out.ok and h.same(out.val, ev.out[1]))


@harness("C02", "call")
def call(h):
    """Operation.__call__ on an arbitrary operation, arbitrary arguments, arbitrary active interpretation."""
    e = h.e
    h.expect_cover("handled", "handled returns", "handled raises", "unhandled", "unhandled returns", "unhandled raises", "apply itself")
    h.target(T + "__call__")
    rt = h.runtime()
    old = e.obj(rt).fields["interpretation"]
    old_map = e.obj(old).map
    op, args, kwargs = h.op("self"), h.args(), h.kwargs(reserved=("self", "op"))
    fwd, get_args = e.resolve("effectful.ops.semantics.fwd"), e.resolve("effectful.internals.runtime._get_args")
    f = h.fn(T + "__call__")
    out = h.callx(f, Seq.of([op]) + args, kwargs)
    evs = h.events()
    handled = e.decide(e.map_has(old_map, op))
    h.prove("interpretation restored", h.same(e.obj(rt).fields["interpretation"], old))
    h.prove("active mapping not modified", e.obj(old).map is old_map)
    if handled:
        hv = e.map_get(old_map, op)
        if e.decide(e.same(hv, None)):
            return  # precondition: handlers are callables, never None
        h.cover("handled")
        h.prove("handled: exactly one call is made", len(evs) == 1)
        if len(evs) == 1:
            ev = evs[0]
            h.prove("handled: the installed handler is what is called", h.same(ev.f, hv))
            a, k = ev_args(h, ev, args, kwargs)
            h.prove("handled: with exactly the positional arguments", a)
            h.prove("handled: with exactly the keyword arguments", k)
            check_outcome(h, "handled", out, ev)
            key = h.op("anyop")
            if e.decide(zor_same(h, key, [fwd, get_args])):
                return
            v, w = e.map_get(ev.interp, key), e.map_get(old_map, key)
            h.prove("handled: inside, every other operation is handled as before", (v is e.MISSING and w is e.MISSING) or (v is not e.MISSING and w is not e.MISSING and h.same(v, w)))
        return
    a0 = None
    if e.decide(e.seq_len(args) >= 1) if not isinstance(e.seq_len(args), int) else e.seq_len(args) >= 1:
        a0 = e.seq_at(args, 0)
        if e.decide(e.isinst(a0, e.op_class())):
            ap = e.getattr(a0, "__apply__")
            if e.decide(e.same(ap, op)):
                h.cover("apply itself")
                h.prove("apply itself: one call is made", len(evs) == 1)
                if len(evs) == 1:
                    h.prove("apply itself: its own default behaviour runs", h.same(evs[0].f, e.getattr(op, "__default__")))
                    a, k = ev_args(h, evs[0], args, kwargs)
                    h.prove("apply itself: positional arguments", a)
                    h.prove("apply itself: keyword arguments", k)
                    check_outcome(h, "apply itself", out, evs[0])
                return
    h.cover("unhandled")
    h.prove("unhandled: exactly one application is made", len(evs) == 1)
    if len(evs) == 1:
        ev = evs[0]
        h.prove("unhandled: the operation for applications is what is called", h.same(ev.f, e.getattr(op, "__apply__")))
        a, k = ev_args(h, ev, args, kwargs, lead=[op])
        h.prove("unhandled: with the operation and exactly the positional arguments", a)
        h.prove("unhandled: with exactly the keyword arguments", k)
        check_outcome(h, "unhandled", out, ev)


def zor_same(h, x, ys):
    from pyvc.engine import zor
    return zor(*[h.same(x, y) for y in ys])


@harness("C02", "forward at the end")
def forward_end(h):
    """What fwd is bound to while a handler with nothing below runs: the operation's own default behaviour."""
    e = h.e
    h.expect_cover("bound")
    h.target(T + "__call__")
    rt = h.runtime()
    op, args, kwargs = h.op("self"), h.args(), h.kwargs(reserved=("self", "op"))
    fwd = e.resolve("effectful.ops.semantics.fwd")
    e.assume(znot_(h.same(op, fwd)))
    a2, k2 = h.args("fargs"), h.kwargs("fkwargs", reserved=("self", "op"))
    seen = {}

    def default_rule(ctx, a, k):
        seen["rule"] = (a, k)
        return ctx.fresh("dres")
    e.contracts[T + "__default_rule__"] = default_rule

    def handler_body(a, k):
        m = e.interp_snapshot()
        c = e.map_get(m, fwd)
        seen["fwd"] = c
        if c is not e.MISSING:
            seen["out"] = h.callx(c, a2, k2)
        return None
    hv = h.native("handler", handler_body)
    d = e.obj(rt).fields["interpretation"]
    e.obj(d).map
    e.st.heap[d.oid] = DictObj(e.obj(d).map.plus(("store", op, hv)))
    h.callx(h.fn(T + "__call__"), Seq.of([op]) + args, kwargs)
    h.prove("the handler runs", "fwd" in seen)
    h.prove("fwd is bound while it runs", seen.get("fwd") is not e.MISSING)
    bare = not e.decide(e.seq_nonempty(a2)) and not e.decide(e.map_nonempty(k2))
    if "out" in seen and not bare:
        h.cover("bound")
        h.prove("forwarding runs the operation's default behaviour", "rule" in seen)
        if "rule" in seen:
            h.prove("on that operation with the given positional arguments", h.seq_same(seen["rule"][0], Seq.of([op]) + a2))
            h.prove("with the given keyword arguments", h.map_same(seen["rule"][1], k2))


def znot_(x):
    from pyvc.engine import znot
    return znot(x)


@harness("C02", "default rule")
def default_rule(h):
    """A default that declines gives the term of the operation on those arguments; any other outcome is passed on."""
    e = h.e
    h.expect_cover("declines", "returns", "other exception")
    rt = h.runtime()
    op, args, kwargs = h.op("self"), h.args(), h.kwargs(reserved=("self", "op"))
    made = []

    def defdata(ctx, a, k):
        made.append((a, k))
        return ctx.fresh("term")
    e.contracts["effectful.ops.syntax.defdata"] = defdata
    out = h.callx(h.fn(T + "__default_rule__"), Seq.of([op]) + args, kwargs)
    evs = h.events()
    h.prove("the default runs once", len(evs) == 1)
    if len(evs) != 1:
        return
    ev = evs[0]
    h.prove("the operation's own default is what runs", h.same(ev.f, e.getattr(op, "__default__")))
    a, k = ev_args(h, ev, args, kwargs)
    h.prove("with exactly the positional arguments", a)
    h.prove("with exactly the keyword arguments", k)
    if ev.out[0] == "ok":
        h.cover("returns")
        h.prove("its value is the result", out.ok and h.same(out.val, ev.out[1]) and not made)
        return
    nh = e.resolve("effectful.ops.types.NotHandled")
    if e.decide(e.isinst(ev.out[1], nh)):
        h.cover("declines")
        h.prove("declining builds one term", len(made) == 1 and out.ok)
        if made:
            h.prove("of that operation and positional arguments", h.seq_same(made[0][0], Seq.of([op]) + args))
            h.prove("and keyword arguments", h.map_same(made[0][1], kwargs))
    else:
        h.cover("other exception")
        h.prove("any other exception propagates unchanged", out.exc and h.same(out.val, ev.out[1]) and not made)


@harness("C02", "apply")
def apply_default(h):
    """The default of the operation for applications is the operation's default rule."""
    e = h.e
    h.runtime()
    op, args, kwargs = h.op("op"), h.args(), h.kwargs(reserved=("self", "op"))
    seen = []

    def rule(ctx, a, k):
        seen.append((a, k))
        return ctx.fresh("dres")
    e.contracts[T + "__default_rule__"] = rule
    out = h.callx(h.fn("effectful.ops.types.__apply__"), Seq.of([op]) + args, kwargs)
    h.prove("applying runs the default rule once", len(seen) == 1 and out.ok)
    if seen:
        h.prove("of the operation on the positional arguments", h.seq_same(seen[0][0], Seq.of([op]) + args))
        h.prove("and the keyword arguments", h.map_same(seen[0][1], kwargs))
