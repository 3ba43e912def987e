"""C03/C04: composing interpretations, forwarding, and the arguments forwarded."""
from pyvc.engine import zand, znot, zor
from pyvc.harness import harness, Out
from pyvc.values import *  # noqa: F403
from contracts.c02 import check_outcome, ev_args, zor_same

SEM = "effectful.ops.semantics."
RT = "effectful.internals.runtime."
NONAMES = ("self", "op")


def composition(h):
    """Two arbitrary interpretations and an arbitrary operation other than the two internal ones."""
    e = h.e
    rt = h.runtime()
    i1, i2 = h.dict("left"), h.dict("right")
    m1, m2 = e.obj(i1).map, e.obj(i2).map
    fwd, ga = e.resolve(SEM + "fwd"), e.resolve(RT + "_get_args")
    k = h.op("k")
    h.assume(znot(zor_same(h, k, [fwd, ga])))
    return rt, i1, i2, m1, m2, k, fwd, ga


@harness("C03", "composition")
def coproduct_keys(h):
    e = h.e
    h.expect_cover("left only", "right only", "both", "neither")
    rt, i1, i2, m1, m2, k, fwd, ga = composition(h)
    out = h.call(h.fn(SEM + "coproduct"), i1, i2)
    h.prove("composing succeeds", out.ok)
    if not out.ok:
        return
    r = out.val
    h.prove("the composition is a new mapping", isinstance(r, Ref) and r != i1 and r != i2)
    h.prove("the inputs are not modified", e.obj(i1).map is m1 and e.obj(i2).map is m2)
    h.prove("composing calls nothing", len(h.events()) == 0)
    v = e.map_get(e.obj(r).map, k)
    a, b = e.decide(e.map_has(m1, k)), e.decide(e.map_has(m2, k))
    if not a and not b:
        h.cover("neither")
        h.prove("an operation handled by neither is not handled", v is e.MISSING)
        return
    h.prove("an operation handled by either is handled", v is not e.MISSING)
    if v is e.MISSING:
        return
    if a and not b:
        h.cover("left only")
        h.prove("an operation handled only on the left keeps its implementation", h.same(v, e.map_get(m1, k)))
        return
    # run what the composition holds for k
    h2 = e.map_get(m2, k)
    if a and e.decide(e.same(e.map_get(m1, k), None)):
        return  # precondition: handlers are callables, never None
    args, kwargs = h.args(), h.kwargs(reserved=NONAMES)
    old = e.obj(rt).fields["interpretation"]
    old_map = e.obj(old).map
    seen = {}

    def on_call(ctx, ev):
        if "interp" not in seen:
            seen["interp"] = ctx.interp_snapshot()
        return NotImplemented
    e.st.ghost["opaque_hook"] = on_call
    res = h.callx(v, args, kwargs)
    evs = h.events()
    what = "both" if a else "right only"
    h.cover(what)
    h.prove(what + ": one implementation runs", len(evs) == 1)
    if len(evs) != 1:
        return
    ev = evs[0]
    h.prove(what + ": it is the right one", h.same(ev.f, h2))
    x, y = ev_args(h, ev, args, kwargs)
    h.prove(what + ": with exactly the positional arguments", x)
    h.prove(what + ": with exactly the keyword arguments", y)
    check_outcome(h, what, res, ev)
    h.prove(what + ": interpretation restored", h.same(e.obj(rt).fields["interpretation"], old))
    other = h.op("other")
    if e.decide(zor_same(h, other, [fwd, ga])):
        return
    p, q = e.map_get(seen["interp"], other), e.map_get(old_map, other)
    h.prove(what + ": other operations are handled as before while it runs", (p is e.MISSING and q is e.MISSING) or (p is not e.MISSING and q is not e.MISSING and h.same(p, q)))


@harness("C03", "forwarding")
def forwarding(h):
    """While the right implementation runs, fwd runs the left one; while that runs, fwd is what enclosed the composition."""
    e = h.e
    h.expect_cover("left runs", "enclosing")
    rt, i1, i2, m1, m2, k, fwd, ga = composition(h)
    h.assume(e.map_has(m1, k))
    h.assume(e.map_has(m2, k))
    seen = {"left": 0, "right": 0}
    a2, k2 = h.args("fargs"), h.kwargs("fkwargs", reserved=NONAMES)
    given = zor(e.seq_nonempty(a2), e.map_nonempty(k2))
    if not e.decide(given):
        return
    lres = h.val("leftresult")

    def left(a, kw):
        seen["left"] += 1
        seen["largs"] = (a, kw)
        seen["lfwd"] = e.map_get(e.interp_snapshot(), fwd)
        return lres

    def right(a, kw):
        seen["right"] += 1
        m = e.interp_snapshot()
        c = e.map_get(m, fwd)
        seen["rfwd"] = c
        if c is not e.MISSING:
            seen["out"] = h.callx(c, a2, k2)
            seen["after"] = e.map_get(e.interp_snapshot(), fwd)
        return None
    e.st.heap[i1.oid] = DictObj(m1.plus(("store", k, h.native("left", left))))
    e.st.heap[i2.oid] = DictObj(m2.plus(("store", k, h.native("right", right))))
    out = h.call(h.fn(SEM + "coproduct"), i1, i2)
    if not out.ok:
        h.prove("composing succeeds", False)
        return
    v = e.map_get(e.obj(out.val).map, k)
    encl = h.val("enclosing")
    d = e.obj(rt).fields["interpretation"]
    e.st.heap[d.oid] = DictObj(e.obj(d).map.plus(("store", fwd, encl)))
    h.callx(v, h.args(), h.kwargs(reserved=NONAMES))
    h.prove("the right implementation runs once", seen["right"] == 1)
    h.prove("fwd is bound while it runs", seen.get("rfwd") is not e.MISSING)
    h.prove("one forward runs the left implementation once", seen["left"] == 1)
    if seen["left"] == 1:
        h.cover("left runs")
        h.prove("with the positional arguments forwarded", h.seq_same(seen["largs"][0], a2))
        h.prove("with the keyword arguments forwarded", h.map_same(seen["largs"][1], k2))
        h.prove("the forward gives the left implementation's result", seen["out"].ok and h.same(seen["out"].val, lres))
        h.cover("enclosing")
        h.prove("while the left one runs, fwd is what enclosed the composition", seen["lfwd"] is not e.MISSING and h.same(seen["lfwd"], encl))
        h.prove("after the forward, fwd is bound as before it", seen["after"] is not e.MISSING and h.same(seen["after"], seen["rfwd"]))


@harness("C03", "forwarding to the same implementation")
def forwarding_same(h):
    """Both interpretations hold the very same implementation: a forward still runs it once more."""
    e = h.e
    h.expect_cover("runs twice")
    rt, i1, i2, m1, m2, k, fwd, ga = composition(h)
    a2, k2 = h.args("fargs"), h.kwargs("fkwargs", reserved=NONAMES)
    if not e.decide(zor(e.seq_nonempty(a2), e.map_nonempty(k2))):
        return
    runs = []

    def impl(a, kw):
        runs.append((a, kw))
        if len(runs) > 1:
            return None
        c = e.map_get(e.interp_snapshot(), fwd)
        if c is not e.MISSING:
            h.callx(c, a2, k2)
        return None
    f = h.native("impl", impl)
    e.st.heap[i1.oid] = DictObj(m1.plus(("store", k, f)))
    e.st.heap[i2.oid] = DictObj(m2.plus(("store", k, f)))
    out = h.call(h.fn(SEM + "coproduct"), i1, i2)
    h.prove("composing succeeds", out.ok)
    if not out.ok:
        return
    h.callx(e.map_get(e.obj(out.val).map, k), h.args(), h.kwargs(reserved=NONAMES))
    h.prove("the implementation runs again when it forwards", len(runs) == 2)
    if len(runs) == 2:
        h.cover("runs twice")
        h.prove("with the positional arguments forwarded", h.seq_same(runs[1][0], a2))
        h.prove("with the keyword arguments forwarded", h.map_same(runs[1][1], k2))


@harness("C04", "saved arguments")
def saved(h):
    """While an implementation wrapped by _save_args runs, _get_args gives exactly the arguments it was called with."""
    e = h.e
    h.expect_cover("ran")
    h.runtime()
    ga = e.resolve(RT + "_get_args")
    args, kwargs = h.args(), h.kwargs(reserved=NONAMES)
    seen = {}

    def body(a, kw):
        seen["args"] = (a, kw)
        seen["get"] = e.map_get(e.interp_snapshot(), ga)
        if seen["get"] is not e.MISSING:
            seen["out"] = h.callx(seen["get"], Seq(), Map())
        return None
    f = h.native("impl", body)
    w = h.call(h.fn(RT + "_save_args"), f)
    h.prove("wrapping succeeds", w.ok)
    if not w.ok:
        return
    h.callx(w.val, args, kwargs)
    h.prove("the implementation runs", "args" in seen)
    if "args" not in seen:
        return
    h.prove("with its positional arguments", h.seq_same(seen["args"][0], args))
    h.prove("with its keyword arguments", h.map_same(seen["args"][1], kwargs))
    if same_obj(w.val, f):
        h.note("_save_args returns functions declared without parameters unwrapped; Operation.__call__ saves the arguments of every call (C04/call)")
        return
    h.cover("ran")
    check_get_args(h, seen, args, kwargs)


def same_obj(a, b):
    return a is b or (isinstance(a, NativeV) and isinstance(b, NativeV) and a.fn is b.fn)


def check_get_args(h, seen, args, kwargs):
    e = h.e
    h.prove("the saved arguments are available while it runs", seen.get("get") is not e.MISSING and "out" in seen and seen["out"].ok)
    if "out" in seen and seen["out"].ok:
        r = seen["out"].val
        ok = isinstance(r, TupleV) and r.seq.concrete() is not None and len(r.seq.concrete()) == 2
        h.prove("they are a pair", ok)
        if ok:
            a, k = r.seq.concrete()
            a = e.iter_seq(a)
            h.prove("of exactly the positional arguments", h.seq_same(a, args))
            h.prove("and exactly the keyword arguments", h.map_same(e.map_of(k), kwargs))


@harness("C04", "call")
def call_saves(h):
    """While the handler installed for an operation runs, a bare forward sees the arguments of that very call."""
    e = h.e
    h.expect_cover("ran")
    T = "effectful.ops.types.Operation."
    h.target(T + "__call__")
    rt = h.runtime()
    ga, fwd = e.resolve(RT + "_get_args"), e.resolve(SEM + "fwd")
    op, args, kwargs = h.op("self"), h.args(), h.kwargs(reserved=NONAMES)
    h.assume(znot(zor_same(h, op, [ga])))
    seen = {}
    d = e.obj(rt).fields["interpretation"]
    before = e.map_get(e.obj(d).map, ga)

    def body(a, kw):
        seen["get"] = e.map_get(e.interp_snapshot(), ga)
        return None
    e.st.heap[d.oid] = DictObj(e.obj(d).map.plus(("store", op, h.native("impl", body))))
    bare = not e.decide(zor(e.seq_nonempty(args), e.map_nonempty(kwargs)))
    h.callx(h.fn(T + "__call__"), Seq.of([op]) + args, kwargs)
    h.prove("the handler runs", "get" in seen)
    if "get" not in seen:
        return
    if bare and e.decide(h.same(op, fwd)):
        h.cover("bare")
        h.prove("a bare forward leaves the arguments in force", (seen["get"] is e.MISSING and before is e.MISSING) or (seen["get"] is not e.MISSING and before is not e.MISSING and h.same(seen["get"], before)))
        return
    h.cover("ran")
    if seen["get"] is not e.MISSING:
        seen["out"] = h.callx(seen["get"], Seq(), Map())
    check_get_args(h, seen, args, kwargs)


@harness("C04", "restored arguments")
def restored(h):
    """A continuation wrapped by _restore_args runs once, with the given arguments if any, else with the saved ones."""
    e = h.e
    h.expect_cover("given", "bare")
    h.runtime()
    ga = e.resolve(RT + "_get_args")
    args, kwargs = h.args(), h.kwargs(reserved=NONAMES)
    sa, sk = h.args("saved"), h.dict("savedkw")
    cont = h.val("cont")
    e.st.ghost["callable"] = True

    def hook(ctx, ev):
        if ev.what == "op" and ctx.decide(ctx.same(ev.f, ga)):
            return tup(TupleV(sa), sk)
        return NotImplemented
    e.st.ghost["opaque_hook"] = hook
    w = h.call(h.fn(RT + "_restore_args"), cont)
    if not w.ok:
        return
    res = h.callx(w.val, args, kwargs)
    evs = [x for x in h.events() if x.what == "call"]
    if not evs:
        h.prove("the continuation runs", not res.ok)
        return
    unwrapped = is_same_term(w.val, cont)
    h.prove("the continuation runs once", len(evs) == 1)
    ev = evs[0]
    h.prove("it is the one wrapped", h.same(ev.f, cont))
    if unwrapped:
        h.note("_restore_args returns continuations declared without parameters unwrapped: there is nothing to restore")
        return
    if e.decide(zor(e.seq_nonempty(args), e.map_nonempty(kwargs))):
        h.cover("given")
        a, k = ev_args(h, ev, args, kwargs)
        h.prove("given arguments are passed: positional", a)
        h.prove("given arguments are passed: keyword", k)
    else:
        h.cover("bare")
        a, k = ev_args(h, ev, sa, e.obj(sk).map)
        h.prove("bare: the saved positional arguments are passed", a)
        h.prove("bare: the saved keyword arguments are passed", k)
    check_outcome(h, "continuation", res, ev)


def is_same_term(a, b):
    return a is b or (hasattr(a, "get_id") and hasattr(b, "get_id") and a.get_id() == b.get_id())
