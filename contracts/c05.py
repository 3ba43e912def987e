"""C05: evaluation of one node, given that evaluation of its parts is an arbitrary function (the induction hypothesis)."""
import z3

from pyvc.engine import I, znot, zand
from pyvc.harness import harness
from pyvc.models import seq_map
from pyvc.values import *  # noqa: F403

SEM = "effectful.ops.semantics."
EV = SEM + "evaluate"
INV = z3.Function("unevaluated", V, V)


def hypothesis(h, injective=False):
    """Calls of evaluate: the first is the real one, those it makes on parts give an arbitrary function of the part."""
    e = h.e
    h.note("sub-evaluations are modelled as an arbitrary function of the part (induction hypothesis; termination not proved)")
    d = h.fn(EV)
    sub = []
    e.st.ghost["injective"] = injective

    def part(ctx, x):
        x = ctx.unbox(x)
        if isinstance(x, TupleV):
            return TupleV(seq_map(ctx, x.seq, lambda y: part(ctx, y)))
        if isinstance(x, str):
            return x
        t = ctx.app("evaluated", x)
        if ctx.st.ghost.get("injective"):
            ctx.assume(INV(t) == ctx.box(x))
        return t

    def ev(ctx, args, kwargs):
        c = args.concrete()
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            return ctx.call_dispatch(d, args, kwargs, True)
        if not ctx.trivially_empty(kwargs):
            h.prove("parts are evaluated under the current interpretation", False)
        sub.append((c[0], ctx.interp_snapshot()))
        return part(ctx, c[0])
    e.contracts[EV] = ev
    return d, lambda x: part(e, x), sub


def only(h, x, cls):
    """Precondition: x is of no other registered class than those of cls (each of them has its own obligation)."""
    e = h.e
    if isinstance(cls, str):
        cls = h.fn(cls) if cls.startswith("effectful") else ExtV(cls)
    h.note("precondition: a value is of one of the kinds (term, operation, text, mapping, sequence, ...) only")
    for c, _, _ in e.registry(h.fn(EV)):
        if not e.is_sub(cls, c):
            h.assume(znot(e.isinst(x, c)))
    return x


def term(h):
    """An arbitrary term: of any class, with any operation, arguments and keyword arguments."""
    e = h.e
    t = only(h, h.obj("effectful.ops.types.Term", "t"), "effectful.ops.types.Term")
    op, args, kwargs = e.V_field(t, "op"), e.V_field(t, "args"), e.V_field(t, "kwargs")
    e.typed(op, e.op_class())
    e.typed(args, ExtV("collections.abc.Sequence"))
    e.typed(kwargs, ExtV("collections.abc.Mapping"))
    return t, op, e.sym_seq(args), Map(kwargs)


@harness("C05", "term")
def terms(h):
    e = h.e
    rt = h.runtime()
    old = e.obj(rt).fields["interpretation"]
    d, E, sub = hypothesis(h)
    t, op, args, kwargs = term(h)
    out = h.call(d, t)
    evs = h.events()
    h.prove("one operation is called", len(evs) == 1)
    if len(evs) != 1:
        return
    ev = evs[0]
    h.prove("the operation of the term", h.same(ev.f, op))
    h.prove("with as many arguments", I(e.seq_len(ev.args)) == I(e.seq_len(args)))
    j = h.int("j")
    if e.decide(zand(j >= 0, j < I(e.seq_len(args)))):
        h.prove("each the value of the argument at its place", h.same(e.seq_at(ev.args, j), E(e.seq_at(args, j))))
    k = h.val("k")
    v, w = e.map_get(kwargs, k), e.map_get(ev.kwargs, k)
    h.prove("with the same keywords", (v is e.MISSING) == (w is e.MISSING))
    if v is not e.MISSING and w is not e.MISSING:
        h.prove("each the value of its own argument", h.same(w, E(v)))
    h.prove("its result, or what it raises, is the value", h.same(out.val, ev.out[1]) if out.ok == (ev.out[0] == "ok") else False)
    h.prove("under the interpretation it was evaluated in", h.same(e.obj(rt).fields["interpretation"], old) if ev.interp is not None else False)


@harness("C05", "operation")
def operations(h):
    e = h.e
    h.expect_cover("renamed", "handled", "neither")
    rt = h.runtime()
    m = e.obj(e.obj(rt).fields["interpretation"]).map
    d, E, sub = hypothesis(h)
    op = only(h, h.op("op"), "effectful.ops.types.Operation")
    out = h.call(d, op)
    v = e.map_get(m, op)
    h.prove("nothing is called", out.ok and len(h.events()) == 0)
    if not out.ok:
        return
    if v is e.MISSING:
        h.cover("neither")
        h.prove("an operation that is not handled stays", h.same(out.val, op))
    elif e.decide(e.isinst(v, e.op_class())):
        h.cover("renamed")
        h.prove("an operation handled by an operation becomes it", h.same(out.val, v))
    else:
        h.cover("handled")
        h.prove("an operation handled by a function stays", h.same(out.val, op))


def leaf(h, cls):
    e = h.e
    d, E, sub = hypothesis(h)
    x = h.val("x")
    e.typed(x, ExtV(cls))
    only(h, x, cls)
    h.assume(znot(z3.Function("is_dataclass", V, z3.BoolSort())(x)))
    out = h.call(d, x)
    h.prove("it stays, and nothing is called", out.ok and h.same(out.val, x) and len(h.events()) == 0 and not sub)


for _c in ("str", "bytes", "range", "int", "float", "complex", "bool", "NoneType"):
    def _leaf(h, c=_c):
        leaf(h, "builtins." + c if c != "NoneType" else "types.NoneType")
    harness("C05", "leaf " + _c)(_leaf)


@harness("C05", "sequence")
def sequences(h):
    e = h.e
    d, E, sub = hypothesis(h)
    for c in ("builtins.list", "collections.abc.Sequence"):
        if e.choose(c):
            break
    x = h.val("x")
    e.typed(x, ExtV(c))
    only(h, x, c)
    out = h.call(d, x)
    rebuilt(h, out, x, e.iter_seq(x), E, ExtV(c))


def rebuilt(h, out, x, s, E, cls):
    """type(x) is called once, with the values of the items in order."""
    e = h.e
    evs = h.events()
    if out.ok and not evs:  # a list or tuple of the plain kind
        r = e.unbox(out.val)
        h.prove("the items' values, in order", h.seq_same(r.seq if isinstance(r, TupleV) else e.obj(r).seq, seq_map(e, s, E)))
        return
    h.prove("its class is called once", len(evs) == 1)
    if len(evs) != 1:
        return
    h.prove("its own class", h.same(evs[0].f, e.type_value(x)))
    a = evs[0].args.concrete()
    h.prove("with one argument", a is not None and len(a) == 1 and e.trivially_empty(evs[0].kwargs))
    if a is not None and len(a) == 1:
        h.prove("the items' values, in order", h.seq_same(e.iter_seq(a[0]), seq_map(e, s, E)))
    h.prove("what that gives is the value", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)


@harness("C05", "tuple")
def tuples(h):
    e = h.e
    d, E, sub = hypothesis(h)
    s = h.args("items")
    out = h.call(d, TupleV(s))
    h.prove("the value is a tuple", out.ok and isinstance(e.unbox(out.val), TupleV) and len(h.events()) == 0)
    if out.ok:
        h.prove("of the items' values, in order", h.seq_same(e.unbox(out.val).seq, seq_map(e, s, E)))


@harness("C05", "list")
def lists(h):
    e = h.e
    d, E, sub = hypothesis(h)
    s = h.args("items")
    x = e.new_list(s)
    out = h.call(d, x)
    ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), ListObj) and len(h.events()) == 0
    h.prove("the value is a list", ok)
    if ok:
        h.prove("a new one", out.val != x)
        h.prove("of the items' values, in order", h.seq_same(e.obj(out.val).seq, seq_map(e, s, E)))
        h.prove("the list itself is unchanged", h.seq_same(e.obj(x).seq, s))


@harness("C05", "dict")
def dicts(h):
    e = h.e
    d, E, sub = hypothesis(h, True)
    x = h.dict("d")
    m = e.obj(x).map
    out = h.call(d, x)
    ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), DictObj) and len(h.events()) == 0
    h.prove("the value is a dictionary", ok)
    if not ok:
        return
    r = e.obj(out.val).map
    h.prove("a new one", out.val != x)
    h.prove("the dictionary itself is unchanged", e.obj(x).map is m)
    items(h, m, r, E)


def items(h, m, r, E):
    """r holds, for every key of m, its value with the item's value, and nothing else (precondition: keys keep distinct values)."""
    e = h.e
    h.note("precondition: distinct keys of a mapping have distinct values")
    k = h.val("k")
    v = e.map_get(m, k)
    if v is not e.MISSING:
        got = e.map_get(r, E(k))
        h.prove("every key's value is a key", got is not e.MISSING)
        if got is not e.MISSING:
            h.prove("with the value of the item", h.same(got, E(v)))
    k2 = h.val("k2")
    if e.map_get(r, k2) is not e.MISSING:
        o = INV(k2)
        h.prove("there are no other keys", e.map_get(m, o) is not e.MISSING)


def one_call(h, out, x, n=1):
    """type(x) is called once with n arguments, and what it gives is the value."""
    e = h.e
    evs = h.events()
    h.prove("its class is called once", len(evs) == 1)
    if len(evs) != 1:
        return None
    h.prove("its own class", h.same(evs[0].f, e.type_value(x)))
    a = evs[0].args.concrete()
    ok = a is not None and len(a) == n and e.trivially_empty(evs[0].kwargs)
    h.prove("with what it takes", ok)
    h.prove("what that gives is the value", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)
    return a if ok else None


def mappings(cls, n):
    def f(h):
        e = h.e
        d, E, sub = hypothesis(h, True)
        x = h.val("x")
        e.typed(x, ExtV(cls))
        only(h, x, cls)
        out = h.call(d, x)
        a = one_call(h, out, x, n)
        if a is None:
            return
        if n == 2:
            h.prove("with the same default factory", h.same(a[0], e.V_field(x, "default_factory")))
        items(h, Map(x), e.map_of(a[-1]), E)
    return f


harness("C05", "mapping")(mappings("collections.abc.Mapping", 1))
harness("C05", "mapping proxy")(mappings("types.MappingProxyType", 1))
harness("C05", "default dictionary")(mappings("collections.defaultdict", 2))


@harness("C05", "values view")
def values_view(h):
    e = h.e
    d, E, sub = hypothesis(h)
    x = h.val("x")
    e.typed(x, ExtV("collections.abc.ValuesView"))
    only(h, x, "collections.abc.ValuesView")
    out = h.call(d, x)
    ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), ListObj) and len(h.events()) == 0
    h.prove("the value is a list", ok)
    if ok:
        h.prove("of the items' values, in order", h.seq_same(e.obj(out.val).seq, seq_map(e, e.iter_seq(x), E)))


def set_views(cls):
    def f(h):
        e = h.e
        d, E, sub = hypothesis(h)
        x = h.val("x")
        e.typed(x, ExtV(cls))
        only(h, x, cls)
        out = h.call(d, x)
        ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), SetObj) and len(h.events()) == 0
        h.prove("the value is a set", ok)
        if not ok:
            return
        s = e.iter_seq(x)
        j = h.int("j")
        if e.decide(zand(j >= 0, j < I(e.seq_len(s)))):
            h.prove("it holds each item's value", e.set_has(e.obj(out.val).set, E(e.seq_at(s, j))))
    return f


harness("C05", "keys view")(set_views("collections.abc.KeysView"))
harness("C05", "items view")(set_views("collections.abc.ItemsView"))


@harness("C05", "dataclass")
def dataclass(h):
    e = h.e
    d, E, sub = hypothesis(h)
    x = h.val("x")
    only(h, x, "builtins.object")
    h.assume(z3.Function("is_dataclass", V, z3.BoolSort())(x))
    h.assume(znot(e.isinst(x, ExtV("builtins.type"))))
    h.assume(kind(x) == K_OBJ)
    out = h.call(d, x)
    evs = h.events()
    h.prove("it is rebuilt once", len(evs) == 1 and evs[0].f == ExtV("dataclasses.replace"))
    if len(evs) != 1:
        return
    a = evs[0].args.concrete()
    h.prove("from itself", a is not None and len(a) == 1 and h.same(a[0], x))
    fs = e.natives["dataclasses.fields"](e, Seq.of([x]), Map()).seq
    j = h.int("j")
    if e.decide(zand(j >= 0, j < I(e.seq_len(fs)))):
        nm = e.getattr(e.seq_at(fs, j), "name")
        v = e.map_get(evs[0].kwargs, nm)
        h.prove("every field is given", v is not e.MISSING)
        if v is not e.MISSING:
            h.prove("the value of what it held", h.same(v, E(e.natives["builtins.getattr"](e, Seq.of([x, nm]), Map()))))
    h.prove("what that gives is the value", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)


@harness("C05", "interpretation given")
def given(h):
    e = h.e
    rt = h.runtime()
    old = e.obj(rt).fields["interpretation"]
    d = h.fn(EV)
    seen = []
    intp = h.dict("given")
    m = e.obj(intp).map

    def ev(ctx, args, kwargs):
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            return ctx.call_dispatch(d, args, kwargs, True)
        seen.append((args.concrete(), kwargs, e.obj(e.obj(rt).fields["interpretation"]).map))
        return ctx.opaque(ExtV("evaluate"), args, kwargs)
    e.contracts[EV] = ev
    x = h.val("x")
    out = h.callx(d, Seq.of([x]), Map(None, [("store", "intp", intp)]))
    h.prove("it is evaluated once", len(seen) == 1)
    if len(seen) != 1:
        return
    (a, k, now) = seen[0]
    h.prove("the expression itself", a is not None and len(a) == 1 and h.same(a[0], x) and (e.trivially_empty(k) or e.decide(e.same(e.map_get(k, "intp"), None))))
    key = h.val("key")
    h.prove("under the given interpretation", h.map_same(now, m, key))
    h.prove("the given interpretation is unchanged", h.map_same(e.obj(intp).map, m, key))
    h.prove("afterwards the interpretation is as it was, also when it raises", h.same(e.obj(rt).fields["interpretation"], old))
    ev_ = h.events()
    h.prove("its result, or what it raises, is the result", len(ev_) == 1 and (h.same(out.val, ev_[0].out[1]) if out.ok == (ev_[0].out[0] == "ok") else False))
