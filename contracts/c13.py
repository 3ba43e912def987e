"""C13: product interpretations: values computed once, on demand; each component's view of the arguments; each component run apart."""
import z3

from pyvc.engine import I, zand, znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403
from pyvc.models import seq_map
from contracts.c02 import ev_args
from contracts.c05 import INV, items, one_call, rebuilt

PN = "effectful.internals.product_n."


@harness("C13", "on demand")
def need(h):
    e = h.e
    h.expect_cover("gives", "raises")
    cls = h.fn(PN + "CallByNeed")
    f = h.val("f")
    args, kwargs = h.args(), h.kwargs()
    h.assume(znot(e.map_has(kwargs, "self")))
    h.assume(znot(e.map_has(kwargs, "func")))
    h.note("precondition: no keyword argument is named 'self' or 'func' (recorded under C02)")
    c = h.callx(cls, Seq([One(f)] + list(args.segs)), kwargs)
    h.prove("delaying a call succeeds", c.ok)
    h.prove("delaying a call runs nothing", len(h.events()) == 0)
    if not c.ok:
        return
    r = h.call(c.val)
    evs = h.events()
    h.prove("asking runs the call once", len(evs) == 1)
    if len(evs) != 1:
        return
    h.prove("it is the call delayed", h.same(evs[0].f, f))
    x, y = ev_args(h, evs[0], args, kwargs)
    h.prove("with its positional arguments", x)
    h.prove("with its keyword arguments", y)
    h.prove("gives or raises what the call did", r.ok == evs[0].ok and h.same(r.val, evs[0].result))
    r2 = h.call(c.val)
    if r.ok:
        h.cover("gives")
        h.prove("asking again runs nothing", len(h.events()) == 1)
        h.prove("and gives the same value", r2.ok and h.same(r2.val, r.val))
    else:
        h.cover("raises")
        h.prove("a call that raised is made again", len(h.events()) == 2)


@harness("C13", "views")
def views(h):
    e = h.e
    h.expect_cover("a product", "no product")
    f = h.fn(PN + "_unpack")
    P = h.fn(PN + "Product")
    prompt = h.op("prompt")
    x = h.val("x")
    if e.choose("product"):
        h.cover("a product")
        vals = h.val("values")
        p = h.call(P, vals)
        h.prove("a product is made of its values", p.ok and len(h.events()) == 0)
        r = h.call(f, p.val, prompt)
        evs = h.events()
        h.prove("a component's view of a product is asked of it once, by its name", len(evs) == 1 and h.same(evs[0].f, vals) and h.seq_same(evs[0].args, Seq.of([prompt])))
        if len(evs) == 1:
            h.prove("and is what it gives", r.ok == evs[0].ok and h.same(r.val, evs[0].result))
    else:
        h.cover("no product")
        h.assume(znot(e.isinst(x, P)))
        r = h.call(f, x, prompt)
        h.prove("every component's view of another value is that value", r.ok and h.same(r.val, x) and len(h.events()) == 0)


# ---------------------------------------------------------------- the view of a whole argument structure
MS = PN + "map_structure"
KINDS = ("collections.abc.Mapping", "collections.abc.Sequence", "collections.abc.Set", "collections.abc.ValuesView")
F = "view of"


def hypothesis(h, injective=False):
    """map_structure on one node; on the parts it is an arbitrary function (induction hypothesis)."""
    e = h.e
    h.note("the views of the parts are modelled as an arbitrary function of the part (induction hypothesis; termination not proved)")
    f = h.fn(MS)
    view = h.val("func")

    def part(ctx, x):
        x = ctx.unbox(x)
        if isinstance(x, TupleV):
            return TupleV(seq_map(ctx, x.seq, lambda y: part(ctx, y)))
        if isinstance(x, str):
            return x
        t = ctx.app("view", x)
        if injective:
            ctx.assume(INV(t) == ctx.box(x))
        return t

    def ms(ctx, args, kwargs):
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            return ctx.exec_function(f, args, kwargs)
        c = args.concrete()
        h.prove("parts are viewed with the same function", c is not None and len(c) == 2 and h.same(c[0], view) and ctx.trivially_empty(kwargs))
        return part(ctx, c[1])
    e.contracts[MS] = ms
    return lambda x: h.call(f, view, x), lambda x: part(e, x), view


def only(h, x, *cls):
    for c in KINDS:
        if not any(h.e.is_sub(ExtV(k), ExtV(c)) for k in cls):
            h.assume(znot(h.e.isinst(x, ExtV(c))))
    return x


def plain(h, x):
    h.assume(znot(z3.Function("is_dataclass", V, z3.BoolSort())(x)))


@harness("C13", "views of other values")
def leaf(h):
    e = h.e
    go, E, view = hypothesis(h)
    x = only(h, h.val("x"))
    if e.choose("class"):
        h.assume(e.isinst(x, ExtV("builtins.type")))
    else:
        plain(h, x)
    out = go(x)
    evs = h.events()
    h.prove("the view of a value that is no container is asked once", len(evs) == 1 and h.same(evs[0].f, view) and h.seq_same(evs[0].args, Seq.of([x])) and e.trivially_empty(evs[0].kwargs))
    h.prove("and is what it gives", len(evs) == 1 and out.ok == evs[0].ok and h.same(out.val, evs[0].result))


@harness("C13", "views of texts")
def text(h):
    e = h.e
    go, E, view = hypothesis(h)
    x = h.val("x")
    for c in ("str", "bytes", "range"):
        if e.choose(c):
            break
    e.typed(x, ExtV("builtins." + c))
    only(h, x, "builtins." + c)
    out = go(x)
    h.prove("texts and ranges are the same to every component", out.ok and h.same(out.val, x) and len(h.events()) == 0)


@harness("C13", "views of tuples")
def tuples(h):
    e = h.e
    go, E, view = hypothesis(h)
    s = h.args("items")
    out = go(TupleV(s))
    h.prove("the view of a tuple is a tuple", out.ok and isinstance(e.unbox(out.val), TupleV) and len(h.events()) == 0)
    if out.ok:
        h.prove("of the views of its items, in order", h.seq_same(e.unbox(out.val).seq, seq_map(e, s, E)))


@harness("C13", "views of lists")
def lists(h):
    e = h.e
    go, E, view = hypothesis(h)
    s = h.args("items")
    x = e.new_list(s)
    out = go(x)
    ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), ListObj) and len(h.events()) == 0
    h.prove("the view of a list is a list", ok)
    if ok:
        h.prove("a new one", out.val != x)
        h.prove("of the views of its items, in order", h.seq_same(e.obj(out.val).seq, seq_map(e, s, E)))
        h.prove("the list itself is unchanged", h.seq_same(e.obj(x).seq, s))


@harness("C13", "views of sequences")
def sequences(h):
    e = h.e
    go, E, view = hypothesis(h)
    x = h.val("x")
    e.typed(x, ExtV("collections.abc.Sequence"))
    h.assume(kind(x) == K_OBJ)
    for c in ("str", "bytes", "range"):
        h.assume(znot(e.isinst(x, ExtV("builtins." + c))))
    h.assume(znot(z3.Function("hasattr:_fields", V, z3.BoolSort())(x)))
    only(h, x, "collections.abc.Sequence")
    rebuilt(h, go(x), x, e.iter_seq(x), E, ExtV("collections.abc.Sequence"))


@harness("C13", "views of dictionaries")
def dicts(h):
    e = h.e
    go, E, view = hypothesis(h, True)
    x = h.dict("d")
    m = e.obj(x).map
    out = go(x)
    ok = out.ok and isinstance(out.val, Ref) and isinstance(e.obj(out.val), DictObj) and len(h.events()) == 0
    h.prove("the view of a dictionary is one", ok)
    if ok:
        h.prove("a new one", out.val != x)
        h.prove("the dictionary itself is unchanged", e.obj(x).map is m)
        items(h, m, e.obj(out.val).map, E)


def mappings(cls, n):
    def f(h):
        e = h.e
        go, E, view = hypothesis(h, True)
        x = h.val("x")
        e.typed(x, ExtV(cls))
        h.assume(kind(x) == K_OBJ)
        if n == 1:
            h.assume(znot(e.isinst(x, ExtV("collections.defaultdict"))))
        only(h, x, cls)
        out = go(x)
        a = one_call(h, out, x, n)
        if a is None:
            return
        if n == 2:
            h.prove("with the same default factory", h.same(a[0], e.V_field(x, "default_factory")))
        items(h, Map(x), e.map_of(a[-1]), E)
    return f


harness("C13", "views of mappings")(mappings("collections.abc.Mapping", 1))
harness("C13", "views of mapping proxies")(mappings("types.MappingProxyType", 1))
harness("C13", "views of default dictionaries")(mappings("collections.defaultdict", 2))


@harness("C13", "views of dataclasses")
def dataclasses_(h):
    e = h.e
    go, E, view = hypothesis(h)
    x = only(h, h.val("x"))
    h.assume(z3.Function("is_dataclass", V, z3.BoolSort())(x))
    h.assume(znot(e.isinst(x, ExtV("builtins.type"))))
    h.assume(kind(x) == K_OBJ)
    out = go(x)
    evs = h.events()
    h.prove("it is rebuilt once", len(evs) == 1 and evs[0].f == ExtV("dataclasses.replace"))
    if len(evs) != 1:
        return
    a = evs[0].args.concrete()
    h.prove("from itself", a is not None and len(a) == 1 and h.same(a[0], x))
    fs = e.natives["dataclasses.fields"](e, Seq.of([x]), Map()).seq
    j = h.int("j")
    if e.decide(zand(j >= 0, j < I(e.seq_len(fs)))):
        nm = e.getattr(e.seq_at(fs, j), "name")
        v = e.map_get(evs[0].kwargs, nm)
        h.prove("every field is given", v is not e.MISSING)
        if v is not e.MISSING:
            h.prove("the view of what it held", h.same(v, E(e.natives["builtins.getattr"](e, Seq.of([x, nm]), Map()))))
    h.prove("what that gives is the view", out.ok == evs[0].ok and h.same(out.val, evs[0].result))
