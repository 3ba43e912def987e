"""C08: structural equality at one node, given that it is decided for the parts by an arbitrary relation (the induction hypothesis)."""
import z3

from pyvc.engine import I, zand, znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SYN = "effectful.ops.syntax."
EQ = SYN + "syntactic_eq"
SE = z3.Function("structurally equal", V, V, z3.BoolSort())


def hypothesis(h):
    e = h.e
    h.note("structural equality of the parts is modelled as an arbitrary relation (induction hypothesis; termination not proved)")
    h.note("precondition: a value is of one of the kinds (term, mapping, sequence, text, other) only")
    d = h.fn(EQ)

    def eq(ctx, args, kwargs):
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            return ctx.call_dispatch(d, args, kwargs, True)
        a, b = args.concrete()
        t = SE(ctx.box(a), ctx.box(b))
        ctx.keep.append(t)
        return t
    e.contracts[EQ] = eq
    return d


def only(h, x, cls):
    e = h.e
    cls = h.fn(cls) if cls.startswith("effectful") else ExtV(cls)
    for c, _, _ in e.registry(h.fn(EQ)):
        if not e.is_sub(cls, c):
            h.assume(znot(e.isinst(x, c)))
    return x


def plain(h, *xs):
    for x in xs:
        h.assume(znot(z3.Function("is_dataclass", V, z3.BoolSort())(x)))


def term(h, name):
    e = h.e
    t = h.obj("effectful.ops.types.Term", name)
    op, args, kwargs = e.V_field(t, "op"), e.V_field(t, "args"), e.V_field(t, "kwargs")
    e.typed(op, e.op_class())
    e.typed(args, ExtV("collections.abc.Sequence"))
    e.typed(kwargs, ExtV("collections.abc.Mapping"))
    return t, op, e.sym_seq(args), Map(kwargs)


def truth(h, out):
    """The outcome is a plain truth value; which one."""
    h.prove("the outcome is a truth value", out.ok and (isinstance(h.e.unbox(out.val), bool) or z3.is_bool(out.val)))
    h.prove("nothing is run", len(h.events()) == 0)
    return h.e.truth(out.val) if out.ok else None


def every(h, s, t):
    """All elements of s and t are structurally equal, pairwise (a formula)."""
    e = h.e
    n = I(e.seq_len(s))
    j = z3.Int("jj")
    a, b = e.box(e.seq_at(s, j)), e.box(e.seq_at(t, j))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), SE(a, b)))


@harness("C08", "terms")
def terms(h):
    e = h.e
    h.expect_cover("equal", "different", "no term")
    d = hypothesis(h)
    x, op, args, kws = term(h, "x")
    only(h, x, "effectful.ops.types.Term")
    if e.choose("other is no term"):
        h.cover("no term")
        y = h.val("y")
        h.assume(znot(e.isinst(y, h.fn("effectful.ops.types.Term"))))
        h.prove("a term equals terms only", truth(h, h.call(d, x, y)) is False)
        return
    y, op2, args2, kws2 = term(h, "y")
    r = truth(h, h.call(d, x, y))
    if r:
        h.cover("equal")
        h.prove("equal terms have the same operation", h.same(op, op2))
        h.prove("as many arguments", I(e.seq_len(args)) == I(e.seq_len(args2)))
        j = h.int("j")
        if e.decide(zand(j >= 0, j < I(e.seq_len(args)), j < I(e.seq_len(args2)))):
            h.prove("pairwise equal, in order", SE(e.box(e.seq_at(args, j)), e.box(e.seq_at(args2, j))))
        k = h.val("k")
        a, b = e.map_get(kws, k), e.map_get(kws2, k)
        h.prove("the same keywords", (a is e.MISSING) == (b is e.MISSING))
        if a is not e.MISSING and b is not e.MISSING:
            h.prove("with equal arguments", SE(e.box(a), e.box(b)))
        return
    if r is False:
        h.cover("different")
        k = z3.Const("kk", V)
        h.prove("terms are different only if something differs", znot(zand(
            h.same(op, op2), I(e.seq_len(args)) == I(e.seq_len(args2)), every(h, args, args2),
            z3.ForAll([k], mhas(kws.base, k) == mhas(kws2.base, k)),
            z3.ForAll([k], z3.Implies(mhas(kws.base, k), SE(mget(kws.base, k), mget(kws2.base, k)))))))


@harness("C08", "mappings")
def mappings(h):
    e = h.e
    h.expect_cover("equal", "different", "no mapping")
    d = hypothesis(h)
    x = h.mapping("x")
    only(h, x, "collections.abc.Mapping")
    plain(h, x)
    if e.choose("other is no mapping"):
        h.cover("no mapping")
        y = h.val("y")
        h.assume(znot(e.isinst(y, ExtV("collections.abc.Mapping"))))
        h.prove("a mapping equals mappings only", truth(h, h.call(d, x, y)) is False)
        return
    y = h.mapping("y")
    plain(h, y)
    r = truth(h, h.call(d, x, y))
    m, n = Map(x), Map(y)
    if r:
        h.cover("equal")
        k = h.val("k")
        a, b = e.map_get(m, k), e.map_get(n, k)
        h.prove("equal mappings have the same keys", (a is e.MISSING) == (b is e.MISSING))
        if a is not e.MISSING and b is not e.MISSING:
            h.prove("with equal values", SE(e.box(a), e.box(b)))
    elif r is False:
        h.cover("different")
        k = z3.Const("kk", V)
        h.prove("mappings are different only if something differs", znot(zand(
            z3.ForAll([k], mhas(x, k) == mhas(y, k)),
            z3.ForAll([k], z3.Implies(mhas(x, k), SE(mget(x, k), mget(y, k)))))))


@harness("C08", "sequences")
def sequences(h):
    e = h.e
    h.expect_cover("equal", "different", "no sequence")
    d = hypothesis(h)
    SEQ = "collections.abc.Sequence"
    x = h.val("x")
    e.typed(x, ExtV(SEQ))
    h.assume(kind(x) == K_OBJ)
    only(h, x, SEQ)
    plain(h, x)
    has = z3.Function("hasattr:_fields", V, z3.BoolSort())
    h.assume(znot(has(x)))
    if e.choose("other is no sequence"):
        h.cover("no sequence")
        y = h.val("y")
        h.assume(znot(has(y)))
        if e.choose("text"):
            h.assume(e.isinst(y, ExtV("builtins.str")) if e.choose("str") else e.isinst(y, ExtV("builtins.bytes")))
        else:
            h.assume(znot(e.isinst(y, ExtV(SEQ))))
        h.prove("a sequence equals sequences only, and no text", truth(h, h.call(d, x, y)) is False)
        return
    y = h.val("y")
    e.typed(y, ExtV(SEQ))
    h.assume(kind(y) == K_OBJ)
    h.assume(znot(has(y)))
    plain(h, y)
    for c in ("str", "bytes"):
        h.assume(znot(e.isinst(y, ExtV("builtins." + c))))
    r = truth(h, h.call(d, x, y))
    s, t = e.iter_seq(x), e.iter_seq(y)
    if r:
        h.cover("equal")
        h.prove("equal sequences are as long", I(e.seq_len(s)) == I(e.seq_len(t)))
        j = h.int("j")
        if e.decide(zand(j >= 0, j < I(e.seq_len(s)), j < I(e.seq_len(t)))):
            h.prove("with equal items, in order", SE(e.box(e.seq_at(s, j)), e.box(e.seq_at(t, j))))
    elif r is False:
        h.cover("different")
        h.prove("sequences are different only if something differs", znot(zand(I(e.seq_len(s)) == I(e.seq_len(t)), every(h, s, t))))


@harness("C08", "other values")
def others(h):
    e = h.e
    h.expect_cover("a term", "no term")
    d = hypothesis(h)
    x = h.val("x")
    case = None
    for c in ("builtins.int", "builtins.str", "builtins.bytes", "builtins.float", "builtins.set"):
        if e.choose(c):
            case = c
            break
    if case:
        e.typed(x, ExtV(case))
        only(h, x, case)
    else:
        only(h, x, "builtins.object")
        h.assume(znot(e.isinst(x, h.fn("effectful.ops.types.Term"))))
    plain(h, x)
    y = h.val("y")
    T = h.fn("effectful.ops.types.Term")
    if e.choose("term"):
        h.cover("a term")
        h.assume(e.isinst(y, T))
        h.prove("no value equals a term", truth(h, h.call(d, x, y)) is False)
        return
    h.cover("no term")
    h.assume(znot(e.isinst(y, T)))
    out = h.call(d, x, y)
    h.prove("equality of other values is their own", out.ok and len(h.events()) == 0 and z3.is_bool(out.val) and h.proved(out.val == e.py_eq(x, y)))


@harness("C08", "dataclasses")
def dataclasses_(h):
    e = h.e
    h.expect_cover("one kind", "two kinds")
    d = hypothesis(h)
    is_dc = z3.Function("is_dataclass", V, z3.BoolSort())
    T = h.fn("effectful.ops.types.Term")
    xs = []
    for n in "xy":
        x = h.val(n)
        h.assume(is_dc(x))
        h.assume(kind(x) == K_OBJ)
        h.assume(znot(e.isinst(x, ExtV("builtins.type"))))
        h.assume(znot(e.isinst(x, T)))
        xs.append(x)
    x, y = xs
    seen = []
    old = e.contracts[EQ]

    def eq(ctx, args, kwargs):
        if ctx.st.ghost.get("outer"):
            seen.append(args.concrete())
        return old(ctx, args, kwargs)
    e.contracts[EQ] = eq
    r = truth(h, h.call(d, x, y))
    if not e.decide(e.box(e.type_value(x)) == e.box(e.type_value(y))):
        h.cover("two kinds")
        h.prove("instances of different classes are different", r is False)
        return
    h.cover("one kind")
    h.prove("instances of one class are compared by their fields", len(seen) == 1)
    if len(seen) != 1:
        return
    h.prove("and equal exactly when those are", e.decide(SE(e.box(seen[0][0]), e.box(seen[0][1]))) == r)
    for v, o, who in ((seen[0][0], x, "first"), (seen[0][1], y, "second")):
        m = e.map_of(v)
        fs = e.natives["dataclasses.fields"](e, Seq.of([o]), Map()).seq
        j = h.int("j")
        if e.decide(zand(j >= 0, j < I(e.seq_len(fs)))):
            nm = e.getattr(e.seq_at(fs, j), "name")
            w = e.map_get(m, nm)
            h.prove(f"every field of the {who}", w is not e.MISSING)
            if w is not e.MISSING:
                h.prove(f"with what the {who} holds", h.same(w, e.natives["builtins.getattr"](e, Seq.of([o, nm]), Map())))
