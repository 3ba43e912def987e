"""C11: handler classes: what one declares, what it exposes, and how an instance reads it."""
import ast

import z3

from pyvc.engine import I, is_V, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SY = "effectful.ops.syntax."
OWN = "_own_implementations"


def given_dict(h, m):
    """A dictionary that was there before."""
    return h.e.new_dict(m)


@harness("C11", "declaring an implementation")
def declaring(h):
    e = h.e
    h.expect_cover("first of its class", "one more", "inherits others")
    h.note("Python calls __set_name__ with the new class for every attribute in its body, before __init_subclass__; __dict__ holds what a class defines itself and reading an attribute finds it on the class, else on a base")
    op, impl, owner = h.op("op"), h.val("impl"), h.val("owner")
    other = h.op("other")
    h.assume(impl != e.box(None))
    d = h.call(h.fn(SY + "implements"), op)
    h.prove("implements gives a decorator", d.ok)
    if not d.ok:
        return
    d2 = h.call(d.val, impl)
    h.prove("the decorator accepts the method", d2.ok)
    if not d2.ok:
        return
    first = e.choose("the first implementation of its class")
    base = e.choose("a base declares some")
    m0, mb = Map(e.fresh("own")), Map(e.fresh("inherited"))
    own, inh = given_dict(h, m0), given_dict(h, mb)
    h.cover("first of its class" if first else "one more")
    if base:
        h.cover("inherits others")
    old_attr, old_set = type(e).getattr.__get__(e), type(e).setattr.__get__(e)
    state = {"own": None if first else own}

    def getattr_(o, name, default=e.MISSING):
        if is_V(e.unbox(o)) and h.proved(h.same(o, owner)):
            cur = e.st.ghost.get("own dict", state["own"])
            if name == "__dict__":
                return e.new_dict(Map(None, [("store", OWN, cur)] if cur is not None else []))
            if name == OWN:
                if cur is not None:
                    return cur
                if base:
                    return inh
                if default is not e.MISSING:
                    return default
                e.throw("AttributeError", name)
        return old_attr(o, name, default)

    def setattr_(o, name, v):
        if name == OWN and is_V(e.unbox(o)) and h.proved(h.same(o, owner)):
            e.st.ghost["own dict"] = v
            return
        return old_set(o, name, v)
    e.getattr, e.setattr = getattr_, setattr_
    name = h.str("name")
    r = h.call(e.getattr(d2.val, "__set_name__"), owner, name)
    h.prove("declaring succeeds", r.ok)
    h.prove("nothing is run and nothing else changes", len(h.events()) == 0)
    cur = e.unbox(e.st.ghost.get("own dict", state["own"]))
    h.prove("the class has a record of its own", isinstance(cur, Ref) and cur != inh)
    if not isinstance(cur, Ref):
        return
    m = e.map_of(cur)
    v = e.map_get(m, op)
    h.prove("the operation is implemented by the method", v is not e.MISSING and h.same(v, impl))
    h.assume(znot(h.same(op, other)))
    v = e.map_get(m, other)
    if first:
        h.prove("and nothing more is recorded", v is e.MISSING)
    else:
        w = e.map_get(m0, other)
        h.prove("earlier declarations are kept", (v is e.MISSING) == (w is e.MISSING))
        if v is not e.MISSING and w is not e.MISSING:
            h.prove("earlier declarations are unchanged", h.same(v, w))
    k = h.op("k")
    v, w = e.map_get(e.map_of(inh), k), e.map_get(mb, k)
    h.prove("the base's record is unchanged", (v is e.MISSING) == (w is e.MISSING) and (v is e.MISSING or h.same(v, w)))


@harness("C11", "the implementations of a class", budget=60.0)
def collecting(h):
    e = h.e
    h.expect_cover("implemented", "not implemented", "looked at", "done")
    h.note("mro() gives the class and all its ancestors, the more derived before the less derived (Python)")
    h.note("the specification is pointwise: for one arbitrary operation k")
    init = h.fn(SY + "ObjectInterpretation.__init_subclass__")
    if isinstance(init, BoundV):
        init = init.self_
    cls, k = h.val("cls"), h.op("k")
    mro = e.sym_seq(e.fresh("mro"))
    n = e.seq_len(mro)
    dictof = z3.Function("class dict", V, V)
    okey = e.box(OWN)

    def declares(c):
        return zand(mhas(dictof(c), okey), mhas(mget(dictof(c), okey), e.box(k)))

    def impl(c):
        return mget(mget(dictof(c), okey), e.box(k))

    def at(i):
        return e.box(e.seq_at(mro, i))
    old_attr = type(e).V_attr.__get__(e)

    def V_attr(o, name, default):
        if name == "__dict__":
            t = dictof(o)
            e.typed(t, ExtV("collections.abc.Mapping"))
            own = mget(t, okey)
            e.keep.append(own)
            e.typed(own, ExtV("collections.abc.Mapping"))
            e.assume(kind(own) == K_OBJ)
            return t
        if name == "mro" and h.proved(h.same(o, cls)):
            return NativeV("mro", lambda ctx, a, kw: ctx.new_list(mro))
        if name == "__mro__" and h.proved(h.same(o, cls)):
            return TupleV(mro)
        return old_attr(o, name, default)
    e.V_attr = V_attr

    def current(env=None):
        v = e.st.attrs.get((cls.get_id(), "implementations"))
        return e.unbox(v) if v is not None else None

    def described(m, j):
        """m says what the last j classes of the mro say about k."""
        i, i2 = z3.Int("i!"), z3.Int("i2!")
        lo, hi = I(n) - j, I(n)
        none = z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), znot(declares(at(i)))))
        v = e.map_get(m, k)
        if v is e.MISSING:
            return none
        some = z3.Exists([i], z3.And(i >= lo, i < hi, declares(at(i)), impl(at(i)) == e.box(v),
                                     z3.ForAll([i2], z3.Implies(z3.And(i2 >= lo, i2 < i), znot(declares(at(i2)))))))
        return some

    def check(env, j):
        c = current()
        out = [("the class has a mapping of its own", isinstance(c, Ref))]
        if isinstance(c, Ref):
            out.append(("it holds the most derived implementation among the classes seen", described(e.map_of(c), j)))
        return out

    def havoc(env, j):
        c = current()
        if not isinstance(c, Ref):
            raise Infeasible
        lo, hi = I(n) - j, I(n)
        i2 = z3.Int("i2!")
        if e.choose("somebody implements it"):
            i = e.fresh("who", z3.IntSort())
            e.assume(z3.And(i >= lo, i < hi, declares(at(i))))
            e.assume(z3.ForAll([i2], z3.Implies(z3.And(i2 >= lo, i2 < i), znot(declares(at(i2))))))
            m = Map(e.fresh("seen")).plus(("store", k, impl(at(i))))
        else:
            e.assume(z3.ForAll([i2], z3.Implies(z3.And(i2 >= lo, i2 < hi), znot(declares(at(i2))))))
            f = e.fresh("seen")
            e.assume(znot(mhas(f, e.box(k))))
            m = Map(f)
        e.st.heap[c.oid] = DictObj(m)
        return {c.oid}
    h.invariant(SY + "ObjectInterpretation.__init_subclass__", "collecting", check, havoc, loop="For", pick=lambda node: "mro" in ast.dump(node.iter))
    h.cover("looked at")
    r = h.call(init, cls)
    h.prove("defining the class succeeds", r.ok)
    h.cover("done")
    c = current()
    h.prove("it has a mapping of its own, newly made", isinstance(c, Ref))
    if not isinstance(c, Ref):
        return
    h.prove("nothing is run and no other class is changed", all(x.what == "setattr" and h.proved(h.same(x.f, cls)) for x in h.events()))
    m = e.map_of(c)
    i = h.int("i")
    v = e.map_get(m, k)
    h.assume(zand(i >= 0, i < I(n)))
    i2 = z3.Int("i2!")
    if v is e.MISSING:
        h.cover("not implemented")
        h.prove("an operation is left out only if no class of the mro implements it", znot(declares(at(i))))
        return
    h.cover("implemented")
    h.prove("an operation is there only if a class of the mro implements it", z3.Exists([i2], z3.And(i2 >= 0, i2 < I(n), declares(at(i2)))))
    h.prove("with the most derived implementation", z3.Implies(z3.And(declares(at(i)), z3.ForAll([i2], z3.Implies(z3.And(i2 >= 0, i2 < i), znot(declares(at(i2)))))), e.box(v) == impl(at(i))))


@harness("C11", "an instance as a mapping")
def reading(h):
    e = h.e
    h.expect_cover("lookup", "no such operation", "iterate", "length")
    C = h.fn(SY + "ObjectInterpretation")
    m = Map(e.fresh("implementations"))
    imps = e.new_dict(m)
    slf = h.obj(SY + "ObjectInterpretation", "self")
    old = type(e).V_attr.__get__(e)

    def V_attr(o, name, default):
        if name == "implementations" and h.proved(h.same(o, slf)):
            return imps
        return old(o, name, default)
    e.V_attr = V_attr
    what = e.choose("lookup")
    if what:
        k = h.op("k")
        r = h.call(e.getattr(slf, "__getitem__"), k)
        v = e.map_get(m, k)
        if v is e.MISSING:
            h.cover("no such operation")
            h.prove("an operation not implemented is no key", not r.ok and e.exc_name(r.exc) == "KeyError" if hasattr(e, "exc_name") else not r.ok)
            return
        h.cover("lookup")
        ev = h.events()
        h.prove("a lookup runs nothing but the binding of the method", len(ev) == 1)
        if len(ev) == 1:
            c = ev[0].args.concrete()
            h.prove("the method is bound to this instance", c is not None and len(c) >= 1 and h.same(c[0], slf))
            h.prove("the method is the class's implementation", is_bound_get(h, ev[0].f, v))
            if r.ok:
                h.prove("the bound method is the value", h.same(r.val, ev[0].result))
        return
    if e.choose("iterate"):
        h.cover("iterate")
        r = h.call(e.getattr(slf, "__iter__"))
        h.prove("iterating succeeds", r.ok)
        if r.ok:
            h.prove("the keys are the operations implemented", h.seq_same(e.iter_seq(r.val), e.map_keys(m)))
    else:
        h.cover("length")
        r = h.call(e.getattr(slf, "__len__"))
        h.prove("there are as many keys as operations implemented", r.ok and h.proved(I(r.val) == I(e.seq_len(e.map_keys(m)))))


def is_bound_get(h, t, v):
    """t is the attribute __get__ of v."""
    e = h.e
    t = e.unbox(t)
    if isinstance(t, BoundV):
        return t.func == "__get__" and h.same(t.self_, v)
    return is_V(t) and h.same(t, e.V_field(v, "__get__"))
