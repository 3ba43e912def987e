"""C09: identity decides equality, order and hashing; bound access is stable and separate; definitions are fresh."""
import z3

from pyvc.engine import I, is_V, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

TY = "effectful.ops.types."
OP = TY + "Operation"
ID = z3.Function("id", V, z3.IntSort())


@harness("C09", "identity")
def identity(h):
    e = h.e
    h.expect_cover("operations", "something else", "hash")
    h.note("id() is one number per object, different for different objects (Python, while both are alive)")
    a = h.op("a")
    if e.choose("hash"):
        h.cover("hash")
        x, y = h.call(h.fn(OP + ".__hash__"), a), h.call(h.fn(OP + ".__hash__"), a)
        h.prove("an operation is hashable", x.ok and y.ok)
        if x.ok and y.ok:
            h.prove("its hash does not change", h.same(x.val, y.val))
        return
    names = ("__eq__", "__lt__", "__gt__", "__le__", "__ge__")
    if e.choose("something else"):
        h.cover("something else")
        y = h.val("y")
        h.assume(znot(e.isinst(y, h.fn(OP))))
        for n in names:
            r = h.call(h.fn(OP + "." + n), a, y)
            h.prove(f"{n} with something else is left to the other side", r.ok and is_ni(e, r.val))
        return
    h.cover("operations")
    b = h.op("b")
    h.assume(z3.Implies(ID(a) == ID(b), a == b))
    rs = []
    for n in names:
        r = h.call(h.fn(OP + "." + n), a, b)
        h.prove(f"{n} is decided", r.ok)
        if not r.ok:
            return
        rs.append(e.truth_f(r.val) if not isinstance(r.val, bool) else z3.BoolVal(r.val))
    eq, lt, gt, le, ge = rs
    h.prove("equal means identical", eq == (a == b))
    h.prove("of two operations one is smaller, unless they are the same", zand(zor(lt, gt, eq), znot(zand(lt, gt)), znot(zand(lt, eq)), znot(zand(gt, eq))))
    h.prove("<= and >= are consistent with < and ==", zand(le == z3.Or(lt, eq), ge == z3.Or(gt, eq)))
    h.prove("comparing runs nothing", len(h.events()) == 0)
    swapped = [h.call(h.fn(OP + "." + n), b, a) for n in ("__lt__", "__gt__")]
    if all(s.ok for s in swapped):
        f = [e.truth_f(s.val) if not isinstance(s.val, bool) else z3.BoolVal(s.val) for s in swapped]
        h.prove("< and > are mirror images", zand(f[0] == gt, f[1] == lt))
    c = h.op("c")
    h.assume(z3.Implies(ID(a) == ID(c), a == c))
    h.assume(z3.Implies(ID(b) == ID(c), b == c))
    r1, r2 = h.call(h.fn(OP + ".__lt__"), b, c), h.call(h.fn(OP + ".__lt__"), a, c)
    if r1.ok and r2.ok:
        h.prove("the order is transitive", z3.Implies(z3.And(lt, tz(e, r1.val)), tz(e, r2.val)))


def tz(e, v):
    return e.truth_f(v) if not isinstance(v, bool) else z3.BoolVal(v)


def is_ni(e, v):
    return repr(e.unbox(v)).find("NotImplemented") >= 0


def instance_with_dict(h, x, what, n):
    """x has an attribute dictionary with arbitrary contents (or none)."""
    e = h.e
    m = Map(e.fresh(what + "_dict"))
    d = e.new_dict(m)
    e.st.attrs[(x.get_id(), "__dict__")] = d
    return d, m


@harness("C09", "bound access", budget=80.0)
def access(h):
    e = h.e
    h.expect_cover("through the class", "plain", "seen before", "term", "fresh", "rewritten", "not rewritten")
    h.note("precondition: the class attribute name given by __set_name__ is one per operation (it contains id(self)) and no other attribute of the instance has it")
    h.runtime()
    slf = h.op("self")
    get = h.fn(OP + ".__get__")
    name = h.str("name_on_instance")
    named = e.choose("defined in a class")
    if named:
        e.st.attrs[(slf.get_id(), "_name_on_instance")] = name
    else:
        e.assume(znot(z3.Function("hasattr:_name_on_instance", V, z3.BoolSort())(slf)))
    if e.choose("through the class"):
        h.cover("through the class")
        r = h.call(get, slf, None, h.val("owner"))
        h.prove("access through the class gives the operation itself", r.ok and h.same(r.val, slf))
        return
    x = h.val("instance")
    h.assume(x != e.box(None))
    d = m = None
    if e.choose("the instance has a dictionary"):
        d, m = instance_with_dict(h, x, "instance", name)
        h.assume(z3.Implies(mhas(m.base, e.box(name)), e.isinst(mget(m.base, e.box(name)), h.fn(OP))))
    else:
        e.assume(znot(z3.Function("hasattr:__dict__", V, z3.BoolSort())(x)))
    fv = e.fresh("fvs", z3.SetSort(V))
    e.contracts["effectful.ops.semantics.fvsof"] = lambda ctx, a, k: ctx.new_set(SetV(arr=fv))
    calls, inner, made = [], [], []
    out = h.val("result")

    def opcall(ctx, a, k):
        calls.append((a, k))
        return out
    e.contracts[OP + ".__call__"] = opcall

    def get2(ctx, a, k):
        if ctx.st.ghost.get("phase") != "default":
            return ctx.exec_function(ctx.callee, a, k)
        inner.append(a)
        o = ctx.app("accessed", ctx.seq_at(a, 0), ctx.seq_at(a, 1))  # the same each time (shown above)
        ctx.st.ghost["inner"] = o
        return o
    e.contracts[OP + ".__get__"] = get2

    def dd(ctx, a, k):
        made.append((a, k))
        return ctx.fresh("term")
    e.contracts["effectful.ops.syntax.defdata"] = dd
    r = h.call(get, slf, x, h.val("owner"))
    h.prove("access succeeds", r.ok)
    if not r.ok:
        return

    def unchanged():
        if d is None:
            return
        k = h.val("k")
        a, b = e.map_get(m, k), e.map_get(e.map_of(d), k)
        h.prove("the instance is unchanged", (a is e.MISSING) == (b is e.MISSING) and (a is e.MISSING or h.same(a, b)))

    def method(v):
        """v is the operation with the instance as first argument."""
        v = e.unbox(v)
        return isinstance(v, BoundV) and zand(h.same(v.func, slf), h.same(v.self_, x))
    if d is None or not named:
        h.cover("plain")
        h.prove("other instances give the operation bound to the instance", method(r.val))
        unchanged()
        return
    before = e.map_get(m, name)
    if before is not e.MISSING:
        h.cover("seen before")
        h.prove("an instance accessed before gives the same operation again", h.same(r.val, before))
        unchanged()
        return
    isterm = e.decide(e.isinst(x, h.fn(TY + "Term")))
    k = z3.Const("k!", V)
    if isterm or not h.proved(fv == z3.EmptySet(V)) and e.decide(znot(fv == z3.EmptySet(V))):
        h.cover("term")
        h.prove("a symbolic instance gives the operation bound to it, not a new one", method(r.val))
        unchanged()
        return
    h.cover("fresh")
    new = e.st.ghost.get("fresh_ops", ())
    h.prove("one operation is defined for the instance", len(new) == 1 and h.same(r.val, new[0]))
    if len(new) != 1:
        return
    now = e.map_get(e.map_of(d), name)
    h.prove("and kept by it", now is not e.MISSING and h.same(now, new[0]))
    other = h.val("k")
    h.assume(znot(e.box(name) == other))
    a, b = e.map_get(m, other), e.map_get(e.map_of(d), other)
    h.prove("nothing else of the instance changes", (a is e.MISSING) == (b is e.MISSING) and (a is e.MISSING or h.same(a, b)))
    again = h.call(get, slf, x, h.val("owner"))
    h.prove("the next access gives the same operation", again.ok and h.same(again.val, new[0]))
    # the default of the new operation
    src, nm = e.st.ghost[("define_of", new[0].get_id())]
    h.prove("it is defined from one callable", len(src) == 1)
    e.st.ghost["phase"] = "default"
    args, kwargs = h.args("args"), h.kwargs("kwargs", reserved=("self", "op", "instance"))
    isT = e.choose("the default is a term")
    if isT:
        e.typed(out, h.fn(TY + "Term"))
        o2, a2, k2 = h.op("op2"), h.args("args2"), Map(e.fresh("kwargs2"))
        e.st.attrs[(out.get_id(), "op")] = o2
        e.st.attrs[(out.get_id(), "args")] = TupleV(a2)
        e.st.attrs[(out.get_id(), "kwargs")] = e.new_dict(k2)
        h.assume(z3.Implies(o2 == slf, I(e.seq_len(a2)) >= 1))
        h.note("precondition: a term of a method operation has the instance as first positional argument")
    else:
        h.assume(znot(e.isinst(out, h.fn(TY + "Term"))))
    r = h.callx(src[0], args, kwargs)
    h.prove("its default behaviour ends", r.ok)
    h.prove("it calls the method operation once", len(calls) == 1)
    if len(calls) != 1 or not r.ok:
        return
    h.prove("with the instance and the arguments", zand(h.seq_same(calls[0][0], Seq.of([slf, x]) + args), h.map_same(calls[0][1], kwargs)))
    if isT and made:
        h.cover("rewritten")
        h.prove("only a term of the method operation is rewritten", h.same(o2, slf))
        h.prove("only if its first argument is an instance", len(inner) >= 1 and h.proved(e.isinst(e.st.ghost["inner"], h.fn(OP))))
        for a in inner:
            h.prove("the operation of that instance is used", zand(h.same(e.seq_at(a, 0), slf), h.same(e.seq_at(a, 1), e.seq_at(a2, 0))))
        h.prove("one term is made", len(made) == 1)
        a, k = made[0]
        h.prove("the instance is left out, everything else kept", zand(h.seq_same(Seq(a.segs[1:]), e.seq_slice(a2, SliceV(1, None, None))), h.map_same(k, k2)))
        return
    h.cover("not rewritten")
    h.prove("any other result is passed on", h.same(r.val, out))


@harness("C09", "class methods")
def classmethods(h):
    e = h.e
    h.expect_cover("first", "again", "inherited")
    h.note("classmethod.__get__(instance, owner) gives the method bound to the owner (Python)")
    D = h.fn(TY + "_ClassMethodOpDescriptor")
    name = h.str("name_on_owner")
    cm = []

    def super_get(ctx, a, k):
        c = a.concrete()
        cm.append(c)
        return ctx.app("bound classmethod", c[0], c[2] if len(c) > 2 else None)
    e.natives = {**e.natives, "super:builtins.classmethod.__get__": super_get}
    defs = []

    def define(ctx, a, k):
        t = ctx.fresh("classop")
        ctx.typed(t, ctx.op_class())
        defs.append((a.concrete(), t))
        return t
    slf = e.alloc(Inst(D, {"_define": NativeV("define", define), "_name_on_owner": name}))
    owner, inst = h.val("owner"), h.val("instance")
    h.assume(owner != e.box(None))
    m = Map(e.fresh("class_dict"))
    st = e.st
    e.st.ghost["class dict"] = m
    old_get = type(e).getattr.__get__(e)
    sets = []

    def getattr_(o, n, default=e.MISSING):
        if n == "__dict__" and is_V(e.unbox(o)) and h.proved(h.same(o, owner)):
            return e.new_dict(e.st.ghost["class dict"])
        return old_get(o, n, default)
    e.getattr = getattr_

    def py_setattr(ctx, a, k):
        o, n, v = a.concrete()
        if h.proved(h.same(o, owner)):
            ctx.st.ghost["class dict"] = ctx.st.ghost["class dict"].plus(("store", n, v))
            return None
        sets.append(o)
        return None
    e.natives["builtins.setattr"] = py_setattr
    get = BoundV(e.class_attr(D, "__get__"), slf)
    r = h.call(get, inst, owner)
    h.prove("access succeeds", r.ok)
    if not r.ok:
        return
    h.prove("no other class changes", not sets)
    before = e.map_get(m, name)
    now = e.map_get(e.st.ghost["class dict"], name)
    if before is not e.MISSING:
        h.cover("again")
        h.prove("the operation of the class is the one it has", h.same(r.val, before))
        h.prove("nothing is defined", not defs)
    else:
        h.cover("first")
        h.cover("inherited")
        h.prove("one operation is defined", len(defs) == 1)
        if len(defs) != 1:
            return
        c, t = defs[0]
        h.prove("it is returned", h.same(r.val, t))
        h.prove("and kept by the class itself", now is not e.MISSING and h.same(now, t))
        h.prove("it is the method bound to the class", len(c) == 1 and h.same(c[0], e.app("bound classmethod", slf, owner)))
        r2 = h.call(get, h.val("another"), owner)
        h.prove("the next access gives the same operation", r2.ok and h.same(r2.val, t) and len(defs) == 1)
    k = h.val("k")
    h.assume(znot(e.box(name) == k))
    a, b = e.map_get(m, k), e.map_get(e.st.ghost["class dict"], k)
    h.prove("nothing else of the class changes", (a is e.MISSING) == (b is e.MISSING) and (a is e.MISSING or h.same(a, b)))


@harness("C09", "definitions", budget=80.0)
def definitions(h):
    """Each kind of source gives a fresh operation with the right default behaviour."""
    e = h.e
    h.expect_cover("callable", "operation", "type", "builtin", "static", "class")
    h.note("Operation.define picks the definition by the kind of source (functools.singledispatchmethod)")
    h.note("precondition: functions are not called with a keyword argument named self/op/cls")
    h.runtime()
    C = h.fn(OP)
    T = lambda n: h.fn(OP + "." + n)  # noqa: E731
    src = h.val("source")
    name = h.val("name")
    h.assume(z3.Or(name == e.box(None), kind(name) == K_STR) if "K_STR" in globals() else z3.BoolVal(True))
    args, kwargs = h.args("args"), h.kwargs("kwargs", reserved=("self", "op", "cls", "t"))
    made, news = [], []

    def define(ctx, a, k):
        nm = ctx.map_get(k, "name") if not ctx.trivially_empty(k) else None
        t = ctx.fresh("defined")
        ctx.typed(t, ctx.op_class())
        c = a.concrete()
        h.prove("operations of the same class are defined", h.same(c[0], C))
        made.append((c[1:], None if nm is ctx.MISSING else nm, t))
        return t
    e.contracts[OP + ".define"] = define

    def new(ctx, a, k):
        nm = ctx.map_get(k, "name") if not ctx.trivially_empty(k) else None
        t = ctx.fresh("constructed")
        ctx.typed(t, ctx.op_class())
        news.append((a.concrete(), None if nm is ctx.MISSING else nm, t))
        return t
    e.contracts[OP] = new
    fva, fvk = e.fresh("fvs of args", z3.SetSort(V)), e.fresh("fvs of kwargs", z3.SetSort(V))
    fv = z3.SetUnion(fva, fvk)

    def variables(ctx, x):
        x = ctx.unbox(x)
        if isinstance(x, Ref) and isinstance(ctx.obj(x), DictObj) and h.proved(h.map_same(ctx.obj(x).map, kwargs)):
            return fvk
        if isinstance(x, TupleV) or isinstance(x, Ref) and isinstance(ctx.obj(x), ListObj):
            s = ctx.iter_seq(x)
            if s.concrete() is not None:
                r = z3.EmptySet(V)
                for y in s.concrete():
                    r = z3.SetUnion(r, variables(ctx, y))
                return r
            vals = ctx.iter_seq(ViewV("values", kwargs))
            for t, r in ((args + vals, fv), (vals + args, fv), (args, fva), (vals, fvk)):
                if h.proved(h.seq_same(s, t)):
                    return r
        raise Unsupported("free variables of something else")

    def fvs(ctx, a, k):
        return ctx.new_set(SetV(arr=variables(ctx, a.concrete()[0])))
    e.contracts["effectful.ops.semantics.fvsof"] = fvs
    e.pure_prefixes = ["inspect.Signature"]

    def raises_not_handled(f, what):
        r = h.callx(f, args, kwargs)
        h.prove(f"{what} has no default behaviour", not r.ok and exc_is(h, r, TY + "NotHandled"))
        h.prove(f"{what} runs nothing", len(h.events()) == 0)

    def one(what, r, k):
        """exactly one operation was made, returned, with the requested name."""
        l = news if k == "new" else made
        h.prove(f"{what}: one operation is defined", r.ok and len(news) + len(made) == 1 and len(l) == 1)
        if not (r.ok and len(l) == 1 and len(news) + len(made) == 1):
            return None
        h.prove(f"{what}: with the requested name", h.same(l[0][1], name))
        return l[0]

    def define_with(n, *a, **k):
        return h.call(e.getattr(C, n), *a, **k)
    case = next((c for c in ("callable", "operation", "type", "builtin", "static") if e.choose("source: " + c)), "class")
    h.cover(case)
    if case == "callable":
        h.assume(znot(e.isinst(src, C)))
        r = define_with("_define_callable", src, name=name)
        o = one("a function", r, "new")
        if o:
            h.prove("a function: it is the default", len(o[0]) == 1 and h.same(o[0][0], src))
            h.prove("a function: the operation is returned", h.same(r.val, o[2]))
            h.prove("a function: defining runs nothing", len(h.events()) == 0)
    elif case == "operation":
        e.typed(src, C)
        r = define_with("_define_callable", src, name=name)
        o = one("a copy", r, "define")
        if o:
            h.prove("a copy: a new operation is returned", h.same(r.val, o[2]))
            h.prove("a copy: it is not defined from the operation itself", len(o[0]) == 1 and not is_V(o[0][0]))
            raises_not_handled(o[0][0], "a copy")
    elif case == "type":
        r = define_with("_define_type", src, name=name)
        o = one("a variable", r, "define")
        if o:
            h.prove("a variable: the operation is returned", h.same(r.val, o[2]))
            sig = e.getattr(o[0][0], "__signature__")
            h.prove("a variable: its signature has the type as its result", h.same(sig, e.call(ExtV("inspect.Signature"), Seq(), Map(None, [("store", "return_annotation", src)]))))
            rr = h.call(o[0][0])
            h.prove("a variable has no default behaviour", not rr.ok and exc_is(h, rr, TY + "NotHandled"))
    elif case == "builtin":
        r = define_with("_define_builtinfunctiontype", src, name=name)
        o = one("a built-in function", r, "define")
        if o:
            h.prove("a built-in function: the operation is returned", h.same(r.val, o[2]))
            rr = h.callx(o[0][0], args, kwargs)
            ev = h.events()
            closed = h.proved(fv == z3.EmptySet(V)) or e.decide(fv == z3.EmptySet(V))
            if closed:
                h.prove("a built-in function is called on values", len(ev) == 1 and h.proved(zand(h.same(ev[0].f, src), h.seq_same(ev[0].args, args), h.map_same(ev[0].kwargs, kwargs))))
                if len(ev) == 1 and rr.ok:
                    h.prove("a built-in function's result is passed on", h.same(rr.val, ev[0].result))
            else:
                h.prove("a built-in function is not called on terms", len(ev) == 0 and not rr.ok and exc_is(h, rr, TY + "NotHandled"))
    elif case == "static":
        f = h.val("f")
        e.st.attrs[(src.get_id(), "__func__")] = f
        r = define_with("_define_staticmethod", src, name=name)
        o = one("a static method", r, "define")
        if o:
            h.prove("a static method: the function becomes the operation", len(o[0]) == 1 and h.same(o[0][0], f))
            v = e.unbox(r.val)
            h.prove("a static method of the operation is given", isinstance(v, BoundV) and isinstance(v.func, ExtV) and v.func.path == "builtins.staticmethod" and h.same(v.self_, o[2]))
    else:
        f = h.val("f")
        e.st.attrs[(src.get_id(), "__func__")] = f
        r = define_with("_define_classmethod", src)
        h.prove("a class method: a descriptor is made", r.ok and isinstance(r.val, Ref) and e.obj(r.val).cls == h.fn(TY + "_ClassMethodOpDescriptor"))


def exc_is(h, r, qual):
    return r.exc and h.e.decide(h.e.isinst(r.val, h.fn(qual)))


@harness("C09", "construction")
def construction(h):
    e = h.e
    h.expect_cover("named", "unnamed", "in a class", "in a term class")
    C = h.fn(OP)
    default = h.val("default")
    named = e.choose("a name is requested")
    if named:
        h.cover("named")
        name = h.str("name")
        h.assume(znot(name == z3.StringVal("")))
        r = h.call(C, default, name)
        want = name
    else:
        h.cover("unnamed")
        r = h.call(C, default)
        want = e.V_field(default, "__name__")
    h.prove("an operation is made", r.ok and isinstance(r.val, Ref))
    if not (r.ok and isinstance(r.val, Ref)):
        return
    h.prove("with the given default", h.same(e.getattr(r.val, "__default__"), default))
    h.prove("and the requested name, else that of the default", h.same(e.getattr(r.val, "__name__"), want))
    h.prove("nothing is run", not [x for x in h.events() if x.what != "setattr"])
    r2 = h.call(C, default, name) if named else h.call(C, default)
    h.prove("defining again makes another", r2.ok and isinstance(r2.val, Ref) and r2.val != r.val)
    owner, attr = h.val("owner"), h.str("attr")
    isterm = e.choose("in a term class")
    e.natives = {**e.natives, "builtins.issubclass": lambda ctx, a, k: isterm}
    s = h.call(e.getattr(r.val, "__set_name__"), owner, attr)
    h.prove("it can be put in a class", s.ok)
    f = e.obj(r.val).fields
    h.prove("its default and name stay", zand(h.same(f["__default__"], default), h.same(f["__name__"], want)))
    if isterm:
        h.cover("in a term class")
        h.prove("operations of term classes are not kept by instances", "_name_on_instance" not in f)
    else:
        h.cover("in a class")
        h.prove("it has an attribute name on instances", "_name_on_instance" in f)
