"""C06: building a term renames what it binds, in exactly the arguments bound, and nothing else."""
import ast

import z3

from contracts.c10 import recorded
from pyvc.engine import I, SetS, is_V, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SY, SEM, TY = "effectful.ops.syntax.", "effectful.ops.semantics.", "effectful.ops.types."
DD = SY + "defdata"


def frozen(e, t):
    e.typed(t, ExtV("builtins.frozenset"))
    return t


@harness("C06", "building a term", budget=100.0)
def building(h):
    """Pointwise: for one arbitrary operation v (a variable that may or may not be bound)."""
    e = h.e
    h.expect_cover("entry", "bound", "built", "constructed", "typed")
    h.runtime()
    recorded(h, "in force")
    h.note("which variables each argument binds is given by __fvs_rule__ (under contract too); a definition from an operation is a fresh copy (C09)")
    h.note("evaluate replaces every application of an operation the active mapping gives another operation for (C05); binders inside rename their own variables when they are rebuilt (this contract)")
    h.note("precondition: the variable looked at is neither apply nor an operation made during construction; _unpack gives the component asked for (C13); signatures bind arguments as inspect does")
    dd = h.fn(DD)
    op, v = h.op("op"), h.op("v")
    args, kwargs = h.args("args"), h.kwargs("kwargs", reserved=("op", "self", "__dispatch"))
    BA, BK = h.args("bound"), Map(e.fresh("boundkw"))
    RA, RK = h.args("given"), Map(e.fresh("givenkw"))
    n = e.seq_len(RA)
    h.assume(I(e.seq_len(BA)) == I(n))
    kk = z3.Const("kk!", V)
    h.assume(z3.ForAll([kk], mhas(BK.base, kk) == mhas(RK.base, kk)))
    at = BA.segs[0]
    bound = Seq([Block(at.n, lambda j: frozen(e, e.box(at.at(j))))])
    boundkw = Map(BK.base, val_fact=lambda t: z3.BoolVal(frozen(e, t) is not None))

    def member(t):
        return e.set_has(e.set_of(frozen(e, e.box(t))), v)

    def rule(ctx, a, k):
        aside(h, "bound variables are those of these arguments", lambda: zand(h.same(a.segs[0].v, op), h.seq_same(Seq(a.segs[1:]), args), h.map_same(k, kwargs)))
        return ctx.alloc(Inst(ExtV("inspect.BoundArguments"), {"args": TupleV(bound), "kwargs": ctx.new_dict(boundkw)}))
    e.contracts[TY + "Operation.__fvs_rule__"] = rule

    def bind(ctx, a, k):
        aside(h, "the arguments given are bound", lambda: zand(h.seq_same(a, args), h.map_same(k, kwargs)))
        obj = ctx.alloc(Inst(ExtV("inspect.BoundArguments"), {"args": ctx.fresh("without defaults"), "kwargs": ctx.fresh("without defaults")}))

        def defaults(c3, a3, k3):
            i = c3.obj(obj)
            c3.st.heap[obj.oid] = Inst(i.cls, {**i.fields, "args": TupleV(RA), "kwargs": c3.new_dict(RK)})
        i = ctx.obj(obj)
        ctx.st.heap[obj.oid] = Inst(i.cls, {**i.fields, "apply_defaults": NativeV("apply_defaults", defaults)})
        return obj
    e.st.attrs[(op.get_id(), "__signature__")] = e.alloc(Inst(ExtV("inspect.Signature"), {"bind": NativeV("bind", bind)}))
    # the renaming
    made = []
    plain = e.contracts[TY + "Operation.define"] if not hasattr(e, "plain_define") else e.plain_define
    e.plain_define = plain

    def define(ctx, a, k):
        t = plain(ctx, a, k)
        c = a.concrete()
        made.append((c[1:] if c and isinstance(c[0], ClassV) else c, t))
        return t
    e.contracts[TY + "Operation.define"] = define
    new = h.op("new v")
    isbound = e.fresh("v is bound", z3.BoolSort())

    def element(j, x, k, val):
        h.cover("entry")
        src = [s for s, t in made if h.proved(h.same(t, val))]
        return [("the variable is the key", h.same(k, x)),
                ("it is renamed to an operation made for it alone", len(src) == 1 and len(src[0]) >= 1 and h.same(src[0][0], x))]

    def result(seq):
        """What is known: the keys are the variables bound in some argument; here, for v."""
        R = e.fresh("renaming")
        want = Seq(list(bound.segs) + list(e.iter_seq(ViewV("values", boundkw)).segs))
        aside(h, "renaming: the variables of every argument are renamed", lambda: h.seq_same(seq, want))
        e.assume(mhas(R, e.box(v)) == isbound)
        e.assume(z3.Implies(isbound, mget(R, e.box(v)) == new))
        e.assume(znot(mhas(R, e.box(ap))))
        return Map(R)
    h.union_comp(DD, "renaming", element, result, pick=lambda node: len(node.generators) == 2)
    # the analysis and the evaluation of arguments
    ap = e.overrides["effectful.ops.semantics.apply"](e)
    ana = []
    ANA = Map(e.fresh("analysis"))
    h.assume(znot(h.same(v, ap)))
    h.assume(znot(mhas(ANA.base, v)))
    h.assume(mhas(ANA.base, e.box(ap)))

    def prod(ctx, a, k):
        ana.append(ctx.map_of(a.concrete()[0]))
        return ctx.new_dict(ANA)
    e.contracts["effectful.internals.product_n.productN"] = prod

    def unpack(ctx, a, k):
        c = a.concrete()
        return ctx.app("component", c[0], c[1])
    e.contracts["effectful.internals.product_n._unpack"] = unpack

    def ev(ctx, a, k):
        c = a.concrete()
        now = ctx.st.ghost["in force"]
        h.prove("an argument is evaluated under one set of rules", len(now) == 1 and now[0][0] == "interpreter" and len(c) == 1)
        m = now[0][1]
        if ctx.choose("look at the analysis"):
            f = ctx.map_get(m, ap)
            h.prove("applications inside are built as the analysis says", f is not ctx.MISSING and h.same(f, mget(ANA.base, e.box(ap))))
            raise Infeasible()
        t = ctx.map_get(m, v)
        return ctx.app("evaluated", c[0], e.box(None) if t is ctx.MISSING else t)
    e.contracts[SEM + "evaluate"] = ev
    out = h.val("result")
    calls = []

    tys, ctors = [], []

    def opcall(ctx, a, k):
        if ctx.st.ghost.get("phase") == "cast":
            tys.append(a.segs[0].v)
            return ctx.app("value of", a.segs[0].v)
        calls.append((a, k, ctx.st.ghost["in force"]))
        return out
    e.contracts[TY + "Operation.__call__"] = opcall
    def dispatch(ctx, a, k):
        def make(c2, a2, k2):
            t = c2.fresh("constructed")
            ctors.append((a.concrete()[0], a2, k2, t))
            return t
        return NativeV("constructor", make)
    disp = NativeV("dispatch", dispatch)
    e.contracts[SEM + "_simple_type"] = lambda ctx, a, k: ctx.app("simple type", a.concrete()[0])
    rules = []

    def type_rule(ctx, a, k):
        rules.append((a, k))
        return ctx.app("type by rule", a.segs[0].v)
    e.contracts[TY + "Operation.__type_rule__"] = type_rule
    r = h.callx(dd.func, Seq.of([disp, op]) + args, kwargs)
    h.prove("building succeeds", r.ok)
    if not r.ok:
        return
    h.cover("built")
    h.prove("the operation is applied once", len(calls) == 1)
    if len(calls) != 1:
        return
    a, k, now = calls[0]
    h.prove("the same operation", h.same(a.segs[0].v, op))
    aside(h, "under the analysis alone, with nothing renamed", lambda: len(now) == 1 and h.map_same(now[0][1], ANA))
    got = Seq(a.segs[1:])
    h.prove("to as many positional arguments", I(e.seq_len(got)) == I(n))
    j = h.int("j")
    what = e.choose("positional")
    if what:
        h.assume(zand(j >= 0, j < I(n)))
        x, g, b = e.seq_at(RA, j), e.seq_at(got, j), member(e.seq_at(bound, j))
    else:
        key = h.val("key")
        x, g = e.map_get(RK, key), e.map_get(k, key)
        h.prove("to the same keywords", (x is e.MISSING) == (g is e.MISSING))
        if x is e.MISSING or g is e.MISSING:
            return
        b = member(mget(BK.base, key))
    h.assume(z3.Implies(zb_(b), isbound))  # bound in one argument: renamed (the keys of the renaming)
    if e.decide(b):
        h.cover("bound")
        h.prove("a variable bound there is replaced by the one new variable", h.same(g, e.app("evaluated", x, new)))
    else:
        h.prove("a variable not bound there stays as it is", h.same(g, e.app("evaluated", x, e.box(None))))
    h.prove("there is one analysis, of two components", len(ana) == 1 and len(made) >= 2)
    which = [t for src, t in made if h.proved(h.same(r.val, e.app("component", out, t)))]
    h.prove("the result is one component", len(which) == 1)
    if len(which) != 1 or len(ana) != 1:
        return
    e.st.ghost["phase"] = "cast"
    for src, t in made:
        comp = e.map_get(ana[0], t)
        if comp is e.MISSING:
            continue
        f = e.map_get(e.map_of(comp), ap)
        o2, a2, k2 = h.op("op2"), h.args("args2"), h.kwargs("kwargs2", reserved=("op", "self"))
        rr = h.callx(f, Seq([One(o2)]) + a2, k2)
        if h.proved(h.same(t, which[0])):
            h.cover("constructed")
            h.prove("an application becomes a term", rr.ok and len(ctors) == 1 and len(tys) == 1)
            if rr.ok and len(ctors) == 1 and len(tys) == 1:
                ty, a3, k3, new_t = ctors[0]
                h.prove("of the operation and arguments given, unchanged", zand(h.same(a3.segs[1].v, o2), h.seq_same(Seq(a3.segs[2:]), a2), h.map_same(k3, k2), h.same(rr.val, new_t)))
                want = e.app("simple type", e.getattr(e.app("value of", tys[0]), "value"))
                h.prove("by the constructor of its type", zand(h.same(ty, want), h.same(a3.segs[0].v, want)))
                h.prove("which is the other component", any(h.proved(h.same(tys[0], t2)) and not h.proved(h.same(t2, t)) for _, t2 in made))
        else:
            h.cover("typed")
            h.prove("the type of an application is that of its operation's rule", rr.ok and len(rules) == 1)
            if rr.ok and len(rules) == 1:
                a3, k3 = rules[0]
                h.prove("for the arguments given", zand(h.same(a3.segs[0].v, o2), h.seq_same(Seq(a3.segs[1:]), a2), h.map_same(k3, k2)))
                h.prove("boxed", h.same(e.getattr(rr.val, "value"), e.app("type by rule", o2)))


def aside(h, name, cond):
    """Prove something on a path of its own (conditions may fork)."""
    if h.e.choose("aside: " + name):
        h.prove(name, cond())
        raise Infeasible()


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c



def contains(e, s, x):
    return zb_(e.set_has(s, x))


@harness("C06", "variables bound in an argument", budget=100.0)
def analysing(h):
    """Scoped.analyze, pointwise: for one arbitrary operation v."""
    e = h.e
    h.expect_cover("result", "look inside", "operation", "dict", "container", "other")
    h.runtime()
    h.note("set(x) has the elements of x; a parameter's scope and whether it stands for a variable are read off its annotation (_get_param_ordinal, _param_is_var)")
    h.note("precondition: the variables an operation binds are distinct (asserted by the code), and dicts, lists, sets and tuples are of exactly one of these kinds")
    S = SY + "Scoped"
    q = S + ".analyze"
    v = h.op("v")
    ORD, ELEMS, VALS, OPS = (z3.Function(w, V, SetS) for w in ("scopes of", "elements of", "values of", "operations in"))
    ISVAR = z3.Function("stands for a variable", V, z3.BoolSort())
    slf = h.obj(S, "self")
    O = e.fresh("own scopes", SetS)
    e.st.attrs[(slf.get_id(), "ordinal")] = e.new_set(SetV(arr=O), True)
    P, A = Map(e.fresh("parameters")), Map(e.fresh("arguments"))
    ret = h.val("return annotation")
    sig = e.alloc(Inst(ExtV("inspect.Signature"), {"parameters": e.new_dict(P), "return_annotation": ret}))
    bsig = e.alloc(Inst(ExtV("inspect.BoundArguments"), {"signature": sig, "arguments": e.new_dict(A)}))
    kk = z3.Const("kk!", V)
    h.assume(z3.ForAll([kk], z3.Implies(mhas(P.base, kk), mhas(A.base, kk))))
    e.contracts[S + "._get_param_ordinal"] = lambda ctx, a, k: ctx.new_set(SetV(arr=ORD(ctx.box(a.concrete()[-1]))))
    e.contracts[S + "._param_is_var"] = lambda ctx, a, k: ISVAR(ctx.box(a.concrete()[-1]))
    base_set = e.__dict__.setdefault("plain_set", e.natives["builtins.set"])

    def pyset(ctx, a, k):
        c = a.concrete()
        if c:
            x = ctx.unbox(c[0])
            if isinstance(x, ViewV) and x.what == "values" and x.map.base is not None and not x.map.layers:
                return ctx.new_set(SetV(arr=VALS(x.map.base)))
            if is_V(x):
                return ctx.new_set(SetV(arr=ELEMS(x)))
        return base_set(ctx, a, k)
    e.natives = {**e.natives, "builtins.set": pyset}
    kind_of = lambda p: e.V_field(p, "kind")  # noqa: E731

    def is_kind(p, name):
        return h.same(kind_of(p), ExtV("inspect.Parameter." + name))

    def occurs(p, val):
        """v is one of the variables parameter p binds, given val."""
        val = e.box(val)
        m = e.V_map(val)
        return z3.If(ISVAR(p),
                     z3.If(zb_(is_kind(p, "VAR_POSITIONAL")), z3.IsMember(v, ELEMS(val)),
                           z3.If(zb_(is_kind(p, "VAR_KEYWORD")), z3.IsMember(v, VALS(val)), val == v)),
                     zand_(ORD(p) != z3.EmptySet(V), z3.IsMember(v, OPS(val))))

    def zand_(*xs):
        return z3.And(*[zb_(x) for x in xs])
    H = z3.Function("bound among the first", z3.IntSort(), z3.BoolSort())
    h.assume(znot(H(0)))
    keys = e.map_keys(P)
    n = e.seq_len(keys)

    def one(j):
        name = e.seq_at(keys, j)
        p = mget(P.base, e.box(name))
        return zand_(z3.IsSubset(ORD(p), O), z3.Not(z3.IsSubset(ORD(p), ORD(ret))), occurs(p, mget(A.base, e.box(name))))

    def cur(env):
        return e.set_arr(e.set_of(e.env_get(env, "bound_vars")[1]))

    def check(env, j):
        if isinstance(j, int):
            h.prove("every parameter is looked at", I(e.st.ghost["rounds"]) == I(n))
            return [("nothing is bound yet", znot(z3.IsMember(v, cur(env))))]
        k = z3.simplify(j - 1)
        e.assume(H(j) == z3.Or(H(k), one(k)))
        return [("exactly the variables of parameters within scope, and not free in the result, are bound", z3.IsMember(v, cur(env)) == H(j))]

    def havoc(env, j):
        W = e.fresh("bound_vars", SetS)
        r = e.new_set(SetV(arr=W), True)
        e.env_set(env, "bound_vars", r)
        e.assume(z3.IsMember(v, W) == H(I(j)))
        # the value of the parameter of this round, by its kind
        p = mget(P.base, e.box(e.seq_at(keys, j)))
        val = mget(A.base, e.box(e.seq_at(keys, j)))
        e.keep.extend([p, val])
        if e.decide(is_kind(p, "VAR_KEYWORD")):
            e.typed(val, ExtV("builtins.dict"))
        elif e.decide(is_kind(p, "VAR_POSITIONAL")):
            e.typed(val, ExtV("builtins.tuple"))
        return [r.oid]
    h.invariant(q, "parameters", check, havoc, "For", pick=lambda node: "parameters" in ast.dump(node.iter))
    # the operations in a value
    x = q + ".<locals>.extract_operations"

    def found(ctx, f):
        return ctx.unbox(ctx.env_get(f.env, "param_bound_vars")[1])

    def extract(ctx, a, k):
        f = ctx.callee
        s = found(ctx, f)
        obj = ctx.box(a.concrete()[0])
        if not ctx.st.ghost.get("inside") and ctx.choose("look inside"):
            ctx.st.ghost["inside"] = True
            inside(ctx, f, s)
            raise Infeasible()
        ctx.st.heap[s.oid] = SetObj(SetV(arr=z3.SetUnion(ctx.set_arr(ctx.obj(s).set), OPS(obj))))
        return None
    e.contracts[x] = extract
    G = z3.Function("in one of the first parts", z3.IntSort(), z3.BoolSort())

    def inside(ctx, f, s):
        h.cover("look inside")
        F0 = e.fresh("found", SetS)
        ctx.st.heap[s.oid] = SetObj(SetV(arr=F0))
        o = h.val("obj")
        OPC = h.fn(TY + "Operation")
        kinds = ("dict", "list", "set", "tuple")
        case = next((c for c in ("operation",) + kinds if ctx.choose("a " + c)), "other")
        if case != "operation":
            h.assume(znot(ctx.isinst(o, OPC)))
        for c in kinds:
            if c != case:
                h.assume(znot(ctx.isinst(o, ExtV("builtins." + c))))
        if case == "operation":
            h.cover("operation")
            ctx.typed(o, OPC)
            ctx.assume(kind(o) == K_OBJ)
            want = o == v
        elif case == "dict":
            h.cover("dict")
            ctx.typed(o, ExtV("builtins.dict"))
            m = ctx.V_map(o)
            ks = ctx.map_keys(m)
            size = ctx.seq_len(ks)
            parts = lambda j: z3.Or(z3.IsMember(v, OPS(e.box(e.seq_at(ks, j)))), z3.IsMember(v, OPS(mget(m.base, e.box(e.seq_at(ks, j))))))  # noqa: E731
            want = G(I(size))
        elif case == "other":
            h.cover("other")
            want = z3.BoolVal(False)
        else:
            h.cover("container")
            ctx.typed(o, ExtV("builtins." + case))
            if case == "set":  # one (arbitrary) enumeration
                ctx.st.ghost[("vseq", o.get_id())] = ctx.sym_seq(ctx.fresh("elements"))
                ctx.keep.append(o)
            sq = ctx.iter_seq(o)
            size = ctx.seq_len(sq)
            parts = lambda j: z3.IsMember(v, OPS(e.box(e.seq_at(sq, j))))  # noqa: E731
            want = G(I(size))
        e.assume(znot(G(0)))

        def chk(env, j):
            now = e.set_arr(e.obj(s).set)
            if isinstance(j, int):
                h.prove("every part is looked at", I(e.st.ghost["rounds"]) == I(size))
                return [("nothing is lost or added yet", now == F0)]
            k = z3.simplify(j - 1)
            e.assume(G(j) == z3.Or(G(k), parts(k)))
            return [("what was found, and the operations in the parts", z3.IsMember(v, now) == z3.Or(z3.IsMember(v, F0), G(j)))]

        def hav(env, j):
            W = e.fresh("found so far", SetS)
            e.st.heap[s.oid] = SetObj(SetV(arr=W))
            e.assume(z3.IsMember(v, W) == z3.Or(z3.IsMember(v, F0), G(I(j))))
            return [s.oid]
        h.invariant(x, "parts", chk, hav, "For")
        r = h.run(lambda: ctx.exec_function(f, Seq.of([o]), Map()))
        h.prove("looking into a value succeeds", r.ok)
        h.prove("exactly the operations in the value are added", z3.IsMember(v, e.set_arr(e.obj(s).set)) == z3.Or(z3.IsMember(v, F0), zb_(want)))
        h.prove("looking into a value runs nothing", len(h.events()) == 0)
    r = h.call(h.fn(q), slf, bsig)
    if not r.ok:
        h.prove("analysis fails only where an assertion does", e.decide(e.isinst(r.val, ExtV("builtins.AssertionError"))))
        return
    h.cover("result")
    h.prove("the bound variables are exactly those", z3.IsMember(v, e.set_arr(e.set_of(r.val))) == H(I(n)))
    h.prove("nothing is run", len(h.events()) == 0)
