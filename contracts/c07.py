"""C07: the free variables of an expression are the unbound operations in it."""
import z3

from pyvc.engine import I, SetS, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SEM = "effectful.ops.semantics."
FV = SEM + "fvsof"


@harness("C07", "free variables", budget=100.0)
def free_variables(h):
    """By induction on the expression, over the contract of evaluate.

    evaluate applies the installed handler to every application, inside first. An application stands,
    in its parent, for the set of its free variables (a marker). What is collected from a part is the
    union of the markers in it."""
    e = h.e
    h.expect_cover("whole", "application", "marker")
    h.runtime()
    h.note("evaluate applies the installed handlers to every operation application in an expression, inside first, and rebuilds the rest (C08, checked at run time)")
    h.note("signatures bind arguments as inspect does; the sets bound per argument are those of __fvs_rule__ (checked at run time)")
    term = h.val("term")
    C = z3.Function("markers in", V, SetS)
    S = "the one that stands for the whole"
    subterms = h.val("subterms")
    made = []

    def dd(ctx, a, k):
        c = a.concrete()
        h.prove("a marker is made of one set", c is not None and len(c) == 2 and ctx.trivially_empty(k))
        t = ctx.app("marker", c[0])
        made.append((c[0], e.set_of(c[1]), t))
        return t
    e.contracts["effectful.ops.syntax.defdata"] = dd

    def in_force(ctx):
        return ctx.obj(ctx.obj(ctx.st.ghost["runtime"]).fields["interpretation"]).map
    ap = e.overrides["effectful.ops.semantics.apply"](e)
    mode = {}

    def ev(ctx, a, k):
        c = a.concrete()
        m = in_force(ctx)
        h.prove("what is evaluated is the expression", c is not None and len(c) == 1 and ctx.trivially_empty(k))
        o = h.op("o")
        f = ctx.map_get(m, ap)
        h.prove("every application is handled", f is not ctx.MISSING)
        if h.proved(h.same(c[0], term)) and not mode.get("top"):
            mode["top"] = True
            mode["free"] = e.env_get(ctx.unbox(f).env, "free")[1]
            h.cover("whole")
            h.prove("no operation's handler or default runs", zor(h.same(o, ap), znot(ctx.map_has(m, o))))
            if ctx.choose("look at an application"):
                application(ctx, ctx.unbox(f))
                raise Infeasible()
            return subterms
        # collecting from a part: its markers are met one by one
        h.prove("collecting rebuilds by construction", h.same(f, h.fn("effectful.ops.syntax.defdata")))
        h.prove("and runs no operation's handler or default", zor(h.same(o, ap), h.same(o, free_op(ctx)), znot(ctx.map_has(m, o))))
        add = ctx.unbox(ctx.map_get(m, free_op(ctx)))
        found = ctx.unbox(e.env_get(add.env, "found")[1])
        if ctx.choose("meet a marker"):
            h.cover("marker")
            F0, M = e.fresh("found", SetS), e.fresh("met", SetS)
            ctx.st.heap[found.oid] = SetObj(SetV(arr=F0))
            n = len(made)
            r = h.call(add, ctx.new_set(SetV(arr=M), True))
            h.prove("meeting a marker succeeds", r.ok)
            h.prove("its variables are added, none is lost", e.set_arr(e.obj(found).set) == z3.SetUnion(F0, M))
            h.prove("and it stays a marker of these variables", r.ok and len(made) == n + 1 and zand(h.same(made[-1][0], free_op(ctx)), e.set_arr(made[-1][1]) == M, h.same(r.val, made[-1][2])))
            raise Infeasible()
        h.prove("nothing is there before", e.set_arr(e.obj(found).set) == z3.EmptySet(V))
        ctx.st.heap[found.oid] = SetObj(SetV(arr=C(ctx.box(c[0]))))
        return ctx.fresh("evaluated")
    e.contracts[SEM + "evaluate"] = ev

    def free_op(ctx):
        return mode["free"]

    def application(ctx, f):
        h.cover("application")
        op = h.op("op")
        args, kwargs = h.args("args"), h.kwargs("kwargs", reserved=("op",))
        bargs, bkw = h.args("bound"), Map(e.fresh("boundkw"))
        rargs, rkw = h.args("boundvars"), Map(e.fresh("boundvarskw"))
        n = e.seq_len(bargs)
        h.assume(I(e.seq_len(rargs)) == I(n))
        x = e.fresh("x")
        HP, HK = (z3.Function(w, z3.IntSort(), z3.BoolSort()) for w in ("free in positional", "free in keyword"))
        h.assume(znot(HP(0)))
        h.assume(znot(HK(0)))
        sets = z3.Function("as a set", V, SetS)

        def bv(t):
            e.typed(t, ExtV("builtins.frozenset"))
            return t

        def bind(ctx2, a, k):
            h.prove("the arguments given are bound", zand(h.seq_same(a, args), h.map_same(k, kwargs)))
            full = []
            obj = ctx2.alloc(Inst(ExtV("inspect.BoundArguments"), {"args": ctx2.fresh("given only"), "kwargs": ctx2.fresh("given only")}))

            def defaults(c3, a3, k3):
                full.append(True)
                i = c3.obj(obj)
                c3.st.heap[obj.oid] = Inst(i.cls, {**i.fields, "args": TupleV(bargs), "kwargs": c3.new_dict(bkw)})
            i = ctx2.obj(obj)
            ctx2.st.heap[obj.oid] = Inst(i.cls, {**i.fields, "apply_defaults": NativeV("apply_defaults", defaults)})
            return obj
        sig = ctx.alloc(Inst(ExtV("inspect.Signature"), {"bind": NativeV("bind", bind)}))
        ctx.st.attrs[(op.get_id(), "__signature__")] = sig

        def rule(ctx2, a, k):
            h.prove("bound variables are those of these arguments", zand(h.same(a.segs[0].v, op), h.seq_same(Seq(a.segs[1:]), args), h.map_same(k, kwargs)))
            at = rargs.segs[0]
            ra = Seq([Block(at.n, lambda j: bv(at.at(j)))])
            return ctx2.alloc(Inst(ExtV("inspect.BoundArguments"), {"args": TupleV(ra), "kwargs": ctx2.new_dict(Map(rkw.base, val_fact=lambda v: z3.BoolVal(bv(v) is not None)))}))
        e.contracts["effectful.ops.types.Operation.__fvs_rule__"] = rule
        q = FV + ".<locals>._fvs"

        def var(env):
            return e.set_arr(e.set_of(e.env_get(env, "variables")[1]))

        def one(j, kw):
            """x is free in the part at j."""
            if kw:
                key = e.seq_at(e.map_keys(bkw), j)
                part, b = e.map_get(bkw, key), e.map_get(rkw, key)
                if b is not e.MISSING:
                    bv(e.box(b))
            else:
                part, b = e.seq_at(bargs, j), bv(e.box(e.seq_at(rargs, j)))
            return zand(z3.IsMember(x, C(e.box(part))), znot(e.set_has(e.set_of(b), x)))

        def is_kw(env):
            return ctx_kind["kw"]
        ctx_kind = {"kw": False}

        def mk(kw):
            Hf = HK if kw else HP

            def check(env, j):
                if not isinstance(j, int):
                    k = z3.simplify(j - 1)
                    e.assume(Hf(j) == zor(Hf(k), one(k, kw)))
                    want = Hf(j)
                else:
                    g = e.st.ghost["rounds"]
                    size = e.seq_len(e.map_keys(bkw)) if kw else n
                    h.prove("every argument is looked at" + (" (keywords)" if kw else ""), I(g) == I(size))
                    want = Hf(0)
                base = h.same(x, op)
                if kw:
                    base = zor(base, HP(I(n)))
                return [("an operation is free exactly when applied here, or free and not bound in a part", z3.IsMember(x, var(env)) == zor(base, want))]

            def havoc(env, j):
                W = e.fresh("variables", SetS)
                r = e.new_set(SetV(arr=W))
                e.env_set(env, "variables", r)
                base = h.same(x, op)
                if kw:
                    base = zor(base, HP(I(n)))
                e.assume(z3.IsMember(x, W) == zor(base, Hf(I(j))))
                return [r.oid]
            return check, havoc
        import ast

        def kwloop(node):
            return "kwargs" in ast.unparse(node.iter)
        for kw in (False, True):
            c, hv = mk(kw)
            h.invariant(q, "keywords" if kw else "positional", c, hv, "For", pick=(lambda kw: lambda nd: kwloop(nd) == kw)(kw))
        a = z3.Const("kk!", V)
        h.assume(z3.ForAll([a], z3.Implies(mhas(bkw.base, a), mhas(rkw.base, a))))
        k0 = len(made)
        r = h.callx(f, Seq.of([op]) + args, kwargs)
        h.prove("an application is handled", r.ok)
        if not r.ok:
            return
        h.prove("it gives one marker", len(made) >= k0 + 1 and zand(h.same(made[-1][0], free_op(ctx)), h.same(r.val, made[-1][2])))
        m = e.seq_len(e.map_keys(bkw))
        h.prove("of its free variables", z3.IsMember(x, e.set_arr(made[-1][1])) == zor(h.same(x, op), HP(I(n)), HK(I(m))))
    f = h.fn(FV)
    rt = e.st.ghost["runtime"]
    before = e.obj(rt).fields["interpretation"]
    bm = e.obj(before).map
    r = h.call(f, term)
    h.prove("finding free variables succeeds", r.ok)
    if not r.ok:
        return
    h.prove("the free variables are those collected from the whole", e.set_arr(e.set_of(r.val)) == C(subterms))
    h.prove("the active interpretation is as before", h.same(e.obj(rt).fields["interpretation"], before) and (e.obj(before).map is bm or h.map_same(e.obj(before).map, bm)))
