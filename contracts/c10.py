"""C10: calling a function term evaluates its body with each parameter bound to its argument."""
import z3

from pyvc.engine import I, is_V, keysT, sat_, slen, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SY, SEM = "effectful.ops.syntax.", "effectful.ops.semantics."


def default_rule(h, cls, name):
    """The default behaviour of an operation defined on a class."""
    op = h.e.class_attr(h.fn(cls), name)
    return h.e.st.attrs[(op.get_id(), "__default__")]


def recorded(h, ghost):
    """Context managers standing for handler / interpreter: they say what is in force inside (their contracts: C01, C02)."""
    e = h.e

    def cm(what):
        def make(ctx, a, k):
            c = a.concrete()
            h.prove(f"one set of handlers is installed ({what})", c is not None and len(c) == 1 and ctx.trivially_empty(k))

            def run(ctx2, body):
                old = ctx2.st.ghost[ghost]
                ctx2.st.ghost[ghost] = old + ((what, ctx2.map_of(c[0])),)
                try:
                    body(c[0])
                finally:
                    ctx2.st.ghost[ghost] = old
            return NativeV("cm", run)
        return make
    e.st.ghost[ghost] = ()
    e.contracts[SEM + "handler"] = cm("handler")
    e.contracts["effectful.internals.runtime.interpreter"] = cm("interpreter")


@harness("C10", "calling a function term", budget=100.0)
def calling(h):
    e = h.e
    h.expect_cover("applied", "positional", "keyword", "other", "not a function term", "free")
    h.runtime()
    recorded(h, "in force")
    h.note("handler/interpreter put the given handlers in force inside (proved: C01, C02); evaluate under construction gives a copy with fresh bound variables (C06)")
    h.note("precondition: the parameters are different operations, at most as many positional arguments as parameters, keyword arguments for keyword parameters")
    deffn = h.fn(SY + "deffn")
    f = default_rule(h, SY + "_CallableTerm", "__call__")
    T = e.resolve("effectful.ops.types.Term")
    body, pvars, kvars = h.val("body"), h.args("vars"), Map(e.fresh("kwvars"))
    args, kwargs = h.args("args"), h.kwargs("kwargs", reserved=("self",))
    # the fresh copy
    copy = h.obj("effectful.ops.types.Term", "copy")
    e.st.attrs[(copy.get_id(), "op")] = deffn
    e.st.attrs[(copy.get_id(), "args")] = TupleV(Seq.of([body]) + pvars)
    e.st.attrs[(copy.get_id(), "kwargs")] = e.new_dict(kvars)
    term = h.obj("effectful.ops.types.Term", "self")
    evals = []
    res = h.val("result")

    def ev(ctx, a, k):
        c = a.concrete()
        now = ctx.st.ghost["in force"]
        evals.append((c[0] if c else None, now))
        if c is not None and len(c) == 1 and h.proved(h.same(c[0], term)):
            h.prove("the copy is made by construction only", len(now) == 1 and now[0][0] == "interpreter")
            ap = ctx.overrides["effectful.ops.semantics.apply"](ctx)
            o = h.op("o")
            h.prove("no operation is run while copying", zor(h.same(o, ap), znot(ctx.map_has(now[0][1], o))))
            v = ctx.map_get(now[0][1], ap)
            h.prove("terms are rebuilt by construction", v is not ctx.MISSING and h.same(v, h.fn(SY + "defdata")))
            return copy
        return res
    e.contracts[SEM + "evaluate"] = ev
    seen = []

    def fvs(ctx, a, k):
        seen.append(a.concrete()[0])
        return ctx.new_set(SetV(arr=fv))
    fv = e.fresh("fvs", z3.SetSort(V))
    e.contracts[SEM + "fvsof"] = fvs
    if e.choose("a function term"):
        e.st.attrs[(term.get_id(), "op")] = deffn
        n, m = e.seq_len(pvars), e.seq_len(args)
        h.assume(I(m) <= I(n))
        kk = e.fresh("anykw")
        i = z3.Int("i!")
        j = z3.Int("j!")
        at = lambda q: e.box(e.seq_at(pvars, q))  # noqa: E731
        h.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < I(n), j < I(n), at(i) == at(j)), i == j)))
        a, b = z3.Consts("ka! kb!", V)
        h.assume(z3.ForAll([a, b], z3.Implies(z3.And(mhas(kvars.base, a), mhas(kvars.base, b), mget(kvars.base, a) == mget(kvars.base, b)), a == b)))
        h.assume(z3.ForAll([i, a], z3.Implies(z3.And(i >= 0, i < I(n), mhas(kvars.base, a)), mget(kvars.base, a) != at(i))))
        h.assume(z3.ForAll([a], z3.Implies(mhas(kwargs.base, a), mhas(kvars.base, a))))
        kt = keysT(kwargs.base)
        h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(kt)), mhas(kwargs.base, sat_(kt, i)))))
        e.st.ghost["opaque_raises"] = False
        r = h.callx(f, Seq.of([term]) + args, kwargs)
        h.prove("calling succeeds", r.ok)
        if not r.ok:
            return
        h.cover("applied")
        h.prove("the value of the body is given", h.same(r.val, res))
        h.prove("the copy is made, and then the body evaluated", len(evals) >= 2 and h.same(evals[-2][0], term) and h.same(evals[-1][0], body))
        now = evals[-1][1]
        h.prove("under handlers added to those in force", len(now) == 1 and now[0][0] == "handler")
        subs = now[0][1]
        if e.choose("a positional one"):
            q = e.fresh("q", z3.IntSort())
            if not e.decide(zand(q >= 0, q < I(m))):
                return
            h.cover("positional")
            v = e.map_get(subs, e.seq_at(pvars, q))
            h.prove("a positional parameter is bound", v is not e.MISSING)
            if v is e.MISSING:
                return
            r2 = h.call(v)
            h.prove("to the argument in its place", r2.ok and h.same(r2.val, e.seq_at(args, q)))
        elif e.choose("a keyword"):
            if not e.decide(e.map_has(kwargs, kk)):
                return
            h.cover("keyword")
            v = e.map_get(subs, e.map_get(kvars, kk))
            h.prove("a keyword parameter is bound", v is not e.MISSING)
            if v is e.MISSING:
                return
            r2 = h.call(v)
            h.prove("to the argument of its name", r2.ok and h.same(r2.val, e.map_get(kwargs, kk)))
        else:
            h.cover("other")
            o = h.op("another")
            h.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(n)), e.box(o) != at(i))))
            h.assume(z3.ForAll([a], z3.Implies(mhas(kvars.base, a), mget(kvars.base, a) != e.box(o))))
            h.prove("nothing else is rebound", znot(e.map_has(subs, o)))
        return
    # not a function term: a free variable of function type, or a function
    h.assume(znot(h.same(e.getattr(term, "op"), deffn)))
    r = h.callx(f, Seq.of([term]) + args, kwargs)
    h.prove("no body is evaluated", not evals)
    calls = h.events("call")
    if e.decide(fv == z3.EmptySet(V)):
        h.cover("not a function term")
        h.prove("a function is called once", len(calls) == 1)
        if len(calls) == 1:
            c = calls[0]
            h.prove("with the arguments given", zand(h.same(c.f, term), h.seq_same(c.args, args), h.map_same(c.kwargs, kwargs)))
            h.prove("and what it does is what happens", r.ok == c.ok and h.same(r.val, c.result))
    else:
        h.cover("free")
        h.prove("with free variables nothing is called", not calls)
        h.prove("the call is left as a term", r.exc and e.decide(e.isinst(r.val, e.resolve("effectful.ops.types.NotHandled"))))
    h.prove("free variables of function and arguments are looked at", len(seen) == 1)
    c = e.unbox(seen[0])
    if isinstance(c, TupleV):
        c = c.seq.concrete()
        h.prove("of all of them", len(c) == 3 and zand(h.same(c[0], term), h.seq_same(e.iter_seq(c[1]), args), h.map_same(e.map_of(c[2]), kwargs)))


@harness("C10", "making a function term", budget=300.0)
def making(h):
    """trace: the function is called once, with a fresh variable for each parameter in its place, and what it gives is
    abstracted over exactly those variables, in the order and under the names of the parameters."""
    e = h.e
    h.expect_cover("made", "variadic", "no signature", "positional", "keyword")
    h.runtime()
    recorded(h, "in force")
    e.solver.set("timeout", 300)
    h.note("inspect: a signature's parameters are its positional ones, in order, then keyword-only ones; BoundArguments gives the former in order and the latter by name")
    value = h.val("value")
    e.assume(znot(e.isinst(value, e.resolve("effectful.ops.types.Term"))))
    n, m = e.fresh("positional", z3.IntSort()), e.fresh("keyword only", z3.IntSort())
    e.assume(zand(n >= 0, m >= 0))
    names, pars = z3.Function("name of parameter", z3.IntSort(), V), z3.Function("parameter", z3.IntSort(), V)
    N = e.fresh("parameters", z3.IntSort())
    e.assume(N == n + m)
    variadic = e.choose("variadic")
    VP, VK = ExtV("inspect.Parameter.VAR_POSITIONAL"), ExtV("inspect.Parameter.VAR_KEYWORD")
    kind_of = lambda i: e.box(e.getattr(pars(I(i)), "kind"))  # noqa: E731
    vi = e.fresh("variadic one", z3.IntSort())
    if variadic:
        e.assume(zand(vi >= 0, vi < N))
        e.assume(kind_of(vi) == e.box(VP if e.choose("*args") else VK))

    def items(ctx, a, k):
        def at(q):
            if not variadic:
                ctx.assume(zand(kind_of(q) != e.box(VP), kind_of(q) != e.box(VK)))
            return TupleV(Seq.of([names(I(q)), pars(I(q))]))
        return TupleV(Seq([Block(N, at)]))
    params = e.alloc(Inst(ExtV("inspect.Parameters"), {"items": NativeV("items", items)}))
    sig = e.alloc(Inst(ExtV("inspect.Signature"), {"parameters": params}))
    none = e.choose("no signature")

    def signature(ctx, a, k):
        h.prove("it is the signature of the function", h.same(a.concrete()[0], value))
        if none:
            ctx.throw("ValueError", "no signature")
        return sig
    e.natives["inspect.signature"] = signature
    ops = z3.Function("variable for", z3.IntSort(), V)
    e.natives["collections.OrderedDict"] = lambda ctx, a, k: ctx.alloc(Inst(ExtV("collections.OrderedDict"), {"seq": TupleV(ctx.iter_seq(a.concrete()[0]))}))

    def defop(ctx, a, k):
        t = ctx.fresh("variable")
        c = a.concrete()
        h.prove("a variable has the type its parameter is annotated with", c is not None and len(c) == 2 and ctx.trivially_empty(k) and len(ctx.st.idx) == 1
                and h.same(c[1], ctx.getattr(pars(I(ctx.st.idx[0])), "annotation")))
        return t
    e.contracts["effectful.ops.types.Operation.define"] = defop
    bound = {}

    def bound_arguments(ctx, a, k):
        c = a.concrete()
        pairs = ctx.obj(c[1]).fields["seq"].seq
        h.prove("the variables are bound for this signature", h.same(c[0], sig))
        q = ctx.fresh("q", z3.IntSort())
        if not ctx.decide(zand(q >= 0, q < N)):
            pass
        else:
            it = ctx.unbox(ctx.seq_at(pairs, q))
            h.prove("a variable for each parameter, under its name", h.same(ctx.seq_at(it.seq, 0), names(q)))
        h.prove("a variable for every parameter and no other", ctx.seq_len(pairs) == N if not isinstance(ctx.seq_len(pairs), int) else False)
        at = lambda j: ctx.seq_at(ctx.unbox(ctx.seq_at(pairs, j)).seq, 1)  # noqa: E731
        bound["at"] = at
        bound["args"] = TupleV(Seq([Block(n, lambda j: at(I(j)))]))
        km = Map(e.fresh("keyword variables"))
        bound["kwargs"] = km
        return ctx.alloc(Inst(ExtV("inspect.BoundArguments"), {"args": bound["args"], "kwargs": ctx.new_dict(km)}))
    e.natives["inspect.BoundArguments"] = bound_arguments
    got = []
    res = h.val("body")
    deffn = h.fn(SY + "deffn")

    def hook(ctx, ev):
        if is_V(ev.f) and ev.f.eq(value):
            got.append(("call", ev.args, ev.kwargs, ctx.st.ghost["in force"]))
            return res
        if is_V(ev.f) and ev.f.eq(deffn):
            got.append(("deffn", ev.args, ev.kwargs, ctx.st.ghost["in force"]))
            return term
        return ctx.app("applied", ev.f)
    term = h.val("term")
    e.st.ghost["opaque_hook"] = hook
    out = h.call(h.fn(SY + "trace"), value)
    if none:
        h.cover("no signature")
        h.prove("a function without a signature is left as it is", out.ok and h.same(out.val, value) and not got)
        return
    if variadic:
        h.cover("variadic")
        h.prove("a function with any number of parameters is refused before it is called", out.exc and not got)
        return
    h.cover("made")
    h.prove("making it succeeds", out.ok)
    h.prove("the function is called once, then abstracted over", [g[0] for g in got] == ["call", "deffn"])
    if len(got) != 2:
        return
    (_, ca, ck, cin), (_, da, dk, din) = got
    h.prove("what is abstracted over is given", h.same(out.val, term))
    q = e.fresh("which", z3.IntSort())
    e.assume(zand(q >= 0, q < N))
    v = bound["at"](q)
    if not e.choose("a parameter"):
        pass
    elif e.decide(q < n):
        h.cover("positional")
        h.prove("a positional parameter is given its variable, applied, in its place", h.same(e.seq_at(ca, q), e.app("applied", v)))
        h.prove("and its variable is bound in that place", h.same(e.seq_at(da, q + 1), v))
        return
    else:
        h.cover("keyword")
        km = bound["kwargs"]
        e.assume(mhas(km.base, names(q)))
        e.assume(mget(km.base, names(q)) == e.box(v))
        a, b = e.map_get(ck, names(q)), e.map_get(dk, names(q))
        h.prove("a keyword parameter is given its variable, applied, by its name", a is not e.MISSING and h.same(a, e.app("applied", v)))
        h.prove("and its variable is bound under that name", b is not e.MISSING and h.same(b, v))
        return
    if e.choose("shape"):
        h.prove("its lengths are those of the parameters", zand(h_len(e, ca) == n, h_len(e, da) == n + 1))
        h.prove("the body is what the function gives", h.same(e.seq_at(da, 0), res))
        return
    o = h.val("another")
    h.prove("no other keywords", zand(z3.Implies(e.map_has(ck, o), mhas(bound["kwargs"].base, e.box(o))), z3.Implies(e.map_has(dk, o), mhas(bound["kwargs"].base, e.box(o)))))
    h.prove("the function runs with nothing but construction in force, the abstraction outside", len(cin) == 1 and cin[0][0] == "interpreter" and din == ())
    if len(cin) == 1:
        ap = e.overrides["effectful.ops.semantics.apply"](e)
        f = e.map_get(cin[0][1], ap)
        h.prove("operations give terms", f is not e.MISSING and h.same(f, h.fn(SY + "defdata")))
        cl = e.class_attr(h.fn(SY + "_CallableTerm"), "__call__")
        g = e.map_get(cin[0][1], cl)
        h.prove("calls of functions behave as by default", g is not e.MISSING and h.same(g, e.getattr(cl, "__default_rule__")))
        w = h.op("other")
        h.prove("no other operation is handled", zor(h.same(w, ap), h.same(w, cl), znot(e.map_has(cin[0][1], w))))


def h_len(e, s):
    return I(e.seq_len(s))
