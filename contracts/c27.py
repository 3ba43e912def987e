"""C27: what running code does to the environment it is given."""
import z3

from pyvc.engine import I, PyExc, zand, zb, znot, zor
from pyvc.harness import harness
from pyvc.objects import midx
from pyvc.values import *  # noqa: F403
from contracts.c24 import impl

EV = "effectful.handlers.llm.evaluation."
OURS = ("__builtins__", "_print", "__metaclass__", "__name__", "_getiter_", "_iter_unpack_sequence_", "getattr", "setattr", "_write_", "_print_")


@harness("C27", "restricted execution", budget=300.0)
def restricted(h):
    """RestrictedEvalProvider.exec: the environment afterwards holds what the code bound, and nothing else changed."""
    e = h.e
    h.expect_cover("falls out", "raises", "bound", "rebound", "kept", "deleted")
    h.runtime()
    h.note("the code run is arbitrary: it leaves any contents in the globals it is given; it reaches the environment only through them")
    qual = EV + "RestrictedEvalProvider.exec"
    f = impl(h, qual, EV + "exec")
    self_, code, x = h.val("provider"), h.val("code"), h.val("name")
    et, sg, after = e.fresh("env"), e.fresh("safe globals"), e.fresh("globals left")
    env = e.alloc(DictObj(Map(et)))
    e.typed(x, ExtV("builtins.str"))
    ours = zor(*[h.same(x, n) for n in OURS])
    e.assume(znot(ours))
    e.solver.set("timeout", 60)
    ran, raised, at = [], e.fresh("raised"), {}

    def run(ctx, a, k):
        c, g, l = a.concrete()
        ran.append((c, g, l, ctx.map_of(g), ctx.map_of(env)))
        ctx.st.heap[ctx.unbox(g).oid] = DictObj(Map(after))
        for oid, o in ctx.st.heap.items():  # an object only exec holds is none the code can bind
            if isinstance(o, Inst) and o.cls == ExtV("builtins.object"):
                ctx.assume(mget(after, ctx.box(x)) != ctx.box(Ref(oid)))
        if ctx.choose("the code raises"):
            raise PyExc(raised)
        return None
    e.natives["builtins.exec"] = run
    e.natives["RestrictedPython.safe_globals.copy"] = lambda ctx, a, k: ctx.new_dict(Map(sg))

    def gone(j):
        over = e.st.ghost["over"]
        if len(over.segs) != 1 or not str(getattr(over.segs[0], "term", None)).startswith("members"):
            raise Unsupported("another way of removing the names deleted")
        t = over.segs[0].term
        return zand(e.map_has(ran[-1][3], x), z3.Not(mhas(after, e.box(x))), midx(t, e.box(x)) < I(j))

    def check(env_, j):
        now = e.map_of(env)
        if isinstance(j, int):
            at["before"] = now
        was = at["before"]
        v, w = e.map_get(now, x), e.map_get(was, x)
        if v is e.MISSING:
            return [("only names deleted by the code are removed", zor(w is e.MISSING, gone(j)))]
        return [("what stays is as it was", w is not e.MISSING and h.same(v, w)), ("names deleted are removed", znot(gone(j)))]

    def havoc(env_, j):
        t = e.fresh("left")
        was = at["before"]
        w = e.map_get(was, x)
        e.assume(zb(mhas(t, e.box(x))) == zb(zand(w is not e.MISSING, znot(gone(j)))))
        if w is not e.MISSING:
            e.assume(z3.Implies(mhas(t, e.box(x)), mget(t, e.box(x)) == e.box(w)))
        e.st.heap[env.oid] = DictObj(Map(t))
        return {env.oid}
    h.invariant(qual, "removing", check, havoc, loop="For")
    r = h.call(f, self_, code, env)
    h.prove("the code is run once", len(ran) == 1)
    if len(ran) != 1:
        return
    c, g, l, gm, em = ran[0]
    h.prove("it is the code given", h.same(c, code))
    h.prove("its globals are its locals", h.same(g, l) and not h.same(g, env))
    h.prove("the environment is untouched before", h.map_same(em, Map(et)))
    if r.exc:
        h.cover("raises")
        h.prove("what the code raises surfaces", h.same(r.val, raised))
    else:
        h.cover("falls out")
        h.prove("nothing is given", r.val is None)
    xb = e.box(x)
    had, safe = e.decide(mhas(et, xb)), e.decide(mhas(sg, xb))
    b = e.map_get(gm, x)
    h.prove("the code sees the names of the environment and the safe ones", h.same(b, mget(et, xb)) if had and b is not e.MISSING else h.same(b, mget(sg, xb)) if safe and not had and b is not e.MISSING else (not had and not safe and b is e.MISSING))
    v = e.map_get(e.map_of(env), x)
    if e.decide(z3.Not(mhas(after, xb))):
        h.cover("deleted")
        h.prove("a name the code deletes is not in the environment", v is e.MISSING)
        return
    a = mget(after, xb)
    if had:
        h.cover("rebound")
        h.prove("a name of the environment has the value the code leaves it", v is not e.MISSING and h.same(v, a))
    elif safe and e.decide(h.same(a, mget(sg, xb))):
        h.cover("kept")
        h.prove("a safe name the code leaves alone is not bound", v is e.MISSING)
    else:
        h.cover("bound")
        h.prove("a name the code binds is bound", v is not e.MISSING and h.same(v, a))
