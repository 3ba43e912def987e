"""Obligations: harnesses state pre/postconditions, the engine generates and discharges the VCs."""
import json
import os
import subprocess
import tempfile
import ast
import time
import traceback

import z3

from .engine import I, is_V, is_z, simp, zand, zb, znot, zor
from .models import PyVC
from .source import Repo
from .interp import local_names
from .values import *  # noqa: F403

HARNESSES = []  # (property, name, fn, opts)


def harness(prop, name, **opts):
    def d(fn):
        HARNESSES.append((prop, name, fn, opts))
        return fn
    return d


class Out:
    """Outcome of running a function: kind 'ok' or 'exc'."""

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    ok = property(lambda s: s.kind == "ok")
    exc = property(lambda s: s.kind == "exc")


class Obl:
    def __init__(self, name):
        self.name = name
        self.status = {}  # vc key -> status
        self.detail = None
        self.nonvacuous = False

    def overall(self):
        vs = set(self.status.values())
        if "refuted" in vs:
            return "refuted"
        if "unknown" in vs:
            return "undecided"
        if not vs:
            return "unreached"
        return "discharged"


class H:
    def __init__(self, name, repo=None, budget=60.0, vc_timeout_ms=6000):
        self.name = name
        self.e = PyVC(repo or Repo())
        self.obls = {}
        self.covers = {}
        self.need_cover = set()
        self.assumptions = []
        self.budget = budget
        self.vc_timeout = vc_timeout_ms
        self.vcs = 0
        self.by = {"z3": 0, "cvc5": 0, "trivial": 0}
        self.solver_s = 0.0
        self.e.deadline = time.time() + budget
        base_setup(self)

    # ------------------------------------------------------------ building blocks
    def val(self, name="v"):
        return self.e.fresh(name)

    def int(self, name="n"):
        return self.e.fresh(name, z3.IntSort())

    def bool(self, name="b"):
        return self.e.fresh(name, z3.BoolSort())

    def str(self, name="s"):
        return self.e.fresh(name, z3.StringSort())

    def obj(self, cls, name="o"):
        """An arbitrary instance of a repository class / known external class."""
        t = self.e.fresh(name)
        c = self.e.resolve(cls) if cls.startswith("effectful") else ExtV(cls)
        self.e.typed(t, c)
        self.e.assume(kind(t) == K_OBJ)
        return t

    def op(self, name="op"):
        return self.obj("effectful.ops.types.Operation", name)

    def args(self, name="args"):
        return self.e.sym_seq(self.e.fresh(name))

    def kwargs(self, name="kwargs", reserved=()):
        """Arbitrary keyword arguments (precondition: none named as in reserved)."""
        m = Map(self.e.fresh(name))
        for r in reserved:
            self.e.assume(znot(self.e.map_has(m, r)))
            self.note(f"precondition: no keyword argument is named {r!r} (known finding of C02)")
        return m

    def mapping(self, name="m"):
        t = self.e.fresh(name)
        self.e.typed(t, ExtV("collections.abc.Mapping"))
        self.e.assume(kind(t) == K_OBJ)
        return t

    def dict(self, name="d"):
        """A fresh dict object with arbitrary contents."""
        return self.e.new_dict(Map(self.e.fresh(name)))

    def runtime(self, interp=None):
        cls = self.e.resolve("effectful.internals.runtime.Runtime")
        d = interp if interp is not None else self.dict("interp")
        rt = self.e.alloc(Inst(cls, {"interpretation": d}))
        self.e.st.ghost["runtime"] = rt
        return rt

    def fn(self, qual):
        return self.e.resolve(qual)

    def target(self, *quals):
        self.e.target_set = self.e.target_set | set(quals)

    def call(self, f, *args, **kwargs):
        return self.callx(f, Seq.of(list(args)), Map(None, [("store", k, v) for k, v in kwargs.items()]))

    def callx(self, f, args, kwargs=None):
        """Call with a Seq and a Map."""
        try:
            return Out("ok", self.e.call(f, args, kwargs if kwargs is not None else Map()))
        except PyExc as e:
            return Out("exc", e.val)

    def run(self, thunk):
        try:
            return Out("ok", thunk())
        except PyExc as e:
            return Out("exc", e.val)

    def native(self, name, fn):
        """A function value of the harness: fn(args list, kwargs Map) -> value."""
        return NativeV(name, lambda ctx, a, k: fn(a, k))

    def assume(self, c):
        c = simp(c)
        self.e.assume(c)

    def decide(self, c):
        return self.e.decide(c)

    def events(self, what=None):
        return [x for x in self.e.st.events if what is None or x.what == what]

    # ------------------------------------------------------------ goals
    def same(self, a, b):
        return self.e.same(a, b)

    def seq_same(self, s, t):
        """Element-wise identity of two sequences (skolemised)."""
        e = self.e
        if isinstance(s, TupleV):
            s = s.seq
        if isinstance(t, TupleV):
            t = t.seq
        a, b = s.concrete(), t.concrete()
        if a is not None and b is not None:
            return len(a) == len(b) and zand(*[self.deep_same(x, y) for x, y in zip(a, b)])
        n, m = e.seq_len(s), e.seq_len(t)
        if not self.proved(I(n) == I(m)):
            return I(n) == I(m) if not e.decide(I(n) == I(m)) else self._elt(s, t, n)
        return self._elt(s, t, n)

    def _elt(self, s, t, n):
        e = self.e
        # match leading/trailing single elements structurally where possible
        if len(s.segs) == len(t.segs):
            ok = True
            goals = []
            for g, h in zip(s.segs, t.segs):
                if isinstance(g, One) and isinstance(h, One):
                    goals.append(self.deep_same(g.v, h.v))
                elif isinstance(g, Block) and isinstance(h, Block) and self.proved(I(g.n) == I(h.n)):
                    if g is h or (g.term is not None and h.term is not None and g.term.eq(h.term)):
                        continue
                    j = e.fresh("sk", z3.IntSort())
                    if e.decide(zand(j >= 0, j < I(g.n))):
                        goals.append(self.deep_same(g.at(j), h.at(j)))
                else:
                    ok = False
                    break
            if ok:
                return zand(*goals)
        j = e.fresh("sk", z3.IntSort())
        if e.decide(zand(j >= 0, j < I(n))):
            return self.deep_same(e.seq_at(s, j), e.seq_at(t, j))
        return True

    def deep_same(self, a, b):
        e = self.e
        a, b = e.unbox(a), e.unbox(b)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return self.seq_same(a.seq, b.seq)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid != b.oid:
            oa, ob = e.obj(a), e.obj(b)
            if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                return self.seq_same(oa.seq, ob.seq)
            if isinstance(oa, DictObj) and isinstance(ob, DictObj):
                return self.map_same(oa.map, ob.map)
            if isinstance(oa, SetObj) and isinstance(ob, SetObj):
                return e.set_eq(oa.set, ob.set)
        return e.same(a, b)

    def map_same(self, m, n, k=None):
        """Pointwise equality at an arbitrary key."""
        e = self.e
        if k is None:
            k = e.fresh("anykey")
        v, w = e.map_get(m, k), e.map_get(n, k)
        if v is e.MISSING or w is e.MISSING:
            return v is w
        return self.deep_same(v, w)

    def proved(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.e.check(z3.Not(c)) == z3.unsat

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def expect_cover(self, *labels):
        self.need_cover.update(labels)

    def prove(self, label, cond):
        o = self.obls.setdefault(label, Obl(label))
        cond = simp(cond) if is_z(cond) else bool(cond)
        key = (tuple(x.get_id() for x, _ in self.e.st.pc), cond if isinstance(cond, bool) else cond.get_id())
        if key in o.status:
            return
        if is_z(cond):
            self.e.keep.append(cond)
        self.vcs += 1
        if cond is True:
            o.status[key] = "discharged"
            o.nonvacuous = True
            self.by["trivial"] += 1
            return
        s = z3.Solver()
        s.set("timeout", self.vc_timeout)
        s.add(*[x for x, _ in self.e.st.pc])
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        s.push()
        s.add(neg)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        if r == z3.unsat:
            o.status[key] = "discharged"
            self.by["z3"] += 1
            if not o.nonvacuous:
                s.pop()
                if cond is not False and s.check() != z3.unsat:
                    o.nonvacuous = True
            return
        if r == z3.unknown:
            t = time.time()
            c5 = cvc5_check(s, self.vc_timeout)
            self.solver_s += time.time() - t
            if c5 == "unsat":
                o.status[key] = "discharged"
                o.nonvacuous = True
                self.by["cvc5"] += 1
                return
        if r == z3.sat and not self.e.st.approx:
            o.status[key] = "refuted"
            if o.detail is None:
                m = s.model()
                o.detail = {"goal": str(cond)[:600], "path": [str(x)[:160] for x, b in self.e.st.pc if b][-20:],
                            "model": str(m)[:1500], "events": [repr(x)[:200] for x in self.e.st.events[-8:]]}
        else:
            o.status[key] = "unknown"
            if o.detail is None:
                o.detail = {"goal": str(cond)[:600], "path": [str(x)[:160] for x, b in self.e.st.pc if b][-20:], "solver": s.reason_unknown() if r == z3.unknown else "approximated state"}

    def invariant(self, qual, what, check, havoc, loop="While", pick=None):
        """Verify the loops of a function by an invariant.

        check(env, j) gives [(name, condition)]; havoc(env, j) gives every variable and object the
        loop changes an arbitrary value satisfying the invariant and returns the objects changed.
        On entry the ghost "rounds" tells how often a For loop goes round.
        Variables the loop assigns and havoc leaves alone are unusable afterwards; an object changed
        that havoc did not name makes the obligation undecided."""
        h, e = self, self.e

        def rule(ctx, s, env, mod):
            seq = ctx.iter_seq(ctx.ev(s.iter, env, mod)) if loop == "For" else None
            n = ctx.seq_len(seq) if seq is not None else None
            ctx.st.ghost["rounds"] = n
            ctx.st.ghost["over"] = seq
            for name, c in check(env, 0):
                h.prove(f"{what}: {name} (on entry)", c)
            for v in local_names([s]):
                if v in ctx.st.heap[env.oid]:
                    ctx.env_set(env, v, Poison("changed by a loop"))
            j = ctx.fresh("j", z3.IntSort())
            again = ctx.choose("another iteration")
            ctx.assume(z3.And(j >= 0, j < I(n)) if again and n is not None else (j == I(n) if n is not None else j >= 0))
            frame = set(havoc(env, j) or ()) | {env.oid}
            if not again:
                if loop == "While" and ctx.truth(ctx.ev(s.test, env, mod)):
                    raise Infeasible()
                ctx.run_body(s.orelse, env, mod)
                return
            before = dict(ctx.st.heap)
            if loop == "While":
                if not ctx.truth(ctx.ev(s.test, env, mod)):
                    raise Infeasible()
            else:
                ctx.assign(s.target, ctx.seq_at(seq, j), env, mod)

            def framed():
                for oid, o in before.items():
                    o2 = ctx.st.heap.get(oid)
                    if isinstance(o, Inst) and isinstance(o2, Inst) and o.cls is o2.cls and set(o.fields) == set(o2.fields) and all(o.fields[k] is o2.fields[k] or (isinstance(o.fields[k], Ref) and o.fields[k] == o2.fields[k]) for k in o.fields):
                        continue
                    if o2 is not o and oid not in frame:
                        raise Unsupported("a loop changes an object its invariant does not name")
            try:
                ctx.run_body(s.body, env, mod)
            except Cont:
                pass
            except Brk:
                framed()
                return
            framed()
            for name, c in check(env, j + 1):
                h.prove(f"{what}: {name} (kept by every iteration)", c)
            raise Infeasible()
        d = dict(e.loop_contracts)
        d[(qual, loop)] = d.get((qual, loop), ()) + (lambda node: (lambda ctx, s, env, mod: rule(ctx, s, env, mod)) if pick is None or pick(node) else None,)
        e.loop_contracts = d

    def union_comp(self, qual, what, element, result, pick):
        """Verify {key: value for xs in outer for x in xs} element by element.

        element(j, x, key, value) states what holds of one arbitrary entry; result(outer sequence) gives
        the contents of the whole, of which only that is known."""
        h, e = self, self.e

        def rule(ctx, node, env, mod):
            names = frozenset(t.id for g in node.generators for t in ast.walk(g.target) if isinstance(t, ast.Name))
            seq = ctx.iter_seq(ctx.ev(node.generators[0].iter, env, mod))
            n = ctx.seq_len(seq)
            if any(g.ifs for g in node.generators) or len(node.generators) != 2:
                raise Unsupported("another shape of comprehension")
            if not ctx.choose("look at an entry"):
                return ctx.new_dict(result(seq))
            j = ctx.fresh("j", z3.IntSort())
            ctx.assume(z3.And(j >= 0, j < I(n)))
            env2 = ctx.new_env(env, names)
            ctx.assign(node.generators[0].target, ctx.seq_at(seq, j), env2, mod)
            inner = ctx.ev(node.generators[1].iter, env2, mod)
            x = ctx.fresh("element")
            ctx.assume(ctx.set_has(ctx.set_of(inner), x))
            ctx.assign(node.generators[1].target, ctx.unbox(x), env2, mod)
            before = dict(ctx.st.heap)
            nev = len(ctx.st.events)
            k, v = ctx.ev(node.key, env2, mod), ctx.ev(node.value, env2, mod)
            for oid, o in before.items():
                if ctx.st.heap.get(oid) is not o:
                    raise Unsupported("a comprehension changes an object")
            h.prove(f"{what}: making an entry runs nothing", len(ctx.st.events) == nev)
            for name, c in element(j, x, k, v):
                h.prove(f"{what}: {name}", c)
            raise Infeasible()
        d = dict(e.loop_contracts)
        d[(qual, "DictComp")] = d.get((qual, "DictComp"), ()) + (lambda node: (lambda ctx, s, env, mod: rule(ctx, s, env, mod)) if pick(node) else None,)
        e.loop_contracts = d

    def note(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def cvc5_check(solver, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    txt = solver.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace("(set-logic ALL)", ""), "vc")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(slv, sm)
            if str(r).strip() in ("sat", "unsat", "unknown"):
                return str(r).strip()
        return "unknown"
    except Exception:
        return "unknown"


def base_setup(h):
    e = h.e

    def get_runtime(ctx, a, k):
        rt = ctx.st.ghost.get("runtime")
        if rt is None:
            cls = ctx.resolve("effectful.internals.runtime.Runtime")
            rt = ctx.alloc(Inst(cls, {"interpretation": ctx.new_dict(Map(ctx.fresh("interp")))}))
            ctx.st.ghost["runtime"] = rt
        return rt

    e.contracts["effectful.internals.runtime.get_runtime"] = get_runtime

    def apply_op(ctx):
        t = ctx.global_const("op:Operation.__apply__")
        ctx.typed(t, ctx.op_class())
        return t

    e.overrides["effectful.ops.types.Operation.__apply__"] = apply_op
    e.overrides["effectful.ops.semantics.apply"] = apply_op
    e.dispatch_modules = frozenset()

    def op_call(ctx, args, kwargs):
        f = args.segs[0].v
        return ctx.opaque(f, Seq(args.segs[1:]), kwargs, what="op")

    e.contracts["effectful.ops.types.Operation.__call__"] = op_call

    def define(ctx, args, kwargs):
        """A fresh operation: distinct from everything that existed before."""
        c = args.segs
        cls = None
        if c and isinstance(c[0].v, (ClassV,)):
            cls, c = c[0].v, c[1:]
        t = ctx.fresh("freshop")
        ctx.typed(t, cls or ctx.op_class())
        ctx.st.ghost["fresh_ops"] = ctx.st.ghost.get("fresh_ops", ()) + (t,)
        ctx.fresh_object(t)
        nm = ctx.map_get(kwargs, "name") if not ctx.trivially_empty(kwargs) else ctx.MISSING
        ctx.st.ghost[("define_of", t.get_id())] = (tuple(x.v for x in c), None if nm is ctx.MISSING else nm)
        return t

    e.contracts["effectful.ops.types.Operation.define"] = define


def run_one(prop, name, fn, opts, repo=None):
    t0 = time.time()
    h = H(f"{prop}/{name}", repo, budget=opts.get("budget", 60.0), vc_timeout_ms=opts.get("vc_timeout_ms", 6000))
    res = {"property": prop, "harness": name, "error": None}
    try:
        def path():
            h.e.loop_contracts = {}
            return fn(h)
        paths = h.e.explore(path)
        bad = [p for p in paths if p.out[0] == "exc"]
        res["paths"] = len(paths)
        if bad:
            v = bad[0].out[1]
            st, h.e.st = h.e.st, bad[0].st
            try:
                d = repr(h.e.obj(v)) if isinstance(v, Ref) else repr(v)
            finally:
                h.e.st = st
            res["error"] = "harness path raised: " + d[:300]
    except Unsupported as x:
        res["error"] = "unsupported: " + str(x)
    except Infeasible:
        res["error"] = "infeasible"
    except RecursionError:
        res["error"] = "unsupported: python recursion limit"
    except z3.Z3Exception as x:
        res["error"] = "z3: " + str(x)[:300] + "\n" + traceback.format_exc()[-1200:]
    except Exception as x:
        res["error"] = "internal: " + repr(x)[:300] + "\n" + traceback.format_exc()[-1500:]
    res["obligations"] = []
    for o in h.obls.values():
        ov = o.overall()
        if ov == "discharged" and not o.nonvacuous:
            ov = "vacuous"
        res["obligations"].append({"name": f"{prop}/{name}/{o.name}", "status": ov, "vcs": len(o.status), "detail": o.detail})
    missing = h.need_cover - set(h.covers)
    if missing and not res["error"]:
        res["error"] = "cover not reached: " + ", ".join(sorted(missing))
    res["covers"] = h.covers
    res["vcs"] = h.vcs
    res["backend"] = h.by
    res["solver_s"] = round(h.solver_s + h.e.stats["solver_s"], 3)
    res["wall_s"] = round(time.time() - t0, 3)
    res["functions"] = h.e.funcs_seen
    res["contracts_used"] = sorted(h.e.contracts_used)
    res["ext_used"] = sorted(h.e.ext_used)
    res["assumptions"] = h.assumptions
    return res
