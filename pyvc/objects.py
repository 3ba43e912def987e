"""Attributes, items, methods of built-in containers, operators."""
import ast

import z3
from z3.z3util import get_vars as z3util_vars

from .engine import I, is_V, is_boolv, is_int, is_strv, is_z, simp, simp_int, zand, zb, znot, zor
from .stmts import Exec, GenComp
from .values import *  # noqa: F403

EMPTY = Seq()
NOKW = Map()


class Objects(Exec):
    # ---------------------------------------------------------------- conversions
    def iter_seq(self, v):
        v = self.unbox(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, TupleV):
            return v.seq
        if isinstance(v, GenV):
            return v.thunk()
        if isinstance(v, str):
            return Seq.of(list(v))
        if isinstance(v, bytes):
            return Seq.of(list(v))
        if isinstance(v, ViewV):
            m = v.map
            ks = self.map_keys(m)
            if v.what == "keys":
                return ks
            segs = []
            for g in ks.segs:
                if isinstance(g, One):
                    val = self.map_get(m, g.v)
                    segs.append(One(val if v.what == "values" else tup(g.v, val)))
                elif isinstance(g, (Block, Filt)):
                    def at(j, g=g):
                        k = g.at(j)
                        val = self.map_get(m, k)
                        if val is self.MISSING:
                            raise Infeasible()
                        return val if v.what == "values" else tup(k, val)
                    if isinstance(g, Block):
                        segs.append(Block(g.n, at, term=g.term if g.term is not None and v.what == "items" else None, keyof=g.keyof))
                        if v.what == "items":
                            segs[-1].term = None
                            b = ItemsBlock(g.n, at, g.term, g.keyof)
                            segs[-1] = b
                    else:
                        segs.append(Filt(g.n, g.keep, at))
            return Seq(segs)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                return o.seq
            if isinstance(o, DictObj):
                return self.map_keys(o.map)
            if isinstance(o, SetObj):
                return self.set_seq(o.set)
            if isinstance(o, Inst) and o.cls == ExtV("iterator!") and o.fields["pos"] == 0:
                return o.fields["seq"]
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                m = self.class_attr(o.cls, "__iter__")
                if m is not None:
                    return self.iter_seq(self.call(self.bind(m, v, o.cls), EMPTY, NOKW))
        if is_V(v):
            m = self.V_map(v)
            if m is not None:
                return self.map_keys(m)
            sq = self.st.ghost.get(("vseq", v.get_id()))
            if sq is not None:
                return sq
            ty = self.type_of_term(v)
            if ty is not None and self.is_sub(ty, ExtV("collections.abc.Set")):
                return self.set_seq(self.V_set(v))
            return self.sym_seq(v)
        if v is None or is_int(v) or isinstance(v, float):
            self.throw("TypeError", "not iterable")
        raise Unsupported(f"iteration over {v!r}")

    def set_seq(self, s):
        if s.elems is not None:
            out = []
            for e in s.elems:
                d = simp(zor(*[self.same(e, x) for x in out]))
                if d is True:
                    continue
                if d is False or not self.decide(d):
                    out.append(e)
            return Seq.of(out)
        e = self.fresh("members")
        n = slen(e)
        self.assume(n >= 0)

        def at(j):
            k = sat_(e, I(j))
            self.assume(z3.Implies(z3.And(I(j) >= 0, I(j) < n), z3.And(z3.Select(s.arr, k), midx(e, k) == I(j))))
            return self.unbox(k)

        x = z3.Const(self.freshname("x"), V)
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(s.arr, x), z3.And(0 <= midx(e, x), midx(e, x) < n, sat_(e, midx(e, x)) == x)), patterns=[z3.Select(s.arr, x)] if not z3.is_app_of(s.arr, z3.Z3_OP_CONST_ARRAY) else []))
        return Seq([Block(n, at, term=e)])

    def V_set(self, t):
        return SetV(arr=z3.Function("members", V, SetS)(t))

    def set_of(self, v):
        v = self.unbox(v)
        if isinstance(v, Ref) and isinstance(self.obj(v), SetObj):
            return self.obj(v).set
        if is_V(v):
            ty = self.type_of_term(v)
            if ty is not None and self.is_sub(ty, ExtV("collections.abc.Set")):
                return self.V_set(v)
        m = None
        if isinstance(v, ViewV) and v.what == "keys":
            m = v.map
        elif is_V(v):
            m = self.V_map(v)
        if m is not None:
            if m.base is not None and not m.layers:
                return self.key_set(m.base)
            if m.layers and self.pointwise(m):
                return self.layered_keys(m)
            return self.set_of_seq(self.map_keys(m))
        return self.set_of_seq(self.iter_seq(v))

    def pointwise(self, m):
        """Whether membership of an arbitrary key is a formula over that key."""
        return m.hole is None and all(ly[0] in ("store", "del") or ly[0] == "merge" and self.pointwise(ly[1]) or ly[0] == "pw" and ly[1].inv is not None for ly in m.layers)

    def layered_keys(self, m):
        x = z3.Const(self.freshname("x"), V)
        has = zb(self.map_has(m, x))
        arr = self.fresh("keysof", SetS)
        self.assume(z3.ForAll([x], z3.Select(arr, x) == has, patterns=[z3.Select(arr, x)]))
        return SetV(arr=arr)

    def key_set(self, t):
        """The set of the keys of an opaque mapping."""
        arr = z3.Function("keyset", V, SetS)(t)
        x = z3.Const("ks!x", V)
        self._once(("keyset", t.get_id()), lambda: z3.ForAll([x], z3.Select(arr, x) == mhas(t, x), patterns=[z3.Select(arr, x), mhas(t, x)]))
        return SetV(arr=arr)

    def set_of_seq(self, s):
        c = s.concrete()
        if c is not None:
            return SetV(elems=c)
        R = self.fresh("setof", SetS)
        x = z3.Const(self.freshname("x"), V)
        q = z3.Int(self.freshname("q"))
        w = z3.Function(self.freshname("wit"), V, z3.IntSort())
        parts_in, parts_out = [], []
        ones = []
        for g in s.segs:
            if isinstance(g, One):
                ones.append(self.box(g.v))
            else:
                parts_in.append(g)
        if len(parts_in) > 1:
            r = SetV(elems=ones)
            for g in parts_in:
                r = self.set_union(r, self.set_of_seq(Seq([g])))
            return r
        g = parts_in[0]
        keep = (lambda j: zb(g.keep(j))) if isinstance(g, Filt) else (lambda j: z3.BoolVal(True))
        base = self.st
        el = lambda j: self.box(self.quiet(lambda: g.at(j)))  # noqa: E731
        before = len(self.st.pc)
        eq_ = el(q)
        kq = keep(q)
        # what is known of an arbitrary element
        facts = [f for f, branch in self.st.pc[before:] if not branch and any(v.eq(q) for v in z3util_vars(f))]
        self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(g.n), kq), z3.Select(R, eq_))))
        at_w = lambda f: z3.substitute(f, (q, w(x)))  # noqa: E731
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(R, x), z3.Or(*[x == o for o in ones], z3.And(0 <= w(x), w(x) < I(g.n), at_w(kq), at_w(eq_) == x, *[at_w(f) for f in facts]))), patterns=[z3.Select(R, x)]))
        for o in ones:
            self.assume(z3.Select(R, o))
        return SetV(arr=R)

    def quiet(self, thunk):
        """Evaluate something that must not fork (used under a binder)."""
        w0 = len(self.trail)
        r = thunk()
        if len(self.trail) != w0:
            raise Unsupported("branching under a binder")
        return r

    def map_of(self, v):
        v = self.unbox(v)
        if isinstance(v, Map):
            return v
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, DictObj):
                return o.map
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                raise Unsupported("mapping instance")
        if is_V(v):
            m = self.V_map(v)
            if m is not None:
                return m
            return Map(v)
        if isinstance(v, ViewV) and v.what == "items":
            return v.map
        # iterable of pairs
        seq = self.iter_seq(v)
        acc = self.new_dict()

        def body(p):
            kv = self.iter_seq(p)
            if not self.decide(I(self.seq_len(kv)) == 2):
                self.throw("ValueError", "dict element")
            o = self.obj(acc)
            self.st.heap[acc.oid] = DictObj(o.map.plus(("store", self.seq_at(kv, 0), self.seq_at(kv, 1))))

        self.foreach(seq, body)
        return self.obj(acc).map

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=Exec.MISSING):
        o = self.unbox(o)
        if isinstance(o, ModV):
            if (o.name + "." + name) in self.natives:
                return ExtV(o.name + "." + name)
            return self.mod_attr(o.name, name)
        if isinstance(o, ExtV):
            key = o.path + "." + name
            if name == "__name__":
                return o.path.split(".")[-1]
            rc = self.real_class(o)
            if rc is not None and name == "__mro__":
                raise Unsupported("__mro__")
            if default is not self.MISSING and rc is not None and not hasattr(rc, name):
                return default
            return ExtV(key)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.node.name
            if name == "__init__" and self.class_attr(o, name) is None:
                return NativeV("object.__init__", lambda ctx, a, k: None)
            m = self.class_attr(o, name)
            if m is None:
                k = ("clsfield", o.qual, name)
                if k in self.st.ghost:
                    return self.st.ghost[k]
                if self.is_dataclass(o) and name == "__dataclass_fields__":
                    return self.new_dict()
                if default is not self.MISSING:
                    return default
                raise Unsupported(f"class attribute {o.qual}.{name}")
            if isinstance(m, BoundV) and isinstance(m.func, ExtV):
                if m.func.path == "builtins.staticmethod":
                    return m.self_
                if m.func.path == "builtins.classmethod":
                    return BoundV(m.self_, o)
            return m
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, Inst):
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return self.new_dict(Map(None, [("store", k, v) for k, v in h.fields.items()]))
                if name in h.fields:
                    v = h.fields[name]
                    if isinstance(v, Poison):
                        raise Unsupported(f"field {name}: {v.why}")
                    return v
                m = self.class_attr(h.cls, name) if isinstance(h.cls, ClassV) else None
                if m is not None:
                    return self.bind(m, o, h.cls)
                if isinstance(h.cls, (ExtV,)):
                    rc = self.real_class(h.cls)
                    if name in ("args", "__traceback__", "with_traceback"):
                        return h.fields.get(name)
                    if name == "add_note":
                        return NativeV("add_note", lambda ctx, a, k: None)
                if default is not self.MISSING:
                    return default
                if isinstance(h.cls, ClassV) and all(isinstance(b, ClassV) or b.path in ("builtins.object",) for b in self.mro(h.cls)):
                    self.throw("AttributeError", name)
                raise Unsupported(f"attribute {name} of {h!r}")
            if name == "__class__":
                return self.class_of(o)
            if default is not self.MISSING:
                rc = self.real_class(self.class_of(o))
                if rc is not None and not hasattr(rc, name):
                    return default
            return BoundV(name, o)
        if isinstance(o, PartialV):
            if name == "func":
                return o.func
            if name == "args":
                return TupleV(o.args)
            if name == "keywords":
                return self.new_dict(o.kwargs)
        if isinstance(o, FuncV):
            if name == "__name__":
                return getattr(o.node, "name", "<lambda>")
            if name == "__get__":
                return NativeV("__get__", lambda ctx, a, k: BoundV(o, a.concrete()[0]) if a.concrete()[0] is not None else o)
            k = ("fnattr", o.qual, name)
            if k in self.st.ghost:
                return self.st.ghost[k]
        if isinstance(o, DispatchV):
            if name == "dispatch":
                return NativeV("dispatch", lambda ctx, a, k: ctx.dispatch_type(o, a.concrete()[0]))
            raise Unsupported("attribute of dispatch object " + name)
        if isinstance(o, BoundV) and isinstance(o.func, (FuncV, NativeV)):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
        if isinstance(o, SliceV) and name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        if is_V(o):
            return self.V_attr(o, name, default)
        c = self.class_of(o)
        if name == "__class__" and c is not None:
            return c
        rc = self.real_class(c) if c is not None else None
        if default is not self.MISSING and rc is not None and not hasattr(rc, name):
            return default
        if rc is not None and not hasattr(rc, name):
            self.throw("AttributeError", name)
        return BoundV(name, o)

    def super_attr(self, s, name):
        me = self.unbox(s.self_)
        cls = me if isinstance(me, ClassV) else (self.obj(me).cls if isinstance(me, Ref) and isinstance(self.obj(me), Inst) else None)
        mro = self.mro(cls) if cls is not None else self.mro(s.cls)
        k = mro.index(s.cls) + 1 if s.cls in mro else 0
        for c in mro[k:]:
            if isinstance(c, ClassV):
                for n in reversed(c.node.body):
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        f = self.make_function(n, c.env, c.module, c.qual + "." + name, c)
                        return self.bind(f, s.self_, cls)
            else:
                key = "super:" + c.path + "." + name
                if key in self.natives:
                    fn = self.natives[key]
                    return NativeV(key, lambda ctx, a, kw: fn(ctx, Seq([One(s.self_)]) + a, kw))
        if name in ("__init__", "__init_subclass__"):
            return NativeV("object." + name, lambda ctx, a, kw: None)
        raise Unsupported(f"super().{name}")

    def V_attr(self, o, name, default):
        key = (o.get_id(), name)
        if key in self.st.attrs:
            return self.st.attrs[key]
        ty = self.type_of_term(o)
        if isinstance(ty, ClassV) and (ty.qual, name) in self.static_op_fields:
            # a class-level operation read through an instance: the (sub)class decides which
            t = self.V_field(o, name)
            self.typed(t, self.op_class())
            return t
        if isinstance(ty, ClassV):
            m = self.class_attr(ty, name)
            if m is not None:
                isprop = isinstance(m, BoundV) and isinstance(m.func, ExtV) and m.func.path == "builtins.property"
                abstract = isprop and isinstance(m.self_, FuncV) and any("abstractmethod" in ast.dump(d) for d in m.self_.node.decorator_list)
                if not abstract and not (isprop and (ty.qual, name) in self.opaque_props):
                    return self.bind(m, o, ty)
        if self.V_map(o) is not None and name in ("items", "keys", "values", "get", "__getitem__", "__contains__", "copy"):
            return BoundV(name, o)
        if default is not self.MISSING:
            h = z3.Function("hasattr:" + name, V, z3.BoolSort())
            if not self.decide(h(o)):
                return default
        return self.V_field(o, name)

    static_op_fields = frozenset({("effectful.ops.types.Operation", "__apply__")})
    opaque_props = frozenset({("effectful.ops.types.Operation", "__signature__"), ("effectful.ops.types.Operation", "_signature")})

    def V_field(self, o, name):
        t = z3.Function("attr:" + name, V, V)(o)
        self.keep.append(t)
        return self.unbox(t)

    def setattr(self, o, name, v):
        o = self.unbox(o)
        if isinstance(o, Ref) and isinstance(self.obj(o), Inst):
            h = self.obj(o)
            if isinstance(h.cls, ClassV):
                for c in self.mro(h.cls):
                    if isinstance(c, ClassV):
                        for n in c.node.body:
                            if isinstance(n, ast.FunctionDef) and n.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
                                self.call(BoundV(self.make_function(n, c.env, c.module, c.qual + "." + name, c), o), Seq.of([v]), NOKW)
                                return
            self.st.heap[o.oid] = Inst(h.cls, {**h.fields, name: v})
            return
        if is_V(o):
            self.st.attrs[(o.get_id(), name)] = v
            self.keep.append(o)
            self.st.events.append(Event("setattr", o, Seq.of([name, v]), NOKW, None))
            return
        if isinstance(o, ClassV):
            self.st.ghost[("classattr", o.qual, name)] = v
            self.st.events.append(Event("setattr", o, Seq.of([name, v]), NOKW, None))
            return
        if isinstance(o, FuncV):
            self.st.ghost[("fnattr", o.qual, name)] = v
            return
        raise Unsupported(f"set attribute {name} on {o!r}")

    # ---------------------------------------------------------------- items
    def getitem(self, o, k):
        o, k = self.unbox(o), self.unbox(k)
        if isinstance(o, TupleV):
            return self.seq_item(o.seq, k, lambda s: TupleV(s))
        if isinstance(o, str) and isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            self.throw("IndexError")
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, ListObj):
                return self.seq_item(h.seq, k, lambda s: self.new_list(s))
            if isinstance(h, DictObj):
                v = self.map_get(h.map, k)
                if v is self.MISSING:
                    if h.default is not None:
                        d = self.call(h.default, EMPTY, NOKW)
                        h = self.obj(o)
                        self.st.heap[o.oid] = DictObj(h.map.plus(("store", k, d)), h.cls, h.default)
                        return d
                    self.throw("KeyError", k)
                return v
            if isinstance(h, Inst) and isinstance(h.cls, ClassV):
                m = self.class_attr(h.cls, "__getitem__")
                if m is not None:
                    return self.call(self.bind(m, o, h.cls), Seq.of([k]), NOKW)
        if isinstance(o, (ClassV, ExtV)):
            return o if isinstance(o, ClassV) else (ExtV(o.path) if (o.path.startswith(("typing.", "collections.abc.", "builtins."))) else self.app("getitem", o, k))
        if is_V(o):
            m = self.V_map(o)
            if m is not None:
                v = self.map_get(m, k)
                if v is self.MISSING:
                    self.throw("KeyError", k)
                return v
            sq = self.st.ghost.get(("vseq", o.get_id()))
            if sq is not None:
                return self.seq_item(sq, k, lambda s: TupleV(s))
            ty = self.type_of_term(o)
            if isinstance(ty, ClassV):
                mm = self.class_attr(ty, "__getitem__")
                if mm is not None:
                    return self.call(self.bind(mm, o, ty), Seq.of([k]), NOKW)
            if is_int(k) and ty is None and ("getitem_opaque", o.get_id()) not in self.st.ghost and not self.st.ghost.get("opaque_getitem"):
                return self.seq_item(self.sym_seq(o), k, lambda s: TupleV(s))
            if isinstance(k, SliceV):
                return self.app("getslice", o, *[x for x in (k.lo, k.hi, k.step)])
            return self.app("getitem", o, k)
        raise Unsupported(f"subscript of {o!r}")

    def seq_item(self, s, k, mk):
        if isinstance(k, SliceV):
            return mk(self.seq_slice(s, k))
        if is_V(k) and not self.known_int(k):
            raise Unsupported("opaque index")
        if is_V(k):
            k = unInt(k)
        c = s.concrete()
        if isinstance(k, bool):
            k = int(k)
        if c is not None and isinstance(k, int):
            if -len(c) <= k < len(c):
                return c[k]
            self.throw("IndexError")
        n = self.seq_len(s)
        if isinstance(k, int) and k < 0:
            kk = simp_int(I(n) + k)
        elif isinstance(k, int):
            kk = k
        else:
            kk = simp_int(z3.If(k < 0, k + I(n), k))
        if not self.decide(zand(I(kk) >= 0, I(kk) < I(n))):
            self.throw("IndexError")
        return self.seq_at(s, kk)

    def seq_slice(self, s, k):
        if k.lo is None and k.hi is None and k.step is None:
            return s
        c = s.concrete()
        lo, hi, st = k.lo, k.hi, k.step
        if c is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return Seq.of(c[slice(lo, hi, st)])
        if st == -1 and lo is None and hi is None:
            b = self.as_block(s)
            return Seq([Block(b.n, lambda j: b.at(simp_int(I(b.n) - 1 - I(j))))])
        if st not in (None, 1):
            raise Unsupported("slice step")
        if hi is None and isinstance(lo, int) and lo >= 0:
            segs = list(s.segs)
            while lo > 0 and segs:
                g = segs[0]
                if isinstance(g, One):
                    segs.pop(0)
                    lo -= 1
                elif isinstance(g, Block):
                    if self.decide(I(g.n) >= lo):
                        segs[0] = Block(simp_int(I(g.n) - lo), (lambda at, lo: lambda j: at(simp_int(I(j) + lo)))(g.at, lo))
                        lo = 0
                    else:
                        if len(segs) > 1:
                            raise Unsupported("slice beyond symbolic segment")
                        segs.pop(0)
                else:
                    raise Unsupported("slice of filtered sequence")
            return Seq(segs)
        n = self.seq_len(s)

        def clamp(x, dflt):
            if x is None:
                return I(dflt)
            x = I(x)
            x = z3.If(x < 0, x + I(n), x)
            return z3.If(x < 0, z3.IntVal(0), z3.If(x > I(n), I(n), x))

        a, b = clamp(lo, 0), clamp(hi, n)
        ln = simp_int(z3.If(b > a, b - a, z3.IntVal(0)))
        a = simp_int(a)
        if isinstance(a, int) and isinstance(ln, int):
            return Seq.of([self.seq_at(s, a + t) for t in range(ln)])
        blk = self.as_block(s)
        return Seq([Block(ln, lambda j: blk.at(simp_int(I(j) + I(a))))])

    def setitem(self, o, k, v):
        o = self.unbox(o)
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, DictObj):
                self.st.heap[o.oid] = DictObj(h.map.plus(("store", self.unbox(k), v)), h.cls, h.default)
                return
            if isinstance(h, ListObj):
                c = h.seq.concrete()
                if c is not None and isinstance(k, int):
                    if not -len(c) <= k < len(c):
                        self.throw("IndexError")
                    c = list(c)
                    c[k] = v
                    self.st.heap[o.oid] = ListObj(Seq.of(c))
                    return
                if is_int(k):
                    n = self.seq_len(h.seq)
                    kk = simp_int(z3.If(I(k) < 0, I(k) + I(n), I(k)))
                    if not self.decide(zand(I(kk) >= 0, I(kk) < I(n))):
                        self.throw("IndexError")
                    old = self.as_block(h.seq)

                    def at(j):
                        if self.decide(I(j) == I(kk)):
                            return v
                        return old.at(j)

                    self.st.heap[o.oid] = ListObj(Seq([Block(n, at)]))
                    return
            if isinstance(h, Inst) and isinstance(h.cls, ClassV):
                m = self.class_attr(h.cls, "__setitem__")
                if m is not None:
                    self.call(self.bind(m, o, h.cls), Seq.of([k, v]), NOKW)
                    return
        if is_V(o):
            self.st.events.append(Event("setitem", o, Seq.of([k, v]), NOKW, None))
            m = self.V_map(o)
            if m is not None:
                self.st.ghost[("vmap", o.get_id())] = m.plus(("store", k, v))
            return
        raise Unsupported(f"item assignment on {o!r}")

    # ---------------------------------------------------------------- methods of containers
    def method(self, o, name, args, kwargs):
        o = self.unbox(o)
        c = args.concrete()
        if isinstance(o, ViewV):
            if name in ("__iter__",):
                return GenV(lambda: self.iter_seq(o))
            if name in ("isdisjoint", "__and__", "__or__") and c:
                s = self.set_of(o)
                return self.set_method(self.new_set(s), s, name, args, c)
            raise Unsupported("view method " + name)
        if isinstance(o, TupleV):
            if name == "__len__":
                return self.seq_len(o.seq)
            if name == "__iter__":
                return GenV(lambda: o.seq)
            if name == "index" or name == "count":
                raise Unsupported("tuple." + name)
            if name == "__getitem__":
                return self.getitem(o, c[0])
            raise Unsupported("tuple method " + name)
        if isinstance(o, str) or is_strv(o):
            return self.str_method(o, name, args, kwargs)
        if is_int(o) or isinstance(o, (int, float)):
            raise Unsupported("number method " + name)
        if is_V(o):
            m = self.V_map(o)
            if m is not None:
                return self.map_method(None, m, name, args, kwargs, o)
            raise Unsupported("method " + name)
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, ListObj):
                return self.list_method(o, h, name, args, kwargs, c)
            if isinstance(h, DictObj):
                return self.map_method(o, h.map, name, args, kwargs, o)
            if isinstance(h, SetObj):
                return self.set_method(o, h.set, name, args, c)
        raise Unsupported(f"method {name} of {o!r}")

    def list_method(self, r, h, name, args, kwargs, c):
        if name == "append":
            self.st.heap[r.oid] = ListObj(h.seq + Seq.of([c[0]]))
            return None
        if name == "extend":
            s = self.iter_seq(c[0])
            self.st.heap[r.oid] = ListObj(self.obj(r).seq + s)
            return None
        if name == "insert":
            if c[0] == 0:
                self.st.heap[r.oid] = ListObj(Seq.of([c[1]]) + h.seq)
                return None
            cc = h.seq.concrete()
            if cc is not None and isinstance(c[0], int):
                cc = list(cc)
                cc.insert(c[0], c[1])
                self.st.heap[r.oid] = ListObj(Seq.of(cc))
                return None
        if name == "copy":
            return self.new_list(h.seq)
        if name == "clear":
            self.st.heap[r.oid] = ListObj(Seq())
            return None
        if name == "pop":
            segs = h.seq.segs
            if not c and segs and isinstance(segs[-1], One):
                self.st.heap[r.oid] = ListObj(Seq(segs[:-1]))
                return segs[-1].v
            if c and c[0] == 0 and segs and isinstance(segs[0], One):
                self.st.heap[r.oid] = ListObj(Seq(segs[1:]))
                return segs[0].v
            if not segs:
                self.throw("IndexError")
            if not c:
                n = self.seq_len(h.seq)
                if not self.decide(I(n) > 0):
                    self.throw("IndexError")
                b = self.as_block(h.seq)
                self.st.heap[r.oid] = ListObj(Seq([Block(simp_int(I(n) - 1), b.at)]))
                return b.at(simp_int(I(n) - 1))
        if name == "reverse":
            self.st.heap[r.oid] = ListObj(self.seq_slice(h.seq, SliceV(None, None, -1)))
            return None
        if name == "__len__":
            return self.seq_len(h.seq)
        if name == "__iter__":
            return GenV(lambda: h.seq)
        if name == "__getitem__":
            return self.getitem(r, c[0])
        if name == "__setitem__":
            return self.setitem(r, c[0], c[1])
        if name == "index":
            cc = h.seq.concrete()
            if cc is not None:
                for k, x in enumerate(cc):
                    if self.decide(self.py_eq(x, c[0])):
                        return k
                self.throw("ValueError")
        if name == "remove":
            cc = h.seq.concrete()
            if cc is not None:
                for k, x in enumerate(cc):
                    if self.decide(self.py_eq(x, c[0])):
                        self.st.heap[r.oid] = ListObj(Seq.of(cc[:k] + cc[k + 1:]))
                        return None
                self.throw("ValueError")
        raise Unsupported("list." + name)

    def map_method(self, r, m, name, args, kwargs, o):
        c = args.concrete()
        if name == "get":
            v = self.map_get(m, c[0])
            return (c[1] if len(c) > 1 else None) if v is self.MISSING else v
        if name in ("items", "keys", "values"):
            return ViewV(name, m, o)
        if name == "__iter__":
            return GenV(lambda: self.map_keys(m))
        if name == "__len__":
            return self.seq_len(self.map_keys(m))
        if name == "__getitem__":
            return self.getitem(o, c[0])
        if name == "__contains__":
            return self.map_has(m, c[0])
        if name == "copy":
            return self.new_dict(m)
        if r is None:
            raise Unsupported("mutation of an opaque mapping: " + name)
        h = self.obj(r)
        put = lambda mm: self.st.heap.__setitem__(r.oid, DictObj(mm, h.cls, h.default))  # noqa: E731
        if name == "__setitem__":
            put(m.plus(("store", c[0], c[1])))
            return None
        if name == "update":
            if c:
                mm = self.map_of(c[0])
                m = self.obj(r).map
                m = m.plus(("merge", mm))
            if not self.trivially_empty(kwargs):
                m = m.plus(("merge", kwargs))
            put(m)
            return None
        if name == "clear":
            put(Map())
            return None
        if name == "setdefault":
            v = self.map_get(m, c[0])
            if v is not self.MISSING:
                return v
            d = c[1] if len(c) > 1 else None
            put(m.plus(("store", c[0], d)))
            return d
        if name == "pop":
            v = self.map_get(m, c[0])
            if v is self.MISSING:
                if len(c) > 1:
                    return c[1]
                self.throw("KeyError", c[0])
            put(m.plus(("del", c[0])))
            return v
        if name == "__delitem__":
            if not self.decide(self.map_has(m, c[0])):
                self.throw("KeyError", c[0])
            put(m.plus(("del", c[0])))
            return None
        if name == "__or__":
            return self.new_dict(m.plus(("merge", self.map_of(c[0]))))
        raise Unsupported("dict." + name)

    def set_method(self, r, s, name, args, c):
        h = self.obj(r)
        put = lambda x: self.st.heap.__setitem__(r.oid, SetObj(x, h.frozen))  # noqa: E731
        if name == "add":
            put(self.set_add(s, c[0]))
            return None
        if name in ("remove", "discard"):
            if name == "remove":
                if not self.decide(self.set_has(s, c[0])):
                    self.throw("KeyError", c[0])
            put(SetV(arr=z3.SetDel(self.set_arr(s), self.box(c[0]))))
            return None
        if name == "copy":
            return self.new_set(s, h.frozen)
        if name == "clear":
            put(SetV(elems=[]))
            return None
        if name in ("union", "intersection", "difference", "update", "difference_update", "intersection_update"):
            if c is None:
                if name in ("union", "update"):
                    res = self.set_bigunion(s, args)
                elif name == "intersection":
                    res = self.set_biginter(s, args)
                else:
                    raise Unsupported("set method with symbolic arguments")
            else:
                res = s
                for x in c:
                    t = self.set_of(x)
                    if name in ("union", "update"):
                        res = self.set_union(res, t)
                    elif name.startswith("intersection"):
                        res = SetV(arr=z3.SetIntersect(self.set_arr(res), self.set_arr(t)))
                    else:
                        res = SetV(arr=z3.SetDifference(self.set_arr(res), self.set_arr(t)))
            if "update" in name:
                put(res)
                return None
            return self.new_set(res, h.frozen)
        if name == "isdisjoint":
            t = self.set_of(c[0])
            return z3.SetIntersect(self.set_arr(s), self.set_arr(t)) == z3.EmptySet(V)
        if name == "issubset":
            return z3.IsSubset(self.set_arr(s), self.set_arr(self.set_of(c[0])))
        if name == "issuperset":
            return z3.IsSubset(self.set_arr(self.set_of(c[0])), self.set_arr(s))
        if name in ("__and__", "__or__", "__sub__", "__xor__"):
            return self.binop({"__and__": "BitAnd", "__or__": "BitOr", "__sub__": "Sub", "__xor__": "BitXor"}[name], r, c[0])
        if name == "__contains__":
            return self.set_has(s, c[0])
        if name == "__iter__":
            return GenV(lambda: self.set_seq(s))
        if name == "pop":
            raise Unsupported("set.pop")
        raise Unsupported("set." + name)

    def set_bigunion(self, s, args):
        """s united with each of a sequence of sets."""
        R = self.fresh("bigunion", SetS)
        x = z3.Const(self.freshname("x"), V)
        base = self.set_arr(s)
        alts = [z3.Select(base, x)]
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(base, x), z3.Select(R, x)))) if not (s.elems is not None and not s.elems) else None
        for g in args.segs:
            if isinstance(g, One):
                a = self.set_arr(self.set_of(g.v))
                alts.append(z3.Select(a, x))
                self.assume(z3.IsSubset(a, R))
            elif isinstance(g, Block):
                q = z3.Int(self.freshname("q"))
                w = z3.Function(self.freshname("wit"), V, z3.IntSort())
                a = self.quiet(lambda: self.set_arr(self.set_of(g.at(q))))
                self.assume(z3.ForAll([q, x], z3.Implies(z3.And(0 <= q, q < I(g.n), z3.Select(a, x)), z3.Select(R, x))))
                alts.append(z3.And(0 <= w(x), w(x) < I(g.n), z3.Select(z3.substitute(a, (q, w(x))), x)))
            else:
                raise Unsupported("union over filtered sequence")
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(R, x), z3.Or(*alts)), patterns=[z3.Select(R, x)]))
        return SetV(arr=R)

    def set_biginter(self, s, args):
        R = self.fresh("biginter", SetS)
        x = z3.Const(self.freshname("x"), V)
        base = self.set_arr(s)
        self.assume(z3.IsSubset(R, base))
        need = [z3.Select(base, x)]
        for g in args.segs:
            if isinstance(g, One):
                a = self.set_arr(self.set_of(g.v))
                need.append(z3.Select(a, x))
                self.assume(z3.IsSubset(R, a))
            elif isinstance(g, Block):
                q = z3.Int(self.freshname("q"))
                w = z3.Function(self.freshname("wit"), V, z3.IntSort())
                a = self.quiet(lambda: self.set_arr(self.set_of(g.at(q))))
                self.assume(z3.ForAll([q, x], z3.Implies(z3.And(0 <= q, q < I(g.n), z3.Select(R, x)), z3.Select(a, x))))
                need.append(z3.Implies(z3.And(0 <= w(x), w(x) < I(g.n)), z3.Select(z3.substitute(a, (q, w(x))), x)))
            else:
                raise Unsupported("intersection over filtered sequence")
        self.assume(z3.ForAll([x], z3.Implies(z3.And(*need), z3.Select(R, x))))
        return SetV(arr=R)

    def str_method(self, o, name, args, kwargs):
        c = args.concrete()
        if isinstance(o, str) and c is not None and all(isinstance(x, (str, int, type(None))) for x in c):
            m = getattr(str, name, None)
            if name in ("join",):
                pass
            elif m is not None and self.trivially_empty(kwargs):
                r = m(o, *c)
                if isinstance(r, list):
                    return self.new_list(Seq.of(r))
                if isinstance(r, tuple):
                    return TupleV(Seq.of(list(r)))
                return r
        if name == "join":
            s = self.iter_seq(c[0])
            cc = s.concrete()
            if cc is not None and all(isinstance(x, str) for x in cc) and isinstance(o, str):
                return o.join(cc)
            if cc is not None and all(is_strv(x) for x in cc):
                parts = []
                for k, x in enumerate(cc):
                    if k:
                        parts.append(o)
                    parts.append(x)
                parts = [z3.StringVal(p) if isinstance(p, str) else p for p in parts if not (isinstance(p, str) and p == "")]
                return z3.Concat(*parts) if len(parts) > 1 else (parts[0] if parts else "")
            raise Unsupported("str.join of symbolic")
        if name == "startswith" and c and is_strv(c[0]):
            return z3.PrefixOf(self.zstr(c[0]), self.zstr(o))
        if name == "endswith" and c and is_strv(c[0]):
            return z3.SuffixOf(self.zstr(c[0]), self.zstr(o))
        self.st.approx = True
        return self.app("str." + name, o, *(c or []))

    def zstr(self, x):
        return z3.StringVal(x) if isinstance(x, str) else x

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if is_int(a) and is_int(b):
            if not is_z(a) and not is_z(b):
                import operator as o_
                f = {"Add": o_.add, "Sub": o_.sub, "Mult": o_.mul, "FloorDiv": o_.floordiv, "Mod": o_.mod, "Pow": o_.pow, "BitAnd": o_.and_, "BitOr": o_.or_,
                     "BitXor": o_.xor, "LShift": o_.lshift, "RShift": o_.rshift, "Div": o_.truediv}[op]
                try:
                    return f(a, b)
                except ZeroDivisionError:
                    self.throw("ZeroDivisionError")
            x, y = I(a), I(b)
            if op == "Add":
                return simp_int(x + y)
            if op == "Sub":
                return simp_int(x - y)
            if op == "Mult":
                return simp_int(x * y)
            if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0:
                return simp_int(x / y if op == "FloorDiv" else x % y)
            raise Unsupported("integer operator " + op)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator as o_
            f = {"Add": o_.add, "Sub": o_.sub, "Mult": o_.mul, "Div": o_.truediv, "FloorDiv": o_.floordiv, "Mod": o_.mod, "Pow": o_.pow}.get(op)
            if f:
                try:
                    return f(a, b)
                except ZeroDivisionError:
                    self.throw("ZeroDivisionError")
        if is_strv(a) and is_strv(b) and op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return z3.Concat(self.zstr(a), self.zstr(b))
        if is_strv(a) and op == "Mod":
            self.st.approx = True
            return self.app("strmod", a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and op == "Add":
            return TupleV(a.seq + b.seq)
        if isinstance(a, TupleV) and is_int(b) and op == "Mult":
            return TupleV(self.seq_repeat(a.seq, b))
        if isinstance(b, TupleV) and is_int(a) and op == "Mult":
            return TupleV(self.seq_repeat(b.seq, a))
        if isinstance(a, Ref) or isinstance(b, Ref):
            oa = self.obj(a) if isinstance(a, Ref) else None
            ob = self.obj(b) if isinstance(b, Ref) else None
            if isinstance(oa, ListObj) and isinstance(ob, ListObj) and op == "Add":
                return self.new_list(oa.seq + ob.seq)
            if isinstance(oa, ListObj) and is_int(b) and op == "Mult":
                return self.new_list(self.seq_repeat(oa.seq, b))
            if isinstance(oa, (SetObj,)) or isinstance(ob, SetObj):
                if op in ("BitAnd", "BitOr", "Sub", "BitXor"):
                    A, B = self.set_of(a), self.set_of(b)
                    fr = oa.frozen if isinstance(oa, SetObj) else False
                    if op == "BitOr":
                        return self.new_set(self.set_union(A, B), fr)
                    x, y = self.set_arr(A), self.set_arr(B)
                    if op == "BitAnd":
                        return self.new_set(SetV(arr=z3.SetIntersect(x, y)), fr)
                    if op == "Sub":
                        return self.new_set(SetV(arr=z3.SetDifference(x, y)), fr)
                    return self.new_set(SetV(arr=z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))), fr)
            if op == "BitOr" and (isinstance(oa, DictObj) or isinstance(ob, DictObj)):
                return self.new_dict(self.map_of(a).plus(("merge", self.map_of(b))))
            meth = {"Add": "add", "Sub": "sub", "Mult": "mul", "BitOr": "or", "BitAnd": "and", "MatMult": "matmul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow"}.get(op)
            for x, y, pre in ((a, b, "__"), (b, a, "__r")):
                ox = self.obj(x) if isinstance(x, Ref) else None
                if isinstance(ox, Inst) and isinstance(ox.cls, ClassV) and meth:
                    m = self.class_attr(ox.cls, f"{pre}{meth}__")
                    if m is not None:
                        return self.call(self.bind(m, x, ox.cls), Seq.of([y]), NOKW)
        if isinstance(a, ViewV) or isinstance(b, ViewV):
            return self.binop(op, self.new_set(self.set_of(a)), self.new_set(self.set_of(b)))
        if op == "BitOr" and isinstance(a, (ClassV, ExtV, UnionV, type(None))) and isinstance(b, (ClassV, ExtV, UnionV, type(None))):
            its = []
            for x in (a, b):
                its += x.items if isinstance(x, UnionV) else [x]
            return UnionV(its)
        if is_V(a) or is_V(b):
            ta = self.type_of_term(a) if is_V(a) else None
            tb = self.type_of_term(b) if is_V(b) else None
            SET, MAP = ExtV("collections.abc.Set"), ExtV("collections.abc.Mapping")
            if any(t is not None and self.is_sub(t, SET) for t in (ta, tb)) and op in ("BitAnd", "BitOr", "Sub", "BitXor"):
                return self.binop(op, self.new_set(self.set_of(a), True), self.new_set(self.set_of(b), True))
            if any(t is not None and self.is_sub(t, MAP) for t in (ta, tb)) and op == "BitOr":
                return self.new_dict(self.map_of(a).plus(("merge", self.map_of(b))))
            if is_strv(a) or is_strv(b):
                self.st.approx = True
            return self.app("binop!" + op, a, b)
        raise Unsupported(f"operator {op} on {a!r}, {b!r}")

    def seq_repeat(self, s, n):
        if isinstance(n, int):
            out = Seq()
            for _ in range(max(n, 0)):
                out = out + s
            return out
        c = s.concrete()
        if c is not None and len(c) == 1:
            v = c[0]
            return Seq([Block(simp_int(z3.If(I(n) > 0, I(n), z3.IntVal(0))), lambda j: v)])
        raise Unsupported("repetition")


class ItemsBlock(Block):
    """items() of a map: element j is (key j, value); keys invertible through `term`."""

    __slots__ = ()

    def __init__(self, n, at, term, keyof):
        self.n, self.at, self.term, self.keyof, self.whole = n, at, term, keyof, "items"
