"""Symbolic execution of extracted functions; obligations are discharged by SMT."""
import ast
import builtins
import importlib
import time

import z3

from .source import Repo
from .values import *  # noqa: F403
from . import values as VV

STDLIB_ROOTS = {"builtins", "collections", "numbers", "types", "typing", "inspect", "dataclasses", "functools",
                "operator", "contextlib", "abc", "itertools", "enum", "ast", "string", "json", "threading"}
LAYOUT = ["int", "str", "bytes", "tuple", "list", "dict", "set", "frozenset", "float", "complex", "type", "slice", "ellipsis"]


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_V(x):
    return is_z(x) and x.sort() == V


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z(x) and x.sort() == z3.IntSort())


def is_boolv(x):
    return isinstance(x, bool) or (is_z(x) and x.sort() == z3.BoolSort())


def is_strv(x):
    return isinstance(x, str) or (is_z(x) and x.sort() == z3.StringSort())


def zand(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def zor(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def simp(x):
    if isinstance(x, bool):
        return x
    s = z3.simplify(x)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return x


class PathRes:
    def __init__(self, out, st, pc):
        self.out, self.st, self.pc = out, st, pc

    def branch(self):
        return [e for e, b in self.pc if b]

    def facts(self):
        return [e for e, b in self.pc if not b]


class Engine:
    MAXDEPTH = 80

    def __init__(self, repo=None, timeout_ms=8000):
        self.repo = repo or Repo()
        self.contracts = {}  # qual -> fn(ctx, args, kwargs) ; used at call sites
        self.natives = {}  # ExtV path -> fn(ctx, args, kwargs)
        self.overrides = {}  # qualified global -> value factory fn(ctx)
        self.pure_prefixes = []
        self.extra_disjoint = set()
        self.timeout_ms = timeout_ms
        self.stats = {"decide_checks": 0, "solver_s": 0.0}
        self.funcs_seen = {}  # qual -> digest, functions whose body was executed
        self.contracts_used = set()
        self.ext_used = set()
        self.st = State()
        self.prefix, self.pos, self.trail, self.work = [], 0, [], [[]]
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.pushed = []
        self.frames = []
        self.depth = 0
        self.keep = []  # keeps asts alive
        self.deadline = None
        self.results = []  # obligations
        self.label_prefix = ""
        from . import models

        models.install(self)

    # ------------------------------------------------------------------ solver
    def _sync(self):
        pc = self.st.pc
        k = 0
        while k < len(self.pushed) and k < len(pc) and self.pushed[k] is pc[k][0]:
            k += 1
        if k < len(self.pushed):
            self.solver.pop(len(self.pushed) - k)
            del self.pushed[k:]
        for e, _ in pc[k:]:
            self.solver.push()
            self.solver.add(e)
            self.pushed.append(e)

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit for symbolic execution reached")
        t = time.time()
        self._sync()
        self.stats["decide_checks"] += 1
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        return r

    def feasible(self):
        return self.check() != z3.unsat

    def assume(self, e, branch=False):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        self.keep.append(e)
        self.st.pc.append((e, branch))

    def decide(self, c, free=False):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            t = free or self.check(c) != z3.unsat
            f = free or self.check(z3.Not(c)) != z3.unsat
            if t and f:
                self.work.append(self.trail + [False])
                v = True
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise Infeasible()
        self.pos += 1
        self.trail = self.trail + [v]
        self.assume(c if v else z3.Not(c), True)
        return v

    def choose(self, name="choice"):
        """A fresh unconstrained boolean, decided."""
        return self.decide(self.fresh(name, z3.BoolSort()), free=True)

    def explore(self, thunk, max_paths=4000):
        snap = self.st.copy()
        saved = (self.prefix, self.pos, self.trail, self.work, self.depth, list(self.frames))
        out = []
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > max_paths:
                    raise Unsupported("too many paths")
                self.prefix, self.pos, self.trail, self.work = work.pop(), 0, [], work
                self.st = snap.copy()
                self.frames = list(saved[5])
                self.depth = saved[4]
                n0 = len(self.st.pc)
                try:
                    try:
                        o = ("ok", thunk())
                    except PyExc as e:
                        o = ("exc", e.val)
                    except Ret as r:
                        o = ("ret", r.val)
                    except Brk:
                        o = ("brk", None)
                    except Cont:
                        o = ("ok", None)
                except Infeasible:
                    continue
                out.append(PathRes(o, self.st, self.st.pc[n0:]))
        finally:
            self.st = snap
            self.prefix, self.pos, self.trail, self.work, self.depth, self.frames = saved
        return out

    # ------------------------------------------------------------------ terms
    def fresh(self, name, sort=V):
        self.st.counter += 1
        nm = f"{name}!{self.st.counter}"
        if self.st.idx:
            f = z3.Function(nm, *[z3.IntSort() for _ in self.st.idx], sort)
            t = f(*self.st.idx)
        else:
            t = z3.Const(nm, sort)
        self.keep.append(t)
        return t

    def freshname(self, name):
        self.st.counter += 1
        return f"{name}!{self.st.counter}"

    def global_const(self, name):
        """A unique global object (operations, classes, functions): pairwise distinct."""
        t = z3.Const("g:" + name, V)
        self.unique(t, name)
        return t

    _uids = {}

    def unique(self, t, name):
        if name not in Engine._uids:
            Engine._uids[name] = len(Engine._uids) + 1
        key = ("uidfact", t.get_id())
        if key not in self.st.ghost:
            self.keep.append(t)
            self.st.ghost[key] = t
            self.assume(z3.And(uid(t) == Engine._uids[name], kind(t) == K_OBJ))

    def app(self, name, *vals):
        f = z3.Function(name, *[V for _ in vals], V)
        return f(*[self.box(v) for v in vals]) if vals else z3.Const(name, V)

    def box(self, v):
        if is_V(v):
            return v
        if v is None:
            self._once("none", lambda: kind(NONE) == K_NONE)
            return NONE
        if is_boolv(v):
            e = mkBool(zb(v))
            self._once(("b", e.get_id()), lambda: z3.And(unBool(e) == zb(v), kind(e) == K_BOOL))
            return e
        if is_int(v):
            e = mkInt(I(v))
            self._once(("b", e.get_id()), lambda: z3.And(unInt(e) == I(v), kind(e) == K_INT))
            return e
        if is_strv(v):
            s = z3.StringVal(v) if isinstance(v, str) else v
            e = mkStr(s)
            self._once(("b", e.get_id()), lambda: z3.And(unStr(e) == s, kind(e) == K_STR))
            return e
        if isinstance(v, float):
            return self.global_const("float:" + repr(v))
        if isinstance(v, bytes):
            return self.global_const("bytes:" + repr(v))
        if v is Ellipsis or v is NotImplemented:
            return self.global_const(repr(v))
        if isinstance(v, Ref):
            return self.box_ref(v)
        if isinstance(v, ExtV):
            return self.global_const("ext:" + v.path)
        if isinstance(v, ClassV):
            return self.global_const("class:" + v.qual)
        if isinstance(v, ModV):
            return self.global_const("mod:" + v.name)
        if isinstance(v, TupleV):
            t = self.seq_term(v.seq)
            if t is not None:
                return t
            c = v.seq.concrete()
            if c is not None:
                f = z3.Function(f"tuple{len(c)}", *[V for _ in c], V) if c else None
                bs = [self.box(x) for x in c]
                t = f(*bs) if c else self.global_const("()")
                ps = [z3.Function(f"tupget{len(c)}_{k}", V, V)(t) == b for k, b in enumerate(bs)]
                if ps:
                    self._once(("b", t.get_id()), lambda: z3.And(*ps))
                return t
        if isinstance(v, BoundV):
            t = z3.Function("bound", V, V, V)(self.box(v.func), self.box(v.self_))
            return t
        # closures and other meta objects: one constant per object identity
        key = ("boxobj", id(v))
        if key not in self.st.ghost:
            self.keep.append(v)
            t = self.fresh("obj")
            self.st.ghost[key] = t
            self.st.ghost[("unboxobj", t.get_id())] = v
            self.assume(kind(t) == K_OBJ)
        return self.st.ghost[key]

    def unbox(self, t):
        """Undo boxing of meta objects and heap references where known."""
        if is_V(t):
            return self.st.ghost.get(("unboxobj", t.get_id()), t)
        return t

    def box_ref(self, r):
        if r.oid not in self.st.boxes:
            t = self.fresh(f"ref{r.oid}_")
            self.st.boxes[r.oid] = t
            self.st.ghost[("unboxobj", t.get_id())] = r
            self.keep.append(t)
            # distinct from every global and from every other allocated object
            if not self.st.idx:
                self.assume(uid(t) == 10**6 + r.oid)
            self.assume(kind(t) == K_OBJ)
        return self.st.boxes[r.oid]

    def _once(self, key, mk):
        k = ("once", key)
        if k not in self.st.ghost:
            e = mk()
            self.keep.append(e)
            self.st.ghost[k] = e
            self.assume(e)

    def typed(self, t, cls):
        self.keep.append(t)
        self.st.types[t.get_id()] = cls
        return t

    def type_of_term(self, t):
        return self.st.types.get(t.get_id())

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        oid = self.st.next_oid
        self.st.next_oid += 1
        self.st.heap[oid] = obj
        return Ref(oid)

    def obj(self, r):
        return self.st.heap[r.oid]

    def new_list(self, seq):
        return self.alloc(ListObj(seq))

    def new_dict(self, m=None):
        return self.alloc(DictObj(m or Map()))

    def new_set(self, s, frozen=False):
        return self.alloc(SetObj(s, frozen))

    def new_env(self, parent, locals_):
        oid = self.st.next_oid
        self.st.next_oid += 1
        self.st.heap[oid] = {}
        return Env(oid, parent, locals_)

    def env_get(self, env, name):
        e = env
        while e is not None:
            d = self.st.heap[e.oid]
            if name in d:
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                return True, v
            if name in e.locals:
                self.throw("UnboundLocalError", name)
            e = e.parent
        return False, None

    def env_set(self, env, name, val):
        d = dict(self.st.heap[env.oid])
        d[name] = val
        self.st.heap[env.oid] = d

    # ------------------------------------------------------------------ exceptions
    def throw(self, cls, *args):
        c = cls if isinstance(cls, Value) else ExtV("builtins." + cls)
        raise PyExc(self.alloc(Inst(c, {"args": TupleV(Seq.of(args))})))

    # ------------------------------------------------------------------ classes
    _real_cache = {}

    def real_class(self, c):
        if not isinstance(c, ExtV):
            return None
        p = c.path
        if p in self._real_cache:
            return self._real_cache[p]
        r = None
        if p.split(".")[0] in STDLIB_ROOTS:
            parts = p.split(".")
            for cut in range(len(parts) - 1, 0, -1):
                try:
                    m = importlib.import_module(".".join(parts[:cut]))
                except Exception:
                    continue
                try:
                    for a in parts[cut:]:
                        m = getattr(m, a)
                    r = m
                except AttributeError:
                    r = None
                break
        if not isinstance(r, type):
            r = None
        self._real_cache[p] = r
        return r

    def bases(self, c):
        if isinstance(c, ClassV):
            out = []
            for b in c.node.bases:
                try:
                    if isinstance(b, ast.Subscript):
                        b = b.value
                    v = self.eval_static(b, c.module)
                except Unsupported:
                    continue
                if isinstance(v, (ClassV, ExtV)):
                    out.append(v)
            return out
        return []

    def mro(self, c):
        """C3 when possible, else depth first."""
        if not isinstance(c, ClassV):
            return [c]

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    return None
                res.append(cand)
                seqs = [[x for x in t if x != cand] for t in seqs]
                seqs = [t for t in seqs if t]
            return res

        bs = self.bases(c)
        r = merge([self.mro(b) for b in bs] + [bs])
        if r is None:
            r = []
            for b in bs:
                r += [x for x in self.mro(b) if x not in r]
        return [c] + r

    def is_sub(self, a, b):
        if a == b or b == ExtV("builtins.object"):
            return True
        if isinstance(b, ExtV) and b.path == "typing.Any":
            return True
        for m in self.mro(a):
            if m == b:
                return True
            if isinstance(m, ExtV) and isinstance(b, ExtV):
                ra, rb = self.real_class(m), self.real_class(b)
                if ra is not None and rb is not None:
                    try:
                        if issubclass(ra, rb):
                            return True
                    except TypeError:
                        pass
        return False

    def disjoint(self, a, b):
        if self.is_sub(a, b) or self.is_sub(b, a):
            return False
        na, nb = getattr(a, "qual", getattr(a, "path", "")), getattr(b, "qual", getattr(b, "path", ""))
        if (na, nb) in self.extra_disjoint or (nb, na) in self.extra_disjoint:
            return True

        def layout(c):
            for m in self.mro(c):
                if isinstance(m, ExtV) and m.path.startswith("builtins.") and m.path[9:] in LAYOUT:
                    return m.path
            return None

        la, lb = layout(a), layout(b)
        if la and lb:
            A, B = ExtV(la), ExtV(lb)
            return not (self.is_sub(A, B) or self.is_sub(B, A))
        if la or lb:
            x, y = (la, b) if la else (lb, a)
            X = ExtV(x)
            for root in ("collections.abc.Mapping", "collections.abc.Sequence", "collections.abc.Set", "collections.abc.Callable", "numbers.Number"):
                R = ExtV(root)
                if self.is_sub(y, R) and not self.is_sub(X, R) and x != "builtins.type":
                    # a builtin layout whose base type is not an R; subclasses could register, assumed not
                    if root != "collections.abc.Callable":
                        return True
        roots = [ExtV("collections.abc.Mapping"), ExtV("collections.abc.Sequence"), ExtV("collections.abc.Set"), ExtV("numbers.Number")]
        ra = [r for r in roots if self.is_sub(a, r)]
        rb = [r for r in roots if self.is_sub(b, r)]
        return bool(ra and rb and not (set(ra) & set(rb)))

    def class_of(self, v):
        """Concrete class of a meta value, or None when symbolic."""
        if v is None:
            return ExtV("types.NoneType")
        if is_boolv(v):
            return ExtV("builtins.bool")
        if is_int(v):
            return ExtV("builtins.int")
        if is_strv(v):
            return ExtV("builtins.str")
        if isinstance(v, float):
            return ExtV("builtins.float")
        if isinstance(v, bytes):
            return ExtV("builtins.bytes")
        if v is Ellipsis:
            return ExtV("builtins.ellipsis")
        if isinstance(v, SliceV):
            return ExtV("builtins.slice")
        if isinstance(v, TupleV):
            return v.cls or ExtV("builtins.tuple")
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                return ExtV("builtins.list")
            if isinstance(o, DictObj):
                return o.cls or ExtV("builtins.dict")
            if isinstance(o, SetObj):
                return ExtV("builtins.frozenset" if o.frozen else "builtins.set")
            if isinstance(o, Inst):
                return o.cls
        if isinstance(v, (FuncV, NativeV, CMDecorated)):
            return ExtV("types.FunctionType")
        if isinstance(v, PartialV):
            return ExtV("functools.partial")
        if isinstance(v, BoundV):
            return ExtV("types.MethodType")
        if isinstance(v, ClassV):
            return ExtV("builtins.type")
        if isinstance(v, ExtV):
            rc = self.real_class(v)
            return ExtV("builtins.type") if rc is not None else None
        if isinstance(v, ViewV):
            return ExtV("collections.abc." + {"keys": "KeysView", "values": "ValuesView", "items": "ItemsView"}[v.what])
        return None

    def isinst(self, v, c):
        """v: value, c: class value -> bool or z3 Bool."""
        v = self.unbox(v)
        if isinstance(c, TupleV):
            cs = c.seq.concrete()
            if cs is None:
                raise Unsupported("isinstance with symbolic class tuple")
            return zor(*[self.isinst(v, x) for x in cs])
        if isinstance(c, UnionV):
            return zor(*[self.isinst(v, x) for x in c.items])
        if c is None:
            return self.identical(v, None)
        if is_V(c):
            t = z3.Function("instdyn", V, V, z3.BoolSort())(self.box(v), c)
            try:
                self.assume(z3.Implies(self.box(self.type_value(v)) == c, t))
            except Unsupported:
                pass
            return t
        if c == ExtV("builtins.object") or c == ExtV("typing.Any"):
            return True
        if not isinstance(c, (ClassV, ExtV)):
            raise Unsupported(f"isinstance against {c!r}")
        if not is_V(v):
            k = self.class_of(v)
            if k is None:
                if isinstance(v, (ExtV,)):
                    return self._inst_pred(self.box(v), c)
                raise Unsupported(f"isinstance of {v!r}")
            if c == ExtV("collections.abc.Callable"):
                if isinstance(v, (FuncV, NativeV, PartialV, BoundV, ClassV, CMDecorated)):
                    return True
            if c == ExtV("builtins.int") and is_boolv(v):
                return True
            return self.is_sub(k, c)
        return self._inst_pred(v, c)

    def _inst_pred(self, t, c):
        nm = getattr(c, "qual", None) or c.path
        P = z3.Function("inst:" + nm, V, z3.BoolSort())
        st = self.type_of_term(t)
        if st is not None:
            if self.is_sub(st, c):
                return True
            if self.disjoint(st, c):
                return False
        key = t.get_id()
        self.keep.append(t)
        asked = self.st.asked.setdefault(key, [])
        if c not in asked:
            for d in asked:
                Q = z3.Function("inst:" + (getattr(d, "qual", None) or d.path), V, z3.BoolSort())
                if self.is_sub(c, d):
                    self.assume(z3.Implies(P(t), Q(t)))
                elif self.is_sub(d, c):
                    self.assume(z3.Implies(Q(t), P(t)))
                elif self.disjoint(c, d):
                    self.assume(z3.Not(z3.And(P(t), Q(t))))
            if not self.is_sub(ExtV("types.NoneType"), c):
                self.assume(z3.Implies(t == NONE, z3.Not(P(t))))
            asked.append(c)
        return P(t)

    # ------------------------------------------------------------------ equality
    def identical(self, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return a == b
        if is_V(a) or is_V(b):
            return self.box(a) == self.box(b)
        return self.same(a, b)

    def same(self, a, b):
        """Mathematical equality of values (used for keys and for proof goals on atoms)."""
        a, b = self.unbox(a), self.unbox(b)
        if a is b:
            return True
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return a == b
        for x, y in ((a, b), (b, a)):
            if is_V(x):
                return x == self.box(y)
        if is_boolv(a) and is_boolv(b):
            return zb(a) == zb(b) if is_z(a) or is_z(b) else a == b
        if is_int(a) and is_int(b):
            return I(a) == I(b) if is_z(a) or is_z(b) else a == b
        if is_strv(a) and is_strv(b):
            A = z3.StringVal(a) if isinstance(a, str) else a
            B = z3.StringVal(b) if isinstance(b, str) else b
            return A == B if is_z(a) or is_z(b) else a == b
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            ca, cb = a.seq.concrete(), b.seq.concrete()
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return zand(*[self.same(x, y) for x, y in zip(ca, cb)])
            return self.box(a) == self.box(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return zand(self.same(a.func, b.func), self.same(a.self_, b.self_))
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            if a.node is b.node and (a.env is b.env or (a.env and b.env and a.env.oid == b.env.oid)):
                return True
            return False
        if isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
            return a == b
        if isinstance(a, (int, str, float, bytes, type(None), bool, type(Ellipsis))) and isinstance(b, (int, str, float, bytes, type(None), bool, type(Ellipsis))):
            return type(a) is type(b) and a == b
        return False

    def py_eq(self, a, b):
        """The == operator."""
        a, b = self.unbox(a), self.unbox(b)
        OPC = ClassV_op = "effectful.ops.types.Operation"
        if a is b and not is_V(a):
            return True
        if is_V(a) or is_V(b):
            va, vb = (a, b)
            for x, y in ((va, vb), (vb, va)):
                if is_V(x):
                    ty = self.type_of_term(x)
                    if ty is not None and getattr(ty, "qual", "") == OPC:
                        return x == self.box(y)
                    if y is None or isinstance(y, (str, int, ClassV, ExtV, Ref)) or is_int(y) or is_strv(y) or is_boolv(y):
                        if isinstance(y, Ref) and not isinstance(self.obj(y), Inst):
                            continue
                        return x == self.box(y)
                    if str(x.decl().name()).startswith("typeof") or str(y).startswith("typeof"):
                        return x == self.box(y)
            return pyeqF(self.box(va), self.box(vb))
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return self.seq_eq_formula(a.seq, b.seq)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            oa, ob = self.obj(a), self.obj(b)
            if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                return self.seq_eq_formula(oa.seq, ob.seq)
            if isinstance(oa, SetObj) and isinstance(ob, SetObj):
                return self.set_eq(oa.set, ob.set)
            if isinstance(oa, Inst) or isinstance(ob, Inst):
                return False
            raise Unsupported("== on these heap objects")
        return self.same(a, b)

    def seq_eq_formula(self, s, t):
        a, b = s.concrete(), t.concrete()
        if a is not None and b is not None:
            return len(a) == len(b) and zand(*[self.py_eq(x, y) for x, y in zip(a, b)])
        ts, tt = self.seq_term(s), self.seq_term(t)
        if ts is not None and tt is not None:
            return pyeqF(ts, tt)
        raise Unsupported("== of symbolic sequences")

    # ------------------------------------------------------------------ sequences
    def sym_seq(self, t, keyof=None):
        n = slen(t)
        self._once(("slen", t.get_id()), lambda: n >= 0)
        return Seq([Block(n, lambda j: self.unbox(sat_(t, I(j))), term=t, keyof=keyof)])

    def seq_term(self, s):
        if len(s.segs) == 1 and isinstance(s.segs[0], Block) and s.segs[0].term is not None:
            return s.segs[0].term
        return None

    def seq_len(self, s):
        n = 0
        for g in s.segs:
            if isinstance(g, One):
                n = n + 1
            elif isinstance(g, Block):
                n = n + g.n
            else:
                raise Unsupported("length of a filtered sequence")
        return n

    def seq_nonempty(self, s):
        if any(isinstance(g, One) for g in s.segs):
            return True
        cs = []
        for g in s.segs:
            if isinstance(g, Block):
                cs.append(I(g.n) > 0)
            elif isinstance(g, Filt):
                b = self.fresh("nonempty", z3.BoolSort())
                j = self.fresh("j", z3.IntSort())
                kj = g.keep(j)
                self.assume(z3.Implies(b, z3.And(0 <= j, j < I(g.n), zb(kj))))
                i = z3.Int(self.freshname("q"))
                self.assume(z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < I(g.n)), z3.Not(zb(g.keep(i)))))))
                cs.append(b)
            else:
                raise Unsupported("emptiness of loop-carried sequence")
        return zor(*cs)

    def seq_at(self, s, j):
        """Element at index j (assumed in range)."""
        off = 0
        segs = s.segs
        if isinstance(j, int) and j >= 0:
            for k, g in enumerate(segs):
                if isinstance(g, One):
                    if j == off:
                        return g.v
                    off += 1
                elif isinstance(g, Block) and isinstance(g.n, int):
                    if j < off + g.n:
                        return g.at(j - off)
                    off += g.n
                else:
                    break
            else:
                raise Infeasible()
        off = 0
        for k, g in enumerate(segs):
            last = k == len(segs) - 1
            if isinstance(g, One):
                if last or self.decide(I(j) == I(off)):
                    return g.v
                off = off + 1
            elif isinstance(g, Block):
                if last or self.decide(I(j) < I(off) + I(g.n)):
                    return g.at(simp_int(I(j) - I(off)))
                off = off + g.n
            else:
                raise Unsupported("indexing a filtered sequence")
        raise Infeasible()

    def as_block(self, s):
        if len(s.segs) == 1 and isinstance(s.segs[0], Block):
            return s.segs[0]
        return Block(self.seq_len(s), lambda j: self.seq_at(s, j))

    # ------------------------------------------------------------------ maps
    def sym_map(self, t, val_fact=None):
        return Map(t, (), val_fact)

    def map_has(self, m, k):
        if m.hole is not None:
            pm = self.hole_read(m, k)
            if not m.layers:
                return self.map_has(pm, k)
            return self.map_has(Map(pm.base, pm.layers + m.layers, pm.val_fact), k)
        r = False if m.base is None else mhas(m.base, self.box(k))
        if m.base is not None:
            self._map_inst(m.base, self.box(k))
        for ly in m.layers:
            if ly[0] == "store":
                r = zor(self.same(ly[1], k), r)
            elif ly[0] == "del":
                r = zand(znot(self.same(ly[1], k)), r)
            elif ly[0] == "merge":
                r = zor(self.map_has(ly[1], k), r)
            elif ly[0] == "pw":
                e, _ = self.pw_find(ly[1], k)
                r = zor(e, r)
            r = simp(r)
        return r

    def _map_inst(self, t, kb):
        key = ("minst", t.get_id(), kb.get_id())
        ix = midx(t, kb)
        self._once(key, lambda: z3.Implies(mhas(t, kb), z3.And(0 <= ix, ix < slen(keysT(t)), sat_(keysT(t), ix) == kb)))

    def pw_find(self, pw, k):
        """(condition that some j produces key k, witness index)"""
        if pw.inv is not None:
            c, j = pw.inv(k)
            return c, j
        b = self.fresh("haskey", z3.BoolSort())
        j = self.fresh("jkey", z3.IntSort())
        i = z3.Int(self.freshname("q"))
        self.assume(z3.Implies(b, z3.And(0 <= j, j < I(pw.n), zb(self.same(pw.key(j), k)), zb(pw.cond(j)))))
        self.assume(z3.Implies(b, z3.ForAll([i], z3.Implies(z3.And(j < i, i < I(pw.n)), z3.Not(zb(zand(self.same(pw.key(i), k), pw.cond(i))))))))
        self.assume(z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < I(pw.n)), z3.Not(zb(zand(self.same(pw.key(i), k), pw.cond(i))))))))
        return b, j

    MISSING = object()

    hole_pre = {}
    hole_reads = set()

    def hole_read(self, m, k):
        """The dict being filled by the loop, read at the key of the current iteration: earlier
        iterations wrote other keys (checked when the loop's effect is summarised), so the value
        is the one from before the loop."""
        hit = self.hole_pre.get(m.hole)
        if hit is not None and hit[1] is not None:
            kb = self.box(k)
            if kb.eq(hit[1]):
                self.hole_reads.add(m.hole)
                return hit[0]
        raise Unsupported("loop-carried map read")

    def map_get(self, m, k):
        """Value at key k or MISSING (forks)."""
        for ly in reversed(m.layers):
            if ly[0] == "store":
                if self.decide(self.same(ly[1], k)):
                    return ly[2]
            elif ly[0] == "del":
                if self.decide(self.same(ly[1], k)):
                    return self.MISSING
            elif ly[0] == "merge":
                v = self.map_get(ly[1], k)
                if v is not self.MISSING:
                    return v
            elif ly[0] == "pw":
                e, j = self.pw_find(ly[1], k)
                if self.decide(e):
                    return ly[1].val(j)
        if m.hole is not None:
            return self.map_get(self.hole_read(m, k), k)
        if m.base is None:
            return self.MISSING
        kb = self.box(k)
        self._map_inst(m.base, kb)
        if self.decide(mhas(m.base, kb)):
            v = mget(m.base, kb)
            if m.val_fact:
                f = m.val_fact(v)
                self._once(("vf", v.get_id()), lambda: f)
            return self.unbox(v)
        return self.MISSING

    def map_keys(self, m):
        """Sequence of keys in iteration order, where that is determined; else an enumeration."""
        if m.hole is not None:
            raise Unsupported("loop-carried map iterated")
        if m.base is not None and not m.layers:
            t = m.base
            ks = keysT(t)

            def at(j):
                k = sat_(ks, I(j))
                self.assume(z3.Implies(z3.And(I(j) >= 0, I(j) < slen(ks)), z3.And(mhas(t, k), midx(t, k) == I(j))))
                return self.unbox(k)

            self._once(("slen", ks.get_id()), lambda: slen(ks) >= 0)
            return Seq([Block(slen(ks), at, term=ks, keyof=m)])
        if m.base is None:
            keys = []
            ok = True
            for ly in m.layers:
                if ly[0] == "store":
                    dup = zor(*[self.same(ly[1], k) for k in keys])
                    dup = simp(dup)
                    if dup is True:
                        continue
                    if dup is not False:
                        if self.decide(dup):
                            continue
                    keys.append(ly[1])
                else:
                    ok = False
                    break
            if ok:
                return Seq.of(keys)
            if len(m.layers) == 1 and m.layers[0][0] == "merge":
                return self.map_keys(m.layers[0][1])
            if len(m.layers) == 1 and m.layers[0][0] == "pw" and m.layers[0][1].inv is not None:
                pw = m.layers[0][1]
                return Seq([Filt(pw.n, pw.cond, pw.key)]) if pw.cond(z3.Int("probe!")) is not True else Seq([Block(pw.n, pw.key, keyof=m)])
        # unordered enumeration of the keys
        e = self.fresh("enum")
        n = slen(e)
        self._once(("slen", e.get_id()), lambda: n >= 0)

        def at2(j):
            k = sat_(e, I(j))
            h = self.map_has(m, k)
            self.assume(z3.Implies(z3.And(I(j) >= 0, I(j) < n), z3.And(zb(h), midx(e, k) == I(j))))
            return self.unbox(k)

        self.st.ghost[("enum", e.get_id())] = m
        return Seq([Block(n, at2, term=e, keyof=m)])

    def map_nonempty(self, m):
        if m.base is None and not m.layers and m.hole is None:
            return False
        for ly in m.layers:
            if ly[0] == "store" and not any(x[0] == "del" for x in m.layers):
                return True
        return self.seq_nonempty(self.map_keys(m))

    def keys_inverse(self, m, blk):
        """For a Block enumerating the keys of m: k -> (present condition, index)."""
        def inv(k):
            kb = self.box(k)
            ix = midx(m.base if (m.base is not None and not m.layers) else blk.term, kb) if blk.term is not None else None
            h = self.map_has(m, k)
            if ix is None:
                raise Unsupported("no key inverse")
            self.assume(z3.Implies(zb(h), z3.And(0 <= ix, ix < I(blk.n), sat_(blk.term, ix) == kb)))
            return h, ix
        return inv

    # ------------------------------------------------------------------ sets
    def set_arr(self, s):
        if s.arr is not None:
            return s.arr
        a = z3.EmptySet(V)
        for e in s.elems:
            a = z3.SetAdd(a, self.box(e))
        return a

    def set_has(self, s, x):
        if s.elems is not None:
            return zor(*[self.same(e, x) for e in s.elems])
        return z3.IsMember(self.box(x), s.arr)

    def set_eq(self, a, b):
        return self.set_arr(a) == self.set_arr(b)

    def set_union(self, a, b):
        if a.elems is not None and b.elems is not None:
            return SetV(elems=list(a.elems) + list(b.elems))
        return SetV(arr=z3.SetUnion(self.set_arr(a), self.set_arr(b)))

    # substitution / import of values created in a nested exploration -----------
    def importer(self, st, base_oid, pairs):
        """Maps values of nested state `st` into the current state, substituting indices."""
        memo = {}
        eng = self

        def zsub(e):
            r = z3.substitute(e, *pairs) if pairs else e
            if r is not e:
                eng.keep.append(r)
            ty = st.types.get(e.get_id())
            if ty is not None:
                eng.st.types.setdefault(r.get_id(), ty)
            ub = st.ghost.get(("unboxobj", e.get_id()))
            if ub is not None and ("unboxobj", r.get_id()) not in eng.st.ghost:
                key = ("unbox", e.get_id())
                if key not in memo:
                    memo[key] = True
                    eng.st.ghost[("unboxobj", r.get_id())] = imp(ub)
            return r

        def impseq(s):
            out = []
            for g in s.segs:
                if isinstance(g, One):
                    out.append(One(imp(g.v)))
                elif isinstance(g, Block):
                    out.append(Block(imp(g.n), (lambda at: lambda j: eng.within(st, base_oid, pairs, lambda: at(j)))(g.at),
                                     term=imp(g.term) if g.term is not None else None, keyof=impmap(g.keyof) if g.keyof is not None else None))
                elif isinstance(g, Filt):
                    out.append(Filt(imp(g.n), (lambda k: lambda j: eng.within(st, base_oid, pairs, lambda: k(j)))(g.keep),
                                    (lambda at: lambda j: eng.within(st, base_oid, pairs, lambda: at(j)))(g.at)))
                else:
                    out.append(g)
            return Seq(out)

        def impmap(m):
            lys = []
            for ly in m.layers:
                if ly[0] == "store":
                    lys.append(("store", imp(ly[1]), imp(ly[2])))
                elif ly[0] == "del":
                    lys.append(("del", imp(ly[1])))
                elif ly[0] == "merge":
                    lys.append(("merge", impmap(ly[1])))
                else:
                    pw = ly[1]
                    W = lambda f: (lambda j: eng.within(st, base_oid, pairs, lambda: f(j)))  # noqa: E731
                    lys.append(("pw", PW(imp(pw.n), W(pw.cond), W(pw.key), W(pw.val), W(pw.inv) if pw.inv else None)))
            return Map(imp(m.base) if m.base is not None else None, lys, m.val_fact, m.hole)

        def impset(s):
            return SetV(arr=zsub(s.arr) if s.arr is not None else None, elems=[imp(x) for x in s.elems] if s.elems is not None else None)

        def impref(r):
            if r.oid < base_oid:
                return r
            if r.oid in memo:
                return memo[r.oid]
            oid = eng.st.next_oid
            eng.st.next_oid += 1
            nr = Ref(oid)
            memo[r.oid] = nr
            eng.st.heap[oid] = None
            o = st.heap[r.oid]
            if isinstance(o, ListObj):
                n = ListObj(impseq(o.seq))
            elif isinstance(o, DictObj):
                n = DictObj(impmap(o.map), o.cls, imp(o.default))
            elif isinstance(o, SetObj):
                n = SetObj(impset(o.set), o.frozen)
            elif isinstance(o, Inst):
                n = Inst(imp(o.cls), {k: imp(x) for k, x in o.fields.items()})
            else:
                raise Unsupported(f"import {o!r}")
            eng.st.heap[oid] = n
            if r.oid in st.boxes:
                eng.st.boxes[oid] = zsub(st.boxes[r.oid])
                eng.st.ghost[("unboxobj", eng.st.boxes[oid].get_id())] = nr
            return nr

        def impenv(e):
            if e is None or e.oid < base_oid:
                return e
            k = ("env", e.oid)
            if k in memo:
                return memo[k]
            oid = eng.st.next_oid
            eng.st.next_oid += 1
            ne = Env(oid, None, e.locals)
            memo[k] = ne
            eng.st.heap[oid] = {}
            object.__setattr__(ne, "parent", None) if False else None
            ne.parent = impenv(e.parent)
            eng.st.heap[oid] = {n: imp(v) for n, v in st.heap[e.oid].items()}
            return ne

        def imp(v):
            if v is None or isinstance(v, (bool, int, str, float, bytes)):
                return v
            if is_z(v):
                return zsub(v)
            if isinstance(v, Ref):
                return impref(v)
            if isinstance(v, TupleV):
                return TupleV(impseq(v.seq), v.cls)
            if isinstance(v, Seq):
                return impseq(v)
            if isinstance(v, Map):
                return impmap(v)
            if isinstance(v, SetV):
                return impset(v)
            if isinstance(v, FuncV):
                k = ("fn", id(v))
                if k not in memo:
                    e2 = impenv(v.env)
                    if e2 is v.env and not v.defaults:
                        memo[k] = v
                    else:
                        nf = FuncV(v.node, e2, v.module, v.qual, (), {}, v.cm, v.owner)
                        memo[k] = nf
                        nf.defaults = tuple(imp(d) for d in v.defaults)
                        nf.kwdefaults = {a: imp(d) for a, d in v.kwdefaults.items()}
                    memo[("keep", id(v))] = v
                return memo[k]
            if isinstance(v, BoundV):
                return BoundV(imp(v.func), imp(v.self_))
            if isinstance(v, PartialV):
                return PartialV(imp(v.func), impseq(v.args), impmap(v.kwargs))
            if isinstance(v, CMV):
                return CMV(imp(v.func), impseq(v.args), impmap(v.kwargs))
            if isinstance(v, CMDecorated):
                return CMDecorated(imp(v.cm), imp(v.func))
            if isinstance(v, ViewV):
                return ViewV(v.what, impmap(v.map), imp(v.owner))
            if isinstance(v, GenV):
                th = v.thunk
                return GenV(lambda: eng.within(st, base_oid, pairs, th, seq=True))
            if isinstance(v, SliceV):
                return SliceV(imp(v.lo), imp(v.hi), imp(v.step))
            if isinstance(v, UnionV):
                return UnionV([imp(x) for x in v.items])
            return v

        imp.seq, imp.map, imp.set, imp.env = impseq, impmap, impset, impenv
        return imp

    def within(self, st, base_oid, pairs, thunk, seq=False):
        """Evaluate `thunk`, whose terms live in nested state `st`, for the current index pairs."""
        cur = self.st
        tmp = cur.copy()
        # objects of the nested state are visible while evaluating
        for oid, o in st.heap.items():
            if oid >= base_oid:
                tmp.heap.setdefault(oid, o)
        tmp.heap = {**{o: x for o, x in st.heap.items() if o >= base_oid}, **tmp.heap}
        tmp.ghost = {**st.ghost, **tmp.ghost}
        tmp.types = {**st.types, **tmp.types}
        tmp.next_oid = max(tmp.next_oid, st.next_oid)
        n0 = len(tmp.pc)
        self.st = tmp
        try:
            r = thunk()
        finally:
            self.st = cur
        added = tmp.pc[n0:]
        cur.counter = max(cur.counter, tmp.counter)
        for e, b in added:
            cur.pc.append((z3.substitute(e, *pairs) if pairs else e, b))
            self.keep.append(cur.pc[-1][0])
        return self.importer(tmp, base_oid, pairs)(r)


keysT = z3.Function("keysT", V, V)


def simp_int(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return s
