"""Models of the external (non repository) functions the verified code calls.

Every model used in a run is listed in the evidence (`ext_models_used`): these are the assumed
contracts on Python's built-ins and standard library.  External functions without a model are
treated as opaque: recorded as an event with an arbitrary outcome.
"""
import z3

from .engine import I, is_V, is_boolv, is_int, is_strv, is_z, simp, simp_int, zand, zb, znot, zor
from .objects import EMPTY, NOKW, Objects
from .stmts import GenComp
from .values import *  # noqa: F403

NATIVES = {}


def model(*paths):
    def d(f):
        for p in paths:
            NATIVES[p] = f
        return f
    return d


def conc(args):
    c = args.concrete()
    if c is None:
        raise Unsupported("symbolic argument list of a built-in")
    return c


def kw(ctx, kwargs, name, default=None):
    if ctx.trivially_empty(kwargs):
        return default
    v = ctx.map_get(kwargs, name)
    return default if v is ctx.MISSING else v


@model("builtins.len")
def _len(ctx, args, kwargs):
    (x,) = conc(args)
    x = ctx.unbox(x)
    if isinstance(x, str):
        return len(x)
    if isinstance(x, TupleV):
        return ctx.seq_len(x.seq)
    if isinstance(x, ViewV):
        return ctx.seq_len(ctx.map_keys(x.map))
    if isinstance(x, Ref):
        o = ctx.obj(x)
        if isinstance(o, ListObj):
            return ctx.seq_len(o.seq)
        if isinstance(o, DictObj):
            return ctx.seq_len(ctx.map_keys(o.map))
        if isinstance(o, SetObj):
            return ctx.seq_len(ctx.set_seq(o.set))
        if isinstance(o, Inst) and isinstance(o.cls, ClassV):
            m = ctx.class_attr(o.cls, "__len__")
            if m is not None:
                return ctx.call(ctx.bind(m, x, o.cls), EMPTY, NOKW)
    if is_V(x):
        m = ctx.V_map(x)
        if m is not None:
            return ctx.seq_len(ctx.map_keys(m))
        sq = ctx.st.ghost.get(("vseq", x.get_id()))
        if sq is not None:
            return ctx.seq_len(sq)
        return ctx.seq_len(ctx.sym_seq(x))
    if is_strv(x):
        return z3.Length(x)
    raise Unsupported(f"len of {x!r}")


@model("builtins.isinstance")
def _isinstance(ctx, args, kwargs):
    a, c = conc(args)
    return ctx.isinst(a, c)


@model("builtins.issubclass")
def _issubclass(ctx, args, kwargs):
    a, c = conc(args)
    a = ctx.unbox(a)
    if isinstance(c, (TupleV, UnionV)):
        cs = c.seq.concrete() if isinstance(c, TupleV) else c.items
        return zor(*[_issubclass(ctx, Seq.of([a, x]), NOKW) for x in cs])
    if isinstance(a, (ClassV, ExtV)) and isinstance(c, (ClassV, ExtV)):
        return ctx.is_sub(a, c)
    if is_V(a):
        subj = ctx.st.ghost.get(("typeof_subject", a.get_id()))
        if subj is not None:
            return ctx.isinst(subj, c)
        return z3.Function("sub:" + (getattr(c, "qual", None) or getattr(c, "path", None) or "dyn"), V, z3.BoolSort())(a) if isinstance(c, (ClassV, ExtV)) else z3.Function("subdyn", V, V, z3.BoolSort())(a, ctx.box(c))
    raise Unsupported("issubclass")


@model("builtins.type")
def _type(ctx, args, kwargs):
    c = conc(args)
    if len(c) != 1:
        raise Unsupported("type() with 3 arguments")
    return ctx.type_value(c[0])


@model("builtins.tuple")
def _tuple(ctx, args, kwargs):
    c = conc(args)
    return TupleV(ctx.iter_seq(c[0]) if c else Seq())


@model("builtins.list")
def _list(ctx, args, kwargs):
    c = conc(args)
    return ctx.new_list(ctx.iter_seq(c[0]) if c else Seq())


@model("builtins.set", "builtins.frozenset")
def _set(ctx, args, kwargs, frozen=False):
    c = conc(args)
    return ctx.new_set(ctx.set_of(c[0]) if c else SetV(elems=[]), frozen)


NATIVES["builtins.frozenset"] = lambda ctx, a, k: _set(ctx, a, k, True)


@model("builtins.dict", "collections.OrderedDict")
def _dict(ctx, args, kwargs):
    c = conc(args)
    m = ctx.map_of(c[0]) if c else Map()
    if not ctx.trivially_empty(kwargs):
        m = m.plus(("merge", kwargs)) if not ctx.trivially_empty(m) else kwargs
    return ctx.new_dict(m)


@model("collections.defaultdict")
def _defaultdict(ctx, args, kwargs):
    c = conc(args)
    m = ctx.map_of(c[1]) if len(c) > 1 else Map()
    return ctx.alloc(DictObj(m, ExtV("collections.defaultdict"), c[0] if c else None))


@model("types.MappingProxyType")
def _mpt(ctx, args, kwargs):
    (x,) = conc(args)
    return ctx.alloc(DictObj(ctx.map_of(x), ExtV("types.MappingProxyType")))


def zip_seqs(ctx, seqs):
    cs = [s.concrete() for s in seqs]
    if all(c is not None for c in cs):
        return Seq.of([tup(*t) for t in zip(*cs)])
    lens = [ctx.seq_len(s) for s in seqs]
    n = simp_int(I(lens[0]))
    for m in lens[1:]:
        m = simp_int(I(m))
        if (isinstance(m, int) and isinstance(n, int)):
            n = min(m, n)
        elif is_z(m) and is_z(n) and m.eq(n):
            pass
        elif ctx.decide(I(m) == I(n)):
            n = n if isinstance(n, int) else m
        else:
            n = n if ctx.decide(I(n) < I(m)) else m
    if isinstance(n, int) and n <= 64:
        return Seq.of([tup(*[ctx.seq_at(s, j) for s in seqs]) for j in range(n)])
    return Seq([Block(n, lambda j: tup(*[ctx.seq_at(s, j) for s in seqs]))])


@model("builtins.zip")
def _zip(ctx, args, kwargs):
    seqs = [ctx.iter_seq(x) for x in conc(args)]
    if not seqs:
        return GenV(lambda: Seq())
    if not ctx.trivially_empty(kwargs) and ctx.truth(kw(ctx, kwargs, "strict", False)):
        lens = [I(ctx.seq_len(s)) for s in seqs]
        if not ctx.decide(zand(*[simp(x == lens[0]) for x in lens[1:]])):
            ctx.throw("ValueError", "zip() arguments differ in length")
    r = zip_seqs(ctx, seqs)
    return GenV(lambda: r)


@model("builtins.enumerate")
def _enumerate(ctx, args, kwargs):
    c = conc(args)
    st = c[1] if len(c) > 1 else kw(ctx, kwargs, "start", 0)
    s = ctx.iter_seq(c[0])
    cc = s.concrete()
    if cc is not None:
        r = Seq.of([tup(simp_int(I(st) + k), x) for k, x in enumerate(cc)])
    else:
        b = ctx.as_block(s)
        r = Seq([Block(b.n, lambda j: tup(simp_int(I(st) + I(j)), b.at(j)))])
    return GenV(lambda: r)


def seq_map(ctx, seq, f):
    """[f(x) for x in seq]"""
    acc = ctx.new_list(Seq())

    def body(x):
        v = f(x)
        ctx.st.heap[acc.oid] = ListObj(ctx.obj(acc).seq + Seq([One(v)]))

    ctx.foreach(seq, body)
    return ctx.obj(acc).seq


@model("builtins.map")
def _map(ctx, args, kwargs):
    c = conc(args)
    f, its = c[0], c[1:]
    if len(its) == 1:
        return GenV(lambda: seq_map(ctx, ctx.iter_seq(its[0]), lambda x: ctx.call(f, Seq.of([x]), NOKW)))
    return GenV(lambda: seq_map(ctx, zip_seqs(ctx, [ctx.iter_seq(x) for x in its]), lambda x: ctx.call(f, x.seq, NOKW)))


@model("builtins.filter")
def _filter(ctx, args, kwargs):
    f, it = conc(args)

    def th():
        acc = ctx.new_list(Seq())

        def body(x):
            t = ctx.truth(x if f is None else ctx.call(f, Seq.of([x]), NOKW))
            if t:
                ctx.st.heap[acc.oid] = ListObj(ctx.obj(acc).seq + Seq([One(x)]))
        ctx.foreach(ctx.iter_seq(it), body)
        return ctx.obj(acc).seq
    return GenV(th)


@model("builtins.range")
def _range(ctx, args, kwargs):
    c = [unInt(x) if is_V(x) else x for x in conc(args)]
    lo, hi, st = (0, c[0], 1) if len(c) == 1 else (c[0], c[1], c[2] if len(c) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return TupleV(Seq.of(list(range(lo, hi, st))), ExtV("builtins.range"))
    if st == 1:
        n = simp_int(z3.If(I(hi) > I(lo), I(hi) - I(lo), z3.IntVal(0)))
        return TupleV(Seq([Block(n, lambda j: simp_int(I(lo) + I(j)))]), ExtV("builtins.range"))
    raise Unsupported("range with symbolic step")


def anyall(ctx, x, want):
    """want=True: any; want=False: all (looks for a falsy element)"""
    def fn(v):
        if ctx.truth(v) == want:
            raise Brk()
    if isinstance(x, GenComp):
        return x.loop(fn)
    return ctx.foreach(ctx.iter_seq(x), fn)


@model("builtins.any")
def _any(ctx, args, kwargs):
    return anyall(ctx, conc(args)[0], True)


@model("builtins.all")
def _all(ctx, args, kwargs):
    return not anyall(ctx, conc(args)[0], False)


@model("builtins.sum")
def _sum(ctx, args, kwargs):
    c = conc(args)
    s = ctx.iter_seq(c[0])
    cc = s.concrete()
    if cc is None:
        raise Unsupported("sum of symbolic sequence")
    acc = c[1] if len(c) > 1 else kw(ctx, kwargs, "start", 0)
    for x in cc:
        acc = ctx.binop("Add", acc, x)
    return acc


@model("builtins.max")
def _max(ctx, args, kwargs, op="GtE"):
    c = conc(args)
    cc = ctx.iter_seq(c[0]).concrete() if len(c) == 1 else c
    if cc is None or not ctx.trivially_empty(kwargs):
        raise Unsupported("max of symbolic sequence")
    if not cc:
        ctx.throw("ValueError", "empty")
    r = cc[0]
    for x in cc[1:]:
        if not (is_int(x) and is_int(r)):
            raise Unsupported("max of non integers")
        if isinstance(x, int) and isinstance(r, int):
            r = max(x, r) if op == "GtE" else min(x, r)
        else:
            r = simp_int(z3.If(I(r) >= I(x) if op == "GtE" else I(r) <= I(x), I(r), I(x)))
    return r


NATIVES["builtins.min"] = lambda ctx, a, k: _max(ctx, a, k, "LtE")


@model("builtins.getattr")
def _getattr(ctx, args, kwargs):
    c = conc(args)
    if not isinstance(c[1], str):
        if is_strv(c[1]) or is_V(c[1]):
            return ctx.app("getattr", c[0], c[1])
        raise Unsupported("getattr with symbolic name")
    if len(c) > 2:
        return ctx.getattr(c[0], c[1], c[2])
    return ctx.getattr(c[0], c[1])


@model("builtins.hasattr")
def _hasattr(ctx, args, kwargs):
    o, n = conc(args)
    if not isinstance(n, str):
        return z3.Function("hasattrdyn", V, V, z3.BoolSort())(ctx.box(o), ctx.box(n))
    o = ctx.unbox(o)
    if n == "__dict__" and (o is None or isinstance(o, (bool, int, float, str, bytes, TupleV)) or is_int(o) or is_strv(o) or is_boolv(o)):
        return False
    if is_V(o):
        if (o.get_id(), n) in ctx.st.attrs:
            return True
        ty = ctx.type_of_term(o)
        if isinstance(ty, ClassV) and ctx.class_attr(ty, n) is not None:
            return True
        if ty is not None:
            rc = ctx.real_class(ty)
            if rc is not None and hasattr(rc, n):
                return True
        return z3.Function("hasattr:" + n, V, z3.BoolSort())(o)
    try:
        r = ctx.getattr(o, n, ctx.MISSING_ATTR)
    except PyExc:
        return False
    return r is not ctx.MISSING_ATTR


@model("builtins.setattr")
def _setattr(ctx, args, kwargs):
    o, n, v = conc(args)
    if not isinstance(n, str):
        ctx.st.events.append(Event("setattr", o, Seq.of([n, v]), NOKW, None))
        return None
    ctx.setattr(o, n, v)


@model("builtins.callable")
def _callable(ctx, args, kwargs):
    (x,) = conc(args)
    x = ctx.unbox(x)
    if isinstance(x, (FuncV, NativeV, BoundV, PartialV, CMDecorated, ClassV, DispatchV)):
        return True
    if is_V(x):
        ty = ctx.type_of_term(x)
        if isinstance(ty, ClassV):
            return ctx.class_attr(ty, "__call__") is not None
        return callableF(x)
    if isinstance(x, Ref) and isinstance(ctx.obj(x), Inst) and isinstance(ctx.obj(x).cls, ClassV):
        return ctx.class_attr(ctx.obj(x).cls, "__call__") is not None
    if isinstance(x, ExtV):
        return callableF(ctx.box(x))
    return False


@model("builtins.id", "builtins.hash")
def _id(ctx, args, kwargs):
    (x,) = conc(args)
    return z3.Function("id", V, z3.IntSort())(ctx.box(x))


NATIVES["builtins.hash"] = lambda ctx, a, k: z3.Function("hash", V, z3.IntSort())(ctx.box(conc(a)[0]))


@model("builtins.iter")
def _iter(ctx, args, kwargs):
    (x,) = conc(args)
    s = ctx.iter_seq(x)
    return ctx.alloc(Inst(ExtV("iterator!"), {"seq": s, "pos": 0}))


@model("builtins.next")
def _next(ctx, args, kwargs):
    c = conc(args)
    it = ctx.unbox(c[0])
    if isinstance(it, Ref) and isinstance(ctx.obj(it), Inst) and ctx.obj(it).cls == ExtV("iterator!"):
        o = ctx.obj(it)
        n = ctx.seq_len(o.fields["seq"])
        p = o.fields["pos"]
        if ctx.decide(I(p) < I(n)):
            ctx.st.heap[it.oid] = Inst(o.cls, {**o.fields, "pos": simp_int(I(p) + 1)})
            return ctx.seq_at(o.fields["seq"], p)
        if len(c) > 1:
            return c[1]
        ctx.throw("StopIteration")
    if isinstance(it, GenV):
        found = []

        def fn(v):
            found.append(v)
            raise Brk()
        if isinstance(it, GenComp):
            if it.loop(fn):
                return found[-1] if len(found) == 1 else Unsupported
        s = ctx.iter_seq(it)
        if ctx.decide(ctx.seq_nonempty(s)):
            return ctx.seq_at(s, 0)
        if len(c) > 1:
            return c[1]
        ctx.throw("StopIteration")
    raise Unsupported("next")


def to_str(ctx, x, conv=-1):
    x = ctx.unbox(x)
    if is_strv(x) and conv == -1:
        return x
    if isinstance(x, (str, int, float, type(None))) and not is_z(x):
        return str(x) if conv == -1 else repr(x)
    if isinstance(x, Ref) and isinstance(ctx.obj(x), Inst) and isinstance(ctx.obj(x).cls, ClassV):
        for nm in (("__str__", "__repr__") if conv == -1 else ("__repr__",)):
            m = ctx.class_attr(ctx.obj(x).cls, nm)
            if m is not None:
                return ctx.call(ctx.bind(m, x, ctx.obj(x).cls), EMPTY, NOKW)
    return z3.Function(f"fmt!{conv}!", V, z3.StringSort())(ctx.box(x))


@model("builtins.str")
def _str(ctx, args, kwargs):
    c = conc(args)
    return to_str(ctx, c[0]) if c else ""


@model("builtins.repr")
def _repr(ctx, args, kwargs):
    return to_str(ctx, conc(args)[0], 114)


@model("builtins.bool")
def _bool(ctx, args, kwargs):
    c = conc(args)
    return ctx.truth_f(c[0]) if c else False


@model("builtins.int")
def _int(ctx, args, kwargs):
    c = conc(args)
    if not c:
        return 0
    if is_int(c[0]):
        return c[0]
    if isinstance(c[0], (float, bool)):
        return int(c[0])
    if is_V(c[0]) and ctx.known_int(c[0]):
        return c[0]
    return ctx.app("builtins.int", *c)


@model("builtins.reversed")
def _reversed(ctx, args, kwargs):
    s = ctx.iter_seq(conc(args)[0])
    r = ctx.seq_slice(s, SliceV(None, None, -1))
    return GenV(lambda: r)


@model("builtins.sorted")
def _sorted(ctx, args, kwargs):
    s = ctx.iter_seq(conc(args)[0])
    cc = s.concrete()
    if cc is not None and ctx.trivially_empty(kwargs) and (all(isinstance(x, int) for x in cc) or all(isinstance(x, str) for x in cc)):
        return ctx.new_list(Seq.of(sorted(cc)))
    raise Unsupported("sorted of symbolic values")


@model("builtins.slice")
def _slice(ctx, args, kwargs):
    c = conc(args)
    if len(c) == 1:
        return SliceV(None, c[0], None)
    return SliceV(c[0], c[1], c[2] if len(c) > 2 else None)


@model("builtins.object")
def _object(ctx, args, kwargs):
    return ctx.alloc(Inst(ExtV("builtins.object"), {}))


@model("builtins.print")
def _print(ctx, args, kwargs):
    ctx.st.events.append(Event("print", ExtV("builtins.print"), args, kwargs, None))
    return None


for _n in ("property", "staticmethod", "classmethod"):
    NATIVES["builtins." + _n] = (lambda n: lambda ctx, a, k: BoundV(ExtV("builtins." + n), conc(a)[0]))(_n)


# ------------------------------------------------------------------ functools
@model("functools.partial")
def _partial(ctx, args, kwargs):
    g = args.segs[0]
    f = g.v
    rest = Seq(args.segs[1:])
    f2 = ctx.unbox(f)
    if isinstance(f2, PartialV):
        return PartialV(f2.func, f2.args + rest, f2.kwargs.plus(("merge", kwargs)) if not ctx.trivially_empty(kwargs) else f2.kwargs)
    return PartialV(f, rest, kwargs)


@model("functools.wraps")
def _wraps(ctx, args, kwargs):
    return NativeV("wraps", lambda c, a, k: conc(a)[0])


@model("functools.update_wrapper")
def _update_wrapper(ctx, args, kwargs):
    c = conc(args)
    o = ctx.unbox(c[0])
    if isinstance(o, Ref) and isinstance(ctx.obj(o), Inst):
        h = ctx.obj(o)
        nm = ctx.getattr(c[1], "__name__")
        ctx.st.heap[o.oid] = Inst(h.cls, {**h.fields, "__wrapped__": c[1], "__name__": nm})
    return c[0]


@model("functools.reduce")
def _reduce(ctx, args, kwargs):
    c = conc(args)
    cc = ctx.iter_seq(c[1]).concrete()
    if cc is None:
        raise Unsupported("reduce over a symbolic sequence")
    if len(c) > 2:
        acc = c[2]
    else:
        if not cc:
            ctx.throw("TypeError", "reduce of empty")
        acc, cc = cc[0], cc[1:]
    for x in cc:
        acc = ctx.call(c[0], Seq.of([acc, x]), NOKW)
    return acc


# ------------------------------------------------------------------ dataclasses
@model("dataclasses.is_dataclass")
def _is_dataclass(ctx, args, kwargs):
    (x,) = conc(args)
    x = ctx.unbox(x)
    if isinstance(x, Ref):
        o = ctx.obj(x)
        return ctx.is_dataclass(o.cls) if isinstance(o, Inst) else False
    if isinstance(x, ClassV):
        return ctx.is_dataclass(x)
    if is_V(x):
        ty = ctx.type_of_term(x)
        if ty is not None and isinstance(ty, ExtV) and ctx.real_class(ty) is not None:
            return False
        b = z3.Function("is_dataclass", V, z3.BoolSort())(x)
        return b
    return False


@model("dataclasses.fields")
def _fields(ctx, args, kwargs):
    (x,) = conc(args)
    x = ctx.unbox(x)
    if is_V(x):
        t = z3.Function("dataclasses.fields", V, V)(ctx.box(typeF(x)))
        ctx.keep.append(t)
        return TupleV(ctx.sym_seq(t))
    if isinstance(x, Ref) and isinstance(ctx.obj(x), Inst):
        return TupleV(Seq.of([ctx.alloc(Inst(ExtV("dataclasses.Field"), {"name": f[0]})) for f in ctx.dataclass_fields(ctx.obj(x).cls)]))
    raise Unsupported("dataclasses.fields")


@model("dataclasses.replace")
def _replace(ctx, args, kwargs):
    (x,) = conc(args)
    x = ctx.unbox(x)
    if isinstance(x, Ref) and isinstance(ctx.obj(x), Inst):
        o = ctx.obj(x)
        f = dict(o.fields)
        m = kwargs
        if not (m.base is None and all(ly[0] == "store" for ly in m.layers)):
            raise Unsupported("replace with symbolic fields")
        for _, k, v in m.layers:
            f[k] = v
        return ctx.alloc(Inst(o.cls, f))
    return ctx.opaque(ExtV("dataclasses.replace"), args, kwargs, what="ext")


@model("dataclasses.field")
def _field(ctx, args, kwargs):
    raise Unsupported("dataclasses.field")


# ------------------------------------------------------------------ inspect / typing
def param_names(node, drop):
    a = node.args
    n = [p.arg for p in a.posonlyargs + a.args][drop:]
    return n + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])


@model("inspect.signature")
def _signature(ctx, args, kwargs):
    f = ctx.unbox(conc(args)[0])
    g, drop = f, 0
    while True:
        if isinstance(g, BoundV) and not isinstance(g.func, (str, ExtV)):
            if not isinstance(g.func, FuncV):
                break
            g, drop = g.func, drop + 1
        elif isinstance(g, CMDecorated):
            g = ctx.unbox(g.func)
        else:
            break
    if isinstance(g, FuncV):
        w = ctx.wrapped_of(g)
        if w is not None:
            return _signature(ctx, Seq.of([w]), NOKW)
        names = param_names(g.node, drop)
        return ctx.alloc(Inst(ExtV("inspect.Signature"), {"parameters": ctx.new_dict(Map(None, [("store", n, ctx.app("param:" + n, g)) for n in names])),
                                                          "of": f}))
    return ctx.app("inspect.signature", f)


@model("typing.cast")
def _cast(ctx, args, kwargs):
    return conc(args)[1]


@model("types.MethodType")
def _methodtype(ctx, args, kwargs):
    f, i = conc(args)
    return BoundV(f, i)


@model("itertools.chain")
def _chain(ctx, args, kwargs):
    segs = []
    for x in conc(args):
        segs.extend(ctx.iter_seq(x).segs)
    r = Seq(segs)
    return GenV(lambda: r)


OPERATOR = {"add": "Add", "sub": "Sub", "mul": "Mult", "or_": "BitOr", "and_": "BitAnd", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow",
            "xor": "BitXor", "lshift": "LShift", "rshift": "RShift", "matmul": "MatMult"}
for _n, _o in OPERATOR.items():
    NATIVES["operator." + _n] = (lambda o: lambda ctx, a, k: ctx.binop(o, *conc(a)))(_o)


@model("operator.getitem")
def _opgetitem(ctx, args, kwargs):
    return ctx.getitem(*conc(args))


@model("contextlib.nullcontext")
def _nullcontext(ctx, args, kwargs):
    c = conc(args)

    def run(ctx_, body):
        body(c[0] if c else None)
    return NativeV("nullcontext", run)


class PyVC(Objects):
    MISSING_ATTR = object()

    def wrapped_of(self, f):
        """functools.wraps(target) on a local function: the wrapped function (for its signature)."""
        import ast
        for d in getattr(f.node, "decorator_list", []):
            if isinstance(d, ast.Call) and self.dec_name(d.func, f.env, f.module) == "functools.wraps":
                return self.ev(d.args[0], f.env, f.module)
        return None

    def call_ext(self, f, args, kwargs):
        p = f.path
        fn = self.natives.get(p)
        if fn is not None:
            self.ext_used.add(p)
            return fn(self, args, kwargs)
        rc = self.real_class(f)
        if rc is not None and issubclass(rc, BaseException):
            return self.alloc(Inst(f, {"args": TupleV(args)}))
        for pre in self.pure_prefixes:
            if p.startswith(pre):
                self.ext_used.add(p + " (pure, uninterpreted)")
                return self.pure_app(p, args, kwargs)
        self.ext_used.add(p + " (opaque)")
        return self.opaque(f, args, kwargs, what="ext")

    def pure_app(self, name, args, kwargs):
        c = args.concrete()
        vals = [self.box_deep(x) for x in c] if c is not None else [self.box_deep(TupleV(args))]
        ks = []
        if not self.trivially_empty(kwargs):
            if kwargs.base is None and all(ly[0] == "store" and isinstance(ly[1], str) for ly in kwargs.layers):
                final = {}
                for _, k, v in kwargs.layers:
                    final[k] = v
                for k in sorted(final):
                    ks.append(k)
                    vals.append(self.box_deep(final[k]))
            else:
                raise Unsupported("pure call with symbolic keywords")
        nm = name + (("{" + ",".join(ks) + "}") if ks else "") + (f"/{len(vals)}" if c is not None else "/seq")
        if not vals:
            return z3.Const(nm, V)
        t = z3.Function(nm, *[V for _ in vals], V)(*vals)
        self.keep.append(t)
        return t

    def box_deep(self, v):
        """Box by structure: containers of known shape become constructor terms."""
        v = self.unbox(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                c = o.seq.concrete()
                if c is not None:
                    return z3.Function(f"list{len(c)}", *[V for _ in c], V)(*[self.box_deep(x) for x in c]) if c else self.global_const("[]")
                if self.seq_term(o.seq) is not None:
                    return z3.Function("listof", V, V)(self.seq_term(o.seq))
        if isinstance(v, GenV):
            return self.box_deep(TupleV(v.thunk()))
        if isinstance(v, TupleV):
            c = v.seq.concrete()
            if c is not None and c:
                return z3.Function(f"tuple{len(c)}", *[V for _ in c], V)(*[self.box_deep(x) for x in c])
        if isinstance(v, SliceV):
            return z3.Function("slice", V, V, V, V)(*[self.box_deep(x) for x in (v.lo, v.hi, v.step)])
        return self.box(v)


def install(engine):
    engine.natives.update(NATIVES)


def _fresh_object(self, t):
    """t was just created: different from every object known so far."""
    n = self.st.ghost.get("freshcount", 0) + 1
    self.st.ghost["freshcount"] = n
    self.keep.append(t)
    self.assume(kind(t) == K_OBJ)
    if self.st.idx:
        # distinct per iteration as well: uid is injective in the indices
        self.assume(uid(t) == self.fresh_uid_term(n))
    else:
        self.assume(uid(t) == 2 * 10**6 + n)


def _fresh_uid_term(self, n):
    f = z3.Function(f"freshuid{n}", *[z3.IntSort() for _ in self.st.idx], z3.IntSort())
    ix = [z3.Int(self.freshname("u")) for _ in self.st.idx]
    iy = [z3.Int(self.freshname("u")) for _ in self.st.idx]
    self._once(("freshuid", n), lambda: z3.And(
        z3.ForAll(ix + iy, z3.Implies(f(*ix) == f(*iy), z3.And(*[a == b for a, b in zip(ix, iy)]))),
        z3.ForAll(ix, z3.And(f(*ix) > 3 * 10**6, f(*ix) % 1000 == n % 1000))))
    return f(*self.st.idx)


PyVC.fresh_object = _fresh_object
PyVC.fresh_uid_term = _fresh_uid_term


@model("builtins.vars")
def _vars(ctx, args, kwargs):
    (x,) = conc(args)
    return ctx.getattr(x, "__dict__")
