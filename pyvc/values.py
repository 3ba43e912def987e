"""Value domain of the symbolic executor."""
import z3

V = z3.DeclareSort("V")
SetS = z3.ArraySort(V, z3.BoolSort())

mkInt = z3.Function("mkInt", z3.IntSort(), V)
unInt = z3.Function("unInt", V, z3.IntSort())
mkStr = z3.Function("mkStr", z3.StringSort(), V)
unStr = z3.Function("unStr", V, z3.StringSort())
mkBool = z3.Function("mkBool", z3.BoolSort(), V)
unBool = z3.Function("unBool", V, z3.BoolSort())
kind = z3.Function("kind", V, z3.IntSort())
uid = z3.Function("uid", V, z3.IntSort())
truthyF = z3.Function("truthy", V, z3.BoolSort())
callableF = z3.Function("callable", V, z3.BoolSort())
pyeqF = z3.Function("pyeq", V, V, z3.BoolSort())
typeF = z3.Function("typeof", V, V)
slen = z3.Function("slen", V, z3.IntSort())
sat_ = z3.Function("sat", V, z3.IntSort(), V)
mhas = z3.Function("mhas", V, V, z3.BoolSort())
mget = z3.Function("mget", V, V, V)
mkey = z3.Function("mkey", V, z3.IntSort(), V)
midx = z3.Function("midx", V, V, z3.IntSort())
NONE = z3.Const("None!", V)

K_NONE, K_INT, K_STR, K_BOOL, K_OBJ = 0, 1, 2, 3, 9


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Value:
    """Immutable meta-level value."""


class Seq(Value):
    """Immutable finite sequence: concatenation of segments (not itself a Python value)."""

    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    @staticmethod
    def of(vals):
        return Seq([One(v) for v in vals])

    def concrete(self):
        if all(isinstance(s, One) for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def __add__(self, o):
        return Seq(self.segs + o.segs)

    def __repr__(self):
        return "Seq" + repr(list(self.segs))


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Block:
    """n elements, element j is at(j); term: the V term this block is the view of, if any."""

    __slots__ = ("n", "at", "term", "keyof", "whole")

    def __init__(self, n, at, term=None, keyof=None, whole=None):
        # keyof: for enumerations of a map's keys: (map term) so that keys can be inverted
        self.n, self.at, self.term, self.keyof, self.whole = n, at, term, keyof, whole

    def __repr__(self):
        return f"<Block n={self.n} {self.term if self.term is not None else ''}>"


class Filt:
    """Elements val(j) of those j<n with keep(j) (in order)."""

    __slots__ = ("n", "keep", "at")

    def __init__(self, n, keep, at):
        self.n, self.keep, self.at = n, keep, at

    def __repr__(self):
        return f"<Filt n={self.n}>"


class HoleSeg:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<Hole {self.name}>"


class TupleV(Value):
    __slots__ = ("seq", "cls")

    def __init__(self, seq, cls=None):
        self.seq, self.cls = seq, cls

    def __repr__(self):
        return f"Tuple{self.seq!r}"


def tup(*vals):
    return TupleV(Seq.of(vals))


class Map(Value):
    """Immutable finite map contents: base plus layers, later layers win.

    base: None (empty), or a V term read with mhas/mget.
    layers: ('store', k, v) | ('del', k) | ('merge', Map) | ('pw', PW)
    """

    __slots__ = ("base", "layers", "val_fact", "hole")

    def __init__(self, base=None, layers=(), val_fact=None, hole=None):
        self.base, self.layers, self.val_fact, self.hole = base, tuple(layers), val_fact, hole

    def plus(self, layer):
        return Map(self.base, self.layers + (layer,), self.val_fact, self.hole)

    def __repr__(self):
        return f"Map({self.base},{list(self.layers)})"


class PW:
    """Pointwise layer: for j<n in order, when cond(j): key(j) -> val(j).
    exists(k): None or function giving (z3 condition, index) exactly inverting key."""

    __slots__ = ("n", "cond", "key", "val", "inv")

    def __init__(self, n, cond, key, val, inv=None):
        self.n, self.cond, self.key, self.val, self.inv = n, cond, key, val, inv


class SetV(Value):
    """arr: z3 set of boxed elements; elems: explicit list when finitely known."""

    __slots__ = ("arr", "elems")

    def __init__(self, arr=None, elems=None):
        self.arr, self.elems = arr, elems

    def __repr__(self):
        return f"Set({self.elems if self.elems is not None else self.arr})"


class Ref(Value):
    """Reference to a heap object."""

    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"Ref{self.oid}"


class ListObj:
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f"List{self.seq}"


class DictObj:
    __slots__ = ("map", "cls", "default")

    def __init__(self, map, cls=None, default=None):
        self.map, self.cls, self.default = map, cls, default

    def __repr__(self):
        return f"Dict{self.map}"


class SetObj:
    __slots__ = ("set", "frozen")

    def __init__(self, set, frozen=False):
        self.set, self.frozen = set, frozen

    def __repr__(self):
        return f"SetObj{self.set}"


class Inst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"Inst({self.cls},{self.fields})"


class Env(Value):
    __slots__ = ("oid", "parent", "locals")

    def __init__(self, oid, parent, locals_):
        self.oid, self.parent, self.locals = oid, parent, locals_


class FuncV(Value):
    __slots__ = ("node", "env", "module", "qual", "defaults", "kwdefaults", "cm", "owner", "names")

    def __init__(self, node, env, module, qual, defaults=(), kwdefaults=None, cm=False, owner=None):
        self.node, self.env, self.module, self.qual = node, env, module, qual
        self.defaults, self.kwdefaults, self.cm, self.owner = defaults, kwdefaults or {}, cm, owner

    def __repr__(self):
        return f"<fn {self.qual}>"


class BoundV(Value):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func} of {self.self_}>"


class PartialV(Value):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class CMV(Value):
    """A context manager made by calling a @contextmanager function."""

    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class CMDecorated(Value):
    __slots__ = ("cm", "func")

    def __init__(self, cm, func):
        self.cm, self.func = cm, func


class NativeV(Value):
    """A function implemented by the harness: fn(ctx, args: Seq, kwargs: Map) -> value."""

    __slots__ = ("name", "fn", "key")

    def __init__(self, name, fn, key=None):
        self.name, self.fn, self.key = name, fn, key

    def __repr__(self):
        return f"<native {self.name}>"


class ExtV(Value):
    """Something from outside the repository, by dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return f"<ext {self.path}>"


class ModV(Value):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ClassV(Value):
    """A class of the repository."""

    __slots__ = ("qual", "node", "module", "env")

    def __init__(self, qual, node, module, env=None):
        self.qual, self.node, self.module, self.env = qual, node, module, env

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.qual == self.qual

    def __hash__(self):
        return hash(("cls", self.qual))

    def __repr__(self):
        return f"<class {self.qual}>"


class SuperV(Value):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class GenV(Value):
    """A lazily evaluated generator/iterator: thunk() -> Seq."""

    __slots__ = ("thunk",)

    def __init__(self, thunk):
        self.thunk = thunk


class ViewV(Value):
    """keys/values/items view of a dict-like (contents captured at creation)."""

    __slots__ = ("what", "map", "owner")

    def __init__(self, what, map, owner=None):
        self.what, self.map, self.owner = what, map, owner


class SliceV(Value):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class UnionV(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Poison(Value):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class DispatchV(Value):
    """A singledispatch-style function object of the repository."""

    __slots__ = ("func", "module", "name")

    def __init__(self, func, module, name):
        self.func, self.module, self.name = func, module, name


class PyExc(Exception):
    """A Python exception travelling through the executed program."""

    def __init__(self, val, cause=None):
        self.val, self.cause = val, cause


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Event:
    """An observable call of code outside the verified functions."""

    def __init__(self, what, f, args, kwargs, interp, out=None, extra=None):
        self.what, self.f, self.args, self.kwargs, self.interp, self.out, self.extra = what, f, args, kwargs, interp, out, extra

    ok = property(lambda s: s.out[0] != "exc")
    result = property(lambda s: s.out[1])

    def __repr__(self):
        return f"Event({self.what},{self.f},{self.args},{self.kwargs},->{self.out})"


class State:
    def __init__(self):
        self.heap = {}
        self.next_oid = 1
        self.events = []
        self.pc = []  # (z3 expr, is_branch)
        self.ghost = {}
        self.types = {}  # z3 ast id string -> class value
        self.attrs = {}  # (term key, name) -> value
        self.globals = {}
        self.counter = 0
        self.idx = []
        self.boxes = {}
        self.asked = {}
        self.approx = False

    def copy(self):
        s = State.__new__(State)
        s.heap = self.heap.copy()
        s.next_oid = self.next_oid
        s.events = list(self.events)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.types = dict(self.types)
        s.attrs = dict(self.attrs)
        s.globals = dict(self.globals)
        s.counter = self.counter
        s.idx = list(self.idx)
        s.boxes = dict(self.boxes)
        s.asked = {k: list(v) for k, v in self.asked.items()}
        s.approx = self.approx
        return s
