from rt.core import *  # noqa: F403


class Lang:
    """Operations with signatures over a small type language, and type-directed expressions over them."""

    def __init__(self, log):
        import dataclasses
        import typing
        from collections.abc import Callable, Iterable, Mapping, Sequence
        from typing import Annotated, Literal
        from effectful.ops.syntax import defop
        from effectful.ops.types import NotHandled

        def no(*a):
            log.append("default ran")
            raise NotHandled

        @dataclasses.dataclass
        class A:
            a: int

        @dataclasses.dataclass
        class B(A):
            b: str

        @dataclasses.dataclass
        class C:
            c: A
        self.A, self.B, self.C = A, B, C
        self.base = [int, bool, str, float, complex, type(None), A, C, bytes]
        self.konst = {}

        def konst(t, anno):
            def k() -> anno:
                no()
            self.konst.setdefault(t, []).append(defop(k))
        for t in self.base:
            konst(t, t)
        konst(B, B)
        konst(type(None), None)
        konst(int, Annotated[int, "meta"])
        self._konst = konst

        @defop
        def ident[T](x: T) -> T:
            no()

        @defop
        def pick[T](c: bool, a: T, b: T) -> T:
            no()

        @defop
        def second[S, T](a: S, b: T) -> T:
            no()

        @defop
        def kwlast[S, T](*, a: S, b: T) -> T:
            no()

        @defop
        def varargs[T](*xs: T) -> T:
            no()

        @defop
        def varkw[T](**xs: T) -> T:
            no()

        @defop
        def mk[T](x: T) -> list[T]:
            no()

        @defop
        def hd[T](xs: list[T]) -> T:
            no()

        @defop
        def hdseq[T](xs: Sequence[T]) -> T:
            no()

        @defop
        def hditer[T](xs: Iterable[T]) -> T:
            no()

        @defop
        def pair[S, T](a: S, b: T) -> tuple[S, T]:
            no()

        @defop
        def fst[S, T](p: tuple[S, T]) -> S:
            no()

        @defop
        def snd[S, T](p: tuple[S, T]) -> Annotated[T, "second"]:
            no()

        @defop
        def lookup[K, V](m: Mapping[K, V], k: K) -> V:
            no()

        @defop
        def app[S, T](f: Callable[[S], T], x: S) -> T:
            no()

        @defop
        def compose[R, S, T](f: Callable[[S], T], g: Callable[[R], S]) -> Callable[[R], T]:
            no()

        @defop
        def dflt[T](x: T, y: int = 3) -> T:
            no()

        @defop
        def plain(x: int):
            no()

        @defop
        def plain2[T](x: T, y: "int") -> "str":
            no()
        for n, v in list(locals().items()):
            if n not in ("self", "log", "konst"):
                setattr(self, n, v)

    def const(self, t):
        from collections.abc import Callable
        if t not in self.konst:
            r = lambda t: t if not isinstance(t, tuple) else {"list": lambda: list[r(t[1])], "tuple": lambda: tuple[r(t[1]), r(t[2])], "dict": lambda: dict[r(t[1]), r(t[2])], "fn": lambda: Callable[[r(t[1])], r(t[2])]}[t[0]]()  # noqa: E731
            self._konst(t, r(t))
        return self.konst[t]

    def rtype(self, rng, d):
        if d == 0 or rng.random() < .6:
            return rng.choice(self.base)
        k = rng.choice(["list", "tuple", "dict", "fn"])
        if k == "list":
            return ("list", self.rtype(rng, d - 1))
        if k == "dict":
            return ("dict", rng.choice([str, int]), self.rtype(rng, d - 1))
        return (k, self.rtype(rng, d - 1), self.rtype(rng, d - 1))

    def value(self, rng, t, d):
        g = lambda u: self.gen(rng, u, d - 1)  # noqa: E731
        if isinstance(t, tuple):
            import collections
            if t[0] == "list":
                # elements of a compound type may be typed list or MutableSequence: only one of them
                return [g(t[1]) for _ in range(1 if isinstance(t[1], tuple) else rng.randrange(1, 4))]
            if t[0] == "tuple":
                r = (g(t[1]), g(t[2]))
                return collections.namedtuple("NTx", "p q")(*r) if rng.random() < .3 else r
            if t[0] == "dict":
                n = 1 if isinstance(t[2], tuple) else rng.randrange(1, 3)
                return {k: g(t[2]) for k in (rng.sample("abcd", n) if t[1] is str else rng.sample(range(5), n))}
            return None
        if t is self.A:
            return self.A(g(int))
        if t is self.B:
            return self.B(g(int), g(str))
        if t is self.C:
            return self.C(g(self.A))
        return {int: 4, bool: True, str: "s", float: .5, complex: 1j, bytes: b"b"}.get(t)

    def gen(self, rng, t, d):
        """A real expression of type t."""
        g = lambda u: self.gen(rng, u, d - 1)  # noqa: E731
        r = lambda: self.rtype(rng, 1)  # noqa: E731
        k = rng.randrange(20)
        if d <= 0 or k < 2 or k > 17:
            v = self.value(rng, t, max(d, 0)) if rng.random() < .5 else None
            return v if v is not None or (t is type(None) and rng.random() < .3) else rng.choice(self.const(t))()
        if k == 2:
            return self.ident(g(t))
        if k == 3:
            return self.pick(g(bool), g(t), g(t))
        if k == 4:
            return self.second(g(r()), g(t))
        if k == 5:
            return self.kwlast(a=g(r()), b=g(t)) if rng.random() < .5 else self.kwlast(b=g(t), a=g(r()))
        if k == 6:
            return self.varargs(*[g(t) for _ in range(rng.randrange(1, 3))])
        if k == 7:
            return self.varkw(**{n: g(t) for n in rng.sample("xyz", rng.randrange(1, 3))})
        if k == 8 and isinstance(t, tuple) and t[0] == "list":
            return self.mk(g(t[1]))
        if k == 9 and isinstance(t, tuple) and t[0] == "tuple":
            return self.pair(g(t[1]), g(t[2]))
        if k == 10:
            return rng.choice([self.hd, self.hdseq, self.hditer])(g(("list", t)))
        if k == 11:
            return self.fst(g(("tuple", t, r())))
        if k == 12:
            return self.snd(g(("tuple", r(), t)))
        if k == 13:
            kt = rng.choice([str, int])
            return self.lookup(g(("dict", kt, t)), g(kt))
        if k == 14:
            s = r()
            return self.app(g(("fn", s, t)), g(s))
        if k == 15 and isinstance(t, tuple) and t[0] == "fn":
            m = r()
            return self.compose(g(("fn", m, t[2])), g(("fn", t[1], m)))
        if k == 16:
            return self.dflt(g(t)) if rng.random() < .5 else self.dflt(g(t), g(int))
        if k == 17 and t is str:
            return self.plain2(g(r()), g(int))
        return self.ident(g(t))

    def simple(self, t):
        import collections.abc as c
        if isinstance(t, tuple):
            return {"list": c.MutableSequence, "tuple": tuple, "dict": c.MutableMapping, "fn": c.Callable}[t[0]]
        return t


def canon(t):
    import collections.abc as c
    if isinstance(t, type) and issubclass(t, tuple):
        return tuple
    return {list: c.MutableSequence, dict: c.MutableMapping, set: c.MutableSet, frozenset: c.Set}.get(t, t)


def term_class(lang, t):
    """The class registered for the type (a dataclass term is an instance of that very dataclass)."""
    import effectful.ops.syntax as S
    import collections.abc as c
    for ty, cls in [(int, S._IntegralTerm), (bool, S._BoolTerm), (float, S._RealTerm), (complex, S._ComplexTerm), (str, S._IterableTerm), (bytes, S._IterableTerm),
                    (type(None), S._BaseTerm), (c.MutableSequence, S._IterableTerm), (tuple, S._IterableTerm), (c.MutableMapping, S._IterableTerm), (c.Callable, S._CallableTerm)]:
        if t is ty:
            return cls
    return None


@contract("C15", "typeof", ["effectful.ops.semantics.typeof", "effectful.ops.types.Operation.__type_rule__", "effectful.internals.unification.nested_type", "effectful.internals.unification.unify", "effectful.ops.syntax.defdata"],
          "type-directed random expressions (generics, keyword, variadic, default and higher-order parameters, container values): typeof is the type they were built at, and terms are of the class registered for it; non-trivial: a generic operation")
def typeof_(t):
    from effectful.internals.runtime import get_interpretation
    from effectful.ops.semantics import apply, handler, typeof
    from effectful.ops.types import Term
    import dataclasses
    log = []
    lang = Lang(log)
    for k, rng in t.each(t.n(500, 8000)):
        def go(rng=rng):
            ty = lang.rtype(rng, 2)
            e = lang.gen(rng, ty, rng.choice([1, 2, 3]))
            want = lang.simple(ty)
            del log[:]
            got = typeof(e)
            require(canon(got) is want, f"typeof {e} is {got}, declared {ty}")
            boom = lambda *a, **k: (_ for _ in ()).throw(Bad("typeof ran a handler"))  # noqa: E731
            ops = [o for o in vars(lang).values() if hasattr(o, "__type_rule__")]
            intp = {o: boom for o in ops if rng.random() < .7} | ({apply: boom} if rng.random() < .7 else {})
            with handler(intp):
                cur = get_interpretation()
                is_(typeof(e), got, "typeof under installed handlers")
                is_(get_interpretation(), cur, "interpretation after typeof")
            require(not log, "typeof ran the default of an operation")
            if isinstance(e, Term):
                cls = term_class(lang, want)
                if cls is not None:
                    require(type(e) is cls, f"a term of type {want} is a {type(e)}, registered: {cls}")
                else:
                    require(isinstance(e, want) and not any(isinstance(e, s) for s in (lang.A, lang.B, lang.C) if not issubclass(want, s)), f"a term of type {want} is a {type(e)}")
                    for f in dataclasses.fields(want):
                        eq(typeof(getattr(e, f.name)), f.type, f"type of field {f.name} of {want}")
            return None if isinstance(e, Term) and e.args else "trivial"
        yield k, go


@contract("C15", "values", ["effectful.ops.semantics.typeof"], "the type of a plain value is its class", "every kind of value")
def values(t):
    import collections
    import types
    from effectful.ops.semantics import typeof
    from effectful.ops.syntax import defop
    from rt.terms import DC, NT, TupleSub, ListSub, DictSub
    x = defop(int)
    vals = [1, True, 1.5, 1j, "s", b"", None, int, object(), print, lambda: 0, ..., range(3), slice(1), DC(1, 2), NT(1, 2), TupleSub(), ListSub([1]), DictSub(), [1], (1, "a"), {1: 2}, {1}, frozenset([2]),
            collections.OrderedDict(a=1), collections.defaultdict(int), types.MappingProxyType({}), collections.deque([1]), [x()], (x(), 1), {"k": x()}, DC(x(), [x()]), NT(x(), 3), ValueError(), bytearray(b"x")]
    for i, v in enumerate(vals):
        yield f"v{i}-{type(v).__name__}", lambda v=v: is_(typeof(v), type(v), f"typeof {v!r}")


@contract("C15", "signatures", ["effectful.ops.types.Operation.__type_rule__", "effectful.ops.semantics._simple_type"], "special return annotations", "every case listed")
def signatures(t):
    import typing
    from collections.abc import Callable, Iterable, Mapping
    from typing import Annotated, Literal
    from effectful.ops.semantics import typeof
    from effectful.ops.syntax import Scoped, deffn, defop, _BaseTerm
    from effectful.ops.types import NotHandled, Operation
    U = typing.TypeVar("U", bound=float)
    cases = [("none", None, type(None)), ("annotated", Annotated[int, 1], int), ("literal-int", Literal[1, 2], int), ("literal-str", Literal["a"], str), ("literal-bool", Literal[True], bool), ("list", list[int], list), ("dict", dict[str, int], dict),
             ("callable", Callable[[int], int], Callable), ("tuple", tuple[int, ...], tuple), ("unbound-typevar", typing.TypeVar("T"), object), ("bounded-typevar", U, float), ("constrained-typevar", typing.TypeVar("C", int, str), int), ("type", type[int], type), ("op", Operation[[], int], Operation), ("iterable", Iterable[int], Iterable)]
    for n, anno, want in cases:
        def go(anno=anno, want=want):
            def f() -> anno:
                raise NotHandled
            is_(typeof(defop(f)()), want, f"{anno}")
        yield n, go

    def noanno():
        @defop
        def f(x):
            raise NotHandled
        is_(typeof(f(1)), object)
        require(type(f(1)) is _BaseTerm)
    yield "no-annotation", noanno

    def fn():
        x = defop(int)
        require(issubclass(typeof(deffn(x() + 1, x)), Callable))
    yield "function-term", fn

    def bad():
        @defop
        def f[T](a: T, b: T) -> T:
            raise NotHandled
        raises(TypeError, lambda: typeof(f(1, "a")), "one type variable, two incompatible arguments")
        raises(TypeError, lambda: f([1], ["a"]), "one type variable, two incompatible arguments")

        @defop
        def g[T](*a: T) -> T:
            raise NotHandled

        @defop
        def h[T](**k: T) -> T:
            raise NotHandled
        for n in range(1, 4):
            for i in range(n + 1):
                vs = [1] * n
                vs.insert(i, "a")
                raises(TypeError, lambda: g(*vs), f"the arguments {vs} for one type variable")
                raises(TypeError, lambda: h(**{f"k{j}": v for j, v in enumerate(vs)}), f"the keyword arguments {vs} for one type variable")
            is_(typeof(g(*[1] * n)), int)
            is_(typeof(h(**{f"k{j}": "s" for j in range(n)})), str)
    yield "conflict", bad

    def variable():
        for ty in [int, str, bool, float, list[int], dict[str, int], object]:
            v = defop(ty)
            is_(typeof(v()), typing.get_origin(ty) or ty, f"a variable of type {ty}")
    yield "variable", variable

    def op_result():
        @defop
        def f[S, T](g: Callable[[S], T], x: S) -> T:
            raise NotHandled

        @defop
        def h(x: int) -> str:
            raise NotHandled
        is_(typeof(f(h, 1)), str, "an operation as a callable argument")

        def py(x: int) -> list[int]:
            return [x]
        require(typeof(f(py, 1)) in (list, __import__("collections").abc.MutableSequence), "a function as a callable argument")
    yield "callable-arguments", op_result

    def inherit(first):
        def go():
            import dataclasses

            @dataclasses.dataclass
            class A:
                a: int

            @dataclasses.dataclass
            class B(A):
                b: str

            @dataclasses.dataclass
            class D(B):
                d: bool

            def mk(ty):
                def f() -> ty:
                    raise NotHandled
                return defop(f)()
            for ty in ([A, B, D] if first else [D, A, B]) * 2:
                e = mk(ty)
                is_(typeof(e), ty)
                require(isinstance(e, ty) and type(e).__mro__[1:].count(ty) == 1, type(e).__mro__)
                for f in dataclasses.fields(ty):
                    is_(typeof(getattr(e, f.name)), f.type, f"type of field {f.name} of {ty}")
        return go
    yield "dataclasses-base-first", inherit(True)
    yield "dataclasses-derived-first", inherit(False)


def _like(x, y):
    """Two type expressions are the same; typed dictionaries by their fields."""
    import typing
    if typing.is_typeddict(x) or typing.is_typeddict(y):
        if not (typing.is_typeddict(x) and typing.is_typeddict(y)):
            return False
        a, b = typing.get_type_hints(x), typing.get_type_hints(y)
        return set(a) == set(b) and all(_like(a[k], b[k]) for k in a) and x.__required_keys__ == y.__required_keys__
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y) and all(map(_like, x, y))
    o, p = typing.get_origin(x), typing.get_origin(y)
    if o is None and p is None:
        return x is y
    return o is p and len(typing.get_args(x)) == len(typing.get_args(y)) and all(map(_like, typing.get_args(x), typing.get_args(y)))


@contract("C15", "types of values", ["effectful.internals.unification.nested_type"],
          "random nested values (scalars, texts, lists, sets, tuples, mappings, functions, operations): the type says exactly what all parts have in common, as documented; a term has none; non-trivial: a container or function", "up to three levels")
def nested(t):
    import collections
    import typing
    from collections.abc import Callable, Mapping, MutableMapping, MutableSequence, MutableSet, Set
    from effectful.internals.unification import Box, nested_type
    from effectful.ops.syntax import defop
    from effectful.ops.types import Interpretation, NotHandled, Operation
    from rt.terms import DC
    x = defop(int)
    scalars = [(1, int), (True, bool), ("s", str), (b"b", bytes), (1.5, float), (None, type(None)), (1j, complex), (range(3), range), (DC(1, 2), DC)]

    def annotated(ps, kinds, ret):
        ns = {f"T{i}": a for i, a in enumerate(ps)} | {"R": ret}
        ann = lambda i: f": T{i}" if ps[i] is not None else ""  # noqa: E731
        out = []
        for i, k in enumerate(kinds):
            if k == "kw" and "kw" not in kinds[:i] and "var" not in kinds[:i]:
                out.append("*")
            out.append({"var": "*", "kws": "**"}.get(k, "") + f"p{i}{ann(i)}" + (" = None" if k == "default" else ""))
        r = " -> R" if ret is not None else ""
        exec(f"def f({', '.join(out)}){r}: raise NotHandled", ns | {"NotHandled": NotHandled}, ns)
        return ns["f"]

    def hastd(z):
        return typing.is_typeddict(z) or any(map(hastd, z if isinstance(z, (list, tuple)) else typing.get_args(z)))

    def one(rng, d):
        """A value and its type."""
        k = rng.randrange(9) if d else 0
        if k <= 1:
            return rng.choice(scalars)
        g = lambda: one(rng, d - 1)  # noqa: E731
        if k == 2:
            parts = [g() for _ in range(rng.randrange(4))]
            return tuple(v for v, _ in parts), tuple[tuple(ty for _, ty in parts)] if parts else tuple
        if k == 7:
            ps = [rng.choice([int, str, list[int], None if rng.random() < .3 else bool]) for _ in range(rng.randrange(3))]
            kinds = sorted((rng.choice(["pos"] * 6 + ["default", "var", "kw"]) for _ in ps), key=["pos", "default", "var", "kw"].index)
            kinds = [q for i, q in enumerate(kinds) if q != "var" or q not in kinds[:i]]
            ps = ps[:len(kinds)]
            if rng.random() < .1:
                kinds, ps = kinds + ["kws"], ps + [int]
            ret = rng.choice([int, str, dict[str, int], None])
            f = annotated(ps, kinds, ret)
            simple = all(q in ("pos", "default") for q in kinds) and None not in ps
            ty = type(f) if ret is None else Callable[ps, ret] if simple else Callable[..., ret]
            if ret is not None and simple and rng.random() < .3:
                return defop(f), Operation[ps, ret]
            return f, ty
        # containers of several values of one kind or of two
        n = rng.randrange(5)
        a, b = g(), g()
        mixed = rng.random() < .4 and not _like(a[1], b[1])
        parts = [a] * n if not mixed else [a if rng.random() < .5 else b for _ in range(n)]
        kinds = []
        for _, ty in parts:
            if not any(_like(ty, z) for z in kinds):
                kinds.append(ty)
        td = any(map(hastd, kinds))
        if td and n > 1:  # typed dictionaries made for different values are different classes
            return one(rng, d - 1)
        if k in (3, 4):
            v, base = [p for p, _ in parts], MutableSequence
            if k == 4:
                try:
                    v, base = (set(v), MutableSet) if rng.random() < .5 else (frozenset(v), Set)
                except TypeError:
                    pass
            if len(v) < n and mixed and len({type(q) for q in v}) < len(kinds):  # 1 == True
                return one(rng, d - 1)
            return v, base if len(kinds) != 1 else base[kinds[0]]
        if k in (5, 6):
            keys = [f"k{i}" for i in range(n)] if rng.random() < .6 else [i for i in range(n)] if rng.random() < .6 else [rng.choice([i, f"k{i}"]) for i in range(n)]
            cls = rng.choice([dict, dict, dict, collections.OrderedDict])
            v = cls(zip(keys, (p for p, _ in parts)))
            kk = {type(q) for q in keys}
            base = MutableMapping
            if not v:
                return v, cls
            if len(kk) == 1 and len(kinds) == 1:
                if n == 1 and kk == {str} and typing.is_typeddict(kinds[0]):
                    return v, typing.TypedDict("R", {keys[0]: kinds[0]})
                return v, base[kk.pop(), kinds[0]]
            if cls is dict and kk == {str}:
                return v, typing.TypedDict("R", {q: ty for q, (_, ty) in zip(keys, parts)})
            return v, cls
        return rng.choice(scalars)
    for k, rng in t.each(t.n(900, 12000)):
        def go(rng=rng):
            v, ty = one(rng, rng.choice([1, 2, 3]))
            got = nested_type(v)
            require(isinstance(got, Box) and _like(got.value, ty), f"the type of {v!r} is {got.value}, expected {ty}")
            return None if isinstance(v, (list, tuple, dict, set, frozenset)) or callable(v) else "trivial"
        yield k, go

    def special():
        for ty in (int, list[int], list, int | str, Callable[[int], str]):
            require(nested_type(Box(ty)).value is ty, "a boxed type stands for itself")
        raises(TypeError, lambda: nested_type(x() + 1), "a term has no type as a value")
        raises(TypeError, lambda: nested_type([x()]), "a term has no type as a value")
        require(nested_type({x: lambda: 1}).value is Interpretation, "an interpretation")
        require(nested_type(dict.get).value is type(dict.get) and nested_type(print).value is type(print), "a callable without signature")

        def forward(a: "Nowhere") -> int:  # noqa: F821
            raise NotHandled
        require(nested_type(forward).value is type(forward) or typing.get_origin(nested_type(forward).value) is Callable, "annotations that cannot be resolved")
    yield "special", special
