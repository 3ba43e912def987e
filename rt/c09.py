from rt.core import *  # noqa: F403


@contract("C09", "fresh", ["effectful.ops.types.Operation.define", "effectful.ops.types.Operation.__eq__", "effectful.ops.types.Operation.__hash__", "effectful.ops.types.Operation.__init__"],
          "random histories of definitions from shared sources (functions, types, generics, unions, builtins, operations, copies of copies), every pair compared")
def fresh(t):
    import inspect
    from effectful.internals.runtime import interpreter
    from effectful.ops.semantics import handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import NotHandled, Operation, Term

    def f(x: int, *, k: str = "q") -> int:
        return x + 1

    def g(*a: object) -> float:
        raise NotHandled
    import dataclasses

    @dataclasses.dataclass
    class Callee:
        n: int

        def __call__(self, x: int) -> int:
            return x + self.n
    callee, callee2 = Callee(3), Callee(3)
    shared = [("fn", f), ("fn", g), ("type", int), ("type", object), ("type", list[int]), ("type", dict[str, int]), ("type", int | str), ("builtin", len), ("builtin", abs), ("obj", callee), ("obj", callee2)]

    for k, rng in t.each(t.n(150, 3000)):
        def go(rng=rng):
            ops, info = [], []
            for _ in range(rng.randrange(4, 14)):
                if ops and rng.random() < .4:
                    i = rng.randrange(len(ops))
                    kind, src = "op", ops[i]
                    sig = src.__signature__
                    base = src.__name__
                else:
                    kind, src = rng.choice(shared)
                    sig = inspect.Signature(return_annotation=src) if kind == "type" else inspect.signature(src)
                    base = getattr(src, "__name__", str(src))
                name = rng.choice([None, "n", "m"])
                if kind == "obj" and name is None:
                    name = "c"
                define = rng.choice([Operation.define, defop])
                op = define(src, name=name) if name is not None else define(src)
                eq(op.__name__, name or base, "name")
                eq(str(op), name or base)
                if kind != "builtin":
                    eq(list(op.__signature__.parameters.values()), list(sig.parameters.values()), "signature")
                    eq(op.__signature__.return_annotation, sig.return_annotation, "return annotation")
                if kind == "op":
                    # only the copy is without a default, whatever the original computes
                    args = [7] if "x" in op.__signature__.parameters else []
                    try:
                        op.__signature__.bind(*args)
                        r = op(*args)
                        require(isinstance(r, Term) and r.op is op, "a copy kept a default behaviour:", r)
                    except TypeError:
                        pass
                elif src is f:
                    eq(op(4), 5)
                elif kind == "obj":
                    eq(op(4), 7)
                ops.append(op)
            for i, a in enumerate(ops):
                for j, b in enumerate(ops):
                    require((a == b) is (i == j) and (a != b) is (i != j), "equality", i, j)
                    require((a < b) + (a > b) + (i == j) == 1, "order is not total")
                    require((a <= b) is ((a < b) or i == j) and (a >= b) is ((a > b) or i == j) and (a < b) is (b > a), "order is inconsistent")
                require(hash(a) == hash(a), "hash is stable")
                require(a.__eq__(5) is NotImplemented and a != a.__name__ and a != a.__default__ and a is not None, "equal to something else")
            for i, a in enumerate(ops):
                for j, b in enumerate(ops):
                    for c in ops:
                        require(not (a < b and b < c) or a < c, "order is not transitive")
            d = {o: i for i, o in enumerate(ops)}
            require(len(d) == len(ops) and all(d[o] == i for i, o in enumerate(ops)) and len(set(ops)) == len(ops), "hashing merges operations")
            require(sorted(ops) == sorted(reversed(ops)), "sorting")
            # handling one never affects another
            i = rng.randrange(len(ops))
            for ctx in (handler, interpreter):
                with ctx({ops[i]: lambda *a, **k: "handled"}):
                    for j, o in enumerate(ops):
                        try:
                            args = [3] if "x" in o.__signature__.parameters else [[1]] if o.__name__ == "len" else []
                            r = o(*args)
                        except TypeError:
                            continue
                        if j == i:
                            require(isinstance(r, str) and r == "handled", "handler not reached")
                        else:
                            require(not (isinstance(r, str) and r == "handled"), "handling one operation affected another", o, ops[i])
            return None
        yield k, go

    def ordering_mixed():
        a = defop(int)
        raises(TypeError, lambda: a < 5)
        raises(TypeError, lambda: a >= "x")
        require(a != 5 and not (a == None), "eq")  # noqa: E711
    yield "mixed", ordering_mixed

    def signatures():
        def h[T](a: T, b: "int" = 4, /, *c: str, d, e: "list[int]" = None, **z: float) -> "dict[str, int]":
            raise NotHandled
        op = defop(h)
        ps = op.__signature__.parameters
        eq([(n, p.kind, p.default) for n, p in ps.items()], [(n, p.kind, p.default) for n, p in inspect.signature(h).parameters.items()])
        eq(ps["b"].annotation, int)
        eq(ps["e"].annotation, list[int])
        eq(op.__signature__.return_annotation, dict[str, int])
        cp = defop(op, name="other")
        eq(str(cp.__signature__), str(op.__signature__))
        eq(cp.__name__, "other")
        eq(op.__name__, "h", "name of the original changed")
        cp2 = defop(cp)
        eq(cp2.__name__, "other")
        require(len({op, cp, cp2}) == 3)
    yield "signatures", signatures


@contract("C09", "methods", ["effectful.ops.types.Operation.__get__", "effectful.ops.types.Operation.__set_name__", "effectful.ops.types._ClassMethodOpDescriptor"],
          "random class hierarchies with method, class-method, static-method and single-dispatch operations, accessed in random order through classes, subclasses and instances")
def methods(t):
    import functools
    from effectful.ops.semantics import handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Operation

    def build(rng):
        """classes, each with the name-> defining class of its operations"""
        classes = []
        for i in range(rng.randrange(2, 6)):
            bases = tuple(rng.sample(classes, 1)) if classes and rng.random() < .7 else ()
            ns = {}
            for name in ("m", "n", "c", "s"):
                if rng.random() < (.8 if not bases else .4):
                    tag = f"{i}.{name}"
                    if name == "c":
                        def fn(cls, x: int, tag=tag) -> object:
                            return (tag, cls, x)
                        fn = defop(classmethod(fn))
                    elif name == "s":
                        def fn(x: int, tag=tag) -> object:
                            return (tag, x)
                        fn = defop(staticmethod(fn))
                    else:
                        def fn(self, x: int, tag=tag) -> object:
                            return (tag, self, x)
                        fn = defop(fn)
                    ns[name] = fn
            # classes often share one name
            classes.append(type(rng.choice(["A", "A", "B"]), bases, ns))
        return classes

    def owner(cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c

    for k, rng in t.each(t.n(150, 3000)):
        def go(rng=rng):
            classes = build(rng)
            insts = [rng.choice(classes)() for _ in range(rng.randrange(2, 6))]
            seen = {}
            for _ in range(40):
                if rng.random() < .5:
                    obj, cls = (lambda o: (o, type(o)))(rng.choice(insts))
                else:
                    obj = cls = rng.choice(classes)
                name = rng.choice(["m", "n", "c", "s"])
                if rng.random() < .2:
                    # through super()
                    start = rng.choice(cls.__mro__[:-1])
                    own = next((c for c in cls.__mro__[cls.__mro__.index(start) + 1:] if name in c.__dict__), None)
                    get = lambda: getattr(super(start, obj), name)  # noqa: E731
                else:
                    own, get = owner(cls, name), lambda: getattr(obj, name)  # noqa: E731
                if own is None:
                    raises(AttributeError, get)
                    continue
                op = get()
                is_inst = obj is not cls
                if name in ("m", "n"):
                    key = (own, name, id(obj) if is_inst else None)
                    if is_inst:
                        require(isinstance(op, Operation), "an operation accessed on an instance is an operation")
                        eq(op(1), (f"{classes.index(own)}.{name}", obj, 1))
                    else:
                        eq(op(insts[0], 1), (f"{classes.index(own)}.{name}", insts[0], 1))
                elif name == "c":
                    key = (own, name, cls)
                    require(isinstance(op, Operation), "a class-method operation is an operation")
                    eq(op(1), (f"{classes.index(own)}.{name}", cls, 1))
                else:
                    key = (own, name, None)
                    eq(op(1), (f"{classes.index(own)}.{name}", 1))
                for k2, o2 in seen.items():
                    require((op is o2) is (k2 == key), "operations mixed up or not stable:", key, k2)
                require(get() is op, "not the same operation each time")
                eq(op.__name__, op.__name__)
                seen[key] = op
            # handling one instance's or class's operation leaves the rest alone; handling the class operation reaches all instances
            keys = [q for q in seen]
            for key in rng.sample(keys, min(3, len(keys))):
                def h(*a, **kw):
                    return "H"
                with handler({seen[key]: h}):
                    for k2, op in seen.items():
                        own, name, w = k2
                        a = (insts[0], 2) if name in "mn" and w is None else (2,)
                        r = op(*a)
                        reaches = k2 == key or (name in "mn" and key[:2] == k2[:2] and key[2] is None)
                        if name in "mn" and w is None and key[:2] == k2[:2]:
                            reaches = k2 == key
                        require((r == "H") is reaches, "handling", key, "changed" if r == "H" else "did not reach", k2)
            return None
        yield k, go

    def copies():
        class A:
            @defop
            def m(self, x: int) -> int:
                return x
        a = A()
        a.m

        class B:
            n = defop(A.m)
            o = defop(A.m, name="oo")
        b = B()
        from effectful.ops.types import Term
        r = b.n(3)
        require(isinstance(r, Term) and r.op is b.n and r.op is not a.m, "copy of a method")
        require(len({A.m, B.n, B.o, a.m, b.n, b.o}) == 6)
        eq(b.o.__name__, "oo")
        with handler({B.n: lambda self, x: x * 2}):
            eq(b.n(4), 8)
            eq(a.m(4), 4)
            require(isinstance(b.o(4), Term))
        c = defop(a.m)
        r = c(9)
        require(isinstance(r, Term) and r.op is c and r.args == (9,), "a copy of an instance's operation has no default")
        eq(a.m(9), 9)
    yield "copies", copies

    def terms():
        """Accessed on a term the operation itself is applied."""
        import collections.abc
        from effectful.ops.types import Term
        f = defop(collections.abc.Callable, name="f")
        r = f()(1)
        require(isinstance(r, Term) and r.args[0].op is f and r.args[1] == 1)
        require(r.op is f()(2).op)
    yield "terms", terms

    def dispatch():
        class A:
            @defop
            @functools.singledispatchmethod
            def m(self, x: object) -> str:
                return "object"

            @m.register(int)
            def _(self, x: int) -> str:
                return "int"
        a, b = A(), A()
        eq((a.m(1), a.m("x"), b.m(2)), ("int", "object", "int"))
        require(a.m is a.m and a.m is not b.m)
        with handler({a.m: lambda x: "A"}):
            eq((a.m(1), b.m(1)), ("A", "int"))
        with handler({A.m: lambda self, x: "C"}):
            eq((a.m(1), b.m(1)), ("C", "C"))
    yield "singledispatch", dispatch

    def slots():
        class S:
            __slots__ = ("x",)

            @defop
            def m(self, y: int) -> int:
                return y + self.x
        s = S()
        s.x = 3
        eq(s.m(2), 5)
        with handler({S.m: lambda self, y: y * self.x}):
            eq(s.m(2), 6)
    yield "slots", slots

    def guarded():
        """Instances whose class refuses, changes or records attribute writes have operations like any other."""
        import dataclasses

        @dataclasses.dataclass(frozen=True)
        class F:
            x: int

            @defop
            def m(self, y: int) -> int:
                return y + self.x

        class G:
            def __init__(self, x):
                object.__setattr__(self, "x", x)

            def __setattr__(self, k, v):
                raise AttributeError("read only")

            @defop
            def m(self, y: int) -> int:
                return y + self.x

        class H:
            def __init__(self, x):
                object.__setattr__(self, "writes", [])
                self.x = x

            def __setattr__(self, k, v):
                self.writes.append(k)
                object.__setattr__(self, k, v)

            @defop
            def m(self, y: int) -> int:
                return y + self.x
        for C in (F, G, H):
            a, b = C(3), C(3)
            eq((a.m(2), b.m(3)), (5, 6))
            require(isinstance(a.m, Operation) and a.m is a.m and a.m is not b.m, C.__name__)
            with handler({a.m: lambda y: "A"}):
                eq((a.m(1), b.m(1)), ("A", 4))
            with handler({C.m: lambda self, y: y * self.x}):
                eq((a.m(2), b.m(4)), (6, 12))
            if C is H:
                eq(a.writes, ["x"], "reading an operation wrote attributes")
        eq(F(1), F(1))
    yield "guarded instances", guarded
