from rt.core import *  # noqa: F403

P = "effectful.internals.product_n."


class World:
    """Random operations o0..on with defaults, random components; handlers and defaults only call later operations."""

    def __init__(self, rng, n=5, comps=("A", "B", "C")):
        from effectful.ops.syntax import defop
        from effectful.ops.types import Interpretation, NotHandled
        self.rng = rng
        self.ops = []
        self.calls = []
        bodies = [None if rng.random() < .3 else self.body(i, n, "d", fwd=False) for i in range(n)]

        def mk(i):
            def f(*args: object, **kwargs: object) -> object:
                if bodies[i] is None:
                    raise NotHandled
                self.calls.append(("default", i))
                return self.run(bodies[i], args, kwargs, ("default", i))
            return defop(f, name=f"o{i}")
        for i in range(n):
            self.ops.append(mk(i))
        self.names = [defop(Interpretation, name=c) for c in comps[:rng.choice([1, 2, 2, 3])]]
        self.comps = {}
        for c in self.names:
            from effectful.ops.semantics import apply
            intp = {}
            for i in range(n):
                if rng.random() < .6:
                    b = self.body(i, n, str(c), fwd=True)
                    intp[self.ops[i]] = (lambda b, tag: lambda *a, **k: (self.calls.append(tag), self.run(b, a, k, tag))[1])(b, (str(c), i))
            if rng.random() < .3:
                keep = rng.random() < .5

                def ap(op, *a, keep=keep, tag=str(c), **k):
                    self.calls.append((tag, "apply", op))
                    r = op.__default_rule__(*a, **k) if keep else None
                    return (tag, "apply", op, a, tuple(sorted(k.items())), r)
                intp[apply] = ap
            self.comps[c] = intp

    def body(self, i, n, tag, fwd):
        rng = self.rng
        k = rng.randrange(5)
        if k == 0 or (i + 1 >= n and k in (1, 2)):
            return ("tag",)
        if k in (1, 2):
            return ("call", rng.randrange(i + 1, n), rng.choice(["pass", "wrap", "none"]), rng.random() < .3)
        if k == 3 and fwd:
            return ("fwd", rng.random() < .5)
        return ("tag",)

    def run(self, b, a, k, tag):
        from effectful.ops.semantics import fwd
        if b[0] == "tag":
            return (tag, a, tuple(sorted(k.items())))
        if b[0] == "fwd":
            return (tag, "fwd", fwd(tag, *a) if b[1] else fwd())
        op = self.ops[b[1]]
        if b[2] == "pass":
            r = op(*a, **k)
        elif b[2] == "wrap":
            r = op([a], k=a and a[0])
        else:
            r = op()
        return (tag, "called", r, op(r) if b[3] else None)

    def program(self, depth):
        """An expression: ("c", i, args, kwargs) | ("v", value) | ("t"/"l"/"d"/"nt"/"dc", children)."""
        rng = self.rng
        if depth == 0 or rng.random() < .15:
            return ("v", rng.choice([0, 1, "s", None, (1, 2), b"x", range(3), {"a": 1}, {1, 2}, 2.5, {"a": 1, "b": (2,)}.items(), {"a": 1, 3: 2}.keys(), {"a": [1]}.values()]))
        k = rng.randrange(10)
        kid = lambda: self.program(depth - 1)  # noqa: E731
        if k < 6:
            return ("c", rng.choice(self.handled()), [kid() for _ in range(rng.randrange(3))], {x: kid() for x in rng.sample(["p", "q"], rng.randrange(2))})
        return (rng.choice(["t", "l", "d", "nt", "dc", "od", "dd"]), [kid(), kid()])

    def handled(self):
        return [i for i, o in enumerate(self.ops) if any(o in c for c in self.comps.values())]

    def ev(self, p):
        import collections
        from rt.terms import DC, NT
        if p[0] == "v":
            return p[1]
        if p[0] == "c":
            return self.ops[p[1]](*[self.ev(x) for x in p[2]], **{k: self.ev(x) for k, x in p[3].items()})
        a, b = [self.ev(x) for x in p[1]]
        return {"t": lambda: (a, b), "l": lambda: [a, b], "d": lambda: {"x": a, "y": b}, "nt": lambda: NT(a, b), "dc": lambda: DC(a, b),
                "od": lambda: collections.OrderedDict([("y", a), ("x", b)]), "dd": lambda: collections.defaultdict(int, {"x": a, "y": b})}[p[0]]()


def same(a, b):
    from effectful.ops.syntax import syntactic_eq
    import collections.abc
    import dataclasses
    view = lambda v: set(v) if isinstance(v, (collections.abc.KeysView, collections.abc.ItemsView)) else list(v) if isinstance(v, collections.abc.ValuesView) else v  # noqa: E731
    a, b = view(a), view(b)  # a view is passed on as the set or list of what it shows
    if type(a) is not type(b):
        raise Bad(f"got {str(a)[:300]} of {type(a)}, alone {str(b)[:300]} of {type(b)}")
    if isinstance(a, (tuple, list)):
        eq(len(a), len(b), "length")
        for x, y in zip(a, b):
            same(x, y)
    elif isinstance(a, dict):
        eq(list(a), list(b), "keys")
        for x in a:
            same(a[x], b[x])
    elif dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(getattr(a, f.name), getattr(b, f.name))
    else:
        require(syntactic_eq(a, b), f"got {str(a)[:300]}, alone {str(b)[:300]}")


@contract("C13", "components", [P + "productN", P + "_unpack", P + "map_structure", P + "_pack"],
          "random components (handlers that call other operations, forward, handle all applications) over random programs: each value under the product equals the value under that component alone; non-trivial: two components and three applications")
def components(t):
    from effectful.internals.product_n import Product, productN
    from effectful.ops.semantics import evaluate, handler
    for k, rng in t.each(t.n(500, 8000)):
        def go(rng=rng):
            w = World(rng)
            if not w.handled():
                raise Skip
            p = ("c", rng.choice(w.handled()), [w.program(2) for _ in range(rng.randrange(3))], {})
            snap = {c: dict(i) for c, i in w.comps.items()}
            product = productN(w.comps)
            require(set(product) == {o for i in w.comps.values() for o in i}, "the product handles exactly the operations some component handles")
            with handler(product):
                r = w.ev(p)
            require(isinstance(r, Product), "an application under the product gives a product")
            order = list(w.names)
            rng.shuffle(order)
            for c in order:
                got = r.values(c)
                n = len(w.calls)
                again = r.values(c)
                require(again is got and len(w.calls) == n, "asked again, a component was computed again")
                with handler(w.comps[c]):
                    want = w.ev(p)
                same(got, want)
            require(w.comps == snap, "productN changed a component")
            return None if len(w.names) > 1 and len(w.calls) > 3 else "trivial"
        yield k, go
    for k, rng in t.each(t.n(150, 2000), "pure"):
        def go2(rng=rng):
            """Evaluating a term under the product."""
            from effectful.ops.syntax import defop
            from effectful.ops.types import Interpretation, NotHandled

            def op(name):
                def f(*args: object, **kwargs: object) -> object:
                    raise NotHandled
                return defop(f, name=name)
            ops = [op(f"f{i}") for i in range(3)] + [op(f"x{i}") for i in range(2)]

            def term(d):
                if d == 0 or rng.random() < .2:
                    return rng.choice(ops[3:])() if rng.random() < .7 else rng.randrange(3)
                return rng.choice(ops[:3])(*[term(d - 1) for _ in range(rng.randrange(1, 3))], **({"k": term(d - 1)} if rng.random() < .3 else {}))
            e = ops[0](term(2), [term(1), {"q": term(1)}])
            A, B = defop(Interpretation, name="A"), defop(Interpretation, name="B")
            mk = lambda n: {o: (lambda o: lambda *a, **k: (n, ops.index(o), a, tuple(k.items())))(o) for o in ops}  # noqa: E731
            ca, cb = mk("a"), mk("b")
            r = evaluate(e, intp=productN({A: ca, B: cb}))
            same(r.values(A), evaluate(e, intp=ca))
            same(r.values(B), evaluate(e, intp=cb))
        yield k, go2


@contract("C13", "asking", [P + "productN", P + "CallByNeed", P + "argsof"],
          "components that ask for the value or the arguments of another by name get exactly those of the same application, and each computation runs at most once whatever the order of asking")
def asking(t):
    from effectful.internals.product_n import argsof, productN
    from effectful.ops.semantics import apply, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Interpretation, NotHandled
    for k, rng in t.each(t.n(200, 3000)):
        def go(rng=rng):
            n = rng.choice([2, 3, 4])
            names = [defop(Interpretation, name=f"I{j}") for j in range(n)]

            @defop
            def f(*args: object, **kwargs: object) -> object:
                raise NotHandled

            @defop
            def g(*args: object) -> object:
                raise NotHandled
            log = []
            asks = {j: [x for x in range(j) if rng.random() < .6] for j in range(n)}
            VALS = [None, 0, False, (), "", NotImplemented, ...]
            vals = {j: rng.randrange(len(VALS)) if rng.random() < .25 else None for j in range(n)}
            viaapply = {j: rng.random() < .3 for j in range(n)}

            def h(j):
                def run(*a, **kw):
                    log.append((j, a, tuple(kw.items())))
                    got = tuple(names[x]() for x in asks[j] for _ in range(2))
                    ar = tuple(argsof(names[x]) for x in asks[j])
                    for x, (aa, kk) in zip(asks[j], ar):
                        eq(tuple(aa), tuple((x, y[1]) if isinstance(y, tuple) and len(y) == 2 else y for y in a), f"arguments of component {x} asked for by {j}")
                        eq({m: v for m, v in kk.items()}, {m: ((x, v[1]) if isinstance(v, tuple) else v) for m, v in kw.items()}, "keyword arguments asked for")
                    return VALS[vals[j]] if vals[j] is not None else (j, a, tuple(kw.items()), got)
                return run

            def leaf(j):
                return lambda v: (j, v)
            comps = {}
            for j in range(n):
                if viaapply[j]:
                    comps[names[j]] = {apply: (lambda j: lambda op, *a, **kw: (h(j) if op is f else leaf(j))(*a, **kw))(j)}
                    if rng.random() < .5:
                        comps[names[j]][g] = leaf(j)
                else:
                    comps[names[j]] = {f: h(j), g: leaf(j)}

            if all(viaapply.values()):
                comps[names[0]] = {f: h(0), g: leaf(0)}
                viaapply[0] = False
            want = {}

            def val(j, a, kw):
                if vals[j] is not None:
                    return VALS[vals[j]]
                w = lambda v: (j, v[1]) if isinstance(v, tuple) else v  # noqa: E731
                return (j, tuple(w(v) for v in a), tuple((m, w(v)) for m, v in kw.items()), tuple(val(x, a, kw) for x in asks[j] for _ in range(2)))
            args = [("G", rng.randrange(5)) if rng.random() < .6 else rng.randrange(9) for _ in range(rng.randrange(4))]
            kws = {m: ("G", rng.randrange(5)) for m in ["k", "l"] if rng.random() < .5}
            if "k" not in kws and rng.random() < .5:
                kws["k"] = 7
            with handler(productN(comps)):
                if rng.random() < .3:
                    f(99)  # an earlier application, never asked for
                r = f(*[g(v[1]) if isinstance(v, tuple) else v for v in args], **{m: (g(v[1]) if isinstance(v, tuple) else v) for m, v in kws.items()})
            order = list(range(n))
            rng.shuffle(order)
            for j in order:
                eq(r.values(names[j]), val(j, args, kws), f"value of component {j}")
                eq(r.values(names[j]), val(j, args, kws), f"value of component {j}, asked again")
            eq(sorted(x[0] for x in log), sorted(range(n)), "each computation runs exactly once")
            del want
        yield k, go


@contract("C13", "structures", [P + "map_structure", P + "_unpack"],
          "map_structure applies the function to every leaf of nested containers once, keeps their types, and leaves strings, bytes and ranges whole")
def structures(t):
    from effectful.internals.product_n import map_structure
    import collections
    import types
    from rt.terms import DC, DC2, NT, NT2, DictSub, ListSub, TupleSub
    for k, rng in t.each(t.n(600, 10000)):
        def go(rng=rng):
            c = [0]

            def gen(d, key=False):
                if d == 0 or rng.random() < .2:
                    c[0] += 1
                    return (c[0], ("L", c[0]))
                if rng.random() < .08:
                    v = rng.choice(["abc", b"ab", range(4)])
                    return (v, v)
                n = rng.randrange(4)
                kind = rng.choice(["t", "l", "d", "nt", "nt2", "dc", "dc2", "ts", "ls", "ds", "od", "dd", "mp", "s", "fs", "ctr", "ks", "vs", "it"])
                if kind in ("t", "l", "ts", "ls"):
                    xs = [gen(d - 1) for _ in range(n)]
                    T = {"t": tuple, "l": list, "ts": TupleSub, "ls": ListSub}[kind]
                    return T(x[0] for x in xs), T(x[1] for x in xs)
                if kind == "ks":
                    xs = [gen(0) for _ in range(n)]
                    return dict.fromkeys(x[0] for x in xs).keys(), {x[1] for x in xs}
                if kind == "vs":
                    xs = [gen(d - 1) for _ in range(n)]
                    return dict(enumerate(x[0] for x in xs)).values(), [x[1] for x in xs]
                if kind in ("s", "fs"):
                    xs = [gen(0) for _ in range(n)]
                    T = {"s": set, "fs": frozenset}[kind]
                    return T(x[0] for x in xs), T(x[1] for x in xs)
                if kind == "nt":
                    a, b = gen(d - 1), gen(d - 1)
                    return NT(a[0], b[0]), NT(a[1], b[1])
                if kind == "nt2":
                    a, b, z = gen(d - 1), gen(d - 1), gen(d - 1)
                    return NT2(a[0], b[0], z[0]), NT2(a[1], b[1], z[1])
                if kind == "dc":
                    a, b = gen(d - 1), gen(d - 1)
                    return DC(a[0], b[0]), DC(a[1], b[1])
                if kind == "dc2":
                    a, b, z = gen(d - 1), gen(d - 1), gen(d - 1)
                    return DC2(a[0], b[0], z[0]), DC2(a[1], b[1], z[1])
                ks = [gen(0) for _ in range(n)]
                vs = [gen(0) if kind in ("ctr", "it") else gen(d - 1) for _ in range(n)]
                a, b = [(x[0], v[0]) for x, v in zip(ks, vs)], [(x[1], v[1]) for x, v in zip(ks, vs)]
                if kind == "it":
                    return dict(a).items(), set(b)
                T = {"d": dict, "ds": DictSub, "od": collections.OrderedDict, "dd": lambda x: collections.defaultdict(list, x),
                     "mp": lambda x: types.MappingProxyType(dict(x)), "ctr": lambda x: collections.Counter(dict(x))}[kind]
                return T(a), T(b)
            x, want = gen(3)
            seen = []
            got = map_structure(lambda v: (seen.append(v), ("L", v))[1], x)
            same2(got, want)
            eq(sorted(map(str, seen)), sorted(str(i + 1) for i in range(c[0])), "the function is applied to every leaf once")
            return None if c[0] > 1 else "trivial"
        yield k, go


def same2(a, b):
    import collections
    import dataclasses
    require(type(a) is type(b), f"type {type(a)} for {type(b)}")
    if isinstance(a, (tuple, list)):
        eq(len(a), len(b), "length")
        for x, y in zip(a, b):
            same2(x, y)
    elif isinstance(a, collections.abc.Mapping):
        eq(list(a), list(b), "keys")
        for x in a:
            same2(a[x], b[x])
        if isinstance(a, collections.defaultdict):
            is_(a.default_factory, b.default_factory)
    elif dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same2(getattr(a, f.name), getattr(b, f.name))
    else:
        eq(a, b)
