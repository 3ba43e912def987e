from rt.core import *  # noqa: F403


@contract("C05", "homomorphism", ["effectful.ops.semantics.evaluate", "effectful.ops.semantics._evaluate_term", "effectful.ops.semantics._evaluate_tuple", "effectful.ops.semantics._evaluate_mapping",
                                  "effectful.ops.semantics._evaluate_defaultdict", "effectful.ops.semantics._evaluate_mappingproxytype", "effectful.ops.semantics._evaluate_object"],
          "random terms and containers evaluated under recording handlers, compared (result, types, order and number of calls, arguments) with a fold over the raw tree; non-trivial: at least two calls")
def homomorphism(t):
    from effectful.internals.runtime import get_interpretation, interpreter
    from effectful.ops.semantics import apply, evaluate, handler
    from rt.terms import Gen, Sig, to_real
    sig = Sig()

    class Tok:
        def __init__(self, *a):
            self.a = a

        def __repr__(self):
            return f"<{self.a}>"

    for k, rng in t.each(t.n(600, 10000)):
        def go(rng=rng):
            g = Gen(rng, sig, binders=False)
            raw = g.gen(rng.choice([2, 3, 4]))
            real = to_real(raw)
            log = []
            counter = [0]

            def mk(op):
                def h(*a, **kw):
                    counter[0] += 1
                    log.append((op, a, kw))
                    return ("R", op, counter[0])
                return h
            direct = [o for o in g.vars + g.fns if rng.random() < .6]
            intp = {o: mk(o) for o in direct}
            intp[apply] = lambda op, *a, **kw: mk(op)(*a, **kw)
            mode = rng.randrange(4)
            other = {o: (lambda *a, **kw: (_ for _ in ()).throw(Bad("the ambient interpretation was used"))) for o in g.vars + g.fns}
            other[apply] = lambda *a, **kw: (_ for _ in ()).throw(Bad("the ambient interpretation was used"))
            if mode == 0:
                with handler(intp):
                    got = evaluate(real)
            elif mode == 1:
                with interpreter(intp):
                    got = evaluate(real)
            elif mode == 2:
                got = evaluate(real, intp=intp)
            else:
                with interpreter(other):
                    got = evaluate(real, intp=intp)
                    require(get_interpretation() is other or dict(get_interpretation()) == other, "ambient interpretation not restored")
            log2, n = [], [0]

            def ref(x):
                if x[0] == "app":
                    a = tuple(ref(y) for y in x[2])
                    kw = {m: ref(y) for m, y in x[3].items()}
                    n[0] += 1
                    log2.append((x[1], a, kw))
                    return ("R", x[1], n[0])
                return to_real(fake(x))

            def fake(x):
                from rt.terms import mapkids
                return mapkids(x, lambda y: ("val", ref(y)) if y[0] == "app" else fake(y))
            want = ref(raw)
            same(got, want)
            eq(len(log), len(log2), "number of calls")
            for (o1, a1, k1), (o2, a2, k2) in zip(log, log2):
                is_(o1, o2, "order of calls")
                same(a1, a2)
                eq(list(k1), list(k2), "keyword order")
                same(k1, k2)
            return None if len(log2) > 1 else "trivial"
        yield k, go


def same(a, b):
    """Equality including the types of containers and their order."""
    import dataclasses
    require(type(a) is type(b), "type", type(a), "expected", type(b))
    if isinstance(a, (tuple, list)):
        eq(len(a), len(b), "length")
        for x, y in zip(a, b):
            same(x, y)
    elif hasattr(a, "keys"):
        eq(list(map(str, a.keys())), list(map(str, b.keys())), "keys in order")
        eq(getattr(a, "default_factory", None), getattr(b, "default_factory", None), "default factory")
        for x, y in zip(a.items(), b.items()):
            same(x, y)
    elif dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(getattr(a, f.name), getattr(b, f.name))
    else:
        require(a is b or a == b, "value", a, "expected", b)


@contract("C05", "containers", ["effectful.ops.semantics.evaluate", "effectful.ops.semantics._evaluate_set_view", "effectful.ops.semantics._evaluate_list_view", "effectful.ops.semantics._evaluate_operation"],
          "each kind of container by hand, and values that must come back as they are", "fixed cases")
def containers(t):
    import collections
    import types
    from effectful.internals.runtime import get_interpretation
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import NotHandled

    @defop
    def f(x: int) -> int:
        raise NotHandled
    x, y = defop(int, name="x"), defop(int, name="y")
    h = {x: lambda: 3, f: lambda a: a * 10}

    def run(v, **k):
        with handler(h):
            return evaluate(v, **k)

    def views():
        d = {x(): f(x()), "b": y()}
        eq(run(d.keys()), {3, "b"})
        vs = run(d.values())
        require(type(vs) is list and vs[0] == 30 and vs[1].op is y and len(vs) == 2, "values view")
        d2 = {x(): f(x()), "b": 4}
        eq(run(d2.items()), {(3, 30), ("b", 4)})
        eq(run(d2.values()), [30, 4])
    yield "views", views

    def keys():
        for mk in (dict, collections.OrderedDict, lambda p: types.MappingProxyType(dict(p)), lambda p: collections.defaultdict(set, p), collections.ChainMap, collections.UserDict):
            v = mk({x(): "a", (x(), 1): f(f(x())), "z": [x()]}) if mk is not collections.OrderedDict else mk([(x(), "a"), ((x(), 1), f(f(x()))), ("z", [x()])])
            r = run(v)
            require(type(r) is type(v), "type", type(r))
            eq(dict(r), {3: "a", (3, 1): 300, "z": [3]})
            eq(len(v), 3, "the original changed")
        eq(run(collections.Counter({"a": 3, "b": 1})), collections.Counter({"a": 3, "b": 1}))
        require(run(collections.defaultdict(list, {1: x()})).default_factory is list, "factory")
        require(run(collections.defaultdict(None, {1: x()})).default_factory is None, "factory")
    yield "mappings", keys

    def atoms():
        class C:
            pass
        vs = [C(), C, int, 5, 2.5, None, True, "x", b"x", {x(), 2} and frozenset({1}), len, range(4), ..., slice(1, 2), f, object()]
        for v in vs:
            is_(run(v), v)
        s = {1, 2}
        is_(run(s), s)
        import rt.terms as R
        is_(run(R.DC), R.DC, "a dataclass itself, not an instance of it")
        r = run(R.DC(x(), [f(1)]))
        require(type(r) is R.DC and r.a == 3 and r.b == [10], "dataclass")
        r = run(R.DC2(x(), R.NT(f(x()), y), "s"))
        require(type(r) is R.DC2 and r.b == 3 and type(r.a) is R.NT and r.a.a == 30 and r.a.b is y and r.c == "s", "frozen dataclass")
        for e in [(), [], {}, R.TupleSub(), R.ListSub(), R.DictSub(), collections.deque()]:
            r = run(e)
            require(type(r) is type(e) and r == e, "empty", e)
        r = run(collections.deque([x(), 1]))
        eq(r, collections.deque([3, 1]))
    yield "atoms", atoms

    def operations():
        """A bare operation is replaced exactly when the interpretation maps it to an operation."""
        z = defop(int, name="z")
        is_(run(x), x)
        is_(run(y), y)
        with handler({y: z}):
            got = evaluate([y, (y, f(y()))])
            is_(got[0], z)
            is_(got[1][0], z)
            is_(got[1][1].args[0].op, z)
        is_(evaluate(y, intp={y: z}), z)
        is_(evaluate(z, intp={y: z}), z)
    yield "operations", operations

    def explicit():
        before = get_interpretation()
        eq(evaluate([x(), f(2)], intp={x: lambda: 1, f: lambda a: -a}), [1, -2])
        is_(get_interpretation(), before)
        with handler({x: lambda: 5, f: lambda a: a}):
            mid = get_interpretation()
            eq(evaluate(f.__default_rule__(y()), intp={y: lambda: 2}).args, (2,), "f is not handled by the given interpretation")
            r = evaluate((x() if False else f.__default_rule__(y()),), intp={})
            require(r[0].op is f and r[0].args[0].op is y, "explicit empty interpretation", r)
            is_(get_interpretation(), mid)

            def boom():
                raise KeyError("boom")
            raises(KeyError, lambda: evaluate(f.__default_rule__(y()), intp={y: boom}))
            is_(get_interpretation(), mid, "restored after an exception")
            eq(f(7), 7)
    yield "explicit", explicit

    def order():
        seen = []

        @defop
        def g(*a: int, **k: int) -> int:
            raise NotHandled

        @defop
        def leaf(i: int) -> int:
            raise NotHandled
        tm = g(leaf(0), g(leaf(1), k=leaf(2)), b=leaf(3), a=g(leaf(4)))

        def rec(i):
            seen.append(i)
            return i
        calls = []

        def hg(*a, **k):
            calls.append((a, list(k.items())))
            return len(calls) * 100
        with handler({leaf: rec, g: hg}):
            eq(evaluate(tm), 300)
        eq(seen, [0, 1, 2, 3, 4])
        eq(calls, [((1,), [("k", 2)]), ((4,), []), ((0, 100), [("b", 3), ("a", 200)])])
    yield "order", order

    def shared():
        """A subterm that occurs twice is evaluated once per occurrence."""
        n = [0]

        @defop
        def tick() -> int:
            raise NotHandled

        def h():
            n[0] += 1
            return n[0]
        a = tick()
        with handler({tick: h}):
            eq(evaluate((a, [a, {"k": a}])), (1, [2, {"k": 3}]))
    yield "shared", shared
