from rt.core import *  # noqa: F403


@contract("C11", "hierarchies", ["effectful.ops.syntax.ObjectInterpretation.__init_subclass__", "effectful.ops.syntax.ObjectInterpretation.__getitem__", "effectful.ops.syntax._ImplementedOperation.__set_name__", "effectful.ops.syntax.implements"],
          "random definition histories: class hierarchies with diamonds, overriding, several base-less families, failing class definitions in between; every mapping recomputed from the method-resolution order after every definition; non-trivial: some class has two bases")
def hierarchies(t):
    from effectful.ops.semantics import handler
    from effectful.ops.syntax import ObjectInterpretation, defop, implements
    from effectful.ops.types import NotHandled

    for k, rng in t.each(t.n(250, 5000)):
        def go(rng=rng):
            ops = []
            for i in range(rng.randrange(1, 5)):
                def f(x: int) -> object:
                    raise NotHandled
                ops.append(defop(f, name=rng.choice(["f", "g"])))
            classes, own, multi = [], {}, False

            class Boom:
                def __set_name__(self, o, n):
                    raise RuntimeError("class body fails")

            def impl(tag):
                def m(self, x):
                    self.calls.append((tag, x))
                    return (tag, self, x)
                return m

            def check():
                for c in classes:
                    want = {}
                    for b in c.__mro__:
                        for o, tag in own.get(b, {}).items():
                            want.setdefault(o, tag)
                    i1, i2 = c(), c()
                    i1.calls, i2.calls = [], []
                    eq(len(i1), len(want), "size")
                    require(set(i1) == set(want) and len(list(i1)) == len(want), "operations of", c)
                    for o in ops:
                        require((o in i1) is (o in want), "membership")
                        require((i1.get(o) is not None) is (o in want), "get")
                        if o not in want:
                            raises(KeyError, lambda: i1[o])
                    for o, tag in want.items():
                        eq(i1[o](3), (tag, i1, 3), "implementation")
                        is_(i2[o](3)[1], i2, "bound to its own instance")
                    eq(sorted(i1.calls, key=str), sorted(((tag, 3) for tag in want.values()), key=str), "state is on the instance")
                    i1.calls.clear()
                    with handler(i1):
                        for o, tag in want.items():
                            eq(o(5), (tag, i1, 5), "as a handler")
                    eq(len(i1.calls), len(want))
            for n in range(rng.randrange(2, 7)):
                bases = rng.sample(classes, min(len(classes), rng.choice([0, 1, 1, 2, 2, 3])))
                ns, mine = {}, {}
                for o in ops:
                    if rng.random() < .45:
                        tag = f"c{n}.{ops.index(o)}"
                        ns[rng.choice(["m", "p", "q"]) + str(ops.index(o))] = implements(o)(impl(tag))
                        mine[o] = tag
                if rng.random() < .3:
                    ns["other"] = lambda self: 1
                fail = rng.random() < .15
                if fail:
                    ns["zz"] = Boom()
                try:
                    c = type(f"C{n}" if rng.random() < .6 else "Same", tuple(bases) or (ObjectInterpretation,), ns)
                except (TypeError, RuntimeError) as x:
                    require(fail or "MRO" in str(x) or "method resolution" in str(x), "class definition failed:", x)
                    check()
                    continue
                classes.append(c)
                own[c] = mine
                multi = multi or len(bases) > 1
                check()
            return None if multi else "trivial"
        yield k, go

    def diamond():
        @defop
        def f() -> str:
            raise NotHandled

        class A(ObjectInterpretation):
            @implements(f)
            def impl(self):
                return "A"

        class B(A):
            pass

        class C(A):
            @implements(f)
            def g(self):
                return "C"

        class D(B, C):
            pass
        eq(D()[f](), "C")
        eq((A()[f](), B()[f](), C()[f]()), ("A", "A", "C"))
    yield "diamond", diamond

    def kinds():
        """Static, class and property-like implementations, methods reached by their own name, operations as keys."""
        @defop
        def f(x: int) -> int:
            raise NotHandled

        @defop
        def g(x: int, *, k: int = 1) -> int:
            raise NotHandled

        class A(ObjectInterpretation):
            def __init__(self, n):
                self.n = n

            @implements(f)
            def do_f(self, x):
                return x + self.n

            @implements(g)
            def do_g(self, x, *, k=1):
                return self.do_f(x) * k

        a, b = A(1), A(10)
        with handler(a):
            eq((f(1), g(2, k=3)), (2, 9))
            with handler(b):
                eq((f(1), g(2, k=3)), (11, 36))
            eq(f(1), 2)
        a.n = 5
        with handler(a):
            eq(f(1), 6)
        eq(b[f](1), 11)
        eq(a.do_g(1, k=2), 12)
        require(dict(a).keys() == {f, g})
        from effectful.ops.types import Interpretation
        require(isinstance(a, Interpretation))
        eq(len(ObjectInterpretation()), 0, "the base class got implementations")

        class Empty(ObjectInterpretation):
            pass
        eq(dict(Empty()), {})
    yield "kinds", kinds

    def forwards():
        from effectful.ops.semantics import coproduct, fwd

        @defop
        def f(x: int) -> int:
            return x

        class A(ObjectInterpretation):
            @implements(f)
            def impl(self, x):
                return fwd(x * 2) + 1

        class B(A):
            @implements(f)
            def impl(self, x):
                return fwd(x * 10) + 3
        with handler(A()), handler(B()):
            eq(f(1), 24)
        with handler(coproduct(B(), A())):
            eq(f(1), 24)
    yield "forwards", forwards
