from rt.core import *  # noqa: F403


@contract("C10", "application", ["effectful.ops.syntax._CallableTerm.__call__", "effectful.ops.syntax.deffn"],
          "random function terms with positional and keyword parameters (bodies over ten kinds of binder, parameters shadowed, arguments mentioning variables of the same names), compared with capture-avoiding substitution; non-trivial: a parameter occurs in the body")
def application(t):
    from effectful.ops.semantics import handler
    from rt.terms import Gen, Sig, alpha, fvs, subst, to_real
    sig = Sig()
    for k, rng in t.each(t.n(250, 8000)):
        def go(rng=rng):
            g = Gen(rng, sig, nvars=5, containers=rng.random() < .4)
            raw = g.nobare(g.gen(3))
            vs = rng.sample(g.vars, rng.randrange(1, 5))
            n = rng.randrange(0, len(vs) + 1)
            pos, kws = vs[:n], dict(zip(rng.sample(["p", "q", "r", "x"], len(vs) - n), vs[n:]))
            fn = ("app", sig.deffn, [raw] + [("op", v) for v in pos], {m: ("op", v) for m, v in kws.items()})
            real = to_real(fn)
            args = [g.nobare(g.gen(1)) for _ in pos]
            kwargs = {m: g.nobare(g.gen(1)) for m in rng.sample(list(kws), len(kws))}
            s = {**dict(zip(pos, args)), **{kws[m]: x for m, x in kwargs.items()}}
            ra, rk = [to_real(x) for x in args], {m: to_real(x) for m, x in kwargs.items()}
            before = str(real)
            got = real(*ra, **rk)
            alpha(sig, subst(sig, raw, s), got, {"used": []}, require)
            eq(str(real), before, "the function term changed")
            # a second call does not see the first one's arguments
            args2 = [g.nobare(g.gen(1)) for _ in pos]
            got2 = real(*[to_real(x) for x in args2], **rk)
            alpha(sig, subst(sig, raw, {**s, **dict(zip(pos, args2))}), got2, {"used": []}, require)
            return None if fvs(sig, raw) & set(vs) else "trivial"
        yield k, go

    def values():
        """Any value at all can be an argument."""
        from effectful.ops.syntax import deffn, defop
        from effectful.ops.types import NotHandled

        @defop
        def f(*args: object, **kwargs: object) -> object:
            raise NotHandled
        x, y, k = (defop(object, name=n) for n in "xyk")
        w = defop(int, name="w")
        vals = [None, False, 0, "", b"", (), [], {}, NotImplemented, ..., 1.5, "s", int, object(), len, w, w(), [w()], {"a": None}, ValueError(), f]
        for i, v in enumerate(vals):
            for j, u in enumerate(vals):
                r = deffn(f(x(), y(), k=k()), x, y, z=k)(v, u, z=v)
                require(r.op is f and same_value(r.args[0], v) and same_value(r.args[1], u) and same_value(r.kwargs["k"], v), f"deffn(f(x, y, k=k), x, y, z=k)({v!r}, {u!r}, z={v!r}) is {r}")
            got = deffn(x(), x)(v)
            require(same_value(got, v), f"the identity of {v!r} is {got!r}")
            got = deffn(x(), z=x)(z=v)
            require(same_value(got, v), f"the identity of z={v!r} is {got!r}")

    def same_value(a, b):
        from effectful.ops.syntax import syntactic_eq
        return a is b or (type(a) is type(b) and syntactic_eq(a, b))
    yield "any value", values

    def order():
        from effectful.ops.syntax import deffn, defop
        x, y, z, w = (defop(int, name=n) for n in "xyzw")
        f = deffn(x() * 1000 + y() * 100 + z() * 10 + w(), x, y, a=z, b=w)
        eq(f(1, 2, a=3, b=4), 1234)
        eq(f(1, 2, b=4, a=3), 1234)
        r = f(y(), x(), a=w(), b=z())
        with handler({x: lambda: 1, y: lambda: 2, z: lambda: 3, w: lambda: 4}):
            from effectful.ops.semantics import evaluate
            eq(evaluate(r), 2143)
            eq(f(5, 6, a=7, b=8), 5678, "parameters win over handlers outside")
        eq(deffn(x() + y(), x)(1).args[1].op, y)
        eq(deffn(5)(), 5)
    yield "order", order

    def church():
        """Self-application: copies of one function inside one another."""
        from collections.abc import Callable
        from effectful.ops.semantics import fvsof
        from effectful.ops.syntax import deffn, defop
        s, z, f, x = (defop(Callable, name=n) for n in "szfx")
        mk = lambda n: deffn(deffn(power(s, n, z()), z), s)  # noqa: E731

        def power(s, n, b):
            for _ in range(n):
                b = s()(b)
            return b

        def count(tm):
            n = 0
            while tm.op is not x:
                require(tm.args[0].op is f, "not f(f(..x))", tm)
                tm, n = tm.args[1], n + 1
            return n
        two, three = mk(2), mk(3)
        eq(count(two(f())(x())), 2)
        eq(count(two(two)(f())(x())), 4, "2^2")
        eq(count(two(three)(f())(x())), 9, "3^2")
        eq(count(three(two)(f())(x())), 8, "2^3")
        eq(count(two(two(f()))(x())), 4)
        eq(count(two(two)(two)(f())(x())), 16)
        require(f not in fvsof(two(two)), "closed")
    yield "church", church


@contract("C10", "trace", ["effectful.ops.syntax.trace", "effectful.ops.syntax._CallableTerm.__call__"],
          "random arithmetic functions of positional, defaulted and keyword-only parameters, converted to terms and called on random numbers, compared with calling them; non-trivial: a parameter is used")
def trace_(t):
    from effectful.ops.semantics import evaluate, fvsof, handler
    from effectful.ops.syntax import deffn, defop, trace
    from effectful.ops.types import Term

    def expr(rng, names, d):
        if d == 0 or rng.random() < .2:
            return rng.choice(names + ["1", "2", "-3"]) if names else rng.choice(["1", "2"])
        return f"({expr(rng, names, d - 1)} {rng.choice(['+', '-', '*', '-'])} {expr(rng, names, d - 1)})"
    for k, rng in t.each(t.n(200, 4000)):
        def go(rng=rng):
            names = rng.sample(["x", "y", "a", "b", "args", "kwargs", "value"], rng.randrange(1, 5))
            i = rng.randrange(0, len(names) + 1)
            j = rng.randrange(0, i + 1) if rng.random() < .3 else 0
            ps = []
            for q, n in enumerate(names):
                if q == i:
                    ps.append("*")
                ps.append(f"{n}: {rng.choice(['int', 'float'])}" + (" = 7" if q >= i and rng.random() < .3 else ""))
                if q + 1 == j:
                    ps.append("/")
            body = expr(rng, names, 3)
            env = {}
            exec(f"def fn({', '.join(ps)}):\n    return {body}", env)
            fn = env["fn"]
            try:
                tm = trace(fn)
            except TypeError:
                if j:
                    raise Skip  # positional-only parameters are not supported
                raise
            require(isinstance(tm, Term) and tm.op is deffn, "not a function term")
            eq(len(tm.args) - 1, i, "number of positional parameters")
            eq(list(tm.kwargs), names[i:], "keyword parameters in order")
            require(not (fvsof(tm) & set(tm.args[1:])), "parameters escape")
            for _ in range(3):
                vals = [rng.choice([rng.randrange(-9, 9), rng.random() * 10]) for _ in names]
                a, kw = vals[:i], dict(zip(names[i:], vals[i:]))
                eq(tm(*a, **kw), fn(*a, **kw), "agrees with the function")
            # symbolic first, values later
            vs = [defop(float, name=n) for n in names]
            r = tm(*[v() for v in vs[:i]], **{n: v() for n, v in zip(names[i:], vs[i:])})
            with handler({v: (lambda x=x: x) for v, x in zip(vs, vals)}):
                eq(evaluate(r), fn(*a, **kw), "symbolic arguments")
            return None if any(n in body for n in names) else "trivial"
        yield k, go

    def higher():
        from collections.abc import Callable
        from effectful.ops.types import NotHandled

        def compose(f: Callable[[int], int], g: Callable[[int], int]):
            def h(x: int):
                return f(g(x)) + x
            return trace(h)
        c = trace(compose)
        inc, dbl = trace(lambda x: x + 1) if False else trace(_inc), trace(_dbl)
        eq(c(inc, dbl)(5), 16)
        eq(c(dbl, inc)(5), 17)

        @defop
        def side(x: int) -> int:
            raise NotHandled

        def uses(x: int, *, k: int):
            return side(x) - side(k)
        u = trace(uses)
        r = u(3, k=4)
        with handler({side: lambda x: x * 100}):
            eq(u(3, k=4), -100)
            eq(evaluate(r), -100)
            eq(trace(uses)(3, k=4), -100, "handlers do not run while tracing, and do when called")
        with handler({side: lambda x: x}):
            v = trace(uses)
        with handler({side: lambda x: x * 100}):
            eq(v(3, k=4), -100)

        def const():
            return 42
        eq(trace(const)(), 42)

        def pair(x: int, y: int):
            return (y, [x, {"k": x - y}])
        eq(trace(pair)(1, 2), (2, [1, {"k": -1}]))
        for bad in (lambda *a: 1, lambda **k: 1, lambda x, *a: 1):
            raises(ValueError, lambda: trace(bad))
    yield "higher-order", higher


@contract("C10", "keyword-names", ["effectful.ops.syntax.deffn", "effectful.ops.syntax._CallableTerm.__call__"], "keyword parameters with awkward names", "fixed cases")
def keyword_names(t):
    from effectful.ops.syntax import deffn, defop, trace
    for name in ("x", "f", "fn", "args", "kwargs", "value", "expr", "intp", "body", "name"):
        def go(name=name):
            v, w = defop(int, name="v"), defop(int, name="w")
            f = deffn(v() * 10 + w(), w, **{name: v})
            eq(f(3, **{name: 4}), 43)
            env = {}
            exec(f"def g(w: int, *, {name}: int):\n    return {name} * 10 + w", env)
            eq(trace(env["g"])(3, **{name: 4}), 43)
        yield name, go


def _inc(x: int):
    return x + 1


def _dbl(x: int):
    return x * 2
