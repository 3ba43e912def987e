from rt.core import *  # noqa: F403


@contract("C01", "scoping", ["effectful.ops.semantics.handler", "effectful.internals.runtime.interpreter", "effectful.ops.semantics.coproduct"],
          "random nestings of handler/interpreter blocks left by falling through, return and three kinds of exception, compared step by step with a stack model; non-trivial: at least 4 steps")
def scoping(t):
    from rt.stackmodel import compare
    for k, rng in t.each(t.n(700, 12000)):
        def go(rng=rng):
            n, d = compare(rng)
            require(d is None, d)
            return None if n >= 4 else "trivial"
        yield k, go


@contract("C01", "mutation", ["effectful.ops.semantics.handler", "effectful.internals.runtime.interpreter"],
          "mutating the mapping the caller passed in, while it is installed, changes nothing; generators and context managers abandoned or closed inside a block restore", bound="fixed scenarios")
def mutation(t):
    from effectful.internals.runtime import get_interpretation, interpreter
    from effectful.ops.semantics import fwd, handler
    from effectful.ops.types import Operation
    import types

    def fresh():
        return Operation.define(lambda *a: ("f", a), name="f"), Operation.define(lambda *a: ("g", a), name="g")

    for name, cm in (("handler", handler), ("interpreter", interpreter)):
        for kind in ("dict", "proxy"):
            def mut(cm=cm, kind=kind):
                f, g = fresh()
                d = {f: lambda *a: ("h", a)}
                given = d if kind == "dict" else types.MappingProxyType(d)
                with cm(given) as y:
                    is_(y, given, "yielded mapping")
                    d[g] = lambda *a: "later"
                    d[f] = lambda *a: "changed"
                    eq(f(1), ("h", (1,)), "handled op after mutation")
                    eq(g(1), ("g", (1,)), "unhandled op after mutation")
                    del d[f]
                    eq(f(1), ("h", (1,)), "handled op after deletion")
                eq(f(1), ("f", (1,)), "after the block")
            yield f"mutate-{name}-{kind}", mut

        def gen_close(cm=cm):
            f, g = fresh()

            def it():
                with cm({f: lambda: "h"}):
                    yield f()
            with handler({g: lambda: "outer"}):
                before = dict(get_interpretation())
                x = it()
                eq(next(x), "h")
                x.close()
                require(dict(get_interpretation()) == before, "closing a generator suspended in a block does not restore")
        yield f"generator-close-{name}", gen_close

        for exc in (ValueError, KeyboardInterrupt, GeneratorExit, SystemExit, StopIteration, RuntimeError):
            def exc_out(cm=cm, exc=exc):
                f, g = fresh()
                x = exc("m")
                before = dict(get_interpretation())
                try:
                    with cm({f: lambda: "h"}):
                        with cm({g: lambda: "h2"}):
                            raise x
                except BaseException as y:
                    is_(y, x, "the exception leaves unchanged")
                else:
                    raise Bad("exception swallowed")
                require(dict(get_interpretation()) == before, "not restored after", exc)
            yield f"exc-{name}-{exc.__name__}", exc_out

            def exc_handler(cm=cm, exc=exc):
                f, g = fresh()
                x = exc("m")

                def h(*a):
                    raise x
                with cm({f: h}):
                    before = dict(get_interpretation())
                    try:
                        f(1)
                    except BaseException as y:
                        is_(y, x, "a handler's exception leaves unchanged")
                    else:
                        raise Bad("exception swallowed")
                    require(dict(get_interpretation()) == before, "not restored after handler raised", exc)

                def h2(*a):
                    return fwd()
                f2 = Operation.define(h, name="f2")
                with cm({f2: h2}):
                    before = dict(get_interpretation())
                    try:
                        f2(1)
                    except BaseException as y:
                        is_(y, x, "a default's exception leaves unchanged")
                    else:
                        raise Bad("exception swallowed")
                    require(dict(get_interpretation()) == before, "not restored after forwarded default raised", exc)
            yield f"exc-in-handler-{name}-{exc.__name__}", exc_handler

        def decorator(cm=cm):
            f, g = fresh()

            @cm({f: lambda: "h"})
            def fn(n):
                return (f(), fn(n - 1)) if n else ("end", f())
            eq(f(), ("f", ()), "before")
            eq(fn(2), ("h", ("h", ("end", "h"))), "as a decorator, reentrantly")
            eq(f(), ("f", ()), "after")
        yield f"decorator-{name}", decorator
