from rt.core import *  # noqa: F403


@contract("C04", "programs", ["effectful.internals.runtime._save_args", "effectful.internals.runtime._restore_args", "effectful.internals.runtime._set_prompt", "effectful.ops.semantics.fwd"],
          "random handler chains mixing bare forwards, forwards with arguments, and calls to other operations in between, with nullary, unary, variadic, partial, object and method handlers, compared with the reference; non-trivial: at least 6 steps")
def programs(t):
    from rt.stackmodel import compare
    for k, rng in t.each(t.n(1000, 15000)):
        def go(rng=rng):
            n, d = compare(rng, raises=rng.random() < .3)
            require(d is None, d)
            return None if n >= 6 else "trivial"
        yield k, go


@contract("C04", "deep", ["effectful.internals.runtime._save_args", "effectful.internals.runtime._restore_args"],
          "chains up to depth 6; level i forwards bare or with new arguments in every pattern; same objects arrive; empty, falsy and keyword-only arguments", bound="depth <= 6")
def deep(t):
    from effectful.ops.semantics import fwd, handler
    from effectful.internals.runtime import interpreter
    from effectful.ops.semantics import coproduct
    from effectful.ops.types import Operation
    import functools
    argsets = [((), {}), ((0,), {}), ((False, None), {}), ((), {"k": 0}), (((),), {"k": ()}), ((1, 2), {"a": 1, "b": 2})]
    for depth in range(1, t.n(5, 7)):
        for pat in range(2 ** depth):
            for ai, (args, kwargs) in enumerate(argsets):
                if depth > 3 and (pat + ai) % 3:
                    continue

                def go(depth=depth, pat=pat, args=args, kwargs=kwargs, ai=ai):
                    got = []
                    other = Operation.define(lambda *a, **k: a, name="other")
                    op = Operation.define(lambda *a, **k: got.append((a, k)), name="op")

                    def new(i):    # what level i passes on: both kinds, keywords only, positionals only
                        return [((("new", i),), {"kw": i}), ((), {"kw": i}), ((("new", i),), {})][(i + ai) % 3]

                    def mk(i):
                        def h(*a, **k):
                            got.append((a, k))
                            if (pat + i) % 2:
                                other(("noise", i), z=i)
                            return fwd(*new(i)[0], **new(i)[1]) if pat >> i & 1 else fwd()
                        return h
                    hs = [{op: mk(i), **({other: lambda *a, **k: fwd()} if i == 1 else {})} for i in range(depth)]
                    # hs[0] outermost .. hs[-1] innermost (runs first)
                    if ai % 2:
                        cm = interpreter(functools.reduce(coproduct, hs))
                        with cm:
                            op(*args, **kwargs)
                    else:
                        def nest(i):
                            if i == depth:
                                op(*args, **kwargs)
                            else:
                                with handler(hs[i]):
                                    nest(i + 1)
                        nest(0)
                    want = [(args, kwargs)]
                    for i in reversed(range(depth)):
                        want.append(new(i) if pat >> i & 1 else want[-1])
                    eq(got, want, "arguments seen down the chain")
                yield f"d{depth}-p{pat}-a{ai}", go
