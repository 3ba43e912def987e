from rt.core import *  # noqa: F403


@contract("C07", "fvsof", ["effectful.ops.semantics.fvsof", "effectful.ops.types.Operation.__fvs_rule__"],
          "random terms and containers over ten kinds of binder, and parts of them, compared with a reference on the raw tree; ambient handlers and defaults must not run; non-trivial: some variable is bound")
def fvs_(t):
    from effectful.internals.runtime import get_interpretation
    from effectful.ops.semantics import apply, fvsof, handler
    from rt.terms import Gen, Sig, all_ops, fvs, to_real
    sig = Sig()
    for k, rng in t.each(t.n(500, 8000)):
        def go(rng=rng):
            g = Gen(rng, sig)
            raw = g.gen(3)
            real = to_real(raw)
            want = fvs(sig, raw)

            def boom(*a, **k):
                raise Bad("a handler ran while computing free variables")
            intp = {o: boom for o in g.vars + g.fns if rng.random() < .5}
            if rng.random() < .3:
                intp[apply] = boom
            with handler(intp):
                before = dict(get_interpretation())
                got = fvsof(real)
                require(dict(get_interpretation()) == before, "active interpretation changed")
            require(set(got) == want, "free variables", sorted(map(str, set(got) - want)), "reported and not free;", sorted(map(str, want - set(got))), "free and not reported, in", raw)
            return None if all_ops(raw) - want else "trivial"
        yield k, go

    for k, rng in t.each(t.n(300, 4000), "parts"):
        def parts(rng=rng):
            """Terms taken apart and put side by side: a variable bound in one part may be free in another."""
            from effectful.ops.types import Operation, Term
            g = Gen(rng, sig, containers=False)
            real = to_real(g.gen(3))
            pieces = []

            def collect(x, bound_here):
                if isinstance(x, Term):
                    pieces.append(x)
                    for y in list(x.args) + list(x.kwargs.values()):
                        collect(y, bound_here)
                elif isinstance(x, dict):
                    for y in x.values():
                        collect(y, bound_here)
            collect(real, ())
            if len(pieces) < 2:
                return "trivial"
            a, b = rng.choice(pieces), rng.choice(pieces)
            fa, fb = set(fvsof(a)), set(fvsof(b))
            for what in (lambda p, q: (p, q), lambda p, q: [q, p], lambda p, q: {"k": p, "l": q}, lambda p, q: g.fns[0](p, k=q)):
                r = set(fvsof(what(a, b))) - {g.fns[0]}
                eq(r, (fa | fb) - {g.fns[0]}, "free variables of a pair are those of its parts")
        yield k, parts

    def defaults():
        from effectful.ops.syntax import defdata, defop
        from effectful.ops.types import NotHandled
        ran = []

        @defop
        def f(x: int) -> int:
            ran.append(x)
            return x
        x = defop(int, name="x")
        tm = defdata(f, defdata(f, x()))
        ran.clear()
        eq(set(fvsof(tm)), {f, x})
        eq(ran, [], "defaults run by fvsof")
        s = str(tm)
        fvsof(tm)
        eq(str(tm), s, "term changed")
        eq(set(fvsof(5)), set())
        eq(set(fvsof("x")), set())
        eq(set(fvsof(f)), set(), "a bare operation is not applied")
    yield "defaults", defaults
