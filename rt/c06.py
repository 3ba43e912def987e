from rt.core import *  # noqa: F403


@contract("C06", "construction", ["effectful.ops.syntax.defdata", "effectful.ops.types.Operation.__fvs_rule__", "effectful.ops.syntax.Scoped.analyze", "effectful.ops.syntax.Scoped.infer_annotations"],
          "random nested terms over ten kinds of binder, compared with the unrenamed tree up to renaming of bound variables; non-trivial: at least one binder")
def construction(t):
    from rt.terms import Gen, Sig, alpha, to_real, all_ops
    sig = Sig()
    for k, rng in t.each(t.n(500, 8000)):
        def go(rng=rng):
            g = Gen(rng, sig)
            raw = g.gen(3)
            real = to_real(raw)
            used = []
            alpha(sig, raw, real, {"used": used}, require)
            require(len({id(x) for x in used}) == len(used), "two binders share one variable")
            require(not (set(used) & all_ops(raw)), "a bound variable is not fresh")
            return None if used else "trivial"
        yield k, go


@contract("C06", "substitution", ["effectful.ops.syntax.defdata", "effectful.ops.semantics.evaluate"],
          "evaluating a term under handlers that return open terms, compared with capture-avoiding substitution on the raw tree; non-trivial: the variable occurs")
def substitution(t):
    from effectful.ops.semantics import evaluate, handler
    from effectful.internals.runtime import interpreter
    from rt.terms import Gen, Sig, alpha, fvs, subst, to_real
    sig = Sig()
    for k, rng in t.each(t.n(400, 8000)):
        def go(rng=rng):
            g = Gen(rng, sig, containers=rng.random() < .5)
            raw = g.gen(3)
            vs = rng.sample(g.vars, rng.choice([1, 1, 2, 3]))
            s = {v: g.nobare(g.gen(1)) for v in vs}
            real = to_real(raw)
            vals = {v: to_real(x) for v, x in s.items()}
            mode = rng.randrange(3)
            if mode == 0:
                with handler({v: (lambda x=x: x) for v, x in vals.items()}):
                    got = evaluate(real)
            elif mode == 1:
                got = evaluate(real, intp={v: (lambda x=x: x) for v, x in vals.items()})
            else:
                with interpreter({v: (lambda x=x: x) for v, x in vals.items()}):
                    got = evaluate(real)
            want = subst(sig, raw, s)
            alpha(sig, want, got, {"used": []}, require)
            return None if fvs(sig, raw) & set(vs) else "trivial"
        yield k, go

    def variable_for_variable():
        """A variable used to write a binder can be substituted from outside without being captured."""
        from effectful.ops.syntax import deffn, defop
        for ty in (int, float, object):
            x, y = defop(ty, name="x"), defop(ty, name="y")
            f = sig.free("f")
            tm = deffn(deffn(f(x(), y()), x), defop(int))
            with handler({y: x}):
                r = evaluate(tm)
            inner = r.args[0]
            require(inner.args[1] is not x and inner.args[0].args[1].op is x, "free variable lost")
            require(inner.args[0].args[0].op is inner.args[1], "bound variable not renamed with its binder")
    yield "variable-for-variable", variable_for_variable

    def beta():
        """Beta-reduction under a binder of the same variable: (lambda y. lambda x. y)(x) keeps the free x."""
        from effectful.ops.syntax import deffn, defop
        x, y, z = defop(int, name="x"), defop(int, name="y"), defop(int, name="z")
        f = deffn(deffn(y() * 10 + x(), x), y)
        g = f(x())
        with handler({x: lambda: 7}):
            h = evaluate(g)
        eq(h(1), 71, "free x is 7, bound x is 1")
        twice = deffn(deffn(deffn(x() - y() * z(), x), y), z)
        with handler({x: lambda: 3, y: lambda: 5}):
            eq(evaluate(twice(y())(x())(2)), 2 - 3 * 5)
    yield "beta", beta
