from rt.core import *  # noqa: F403


@contract("C03", "chains", ["effectful.ops.semantics.coproduct", "effectful.internals.runtime._set_prompt"],
          "random trees of compositions installed by handler or interpreter, bodies forwarding any number of times, compared with the flattened stack (so associativity too); non-trivial: at least 6 steps")
def chains(t):
    from rt.stackmodel import compare
    for k, rng in t.each(t.n(900, 15000)):
        def go(rng=rng):
            n, d = compare(rng, raises=False, apply_ok=rng.random() < .2)
            require(d is None, d)
            return None if n >= 6 else "trivial"
        yield k, go


@contract("C03", "union", ["effectful.ops.semantics.coproduct"],
          "key set of the composition is the union, inputs unmodified, non-dict mappings accepted; every pair of key sets over 4 operations", bound="4 operations")
def union(t):
    from effectful.ops.semantics import coproduct, fwd, handler
    from effectful.ops.syntax import ObjectInterpretation, implements
    from effectful.ops.types import Operation
    import itertools
    import types
    for m1, m2 in itertools.product(range(16), range(16)):
        for form in ("dict", "proxy", "object"):
            if form != "dict" and (m1 * 7 + m2) % 5:
                continue

            def go(m1=m1, m2=m2, form=form):
                ops = [Operation.define(lambda *a, i=i: ("default", i), name=f"o{i % 2}") for i in range(4)]
                i1 = {o: (lambda *a, i=i: ("left", i)) for i, o in enumerate(ops) if m1 >> i & 1}
                i2 = {o: (lambda *a, i=i: ("right", i, fwd())) for i, o in enumerate(ops) if m2 >> i & 1}
                c1, c2 = dict(i1), dict(i2)
                a, b = i1, i2
                if form == "proxy":
                    a, b = types.MappingProxyType(i1), types.MappingProxyType(i2)
                if form == "object":
                    b = type("OI", (ObjectInterpretation,), {f"m{i}": implements(o)(lambda self, *a, i=i: ("right", i, fwd())) for i, o in enumerate(ops) if m2 >> i & 1})()
                c = coproduct(a, b)
                eq(set(c), set(i1) | set(i2), "operations handled by the composition")
                require(i1 == c1 and i2 == c2 and list(i1) == list(c1), "inputs modified")
                with handler(c):
                    for i, o in enumerate(ops):
                        want = ("left", i) if m1 >> i & 1 else ("default", i)
                        if m2 >> i & 1:
                            want = ("right", i, want)
                        eq(o(1), want, f"operation {i}")
            yield f"{form}-{m1}-{m2}", go
