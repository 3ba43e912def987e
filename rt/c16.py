from rt.core import *  # noqa: F403
from rt.c18 import alike, run
import itertools


def lib(which):
    import numpy as np
    if which == "torch":
        import effectful.handlers.torch as H
        import torch
        return H, H.torch_getitem, torch.Tensor, lambda v: torch.tensor(v), lambda s: torch.arange(int(np.prod(s)), dtype=torch.float32).reshape(s) + 1
    import effectful.handlers.jax as H
    import jax
    import jax.numpy as jnp
    return H, H.jax_getitem, jax.Array, lambda v: jnp.asarray(np.asarray(v)), lambda s: jnp.arange(int(np.prod(s)), dtype=jnp.float32).reshape(s) + 1


def rand_slice(rng, n, neg):
    k = rng.random()
    if k < .45:
        return slice(None)
    f = lambda: rng.choice([None, rng.randint(-n - 1, n + 1)])  # noqa: E731
    return slice(f(), f(), rng.choice([None, 1, 2, 3] + ([-1, -2] if neg else [])))


def rand_key(rng, which, shape, kinds):
    """A key over the whole or a prefix of shape; 'sym' marks a symbolic dimension, ('symarr', ...) an index array with one."""
    rank = len(shape)
    n = rng.randint(0, rank)
    ell = rng.random() < .35
    key, dims = [], list(range(n))
    if ell:
        cut = rng.randint(0, n)
        dims = list(range(cut)) + [None] + list(range(rank - (n - cut), rank))
    skip = 0
    adv = rng.choice([(2,), (3,), (2, 2), (1,)])
    for d in dims:
        while rng.random() < .12:
            key.append(None)
        if d is None:
            key.append(Ellipsis)
            continue
        if d < skip:
            continue
        s = shape[d]
        k = rng.choice(kinds)
        if k == "int":
            key.append(rng.randint(-s, s - 1))
        elif k == "slice":
            key.append(rand_slice(rng, s, which == "jax"))
        elif k == "list":
            key.append([rng.randint(-s, s - 1) for _ in range(adv[-1])])
        elif k == "scalar":
            key.append(("arr", rng.randint(-s, s - 1)))
        elif k == "array":
            a = rng.choice([adv, adv, (1,), adv[-1:]])
            import numpy as np
            key.append(("arr", np.array([rng.randint(-s, s - 1) for _ in range(int(np.prod(a)))]).reshape(a).tolist()))
        elif k == "mask":
            m = 2 if d + 1 in dims and dims.index(d + 1) == dims.index(d) + 1 and rng.random() < .6 else 1
            import numpy as np
            key.append(("arr", np.array([rng.random() < .5 for _ in range(int(np.prod(shape[d:d + m])))]).reshape(shape[d:d + m]).tolist()))
            skip = d + m
        elif k == "sym":
            key.append(("sym", s))
        elif k == "symarr":
            m = rng.randint(1, 3)
            inner = rng.choice([(), (), adv[-1:]])
            import numpy as np
            key.append(("symarr", m, np.array([rng.randint(-s, s - 1) for _ in range(m * int(np.prod(inner)))]).reshape((m,) + inner).tolist()))
    while rng.random() < .12:
        key.append(None)
    return tuple(key)


def concrete(which):
    def gen(t):
        H, getitem, ty, arr, mkx = lib(which)
        for k, rng in t.each(t.n(1200 if which == "torch" else 600, 12000 if which == "torch" else 4000)):
            def go(rng=rng):
                shape = tuple(rng.randint(1, 4) for _ in range(rng.randint(0, 4)))
                kinds = rng.choice([["int", "slice"], ["int", "slice", "array"], ["slice", "array", "list", "scalar", "int"], ["array", "slice"], ["array", "scalar"], ["array"], ["mask", "slice", "int"], ["mask", "slice", "slice", "array"]])
                if which == "jax":
                    kinds = [x for x in kinds if x != "list"]
                key = tuple(arr(x[1]) if isinstance(x, tuple) else x for x in rand_key(rng, which, shape, kinds))
                x = mkx(shape)
                keep = x + 0
                want = run(lambda: x[key])
                got = run(lambda: getitem(x, key))
                if want[0] == "exc":
                    require(got[0] == "exc", f"x[{key}] of shape {shape} raises {want[1]}, gives {got[1]}")
                    return "trivial"
                require(got[0] == "ok", f"x[{key}] of shape {shape} raises {got[1]}")
                alike(got[1], want[1], f"x[{key}] of shape {shape}")
                alike(x, keep, "the array indexed")
            yield k, go
    return gen


def symbolic(which):
    def gen(t):
        from effectful.ops.semantics import evaluate, fvsof, handler
        from effectful.ops.syntax import defop
        H, getitem, ty, arr, mkx = lib(which)
        for k, rng in t.each(t.n(260 if which == "torch" else 120, 2500 if which == "torch" else 700)):
            def go(rng=rng):
                for _ in range(12):
                    try:
                        return one(rng)
                    except Skip:
                        pass
                raise Skip

            def one(rng):
                shape = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 4)))
                kinds = rng.choice([["sym"], ["sym", "slice"], ["sym", "int", "slice"], ["sym", "array", "slice"], ["sym", "symarr", "slice"], ["sym", "array", "scalar", "int", "slice"], ["symarr", "slice", "array"]])
                pat = rand_key(rng, which, shape, kinds)
                names, key, subs, sizes = [], [], [], {}
                for x in pat:
                    if isinstance(x, tuple) and x[0] == "arr":
                        key.append(arr(x[1]))
                        subs.append(lambda v, a=x[1]: arr(a))
                    elif isinstance(x, tuple):
                        same = [o for o in names if sizes[o] == x[1]]
                        if same and rng.random() < .3:
                            o = rng.choice(same)
                        else:
                            o = defop(ty, name=rng.choice("ij"))
                            names.append(o)
                            sizes[o] = x[1]
                        if x[0] == "sym":
                            key.append(o())
                            subs.append(lambda v, o=o: arr(v[o]))
                        else:
                            key.append(getitem(arr(x[2]), (o(),)))
                            subs.append(lambda v, o=o, a=x[2]: arr(a[v[o]]))
                    else:
                        key.append(x)
                        subs.append(lambda v, x=x: x)
                if not names:
                    raise Skip
                x = mkx(shape)
                keep = x + 0
                vals = list(itertools.product(*[range(sizes[o]) for o in names]))
                first = run(lambda: x[tuple(f(dict(zip(names, vals[0]))) for f in subs)])
                if first[0] == "exc":
                    raise Skip
                r = getitem(x, tuple(key))
                eq({o: H.sizesof(r).get(o) for o in names}, sizes, f"sizes of the symbolic dimensions of x{list(shape)}[{pat}]")
                # some more indexing of the result, behind the symbolic dimensions
                cshape = first[1].shape
                pat2 = rand_key(rng, which, tuple(cshape), ["int", "slice", "array"]) if rng.random() < .4 and len(cshape) and all(cshape) else None
                key2 = tuple(arr(y[1]) if isinstance(y, tuple) else y for y in pat2) if pat2 is not None else None
                r2 = None
                if key2 is not None and run(lambda: first[1][key2])[0] == "ok":
                    r2 = getitem(r, key2)
                eq(tuple(r.shape), tuple(cshape), f"shape of x{list(shape)}[{pat}]")
                eq(r.ndim, len(cshape), "ndim")
                if which == "torch":
                    eq((r.dim(), tuple(r.size()), r.numel()), (len(cshape), tuple(cshape), first[1].numel()), "dim, size, numel")
                for v in vals[:24]:
                    env = dict(zip(names, v))
                    want = x[tuple(f(env) for f in subs)]
                    with handler({o: (lambda n=n: arr(n)) for o, n in env.items()}):
                        alike(evaluate(r), want, f"x{list(shape)}[{pat}] at {v}")
                        if r2 is not None:
                            alike(evaluate(r2), want[key2], f"x{list(shape)}[{pat}] at {v}, [{key2}]")
                alike(x, keep, "the array indexed")
            yield k, go
    return gen


contract("C16", "torch, concrete keys", ["effectful.handlers.torch.torch_getitem", "effectful.internals.tensor_utils._desugar_tensor_index"], "torch_getitem on random keys of integers, slices, ellipsis, new axes, lists, index arrays of rank 0-2: what tensor[key] gives, errors included", "rank <= 4, extents <= 4")(concrete("torch"))
contract("C16", "jax, concrete keys", ["effectful.handlers.jax.jax_getitem"], "the same for jax_getitem", "rank <= 4, extents <= 4")(concrete("jax"))
contract("C16", "torch, symbolic keys", ["effectful.handlers.torch.torch_getitem", "effectful.handlers.torch._EagerTensorTerm", "effectful.handlers.torch._partial_eval"], "keys mixing symbolic dimensions (repeated ones too) and index arrays that have one with all the rest: sizes, shape and value at every setting agree with ordinary indexing; then indexed again", "rank <= 4, extents <= 4")(symbolic("torch"))
contract("C16", "jax, symbolic keys", ["effectful.handlers.jax.jax_getitem", "effectful.handlers.jax._terms._EagerArrayTerm", "effectful.handlers.jax._handlers._partial_eval"], "the same for jax", "rank <= 4, extents <= 4")(symbolic("jax"))


@contract("C16", "desugaring", ["effectful.internals.tensor_utils._desugar_tensor_index"], "x.reshape(shape1)[key1] = x[key] for numpy arrays and every key of integers, full slices, ellipsis and new axes of up to 5 entries over ranks 0-3, and key1 has one entry per axis", "rank <= 3, keys <= 5")
def desugar(t):
    import numpy as np
    from effectful.internals.tensor_utils import _desugar_tensor_index as f
    for rank in range(4):
        for n in range(t.n(5, 6)):
            def go(rank=rank, n=n):
                shape = (2, 3, 4)[:rank]
                x = np.arange(int(np.prod(shape))).reshape(shape)
                m = 0
                for key in itertools.product([1, slice(None), slice(1, None), None, ...], repeat=n):
                    if key.count(...) > 1 or sum(k is not None and k is not ... for k in key) > rank:
                        continue
                    s, k = f(shape, key)
                    require(None not in k and not any(q is ... for q in k) and len(k) == len(s), f"{shape} {key}: {s} {k}")
                    a, b = x.reshape(s)[tuple(k)], x[key]
                    require(a.shape == b.shape and (a == b).all(), f"{shape} {key}: {s} {k}")
                    s2, k2 = f(s, k)
                    eq((list(s2), list(k2)), (list(s), list(k)), "desugaring again")
                    m += 1
                return f"{m} keys"
            yield f"rank {rank} keys of {n}", go


@contract("C16", "sizes", ["effectful.handlers.torch.sizesof", "effectful.handlers.jax.sizesof"], "a symbolic dimension used at two different sizes, in one key or in two arrays, is rejected")
def sizes(t):
    from effectful.ops.syntax import defop
    for which in ("torch", "jax"):
        def go(which=which):
            H, getitem, ty, arr, mkx = lib(which)
            i, j = defop(ty, name="i"), defop(ty, name="j")
            x, y = mkx((2, 3)), mkx((3,))
            raises(ValueError, lambda: getitem(x, (i(), i())))
            a, b = getitem(x, (i(), j())), getitem(y, (i(),))
            raises(ValueError, lambda: H.sizesof([a, b]))
            raises(ValueError, lambda: a + b)
            eq(dict(H.sizesof([a, getitem(y, (j(),))])), {i: 2, j: 3}, "sizes")
        yield which, go
