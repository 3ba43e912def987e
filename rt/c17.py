from rt.core import *  # noqa: F403
from rt.c18 import alike, run
import itertools


def lib(which):
    import numpy as np
    if which == "torch":
        import effectful.handlers.torch as H
        import torch
        F = dict(
            un=[torch.exp, torch.neg, torch.abs, lambda a: torch.clamp(a, min=0.5), lambda a: torch.softmax(a, dim=-1), lambda a: torch.cumsum(a, 0), lambda a: torch.flip(a, dims=[0]), lambda a: -a, lambda a: a * 2 + 1, lambda a: 3 - a, lambda a: torch.argsort(a, dim=0) * 1., lambda a: torch.max(a, 0, keepdim=True)[0] - a, lambda a: torch.where(a > 0, a, torch.tensor(7.))],
            bi=[torch.add, torch.mul, torch.maximum, lambda a, b: a - b, lambda a, b: torch.where(a < b, a, b), lambda a, b: torch.sub(a, other=b), lambda a, b: torch.lerp(a, b, weight=.25), lambda a, b: torch.broadcast_tensors(a, b)[0] + b],
            red=[lambda a, d: torch.sum(a, d), lambda a, d: torch.max(a, dim=d)[0], lambda a, d: torch.mean(a, dim=d), lambda a, d: torch.logsumexp(a, d), lambda a, d: torch.prod(input=a, dim=d) / 100],
            stack=lambda xs, d: torch.stack(xs, dim=d), cat=lambda xs, d: torch.cat(xs, dim=d), reshape=lambda a, s: torch.reshape(a, s), permute=lambda a, p: torch.permute(a, p),
            matmul=[torch.matmul, lambda a, b: a @ b, lambda a, b: torch.einsum("...ij,...jk->...ik", a, b)], expand=lambda a, s: torch.broadcast_to(a, s))
        return H, H.torch_getitem, torch.Tensor, lambda v: torch.tensor(v), lambda v: torch.tensor(np.asarray(v, dtype="float32")), torch.stack, F
    import effectful.handlers.jax as H
    import jax
    import effectful.handlers.jax.numpy as jnp
    import jax.numpy as J
    F = dict(
        un=[jnp.exp, jnp.negative, jnp.abs, lambda a: jnp.clip(a, min=.5), lambda a: jnp.cumsum(a, axis=0), lambda a: jnp.flip(a, axis=0), lambda a: -a, lambda a: a * 2 + 1, lambda a: 3 - a, lambda a: jnp.argsort(a, axis=0) * 1., lambda a: jnp.max(a, axis=0, keepdims=True) - a, lambda a: jnp.where(a > 0, a, 7.)],
        bi=[jnp.add, jnp.multiply, jnp.maximum, lambda a, b: a - b, lambda a, b: jnp.where(a < b, a, b), lambda a, b: jnp.divide(a, 3 + abs(b))],
        red=[lambda a, d: jnp.sum(a, d), lambda a, d: jnp.max(a, axis=d), lambda a, d: jnp.mean(a, axis=d), lambda a, d: jnp.prod(a, axis=d) / 100],
        stack=lambda xs, d: jnp.stack(xs, axis=d), cat=lambda xs, d: jnp.concatenate(xs, axis=d), reshape=lambda a, s: jnp.reshape(a, s), permute=lambda a, p: jnp.transpose(a, p),
        matmul=[jnp.matmul, lambda a, b: a @ b, lambda a, b: jnp.einsum("...ij,...jk->...ik", a, b)], expand=lambda a, s: jnp.broadcast_to(a, s))
    return H, H.jax_getitem, jax.Array, lambda v: J.asarray(np.asarray(v)), lambda v: J.asarray(np.asarray(v, dtype="float32")), J.stack, F


class Prog:
    """A random program over arrays, some with named dimensions; run(v) computes it, v a setting of the names or None (symbolic)."""

    def __init__(self, rng, L, names, sizes, depth, p_named=.6):
        self.rng, self.L, self.names, self.sizes, self.p = rng, L, names, sizes, p_named
        self.used = set()
        self.shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
        self.f = self.expr(self.shape, depth)

    def leaf(self, shape):
        import numpy as np
        rng, (H, getitem, ty, idx, arr, stack, F) = self.rng, self.L
        if not self.names or rng.random() > self.p:
            x = arr(np.array([rng.randint(-3, 3) for _ in range(int(np.prod(shape)))]).reshape(shape))
            return lambda v: x
        ns = rng.sample(self.names, rng.randint(1, min(2, len(self.names))))
        if rng.random() < .15:
            ns.append(rng.choice(ns))
        self.used |= set(ns)
        dims = [("n", n) for n in ns] + [("p", s) for s in shape]
        if rng.random() < .6:
            # keep positional dimensions in order, names anywhere
            pos = sorted(rng.sample(range(len(dims)), len(ns)))
            it, jt = iter(ns), iter(shape)
            dims = [("n", next(it)) if i in pos else ("p", next(jt)) for i in range(len(dims))]
        full = tuple(self.sizes[d[1]] if d[0] == "n" else d[1] for d in dims)
        x = arr(np.array([rng.randint(-3, 3) for _ in range(int(np.prod(full)))]).reshape(full))
        if rng.random() < .3 and dims[-1][0] == "n" and dims[0][0] == "p" and all(d[0] == "n" for d in dims[len(shape):]):
            tail = tuple(d[1] for d in dims[len(shape):])
            return lambda v: getitem(x, (Ellipsis,) + tuple(n() for n in tail)) if v is None else x[(Ellipsis,) + tuple(v[n] for n in tail)]
        return lambda v: getitem(x, tuple(d[1]() if d[0] == "n" else slice(None) for d in dims)) if v is None else x[tuple(v[d[1]] if d[0] == "n" else slice(None) for d in dims)]

    def expr(self, shape, d):
        rng, F = self.rng, self.L[-1]
        k = rng.randrange(12)
        if d <= 0 or k == 0:
            return self.leaf(shape)
        if k in (1, 2) and shape:
            f, a = rng.choice(F["un"]), self.expr(shape, d - 1)
            return lambda v: f(a(v))
        if k in (3, 4):
            f = rng.choice(F["bi"])
            a, b = self.expr(shape, d - 1), self.expr(tuple(rng.choice([s, s, 1]) for s in shape)[rng.randint(0, len(shape)) if rng.random() < .4 else 0:], d - 1)
            return lambda v: f(a(v), b(v))
        if k in (5, 6) and len(shape) < 3:
            f, i = rng.choice(F["red"]), rng.randint(0, len(shape))
            a = self.expr(shape[:i] + (rng.randint(1, 3),) + shape[i:], d - 1)
            i = i if rng.random() < .6 else i - len(shape) - 1
            return lambda v: f(a(v), i)
        if k == 7 and shape:
            i = rng.randrange(len(shape))
            xs = [self.expr(shape[:i] + shape[i + 1:], d - 1) for _ in range(shape[i])]
            return lambda v: F["stack"]([x(v) for x in xs], i)
        if k == 8 and shape and any(s > 1 for s in shape):
            i = rng.choice([j for j, s in enumerate(shape) if s > 1])
            n = rng.randint(1, shape[i] - 1)
            a, b = self.expr(shape[:i] + (n,) + shape[i + 1:], d - 1), self.expr(shape[:i] + (shape[i] - n,) + shape[i + 1:], d - 1)
            return lambda v: F["cat"]([a(v), b(v)], i)
        if k == 9:
            import numpy as np
            n = int(np.prod(shape))
            a = self.expr(rng.choice([(n,), (1, n), (n, 1)]), d - 1)
            return lambda v: F["reshape"](a(v), shape)
        if k == 10 and len(shape) >= 2:
            p = rng.sample(range(len(shape)), len(shape))
            inv = [p.index(i) for i in range(len(shape))]
            a = self.expr(tuple(shape[inv[i]] for i in range(len(shape))), d - 1)
            return lambda v: F["permute"](a(v), tuple(p))
        if k == 11 and len(shape) >= 2:
            m = rng.randint(1, 3)
            f = rng.choice(F["matmul"])
            a, b = self.expr(shape[:-1] + (m,), d - 1), self.expr(shape[:-2] + (m,) + shape[-1:] if rng.random() < .5 else (m,) + shape[-1:], d - 1)
            return lambda v: f(a(v), b(v))
        return self.expr(shape, d - 1)


def setting(r, v, idx):
    from effectful.ops.semantics import evaluate, handler
    with handler({n: (lambda x: lambda: idx(x))(x) for n, x in v.items()}):
        return evaluate(r)


def settings(names, sizes):
    for v in itertools.product(*[range(sizes[n]) for n in names]):
        yield dict(zip(names, v))


def stacked(L, names, sizes, f):
    """The array with one leading axis per name, from its values at each setting."""
    def go(ns, v):
        if not ns:
            return f(v)
        return L[5]([go(ns[1:], {**v, ns[0]: i}) for i in range(sizes[ns[0]])])
    return go(list(names), {})


def functions(which):
    def gen(t):
        from effectful.ops.syntax import defop
        from effectful.ops.types import Term
        L = lib(which)
        H, getitem, ty, idx, arr, stack, F = L
        for k, rng in t.each(t.n(220 if which == "torch" else 90, 3000 if which == "torch" else 700)):
            def go(rng=rng):
                names = [defop(ty, name=rng.choice("ijk")) for _ in range(rng.randint(1, 3))]
                sizes = {n: rng.randint(1, 3) for n in names}
                p = Prog(rng, L, names, sizes, rng.choice([0, 1, 1, 2, 3]))
                used = [n for n in names if n in p.used]
                r = p.f(None)
                what = f"program of shape {p.shape}, named {[(str(n), sizes[n]) for n in used]}"
                eq({n: int(s) for n, s in H.sizesof(r).items()}, {n: sizes[n] for n in used}, "sizes: " + what)
                eq(tuple(r.shape), p.shape, "shape: " + what)
                require(isinstance(r, Term) == bool(used), "an array with named dimensions is a term: " + what)
                at = {tuple(v.values()): p.f(v) for v in settings(used, sizes)}
                look = lambda v: at[tuple(v[n] for n in used)]  # noqa: E731
                for v in settings(used, sizes):
                    alike(setting(r, v, idx), look(v), f"{what} at {v}")
                    if rng.random() < .3:
                        break
                if not used:
                    return "trivial"
                order = rng.sample(used, len(used))
                whole = stacked(L, order, sizes, look)
                b = H.bind_dims(r, *order)
                require(not isinstance(b, Term), "no names are left after binding all")
                alike(b, whole, f"bind_dims to {order}: {what}")
                u = H.unbind_dims(b, *order)
                for v in settings(used, sizes):
                    alike(setting(u, v, idx), look(v), f"unbind_dims after bind_dims: {what} at {v}")
                alike(H.bind_dims(u, *order), whole, f"bind again: {what}")
                part = order[:rng.randint(0, len(order))]
                rest = [n for n in used if n not in part]
                bp = H.bind_dims(r, *part)
                eq({n: int(s) for n, s in H.sizesof(bp).items()}, {n: sizes[n] for n in rest}, f"names kept by bind_dims of {part}: {what}")
                eq(tuple(bp.shape), tuple(sizes[n] for n in part) + p.shape, "shape after binding a part")
                for v in settings(rest, sizes):
                    alike(setting(bp, v, idx), stacked(L, part, sizes, lambda w: look({**w, **v})), f"bind_dims of {part} at {v}: {what}")
                up = H.unbind_dims(bp, *part)
                for v in settings(used, sizes):
                    alike(setting(up, v, idx), look(v), f"unbind_dims of {part}: {what} at {v}")
                # renaming dimensions: unbind with other names
                fresh = [defop(ty, name=str(n)) for n in part]
                un = H.unbind_dims(bp, *fresh)
                for v in settings(used, sizes):
                    alike(setting(un, {dict(zip(part, fresh)).get(n, n): x for n, x in v.items()}, idx), look(v), f"unbind_dims with new names: {what} at {v}")
            yield k, go
    return gen


def trees(which):
    def gen(t):
        from effectful.ops.syntax import defop
        L = lib(which)
        H, getitem, ty, idx, arr, stack, F = L
        for k, rng in t.each(t.n(60 if which == "torch" else 30, 600 if which == "torch" else 150)):
            def go(rng=rng):
                """bind_dims and unbind_dims of nested containers act on every array in them."""
                n, m = defop(ty, name="n"), defop(ty, name="m")
                sizes = {n: rng.randint(1, 3), m: rng.randint(1, 3)}
                progs = []

                def leaf():
                    while True:
                        p = Prog(rng, L, [n, m], sizes, rng.randint(0, 1), 1)
                        if p.used == {n, m}:
                            break
                    progs.append(p)
                    return len(progs) - 1

                def tree(d):
                    c = rng.randrange(4) if d else 3
                    if c == 3:
                        return leaf()
                    kids = [tree(d - 1) for _ in range(rng.randint(1, 2))]
                    return [tuple(kids), kids, dict(zip("ab", kids))][c]

                def build(s, f):
                    if isinstance(s, int):
                        return f(progs[s])
                    if isinstance(s, dict):
                        return {q: build(x, f) for q, x in s.items()}
                    return type(s)(build(x, f) for x in s)

                def same(s, a, f, what):
                    if isinstance(s, int):
                        f(progs[s], a)
                    else:
                        require(type(a) is type(s) and len(a) == len(s), f"container kept: {what}")
                        for q in (s if isinstance(s, dict) else range(len(s))):
                            same(s[q], a[q], f, what)
                s = tree(2)
                val = build(s, lambda p: p.f(None))
                order = rng.sample([n, m], 2)
                b = H.bind_dims(val, *order)
                same(s, b, lambda p, a: alike(a, stacked(L, order, sizes, p.f), "bind_dims in a container"), "bind_dims")
                u = H.unbind_dims(b, *order)
                same(s, u, lambda p, a: [alike(setting(a, v, idx), p.f(v), "unbind_dims in a container") for v in settings([n, m], sizes)], "unbind_dims")
                eq({q: int(x) for q, x in H.sizesof(val).items()}, sizes, "sizes of a container")
            yield k, go
    return gen


def conflicts(which):
    def gen(t):
        from effectful.ops.syntax import defop
        L = lib(which)
        H, getitem, ty, idx, arr, stack, F = L
        for k, rng in t.each(t.n(60, 600)):
            def go(rng=rng):
                import numpy as np
                n, m = defop(ty, name="n"), defop(ty, name="m")
                a, b = rng.sample(range(1, 5), 2)
                pre, post = rng.choice([(), (2,)]), rng.choice([(), (3,)])
                mk = lambda s, *q: getitem(arr(np.ones(pre + (s,) * len(q) + post)), (slice(None),) * len(pre) + tuple(o() for o in q))  # noqa: E731
                x, y = mk(a, n), mk(b, n)
                require(run(lambda: H.sizesof((x, y)))[1] == "ValueError", f"{a} and {b} for one name in two arrays")
                require(run(lambda: x + y)[1] == "ValueError", f"adding arrays with one name of sizes {a} and {b}")
                require(run(lambda: F["cat"]([x + m() * 0, y], 0) if False else F["bi"][0](x, y))[1] == "ValueError", "an array function of such arrays")
                one = lambda: getitem(arr(np.ones((a, b) + post)), (n(), n()))  # noqa: E731
                require(run(lambda: H.sizesof(one()))[1] == "ValueError", f"one array indexed twice by a name, sizes {a} and {b}")
                eq({q: int(s) for q, s in H.sizesof((x, mk(a, n), mk(b, m))).items()}, {n: a, m: b}, "equal sizes agree")
            yield k, go
    return gen


for _w in ("torch", "jax"):
    _h = "effectful.handlers.torch." if _w == "torch" else "effectful.handlers.jax._handlers."
    contract("C17", f"{_w}, functions", [_h + "_partial_eval", _h + ("_register_torch_op" if _w == "torch" else "_register_jax_op"), _h + "bind_dims", _h + "unbind_dims", _h + "sizesof"],
             "random programs of array functions over arrays with up to three named dimensions: value at every setting, sizes, shape, binding all or part of the names in any order, unbinding and renaming", "extents at most 3")(functions(_w))
    contract("C17", f"{_w}, containers", [_h + "bind_dims", _h + "unbind_dims"], "the same inside nested tuples, lists and dictionaries")(trees(_w))
    contract("C17", f"{_w}, conflicts", [_h + "sizesof"], "a name used at two different sizes is rejected, in one array or across arrays; equal sizes agree")(conflicts(_w))
