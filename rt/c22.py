"""C22: the torch.func wrappers only thread named dimensions through.

Contract (on the real wrappers): for every function f, arguments a, k with named
dimensions and setting v of the names,
    T(f, **opts)(*a, **k) at v  ==  torch.func.T(f at v, **opts)(*(a at v), **(k at v)).
"""
from rt.core import *  # noqa: F403
from rt.c17 import settings, setting
import itertools

FUNCS = "effectful/handlers/torch.py:"


def torch_():
    import effectful.handlers.torch as H
    import torch
    return H, torch


def tree(f, x):
    if isinstance(x, (list, tuple)):
        return type(x)(tree(f, y) for y in x)
    if isinstance(x, dict):
        return {k: tree(f, y) for k, y in x.items()}
    return f(x)


def at(x, v):
    """x with its named dimensions set as v says."""
    H, torch = torch_()

    def one(y):
        if not isinstance(y, torch.Tensor):
            return y
        ns = list(H.sizesof(y))
        if not ns:
            return y
        return H.bind_dims(y, *ns)[tuple(v[n] for n in ns)]
    return tree(one, x)


def same(a, b, what):
    H, torch = torch_()
    if isinstance(b, (list, tuple)):
        require(isinstance(a, (list, tuple)) and len(a) == len(b), "%s: %r instead of %d results" % (what, type(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, "%s[%d]" % (what, i))
        return
    if isinstance(b, dict):
        require(isinstance(a, dict) and a.keys() == b.keys(), "%s: %r instead of a dict of %r" % (what, type(a), list(b)))
        for i in b:
            same(a[i], b[i], "%s[%r]" % (what, i))
        return
    if not isinstance(b, torch.Tensor):
        require(a == b, "%s: %r instead of %r" % (what, a, b))
        return
    require(isinstance(a, torch.Tensor), "%s: %r is not a tensor" % (what, type(a)))
    require(a.shape == b.shape, "%s: shape %r instead of %r" % (what, tuple(a.shape), tuple(b.shape)))
    require(torch.allclose(a.float(), b.float(), atol=1e-4, rtol=1e-4, equal_nan=True), "%s: %r instead of %r" % (what, a, b))


class Case:
    """A function of one to three tensors and keywords, with arguments and captured tensors that may have names."""

    def __init__(self, rng, closure=True, scalar=False, struct=True, argtrees=True):
        H, torch = torch_()
        from effectful.ops.syntax import defop
        self.rng = rng
        self.names = [defop(torch.Tensor, name=n) for n in rng.sample("ijij"[:2] + "k", rng.randint(0, 2))]
        self.cnames = ([defop(torch.Tensor, name="c")] if rng.random() < .7 else []) + rng.sample(self.names, min(len(self.names), rng.randint(0, 1))) if closure and rng.random() < .6 else []
        self.sizes = {n: rng.randint(2, 3) for n in [*self.names, *self.cnames]}
        self.shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
        n = rng.randint(1, 3)
        self.args = [self.tensor(self.shape if i == 0 or rng.random() < .5 else self.shape[rng.randint(0, len(self.shape)):], self.names) for i in range(n)]
        self.pair = argtrees and rng.random() < .2
        if self.pair:
            self.args[0] = (self.args[0], self.tensor(self.shape, self.names))
        self.kw = {k: self.tensor((), self.names) if rng.random() < .7 else rng.choice([2., -3.]) for k in rng.sample(["scale", "shift"], rng.choice([0, 0, 1, 2]))}
        self.caught = self.tensor(self.shape, self.cnames, all_=True)
        self.coef = [rng.choice([1., 2., -1., .5]) for _ in range(6)]
        self.scalar, self.struct = scalar, rng.choice(["one", "one", "list", "tuple", "dict", "nested"]) if struct else "one"
        self.captures = closure and bool(self.cnames) or rng.random() < .3

    def tensor(self, shape, names, all_=False):
        H, torch = torch_()
        ns = list(names) if all_ else [n for n in names if self.rng.random() < .75]
        x = torch.tensor([self.rng.randint(-8, 8) / 4. for _ in range(_prod(shape) * _prod(self.sizes[n] for n in ns))]).reshape([self.sizes[n] for n in ns] + list(shape))
        return H.torch_getitem(x, tuple(n() for n in ns)) if ns else x

    def f(self, v, aux=False):
        import torch
        caught = self.caught if v is None else at(self.caught, v)
        c, caps, struct, scalar, pair = self.coef, self.captures, self.struct, self.scalar, self.pair

        def fn(x, *ys, scale=1.5, shift=.25):
            if pair:
                x, x2 = x
                x = x * 2 + x2.sin()
            r = torch.sin(x * c[0]) * scale + x * x * c[1] + shift
            for i, y in enumerate(ys):
                r = r + torch.cos(x) * y * c[2 + i] - y * y * y
            if caps:
                r = r + caught * x if not scalar else r + (caught * x)
            if scalar:
                r = r.sum()
            if struct == "one":
                out = r
            elif struct == "list":
                out = [r, x * 3]
            elif struct == "tuple":
                out = (r,)
            elif struct == "dict":
                out = {"a": r, "b": x + caught}
            else:
                out = (r, [x * c[5], {"q": r * r}])
            return (out, {"aux": x * 2, "cap": caught + 1}) if aux else out
        return fn

    def settings(self):
        ns = list(self.sizes)
        for vals in itertools.product(*[range(self.sizes[n]) for n in ns]):
            yield dict(zip(ns, vals))


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def refused(r):
    return r[0] == "exc"


def check(case, name, opts, aux=False):
    H, torch = torch_()
    w, plain = getattr(H, name), getattr(torch.func, name)
    want = {}
    for v in case.settings():
        key = tuple(v.values())
        try:
            want[key] = plain(case.f(v, aux), **opts)(*at(case.args, v), **at(case.kw, v))
        except Exception as e:
            raise Skip("torch.func.%s refuses this call: %s" % (name, type(e).__name__))
    pos, rest = [], dict(opts)
    if case.rng.random() < .5:  # options by position
        order = {"vmap": [("in_dims", 0), ("out_dims", 0)], "hessian": [("argnums", 0)], "jacrev": [("argnums", 0)]}.get(name, [("argnums", 0), ("has_aux", False)])
        pos = [rest.pop(k, d) for k, d in order[:case.rng.choice([1, len(order), len(order)])]]
    got = w(case.f(None, aux), *pos, **rest)(*case.args, **case.kw)
    for v in case.settings():
        same(at(got, v), want[tuple(v.values())], "%s at %r" % (name, list(v.values())))


def argnums(rng, case):
    n = len(case.args)
    k = rng.randrange(4)
    if k < 2:
        return {}
    if k == 2:
        return {"argnums": rng.randrange(n)}
    return {"argnums": tuple(sorted(rng.sample(range(n), rng.randint(1, n))))}


@contract("C22", "grad", on=[FUNCS + "grad", FUNCS + "_indexed_func_wrapper"],
          rule="grad(f)(*a, **k) at each setting of the names is torch.func.grad of f at that setting", bound="random functions of 1-3 tensors of rank 0-2, 0-2 names of size 2-3")
def c_grad(t):
    def one(r):
        aux = r.random() < .25
        case = Case(r, closure=False, scalar=True, struct=False)
        case.cnames = []
        return check(case, "grad", {**argnums(r, case), **({"has_aux": True} if aux else {})}, aux)
    for key, r in t.each(t.n(60, 600), "grad"):
        yield key, lambda r=r: one(r)


@contract("C22", "jacobians", on=[FUNCS + "jacfwd", FUNCS + "jacrev", FUNCS + "hessian", FUNCS + "_indexed_func_wrapper"],
          rule="jacfwd/jacrev/hessian at each setting of the names are torch.func's of f at that setting, for results of any structure and captured arrays with names", bound="random functions of 1-3 tensors of rank 0-2, 0-3 names of size 2-3")
def c_jac(t):
    def one(r, name):
        aux = name != "hessian" and r.random() < .25
        case = Case(r, struct=name != "hessian" or r.random() < .3, scalar=r.random() < .5)
        if name != "jacrev":
            case.kw = {}  # refused by torch.func
        return check(case, name, {**argnums(r, case), **({"has_aux": True} if aux else {})}, aux)
    for name in ("jacfwd", "jacrev", "hessian"):
        for key, r in t.each(t.n(45, 450), name):
            yield key, lambda r=r, name=name: one(r, name)


@contract("C22", "vmap", on=[FUNCS + "vmap", FUNCS + "_indexed_func_wrapper"],
          rule="vmap(f, in_dims, out_dims)(*a, **k) at each setting of the names is torch.func.vmap of f at that setting", bound="random functions of 1-3 tensors of rank 0-2 and a mapped axis of size 2-3, 0-3 names")
def c_vmap(t):
    def one(r):
        H, torch = torch_()
        case = Case(r, argtrees=False)
        B = r.randint(2, 3)
        in_dims, args = [], []
        for a in list(case.args):
            ns = list(H.sizesof(a))
            p = H.bind_dims(a, *ns) if ns else a
            if r.random() < .25 and in_dims:
                in_dims.append(None)
                args.append(a)
                continue
            rank = p.ndim - len(ns)
            d = r.randint(0, rank)
            q = torch.stack([p * (b + 1) - b for b in range(B)], dim=len(ns) + d)
            in_dims.append(d if r.random() < .7 else d - rank - 1)
            args.append(H.torch_getitem(q, tuple(n() for n in ns)) if ns else q)
        case.args = args
        case.kw = {k: v for k, v in case.kw.items() if not isinstance(v, torch.Tensor) or r.random() < 0}
        opts = {}
        if any(d != 0 for d in in_dims) or r.random() < .3:
            opts["in_dims"] = tuple(in_dims)
        if r.random() < .4 and case.struct == "one":
            opts["out_dims"] = r.randint(0, len(case.shape)) if r.random() < .6 and not case.scalar else r.choice([-1, 0])
            if r.random() < .3:
                opts["out_dims"] = (opts["out_dims"],)
        elif r.random() < .4 and case.struct in ("tuple", "list"):
            k = 2 if case.struct == "list" else 1
            opts["out_dims"] = {"tuple": tuple, "list": list}[case.struct](r.choice([0, -1]) for _ in range(k))
        if r.random() < .2:
            opts["chunk_size"] = 1
        return check(case, "vmap", opts)
    for key, r in t.each(t.n(70, 700), "vmap"):
        yield key, lambda r=r: one(r)


@contract("C22", "vjp and jvp", on=[FUNCS + "vjp", FUNCS + "jvp"],
          rule="vjp and jvp at each setting of the names are torch.func's of f at that setting", bound="random functions of 1-3 tensors of rank 0-2, 0-3 names of size 2-3")
def c_vjp(t):
    def jvp(r):
        H, torch = torch_()
        case = Case(r, argtrees=False)
        case.kw = {}
        aux = r.random() < .2
        tang = [tree(lambda x: x * 0 + case.tensor(_shape(x), case.names), a) for a in case.args]
        opts = {"has_aux": True} if aux else {}
        got = H.jvp(case.f(None, aux), tuple(case.args), tuple(tang), **opts)
        for v in case.settings():
            same(at(got, v), torch.func.jvp(case.f(v, aux), tuple(at(case.args, v)), tuple(at(tang, v)), **opts), "jvp at %r" % list(v.values()))

    def vjp(r):
        H, torch = torch_()
        case = Case(r, argtrees=False, closure=r.random() < .5, struct=r.random() < .5)
        case.kw = {}
        out, fn = H.vjp(case.f(None), *case.args)
        cot = tree(lambda x: x * 0 + case.tensor(_shape(x), []), out)
        got = fn(cot)
        # names in the result but not in an argument are summed out of its cotangent; names in an argument are kept
        for v in case.settings():
            same(at(out, v), case.f(v)(*at(case.args, v)), "the value vjp returns at %r" % list(v.values()))
        argnames = set().union(*[H.sizesof(a) for a in case.args])
        require(isinstance(got, (list, tuple)) and len(got) == len(case.args), "vjp gives %r" % (got,))
        for i, a in enumerate(case.args):
            own = list(H.sizesof(a))
            require(set(H.sizesof(got[i])) == set(own), "the cotangent of argument %d is indexed by %r" % (i, list(H.sizesof(got[i]))))
            for vals in itertools.product(*[range(case.sizes[n]) for n in own]):
                fixed = dict(zip(own, vals))
                tot = None
                for j, leaf in enumerate(_leaves(out)):
                    names = set(H.sizesof(leaf)) | set(own)
                    for v in case.settings():
                        if any(v[n] != fixed[n] for n in own) or any(v[n] and n not in names for n in v):
                            continue
                        o, g = torch.func.vjp(case.f(v), *at(case.args, v))
                        w = g(_only(at(cot, v), j))[i]
                        tot = w if tot is None else tot + w
                same(at(got[i], fixed), tot, "vjp for argument %d at %r" % (i, vals))

    for key, r in t.each(t.n(40, 400), "jvp"):
        yield key, lambda r=r: jvp(r)
    for key, r in t.each(t.n(40, 400), "vjp"):
        yield key, lambda r=r: vjp(r)


def _leaves(x):
    ls = []
    tree(ls.append, x)
    return ls


def _only(x, j):
    """x with every leaf but the j-th zeroed."""
    k = itertools.count()
    return tree(lambda y: y if next(k) == j else y * 0, x)


def _shape(x):
    H, torch = torch_()
    ns = list(H.sizesof(x))
    return tuple((H.bind_dims(x, *ns) if ns else x).shape)[len(ns):]


@contract("C22", "jit", on=["effectful.handlers.jax._handlers.jit", "effectful.handlers.jax._handlers._indexed_func_wrapper"],
          rule="jit(f, ...)(*a, **k) at each setting of the names is f at that setting, whatever calls came before", bound="random functions of arrays of several shapes and static arguments, captured arrays with 0-2 names of size 1-3, 6 calls each")
def c_jit(t):
    import jax
    import jax.numpy as jnp
    from effectful.handlers.jax import bind_dims, jax_getitem, jit, sizesof
    from effectful.ops.syntax import defop

    def one(r):
        names = [defop(jax.Array, name=n) for n in r.sample(["i", "j", "i"], r.randint(1, 2))]
        sizes = {n: r.randint(1, 3) for n in names}
        caught = []
        subsets = [list(x) for k in range(len(names) + 1) for x in itertools.permutations(names, k)]
        for ns in r.sample(subsets, 3) if len(subsets) > 2 else [[], names, []]:
            x = jnp.array([r.randint(-8, 8) / 4. for _ in range(_prod(sizes[n] for n in ns))]).reshape([sizes[n] for n in ns])
            caught.append((ns, x))
        struct = r.choice(["one", "tuple", "dict"])

        def f(v):
            def pick(i):
                ns, x = caught[i % 3]
                if v is not None:
                    return x[tuple(v[n] for n in ns)]
                return jax_getitem(x, tuple(n() for n in ns)) if ns else x

            def fn(a, b=2., *, flag="p"):
                c = pick(a.ndim + (flag == "q"))
                y = jnp.sin(a) * b + c
                return y if struct == "one" else (y, [a * 3, pick(a.ndim + 1) + 0. * b]) if struct == "tuple" else {"y": y, "n": None, "a": a - c}
            return fn
        g = jit(f(None), static_argnames=r.choice([("flag",), "flag"]))
        differ = set()
        shapes = r.sample([(), (2,), (2, 3)], 2)
        for _ in range(6):
            shape = r.choice(shapes)
            a = jnp.array([r.randint(-8, 8) / 4. for _ in range(_prod(shape))]).reshape(shape)
            pos = [jnp.float32(r.randint(1, 3))] if r.random() < .4 else []
            kw = {"flag": r.choice("pq")} if r.random() < .6 else {}
            if not pos and r.random() < .3:
                kw["b"] = jnp.float32(.5)
            got, plain = g(a, *pos, **kw), f({n: 0 for n in names})(a, *pos, **kw)
            used = set().union(*[sizesof(x) for x in jax.tree.leaves(got)])
            differ.add(frozenset(used))
            want_names = [set(caught[(len(shape) + (kw.get("flag") == "q")) % 3][0])]
            for x in jax.tree.leaves(got)[:1]:
                if struct != "dict":
                    require(set(sizesof(x)) == want_names[0], "jit: named dimensions %r instead of %r" % (list(sizesof(x)), want_names[0]))
            require(jax.tree.structure(jax.tree.map(lambda x: 0, got)) == jax.tree.structure(plain), "jit: a result of another structure")
            for vals in itertools.product(*[range(sizes[n]) for n in names]):
                v = dict(zip(names, vals))
                for x, y in zip(jax.tree.leaves(got), jax.tree.leaves(f(v)(a, *pos, **kw))):
                    ns = list(sizesof(x))
                    require(all(sizesof(x)[n] == sizes[n] for n in ns), "jit: size of a named dimension")
                    z = bind_dims(x, *ns)[tuple(v[n] for n in ns)] if ns else x
                    require(z.shape == y.shape, "jit: shape %r instead of %r" % (z.shape, y.shape))
                    require(bool(jnp.allclose(z, y, atol=1e-4)), "jit at %r: %r instead of %r" % (vals, z, y))
        return None if len(differ) > 1 else "trivial"
    for key, r in t.each(t.n(8, 80), "jit"):
        yield key, lambda r=r: one(r)
