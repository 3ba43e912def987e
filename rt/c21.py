from rt.core import *  # noqa: F403
from rt.c17 import lib, setting, settings
from rt.c18 import alike, run
import itertools

N_ = "effectful.handlers.numpyro."


def draw(kind, shape, g, k=3):
    import jax.numpy as J
    import numpy as np
    r = lambda s: g.random(s)  # noqa: E731
    if kind == "real":
        x = r(shape) * 4 - 2
    elif kind == "pos":
        x = r(shape) * 2 + .5
    elif kind == "pos3":
        x = r(shape) * 2 + 3.5
    elif kind == "prob":
        x = r(shape) * .8 + .1
    elif kind == "high":
        x = r(shape) * 2 + 3
    elif kind == "count":
        return J.asarray(g.integers(1, 6, shape))
    elif kind == "simplex":
        x = r(shape + (k,)) + .2
        x = x / x.sum(-1, keepdims=True)
    elif kind == "posvec":
        x = r(shape + (k,)) * 2 + .5
    elif kind == "vec":
        x = r(shape + (k,)) * 4 - 2
    elif kind == "fac":
        x = r(shape + (k, 2)) * 2 - 1
    elif kind in ("tril", "spd"):
        x = np.tril(r(shape + (k, k)) * .6 - .3) + (r(shape + (k,)) + .6)[..., None] * np.eye(k)
        if kind == "spd":
            x = x @ np.swapaxes(x, -1, -2)
    else:
        raise KeyError(kind)
    return J.asarray(np.asarray(x, dtype="float32"))


# name -> [(parameter, kind, optional)]; parameter names are NumPyro's
F = {
    **{n: [("loc", "real", 1), ("scale", "pos", 1)] for n in ("Cauchy", "Gumbel", "Laplace", "LogNormal", "Logistic", "Normal")},
    "StudentT": [("df", "pos3", 0), ("loc", "real", 1), ("scale", "pos", 1)],
    "BernoulliProbs": [("probs", "prob", 0)], "CategoricalProbs": [("probs", "simplex", 0)], "GeometricProbs": [("probs", "prob", 0)],
    "BernoulliLogits": [("logits", "real", 0)], "CategoricalLogits": [("logits", "vec", 0)], "GeometricLogits": [("logits", "real", 0)],
    "Beta": [("concentration1", "pos", 0), ("concentration0", "pos", 0)], "Kumaraswamy": [("concentration1", "pos", 0), ("concentration0", "pos", 0)],
    "BinomialProbs": [("probs", "prob", 0), ("total_count", "count", 1)], "BinomialLogits": [("logits", "real", 0), ("total_count", "count", 1)],
    "NegativeBinomialProbs": [("total_count", "count", 0), ("probs", "prob", 0)], "NegativeBinomialLogits": [("total_count", "count", 0), ("logits", "real", 0)],
    "MultinomialProbs": [("probs", "simplex", 0), ("total_count", 4, 1)], "MultinomialLogits": [("logits", "vec", 0), ("total_count", 4, 1)],
    "Chi2": [("df", "pos", 0)], "Dirichlet": [("concentration", "posvec", 0)], "DirichletMultinomial": [("concentration", "posvec", 0), ("total_count", 4, 1)],
    "Exponential": [("rate", "pos", 1)], "Poisson": [("rate", "pos", 0)], "Gamma": [("concentration", "pos", 0), ("rate", "pos", 1)], "HalfCauchy": [("scale", "pos", 1)], "HalfNormal": [("scale", "pos", 1)],
    "LKJCholesky": [("dim", 3, 0), ("concentration", "pos", 1)],
    "MultivariateNormal": [("loc", "vec", 1), (("covariance_matrix", "precision_matrix", "scale_tril"), ("spd", "spd", "tril"), 0)],
    "Pareto": [("scale", "pos", 0), ("alpha", "pos", 0)], "Uniform": [("low", "real", 1), ("high", "high", 1)], "VonMises": [("loc", "real", 0), ("concentration", "pos", 0)], "Weibull": [("scale", "pos", 0), ("concentration", "pos", 0)],
    "Wishart": [("concentration", "pos3", 0), ("scale_tril", "tril", 0)], "Delta": [("v", "real", 1), ("log_density", "real", 1)],
    "LowRankMultivariateNormal": [("loc", "vec", 0), ("cov_factor", "fac", 0), ("cov_diag", "posvec", 0)], "RelaxedBernoulliLogits": [("temperature", "pos", 0), ("logits", "real", 0)],
}
ROLE = {("Wishart", "concentration"): "df", ("LKJCholesky", "dim"): "dim"}
REAL = {("LKJCholesky", "dim"): "dimension"}
EV = {"simplex": 1, "vec": 1, "posvec": 1, "tril": 2, "spd": 2, "fac": 2}


def mods():
    import effectful.handlers.numpyro as N
    import numpyro.distributions as dist
    return N, dist


def params(rng, g, name, batch, ranks=False):
    """parameter -> (value, kind)"""
    out = {}
    for p, kind, opt in F[name]:
        if isinstance(p, tuple):
            i = rng.randrange(len(p))
            p, kind = p[i], kind[i]
        b = batch
        if ranks and rng.random() < .4:
            b = batch[rng.randint(0, len(batch)):]
            b = tuple(1 if rng.random() < .2 else s for s in b)
        out[p] = (kind if not isinstance(kind, str) else draw(kind, b, g), kind, opt)
    return out


def real(name, p):
    N, dist = mods()
    return getattr(dist, name)(**{REAL.get((name, q), q): v for q, v in p.items()})


def term(name, p, rng=None):
    N, dist = mods()
    op = getattr(N, name)
    p = {ROLE.get((name, q), q): v for q, v in p.items()}
    names = [ROLE.get((name, q), q) for q, _, _ in F[name] if not isinstance(q, tuple)]
    if rng is not None and list(p)[:len(names)] == names:
        k = rng.randint(0, len(names))
        return op(*[p[q] for q in names[:k]], **{q: v for q, v in p.items() if q not in names[:k]})
    return op(**p)


def pk(seed=0):
    import jax
    return jax.random.PRNGKey(seed)


def sample(d, sh=()):
    import jax.numpy as J
    return J.asarray(d.sample(pk(5), sh))


def agree(tm, d, what, named=False):
    """The term behaves as the distribution d."""
    import jax.numpy as J
    x = sample(d)
    eq((tuple(tm.batch_shape), tuple(tm.event_shape)), (tuple(d.batch_shape), tuple(d.event_shape)), "shapes: " + what)
    alike(tm.log_prob(x), d.log_prob(x), "log density: " + what)
    alike(tm.sample(pk(5)), x, "sample: " + what)
    alike(tm.sample(pk(6), (2,)), d.sample(pk(6), (2,)), "samples: " + what)
    xs = d.sample(pk(6), (2,))
    alike(tm.log_prob(xs), d.log_prob(xs), "log densities of samples: " + what)
    eq(type(tm.support), type(d.support), "support: " + what)
    eq(bool(tm.has_rsample), bool(d.has_rsample), "has_rsample: " + what)
    if d.has_rsample:
        r = run(lambda: d.rsample(pk(7)))
        if r[0] == "ok":
            alike(tm.rsample(pk(7)), r[1], "reparametrised sample: " + what)
    for q in ("mean", "variance"):
        w = run(lambda: getattr(d, q))
        if w[0] == "ok":
            alike(getattr(tm, q), w[1], q + ": " + what)
    w = run(lambda: d.entropy())
    if w[0] == "ok":
        alike(tm.entropy(), w[1], "entropy: " + what)
    if d.has_enumerate_support:
        for expand in (True, False):
            w = run(lambda: d.enumerate_support(expand))
            if w[0] == "ok":
                alike(tm.enumerate_support(expand), w[1], f"enumerated support: {what}")


@contract("C21", "constructors and embedding", [N_ + "_DistributionTerm", N_ + "CauchyTerm", N_ + "_embed_wishart", N_ + "_embed_multivariatenormal"],
          "every family at random parameters of several batch shapes and ranks, given by position, by keyword or left to their defaults, concrete or as variables bound later: shapes, log density, samples, moments, entropy, support are those of NumPyro's distribution with the parameters in those roles; a concrete distribution made a term agrees too", "extents at most 3")
def constructors(t):
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Term
    import jax
    import numpy as np

    def one(rng, name):
        g = np.random.default_rng(rng.randrange(10**9))
        batch = rng.choice([(), (3,), (2, 3), (1,)])
        ps = params(rng, g, name, batch, ranks=name != "Delta")
        mode = rng.choice(["all", "defaults", "variables", "embed", "embed", "wrapped"])
        if mode == "defaults":
            ps = {q: v for q, v in ps.items() if not v[2]}
        p = {q: v[0] for q, v in ps.items()}
        if mode == "defaults" and rng.random() < .5:
            extra = [q for q in params(rng, g, name, batch) if q not in p]
            if extra:
                q = rng.choice(extra)
                p[q] = params(rng, g, name, batch)[q][0] if q in params(rng, g, name, batch) else p.get(q)
        what = f"{name}({', '.join(f'{q}: {getattr(v, "shape", v)}' for q, v in p.items())}) {mode}"
        try:
            d = real(name, p)
        except Exception:
            raise Skip
        if mode == "embed":
            tm = evaluate(d)
            require(isinstance(tm, Term) and tm.op is getattr(mods()[0], name), f"{what} becomes a term of its family")
        elif mode == "wrapped":
            n = rng.randint(0, len(d.batch_shape))
            tm, d = evaluate(mods()[1].Independent(d, n)), mods()[1].Independent(d, n)
            if len(d.batch_shape) + n == 0:
                raise Skip
        elif mode == "variables":
            v = {q: (defop(jax.Array, name=q) if isinstance(x, jax.Array) else None) for q, x in p.items()}
            tm = term(name, {q: v[q]() if v[q] else x for q, x in p.items()}, rng)
            require(isinstance(tm, Term), "a constructor of variables is a term")
            with handler({v[q]: (lambda x=x: x) for q, x in p.items() if v[q]}):
                tm = evaluate(tm)
        else:
            tm = term(name, p, rng)
        agree(tm, d, what)
        if mode in ("all", "embed") and rng.random() < .5:
            new = (2,) + tuple(d.batch_shape) if rng.random() < .5 else tuple(rng.randint(2, 3) if s == 1 else s for s in d.batch_shape)
            e, w = tm.expand(new), d.expand(new)
            eq((tuple(e.batch_shape), tuple(e.event_shape)), (tuple(w.batch_shape), tuple(w.event_shape)), f"shapes expanded to {new}: {what}")
            x = sample(w)
            alike(e.log_prob(x), w.log_prob(x), f"log density expanded to {new}: {what}")
        elif mode in ("all", "embed"):
            k = rng.randint(0, len(d.batch_shape))
            e, w = tm.to_event(k), d.to_event(k)
            eq((tuple(e.batch_shape), tuple(e.event_shape)), (tuple(w.batch_shape), tuple(w.event_shape)), f"shapes with {k} event dimensions: {what}")
            x = sample(w)
            alike(e.log_prob(x), w.log_prob(x), f"log density with {k} event dimensions: {what}")
    for name in F:
        for k, rng in t.each(t.n(6, 80), name):
            yield k, (lambda rng=rng, name=name: one(rng, name))


def named(t, part):
    from effectful.handlers.jax import bind_dims, jax_getitem, sizesof, unbind_dims
    from effectful.ops.syntax import defop
    import jax
    import jax.numpy as J
    import numpy as np
    L = lib("jax")

    def one(rng, name):
        g = np.random.default_rng(rng.randrange(10**9))
        ns = [defop(jax.Array, name=n) for n in "ij"[:rng.randint(1, 2)]]
        sizes = {n: rng.randint(1, 3) for n in ns}
        batch = rng.choice([(), (), (2,), (3,)])
        ranks = rng.random() < .4 and name != "Delta"
        ps = params(rng, g, name, batch, ranks)
        has, val, at = {}, {}, {}
        full = rng.random() < .5
        for q, (x, kind, opt) in ps.items():
            h = has[q] = [n for n in ns if isinstance(kind, str) and (full or rng.random() < .6)]
            if not h:
                val[q], at[q] = x, lambda v, x=x: x
                continue
            y = J.stack([draw(kind, x.shape[:x.ndim - EV.get(kind, 0)], g) for _ in settings(h, sizes)]).reshape(tuple(sizes[n] for n in h) + x.shape)
            val[q] = jax_getitem(y, tuple(n() for n in h))
            at[q] = lambda v, y=y, h=h: y[tuple(v[n] for n in h)]
        used = [n for n in ns if any(n in h for h in has.values())]
        if not used:
            raise Skip
        wrap = rng.choice([0, 0, 1]) if batch else 0
        what = f"{name}{'/Independent' if wrap else ''} named {({q: [str(n) for n in h] for q, h in has.items()})} sizes {list(sizes.values())} shapes {[getattr(x[0], 'shape', x[0]) for x in ps.values()]}"

        def look(v):
            d = real(name, {q: f({**{n: 0 for n in ns}, **v}) for q, f in at.items()})
            return d.to_event(1) if wrap else d
        d0 = look({})
        if wrap and not d0.batch_shape and name == "x":
            raise Skip
        d = term(name, val, rng)
        if wrap:
            if rng.random() < .5:
                d = mods()[0].Independent(d, 1)
            else:
                d = d.to_event(1)
        eq({n: int(s) for n, s in sizesof(d).items()}, {n: sizes[n] for n in used}, "sizes: " + what)
        eq((tuple(d.batch_shape), tuple(d.event_shape)), (tuple(d0.batch_shape), tuple(d0.event_shape)), "shapes: " + what)
        eq(type(d.support), type(d0.support), "support: " + what)
        vs = list(settings(used, sizes))
        x0 = sample(d0)
        rows = {tuple(v.values()): look(v).sample(pk(11 + i)) for i, v in enumerate(vs)}
        X = J.stack([rows[tuple(v.values())] for v in vs]).reshape(tuple(sizes[n] for n in used) + x0.shape)
        Xn = jax_getitem(X, tuple(n() for n in used))
        x2 = d0.sample(pk(3), (2,))
        lp, lpn, lp2 = d.log_prob(x0), d.log_prob(Xn), d.log_prob(x2)
        at_ = lambda y, v: setting(y, v, L[3])  # noqa: E731
        for v in vs:
            dv = look(v)
            alike(at_(lp, v), dv.log_prob(x0), f"log density at {v}: {what}")
            alike(at_(lpn, v), dv.log_prob(rows[tuple(v.values())]), f"log density of a named value at {v}: {what}")
            alike(at_(lp2, v), dv.log_prob(x2), f"log density of two values at {v}: {what}")
        if x0.ndim > len(d0.event_shape) and rng.random() < .5:
            y = x0[(0,) * (x0.ndim - len(d0.event_shape))]
            lp = d.log_prob(y)
            for v in vs:
                alike(at_(lp, v), look(v).log_prob(y), f"log density of a value without batch at {v}: {what}")
        for q in ("mean", "variance"):
            if run(lambda: getattr(d0, q))[0] == "ok":
                m = getattr(d, q)
                for v in vs:
                    alike(at_(m, v), getattr(look(v), q), f"{q} at {v}: {what}")
        if run(lambda: d0.entropy())[0] == "ok":
            m = d.entropy()
            for v in vs:
                alike(at_(m, v), look(v).entropy(), f"entropy at {v}: {what}")
        if d0.has_enumerate_support:
            for expand in (True, False):
                if run(lambda: d0.enumerate_support(expand))[0] == "ok" and (len(vs) == 1 or run(lambda: mods()[1].Distribution)[0] == "ok"):
                    m = run(lambda: d.enumerate_support(expand))
                    if m[0] == "exc":
                        require(m[1] in ("NotImplementedError", "RuntimeError", "ValueError"), f"enumerate_support: {m}: {what}")
                        continue
                    for v in vs:
                        alike(at_(m[1], v), look(v).enumerate_support(expand), f"enumerated support at {v}: {what}")
        # samples: independent over names, of the right names and shape
        for sh in ((), (2,)):
            s = d.sample(pk(4), sh)
            eq({n: int(k) for n, k in sizesof(s).items()}, {n: sizes[n] for n in used}, f"names of a sample: {what}")
            eq(tuple(s.shape), tuple(sh) + tuple(d0.batch_shape) + tuple(d0.event_shape), f"shape of a sample: {what}")
            if name in ("Normal", "Laplace", "Cauchy", "Gumbel", "Logistic") and not ranks:
                # each sample is the base noise moved by the parameters of its own setting
                z = d.rsample(pk(4), sh)
                ind = {v_: (at_(z, dict(zip(used, v_))) - at["loc"]({**{n: 0 for n in ns}, **dict(zip(used, v_))})) / at["scale"]({**{n: 0 for n in ns}, **dict(zip(used, v_))}) for v_ in rows}
                w = real(name, {}).rsample(pk(4), sh + tuple(sizes[n] for n in used) + tuple(batch))
                for v_ in rows:
                    alike(ind[v_], w[(slice(None),) * len(sh) + v_], f"the noise of a sample at {v_}: {what}")
        # binding and unbinding
        order = rng.sample(used, len(used))
        b = bind_dims(d, *order)
        eq(dict(sizesof(b)), {}, "no names are left: " + what)
        eq((tuple(b.batch_shape), tuple(b.event_shape)), (tuple(sizes[n] for n in order) + tuple(d0.batch_shape), tuple(d0.event_shape)), "shapes after bind_dims: " + what)
        Xp = J.transpose(X, tuple(used.index(n) for n in order) + tuple(range(len(used), X.ndim)))
        lb = b.log_prob(Xp)
        for v in vs:
            alike(lb[tuple(v[n] for n in order)], look(v).log_prob(rows[tuple(v.values())]), f"log density after bind_dims at {v}: {what}")
        if not ranks:
            fresh = [defop(jax.Array, name="r") for _ in order]
            u = unbind_dims(b, *fresh)
            eq({n: int(s) for n, s in sizesof(u).items()}, {m: sizes[n] for n, m in zip(order, fresh)}, "sizes after unbind_dims: " + what)
            eq((tuple(u.batch_shape), tuple(u.event_shape)), (tuple(d0.batch_shape), tuple(d0.event_shape)), "shapes after unbind_dims: " + what)
            lu = u.log_prob(jax_getitem(Xp, tuple(m() for m in fresh)))
            for v in vs:
                alike(at_(lu, {m: v[n] for n, m in zip(order, fresh)}), look(v).log_prob(rows[tuple(v.values())]), f"log density after unbind_dims at {v}: {what}")
    for name in list(F)[part::4]:
        for k, rng in t.each(t.n(3, 40), name):
            yield k, (lambda rng=rng, name=name: one(rng, name))


for _p in range(4):
    contract("C21", f"named dimensions {_p}", [N_ + "_bind_dims_distribution", N_ + "_unbind_distribution", N_ + "_DistributionTerm.log_prob", N_ + "_DistributionTerm._reindex_sample"],
             "distributions whose parameters have some or all of up to two named dimensions and batch shapes of the same or different ranks: at every setting the shapes, log density (plain, named, batched values), moments, entropy, support are those of the distribution with the parameters selected; samples have the right names, shapes and noise; binding in any order and unbinding", "extents at most 3")(lambda t, part=_p: named(t, part))


@contract("C21", "naming", [N_ + "Naming.from_shape", N_ + "Naming.apply"],
          "random arrays and namings (positions from the right): each name indexes the dimension at its position, the others stay in order; from_shape names the dimensions before the event dimensions")
def naming(t):
    from effectful.handlers.numpyro import Naming
    from effectful.handlers.jax import sizesof
    from effectful.ops.syntax import defop
    import jax
    import jax.numpy as J
    L = lib("jax")
    for k, rng in t.each(t.n(60, 1000)):
        def go(rng=rng):
            shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 4)))
            x = J.arange(float(_prod(shape))).reshape(shape)
            dims = rng.sample(range(-len(shape), 0), rng.randint(0, min(3, len(shape))))
            names = [defop(jax.Array, name=rng.choice("ab")) for _ in dims]
            y = Naming(dict(zip(names, dims))).apply(x)
            eq({n: int(s) for n, s in sizesof(y).items()}, {n: shape[d] for n, d in zip(names, dims)}, "sizes")
            for v in itertools.product(*[range(shape[d]) for d in dims]):
                m = dict(zip(dims, v))
                alike(setting(y, dict(zip(names, v)), L[3]), x[tuple(m.get(d, slice(None)) for d in range(-len(shape), 0))] if shape else x, f"naming {dims} of shape {shape} at {v}")
            ev = rng.randint(0, 2)
            nm = [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
            ns = [defop(jax.Array, name="n") for _ in nm]
            bs = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
            es = tuple(rng.randint(1, 3) for _ in range(ev))
            z = J.arange(float(_prod(bs + tuple(nm) + es))).reshape(bs + tuple(nm) + es)
            w = Naming.from_shape(ns, ev).apply(z)
            for v in itertools.product(*map(range, nm)):
                alike(setting(w, dict(zip(ns, v)), L[3]), z[(slice(None),) * len(bs) + v], "from_shape")
            return None if dims else "trivial"
        yield k, go


def _prod(s):
    r = 1
    for x in s:
        r *= x
    return r
