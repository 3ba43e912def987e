from rt.core import *  # noqa: F403
from rt.c17 import lib, setting, settings
from rt.c18 import alike, run
import contextlib
import itertools

Y = "effectful.handlers.pyro."


def draw(kind, shape, g, k=3):
    """A random parameter of the given kind and batch shape; g a torch generator."""
    import torch
    r = lambda s: torch.rand(s, generator=g)  # noqa: E731
    if kind == "real":
        return r(shape) * 4 - 2
    if kind == "pos":
        return r(shape) * 2 + .5
    if kind == "pos3":
        return r(shape) * 2 + 3.5
    if kind == "prob":
        return r(shape) * .8 + .1
    if kind == "high":
        return r(shape) * 2 + 3
    if kind == "count":
        return torch.randint(1, 6, shape, generator=g).float()
    if kind == "simplex":
        x = r(shape + (k,)) + .2
        return x / x.sum(-1, keepdim=True)
    if kind == "posvec":
        return r(shape + (k,)) * 2 + .5
    if kind == "vec":
        return r(shape + (k,)) * 4 - 2
    if kind == "tril":
        a = torch.tril(r(shape + (k, k)) * .6 - .3)
        return a + torch.diag_embed(r(shape + (k,)) + .6)
    raise KeyError(kind)


FAMILIES = {
    "Cauchy": {"loc": "real", "scale": "pos"}, "Gumbel": {"loc": "real", "scale": "pos"}, "Laplace": {"loc": "real", "scale": "pos"}, "LogNormal": {"loc": "real", "scale": "pos"},
    "Logistic": {"loc": "real", "scale": "pos"}, "LogisticNormal": {"loc": "vec", "scale": "posvec"}, "Normal": {"loc": "real", "scale": "pos"}, "StudentT": {"df": "pos3", "loc": "real", "scale": "pos"},
    "Bernoulli": {"probs": "prob"}, "Categorical": {"probs": "simplex"}, "ContinuousBernoulli": {"probs": "prob"}, "Geometric": {"probs": "prob"}, "OneHotCategorical": {"probs": "simplex"}, "OneHotCategoricalStraightThrough": {"probs": "simplex"},
    "Beta": {"concentration1": "pos", "concentration0": "pos"}, "Kumaraswamy": {"concentration1": "pos", "concentration0": "pos"}, "Binomial": {"total_count": "count", "probs": "prob"}, "Chi2": {"df": "pos"},
    "Dirichlet": {"concentration": "posvec"}, "Exponential": {"rate": "pos"}, "FisherSnedecor": {"df1": "pos3", "df2": "pos3"}, "Gamma": {"concentration": "pos", "rate": "pos"}, "HalfCauchy": {"scale": "pos"}, "HalfNormal": {"scale": "pos"},
    "LKJCholesky": {"dim": 3, "concentration": "pos"}, "Multinomial": {"total_count": 4, "probs": "simplex"}, "MultivariateNormal": {"loc": "vec", "scale_tril": "tril"}, "NegativeBinomial": {"total_count": "count", "probs": "prob"},
    "Pareto": {"scale": "pos", "alpha": "pos"}, "Poisson": {"rate": "pos"}, "RelaxedBernoulli": {"temperature": "temp", "probs": "prob"}, "RelaxedOneHotCategorical": {"temperature": "temp", "probs": "simplex"},
    "Uniform": {"low": "real", "high": "high"}, "VonMises": {"loc": "real", "concentration": "pos"}, "Weibull": {"scale": "pos", "concentration": "pos"}, "Wishart": {"df": "pos3", "scale_tril": "tril"}, "Delta": {"v": "real", "log_density": "real"},
}
LOGITS = {"Bernoulli": "real", "Categorical": "vec", "ContinuousBernoulli": "real", "Geometric": "real", "OneHotCategorical": "vec", "Binomial": "real", "NegativeBinomial": "real", "Multinomial": "vec", "RelaxedBernoulli": "real", "RelaxedOneHotCategorical": "vec"}
EVENT = {"simplex": 1, "posvec": 1, "vec": 1, "tril": 2}


def classes():
    import effectful.handlers.pyro  # noqa: F401
    import pyro.distributions as dist
    import torch
    torch.distributions.Distribution.set_default_validate_args(False)
    return dist


def build(rng, g, batch, wraps=True, only=None):
    """A random distribution: (params: name -> tensor of shape batch+..., make(params) -> distribution, label)."""
    import torch
    dist = classes()
    name = only or rng.choice(list(FAMILIES))
    spec = dict(FAMILIES[name])
    if "probs" in spec and name in LOGITS and rng.random() < .35:
        spec.pop("probs")
        spec["logits"] = LOGITS[name]
    if name == "MultivariateNormal" and rng.random() < .3:
        spec.pop("scale_tril")
        spec["cov"] = "tril"
    if name == "Wishart" and rng.random() < .3:
        spec.pop("scale_tril")
        spec["cov"] = "tril"
    consts = {q: s for q, s in spec.items() if not isinstance(s, str)}
    kinds = {q: s for q, s in spec.items() if isinstance(s, str)}
    wrap = rng.choice(["plain", "plain", "indep", "masked", "folded", "masked-indep", "indep-masked"]) if wraps else "plain"
    if wrap == "folded" and name not in ("Normal", "Cauchy", "Laplace", "StudentT", "Logistic", "Gumbel"):
        wrap = "plain"
    extra = (2,) if "indep" in wrap else ()
    params = {q: (draw("pos", (), g) if s == "temp" else draw(s, batch + extra, g)) for q, s in kinds.items()}
    if "masked" in wrap:
        params["mask"] = torch.rand(batch + (extra if wrap == "indep-masked" else ()), generator=g) < .6
    cls = getattr(dist, name)
    mode = rng.choice([False, True])

    def make(p):
        p = dict(p)
        mask = p.pop("mask", None)
        if "cov" in p:
            a = p.pop("cov")
            p["covariance_matrix"] = a @ torch.transpose(a, -1, -2)
        d = cls(**consts, **p)
        if wrap == "folded":
            return dist.FoldedDistribution(d)
        if wrap == "masked":
            return dist.MaskedDistribution(d, mask)
        if wrap == "indep":
            return d.to_event(1) if mode else dist.Independent(d, 1)
        if wrap == "masked-indep":
            return dist.MaskedDistribution(dist.Independent(d, 1), mask)
        if wrap == "indep-masked":
            return dist.Independent(dist.MaskedDistribution(d, mask), 1)
        return d
    return params, make, f"{name}/{wrap}({', '.join(params)})", kinds


def state(d):
    """The parameters a distribution holds, by name, through its wrappers."""
    import torch
    out = {}
    while True:
        out["family"] = (out.get("family", ()) + (type(d).__name__,))
        for q in ("_mask", "reinterpreted_batch_ndims", "event_dim", "log_density", "v", "dim", "total_count", "temperature", "df", "df1", "df2", "loc", "scale", "low", "high", "rate", "concentration", "concentration0", "concentration1", "alpha", "probs", "scale_tril"):
            v = getattr(d, q, None)
            if v is not None:
                out[(len(out["family"]), q)] = v
        if not hasattr(d, "base_dist") or out["family"][-1] not in ("Independent", "FoldedDistribution", "MaskedDistribution", "ExpandedDistribution"):
            return out
        d = d.base_dist


def same_dist(a, b, what):
    import torch
    sa, sb = state(a), state(b)
    eq(sa["family"], sb["family"], f"family: {what}")
    eq(list(sa), list(sb), f"parameters: {what}")
    for q, v in sb.items():
        if isinstance(v, torch.Tensor):
            alike(sa[q], v, f"{q[1]} of {what}")
        else:
            eq(sa[q], v, f"{q} of {what}")
    eq((a.batch_shape, a.event_shape), (b.batch_shape, b.event_shape), f"shapes of {what}")
    x = value_of(b)
    alike(a.log_prob(x), b.log_prob(x), f"log density of {what}")


def value_of(d):
    import torch
    torch.manual_seed(5)
    return d.sample()


@contract("C20", "rebuild", [Y + "_embed_" + n for n in ("loc_scale", "probs", "beta", "binomial", "gamma", "wishart", "student_t", "independent", "masked", "folded", "expanded", "delta")],
          "every family (all parametrisations, plain, independent, masked, folded, trivially expanded) at random parameters: as a symbolic term and back, same family, each parameter in its role, same log density; non-trivial: every case")
def rebuild(t):
    from effectful.ops.semantics import apply, evaluate, handler
    from effectful.ops.syntax import defdata
    from effectful.ops.types import Term
    import torch

    def one(rng, name):
        g = torch.Generator().manual_seed(rng.randrange(10**9))
        batch = rng.choice([(), (3,), (2, 3), (1,)])
        params, make, what, _ = build(rng, g, batch, True, name)
        d = make(params)
        e = classes().ExpandedDistribution(d, d.batch_shape) if rng.random() < .25 else d
        with handler({apply: defdata}):
            tm = evaluate(e)
        require(isinstance(tm, Term), f"{what} becomes a term")
        same_dist(evaluate(tm), d, what + " rebuilt")
        same_dist(evaluate(e), d, what + " evaluated")
        x = value_of(d)
        eq((tm.batch_shape, tm.event_shape), (d.batch_shape, d.event_shape), "shapes of the term")
        alike(tm.log_prob(x), d.log_prob(x), "log density of the term")
        eq(str(tm.support), str(d.support), "support of the term")
        eq((tm.has_rsample, tm.has_enumerate_support), (d.has_rsample, d.has_enumerate_support), "has_rsample, has_enumerate_support")
        torch.manual_seed(7)
        a = tm.sample((2,))
        torch.manual_seed(7)
        alike(a, d.sample((2,)), "samples of the term")
        if d.has_rsample:
            torch.manual_seed(8)
            a = tm.rsample()
            torch.manual_seed(8)
            alike(a, d.rsample(), "reparametrised samples of the term")
        if d.has_enumerate_support and "Independent" not in state(d)["family"]:
            for expand in (True, False):
                w = run(lambda: d.enumerate_support(expand))
                if w[0] == "ok":
                    alike(tm.enumerate_support(expand), w[1], "enumerated support of the term")
    for name in FAMILIES:
        for k, rng in t.each(t.n(6, 60), name):
            yield k, (lambda rng=rng, name=name: one(rng, name))

    def refused():
        dist = classes()
        for d in (dist.TransformedDistribution(dist.Normal(0., 1.), [dist.transforms.ExpTransform()]), dist.MixtureSameFamily(dist.Categorical(torch.ones(2)), dist.Normal(torch.zeros(2), 1.)), dist.ExpandedDistribution(dist.Normal(0., 1.), [3])):
            with handler({apply: defdata}):
                require(run(lambda: evaluate(d)) == ("exc", "ValueError"), f"{type(d)} is refused")
    yield "refused", refused


NOCHECK = ("Wishart",)
REFUSED = ("Multinomial", "VonMises", "LKJCholesky", "Wishart")


def named(t, part=0):
    from effectful.handlers.torch import bind_dims, sizesof, unbind_dims
    from effectful.ops.syntax import defop
    import torch
    idx = torch.tensor

    def one(rng, name):
        g = torch.Generator().manual_seed(rng.randrange(10**9))
        ns = [defop(torch.Tensor, name=n) for n in "ij"[:rng.randint(1, 2)]]
        sizes = {n: rng.randint(1, 3) for n in ns}
        batch = rng.choice([(), (), (2,)])
        lead = tuple(sizes[n] for n in ns)
        params, make, what, kinds = build(rng, g, lead + batch, True, name)
        # which names each parameter has
        has, val, at = {}, {}, {}
        full = rng.random() < .5
        for q, x in params.items():
            if kinds.get(q) == "temp":
                has[q] = []
            else:
                has[q] = [n for n in ns if full or rng.random() < .6]
            if q == "mask" or x.ndim < len(ns):
                has[q] = list(ns) if kinds.get(q) != "temp" else []
            if has[q] or kinds.get(q) != "temp":
                x = x[tuple(slice(None) if n in has[q] else 0 for n in ns)]
            val[q] = x[tuple(n() for n in has[q])] if has[q] else x
            at[q] = lambda v, x=x, q=q: x[tuple(v[n] for n in has[q])] if has[q] else x
        used = [n for n in ns if any(n in h for h in has.values())]
        if not used:
            raise Skip
        what += f" named {({q: [str(n) for n in h] for q, h in has.items()})} sizes {list(sizes.values())}"
        d = make(val)
        look = lambda v: make({q: f(v) for q, f in at.items()})  # noqa: E731
        eq({n: int(s) for n, s in sizesof(d).items()}, {n: sizes[n] for n in used}, "sizes: " + what)
        d0 = look({n: 0 for n in ns})
        eq((d.batch_shape, d.event_shape), (d0.batch_shape, d0.event_shape), "shapes: " + what)
        eq(type(d.support), type(d0.support), "support: " + what)
        # log density at one value, and at a value with the same names
        vs = list(settings(used, sizes))
        x0 = value_of(d0)
        rows = {tuple(v.values()): value_of(look({**{n: 0 for n in ns}, **v})) for v in vs}
        X = torch.stack([rows[tuple(v.values())] for v in vs]).reshape(tuple(sizes[n] for n in used) + x0.shape)
        Xn = X[tuple(n() for n in used)]
        lp, lpn, ok = d.log_prob(x0), d.log_prob(Xn), d.support.check(Xn) if name not in NOCHECK else None
        for v in vs:
            dv = look({**{n: 0 for n in ns}, **v})
            alike(setting(lp, v, idx), dv.log_prob(x0), f"log density at {v}: {what}")
            if ok is not None:
                alike(setting(ok, v, idx), dv.support.check(rows[tuple(v.values())]), f"support at {v}: {what}")
            alike(setting(lpn, v, idx), dv.log_prob(rows[tuple(v.values())]), f"log density of a named value at {v}: {what}")
        # sampling
        for sh in ((), (2,)):
            torch.manual_seed(3)
            if name in ("LKJCholesky", "Multinomial", "VonMises", "Wishart"):
                break
            s = d.sample(sh)
            require(set(sizesof(s)) <= set(used), f"names of a sample: {what}")
            if name != "Delta":
                require(set(sizesof(s)) == {n for q, h in has.items() for n in h if q != "mask"}, f"a sample varies over all names: {what} has {sizesof(s)}")
            eq(tuple(s.shape), tuple(sh) + tuple(d0.shape()), f"shape of a sample: {what}")
        # binding and unbinding
        order = rng.sample(used, len(used))
        b = bind_dims(d, *order)
        eq(dict(sizesof(b)), {}, "no names are left: " + what)
        eq((b.batch_shape, b.event_shape), (tuple(sizes[n] for n in order) + tuple(d0.batch_shape), d0.event_shape), "shapes after bind_dims: " + what)
        eq(state(b)["family"], state(d0)["family"], "family after bind_dims: " + what)
        perm = [used.index(n) for n in order]
        Xp = X.permute(*perm, *range(len(used), X.ndim))
        want = lambda o: torch.stack([look({**{n: 0 for n in ns}, **v}).log_prob(rows[tuple(v[n] for n in used)]) for v in settings(o, sizes)]).reshape(tuple(sizes[n] for n in o) + tuple(d0.batch_shape))  # noqa: E731
        alike(b.log_prob(Xp), want(order), f"log density after bind_dims to {order}: {what}")
        sb = run(lambda: b.sample())
        if sb[0] == "ok":
            eq(tuple(sb[1].shape), tuple(b.shape()), "shape of a sample after bind_dims: " + what)
        fresh = [defop(torch.Tensor, name="r") for _ in order]
        for new in rng.choice([[order], [fresh]]):
            u = unbind_dims(b, *new)
            eq({n: int(s) for n, s in sizesof(u).items()}, {m: sizes[n] for n, m in zip(order, new)}, "sizes after unbind_dims: " + what)
            eq((u.batch_shape, u.event_shape), (d0.batch_shape, d0.event_shape), "shapes after unbind_dims: " + what)
            lu = u.log_prob(Xp[tuple(m() for m in new)])
            for v in vs:
                alike(setting(lu, {m: v[n] for n, m in zip(order, new)}, idx), look({**{n: 0 for n in ns}, **v}).log_prob(rows[tuple(v.values())]), f"log density after unbind_dims at {v}: {what}")
        bb = bind_dims(unbind_dims(b, *fresh), *fresh)
        same_dist(bb, b, "bound, unbound and bound again: " + what)
        if len(order) == 2 and rng.random() < .5:
            h = bind_dims(d, order[0])
            eq({n: int(s) for n, s in sizesof(h).items()}, {order[1]: sizes[order[1]]}, "names kept by binding one: " + what)
            eq((h.batch_shape, h.event_shape), ((sizes[order[0]],) + tuple(d0.batch_shape), d0.event_shape), "shapes after binding one: " + what)
            lh = h.log_prob(Xp[:, order[1]()])
            w = want(order)
            for i in range(sizes[order[1]]):
                alike(setting(lh, {order[1]: i}, idx), w[:, i], f"log density after binding one name: {what}")
    for name in list(FAMILIES)[part::4]:
        for k, rng in t.each(t.n(2, 25), name):
            def go(rng=rng, name=name):
                try:
                    return one(rng, name)
                except (RuntimeError, ValueError) as x:
                    # operations torch.func.vmap refuses are refused, loudly, for named dimensions too
                    if name in REFUSED and "vmap" in str(x):
                        raise Skip
                    raise
            yield k, go


for _p in range(4):
    contract("C20", f"named dimensions {_p}", [Y + "_bind_dims_distribution", Y + "_unbind_dims_distribution", Y + "_DistributionTerm"],
             "distributions whose parameters have some or all of up to two named dimensions: at every setting the shape, support and log density are those of the distribution with the parameters selected; binding (any order, all or some names) and unbinding, renaming and undoing; sample shapes and names", "extents at most 3")(lambda t, part=_p: named(t, part))


@contract("C20", "naming", [Y + "Naming.from_shape", Y + "Naming.apply"],
          "random tensors and namings (positions from the right): each name indexes the dimension at its position, the others stay in order; undone by binding; from_shape places the names before the event dimensions; non-trivial: a dimension is named")
def naming(t):
    from effectful.handlers.pyro import Naming
    from effectful.handlers.torch import bind_dims, sizesof
    from effectful.ops.syntax import defop
    import torch
    for k, rng in t.each(t.n(150, 3000)):
        def go(rng=rng):
            shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 4)))
            x = torch.arange(float(torch.Size(shape).numel())).reshape(shape)
            dims = rng.sample(range(-len(shape), 0), rng.randint(0, min(3, len(shape))))
            names = [defop(torch.Tensor, name=rng.choice("ab")) for _ in dims]
            y = Naming(dict(zip(names, dims))).apply(x)
            at = lambda v: x[tuple(v.get(d, slice(None)) for d in range(-len(shape), 0))] if shape else x  # noqa: E731
            eq({n: int(s) for n, s in sizesof(y).items()}, {n: shape[d] for n, d in zip(names, dims)}, "sizes")
            for v in itertools.product(*[range(shape[d]) for d in dims]):
                alike(setting(y, dict(zip(names, v)), torch.tensor), at(dict(zip(dims, v))), f"naming {dims} of shape {shape} at {v}")
            if dims:
                b = bind_dims(y, *names)
                rest = [d for d in range(-len(shape), 0) if d not in dims]
                alike(b, x.permute(*[d % len(shape) for d in dims + rest]), "naming undone")
            # from_shape: | batch | named | event |
            ev = rng.randint(0, 2)
            named = [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
            ns = [defop(torch.Tensor, name="n") for _ in named]
            bs = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
            es = tuple(rng.randint(1, 3) for _ in range(ev))
            z = torch.rand(bs + tuple(named) + es)
            w = Naming.from_shape(ns, ev).apply(z)
            for v in itertools.product(*map(range, named)):
                alike(setting(w, dict(zip(ns, v)), torch.tensor), z[(slice(None),) * len(bs) + v], "from_shape")
            return None if dims else "trivial"
        yield k, go


@contract("C20", "pyro sites", [Y + "PyroShim._pyro_sample", Y + "PyroShim._pyro_post_sample", Y + "PyroShim._broadcast_to_named", Y + "pyro_sample"],
          "models with sites of distributions with named dimensions, sampled, observed (with the same, fewer or more names) or masked, under the shim: names and shape of the value, the value observed, and the log density of the trace, against the sum over settings; the distribution Pyro sees has no names")
def sites(t):
    from effectful.handlers.pyro import PyroShim, pyro_sample
    from effectful.handlers.torch import sizesof
    from effectful.ops.semantics import fwd, handler
    from effectful.ops.syntax import defop
    import pyro
    import torch
    fams = ["Normal", "Gamma", "Beta", "MultivariateNormal", "Dirichlet", "StudentT", "Laplace", "Exponential", "Bernoulli", "Categorical"]
    for k, rng in t.each(t.n(24, 300)):
        def go(rng=rng):
            classes()
            pyro.enable_validation(False)
            g = torch.Generator().manual_seed(rng.randrange(10**9))
            ns = [defop(torch.Tensor, name=n) for n in "ij"[:rng.randint(1, 2)]]
            sizes = {n: rng.randint(1, 3) for n in ns}
            others = [defop(torch.Tensor, name=n) for n in ("o", "r")[:rng.randint(1, 2)]]
            sizes.update(zip(others, (2, 3)))
            lead = tuple(sizes[n] for n in ns)
            batch = rng.choice([(), (2,)])
            params, make, what, kinds = build(rng, g, lead + batch, False, rng.choice(fams))
            d = make({q: x[tuple(n() for n in ns)] for q, x in params.items()})
            look = lambda v: make({q: x[tuple(v[n] for n in ns)] for q, x in params.items()})  # noqa: E731
            d0 = look({n: 0 for n in ns})
            mode = rng.choice(["sample", "observe same", "observe fewer", "observe more", "observe more", "observe plain", "observe a number"])
            if mode == "observe a number" and (d0.event_shape or batch):
                mode = "sample"
            obs, have = None, []
            if mode != "sample":
                have = {"observe same": ns, "observe fewer": ns[:-1], "observe more": ns + others}.get(mode, [])
                rows = {v: value_of(look({n: 0 for n in ns})) if i == 0 else look({n: dict(zip(have, v)).get(n, 0) for n in ns}).sample() for i, v in enumerate(itertools.product(*[range(sizes[n]) for n in have]))}
                X = torch.stack(list(rows.values())).reshape(tuple(sizes[n] for n in have) + tuple(d0.shape()))
                obs = X[tuple(n() for n in have)] if have else X if mode != "observe a number" else X.item()
            mask = None
            if rng.random() < .3:
                m = torch.rand(lead, generator=g) < .5
                mask = m[tuple(n() for n in ns)]
            seen = []

            class Look(pyro.poutine.messenger.Messenger):
                def _pyro_sample(self, msg):
                    if msg["name"] == "x" and msg["infer"].get("pyro_shim_status", (0, 0))[1] == 1:
                        seen.append((dict(sizesof(msg["fn"])), tuple(f.name for f in msg["cond_indep_stack"]), {f.dim: f.size for f in msg["cond_indep_stack"]}, msg["fn"].batch_shape))
            got = []

            def model():
                with pyro.poutine.mask(mask=mask if mask is not None else True):
                    got.append(pyro.sample("x", d, obs=obs))
                got.append(pyro.sample("w", pyro.distributions.Normal(0., 1.)))
                if plate:
                    with pyro.plate("p", 4, subsample_size=2):
                        got.append(pyro.sample("z", pyro.distributions.Normal(0., 1.)))
            plate = rng.random() < .4
            calls = []

            def h(name, fn, *a, **kw):
                calls.append(name)
                return fwd()
            with handler({pyro_sample: h}) if rng.random() < .5 else contextlib.nullcontext():
                tr = pyro.poutine.trace(Look()(PyroShim()(model))).get_trace()
            x = got[0]
            names = set(ns) | set(have)
            eq({n: int(s) for n, s in sizesof(x).items()}, {n: sizes[n] for n in names}, f"names of the value: {what}, {mode}")
            eq(tuple(x.shape), tuple(d0.shape()), f"shape of the value: {what}, {mode}")
            require(all(sizesof(y) == {} for y in got[1:]), "a site without names")
            if plate:
                eq(tuple(got[2].shape), (2,), "a site in a plate")
                eq(tuple(tr.nodes["p"]["value"].shape), (2,), "the plate's choice")
            if calls:
                eq(calls, ["x", "w"] + ["z"] * plate, "every site is handled once")
            vs = list(settings(sorted(names, key=lambda n: (ns + others).index(n)), sizes))
            total = 0.
            for v in vs:
                xv = setting(x, v, torch.tensor)
                if obs is not None:
                    alike(xv, rows[tuple(v[n] for n in have)], f"the value observed at {v}: {what}, {mode}")
                if mask is None or bool(m[tuple(v[n] for n in ns)]):
                    total = total + look(v).log_prob(xv).sum()
            require(len(seen) == 1 and seen[0][0] == {}, f"Pyro sees no named dimensions: {seen}")
            eq(sorted(n for n in seen[0][1] if n.startswith("__index_plate")), sorted(f"__index_plate_{n}" for n in ns), "one independence frame per name")
            for dim, size in seen[0][2].items():
                eq(int(seen[0][3][dim]), size, f"the frame's dimension in a batch of {tuple(seen[0][3])}")
            tr.compute_log_prob()
            lp = tr.nodes["x"]["log_prob_sum"]
            require(abs(float(lp) - float(total)) < 1e-3 * (1 + abs(float(total))), f"log density of the site: {float(lp)}, over all settings {float(total)}: {what}, {mode}, mask {mask is not None}")
        yield k, go
