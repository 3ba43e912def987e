from rt.core import *  # noqa: F403
from rt.c17 import Prog, lib, setting, settings
from rt.c18 import alike, run

I = "effectful.handlers.indexed."


def rand_sets(rng, names=("a", "b", "c", "self", "mapping", "x y", "items")):
    d = {n: [rng.choice([0, 1, 2, 3, 8, 9, 16, 64, 1000]) for _ in range(rng.randint(0, 4))] for n in names if rng.random() < .5}
    # ways of writing the same set
    forms = [set, list, tuple, frozenset, iter, lambda v: (x for x in v), dict.fromkeys, lambda v: v[0] if len(set(v)) == 1 else set(v)]
    return {n: rng.choice(forms)(v) for n, v in d.items()}, {n: set(v) for n, v in d.items() if v}


@contract("C19", "index sets", [I + "IndexSet", I + "union"],
          "random index sets: constructor, equality, hash; union against the union of sets per name; algebra; arguments unchanged; non-trivial: overlapping names")
def index_sets(t):
    from effectful.handlers.indexed import IndexSet, union
    for k, rng in t.each(t.n(600, 20000)):
        def go(rng=rng):
            n = rng.randint(0, 4)
            raw, ref = zip(*[rand_sets(rng) for _ in range(n)]) if n else ((), ())
            xs = [IndexSet(**r) for r in raw]
            for x, r in zip(xs, ref):
                eq(dict(x), r, "an index set is a mapping of names to non-empty sets")
                require(all(type(v) is set for v in x.values()), "the values are sets")
                y = IndexSet(**{m: rng.sample(sorted(v), len(v)) for m, v in rng.sample(list(r.items()), len(r))})
                require(x == y and hash(x) == hash(y) and y in {x: 1}, "equal however written, with equal hashes")
            u = union(*xs)
            want = {m: set().union(*[r.get(m, set()) for r in ref]) for m in {m for r in ref for m in r}}
            require(type(u) is IndexSet, "the union is an index set")
            eq(dict(u), want, f"union of {ref}")
            for x, r in zip(xs, ref):
                eq(dict(x), r, "union changes no argument")
            if xs:
                for v in u.values():
                    v.add(-1)
                require(all(dict(x) == r for x, r in zip(xs, ref)), "the union shares no set with its arguments")
                a, b, c = [rng.choice(xs) for _ in range(3)]
                eq(union(a, b), union(b, a), "commutative")
                eq(union(a, union(b, c)), union(union(a, b), c), "associative")
                eq(union(a, b, c), union(a, union(b, c)), "many at once")
                eq(union(a, a), a, "idempotent")
                eq(union(a), a, "of one")
                eq(union(a, union(a, b)), union(a, b), "absorbing")
                eq(union(a, IndexSet()), a, "the empty index set is neutral")
            s = {1, 2}
            z = IndexSet(q=s)
            s.add(3)
            eq(dict(z), {"q": {1, 2}}, "the index set has its own copy")
            return None if n > 1 and any(set(p) & set(q) for i, p in enumerate(ref) for q in ref[:i]) else "trivial"
        yield k, go


def programs(rng, names, d=2):
    L = lib("torch")
    sizes = {n: rng.choice([1, 2, 3, 9, 10]) for n in names}
    return L, sizes, (lambda depth, p=.8: Prog(rng, L, names, sizes, depth, p))


@contract("C19", "gather", [I + "gather", I + "indices_of", I + "name_to_sym"],
          "random values with up to three named dimensions and random index sets over them and other names: the positions kept, in order, and the index set reported before and after; non-trivial: a dimension is gathered", "extents at most 10")
def gather(t):
    from effectful.handlers.indexed import IndexSet, gather, indices_of, name_to_sym
    from effectful.handlers.torch import sizesof
    from effectful.ops.syntax import defop
    import torch
    for k, rng in t.each(t.n(120, 2000)):
        def go(rng=rng):
            syms = [name_to_sym(n) for n in rng.sample(["u", "v", "w", "self"], rng.randint(1, 3))]
            L, sizes, prog = programs(rng, syms)
            idx = L[3]
            p = prog(rng.randint(0, 1))
            used = [n for n in syms if n in p.used]
            val = p.f(None)
            eq(indices_of(val), IndexSet(**{n.__name__: set(range(sizes[n])) for n in used}), "the index set of a value")
            keep = {n: rng.sample(range(sizes[n]), rng.randint(1, sizes[n])) for n in syms if rng.random() < .7}
            extra = {"other": {0, 5}} if rng.random() < .4 else {}
            s1 = IndexSet(**{n.__name__: v for n, v in keep.items()}, **extra)
            s2 = IndexSet(**extra, **{n.__name__: set(sorted(v, reverse=True)) for n, v in reversed(keep.items())})
            r = gather(val, s1)
            eq(dict(s1), dict(s2), "the index set given")
            new = {n: len(keep.get(n, range(sizes[n]))) for n in used}
            eq({n: int(s) for n, s in sizesof(r).items()}, new, "sizes after gathering")
            eq(indices_of(r), IndexSet(**{n.__name__: set(range(s)) for n, s in new.items()}), "index set after gathering")
            r2 = gather(val, s2)
            for v in settings(used, new):
                at = {n: sorted(keep[n])[i] if n in keep else i for n, i in v.items()}
                alike(setting(r, v, idx), p.f(at), f"gather {keep} at {v}")
                alike(setting(r2, v, idx), p.f(at), f"gather with an equal index set at {v}")
            alike(setting(val, {n: 0 for n in used}, idx), p.f({n: 0 for n in used}), "the value gathered from")
            return None if set(keep) & set(used) else "trivial"
        yield k, go

    def outside():
        u = name_to_sym("u")
        x = torch.arange(3.)[u()]
        require(run(lambda: gather(x, IndexSet(u={5})))[0] == "exc", "a position outside the value's range")
        other = defop(torch.Tensor, name="u")
        y = torch.arange(3.)[other()]
        eq({n: int(s) for n, s in sizesof(gather(y, IndexSet(u={1}))).items()}, {other: 3}, "another dimension of the same name is not gathered")
        require(name_to_sym("u") is u and name_to_sym("v") is not u, "one dimension per name")
    yield "edges", outside


@contract("C19", "stack and cond", [I + "stack", I + "cond", I + "cond_n"],
          "random values with named dimensions: stacking under a new name, choosing by a condition with its own named dimensions, and choosing by index sets, at every setting", "extents at most 3")
def conds(t):
    from effectful.handlers.indexed import IndexSet, cond, cond_n, indices_of, name_to_sym, stack
    import torch
    for k, rng in t.each(t.n(60, 1500)):
        def go(rng=rng):
            syms = [name_to_sym(n) for n in ["u", "v", "w"]]
            L = lib("torch")
            sizes = {n: rng.randint(1, 3) for n in syms}
            idx = L[3]

            def prog(shape=None, p=.6):
                while True:
                    q = Prog(rng, L, syms, sizes, rng.randint(0, 1), p)
                    if shape is None or q.shape == shape:
                        return q
            a = prog()
            b = prog(rng.choice([a.shape, a.shape, None]))
            try:
                torch.broadcast_shapes(a.shape, b.shape)
            except RuntimeError:
                raise Skip
            c = rng.choice(["named", "bool", "plain"])
            names = sorted({n for q in (a, b) for n in q.used}, key=str)
            if c == "named":
                q = prog(())
                case, at = q.f(None) > 0, lambda v: bool(q.f(v) > 0)
                names = sorted(set(names) | q.used, key=str)
            else:
                w = rng.random() < .5
                case, at = torch.tensor(w), lambda v: w
            r = cond(a.f(None), b.f(None), case)
            eq(indices_of(r), IndexSet(**{n.__name__: range(sizes[n]) for n in names}), "index set of a conditional")
            for v in settings(names, sizes):
                x, y = torch.broadcast_tensors(a.f(v), b.f(v))
                alike(setting(r, v, idx), y if at(v) else x, f"cond at {v}")
            # stack
            new = name_to_sym("new")
            xs = [a, b] + [prog(a.shape) for _ in range(rng.randint(0, 2))]
            try:
                sh = torch.broadcast_shapes(*[q.shape for q in xs])
            except RuntimeError:
                raise Skip
            s = stack(rng.choice([list, tuple])([q.f(None) for q in xs]), "new")
            ns = sorted({n for q in xs for n in q.used}, key=str)
            eq(indices_of(s), IndexSet(new=range(len(xs)), **{n.__name__: range(sizes[n]) for n in ns}), "index set of a stack")
            for v in settings(ns, sizes):
                for i, q in enumerate(xs):
                    alike(setting(s, {**v, new: i}, idx), torch.broadcast_to(q.f(v), sh), f"stack at {i}, {v}")
            # choosing by index
            m = rng.randint(1, 4)
            parts = [set() for _ in range(rng.randint(1, m))]
            for i in range(m):
                rng.choice(parts).add(i)
            parts = [x for x in parts if x]
            qs = [prog(a.shape, .4) for _ in parts]
            sel = rng.choice(syms)
            table = [rng.randrange(m) for _ in range(sizes[sel])]
            plain = rng.random() < .3
            case = torch.tensor(table)[sel()] if not plain else torch.tensor(table[0])
            r = cond_n({IndexSet(split=x): q.f(None) for x, q in zip(parts, qs)}, case)
            ns = sorted({n for q in qs for n in q.used} | (set() if plain else {sel}), key=str)
            for v in settings(ns, sizes):
                i = table[0] if plain else table[v[sel]]
                alike(setting(r, v, idx), next(q for x, q in zip(parts, qs) if i in x).f(v), f"cond_n at {v}")
        yield k, go
