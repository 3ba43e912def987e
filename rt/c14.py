from rt.core import *  # noqa: F403
import collections.abc as c
import typing

U = "effectful.internals.unification."
BASE = [int, bool, str, float, bytes, type(None), object]
SUB = {(bool, int)}


def le(a, b):
    return a is b or b is object or (a, b) in SUB


# type trees: ("b", class) ("any",) ("v", typevar) ("g", generic, args) ("tup", args) ("vtup", arg) ("fn", [args], ret) ("un", args)
GEN1 = ["list", "Sequence", "Iterable", "Set", "set", "Collection", "MutableSequence"]
GEN2 = ["dict", "Mapping", "MutableMapping"]
ORIGIN = {"list": c.MutableSequence, "set": c.MutableSet, "dict": c.MutableMapping, "frozenset": c.Set, "Sequence": c.Sequence, "Iterable": c.Iterable, "Set": c.Set, "Collection": c.Collection,
          "MutableSequence": c.MutableSequence, "Mapping": c.Mapping, "MutableMapping": c.MutableMapping}


def real(t):
    k = t[0]
    if k == "b":
        return t[1]
    if k == "any":
        return typing.Any
    if k == "v":
        return t[1]
    if k == "g":
        g = {"list": list, "set": set, "dict": dict, "frozenset": frozenset}.get(t[1]) or getattr(c, t[1])
        return g[tuple(real(x) for x in t[2])]
    if k == "tup":
        return tuple[tuple(real(x) for x in t[1])]
    if k == "vtup":
        return tuple[real(t[1]), ...]
    if k == "fn":
        return c.Callable[[real(x) for x in t[1]], real(t[2])]
    if k == "un":
        r = real(t[1][0])
        for x in t[1][1:]:
            r = r | real(x)
        return r


def vars_(t):
    k = t[0]
    if k == "v":
        return {t[1]}
    kids = {"g": lambda: t[2], "tup": lambda: t[1], "vtup": lambda: [t[1]], "fn": lambda: t[1] + [t[2]], "un": lambda: t[1]}.get(k, lambda: [])()
    return set().union(*map(vars_, kids))


def mapt(t, f):
    k = t[0]
    if k == "g":
        return (k, t[1], [f(x) for x in t[2]])
    if k == "tup":
        return (k, [f(x) for x in t[1]])
    if k == "vtup":
        return (k, f(t[1]))
    if k == "fn":
        return (k, [f(x) for x in t[1]], f(t[2]))
    if k == "un":
        return (k, [f(x) for x in t[1]])
    return t


def sub(t, s):
    return s.get(t[1], t) if t[0] == "v" else mapt(t, lambda x: sub(x, s))


def gen(rng, d, vs=(), any_=False, union=False):
    g = lambda: gen(rng, d - 1, vs, any_, union)  # noqa: E731
    if vs and rng.random() < (.35 if d else .6):
        return ("v", rng.choice(vs))
    if d == 0 or rng.random() < .2:
        return ("any",) if any_ and rng.random() < .1 else ("b", rng.choice(BASE))
    k = rng.randrange(7)
    if k < 2:
        return ("g", rng.choice(GEN1), [g()])
    if k == 2:
        return ("g", rng.choice(GEN2), [g(), g()])
    if k == 3:
        return ("tup", [g() for _ in range(rng.randrange(1, 4))])
    if k == 4:
        return ("vtup", g())
    if k == 5 and union:
        return ("un", [("b", x) for x in rng.sample([int, str, float, bytes, type(None)], 2)])
    return ("fn", [g() for _ in range(rng.randrange(3))], g())


def readback(typ):
    """A type object as a tree, up to the canonical names of containers."""
    if isinstance(typ, (typing.TypeVar,)):
        return ("v", typ)
    if typ is typing.Any:
        return ("any",)
    o, a = typing.get_origin(typ), typing.get_args(typ)
    import types
    if o is types.UnionType or o is typing.Union:
        return ("un", [readback(x) for x in a])
    if o is tuple:
        return ("g", c.Sequence, [readback(a[0])]) if len(a) == 2 and a[1] is ... else ("tup", [readback(x) for x in a])
    if o is c.Callable:
        return ("fn", [readback(x) for x in a[0]], readback(a[1])) if a[0] is not ... else ("fn...", readback(a[1]))
    if o is not None:
        return ("g", {list: c.MutableSequence, set: c.MutableSet, dict: c.MutableMapping, frozenset: c.Set}.get(o, o), [readback(x) for x in a])
    if typ is None:
        return ("b", type(None))
    return ("b", {list: c.MutableSequence, set: c.MutableSet, dict: c.MutableMapping, frozenset: c.Set}.get(typ, typ))


def norm(t):
    """The same tree up to canonical containers."""
    if t[0] == "g" and isinstance(t[1], str):
        return ("g", ORIGIN[t[1]], [norm(x) for x in t[2]])
    if t[0] == "vtup":
        return ("g", c.Sequence, [norm(t[1])])
    return mapt(t, norm)


def compat(p, s):
    """s may be used where p is asked for (all positions covariant; Any and variables fit)."""
    if p == s or p[0] in ("any", "v") or s[0] in ("any", "v"):
        return True
    if s[0] == "un":
        return all(compat(p, x) for x in s[1])
    if p[0] == "un":
        return any(compat(x, s) for x in p[1])
    if p[0] == "b":
        if s[0] == "b":
            return issubclass(s[1], p[1])
        return p[1] is object or issubclass({"g": lambda: s[1], "tup": lambda: tuple, "fn": lambda: c.Callable}.get(s[0], lambda: c.Callable)(), p[1])
    if p[0] == "g":
        if s[0] == "g":
            if not issubclass(s[1], p[1]):
                return False
            if issubclass(s[1], c.Mapping) and not issubclass(p[1], c.Mapping):
                return compat(p[2][0], s[2][0])
            return len(p[2]) == len(s[2]) and all(map(compat, p[2], s[2]))
        if s[0] == "tup":
            return issubclass(tuple, p[1]) and len(p[2]) == 1 and all(compat(p[2][0], x) for x in s[1])
        if s[0] == "b":
            # an unparameterised class, and text, stand for their elements being anything
            return issubclass(s[1], p[1])
        return False
    if p[0] == "tup":
        return (s[0] == "tup" and len(p[1]) == len(s[1]) and all(map(compat, p[1], s[1])))
    if p[0] == "fn":
        return s[0] == "fn" and len(p[1]) == len(s[1]) and all(map(compat, p[1], s[1])) and compat(p[2], s[2])
    return False


def lower(rng, t):
    """A type compatible with t: subclasses and concrete containers in places."""
    if t[0] == "b":
        if t[1] is object and rng.random() < .3:
            return ("b", rng.choice(BASE))
        return ("b", bool) if t[1] is int and rng.random() < .3 else t
    if t[0] == "g" and rng.random() < .4:
        choice = {"Sequence": ["list", "MutableSequence", "Sequence"], "Iterable": ["list", "Sequence", "Set", "set", "Collection"], "Collection": ["list", "set", "Sequence"], "Set": ["set", "Set"],
                  "Mapping": ["dict", "MutableMapping"], "MutableMapping": ["dict"], "MutableSequence": ["list"]}.get(t[1], [t[1]])
        if t[1] in ("Sequence", "Iterable", "Collection") and rng.random() < .3:
            x = lower(rng, t[2][0])
            return ("tup", [x] * rng.randrange(1, 3))
        return ("g", rng.choice(choice), [lower(rng, x) for x in t[2]])
    return mapt(t, lambda x: lower(rng, x))


TV = [typing.TypeVar(n) for n in "TUVW"]
TVS = [typing.TypeVar(n) for n in "PQ"]


def replace_leaves(rng, t):
    if t[0] == "b" and rng.random() < .3:
        return ("v", rng.choice(TVS))
    return mapt(t, lambda x: replace_leaves(rng, x))


def given(rng, vs):
    return {v: real(gen(rng, 1)) for v in vs}


def try_(p, s, subs):
    from effectful.internals.unification import unify
    before = dict(subs)
    try:
        r = unify(p, s, subs)
    except TypeError:
        eq(dict(subs), before, "the substitution passed in")
        return None
    eq(dict(subs), before, "the substitution passed in")
    for v, x in before.items():
        require(v in r and r[v] == x, f"binding {v}={x} lost or changed: {r}")
    return r


@contract("C14", "soundness", [U + "unify", U + "_unify_typevar", U + "_unify_sequence", U + "_unify_union", U + "_unify_generic", U + "substitute"],
          "random pattern, type and prior substitution: on success the prior bindings are kept, only variables of the two types are bound, and the instantiated pattern accepts the type; non-trivial: success with a variable")
def soundness(t):
    from effectful.internals.unification import substitute
    for k, rng in t.each(t.n(2500, 40000)):
        def go(rng=rng):
            p = gen(rng, rng.choice([1, 2, 3]), TV, True, True)
            if rng.random() < .7:
                th = {v: gen(rng, 1) for v in TV}
                s = lower(rng, sub(p, th))
                if rng.random() < .5:
                    # change one place
                    leaves = [0]

                    def count(x):
                        leaves[0] += x[0] == "b"
                        return mapt(x, count)
                    count(s)
                    n, i = rng.randrange(leaves[0] or 1), [-1]

                    def change(x):
                        if x[0] == "b":
                            i[0] += 1
                            return gen(rng, 1) if i[0] == n else x
                        return mapt(x, change)
                    s = change(s)
            else:
                s = gen(rng, rng.choice([1, 2]), TVS if rng.random() < .3 else (), True, True)
                if rng.random() < .15:
                    # the same shape with variables in places on either side
                    p = gen(rng, 2, TV)
                    s = replace_leaves(rng, sub(p, {v: ("v", rng.choice(TVS)) if rng.random() < .5 else gen(rng, 1) for v in TV}))
            prior = given(rng, [v for v in TV + TVS if rng.random() < .15] + [typing.TypeVar("X")] * (rng.random() < .2))
            r = try_(real(p), real(s), prior)
            if r is None:
                return "trivial"
            extra = set(r) - set(prior)
            require(extra <= vars_(p) | vars_(s), f"binds {extra}, not variables of {real(p)}")
            for v in vars_(p):
                require(v in r or compat(norm(p), norm(s)), f"{v} is left unbound by {real(p)} and {real(s)}")
            inst = norm(readback(substitute(real(p), r)))
            require(compat(inst, norm(readback(real(s)))), f"unify({real(p)}, {real(s)}, {prior}) = {r}, but {substitute(real(p), r)} does not accept {real(s)}")
            return None if vars_(p) else "trivial"
        yield k, go


@contract("C14", "completeness", [U + "unify", U + "canonicalize"], "a pattern instantiated by a ground substitution unifies with the instance, binding exactly that substitution; also with more specific containers; non-trivial: a variable")
def completeness(t):
    for k, rng in t.each(t.n(1500, 20000)):
        def go(rng=rng):
            p = gen(rng, rng.choice([1, 2, 3]), TV)
            th = {v: gen(rng, 1) for v in TV}
            s = sub(p, th)
            prior = {v: real(th[v]) for v in TV if rng.random() < .2}
            r = try_(real(p), real(s), prior)
            require(r is not None, f"{real(p)} does not unify with its instance {real(s)}")
            for v in vars_(p):
                require(v in r, f"{v} is not bound")
                if not uses_any(th[v]):
                    eq(norm(readback(r[v])), norm(th[v]), f"binding of {v}")
            # a more specific type at places without variables
            low = lower_ground(rng, p, th)
            r = try_(real(p), real(low), prior)
            require(r is not None, f"{real(p)} does not unify with {real(low)}")
            return None if vars_(p) else "trivial"
        yield k, go


def uses_any(t):
    return False


def lower_ground(rng, p, th):
    if not vars_(p):
        return lower(rng, p)
    if p[0] == "v":
        return th[p[1]]
    if p[0] == "g" and rng.random() < .4:
        ch = {"Sequence": ["list", "MutableSequence"], "Iterable": ["list", "Sequence", "set"], "Collection": ["list", "set"], "Set": ["set"], "Mapping": ["dict"], "MutableMapping": ["dict"], "MutableSequence": ["list"]}.get(p[1], [p[1]])
        return ("g", rng.choice(ch), [lower_ground(rng, x, th) for x in p[2]])
    return mapt(p, lambda x: lower_ground(rng, x, th))


@contract("C14", "conflicts", [U + "unify", U + "_unify_typevar", U + "_unify_sequence", U + "_unify_generic"], "types that cannot agree, and variables that would need two incompatible bindings, raise TypeError; non-trivial: every case")
def conflicts(t):
    for k, rng in t.each(t.n(1500, 20000)):
        def go(rng=rng):
            kind = rng.randrange(4)
            ground = lambda: gen(rng, 1)  # noqa: E731
            while True:
                a, b = ground(), ground()
                if not compat(norm(a), norm(b)) and not compat(norm(b), norm(a)):
                    break
            T = TV[0]

            def ctx(x, y):
                """One context with two places, used for the pattern and for the type."""
                f = rng_.randrange(6)
                if f == 0:
                    return ("tup", [x, y])
                if f == 1:
                    return ("g", "dict", [x, y])
                if f == 2:
                    return ("fn", [x], y)
                if f == 3:
                    return ("fn", [x, y], ("b", int))
                if f == 4:
                    return ("tup", [("g", "list", [x]), ("g", "Sequence", [y])])
                return ("g", "Mapping", [x, ("tup", [("b", int), y])])
            import random
            seed = rng.random()
            rng_ = random.Random(seed)
            if kind == 0:
                p = ctx(("v", T), ("v", T))
                rng_ = random.Random(seed)
                s, prior = ctx(a, b), {}
            elif kind == 1:
                p, s, prior = ("v", T), b, {T: real(a)}
                if rng.random() < .5:
                    p, s = ("g", "list", [p]), ("g", "list", [s])
            elif kind == 2:
                p = ctx(a, ("v", T))
                rng_ = random.Random(seed)
                s, prior = ctx(b, ground()), {}
            else:
                n = rng.randrange(1, 4)
                xs = [ground() for _ in range(n)]
                m = rng.choice([i for i in range(0, 5) if i != n])
                ys = [rng.choice(xs) for _ in range(m)]
                if rng.random() < .5 and m:
                    p, s, prior = ("tup", [("v", T)] * n), ("tup", [xs[0]] * m), {}
                else:
                    p, s, prior = ("fn", xs, ("v", T)), ("fn", ys, ("b", int)), {}
            r = try_(real(p), real(s), prior)
            require(r is None, f"unify({real(p)}, {real(s)}, {prior}) = {r}, expected TypeError")
        yield k, go


@contract("C14", "substitution", [U + "substitute", U + "freetypevars", U + "canonicalize", U + "_freshen"], "substitute replaces exactly the bound variables; freetypevars are exactly those in the type; canonical forms are fixed points with the same variables")
def substitution(t):
    from effectful.internals.unification import _freshen, canonicalize, freetypevars, substitute, unify
    for k, rng in t.each(t.n(800, 10000)):
        def go(rng=rng):
            p = gen(rng, rng.choice([0, 1, 2, 3]), TV, True, True)
            rp = real(p)
            eq(freetypevars(rp), vars_(p), "free type variables")
            th = {v: gen(rng, 1, [x for x in [typing.TypeVar("Z")] if rng.random() < .3]) for v in TV if rng.random() < .6}
            subs = {v: real(x) for v, x in th.items()}
            copy = dict(subs)
            got = substitute(rp, subs)
            eq(subs, copy, "the substitution passed in")
            eq(norm(readback(got)), norm(readback(real(sub(p, th)))), "substitution")
            eq(substitute(rp, {}), rp, "empty substitution")
            if len(TV) > 1:
                chain = {TV[0]: list[TV[1]], TV[1]: int}
                eq(norm(readback(substitute(rp, chain))), norm(readback(real(sub(p, {TV[0]: ("g", "list", [("b", int)]), TV[1]: ("b", int)})))), "bindings of bindings")
            can = canonicalize(rp)
            eq(canonicalize(can), can, "canonical form is a fixed point")
            eq(freetypevars(can), vars_(p), "variables of the canonical form")
            eq(norm(readback(can)), norm(readback(rp)), "the canonical form is the same type")
            fr = _freshen(can)
            require(not (freetypevars(fr) & vars_(p)), "freshened variables")
            require(len(freetypevars(fr)) == len(vars_(p)), "as many fresh variables as there were")
            back = dict(unify(fr, can)) if p[0] != "v" else {}
            del back
        yield k, go


@contract("C14", "typed dictionaries", [U + "_unify_typeddict", U + "_unify_mapping_typeddict", U + "_get_typeddict_hints"], "random field sets (required or not, generic values): unification succeeds exactly when the structural rules allow it, binding the fields' variables", "up to four fields")
def typeddicts(t):
    from effectful.internals.unification import unify
    for k, rng in t.each(t.n(500, 6000)):
        def go(rng=rng):
            names = ["a", "b", "c", "d"]
            T = TV[0]
            pf = {n: (rng.choice([int, str, float, T, list[T]]), rng.random() < .6) for n in names if rng.random() < .6}
            th = rng.choice([int, str, bytes])
            inst = lambda x: th if x is T else list[th] if x == list[T] else x  # noqa: E731
            sf = {}
            for n in names:
                if n in pf and rng.random() < .85:
                    x, req = pf[n]
                    sf[n] = (inst(x) if rng.random() < .85 else rng.choice([int, str, float, bool]), req if rng.random() < .85 else not req)
                elif n not in pf and rng.random() < .4:
                    sf[n] = (rng.choice([int, str]), rng.random() < .5)
            mk = lambda nm, fs: typing.TypedDict(nm, {n: (x if r else typing.NotRequired[x]) for n, (x, r) in fs.items()})  # noqa: E731
            P, S = mk("P", pf), mk("S", sf)
            # the rules: required fields present and required; optional fields optional if present; equal values up to one binding of T
            ok, bind = True, None
            for n, (x, req) in pf.items():
                if n not in sf:
                    ok &= not req
                    continue
                y, r2 = sf[n]
                ok &= req == r2
                if x is T or x == list[T]:
                    z = y if x is T else (typing.get_args(y)[0] if typing.get_origin(y) is list else None)
                    if z is None or (bind is not None and bind is not z):
                        ok = False
                    bind = bind or z
                else:
                    ok &= x is y
            r = try_(P, S, {})
            require((r is not None) == bool(ok), f"unify({pf}, {sf}) {'succeeds' if r is not None else 'fails'}")
            if r is not None and bind is not None:
                eq(norm(readback(r[T])), norm(readback(bind)), "binding of T")
            # a mapping pattern
            vals = {x for x, _ in sf.values()}
            V = TV[1]
            r = try_(c.Mapping[V, T], S, {})
            if len(vals) == 1:
                require(r is not None and r[V] is str and norm(readback(r[T])) == norm(readback(next(iter(vals)))), f"Mapping[V, T] with {sf}: {r}")
            elif vals and not any(compat(norm(readback(a)), norm(readback(b))) for a in vals for b in vals if a is not b):
                require(r is None, f"Mapping[V, T] with {sf}: {r}")
            if sf:
                require(try_(c.Mapping[int, T], S, {}) is None, "keys of a typed dictionary are text")
        yield k, go


class UBox[X]:
    pass


class USub[X](UBox[X]):
    pass


class UPair[X, Y](UBox[Y]):
    pass


class UTwo[X, Y]:
    pass


class USwap[X, Y](UTwo[Y, X]):
    pass


class UHalf[X](UTwo[X, int]):
    pass


class UConst[X](UBox[int]):
    pass


class UInt(UBox[int]):
    pass


class UList[X](list[X]):
    pass


class UNest[X](UBox[list[X]]):
    pass


class UMap[X, Y](dict[Y, X]):
    pass


def shapes(a, b):
    """(pattern, type, what is bound or None) for two classes that do not fit one another."""
    import jax
    from effectful.ops.types import Operation
    T, S, K = TV[:3]
    C = c.Callable
    bound = typing.TypeVar("B", bound=int)
    yield "op as callable", C[[S], T], Operation[[a], b], {S: a, T: b}
    yield "op as callable of given parameter", C[[a], T], Operation[[a], b], {T: b}
    yield "op as callable of another parameter", C[[b], T], Operation[[a], b], None
    yield "op as callable without parameters", C[[], T], Operation[[], b], {T: b}
    yield "op as callable of other arity", C[[], T], Operation[[a], b], None
    yield "op as callable, two parameters", C[[a, T], S], Operation[[a, b], a], {T: b, S: a}
    yield "op as callable of any parameters", C[..., T], Operation[[a], b], {T: b}
    yield "op of any parameters as callable", C[[a], T], Operation[..., b], {T: b}
    yield "op as op", Operation[[S], T], Operation[[a], b], {S: a, T: b}
    yield "op as op of another result", Operation[[S], a], Operation[[a], b], None
    yield "callable as op", Operation[[a], T], C[[a], b], None
    yield "op as bare op", Operation, Operation[[a], b], {}
    yield "callable of any parameters", C[..., T], C[[a], b], {T: b}
    yield "callable of any parameters with a given result", C[..., a], C[[a], b], None
    yield "generator as iterable", c.Iterable[T], c.Generator[a, b, b], {T: a}
    yield "generator as iterator", c.Iterator[T], c.Generator[a, b, b], {T: a}
    yield "generator as iterable of another", c.Iterable[b], c.Generator[a, b, b], None
    yield "generator", c.Generator[T, S, K], c.Generator[a, b, a], {T: a, S: b, K: a}
    yield "generator with two ends", c.Generator[T, S, S], c.Generator[a, b, a], None
    yield "mapping as iterable", c.Iterable[T], c.Mapping[a, b], {T: a}
    yield "mapping as collection", c.Collection[T], dict[a, b], {T: a}
    yield "mapping as iterable of its values", c.Iterable[b], c.Mapping[a, b], None
    yield "array as iterable", c.Iterable[T], jax.Array, {T: jax.Array}
    yield "array as iterable of another", c.Iterable[a], jax.Array, None
    yield "array as sequence", c.Sequence[T], jax.Array, None
    yield "subclass of a generic", UBox[T], USub[a], {T: a}
    yield "generic with another parameter too", UBox[T], UPair[a, b], {T: b}
    yield "parameters the other way round", UTwo[S, T], USwap[a, b], {S: b, T: a}
    yield "a parameter filled in", UTwo[S, T], UHalf[a], {S: a, T: int}
    yield "an unused parameter", UBox[T], UConst[a], {T: int}
    yield "a parameter within another type", UBox[T], UNest[a], {T: list[a]}
    yield "not generic", UBox[T], UInt, {T: int}
    yield "a list by another name", c.Sequence[T], UList[a], {T: a}
    yield "a dict with its parameters the other way round", c.Mapping[S, T], UMap[a, b], {S: b, T: a}
    yield "an unrelated generic", UBox[T], UTwo[a, b], None
    yield "an unrelated container", UBox[T], list[a], None
    yield "another argument", UBox[a], USub[b], None
    yield "bare generic", UBox, USub[a], {}
    yield "bare container", c.Sequence, list[a], {}
    yield "bare container, not a subclass", list, c.Sequence[a], None
    yield "a class for a generic", int, UBox[a], None
    yield "a generic for a bare class", c.Sequence[T], list, {}
    yield "a generic for an unrelated class", c.Sequence[T], int, None
    yield "object", object, list[a], {}
    yield "ambiguous union", T | list[T], list[a], None
    yield "ambiguous union, other order", list[T] | T, list[a], None
    yield "one way to take a union", list[T] | dict[a, T], list[b], {T: b}
    yield "one way to take a union, second", list[T] | dict[a, T], dict[a, b], {T: b}
    yield "a union of both", list[T] | c.Set[T], list[a] | c.Set[a], {T: a}
    yield "a union of both with different contents", list[T] | c.Set[T], list[a] | c.Set[b], None
    yield "a union where one is asked for", list[T], list[a] | list[b], None
    yield "two ways giving the same", list[T] | c.Sequence[T], list[a], {T: a}
    yield "member of a union", a | b, a, {}
    yield "not a member of a union", a | b, complex, None
    yield "a union for a member", a, a | b, None
    yield "any as type", a, typing.Any, {}
    yield "any as pattern", typing.Any, a, {}
    yield "any as argument of the pattern", list[typing.Any], list[a], {}
    yield "any as argument of the type", list[a], list[typing.Any], {}
    yield "any within", C[[typing.Any], T], C[[a], b], {T: b}
    yield "any as callable", typing.Any, C[[a], b], {}
    yield "a bounded variable in the type", a, bound, None
    yield "sequence of types", (T, S), (a, b), {T: a, S: b}
    yield "sequence of types, list", [T, S], [a, b], {T: a, S: b}
    yield "sequence of types, one variable", (T, T), (a, b), None
    yield "sequences of different length", (T,), (a, b), None
    yield "sequences of different length, longer pattern", (T, S), (a,), None
    yield "class objects", type[T], type[a], {T: a}
    yield "class objects of another class", type[a], type[b], None
    yield "variadic tuple", tuple[T, ...], tuple[a, a], {T: a}
    yield "variadic tuple of two kinds", tuple[T, ...], tuple[a, b], None
    yield "tuple", tuple[T, S], tuple[a, b], {T: a, S: b}
    yield "tuple as a sequence", c.Sequence[T], tuple[a, a], {T: a}
    yield "tuple as a list", list[T], tuple[a, a], None
    yield "variadic tuple for a fixed one", tuple[T, S], tuple[a, ...], None
    yield "annotated pattern", typing.Annotated[T, 1], a, {T: a}
    yield "annotated type", list[T], typing.Annotated[list[a], 1], {T: a}
    yield "optional", typing.Optional[T], a, {T: a}
    yield "literal", T, typing.Literal["x"], {T: str}
    yield "set", c.Set[T], frozenset[a], {T: a}
    yield "frozen set for a set", set[T], frozenset[a], None
    yield "a range as a sequence", c.Sequence[T], range, {T: int}
    yield "subclass as element", c.Iterable[int], c.Mapping[bool, a], {}
    yield "superclass as element", c.Iterable[bool], c.Mapping[int, a], None
    yield "subclass as element of a generator", c.Iterable[int], c.Generator[bool, a, a], {}
    yield "superclass as element of a generator", c.Iterable[bool], c.Generator[int, a, a], None
    yield "subclass as result of an op", C[[a], int], Operation[[a], bool], {}
    yield "superclass as result of an op", C[[a], bool], Operation[[a], int], None
    yield "array as iterable of objects", c.Iterable[object], jax.Array, {}
    yield "superclass", bool, int, None
    yield "superclass as element of a tuple", c.Sequence[bool], tuple[bool, int], None
    yield "subclass as element of a tuple", c.Sequence[int], tuple[bool, int], {}
    yield "subclass in a union", int, bool | int, {}
    Q, R = _decorator.__type_params__
    yield "parameters", C[Q, R], C[[a], b], {Q: [a], R: b}
    yield "any parameters", C[Q, R], C[..., b], {Q: ..., R: b}
    yield "no parameters", C[Q, R], C[[], b], {Q: [], R: b}
    yield "parameters of an op", C[Q, R], Operation[[a], b], {Q: [a], R: b}
    new = typing.NewType("New", a)
    yield "new type", list[T], list[new], {T: a}

    class Box1(typing.TypedDict):
        x: a
        y: typing.NotRequired[b]

    class Data[X](typing.TypedDict):
        x: X
        y: typing.NotRequired[b]

    class Derived(Data[a]):
        z: a

    class Frozen(typing.TypedDict):
        x: a
        y: b

    class Flag(typing.TypedDict):
        x: bool
    yield "typed dictionary as a mapping of objects", c.Mapping[str, object], Frozen, {}
    yield "typed dictionary as a mapping of supertypes", c.Mapping[str, int], Flag, {}
    yield "typed dictionary as a mutable mapping of supertypes", c.MutableMapping[str, int], Flag, None
    yield "typed dictionary as a mutable mapping", c.MutableMapping[str, T], Flag, {T: bool}
    yield "keys of any kind", c.Mapping[object, T], Flag, {T: bool}
    yield "generic typed dictionary", Data[T], Data[a], {T: a}
    yield "generic typed dictionary for a plain one", Data[T], Box1, {T: a}
    yield "generic typed dictionary of another", Data[b], Data[a], None
    yield "derived typed dictionary", Data[T], Derived, {T: a}
    yield "derived typed dictionary of another", Data[b], Derived, None
    yield "optional field required in the other", Data[T], Frozen, None
    yield "a field missing in the other", Derived, Data[a], None
    yield "typed dictionary as a sequence", c.Sequence[T], Frozen, None
    yield "typed dictionary as a mapping of other keys", c.Mapping[a if a is not str else b, T], Data[a], None


def _decorator[**Q, R](fn: c.Callable[Q, R], *args: Q.args, **kw: Q.kwargs) -> R:
    raise NotImplementedError


def _same_type(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(map(_same_type, x, y))
    if x is ... or y is ...:
        return x is y
    return norm(readback(x)) == norm(readback(y))


@contract("C14", "shapes", [U + "unify", U + "_unify_generic", U + "_unify_union", U + "_unify_sequence", U + "_unify_typeddict", U + "canonicalize", U + "_get_typeddict_hints"],
          "operations, generators, mappings, arrays, generic classes and their subclasses, unions, tuples, typed dictionaries: what is bound, or that it fails, under empty and non-empty starting substitutions; non-trivial: all", "every shape listed, six pairs of classes")
def shape_table(t):
    X = typing.TypeVar("X")
    for a, b in [(int, str), (str, int), (str, bytes), (bytes, float), (float, str), (bytes, bool)]:
        for name, p, s, want in shapes(a, b):
            def go(p=p, s=s, want=want):
                for prior in ({}, {X: a}) + (({k: want[k] for k in list(want)[:1]},) if want else ()):
                    r = try_(p, s, prior)
                    if want is None:
                        require(r is None, f"unify({p}, {s}, {prior}) = {r}, expected TypeError")
                        continue
                    require(r is not None, f"unify({p}, {s}, {prior}) fails, expected {want}")
                    require(set(r) == set(want) | set(prior), f"unify({p}, {s}, {prior}) = {r}, expected {want}")
                    for v in want:
                        require(_same_type(r[v], want[v]), f"unify({p}, {s}, {prior}) binds {v} to {r[v]}, expected {want[v]}")
                if want and isinstance(next(iter(want)), typing.TypeVar):
                    v = next(iter(want))
                    bad = {v: UTwo[a, b]}
                    r = try_(p, s, bad)
                    require(r is None, f"unify({p}, {s}, {bad}) = {r}, expected TypeError")
            yield f"{name}/{a.__name__} {b.__name__}", go


@contract("C14", "signatures", [U + "_unify_signature", U + "unify"],
          "a signature is unified with arguments: every parameter given is unified with its annotation, the elements of *args and **kwargs each, missing variadics skipped, another signature refused; non-trivial: all", "signatures of up to five parameters")
def signatures(t):
    import inspect
    T, S = TV[:2]
    P = inspect.Parameter
    for k, rng in t.each(t.n(400, 5000)):
        def go(rng=rng):
            th = {T: rng.choice([int, str]), S: rng.choice([bytes, float])}
            ann = lambda: rng.choice([T, S, int, list[T], dict[str, S], c.Sequence[object], P.empty])  # noqa: E731
            ps = [P(f"p{i}", P.POSITIONAL_ONLY, annotation=ann()) for i in range(rng.randrange(2))]
            ps += [P(f"q{i}", P.POSITIONAL_OR_KEYWORD, annotation=ann()) for i in range(rng.randrange(3))]
            if rng.random() < .6:
                ps.append(P("rest", P.VAR_POSITIONAL, annotation=ann()))
            ps += [P(f"k{i}", P.KEYWORD_ONLY, annotation=ann()) for i in range(rng.randrange(2))]
            if rng.random() < .6:
                ps.append(P("more", P.VAR_KEYWORD, annotation=ann()))
            sig = inspect.Signature(ps)
            clash = [False]
            used = set()

            def arg(an):
                if an is P.empty:
                    return rng.choice([int, complex])
                if an == c.Sequence[object]:
                    return rng.choice([list[int], tuple[int, str], c.Sequence[object]])
                s = {T: th[T], S: th[S], int: rng.choice([int, bool]), list[T]: list[th[T]], dict[str, S]: dict[str, th[S]]}[an]
                used.update({T: {T}, S: {S}, list[T]: {T}, dict[str, S]: {S}}.get(an, ()))
                if rng.random() < .06:
                    clash[0] = True
                    return UBox[bytes]
                return s
            args, kwargs = [], {}
            for p in ps:
                if p.kind is P.VAR_POSITIONAL:
                    args += [arg(p.annotation) for _ in range(rng.randrange(3))]
                elif p.kind is P.VAR_KEYWORD:
                    kwargs.update({f"x{i}": arg(p.annotation) for i in range(rng.randrange(3))})
                elif p.kind is P.KEYWORD_ONLY:
                    kwargs[p.name] = arg(p.annotation)
                else:
                    args.append(arg(p.annotation))
            b = sig.bind(*args, **kwargs)
            before = (dict(b.arguments), b.signature)
            r = try_(sig, b, {})
            eq((dict(b.arguments), b.signature), before, "the arguments")
            if clash[0]:
                # a clash cannot be seen where the variable takes the odd type itself, once
                return "trivial"
            require(r is not None, f"unify({sig}, {b}) fails")
            eq(set(r), used, "variables bound")
            for v in used:
                require(_same_type(r[v], th[v]), f"unify({sig}, {b}) binds {v} to {r[v]}")
            for v in used:
                require(try_(sig, b, {v: UBox[bytes]}) is None, f"unify({sig}, {b}, {{{v}: UBox[bytes]}}) succeeds")
            other = inspect.Signature(ps, return_annotation=int)
            require(try_(other, b, {}) is None, "arguments of another signature")
        yield k, go


@contract("C14", "variables of parameters", [U + "_unify_signature", U + "unify", U + "_freshen"],
          "a parameter specification takes the parameters of the function given, whatever other arguments; a bounded variable is no instance of another type; two variables become equal; non-trivial: all", "fixed cases")
def parameter_variables(t):
    import inspect
    from effectful.internals.unification import substitute
    Q, R = _decorator.__type_params__
    sig = inspect.signature(_decorator)
    for n, ps in enumerate([[], [int], [int, str], [list[int]]]):
        for m, (args, kw) in enumerate([((), {}), ((int,), {}), ((), {"x": int}), ((int, str), {"x": int, "y": list[str]})]):
            def go(ps=ps, args=args, kw=kw):
                r = try_(sig, sig.bind(c.Callable[ps, bytes], *args, **kw), {})
                require(r is not None and set(r) == {Q, R} and r[R] is bytes and _same_type(r[Q], ps), f"{r}, expected {ps}")
            yield f"specification {n} {m}", go

    def two():
        for p, s in ((TV[0], TVS[0]), (list[TV[0]], list[TVS[0]]), (tuple[TV[0], int], tuple[TVS[0], int])):
            r = try_(p, s, {})
            require(r is not None and substitute(p, r) == substitute(s, r), f"unify({p}, {s}) = {r}")
        require(try_(TV[0], TV[0], {}) == {}, "a variable with itself binds nothing")
    yield "two variables", two

    def bounded():
        B = typing.TypeVar("B", bound=int)

        def f(x: str, *rest: str, **more: str):
            raise NotImplementedError
        s = inspect.signature(f)
        for b in (s.bind(B), s.bind(str, B), s.bind(str, y=B)):
            require(try_(s, b, {}) is None, "a bounded variable where another type is asked for")
    yield "bounded", bounded
