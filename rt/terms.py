"""Raw expression trees, independent of the code under test: construction, free variables, substitution,
evaluation, equality up to renaming of bound variables, and conversion to real expressions."""
import collections
import dataclasses
import types
import typing

# raw trees:  ("app", op, args, kwargs) | ("op", op) | ("tuple", [..]) | ("list", [..]) | ("dict", [(k, v)..]) |
#             ("nt", cls, [..]) | ("dc", cls, [..]) | ("ddict", factory, [(k, v)]) | ("proxy", [(k, v)]) | ("odict", ..) | ("val", v)


class NT(typing.NamedTuple):
    a: typing.Any
    b: typing.Any


NT2 = collections.namedtuple("NT2", ["b", "a", "c"])


class TupleSub(tuple):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


@dataclasses.dataclass
class DC:
    a: typing.Any
    b: typing.Any


@dataclasses.dataclass(frozen=True)
class DC2:
    b: typing.Any
    a: typing.Any
    c: typing.Any = 5


@dataclasses.dataclass
class DC3(DC):
    z: typing.Any = None


@dataclasses.dataclass
class DC4(DC):
    """A subclass with the same fields."""


class NTSub(NT):
    """A subclass with the same fields."""


class Sig:
    """Operations with a known binding structure: binds[position or keyword] = list of (position|keyword of binder)."""

    def __init__(self):
        from typing import Annotated
        from collections.abc import Callable, Mapping
        from effectful.ops.syntax import Scoped, deffn, defop
        from effectful.ops.types import NotHandled, Operation

        def free(name, n=None):
            def f(*args: object, **kwargs: object):
                raise NotHandled
            return defop(f, name=name)
        self.free = free

        def Lam[S, T, A, B](var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[T, Scoped[A | B]]) -> Annotated[Callable[[S], T], Scoped[B]]:
            raise NotHandled

        def Let[S, T, A, B](var: Annotated[Operation[[], S], Scoped[A]], val: Annotated[S, Scoped[B]], body: Annotated[T, Scoped[A | B]]) -> Annotated[T, Scoped[B]]:
            raise NotHandled

        def LetRec[S, T, A, B](var: Annotated[Operation[[], S], Scoped[A]], val: Annotated[S, Scoped[A | B]], body: Annotated[T, Scoped[A | B]]) -> Annotated[T, Scoped[B]]:
            raise NotHandled

        def LamN[T, A, B](body: Annotated[T, Scoped[A | B]], *vs: Annotated[Operation, Scoped[A]], **kvs: Annotated[Operation, Scoped[A]]) -> Annotated[Callable[..., T], Scoped[B]]:
            raise NotHandled

        def Two[S, T, A, B, C](v1: Annotated[Operation[[], S], Scoped[A]], v2: Annotated[Operation[[], T], Scoped[B]], b1: Annotated[object, Scoped[A | C]],
                               b2: Annotated[object, Scoped[B | C]], both: Annotated[object, Scoped[A | B | C]], out: Annotated[object, Scoped[C]]) -> Annotated[object, Scoped[C]]:
            raise NotHandled

        def Kw[S, T, A, B](out: object, *, var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[T, Scoped[A | B]]) -> Annotated[T, Scoped[B]]:
            raise NotHandled

        def Rest[S, A](var: Annotated[Operation[[], S], Scoped[A]], *bodies: Annotated[object, Scoped[A]], **kbodies: Annotated[object, Scoped[A]]) -> object:
            raise NotHandled

        def Implicit[S, A](var: Annotated[Operation[[], S], Scoped[A]], out: object, body: Annotated[object, Scoped[A]]) -> object:
            raise NotHandled

        def For[T, A, B](body: Annotated[T, Scoped[A | B]], streams: Annotated[Mapping[Operation, object], Scoped[A]], out: Annotated[object, Scoped[B]]) -> Annotated[object, Scoped[B]]:
            raise NotHandled

        self.Lam, self.Let, self.LetRec, self.LamN, self.Two, self.Kw, self.Rest, self.Implicit, self.For = map(defop, (Lam, Let, LetRec, LamN, Two, Kw, Rest, Implicit, For))
        self.deffn = deffn
        s = self
        # op -> fn(args, kwargs) -> (set of binder slots, {slot: list of bound ops})
        self.binders = {
            s.Lam: lambda a, k: ({0}, {1: [a[0]]}),
            s.Let: lambda a, k: ({0}, {2: [a[0]]}),
            s.LetRec: lambda a, k: ({0}, {1: [a[0]], 2: [a[0]]}),
            s.LamN: lambda a, k: (set(range(1, len(a))) | set(k), {0: list(a[1:]) + list(k.values())}),
            s.deffn: lambda a, k: (set(range(1, len(a))) | set(k), {0: list(a[1:]) + list(k.values())}),
            s.Two: lambda a, k: ({0, 1}, {2: [a[0]], 3: [a[1]], 4: [a[0], a[1]]}),
            s.Kw: lambda a, k: ({"var"}, {"body": [k["var"]]}),
            s.Rest: lambda a, k: ({0}, {**{i: [a[0]] for i in range(1, len(a))}, **{n: [a[0]] for n in k}}),
            s.Implicit: lambda a, k: ({0}, {2: [a[0]]}),
            s.For: lambda a, k: (set(), {0: [x for x, _ in a[1][1]], 1: [x for x, _ in a[1][1]]}),
        }


def bound(sig, op, args, kwargs):
    """(binder slots, {slot: raw bound operations})"""
    if op not in sig.binders:
        return set(), {}
    slots, b = sig.binders[op](args, kwargs)
    return slots, {s: [x[1] if isinstance(x, tuple) else x for x in v] for s, v in b.items()}


def to_real(t):
    """Build the real expression bottom-up through the public constructors."""
    k = t[0]
    if k == "app":
        return t[1](*[to_real(x) for x in t[2]], **{n: to_real(x) for n, x in t[3].items()})
    if k == "op":
        return t[1]
    if k == "val":
        return t[1]
    if k == "tuple":
        return tuple(map(to_real, t[1]))
    if k == "list":
        return list(map(to_real, t[1]))
    if k in ("tuplesub", "listsub"):
        return (TupleSub if k == "tuplesub" else ListSub)(map(to_real, t[1]))
    if k in ("nt", "dc"):
        return t[1](*map(to_real, t[2]))
    if k in ("dict", "proxy", "odict", "dictsub"):
        d = {to_real(a): to_real(b) for a, b in t[1]}
        return {"dict": dict, "proxy": types.MappingProxyType, "odict": collections.OrderedDict, "dictsub": DictSub}[k](d)
    if k == "ddict":
        return collections.defaultdict(t[1], {to_real(a): to_real(b) for a, b in t[2]})
    raise ValueError(t)


def kids(t):
    k = t[0]
    if k == "app":
        return list(t[2]) + list(t[3].values())
    if k in ("tuple", "list", "tuplesub", "listsub"):
        return t[1]
    if k in ("nt", "dc"):
        return t[2]
    if k in ("dict", "proxy", "odict", "dictsub"):
        return [x for p in t[1] for x in p]
    if k == "ddict":
        return [x for p in t[2] for x in p]
    return []


def mapkids(t, f):
    k = t[0]
    if k == "app":
        return ("app", t[1], [f(x) for x in t[2]], {n: f(x) for n, x in t[3].items()})
    if k in ("tuple", "list", "tuplesub", "listsub"):
        return (k, [f(x) for x in t[1]])
    if k in ("nt", "dc"):
        return (k, t[1], [f(x) for x in t[2]])
    if k in ("dict", "proxy", "odict", "dictsub"):
        return (k, [(f(a), f(b)) for a, b in t[1]])
    if k == "ddict":
        return (k, t[1], [(f(a), f(b)) for a, b in t[2]])
    return t


def fvs(sig, t):
    """Operations applied outside the scope of a binder for them."""
    if t[0] == "app":
        _, b = bound(sig, t[1], t[2], t[3])
        out = {t[1]}
        for s, x in list(enumerate(t[2])) + list(t[3].items()):
            out |= fvs(sig, x) - set(b.get(s, ()))
        return out
    return set().union(*[fvs(sig, x) for x in kids(t)]) if kids(t) else set()


def all_ops(t):
    out = {t[1]} if t[0] in ("app", "op") else set()
    for x in kids(t):
        out |= all_ops(x)
    return out


def alpha(sig, t, r, env, require, path="root"):
    """The real expression r is the raw tree t up to a consistent renaming of bound variables; env: raw op -> real op."""
    from effectful.ops.types import Operation, Term
    k = t[0]
    if k == "app":
        require(isinstance(r, Term), f"{path}: expected a term of {t[1]}, got {r!r}"[:300])
        op = env.get(t[1], t[1])
        require(r.op is op, f"{path}: operation {r.op} ({id(r.op)}), expected {op} ({id(op)})")
        slots, b = bound(sig, t[1], t[2], t[3])
        items = list(enumerate(t[2])) + list(t[3].items())
        require(len(r.args) == len(t[2]) and set(r.kwargs) == set(t[3]), f"{path}: argument positions or keywords changed: {r.args!r} {r.kwargs!r}"[:300])
        allb = list(dict.fromkeys(x for v in b.values() for x in v))
        new = {}
        # read off where each binder went

        def real(s):
            return r.args[s] if isinstance(s, int) else r.kwargs[s]
        for s in slots:
            raw = (t[2][s] if isinstance(s, int) else t[3][s])[1]
            new[raw] = real(s)
        if t[1] is sig.For:
            rk = list(real(1))
            require(len(rk) == len(t[2][1][1]), f"{path}: bound keys")
            for (a, _), n in zip(t[2][1][1], rk):
                new[a[1]] = n
        for raw in allb:
            n = new[raw]
            require(isinstance(n, Operation), f"{path}: binder {n!r} is not an operation"[:200])
            require(n is not raw, f"{path}: bound variable {raw} was not renamed")
            require(n not in env.values(), f"{path}: bound variable shares its name with an enclosing one")
            env["used"].append(n)
        require(len({id(new[x]) for x in allb}) == len(allb), f"{path}: two bound variables were given one name")
        for s, x in items:
            if s in slots:
                continue
            if t[1] is sig.For and s == 1:
                e2 = {**env, **new}
                for (a, v), (ra, rv) in zip(x[1], real(1).items()):
                    alpha(sig, v, rv, e2, require, f"{path}.{s}[{a[1]}]")
                continue
            inner = {q: new[q] for q in b.get(s, ())}
            alpha(sig, x, real(s), {**env, **inner}, require, f"{path}.{s}")
        return
    if k == "op":
        op = env.get(t[1], t[1])
        require(r is op, f"{path}: operation value {r} ({id(r)}), expected {op} ({id(op)})")
        return
    if k == "val":
        require(type(r) is type(t[1]) and (r is t[1] or r == t[1]), f"{path}: value {r!r}, expected {t[1]!r}"[:300])
        return
    ty = {"tuple": tuple, "list": list, "dict": dict, "proxy": types.MappingProxyType, "odict": collections.OrderedDict, "ddict": collections.defaultdict,
          "tuplesub": TupleSub, "listsub": ListSub, "dictsub": DictSub}.get(k) or t[1]
    require(type(r) is ty, f"{path}: container type {type(r)}, expected {ty}")
    if k == "ddict":
        require(r.default_factory is t[1], f"{path}: default factory")
    if k in ("tuple", "list", "tuplesub", "listsub", "nt"):
        xs = t[2] if k == "nt" else t[1]
        require(len(xs) == len(r), f"{path}: length {len(r)}")
        for i, (x, y) in enumerate(zip(xs, r)):
            alpha(sig, x, y, env, require, f"{path}[{i}]")
    elif k == "dc":
        for f, x in zip(dataclasses.fields(t[1]), t[2]):
            alpha(sig, x, getattr(r, f.name), env, require, f"{path}.{f.name}")
    else:
        ps = t[2] if k == "ddict" else t[1]
        require(len(ps) == len(r), f"{path}: size {len(r)}")
        for (a, b), (x, y) in zip(ps, r.items()):
            alpha(sig, a, x, env, require, f"{path}.key")
            alpha(sig, b, y, env, require, f"{path}[{x!r}]"[:80])


def subst(sig, t, s):
    """Capture-avoiding substitution: s maps a variable (operation applied to nothing) to a raw tree."""
    if t[0] == "app":
        if t[1] in s:
            assert not t[2] and not t[3]
            return s[t[1]]
        slots, b = bound(sig, t[1], t[2], t[3])
        allb = list(dict.fromkeys(x for v in b.values() for x in v))
        if allb:
            from effectful.ops.types import Operation
            ren = {x: Operation.define(x) for x in allb}  # rename every binder apart; only used as fresh tokens here

            def f(slot, x):
                if slot in slots:
                    return ("op", ren[x[1]])
                here = {q: ren[q] for q in b.get(slot, ())}
                if t[1] is sig.For and slot == 1:
                    return ("dict", [(("op", ren[a[1]]), subst(sig, rename(sig, v, here), s)) for a, v in x[1]])
                return subst(sig, rename(sig, x, here), s)
            return ("app", t[1], [f(i, x) for i, x in enumerate(t[2])], {n: f(n, x) for n, x in t[3].items()})
        return mapkids(t, lambda x: subst(sig, x, s))
    return mapkids(t, lambda x: subst(sig, x, s))


def rename(sig, t, ren):
    """Rename free occurrences (as head or as operation value)."""
    if not ren:
        return t
    if t[0] == "op":
        return ("op", ren.get(t[1], t[1]))
    if t[0] == "app":
        slots, b = bound(sig, t[1], t[2], t[3])

        def f(slot, x):
            if slot in slots:
                return x
            here = {k: v for k, v in ren.items() if k not in b.get(slot, ())}
            if t[1] is sig.For and slot == 1:
                return ("dict", [(a, rename(sig, v, here)) for a, v in x[1]])
            return rename(sig, x, here)
        return ("app", ren.get(t[1], t[1]), [f(i, x) for i, x in enumerate(t[2])], {n: f(n, x) for n, x in t[3].items()})
    return mapkids(t, lambda x: rename(sig, x, ren))


class Gen:
    def __init__(self, rng, sig, nvars=4, binders=True, containers=True, opvals=True):
        from effectful.ops.syntax import defop
        self.rng, self.sig = rng, sig
        self.vars = [defop(object, name=rng.choice(["x", "x", "y", "z"])) for _ in range(nvars)]
        self.fns = [sig.free(rng.choice(["f", "f", "g"])) for _ in range(3)]
        self.binders, self.containers, self.opvals = binders, containers, opvals

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < .6:
            return ("app", r.choice(self.vars), [], {})
        if k < .65 and self.opvals:
            return ("op", r.choice(self.fns))
        return ("val", r.choice([0, 1, 2.5, "s", b"b", None, True, (), frozenset({1}), 3 + 1j, ""]))

    def gen(self, d):
        t = self.gen_(d)
        if t[0] == "app" and t[1] in self.sig.binders:
            slots, b = bound(self.sig, t[1], t[2], t[3])
            # a bare operation in a scoped argument is a binder of that scope: only applied or nested ones here
            fix = lambda sl, x: x if sl in slots or (t[1] is self.sig.For and sl == 1) else self.nobare(x)  # noqa: E731
            t = ("app", t[1], [fix(i, x) for i, x in enumerate(t[2])], {n: fix(n, x) for n, x in t[3].items()})
            if t[1] is self.sig.For:
                t[2][1] = ("dict", [(a, self.nobare(v)) for a, v in t[2][1][1]])
        return t

    def nobare(self, x):
        if x[0] == "op":
            return ("app", self.fns[0], [x], {})
        return x if x[0] == "app" else mapkids(x, self.nobare)

    def gen_(self, d):
        r = self.rng
        if d <= 0 or r.random() < .15:
            return self.leaf()
        k = r.random()
        g = lambda: self.gen(d - 1)  # noqa: E731
        if self.binders and k < .45:
            s = self.sig
            vs = r.sample(self.vars, min(3, len(self.vars)))
            v, w = ("op", vs[0]), ("op", vs[1])
            c = r.randrange(10)
            if c == 0:
                return ("app", s.Lam, [v, g()], {})
            if c == 1:
                return ("app", s.Let, [v, g(), g()], {})
            if c == 2:
                return ("app", s.LetRec, [v, g(), g()], {})
            if c == 3:
                n = r.randrange(0, 3)
                kw = {nm: ("op", q) for nm, q in zip(["p", "q"], vs[n:n + r.randrange(0, 2)])}
                return ("app", s.LamN, [g()] + [("op", q) for q in vs[:n]], kw)
            if c == 4:
                n = r.randrange(0, 3)
                kw = {nm: ("op", q) for nm, q in zip(["p", "q"], vs[n:n + r.randrange(0, 2)])}
                return ("app", s.deffn, [g()] + [("op", q) for q in vs[:n]], kw)
            if c == 5:
                return ("app", s.Two, [v, w, g(), g(), g(), g()], {})
            if c == 6:
                return ("app", s.Kw, [g()], {"var": v, "body": g()})
            if c == 7:
                return ("app", s.Rest, [v] + [g() for _ in range(r.randrange(0, 3))], {n: g() for n in ["p", "q"][:r.randrange(0, 3)]})
            if c == 8:
                return ("app", s.Implicit, [v, g(), g()], {})
            n = r.randrange(1, 3)
            return ("app", s.For, [g(), ("dict", [(("op", q), g()) for q in vs[:n]]), g()], {})
        if k < .75 or not self.containers:
            return ("app", r.choice(self.fns), [g() for _ in range(r.randrange(0, 4))], {n: g() for n in r.sample(["k", "m", "n"], r.randrange(0, 3))})
        c = r.randrange(9)
        if c < 2:
            return (r.choice(["tuple", "list", "tuplesub", "listsub"]), [g() for _ in range(r.randrange(0, 4))])
        if c == 2:
            cls = r.choice([NT, NT2, NTSub])
            return ("nt", cls, [g() for _ in cls._fields])
        if c in (3, 4):
            cls = r.choice([DC, DC2, DC3, DC4])
            return ("dc", cls, [g() for _ in dataclasses.fields(cls)])
        keys = r.sample([("val", "k1"), ("val", 2), ("val", ("t", 1)), ("val", "k2"), ("tuple", [("val", 1), ("val", "q")])], r.randrange(0, 4))
        ps = [(q, g()) for q in keys]
        if c == 5:
            return ("ddict", r.choice([list, int, None]), ps)
        return ([None] * 6 + ["dict", "proxy", "odict"])[c] and (r.choice(["dict", "dictsub"]) if c == 6 else ([None] * 6 + ["dict", "proxy", "odict"])[c], ps)
