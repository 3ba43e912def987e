from rt.core import *  # noqa: F403


def tokens(term):
    """The printed form with a token per operation, and the operations in the order of their tokens."""
    import collections
    import dataclasses
    import types
    from effectful.ops.types import Operation, Term
    ops = []

    def tok(op):
        for i, o in enumerate(ops):
            if o is op:
                return f"⟦{i}⟧"
        ops.append(op)
        return f"⟦{len(ops) - 1}⟧"

    def s(v):
        if isinstance(v, Operation):
            return tok(v)
        if isinstance(v, list):
            return "[" + ", ".join(map(s, v)) + "]"
        if isinstance(v, tuple):
            return "(" + ", ".join(map(s, v)) + ")"
        if isinstance(v, dict):
            return "{" + ", ".join(s(k) + ":" + s(x) for k, x in v.items()) + "}"
        return str(v)

    def ev(v):
        if isinstance(v, Term):
            a = [s(ev(x)) for x in v.args] + [f"{k}={s(ev(x))}" for k, x in v.kwargs.items()]
            return tok(v.op) + "(" + ", ".join(a) + ")"
        if isinstance(v, (str, bytes)):
            return v
        if isinstance(v, tuple) and hasattr(v, "_fields"):
            return type(v)(*map(ev, v))
        if isinstance(v, (tuple, list)):
            return type(v)(map(ev, v))
        if isinstance(v, collections.defaultdict):
            return type(v)(v.default_factory, [(ev(k), ev(x)) for k, x in v.items()])
        if isinstance(v, dict):
            return type(v)([(ev(k), ev(x)) for k, x in v.items()])
        if isinstance(v, types.MappingProxyType):
            return types.MappingProxyType({ev(k): ev(x) for k, x in v.items()})
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            return dataclasses.replace(v, **{f.name: ev(getattr(v, f.name)) for f in dataclasses.fields(v)})
        return v
    return ev(term), ops


def nobare(raw):
    """Bare operations only directly within lists, tuples and dictionaries."""
    from rt.terms import mapkids

    def wrap(x):
        if x[0] == "op":
            return ("val", 7)
        return mapkids(x, wrap) if x[0] != "app" else nobare(x)
    if raw[0] in ("dc", "proxy"):
        return mapkids(raw, wrap)
    return mapkids(raw, nobare)


def check(term):
    import re
    text = str(term)
    want, ops = tokens(term)
    pat, seen = "", set()
    for piece in re.split(r"(⟦\d+⟧)", want):
        m = re.fullmatch(r"⟦(\d+)⟧", piece)
        if not m:
            pat += re.escape(piece)
        elif m[1] in seen:
            pat += f"(?P=o{m[1]})"
        else:
            seen.add(m[1])
            pat += f"(?P<o{m[1]}>{re.escape(ops[int(m[1])].__name__)}[^\\s(),\\[\\]{{}}:='\"]*)"
    m = re.fullmatch(pat, text, re.S)
    require(m, f"printed {text[:400]}, expected the form {want[:400]} (one name per operation)")
    names = {}
    for i in seen:
        n = m[f"o{i}"]
        require(n not in names, f"two distinct operations both printed as {n} in {text[:300]}")
        names[n] = i
    return len(ops), len({o.__name__ for o in ops})


@contract("C28", "names", ["effectful.ops.types.Term.__str__"],
          "random terms whose operations share names (and have names of the numbered form): the printed form has every operation, argument and keyword once, in order, with one name per operation; non-trivial: two operations of one name")
def names(t):
    from effectful.ops.semantics import apply, handler
    from effectful.internals.runtime import get_interpretation
    from rt.terms import Gen, Sig, to_real
    from effectful.ops.syntax import defop, syntactic_eq
    sig = Sig()
    for k, rng in t.each(t.n(400, 10000)):
        def go(rng=rng):
            g = Gen(rng, sig, binders=rng.random() < .5)
            pool = ["x", "x", "x!1", "x!2", "x!1!1", "f", "f!1", "y"]
            g.vars = [defop(object, name=rng.choice(pool)) for _ in range(6)]
            g.fns = [sig.free(rng.choice(["f", "f", "f!1", "x"])) for _ in range(4)]
            raw = nobare(("app", rng.choice(g.fns), [g.gen(3) for _ in range(rng.randrange(1, 4))], {"k": g.gen(2)} if rng.random() < .5 else {}))
            term = to_real(raw)
            plain = tokens(term)
            a, b = check(term)
            # installed handlers are not run, the term and the active interpretation stay as they are
            boom = lambda *a, **kw: (_ for _ in ()).throw(Bad("printing ran a handler"))  # noqa: E731
            s1 = str(term)
            with handler({o: boom for o in g.vars + g.fns} | {apply: boom}):
                before = get_interpretation()
                s2 = str(term)
                is_(get_interpretation(), before, "interpretation after printing")
            eq(s2, s1, "printed under handlers")
            eq(tokens(term)[0], plain[0], "the term after printing")
            return None if b < a else "trivial"
        yield k, go


@contract("C28", "defaults", ["effectful.ops.types.Term.__str__"], "printing does not run the default behaviour of the operations of a term", "all argument positions of one operation with a default")
def defaults(t):
    from effectful.ops.semantics import handler
    from effectful.ops.syntax import defdata, defop
    from effectful.ops.types import NotHandled
    ran = []

    @defop
    def f(*a: object, **k: object) -> object:
        ran.append(1)
        if a and a[0] == "stay":
            raise NotHandled
        return 5
    for i, mk in enumerate([lambda: f("stay"), lambda: f("stay", f("stay", 1), [f("stay")], k=(f("stay"),)), lambda: f("stay", {"a": f("stay", 3)})]):
        def go(mk=mk):
            tm = mk()
            del ran[:]
            s = str(tm)
            require(not ran, "printing ran a default")
            require(s.count("f(") == tokens(tm)[0].count("⟦0⟧("), s)
        yield f"d{i}", go
