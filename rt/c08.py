from rt.core import *  # noqa: F403


def ref_eq(a, b):
    """Reference on raw trees (see rt/terms.py)."""
    ka, kb = a[0], b[0]
    if (ka == "app") != (kb == "app"):
        return False
    if ka == "app":
        return a[1] is b[1] and len(a[2]) == len(b[2]) and set(a[3]) == set(b[3]) and all(map(ref_eq, a[2], b[2])) and all(ref_eq(v, b[3][k]) for k, v in a[3].items())
    cls = lambda t: t[1] if t[0] in ("nt", "dc") else None  # noqa: E731
    if ka in ("nt", "dc") or kb in ("nt", "dc"):
        return ka == kb and cls(a) is cls(b) and len(a[2]) == len(b[2]) and all(map(ref_eq, a[2], b[2]))
    seq = ("tuple", "list", "tuplesub", "listsub")
    if ka == "val" and isinstance(a[1], tuple):
        a, ka = ("tuple", [("val", x) for x in a[1]]), "tuple"
    if kb == "val" and isinstance(b[1], tuple):
        b, kb = ("tuple", [("val", x) for x in b[1]]), "tuple"
    if ka in seq or kb in seq:
        return ka in seq and kb in seq and len(a[1]) == len(b[1]) and all(map(ref_eq, a[1], b[1]))
    mp = ("dict", "proxy", "odict", "dictsub", "ddict")
    if ka in mp or kb in mp:
        if not (ka in mp and kb in mp):
            return False
        from rt.terms import to_real
        da, db = ({to_real(k): v for k, v in t[-1]} for t in (a, b))
        return set(da) == set(db) and all(ref_eq(v, db[k]) for k, v in da.items())
    return a[1] is b[1] or a[1] == b[1]


def mapvals(t, f):
    """mapkids without the keys of mappings."""
    from rt.terms import mapkids
    if t[0] in ("dict", "proxy", "odict", "dictsub", "ddict"):
        return t[:-1] + ([(a, f(b)) for a, b in t[-1]],)
    return mapkids(t, f)


def retype(rng, t):
    """The same contents in other container types (equal unless named tuples or dataclasses change)."""
    t = mapvals(t, lambda x: retype(rng, x))
    if t[0] in ("tuple", "list", "tuplesub", "listsub"):
        return (rng.choice(["tuple", "list", "tuplesub", "listsub"]), t[1])
    if t[0] in ("dict", "proxy", "odict", "dictsub", "ddict"):
        ps = list(t[-1])
        rng.shuffle(ps)
        k = rng.choice(["dict", "proxy", "odict", "dictsub", "ddict"])
        return (k, rng.choice([list, int, None]), ps) if k == "ddict" else (k, ps)
    if t[0] == "app":
        ks = list(t[3].items())
        rng.shuffle(ks)
        return ("app", t[1], t[2], dict(ks))
    return t


def perturb(rng, g, t):
    """One small change somewhere."""
    from rt.terms import DC, DC2, DC3, DC4, NT, NT2, NTSub, kids
    ks = [b for _, b in t[-1]] if t[0] in ("dict", "proxy", "odict", "dictsub", "ddict") else kids(t)
    if ks and rng.random() < .7:
        i = rng.randrange(len(ks))
        n = [-1]

        def f(x):
            n[0] += 1
            return perturb(rng, g, x) if n[0] == i else x
        return mapvals(t, f)
    c = rng.randrange(6)
    if t[0] == "app":
        if c == 0:
            return ("app", rng.choice(g.fns), t[2], t[3])
        if c == 1:
            return ("app", t[1], t[2] + [g.leaf()], t[3]) if t[1] in g.fns else g.leaf()
        if c == 2 and t[2] and t[1] in g.fns:
            return ("app", t[1], t[2][:-1], t[3])
        if c == 3 and t[3]:
            k = rng.choice(list(t[3]))
            d = dict(t[3])
            d["zz"] = d.pop(k)
            return ("app", t[1], t[2], d)
        if c == 4 and t[2] and t[1] in g.fns:
            return ("app", t[1], t[2][:-1], {**t[3], "w": t[2][-1]})
    if t[0] in ("tuple", "list", "tuplesub", "listsub"):
        if c < 2:
            return (t[0], t[1] + [g.leaf()])
        if c == 2 and t[1]:
            return (t[0], t[1][1:])
        if c == 3:
            return (t[0], t[1][::-1])
        if c == 4:
            return ("dict", [(("val", i), x) for i, x in enumerate(t[1])])
    if t[0] == "nt":
        if c == 5 and t[1] is not NT2:
            return ("nt", NTSub if t[1] is NT else NT, t[2])
        return ("tuple", t[2]) if c < 3 else ("nt", NT2 if t[1] is not NT2 else NT, (t[2] + [("val", 1)])[:3 if t[1] is not NT2 else 2])
    if t[0] == "dc":
        if c == 5 and t[1] in (DC, DC4):
            return ("dc", DC4 if t[1] is DC else DC, t[2])
        other = {DC: DC3, DC3: DC2, DC2: DC, DC4: DC3}[t[1]]
        if c < 3:
            return ("dc", other, (t[2] + [("val", None)])[:2 if other is DC else 3])
        return ("dict", [(("val", n), x) for n, x in zip("abc", t[2])])
    if t[0] in ("dict", "proxy", "odict", "dictsub", "ddict"):
        ps = list(t[-1])
        ps = ps[1:] if ps and c < 3 else ps + [(("val", "new"), ("val", rng.choice([None, 0])))]
        return t[:-1] + (ps,)
    return g.leaf()


@contract("C08", "equality", ["effectful.ops.syntax.syntactic_eq", "effectful.ops.syntax._BaseTerm.__eq__"],
          "random terms and containers against copies, retyped copies, small perturbations and unrelated ones, compared with a reference relation; symmetry and transitivity on each triple; non-trivial: terms inside containers or arguments")
def equality(t):
    from effectful.internals.runtime import get_interpretation
    from effectful.ops.semantics import apply, handler
    from effectful.ops.syntax import syntactic_eq
    from rt.terms import Gen, Sig, to_real
    sig = Sig()
    for k, rng in t.each(t.n(500, 20000)):
        def go(rng=rng):
            g = Gen(rng, sig, binders=False, opvals=True)
            raw = g.gen(3)
            raws = [raw, retype(rng, raw)]
            raws.append(perturb(rng, g, rng.choice(raws)))
            raws.append(retype(rng, perturb(rng, g, raws[2])) if rng.random() < .7 else g.gen(2))
            reals = [to_real(r) for r in raws]

            def boom(*a, **k):
                raise Bad("a handler ran during a comparison")
            intp = {o: boom for o in g.vars + g.fns if rng.random() < .7}
            if rng.random() < .4:
                intp[apply] = boom
            with handler(intp):
                before = dict(get_interpretation())
                got = [[syntactic_eq(a, b) for b in reals] for a in reals]
                require(dict(get_interpretation()) == before, "interpretation changed")
            n = len(raws)
            for i in range(n):
                for j in range(n):
                    want = ref_eq(raws[i], raws[j])
                    require(type(got[i][j]) is bool and got[i][j] == want, f"({i},{j}): got {got[i][j]}, expected {want} for", raws[i], "and", raws[j])
                    if got[i][j]:
                        for m in range(n):
                            require(got[j][m] == got[i][m], "not transitive")
            from effectful.ops.types import Term
            if isinstance(reals[0], Term) and hasattr(type(reals[0]), "__eq__"):
                for b, w in zip(reals, got[0]):
                    eq(reals[0] == b, w, "== on terms is structural equality")
            return None if raw[0] == "app" and raw[2] or raw[0] != "app" else "trivial"
        yield k, go


@contract("C08", "kinds", ["effectful.ops.syntax.syntactic_eq"], "pairs of kinds of value by hand, both ways round", "fixed cases")
def kinds(t):
    import collections
    import types
    from effectful.ops.syntax import defop, syntactic_eq
    from effectful.ops.types import NotHandled, Term
    from rt.terms import DC, DC2, DC3, DC4, NT, NT2, NTSub, DictSub, ListSub, TupleSub

    @defop
    def f(*a: object, **k: object) -> object:
        raise NotHandled
    x, y = defop(int, name="x"), defop(int, name="x")
    MP, OD, DD = types.MappingProxyType, collections.OrderedDict, collections.defaultdict
    P2 = collections.namedtuple("NT2", ["b", "a", "c"])
    cases = [
        ("strings", "ab", "ab", True), ("string-list", "ab", ["a", "b"], False), ("string-tuple", "ab", ("a", "b"), False), ("bytes-list", b"ab", [97, 98], False),
        ("string-bytes", "ab", b"ab", False), ("empty-string", "", [], False), ("empty-bytes", b"", (), False), ("empty-seq", [], (), True), ("empty-map", {}, MP({}), True),
        ("empty-map-seq", {}, [], False), ("list-tuple", [1, [2]], (1, (2,)), True), ("range", range(2), [0, 1], True), ("deque", collections.deque([1, 2]), (1, 2), True),
        ("len", [1], [1, 2], False), ("prefix", (1, 2), (1,), False), ("order", [1, 2], [2, 1], False),
        ("map-types", {"a": [1]}, OD([("a", (1,))]), True), ("ddict", {"a": 1}, DD(list, {"a": 1}), True), ("map-missing", {"a": None}, {}, False), ("map-key", {"a": None}, {"b": None}, False),
        ("map-order", OD([(1, 2), (3, 4)]), OD([(3, 4), (1, 2)]), True), ("userdict", collections.UserDict({1: 2}), {1: 2}, True),
        ("missing-default", DD(int), {"a": 0}, False), ("nt-tuple", NT(1, 2), (1, 2), False), ("nt-nt", NT(1, (2,)), NT(1, [2]), True), ("nt-diff", NT(1, 2), NT(2, 1), False),
        ("nt-type", NT2(1, 2, 3), P2(1, 2, 3), False), ("dc", DC(1, [x()]), DC(1, (x(),)), True), ("dc-field", DC(1, 2), DC(2, 1), False), ("dc-sub", DC3(1, 2, None), DC(1, 2), False), ("dc-same-fields", DC4(x(), 2), DC(x(), 2), False), ("nt-same-fields", NTSub(x(), 2), NT(x(), 2), False),
        ("dc-type", DC2(2, 1, 5), DC3(1, 2, 5), False), ("dc-dict", DC(1, 2), {"a": 1, "b": 2}, False), ("dc-self", DC, DC, True), ("dc-class", DC, DC2, False),
        ("subclasses", TupleSub([1]), ListSub([1]), True), ("dictsub", DictSub({1: 2}), {1: 2}, True),
        ("num", 1, 1.0, True), ("bool", True, 1, True), ("none", None, 0, False), ("sets", {1, 2}, frozenset({1, 2}), True),
        ("term", x(), x(), True), ("term-name", x(), y(), False), ("term-value", x(), 1, False), ("term-op", x(), x, False), ("term-none", x(), None, False), ("term-list", f(), [], False),
        ("args", f(1, 2), f(1, 2), True), ("args-order", f(1, 2), f(2, 1), False), ("args-len", f(1), f(1, 2), False), ("args-kw", f(1, a=2), f(1, 2), False), ("kw-order", f(a=1, b=2), f(b=2, a=1), True),
        ("kw-names", f(a=1), f(b=1), False), ("kw-more", f(a=1), f(a=1, b=1), False), ("kw-swap", f(a=1, b=2), f(a=2, b=1), False), ("deep", f([f(x(), k={"a": x()})]), f((f(x(), k=MP({"a": x()})),)), True),
        ("deep-diff", f([f(x(), k={"a": x()})]), f((f(x(), k=MP({"a": y()})),)), False), ("arg-type", f("ab"), f(["a", "b"]), False), ("no-arg", f(None), f(), False), ("op-arg", f(x), f(x), True),
        ("op-arg-diff", f(x), f(y), False), ("nested-tuple-nt", f(NT(1, 2)), f((1, 2)), False), ("term-in-dict-value", {"k": x()}, {"k": 1}, False), ("value-vs-term-arg", f(1), f(x()), False),
        ("falsy", f(0), f(""), False), ("falsy2", f([]), f({}), False), ("num-add", x() + 1, x() + 1, True), ("num-radd", x() + 1, 1 + x(), False), ("num-add2", x() + 1, x() + 2, False),
    ]
    for name, a, b, want in cases:
        def go(a=a, b=b, want=want):
            is_(syntactic_eq(a, b), want, "left to right")
            is_(syntactic_eq(b, a), want, "right to left")
            is_(syntactic_eq(a, a), True, "reflexive")
            is_(syntactic_eq(b, b), True, "reflexive")
            if isinstance(a, Term):
                eq(a == b, want)
            if isinstance(b, Term):
                eq(b == a, want)
        yield name, go

    def booby():
        class V:
            def __eq__(self, o):
                if isinstance(o, Term):
                    raise Bad("a value's own equality was asked about a term")
                return self is o
            __hash__ = None
        v = V()
        is_(syntactic_eq(v, x()), False)
        is_(syntactic_eq(x(), v), False)
        is_(syntactic_eq([v], [x()]), False)
        is_(syntactic_eq([v], [v]), True)
        is_(syntactic_eq(f(v), f(v)), True)
    yield "values", booby

    def default():
        ran = []

        @defop
        def g(a: int) -> int:
            ran.append(a)
            return a
        from effectful.ops.syntax import defdata
        p, q = defdata(g, x()), defdata(g, x())
        ran.clear()
        is_(syntactic_eq(p, q), True)
        is_(syntactic_eq([p], [defdata(g, y())]), False)
        eq(ran, [], "a default ran")
    yield "defaults", default
