from rt.core import *  # noqa: F403

BIN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift", ">>": "rshift", "&": "and_", "^": "xor", "|": "or_",
       "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
UN = ["neg", "pos", "abs", "invert", "round", "round1", "trunc", "floor", "ceil"]


def apply1(u, a):
    import math
    import operator
    return {"round": round, "round1": lambda x: round(x, 1), "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil}.get(u, getattr(operator, u, None))(a)


def apply2(b, x, y):
    import operator
    return getattr(operator, BIN[b])(x, y)


def small(v):
    try:
        return abs(v) < 10 ** 6
    except Exception:
        return True


def run(tree, leaf, guard=False, errs=None):
    """guard: on values, refuse blow-ups."""
    k = tree[0]
    if k == "leaf":
        return leaf(tree[1])
    if k == "un":
        a = run(tree[2], leaf, guard, errs)
        try:
            return apply1(tree[1], a)
        except Exception as x:
            if errs is not None:
                errs.add(type(x))
            raise
    a = run(tree[2], leaf, guard, errs)
    b = run(tree[3], leaf, guard, errs)
    if tree[1] == "**" and type(a).__name__ == "Fraction" and hasattr(b, "op"):
        raise Skip  # see the case "** frac int right"
    if guard and tree[1] in ("**", "<<", "*") and not (small(a) and small(b) and (tree[1] == "*" or abs(b) < 30)):
        raise Skip
    try:
        return apply2(tree[1], a, b)
    except Exception as x:
        if errs is not None:
            errs.add(type(x))
        raise


def all_errors(tree, vals, out):
    if tree[0] == "leaf":
        return vals[tree[1]]
    ks = []
    for c in tree[2:]:
        ks.append(all_errors(c, vals, out))
    if any(x is Skip for x in ks):
        return Skip
    try:
        return apply1(tree[1], ks[0]) if tree[0] == "un" else apply2(tree[1], *ks)
    except Exception as x:
        out.add(type(x))
        return Skip


def gen(rng, n, d, uns, bins):
    if d == 0 or rng.random() < .15:
        return ("leaf", rng.randrange(n))
    if rng.random() < .25:
        return ("un", rng.choice(uns), gen(rng, n, d - 1, uns, bins))
    return ("bin", rng.choice(bins), gen(rng, n, d - 1, uns, bins), gen(rng, n, d - 1, uns, bins))


def leaves(t):
    return {t[1]} if t[0] == "leaf" else set().union(*map(leaves, t[2:]))


def show(t):
    return f"v{t[1]}" if t[0] == "leaf" else f"{t[1]}({show(t[2])})" if t[0] == "un" else f"({show(t[2])} {t[1]} {show(t[3])})"


def same(a, b):
    import cmath
    if type(a) is not type(b):
        return False
    try:
        if a != a and b != b:
            return True
        if isinstance(a, complex) and (cmath.isnan(a) and cmath.isnan(b)):
            return True
    except TypeError:
        pass
    return a == b and str(a) == str(b)


def value(rng, kind):
    from fractions import Fraction
    return {"int": lambda: rng.choice([0, 1, -1, 2, 3, -7, 13, 100]), "float": lambda: rng.choice([0.0, 1.5, -2.25, 7.0, 1e3, -0.5, float("inf")]), "bool": lambda: rng.random() < .5,
            "complex": lambda: complex(rng.choice([0, 1, -2]), rng.choice([0.5, 1, -3])), "frac": lambda: Fraction(rng.choice([1, -3, 5, 0]), rng.choice([2, 3, 7]))}[kind]()


TYPES = {"int": "int", "float": "float", "bool": "bool", "complex": "complex", "frac": "Fraction"}


@contract("C12", "expressions", ["effectful.ops.syntax._NumberTerm"],
          "random expressions over all operators and mixed number types, some leaves symbolic, evaluated all at once and in two stages, compared (value, type, error) with Python on the values; non-trivial: at least one operator on a symbolic operand")
def expressions(t):
    import warnings
    from fractions import Fraction
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Term
    warnings.simplefilter("ignore")
    types = {"int": int, "float": float, "bool": bool, "complex": complex, "frac": Fraction}
    for k, rng in t.each(t.n(900, 20000)):
        def go(rng=rng):
            kinds = rng.choice([["int"], ["int", "bool"], ["float"], ["int", "float"], ["int", "float", "bool", "frac"], ["int", "float", "complex"], ["float", "complex"]])
            n = rng.randrange(1, 5)
            ks = [rng.choice(kinds) for _ in range(n)]
            vals = [value(rng, q) for q in ks]
            uns = UN if rng.random() < .3 else ["neg", "pos", "abs", "round", "floor"] if "complex" not in ks else ["neg", "pos", "abs"]
            if set(ks) <= {"int", "bool"}:
                uns = UN
            bins = list(BIN) if set(ks) <= {"int", "bool"} or rng.random() < .2 else [b for b in BIN if b not in ("<<", ">>", "&", "^", "|")]
            tree = gen(rng, n, rng.choice([1, 2, 3]), uns, bins)
            try:
                want = ("ok", run(tree, lambda i: vals[i], guard=True))
            except Skip:
                raise
            except Exception as x:
                want = ("exc", type(x))
            errs = set()
            all_errors(tree, vals, errs)
            ops = [defop(types[q], name=f"v{i}") for i, q in enumerate(ks)]
            sym = set(rng.sample(range(n), rng.randrange(1, n + 1)))
            used = leaves(tree) & sym

            def leaf(i):
                return ops[i]() if i in sym else vals[i]

            stage1 = {i for i in sym if rng.random() < .5}
            intp1 = {ops[i]: (lambda i=i: vals[i]) for i in stage1}
            intp2 = {ops[i]: (lambda i=i: vals[i]) for i in sym}

            def real():
                e = run(tree, leaf)
                if used:
                    require(isinstance(e, Term), "not symbolic:", e)
                with handler(intp1):
                    p = evaluate(e)
                if used - stage1:
                    require(isinstance(p, Term), "evaluated although a variable is unbound:", p)
                with handler(intp2):
                    r1 = evaluate(e)
                    r2 = evaluate(p)
                return r1, r2
            try:
                r1, r2 = real()
                got = ("ok", r1)
                require(same(r1, r2), "two stages", r1, r2)
            except (Bad, Skip):
                raise
            except Exception as x:
                got = ("exc", type(x))
            msg = f"{show(tree)} on {vals}, symbolic {sorted(sym)}"
            if want[0] == "ok":
                require(got[0] == "ok" and same(got[1], want[1]), f"{got} ({type(got[1])}), expected {want} for", msg)
            else:
                require(got[0] == "exc" and got[1] in errs | {want[1]}, f"{got}, expected one of {errs} for", msg)
            return None if used and tree[0] != "leaf" else "trivial"
        yield k, go


@contract("C12", "operators", ["effectful.ops.syntax._NumberTerm"],
          "each operator with the symbolic operand on the left, on the right and on both sides, for every pair of number types, compared (value, type, error) with Python", "every operator and pair of types, two values each")
def operators(t):
    from fractions import Fraction
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Term
    types = {"int": int, "float": float, "bool": bool, "complex": complex, "frac": Fraction}
    vals = {"int": [7, -3], "float": [2.5, -1.0], "bool": [True, False], "complex": [1 + 2j, -1j], "frac": [Fraction(3, 2), Fraction(-1, 3)]}

    def check(f, g):
        want, got = outcome(f), outcome(g)
        require(want[0] == got[0] and (same(want[1], got[1]) if want[0] == "ok" else want[1] is got[1]), f"{got} ({type(got[1])}), expected {want} ({type(want[1])})")
    for b in BIN:
        for ka in types:
            for kb in types:
                for side in ("left", "right", "both"):
                    def go(b=b, ka=ka, kb=kb, side=side):
                        for a in vals[ka]:
                            for c in vals[kb]:
                                x, y = defop(types[ka], name="x"), defop(types[kb], name="y")

                                def g():
                                    e = apply2(b, x() if side != "right" else a, y() if side != "left" else c)
                                    require(isinstance(e, Term), "not symbolic", e)
                                    with handler({x: lambda: a, y: lambda: c}):
                                        return evaluate(e)
                                check(lambda: apply2(b, a, c), g)
                    yield f"{b} {ka} {kb} {side}", go
    for u in UN:
        for ka in types:
            def go(u=u, ka=ka):
                for a in vals[ka]:
                    x = defop(types[ka], name="x")

                    def g():
                        e = apply1(u, x())
                        require(isinstance(e, Term), "not symbolic", e)
                        with handler({x: lambda: a}):
                            return evaluate(e)
                    check(lambda: apply1(u, a), g)
            if u != "index":
                yield f"{u} {ka}", go

    def attributes():
        x = defop(Fraction, name="x")
        z = defop(complex, name="z")
        with handler({x: lambda: Fraction(3, 2), z: lambda: 1 - 2j}):
            eq(evaluate((x().numerator if False else z().conjugate(),)), (1 + 2j,))
        require(isinstance(z().conjugate(), Term))
    yield "conjugate", attributes
