from rt.core import *  # noqa: F403
import operator as op

BIN = [("+", op.add), ("-", op.sub), ("*", op.mul), ("/", op.truediv), ("//", op.floordiv), ("%", op.mod), ("**", op.pow), ("<", op.lt), ("<=", op.le), (">", op.gt), (">=", op.ge), ("==", op.eq), ("!=", op.ne), ("@", op.matmul)]
INT = [("&", op.and_), ("|", op.or_), ("^", op.xor), ("<<", op.lshift), (">>", op.rshift)]
UN = [("-", op.neg), ("+", op.pos), ("abs", abs)]


def alike(a, b, what):
    import numpy as np
    if type(a).__module__.split(".")[0] == "torch" or type(b).__module__.split(".")[0] == "torch":
        import torch
        require(isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor), f"{what}: {type(a)} for {type(b)}")
        require(a.dtype == b.dtype, f"{what}: dtype {a.dtype} for {b.dtype}")
        a, b = a.detach().numpy(), b.detach().numpy()
    elif isinstance(b, (tuple, list)):
        eq(len(a), len(b), what)
        for x, y in zip(a, b):
            alike(x, y, what)
        return
    elif hasattr(b, "dtype"):
        require(hasattr(a, "dtype") and a.dtype == b.dtype, f"{what}: {a} for {b}")
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} for {b.shape}")
    require(np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True) if a.dtype.kind in "fc" else (a == b).all(), f"{what}: got {a.tolist()}, on the array {b.tolist()}")


def run(f):
    try:
        return ("ok", f())
    except Exception as x:
        return ("exc", type(x).__name__)


def operands(kind, rng, lib):
    """Concrete operands, positive and negative, that the operators accept."""
    shape = rng.choice([(), (3,), (2, 3), (3, 3)])
    n = 1
    for s in shape:
        n *= s
    if kind == "int":
        vals = [rng.choice([-7, -3, -2, -1, 1, 2, 3, 5]) for _ in range(n)]
    elif kind == "shift":
        vals = [rng.choice([1, 2, 3]) for _ in range(n)]
    elif kind == "bool":
        vals = [rng.random() < .5 for _ in range(n)]
    else:
        vals = [rng.choice([-2.5, -1.5, -1.0, .5, 1.0, 2.0, 3.25]) for _ in range(n)]
    return lib(vals, shape)


def mk(which):
    import numpy as np
    if which == "torch":
        import effectful.handlers.torch  # noqa: F401
        import torch
        return torch.Tensor, lambda v, s: torch.tensor(v).reshape(s)
    import effectful.handlers.jax  # noqa: F401
    import jax
    import jax.numpy as jnp
    return jax.Array, lambda v, s: jnp.asarray(np.asarray(v)).reshape(s)


def scalar(rng, kind):
    return rng.choice([-3, 2, 3] if kind == "int" else [1, 2] if kind == "shift" else [True, False] if kind == "bool" else [-1.5, .5, 2.0, 2])


def operators(which):
    def gen(t):
        from effectful.ops.semantics import evaluate, fvsof, handler
        from effectful.ops.syntax import defop
        from effectful.ops.types import Term
        ty, lib = mk(which)
        cases = [(n, f, k) for n, f in BIN for k in ("int", "float")] + [(n, f, k) for n, f in INT for k in (["shift"] if n in ("<<", ">>") else ["int", "bool"])]
        for n, f, kind in cases:
            for mode in ("term-term", "term-array", "array-term", "term-scalar", "scalar-term"):
                if n == "@" and "scalar" in mode:
                    continue
                for r in range(t.n(3, 20)):
                    def go(n=n, f=f, kind=kind, mode=mode, r=r):
                        import random
                        rng = random.Random(f"{t.seed}/{n}/{kind}/{mode}/{r}")
                        x, y = defop(ty, name="x"), defop(ty, name="y")
                        if n == "@":
                            a, b = operands(kind, random.Random(r), lambda v, s: lib(v[:1] * 9, (3, 3))), lib([rng.choice([-1, 2, 3]) for _ in range(9)] if kind == "int" else [rng.choice([-1.5, .5]) for _ in range(9)], (3, 3))
                            a = lib([rng.choice([-1, 2, 3]) for _ in range(9)] if kind == "int" else [rng.choice([-1.5, .5]) for _ in range(9)], (3, 3))
                        else:
                            a, b = operands(kind, rng, lib), operands(kind, rng, lib)
                            if n == "**" and kind == "int":
                                b = abs(b)
                        l, rr = mode.split("-")
                        sl, sr = scalar(rng, kind), scalar(rng, kind)
                        if n == "**" and kind == "int":
                            sr = abs(sr)
                        L = {"term": lambda: x(), "array": lambda: a, "scalar": lambda: sl}[l]()
                        R = {"term": lambda: y(), "array": lambda: b, "scalar": lambda: sr}[rr]()
                        va = a if l != "scalar" else sl
                        vb = b if rr != "scalar" else sr
                        if l == "scalar" and not hasattr(vb, "shape"):
                            raise Skip
                        want = run(lambda: f(va, vb))
                        term = f(L, R)
                        require(isinstance(term, Term), f"{mode} {n} with a free variable gives {type(term)}, not a term")
                        require({o for o in (x, y) if o in fvsof(term)} == ({x} if l == "term" else set()) | ({y} if rr == "term" else set()), "free variables of the expression")
                        with handler({x: lambda: a, y: lambda: b}):
                            got = run(lambda: evaluate(term))
                        if want[0] == "exc":
                            require(got[0] == "exc", f"{va} {n} {vb} raises {want[1]} on arrays, got {got[1]}")
                            return "trivial"
                        require(got[0] == "ok", f"{va} {n} {vb} raises {got[1]} for the symbolic array, is {want[1]} on the array")
                        alike(got[1], want[1], f"{va} {n} {vb}")
                    yield f"{n} {kind} {mode} {r}", go
        for n, f in UN + [("~", op.invert)]:
            for kind in (("int", "bool") if n == "~" else ("int", "float")):
                for r in range(t.n(2, 8)):
                    def go2(n=n, f=f, kind=kind, r=r):
                        import random
                        rng = random.Random(f"{t.seed}/{n}/{kind}/{r}")
                        x = defop(ty, name="x")
                        a = operands(kind, rng, lib)
                        term = f(x())
                        require(isinstance(term, Term), f"{n} with a free variable gives {type(term)}")
                        with handler({x: lambda: a}):
                            alike(evaluate(term), f(a), f"{n} {a}")
                    yield f"{n} {kind} {r}", go2
        for r in range(t.n(40, 400)):
            def nest(r=r):
                import random
                rng = random.Random(f"{t.seed}/nest/{r}")
                names = [defop(ty, name=f"v{i}") for i in range(3)]
                arrs = {o: lib([rng.choice([-2.5, -1.5, .5, 2.0]) for _ in range(3)], (3,)) for o in names}

                def build(d):
                    if d == 0:
                        k = rng.randrange(3)
                        if k == 0:
                            c = rng.choice([2, .5, -1.5])
                            return lambda env: c
                        o = rng.choice(names)
                        return lambda env: env(o)
                    n, f = rng.choice([b for b in BIN if b[0] in "+-*/%"])
                    a, b = build(d - 1), build(d - 1)
                    return lambda env: f(a(env), b(env))
                e0 = build(2)
                e = lambda env: e0(env) - env(names[0])  # noqa: E731
                term = e(lambda o: o())
                with handler({o: (lambda o=o: arrs[o]) for o in names}):
                    alike(evaluate(term), e(lambda o: arrs[o]), "a nested expression")
            yield f"nested {r}", nest
    return gen


contract("C18", "torch operators", ["effectful.handlers.torch._TensorTerm", "effectful.handlers.torch._register_torch_op"], "every operator, operand kinds and both operand orders, over random arrays: the expression over variables evaluates to the operator on the arrays; non-trivial: the operator is defined there", "arrays up to 3x3")(operators("torch"))
contract("C18", "jax operators", ["effectful.handlers.jax._terms._ArrayTerm", "effectful.handlers.jax._handlers._register_jax_op"], "the same for jax", "arrays up to 3x3")(operators("jax"))


@contract("C18", "jax methods", ["effectful.handlers.jax._terms._ArrayTerm", "effectful.handlers.jax._terms._IndexUpdateRef"], "every method and property of a symbolic array, with positional and keyword arguments: evaluates to the same on the array", "a table of calls per method")
def methods(t):
    import effectful.handlers.jax  # noqa: F401
    import jax
    import jax.numpy as jnp
    import numpy as np
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import Term
    m = jnp.asarray(np.array([[3., -1., 2., 2.], [0., 5., -2., 1.], [4., 4., 1., -3.]]))
    z = jnp.asarray(np.array([1 + 2j, 3 - 1j]))
    iv = jnp.asarray([2, 0, 1, 1])
    sq = m[:, :3]
    sorted_ = jnp.asarray([1., 2., 4., 8.])
    where = jnp.asarray(np.array([[True, False, True, True]] * 3))
    red = [(), (0,), (1,), (-1,), ((0, 1),), {"axis": 0}, {"axis": 1, "keepdims": True}, {"keepdims": True}]
    T = {
        "all": red[:5] + [{"where": where}, {"axis": 0, "keepdims": True}], "any": red[:5] + [{"where": where}, {"axis": 1, "keepdims": True}],
        "argmax": [(), (0,), (1,), {"axis": 0, "keepdims": True}], "argmin": [(), (0,), (1,), {"axis": 1, "keepdims": True}],
        "argpartition": [(1,), (1, 0), {"kth": 2, "axis": -1}], "argsort": [(), (0,), {"axis": 1, "descending": True}, {"stable": True}],
        "astype": [(jnp.int32,), (jnp.complex64,)], "clip": [(0, 2), {"min": 0}, {"max": 1.5}, {"min": -1, "max": 1}], "conj": [()], "conjugate": [()], "copy": [()],
        "cumprod": [(), (0,), {"axis": 1}], "cumsum": [(), (0,), {"axis": 1}], "diagonal": [(), (1,), {"offset": -1}, {"axis1": 1, "axis2": 0}, {"offset": 1, "axis1": 1, "axis2": 0}],
        "dot": [(jnp.ones((4, 2)) * 2,), (sorted_,)], "max": red + [{"initial": 3.}, {"where": where, "initial": -9.}], "min": red + [{"initial": -1.}, {"where": where, "initial": 9.}],
        "mean": red + [{"where": where}], "prod": red + [{"initial": 2.}, {"where": where}], "sum": red + [{"where": where}], "std": red + [{"ddof": 1}, {"axis": 0, "ddof": 1, "keepdims": True}, {"where": where}],
        "var": red + [{"ddof": 1}, {"axis": 1, "ddof": 1}, {"where": where}], "ptp": [(), (0,), {"axis": 1, "keepdims": True}], "ravel": [(), {"order": "F"}], "repeat": [(2,), (2, 0), {"repeats": 2, "axis": 1}, {"repeats": 2, "axis": 1, "total_repeat_length": 7}],
        "reshape": [(4, 3), ((2, 6),), (-1,), {"_a": (4, 3), "order": "F"}], "round": [(), (1,), {"decimals": 0}], "sort": [(), (0,), {"axis": 0, "descending": True}],
        "squeeze": [()], "swapaxes": [(0, 1), {"axis1": 1, "axis2": 0}], "take": [(iv,), (jnp.asarray([0, 2]), 0), {"indices": iv, "axis": 1}, {"indices": jnp.asarray([0, 9]), "mode": "clip", "axis": 0}, {"indices": jnp.asarray([0, 9]), "mode": "fill", "axis": 1, "fill_value": 7.}],
        "trace": [(), (1,), {"offset": -1}, {"axis1": 1, "axis2": 0}, {"offset": 1, "axis1": 1, "axis2": 0}], "transpose": [(), ((1, 0),), (1, 0), ((0, 1),)], "compress": [([True, False, True], 0), {"condition": [False, True], "axis": 1}], "nonzero": [{"size": 5}, {"size": 14, "fill_value": 1}],
    }
    extra = [("choose", iv, ([jnp.arange(4), jnp.arange(4) * 10, jnp.arange(4) + 100],), {}), ("choose", iv + 1, ([jnp.arange(4), jnp.arange(4) * 10],), {"mode": "clip"}), ("choose", iv + 1, ([jnp.arange(4), jnp.arange(4) * 10], "wrap"), {}),
             ("searchsorted", sorted_, (jnp.asarray([1., 3., 8., 9.]),), {}), ("searchsorted", sorted_, (jnp.asarray([1., 3., 8.]),), {"side": "right"}), ("searchsorted", sorted_[::-1], (jnp.asarray([1., 3.]),), {"sorter": jnp.asarray([3, 2, 1, 0])}),
             ("conj", z, (), {}), ("conjugate", z, (), {}), ("squeeze", m[None], (), {}), ("squeeze", m[None, :, None], (0,), {}), ("squeeze", m[None, :, None], (), {"axis": 2}), ("sum", iv.astype(jnp.int8), (), {"promote_integers": False}), ("prod", iv.astype(jnp.int8), (), {"promote_integers": False}),
             ("trace", m.reshape(3, 2, 2), (0, 1, 2), {}), ("diagonal", m.reshape(3, 2, 2), (0, 1, 2), {}), ("swapaxes", m.reshape(3, 2, 2), (0, 2), {}), ("transpose", m.reshape(3, 2, 2), ((2, 0, 1),), {}), ("transpose", m.reshape(3, 2, 2), ([0, 2, 1],), {}), ("transpose", m.reshape(3, 2, 2), (None,), {}), ("transpose", m.ravel(), (0,), {}), ("transpose", m.ravel(), (-1,), {}), ("transpose", m.reshape(3, 2, 2), (1, 2, 0), {}), ("cumsum", iv.astype(jnp.int8), (), {"dtype": jnp.int32}), ("trace", iv.reshape(2, 2), (), {"dtype": jnp.float32})]
    calls = [(n, m, a, {}) if isinstance(a, tuple) else (n, m, a.pop("_a", ()) if "_a" in a else (), {k: v for k, v in a.items() if k != "_a"}) for n, xs in T.items() for a in [dict(y) if isinstance(y, dict) else y for y in xs]] + extra
    for i, (n, arr, a, k) in enumerate(calls):
        def go(n=n, arr=arr, a=a, k=k):
            want = run(lambda: getattr(arr, n)(*a, **k))
            if want[0] == "exc":
                raise Skip
            x = defop(jax.Array, name="x")
            term = getattr(x(), n)(*a, **k)
            with handler({x: lambda: arr}):
                got = evaluate(term)
            alike(got, want[1], f"{n}{a}{k}")
        yield f"{n} {i}", go
    for n in ("shape", "size", "ndim", "T"):
        def go2(n=n):
            x = defop(jax.Array, name="x")
            with handler({x: lambda: m}):
                got, want = evaluate(getattr(x(), n)), getattr(m, n)
            alike(got, want, n) if n == "T" else eq(tuple(got) if n == "shape" else got, want, n)
        yield n, go2
    keys = [0, (0,), (1, 2), (slice(1, 3),), (slice(None), 1), (jnp.asarray([0, 2]),), (jnp.asarray([0, 2]), jnp.asarray([1, 3])), (..., 2), -1]
    for i, key in enumerate(keys):
        def go3(key=key):
            v = m[key] * 10
            x, y = defop(jax.Array, name="x"), defop(jax.Array, name="y")
            with handler({x: lambda: m, y: lambda: v}):
                alike(evaluate(x().at[key].set(y())), m.at[key].set(v), f"at[{key}].set")
                alike(evaluate(x().at[key].set(3.)), m.at[key].set(3.), f"at[{key}].set")
                alike(evaluate(x()[key]), m[key], f"[{key}]")
        yield f"at {i}", go3

    def sym_index():
        x, i = defop(jax.Array, name="x"), defop(jax.Array, name="i")
        with handler({x: lambda: m, i: lambda: jnp.asarray(2)}):
            alike(evaluate(x()[i()]), m[2], "[i]")
            alike(evaluate(x()[0, i()]), m[0, 2], "[0, i]")
            alike(evaluate(x().at[i(), 0].set(5.)), m.at[2, 0].set(5.), "at[i, 0].set")
    yield "symbolic index", sym_index


@contract("C18", "torch functions", ["effectful.handlers.torch._torch_function", "effectful.handlers.torch._register_torch_op"], "torch functions on symbolic tensors with positional and keyword arguments", "a table of calls")
def functions(t):
    import effectful.handlers.torch  # noqa: F401
    import torch
    from effectful.ops.semantics import evaluate, handler
    from effectful.ops.syntax import defop
    m = torch.tensor([[3., -1., 2., 2.], [0., 5., -2., 1.], [4., 4., 1., -3.]])
    v = torch.tensor([1., 2., 3., 4.])
    fs = [(torch.sum, (), {}), (torch.sum, (), {"dim": 0}), (torch.sum, (1,), {"keepdim": True}), (torch.mean, (), {"dim": 1}), (torch.sub, (v,), {"alpha": 2}), (torch.add, (v,), {"alpha": 3}), (torch.matmul, (v,), {}), (torch.transpose, (0, 1), {}), (torch.permute, ((1, 0),), {}),
          (torch.clamp, (), {"min": 0., "max": 2.}), (torch.where, None, {}), (torch.cat, None, {}), (torch.stack, None, {}), (torch.reshape, ((4, 3),), {}), (torch.exp, (), {}), (torch.pow, (2,), {}), (torch.max, (), {"dim": 0}), (torch.sort, (), {"dim": 1, "descending": True}), (torch.gather, (1, torch.tensor([[0], [1], [2]])), {}), (torch.nn.functional.softmax, (), {"dim": 0}), (torch.einsum, None, {})]
    for i, (f, a, k) in enumerate(fs):
        def go(f=f, a=a, k=k):
            x, y = defop(torch.Tensor, name="x"), defop(torch.Tensor, name="y")
            if f is torch.where:
                g = lambda p, q: f(p > 0, p, q)  # noqa: E731
            elif f in (torch.cat, torch.stack):
                g = lambda p, q: f([p, q.expand(3, 4) if isinstance(q, torch.Tensor) else torch.broadcast_to(q, (3, 4)), p], dim=1)  # noqa: E731
            elif f is torch.einsum:
                g = lambda p, q: f("ij,j->i", p, q)  # noqa: E731
            else:
                g = lambda p, q: f(p, *a, **k)  # noqa: E731
            want = g(m, v)
            if f in (torch.cat, torch.stack):
                term = f([x(), x() * 2], dim=1)
                want = f([m, m * 2], dim=1)
            elif f is torch.where:
                term = f(x() > 0, x(), y())
            elif f is torch.einsum:
                term = f("ij,j->i", x(), y())
            else:
                term = f(x(), *a, **k)
            with handler({x: lambda: m, y: lambda: v}):
                alike(evaluate(term), tuple(want) if isinstance(want, tuple) else want, f"{f.__name__}{a}{k}") if not isinstance(want, tuple) else [alike(p, q, f.__name__) for p, q in zip(evaluate(term), want)]
        yield f"{f.__name__} {i}", go
