"""Reference semantics of handler stacks, and a generator of random handler programs run in both worlds."""
import functools

APPLY = "apply"


class Boom(Exception):
    def __init__(self, n):
        super().__init__(n)
        self.n = n


class Boom2(Boom):
    pass


class BoomBase(BaseException):
    def __init__(self, n):
        super().__init__(n)
        self.n = n


EXC = {"E": Boom, "E2": Boom2, "B": BoomBase}

# A program is a list of instructions, run against a world W:
#   ("call", i, args, kwargs)          call operation i with argument expressions
#   ("fwd",)                           bare forward
#   ("fwdwith", args, kwargs)          forward with arguments (never both empty)
#   ("install", how, layers, prog)     run prog inside handler(s)
#   ("raise", kind, n) ("catch", prog) ("return",)
# The result of each instruction is appended to the local results, the value of the body is (tag, args, kwargs, results).


class Returned(Exception):
    pass


def run_body(W, tag, prog, args, kwargs, depth):
    W.trace.append(("enter", tag, W.show(args), W.show(kwargs)))
    out = []
    try:
        run_prog(W, prog, args, kwargs, out, depth)
    except Returned:
        out.append("ret")
    r = (tag, len(out)) + tuple(out[-2:])
    W.trace.append(("leave", tag, W.show(r)))
    return r


def val(x, args, kwargs, out):
    if x == "a0":
        return args[0] if args else 0
    if x == "last":
        return out[-1] if out else None
    return x


def run_prog(W, prog, args, kwargs, out, depth):
    for ins in prog:
        k = ins[0]
        if k == "call":
            if depth > 0:
                out.append(W.call(ins[1], tuple(val(x, args, kwargs, out) for x in ins[2]), {n: val(x, args, kwargs, out) for n, x in ins[3].items()}, depth - 1))
        elif k == "fwd":
            out.append(W.fwd(None, None, depth))
        elif k == "fwdwith":
            out.append(W.fwd(tuple(val(x, args, kwargs, out) for x in ins[1]), {n: val(x, args, kwargs, out) for n, x in ins[2].items()}, depth))
        elif k == "install":
            try:
                W.install(ins[1], ins[2], lambda: run_prog(W, ins[3], args, kwargs, out, depth))
            finally:
                W.trace.append(("after", W.snapshot()))
        elif k == "raise":
            raise EXC[ins[1]](ins[2])
        elif k == "catch":
            try:
                run_prog(W, ins[1], args, kwargs, out, depth)
            except (Boom, BoomBase) as e:
                W.trace.append(("caught", type(e).__name__, e.n))
                out.append(("caught", type(e).__name__, e.n))
        elif k == "return":
            raise Returned()


class Model:
    def __init__(self, opspecs):
        self.ops = opspecs  # list of (tag, default kind)
        self.stack = []
        self.frames = []
        self.trace = []

    def show(self, x):
        return repr(x)

    def snapshot(self):
        return tuple(sorted({str(i) for l in self.stack for i in l}))

    def chain(self, i):
        return [l[i] for l in self.stack if i in l]

    def call(self, i, args, kwargs, depth):
        c = self.chain(i)
        if c:
            return self.invoke(i, c, len(c) - 1, args, kwargs, depth)
        c = self.chain(APPLY)
        if c:
            return self.invoke(APPLY, c, len(c) - 1, (("op", i),) + args, kwargs, depth)
        return self.default(i, args, kwargs, depth)

    def default(self, i, args, kwargs, depth):
        if i == APPLY:
            return self.default(args[0][1], args[1:], kwargs, depth)
        kind = self.ops[i][1]
        if kind == "value":
            self.trace.append(("default", i, self.show(args), self.show(kwargs)))
            return ("dflt", i) + args + tuple(kwargs.items())
        if kind == "raise":
            self.trace.append(("default", i, self.show(args), self.show(kwargs)))
            raise Boom(1000 + i)
        if kind.startswith("calls"):
            j = int(kind[5:])
            self.trace.append(("default", i, self.show(args), self.show(kwargs)))
            return ("via", self.call(j, args, kwargs, depth))
        return ("term", i, args, tuple(sorted(kwargs.items())))

    def invoke(self, i, c, l, args, kwargs, depth):
        if l < 0:
            return self.default(i, args, kwargs, depth)
        tag, prog, _ = c[l]
        self.frames.append((i, c, l, args, kwargs))
        try:
            return run_body(self, tag, prog, args, kwargs, depth)
        finally:
            self.frames.pop()

    def fwd(self, args, kwargs, depth):
        i, c, l, a, k = self.frames[-1]
        if args is None:
            args, kwargs = a, k
        return self.invoke(i, c, l - 1, args, kwargs, depth)

    def install(self, how, layers, thunk):
        old = self.stack
        if how[0] == "replace":
            self.stack = list(layers)
        else:
            self.stack = self.stack + list(layers)
        try:
            thunk()
        finally:
            self.stack = old


def flatten(t):
    return [t] if isinstance(t, int) else flatten(t[0]) + flatten(t[1])


class Real:
    def __init__(self, opspecs):
        from effectful.ops.semantics import apply, coproduct, fwd, handler
        from effectful.ops.types import NotHandled, Operation, Term
        from effectful.internals.runtime import get_interpretation, interpreter
        self.handler, self.interpreter, self.coproduct, self.fwd_, self.Term, self.get = handler, interpreter, coproduct, fwd, Term, get_interpretation
        self.trace = []
        self.depths = []
        self.impls = {}
        self.specs = opspecs
        self.ops = {APPLY: apply}
        for i, (tag, kind) in enumerate(opspecs):
            self.ops[i] = self.mk(i, tag, kind, Operation, NotHandled)
        self.index = {id(o): i for i, o in self.ops.items()}

    def mk(self, i, tag, kind, Operation, NotHandled):
        W = self

        def body(*args, **kwargs):
            if kind == "term":
                raise NotHandled
            W.trace.append(("default", i, W.show(args), W.show(kwargs)))
            if kind == "value":
                return ("dflt", i) + args + tuple(kwargs.items())
            if kind == "raise":
                raise Boom(1000 + i)
            return ("via", W.ops[int(kind[5:])](*args, **kwargs))
        body.__name__ = tag
        return Operation.define(body)

    def norm(self, x):
        if isinstance(x, self.Term):
            return ("term", self.index[id(x.op)], tuple(self.norm(a) for a in x.args), tuple(sorted((k, self.norm(v)) for k, v in x.kwargs.items())))
        if id(x) in self.index:
            return ("op", self.index[id(x)])
        if isinstance(x, tuple):
            return tuple(self.norm(a) for a in x)
        if isinstance(x, dict):
            return {k: self.norm(v) for k, v in x.items()}
        return x

    def show(self, x):
        return repr(self.norm(x))

    def snapshot(self):
        return tuple(sorted(str(i) for i, o in self.ops.items() if o in self.get()))

    def call(self, i, args, kwargs, depth):
        self.depths.append(depth)
        try:
            return self.ops[i](*args, **kwargs)
        finally:
            self.depths.pop()

    def fwd(self, args, kwargs, depth):
        return self.fwd_() if args is None else self.fwd_(*args, **kwargs)

    def layer(self, l):
        d = {}
        for i, (tag, prog, form) in l.items():
            if tag not in self.impls:
                self.impls[tag] = self.impl(tag, prog, form)
            d[self.ops[i]] = self.impls[tag]
        return d

    def impl(self, tag, prog, form):
        W = self

        def go(args, kwargs):
            return run_body(W, tag, prog, args, kwargs, W.depths[-1])
        if form == "nullary":
            return lambda: go((), {})
        if form == "unary":
            return lambda x: go((x,), {})
        if form == "partial":
            return functools.partial(lambda t, *a, **k: go(a, k), 0)
        if form == "object":
            class C:
                def __call__(self, *a, **k):
                    return go(a, k)
            return C()
        if form == "method":
            class D:
                def m(self, *a, **k):
                    return go(a, k)
            return D().m
        return lambda *a, **k: go(a, k)

    def install(self, how, layers, thunk):
        ls = [self.layer(l) for l in layers]
        before = dict(self.get())
        active = self.get()
        if how[0] == "stack":
            cms = [self.handler(l) for l in ls]
        else:
            shape = how[1]

            def build(t):
                return ls[t] if isinstance(t, int) else self.coproduct(build(t[0]), build(t[1]))
            m = build(shape)
            cms = [self.handler(m) if how[0] == "tree" else self.interpreter(m)]
        copies = [dict(l) for l in ls]

        def nest(k):
            if k == len(cms):
                thunk()
            else:
                with cms[k]:
                    nest(k + 1)
        try:
            nest(0)
        finally:
            if [dict(l) for l in ls] != copies:
                self.trace.append("an installed mapping was modified")
            if dict(active) != before:
                self.trace.append("the previously active mapping was modified")
            if dict(self.get()) != before:
                self.trace.append("interpretation not restored")


def rand_shape(rng, lo, hi):
    if hi - lo == 1:
        return lo
    m = rng.randrange(lo + 1, hi)
    return (rand_shape(rng, lo, m), rand_shape(rng, m, hi))


class Gen:
    """Random programs; operation i has arity arities[i] (None: any)."""

    def __init__(self, rng, apply_ok=False, raises=True, nullary=True):
        self.rng = rng
        self.n = rng.randint(2, 4)
        self.ctr = 0
        self.made = []
        self.apply_ok, self.raises = apply_ok, raises
        self.ar = [rng.choice([None, None, 0, 1]) if nullary else None for _ in range(self.n)]
        self.specs = []
        for i in range(self.n):
            k = rng.choice(["value", "value", "term", "raise" if raises else "value"] + ([f"calls{rng.randrange(i + 1, self.n)}"] if i + 1 < self.n and self.ar[i] is None else []))
            if k.startswith("calls") and self.ar[int(k[5:])] is not None:
                k = "value"
            self.specs.append((f"op{i}" if rng.random() < .7 else "op", k))

    def args(self, i):
        r = self.rng
        a = self.ar[i] if i != APPLY else None
        pool = [1, 2, "x", None, (3,), "a0", "last", 0, False]
        if a is None:
            return tuple(r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3]))), {n: r.choice(pool) for n in r.sample(["k", "m", "n"], r.choice([0, 0, 1, 2]))}
        return tuple(r.choice(pool) for _ in range(a)), {}

    def layer(self, depth):
        r = self.rng
        d = {}
        ks = list(range(self.n)) + ([APPLY] if self.apply_ok else [])
        for i in r.sample(ks, r.randint(1, len(ks))):
            again = [h for j, h in self.made if j == i or (i != APPLY != j and self.ar[i] is None is self.ar[j])]
            if again and r.random() < .15:
                d[i] = r.choice(again)  # the same function once more, possibly for another operation
                continue
            self.ctr += 1
            form = {0: r.choice(["nullary", "var"]), 1: r.choice(["unary", "var"])}.get(self.ar[i] if i != APPLY else None) or r.choice(["var", "var", "partial", "object", "method"])
            d[i] = (f"h{self.ctr}", self.prog(depth - 1, i), form)
            self.made.append((i, d[i]))
        return d

    def prog(self, depth, own, infwd=True, length=None):
        """own: the operation whose handler body this is (None at top level)."""
        r = self.rng
        out = []
        for _ in range(length or r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if k < .34 and own is not None and infwd:
                out.append(("fwd",))
            elif k < .48 and own is not None and own != APPLY and infwd:
                if self.ar[own] == 0:
                    out.append(("fwd",))
                    continue
                a, kw = self.args(own)
                if not a and not kw:
                    a = (7,)
                out.append(("fwdwith", a, kw))
            elif k < .74:
                i = r.randrange(self.n)
                a, kw = self.args(i)
                out.append(("call", i, a, kw))
            elif k < .86 and depth > 0:
                nl = r.choice([1, 1, 2, 3])
                ls = [self.layer(depth - 1) for _ in range(nl)]
                how = r.choice([("stack",), ("tree", rand_shape(r, 0, nl)), ("replace", rand_shape(r, 0, nl))])
                out.append(("install", how, ls, self.prog(depth - 1, own, infwd and how[0] != "replace")))
            elif k < .92 and self.raises:
                out.append(("raise", r.choice(["E", "E2", "B"]), r.randrange(9)))
            elif k < .97:
                out.append(("catch", self.prog(depth, own, infwd)))
            elif own is not None:
                out.append(("return",))
        return out

    def top(self):
        r = self.rng
        nl = r.choice([1, 2, 2, 3, 4])
        ls = [self.layer(1) for _ in range(nl)]
        how = r.choice([("stack",), ("stack",), ("tree", rand_shape(r, 0, nl)), ("replace", rand_shape(r, 0, nl))])
        inner = []
        for _ in range(r.choice([1, 2, 3])):
            i = r.randrange(self.n)
            a, kw = self.args(i)
            inner.append(("catch", [("call", i, a, kw)]) if r.random() < .7 else ("call", i, a, kw))
        if r.random() < .3:
            inner += self.prog(1, None)
        tail = []
        for i in range(self.n):
            a, kw = self.args(i)
            tail.append(("catch", [("call", i, a, kw)]))
        return [("catch", [("install", how, ls, inner)])] + tail


def compare(rng, **kw):
    """Run one random program in both worlds; return (steps, None | difference)."""
    g = Gen(rng, **kw)
    prog = g.top()
    res = []
    for W in (Model(g.specs), Real(g.specs)):
        if isinstance(W, Real):
            W.depths.append(2)
        if isinstance(W, Real) and len(res[0][0]) > 4000:
            return 0, None
        try:
            out = []
            run_prog(W, prog, (), {}, out, 2)
            res.append((W.trace, [W.show(o) for o in out]))
        except RecursionError:
            return 0, None
    a, b = res
    if a != b:
        for i, (x, y) in enumerate(zip(a[0], b[0])):
            if x != y:
                return len(a[0]), f"step {i}: expected {x}, real code did {y}; program {prog!r} operations {list(zip(g.specs, g.ar))}"
        return len(a[0]), f"traces end differently: expected {a[0][len(b[0]):][:2]} {a[1]}, real {b[0][len(a[0]):][:2]} {b[1]}; program {prog!r}"
    return len(a[0]), None
