from rt.core import *  # noqa: F403


@contract("C02", "dispatch", ["effectful.ops.types.Operation.__call__", "effectful.ops.types.Operation.__apply__", "effectful.ops.types.Operation.__default_rule__"],
          "random handler programs with handlers for all applications, defaults that return, decline, raise or call on, compared with a reference dispatcher; non-trivial: at least 4 steps")
def dispatch(t):
    from rt.stackmodel import compare
    for k, rng in t.each(t.n(700, 12000)):
        def go(rng=rng):
            n, d = compare(rng, apply_ok=True)
            require(d is None, d)
            return None if n >= 4 else "trivial"
        yield k, go


@contract("C02", "outcomes", ["effectful.ops.types.Operation.__call__", "effectful.ops.types.Operation.__default_rule__"],
          "every kind of definition (function, type, builtin, method, static, class method, subclass of Operation) x handled/unhandled/apply x argument mixes: called once, same argument objects, same result object", bound="fixed scenarios x sampled arguments")
def outcomes(t):
    from effectful.ops.semantics import apply, fwd, handler
    from effectful.ops.types import NotHandled, Operation, Term

    class MyOp(Operation):
        pass

    def mk(kind, beh):
        def f(*args, **kwargs):
            return beh(args, kwargs)
        if kind == "fn":
            return Operation.define(f)
        if kind == "sub":
            return MyOp.define(f)
        if kind == "static":
            class S:
                m = Operation.define(staticmethod(f))
            return S.m
        if kind == "method":
            class M:
                @Operation.define
                def m(self, *args, **kwargs):
                    return beh(args, kwargs)
            return M().m
        if kind == "clsmethod":
            class K:
                @Operation.define
                @classmethod
                def m(cls, *args, **kwargs):
                    return beh(args, kwargs)
            return K.m
    kinds = ["fn", "sub", "static", "method", "clsmethod"]
    argsets = [((), {}), ((1,), {}), ((1, 2), {"k": 3}), ((), {"k": None, "args": 2}), ((None, (), [], {}), {"z": [1]}), ((object(), "s"), {"a": b"x"})]
    for kind in kinds:
        for ai, (args, kwargs) in enumerate(argsets):
            for mode in ("none", "handled", "apply", "both", "fwd", "applyfwd"):
                for beh in ("value", "decline", "raise"):
                    def go(kind=kind, args=args, kwargs=kwargs, mode=mode, beh=beh):
                        if kind == "method" and mode == "applyfwd":  # forwards to the class-level operation first
                            raise Skip
                        log = []
                        res, err = object(), ValueError("v")

                        def b(a, k):
                            log.append(("d", a, k))
                            if beh == "decline":
                                raise NotHandled
                            if beh == "raise":
                                raise err
                            return res
                        op = mk(kind, b)
                        hres = object()

                        def h(*a, **k):
                            log.append(("h", a, k))
                            return fwd() if mode == "fwd" else hres

                        def ap(o, *a, **k):
                            log.append(("a", a, k))
                            is_(o, op, "operation given to apply")
                            return fwd() if mode == "applyfwd" else hres
                        intp = {}
                        if mode in ("handled", "both", "fwd"):
                            intp[op] = h
                        if mode in ("apply", "both", "applyfwd"):
                            intp[apply] = ap
                        with handler(intp):
                            try:
                                r = ("ok", op(*args, **kwargs))
                            except ValueError as x:
                                r = ("err", x)
                        want = {"none": "d", "handled": "h", "apply": "a", "both": "h", "fwd": "hd", "applyfwd": "ad"}[mode]
                        eq("".join(x[0] for x in log), want, "bodies run")
                        for _, a, k in log:
                            require(len(a) == len(args) and all(x is y for x, y in zip(a, args)), "positional arguments", a, args)
                            require(list(k) == list(kwargs) and all(k[n] is kwargs[n] for n in k), "keyword arguments", k, kwargs)
                        if want[-1] != "d":
                            require(r[0] == "ok" and r[1] is hres, "result of the handler", r)
                        elif beh == "value":
                            require(r[0] == "ok" and r[1] is res, "result of the default", r)
                        elif beh == "raise":
                            require(r[0] == "err" and r[1] is err, "exception of the default", r)
                        else:
                            require(r[0] == "ok" and isinstance(r[1], Term), "a declining default gives a term", r)
                            x = r[1]
                            is_(x.op, op, "term's operation")
                            require(len(x.args) == len(args) and all(p is q or p == q for p, q in zip(x.args, args)), "term's arguments", x.args)
                            require(dict(x.kwargs) == kwargs, "term's keywords", x.kwargs)
                    yield f"{kind}-{ai}-{mode}-{beh}", go

    def subclass_apply():
        """A handler for the applications of one class of operations does not see those of another."""
        class O1(Operation):
            pass

        class O2(Operation):
            pass
        a, b, c = O1.define(lambda x: ("a", x)), O2.define(lambda x: ("b", x)), Operation.define(lambda x: ("c", x))
        seen = []

        def ap(tag):
            def f(o, *args, **k):
                seen.append((tag, o))
                return fwd()
            return f
        with handler({O1.__apply__: ap("O1")}):
            eq((a(1), b(2), c(3)), (("a", 1), ("b", 2), ("c", 3)))
            eq(seen, [("O1", a)])
        seen.clear()
        with handler({apply: ap("all"), O1.__apply__: ap("O1")}):
            eq((a(1), b(2), c(3)), (("a", 1), ("b", 2), ("c", 3)))
            eq(seen, [("O1", a), ("all", a), ("all", b), ("all", c)])
    yield "subclass-apply", subclass_apply

    def own_default_once():
        n = []
        op = Operation.define(lambda *a: n.append(a), name="q")
        op(1)
        op(2)
        eq(n, [(1,), (2,)])
        with handler({op: lambda *a: None}):
            eq(op(3), None)
        eq(n, [(1,), (2,)])
    yield "none-result", own_default_once


@contract("C02", "keyword-names", ["effectful.ops.types.Operation.__call__"],
          "an operation whose own keyword parameter has a name the machinery uses itself", bound="listed names")
def keyword_names(t):
    from effectful.ops.types import NotHandled, Operation
    for n in ("op", "self", "args", "kwargs", "ty", "app", "intp", "func", "name", "default"):
        def go(n=n):
            op = Operation.define(lambda **k: ("d", k), name="q")
            eq(op(**{n: 1}), ("d", {n: 1}), f"keyword {n} reaches the default")
        yield f"default-{n}", go

        def term(n=n):
            def f(**k):
                raise NotHandled
            op = Operation.define(f, name="q")
            eq(dict(op(**{n: 1}).kwargs), {n: 1}, f"keyword {n} is in the term")
        yield f"term-{n}", term
