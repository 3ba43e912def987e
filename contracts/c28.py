"""C28: in the printed form of a term, two occurrences share a name exactly when they are the same operation."""
import z3

from pyvc.engine import I, is_strv, zand, znot, zor
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

TY = "effectful.ops.types."
S = z3.StringSort()


def printing(h, body):
    """Run Term.__str__ up to the evaluation, and hand over the handler it installs.

    By the contract of evaluate the term is printed by that handler, applied from the inside out."""
    e = h.e
    h.note("the term is evaluated as evaluate's contract says: the installed handler is applied to every operation application, inside first")
    h.runtime()
    op_name = z3.Function("the name of", V, S)
    old = type(e).V_attr

    def V_attr(o, name, default):
        if name == "__name__":
            return op_name(o)
        return old(e, o, name, default)
    e.V_attr = V_attr
    done = []

    def ev(ctx, a, k):
        m = ctx.obj(ctx.obj(ctx.st.ghost["runtime"]).fields["interpretation"]).map
        c = a.concrete()
        h.prove("the term itself is evaluated", c is not None and len(c) == 1 and h.same(c[0], term) and ctx.trivially_empty(k))
        ap = ctx.overrides["effectful.ops.semantics.apply"](ctx)
        other = h.op("other")
        h.prove("nothing but the printing is installed", zor(h.same(other, ap), znot(ctx.map_has(m, other))))
        f = ctx.map_get(m, ap)
        h.prove("the printing is installed", f is not ctx.MISSING)
        done.append(True)
        body(ctx.unbox(f))
        return z3.Const("printed", V)
    e.contracts["effectful.ops.semantics.evaluate"] = ev
    term = h.obj(TY + "Term", "term")
    f = h.fn(TY + "Term")
    r = h.run(lambda: e.call(e.class_attr(f, "__str__"), Seq.of([term]), Map()))
    h.prove("printing succeeds", r.ok)
    h.prove("the result is the evaluated term", r.ok and h.same(r.val, z3.Const("printed", V)))
    h.prove("the term is printed", bool(done))
    return op_name


def arbitrary(h, env, ops):
    """An arbitrary state of the names given so far, satisfying the invariant at the given operations."""
    e = h.e
    names, taken = (e.unbox(e.env_get(env, x)[1]) for x in ("names", "taken"))
    N = Map(e.fresh("names"))
    T = SetV(arr=e.fresh("taken", z3.SetSort(V)))
    e.st.heap[names.oid], e.st.heap[taken.oid] = DictObj(N), SetObj(T)
    for o in ops:
        t = mget(N.base, e.box(o))
        e.assume(z3.Implies(e.map_has(N, o), z3.And(kind(t) == K_STR, mkStr(unStr(t)) == t, e.set_has(T, t))))
    for i, o in enumerate(ops):
        for p in ops[i + 1:]:
            e.assume(z3.Implies(z3.And(e.map_has(N, o), e.map_has(N, p), mget(N.base, e.box(o)) == mget(N.base, e.box(p))), h.same(o, p)))
    return names, taken, N


@harness("C28", "names", budget=60.0)
def names(h):
    """Whatever was printed before, an operation's name is kept, and no two operations have the same one."""
    e = h.e
    h.expect_cover("new", "old", "loop")
    h.note("the search for a free name is taken to end")

    def body(f):
        op_str = e.unbox(e.env_get(f.env, "op_str")[1])
        env = op_str.env
        a, b, o = h.op("a"), h.op("b"), h.op("o")
        names0, taken0 = (e.unbox(e.env_get(env, x)[1]) for x in ("names", "taken"))
        h.prove("no names are given at the start", e.trivially_empty(e.obj(names0).map))
        nm, tk, N = arbitrary(h, env, (a, b, o))

        def havoc(env2, j):
            h.cover("loop")
            n = e.fresh("n", z3.IntSort())
            e.env_set(env2, "n", n)
            e.env_set(env2, "name", e.fresh("candidate", S))
            return []
        h.invariant(TY + "Term.__str__.<locals>.op_str", "search", lambda env2, j: [], havoc)
        h.cover("old" if e.decide(e.map_has(N, o)) else "new")
        r = h.call(op_str, o)
        h.prove("naming succeeds", r.ok)
        if not r.ok:
            return
        M, T2 = e.obj(nm).map, e.obj(tk).set
        now = lambda x: e.map_get(M, x)  # noqa: E731
        h.prove("an operation is printed as its name", e.decide(e.map_has(M, o)) and h.same(r.val, now(o)))
        if e.decide(e.map_has(N, a)):
            h.prove("a name once given is kept", e.decide(e.map_has(M, a)) and h.same(now(a), e.map_get(N, a)))
        if e.decide(e.map_has(M, a)) and e.decide(e.map_has(M, b)):
            h.prove("different operations have different names", zor(h.same(a, b), znot(h.same(now(a), now(b)))))
            h.prove("names given are remembered as taken", e.set_has(T2, e.box(now(a))))
    printing(h, body)


class Text:
    """Strings as lists of pieces; ', '.join over a symbolic stretch is one opaque piece."""

    def __init__(self, h):
        self.h, self.e = h, h.e
        e = self.e
        e.st.ghost["joins"] = {}
        old = type(e).str_method

        def str_method(o, name, args, kwargs):
            if name == "join":
                s = e.iter_seq(args.concrete()[0])
                if s.concrete() is None:
                    return self.join(o, s)
            return old(e, o, name, args, kwargs)
        e.str_method = str_method
        oldb = type(e).binop

        def binop(op, a, b):
            x, y = e.unbox(a), e.unbox(b)
            if op == "Add" and (is_strv(x) or is_strv(y)):  # names of keywords are strings
                x, y = (unStr(z) if is_z_(z) and not is_strv(z) else z for z in (x, y))
            return oldb(e, op, x, y)
        e.binop = binop

    def join(self, sep, s):
        e = self.e
        t = e.fresh("joined", S)
        d = dict(e.st.ghost["joins"])
        d[t.get_id()] = (t, sep, s)
        e.keep.append(t)
        e.st.ghost["joins"] = d
        return t

    def joined(self, sep, s):
        """A join, stretch by stretch."""
        e, out = self.e, []
        for g in s.segs:
            if isinstance(g, Block) and not e.decide(I(g.n) > 0):
                continue
            if out:
                out.append(sep)
            out += self.pieces(g.v) if isinstance(g, One) else [(sep, Seq([g]))]
        return out

    def pieces(self, v):
        e = self.e
        v = e.unbox(v)
        if isinstance(v, str):
            return [v] if v else []
        j = e.st.ghost["joins"].get(v.get_id()) if is_z_(v) else None
        if j is not None:
            return self.joined(*j[1:])
        if is_z_(v) and is_strv(v):
            if z3.is_string_value(v):
                return self.pieces(v.as_string())
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                out = []
                for c in v.children():
                    for x in self.pieces(c):
                        if isinstance(x, str) and out and isinstance(out[-1], str):
                            out[-1] += x
                        else:
                            out.append(x)
                return out
        return [v]

    def same(self, v, want):
        """want: a list of str, string terms and (separator, sequence)."""
        h, e = self.h, self.e
        got, w = [], []
        for x in self.pieces(v):
            if isinstance(x, str) and got and isinstance(got[-1], str):
                got[-1] += x
            else:
                got.append(x)
        want = [y for x in want for y in (self.joined(*x) if isinstance(x, tuple) else [x])]
        for x in want:
            if isinstance(x, str) and w and isinstance(w[-1], str):
                w[-1] += x
            elif not isinstance(x, str) or x:
                w.append(x)
        if len(got) != len(w):
            return False
        r = []
        for x, y in zip(got, w):
            if isinstance(x, tuple) != isinstance(y, tuple) or isinstance(x, str) != isinstance(y, str):
                return False
            if isinstance(x, tuple):
                r += [x[0] == y[0], h.seq_same(x[1], y[1])]
            else:
                r.append(x == y)
        return zand(*r)


def is_z_(x):
    return isinstance(x, z3.ExprRef)


def shown_as(h, f):
    """The functions inside: an operation's name, a part's text (by induction: as claimed)."""
    e = h.e
    name_of, shown = z3.Function("printed name", V, S), z3.Function("shown", V, S)
    L = TY + "Term.__str__.<locals>."
    e.contracts[L + "op_str"] = lambda ctx, a, k: name_of(ctx.box(a.concrete()[0]))

    def term_str(ctx, a, k):
        if ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = False
            return ctx.exec_function(ctx.callee, a, k)
        return shown(ctx.box(a.concrete()[0]))
    e.contracts[L + "term_str"] = term_str
    return name_of, shown


@harness("C28", "applications", budget=60.0)
def applications(h):
    """An application is its operation, its arguments and its keywords, each once, in order."""
    e = h.e
    h.expect_cover("both", "args", "kwargs", "none")
    h.note("texts of parts are opaque; that text is put together without loss is what is proved")

    def body(f):
        T = Text(h)
        name_of, shown = shown_as(h, f)
        o = h.op("o")
        args, kw = (h.args("args") if e.choose("some args") else Seq()), (h.kwargs("kwargs", reserved=("op",)) if e.choose("some kwargs") else Map())
        n = e.seq_len(args)
        if not isinstance(n, int):
            h.assume(n > 0)
        some = not e.trivially_empty(kw)
        if some:
            h.assume(e.map_nonempty(kw))
        has = not (isinstance(n, int) and n == 0)
        h.cover("both" if has and some else "args" if has else "kwargs" if some else "none")
        r = h.callx(f, Seq.of([o]) + args, kw)
        h.prove("printing an application succeeds", r.ok)
        if not r.ok:
            return
        want = [name_of(o), "("]
        if has:
            want.append((", ", seq_map(e, args, lambda x: shown(e.box(x)))))
        if has and some:
            want.append(", ")
        if some:
            ks = e.iter_seq(ViewV("items", kw))

            def entry(p):
                k, v = e.unbox(p).seq.concrete()
                kb = e.box(k)  # names of keywords are strings, and print as themselves
                e.assume(z3.And(kind(kb) == K_STR, z3.Function("fmt!-1!", V, S)(kb) == unStr(kb)))
                return z3.Concat(unStr(kb), z3.StringVal("="), shown(e.box(v)))
            want.append((", ", seq_map(e, ks, entry)))
        want.append(")")
        h.prove("operation, arguments, keywords: each once, in order", T.same(r.val, want))
    printing(h, body)


def seq_map(e, s, f):
    return Seq([One(f(g.v)) if isinstance(g, One) else Block(g.n, (lambda g: lambda j: f(g.at(j)))(g)) for g in s.segs])


@harness("C28", "parts", budget=60.0)
def parts(h):
    """A part of an application: an operation by its name, a container by its items in order, other values by str()."""
    e = h.e
    h.expect_cover("operation", "list", "tuple", "dict", "other")

    def body(f):
        T = Text(h)
        name_of, shown = shown_as(h, f)
        ts = e.unbox(e.env_get(f.env, "term_str")[1])
        s = h.args("items")
        if e.choose("an operation"):
            h.cover("operation")
            x = h.op("x")
            want = [name_of(x)]
        elif e.choose("a list"):
            h.cover("list")
            x = e.new_list(s)
            want = ["[", (", ", seq_map(e, s, lambda y: shown(e.box(y)))), "]"]
        elif e.choose("a tuple"):
            h.cover("tuple")
            x = TupleV(s)
            want = ["(", (", ", seq_map(e, s, lambda y: shown(e.box(y)))), ")"]
        elif e.choose("a dict"):
            h.cover("dict")
            x = h.dict("entries")
            ks = e.iter_seq(ViewV("items", e.obj(x).map))

            def entry(p):
                k, v = e.unbox(p).seq.concrete()
                return z3.Concat(shown(e.box(k)), z3.StringVal(":"), shown(e.box(v)))
            want = ["{", (", ", seq_map(e, ks, entry)), "}"]
        else:
            h.cover("other")
            x = h.val("x")
            for c in (TY + "Operation",):
                h.assume(znot(e.isinst(x, e.resolve(c))))
            for c in ("list", "tuple", "dict"):
                h.assume(znot(e.isinst(x, ExtV("builtins." + c))))
            e.natives["builtins.str"] = lambda ctx, a, k: z3.Function("str()", V, S)(ctx.box(a.concrete()[0]))
            want = [z3.Function("str()", V, S)(x)]
        e.st.ghost["outer"] = True
        r = h.call(ts, x)
        h.prove("printing a part succeeds", r.ok)
        if r.ok:
            h.prove("a part is printed whole, in order", T.same(r.val, want))
    printing(h, body)
