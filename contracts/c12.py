"""C12: number terms: every operator is its own operation, computes Python's operator on numbers, and keeps the operands in order."""
import ast

from pyvc.engine import znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

SYN = "effectful.ops.syntax."
NT = SYN + "_NumberTerm."
CLASSES = ["_NumberTerm", "_ComplexTerm", "_RealTerm", "_RationalTerm", "_IntegralTerm", "_BoolTerm"]
BIN = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "truediv", "floordiv": "floordiv", "mod": "mod", "pow": "pow", "lshift": "lshift", "rshift": "rshift", "and": "and_", "xor": "xor", "or": "or_"}
CMP = ["lt", "gt", "le", "ge", "eq"]
ASTOP = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "lshift": "LShift", "rshift": "RShift", "and": "BitAnd", "xor": "BitXor", "or": "BitOr", "lt": "Lt", "gt": "Gt", "le": "LtE", "ge": "GtE", "eq": "Eq"}
# the ways the standard library spells one operator
SPELL = {}
for _n, _f in list(BIN.items()) + [(c, c) for c in CMP]:
    for _s in (f"operator.{_f}", f"operator.__{_n}__"):
        SPELL[_s] = _n
UNARY = {"neg": ("operator.neg", "operator.__neg__", "method __neg__"), "pos": ("operator.pos", "operator.__pos__", "method __pos__"), "invert": ("operator.invert", "operator.__invert__", "operator.inv", "operator.__inv__", "method __invert__"),
         "abs": ("builtins.abs", "operator.abs", "operator.__abs__", "method __abs__"), "trunc": ("math.trunc", "method __trunc__"), "floor": ("math.floor",), "ceil": ("math.ceil",), "index": ("operator.index", "operator.__index__", "method __index__")}


def setup(h):
    """Operators on opaque values are recorded with what they were applied to; they may raise or give anything."""
    e = h.e
    h.note("Python's own numeric operators are arbitrary functions of their operands (they may raise; what they raise is not caught)")
    term = h.fn("effectful.ops.types.Term")

    def spelled(name):
        def f(ctx, args, kwargs):
            return ctx.opaque(ExtV("py:" + name), args, kwargs, what="operator")
        return f
    for s, n in SPELL.items():
        e.natives[s] = spelled(n)
    for n, ss in UNARY.items():
        for s in ss:
            if not s.startswith("method "):
                e.natives[s] = spelled(n)
    e.natives["builtins.round"] = spelled("round")
    old = type(e).binop

    def binop(op, a, b):
        if op in ASTOP.values() and (is_num(h, a) or is_num(h, b)):
            n = next(k for k, v in ASTOP.items() if v == op)
            return e.opaque(ExtV("py:" + n), Seq.of([a, b]), Map(), what="operator")
        return old(e, op, a, b)
    e.binop = binop
    oldu, oldc = type(e).unop, type(e).compare

    def unop(name, v):
        return e.opaque(ExtV("py:" + name), Seq.of([v]), Map(), what="operator") if is_num(h, v) else oldu(e, name, v)

    def compare(op, a, b):
        n = type(op).__name__
        if n in ("Eq", "Lt", "Gt", "LtE", "GtE") and (is_num(h, a) or is_num(h, b)):
            return e.opaque(ExtV("py:" + next(k for k, v in ASTOP.items() if v == n)), Seq.of([a, b]), Map(), what="operator")
        return oldc(e, op, a, b)
    e.unop, e.compare = unop, compare
    return term


def is_num(h, v):
    return getattr(v, "get_id", None) is not None and v.get_id() in h.e.st.ghost.get("nums", ())


def number(h, term, name):
    """An arbitrary value that is no term."""
    x = h.val(name)
    h.assume(znot(h.e.isinst(x, term)))
    h.e.st.ghost["nums"] = h.e.st.ghost.get("nums", ()) + (x.get_id(),)
    return x


def default(h, name):
    op = h.fn(NT + name)
    if isinstance(op, BoundV):  # property
        op = op.self_
    return op, h.e.st.attrs.get((op.get_id(), "__default__")) if hasattr(op, "get_id") else None


def defaults_binary(name):
    def f(h):
        e = h.e
        term = setup(h)
        h.expect_cover("numbers", "a term on the left", "a term on the right")
        op, body = default(h, f"__{name}__")
        h.prove("it is an operation of its own", body is not None and str(op) == f"g:op:{NT}__{name}__")
        if body is None:
            return
        case = e.choose("left term")
        if case:
            h.cover("a term on the left")
            x = h.obj("effectful.ops.types.Term", "x")
            y = h.val("y")
        elif e.choose("right term"):
            h.cover("a term on the right")
            x = number(h, term, "x")
            y = h.obj("effectful.ops.types.Term", "y")
        else:
            h.cover("numbers")
            x, y = number(h, term, "x"), number(h, term, "y")
            out = h.call(body, x, y)
            evs = h.events()
            h.prove("numbers: Python's operator is applied once", len(evs) == 1 and isinstance(evs[0].f, ExtV) and evs[0].f.path == "py:" + name)
            if len(evs) == 1:
                a = evs[0].args.concrete()
                h.prove("numbers: to the left operand first", a is not None and len(a) == 2 and h.same(a[0], x))
                h.prove("numbers: and the right operand second", a is not None and len(a) == 2 and h.same(a[1], y))
                h.prove("numbers: its result, or what it raises, is the result", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)
            return
        if name == "eq":
            seen = []

            def syn(ctx, a, k):
                seen.append(a.concrete())
                return "syn-result"
            e.contracts[SYN + "syntactic_eq"] = syn
            out = h.call(body, x, y)
            h.prove("terms: equality is structural", len(seen) == 1 and out.ok and out.val == "syn-result" and len(h.events()) == 0)
            if seen:
                h.prove("terms: of the two operands", len(seen[0]) == 2 and e.decide(h.same(seen[0][0], x)) and e.decide(h.same(seen[0][1], y)))
            return
        out = h.call(body, x, y)
        h.prove("terms: not handled", out.exc and not_handled(h, out.val))
        h.prove("terms: nothing is computed", len(h.events()) == 0)
    return f


def not_handled(h, v):
    e = h.e
    nh = h.fn("effectful.ops.types.NotHandled")
    if v == nh:
        return True
    return isinstance(v, Ref) and isinstance(e.obj(v), Inst) and e.obj(v).cls == nh


def defaults_unary(name, spell):
    def f(h):
        e = h.e
        term = setup(h)
        h.expect_cover("number", "term")
        op, body = default(h, f"__{name}__")
        h.prove("it is an operation of its own", body is not None and str(op) == f"g:op:{NT}__{name}__")
        if body is None:
            return
        extra = [] if name != "round" else [None if e.choose("no digits") else number(h, term, "digits")]
        if e.choose("term"):
            h.cover("term")
            if name == "round" and e.choose("digits"):
                x, extra = number(h, term, "x"), [h.obj("effectful.ops.types.Term", "n")]
            else:
                x = h.obj("effectful.ops.types.Term", "x")
            out = h.call(body, x, *extra)
            h.prove("a term: not handled", out.exc and not_handled(h, out.val))
            h.prove("a term: nothing is computed", len(h.events()) == 0)
            return
        h.cover("number")
        x = number(h, term, "x")
        out = h.call(body, x, *extra)
        evs = h.events()
        h.prove("a number: Python's operator is applied once", len(evs) == 1)
        if len(evs) != 1:
            return
        ev = evs[0]
        if isinstance(ev.f, ExtV):
            a = ev.args.concrete()
            h.prove("a number: it is this operator", ev.f.path == "py:" + name)
            want = [x] + extra
            if extra == [None] and len(a) == 1:
                want = [x]
            h.prove("a number: applied to the operand", len(a) == len(want) and e.decide(h.same(a[0], x)) and (len(want) == 1 or e.decide(h.same(a[1], want[1]))))
        else:  # x.__name__()
            a = ev.args.concrete()
            h.prove("a number: it is this operator", f"method __{name}__" in spell and e.decide(h.same(ev.f, e.V_field(x, f"__{name}__"))) and a == [])
        h.prove("a number: its result, or what it raises, is the result", h.same(out.val, ev.out[1]) if out.ok == (ev.out[0] == "ok") else False)
    return f


def attributes(name, called):
    def f(h):
        e = h.e
        term = setup(h)
        h.expect_cover("number", "term")
        op, body = default(h, name)
        h.prove("it is an operation of its own", body is not None and str(op) == f"g:op:{NT}{name}")
        if body is None:
            return
        if e.choose("term"):
            h.cover("term")
            out = h.call(body, h.obj("effectful.ops.types.Term", "x"))
            h.prove("a term: not handled", out.exc and not_handled(h, out.val) and len(h.events()) == 0)
            return
        h.cover("number")
        x = number(h, term, "x")
        want = e.V_field(x, name)
        out = h.call(body, x)
        evs = h.events()
        if not called:
            h.prove("a number: the attribute is given", out.ok and len(evs) == 0 and h.same(out.val, want))
            return
        h.prove("a number: its method is called once", len(evs) == 1 and h.same(evs[0].f, want))
        if len(evs) == 1:
            h.prove("a number: without arguments", evs[0].args.concrete() == [])
            h.prove("a number: its result, or what it raises, is the result", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)
    return f


def reflected(name):
    def f(h):
        e = h.e
        term = setup(h)
        h.expect_cover("number on the left", "term of the kind on the left", "another term on the left")
        for k, c in enumerate(CLASSES):
            if k == len(CLASSES) - 1 or e.choose("is " + c):
                break
        cls = h.fn(SYN + c)
        self_ = e.alloc(Inst(cls, {"_op": h.op("op"), "_args": TupleV(h.args()), "_kwargs": h.dict("kw")}))
        m = e.class_attr(cls, f"__r{name}__")
        h.prove("every kind of number term has it", isinstance(m, FuncV))
        fwd = h.fn(NT + f"__{name}__")
        kind_ = 2 if e.choose("number") else 1 if e.choose("kin") else 0
        if kind_ == 2:
            h.cover("number on the left")
            other = number(h, term, "other")
        else:
            other = h.val("other")
            h.assume(h.e.isinst(other, term))
            if kind_:
                h.cover("term of the kind on the left")
                e.typed(other, cls)
            else:
                h.cover("another term on the left")
                h.assume(znot(h.e.isinst(other, cls)))
        out = h.call(m, self_, other)
        evs = h.events()
        if kind_ == 0:
            h.prove("another term: not implemented here", out.ok and len(evs) == 0 and out.val is NotImplemented)
            return
        what = "a number" if kind_ == 2 else "a term of the kind"
        h.prove(what + ": one operation is called", len(evs) == 1)
        if len(evs) != 1:
            return
        a = evs[0].args.concrete()
        h.prove(what + ": the operation of this operator", h.same(evs[0].f, fwd))
        h.prove(what + ": with the left operand first", len(a) == 2 and h.same(a[0], other))
        h.prove(what + ": and the right operand second", len(a) == 2 and h.same(a[1], self_))
        h.prove(what + ": its result, or what it raises, is the result", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)
    return f


for _n in list(BIN) + CMP:
    harness("C12", f"operator __{_n}__")(defaults_binary(_n))
for _n in BIN:
    harness("C12", f"operator __r{_n}__")(reflected(_n))
for _n, _s in list(UNARY.items()) + [("round", ())]:
    harness("C12", f"operator __{_n}__")(defaults_unary(_n, _s))
for _n in ("real", "imag", "numerator", "denominator"):
    harness("C12", f"attribute {_n}")(attributes(_n, False))
harness("C12", "method conjugate")(attributes("conjugate", True))


@harness("C12", "conversions")
def conversions(h):
    e = h.e
    cls = h.fn(SYN + "_NumberTerm")
    self_ = e.alloc(Inst(cls, {"_op": h.op("op"), "_args": TupleV(h.args()), "_kwargs": h.dict("kw")}))
    for n in ("complex", "float", "int", "bool"):
        out = h.call(e.class_attr(cls, f"__{n}__"), self_)
        h.prove(f"a term is no {n}: ValueError", out.exc and isinstance(out.val, Ref) and e.obj(out.val).cls == ExtV("builtins.ValueError"))
    h.prove("nothing is computed", len(h.events()) == 0)
