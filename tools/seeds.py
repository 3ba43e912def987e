RT = "effectful/internals/runtime.py"
SEM = "effectful/ops/semantics.py"
SYN = "effectful/ops/syntax.py"
TY = "effectful/ops/types.py"
PN = "effectful/internals/product_n.py"
UN = "effectful/internals/unification.py"

seed("c01-baseexception", "C01", [(RT, """    try:
        old_intp, r.interpretation = r.interpretation, dict(intp)
        yield intp
    finally:
        r.interpretation = old_intp
""", """    old_intp, r.interpretation = r.interpretation, dict(intp)
    try:
        yield intp
    except Exception:
        r.interpretation = old_intp
        raise
    else:
        r.interpretation = old_intp
""")], "a body that leaves the block with a BaseException that is not an Exception (KeyboardInterrupt, GeneratorExit, SystemExit)",
"the handlers of the block stay installed after it was left", """
from effectful.ops.semantics import handler
from effectful.ops.syntax import defop

@defop
def f() -> str:
    return "default"

try:
    with handler({f: lambda: "handled"}):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert f() == "default", f()
""")

seed("c03-same-handler-twice", "C03", [(SEM, """                if i1 is not None
                else _save_args(i2)""", """                if i1 is not None and i1 is not i2
                else _save_args(i2)""")], "composing two interpretations that hold the very same function for an operation, whose body forwards",
"the forward skips the left occurrence of the handler", """
from effectful.ops.semantics import coproduct, fwd, handler
from effectful.ops.syntax import defop

@defop
def f(x: int) -> int:
    return x

def twice(x):
    return 2 * fwd(x)

with handler(coproduct({f: twice}, {f: twice})):
    assert f(3) == 12, f(3)
""")

seed("c05-mappingproxy-keys", "C05", [(SEM, """    return type(expr)(dict(evaluate(tuple(expr.items()))))


@evaluate.register(collections.abc.Mapping)""", """    return type(expr)({k: evaluate(v) for k, v in expr.items()})


@evaluate.register(collections.abc.Mapping)""")], "a read-only mapping with a term as a key", "the key is not evaluated", """
import types
from effectful.ops.semantics import evaluate, handler
from effectful.ops.syntax import defop

x = defop(int, name="x")
d = types.MappingProxyType({x(): 1})
with handler({x: lambda: 7}):
    assert dict(evaluate(d)) == {7: 1}, evaluate(d)
""")

seed("c18-jax-rrshift", "C18", [("effectful/handlers/jax/_terms.py", """    def __rrshift__(self, other: jax.Array) -> jax.Array:
        return jnp.right_shift(other, cast(jax.Array, self))
""", """    def __rrshift__(self, other: jax.Array) -> jax.Array:
        return jnp.right_shift(cast(jax.Array, self), other)
""")], "a concrete integer shifted right by a symbolic array", "the operands are swapped", """
import jax, jax.numpy as jnp
import effectful.handlers.jax
from effectful.ops.semantics import evaluate, handler
from effectful.ops.syntax import defop

x = defop(jax.Array, name="x")
t = 64 >> x()
with handler({x: lambda: jnp.asarray([1, 2, 3])}):
    assert evaluate(t).tolist() == [32, 16, 8], evaluate(t)
""")


seed("c06-kwonly-binder", "C06", [(SYN, "        for bound_vars in (*bindings.args, *bindings.kwargs.values())\n", "        for bound_vars in bindings.args\n")],
"an operation whose binder and its scope are both keyword-only parameters", "the bound variable is not renamed, so it is captured when a value mentioning it is substituted inside", """
from typing import Annotated
from effectful.ops.syntax import Scoped, defop
from effectful.ops.types import NotHandled, Operation

@defop
def lam[S, T, A](*, var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[T, Scoped[A]]) -> T:
    raise NotHandled

x = defop(int, name="x")
t = lam(var=x, body=x() + 1)
assert t.kwargs["var"] is not x
assert t.kwargs["var"] is t.kwargs["body"].args[0].op
""")

seed("c07-varkw-scope", "C07", [(TY, "                            for k in bound_sig.arguments[name]:\n", "                            for k in list(bound_sig.arguments[name])[:1]:\n")],
"a binder scoped over keyword arguments collected by **kwargs, two or more of them", "a variable bound in the second keyword argument is reported free", """
from typing import Annotated
from effectful.ops.semantics import fvsof
from effectful.ops.syntax import Scoped, defop
from effectful.ops.types import NotHandled, Operation

@defop
def lam[S, T, A](var: Annotated[Operation[[], S], Scoped[A]], /, **bodies: Annotated[T, Scoped[A]]) -> int:
    raise NotHandled

x = defop(int, name="x")
t = lam(x, a=x() + 1, b=x() + 2)
assert x not in fvsof(t), fvsof(t)
assert t.args[0] not in fvsof(t), fvsof(t)
""")

seed("c08-dataclass-subclass", "C08", [(SYN, "        return type(x) == type(other) and syntactic_eq(\n", "        return isinstance(other, type(x)) and syntactic_eq(\n")],
"an instance of a dataclass compared with an instance of a subclass that adds no field", "they compare equal (in one direction only)", """
import dataclasses
from effectful.ops.syntax import defop, syntactic_eq

@dataclasses.dataclass
class A:
    a: object

@dataclasses.dataclass
class B(A):
    pass

x = defop(int, name="x")
assert not syntactic_eq(A(x()), B(x()))
assert not syntactic_eq(B(x()), A(x()))
""")

seed("c10-none-argument", "C10", [(SYN, "                **{v: functools.partial(lambda x: x, a) for v, a in zip(argvars, args)},\n", "                **{v: functools.partial(lambda x: x, a) for v, a in zip(argvars, args) if a is not None},\n")],
"a function term called with None as a positional argument", "the parameter is left unbound", """
from effectful.ops.syntax import deffn, defop

x = defop(object, name="x")
assert deffn(x(), x)(None) is None
""")

seed("c12-rlshift", "C12", [(SYN, "            return type(self).__lshift__(other, self)\n", "            return type(self).__lshift__(self, other)\n")],
"a concrete integer shifted left by a symbolic one", "the operands are swapped", """
from effectful.ops.semantics import evaluate, handler
from effectful.ops.syntax import defop

x = defop(int, name="x")
t = 5 << x()
with handler({x: lambda: 2}):
    assert evaluate(t) == 20, evaluate(t)
""")

seed("c13-none-recomputed", "C13", [(PN, "        if not self.initialized:\n", "        if self.value is None:\n")],
"a component whose value for an application is None, asked for more than once", "the component's computation runs once per request", """
from effectful.internals.product_n import argsof, productN
from effectful.ops.semantics import handler, evaluate
from effectful.internals.runtime import interpreter
from effectful.ops.syntax import defop

a, b = defop(object, name="a"), defop(object, name="b")

@defop
def f() -> object:
    return "default"

n = []
intp = productN({a: {f: lambda: n.append(1)}, b: {f: lambda: (a(), a())}})
with interpreter(intp):
    r = f()
r.values(b)
assert len(n) == 1, n
""")

seed("c14-overwrites-binding", "C14", [(UN, "        return subs if typ == subtyp else {typ: subtyp, **subs}\n", "        return subs if typ == subtyp else {**subs, typ: subtyp}\n")],
"unifying a type variable that the starting substitution already binds with another type variable", "the given binding is overwritten", """
import typing
from effectful.internals.unification import unify

T, S = typing.TypeVar("T"), typing.TypeVar("S")
assert unify(T, S, {T: int})[T] is int
""")

seed("c05-kwargs-first", "C05", [(SEM, """    args = tuple(evaluate(arg) for arg in expr.args)
    kwargs = {k: evaluate(v) for k, v in expr.kwargs.items()}
    return expr.op(*args, **kwargs)""", """    kwargs = {k: evaluate(v) for k, v in expr.kwargs.items()}
    args = tuple(evaluate(arg) for arg in expr.args)
    return expr.op(*args, **kwargs)""")], "a term with positional and keyword arguments whose evaluation has effects", "keyword arguments are evaluated before positional ones", """
from effectful.internals.runtime import interpreter
from effectful.ops.semantics import apply, evaluate, handler
from effectful.ops.syntax import defdata, defop
from effectful.ops.types import NotHandled

@defop
def f(x: int, *, y: int) -> int:
    raise NotHandled

a, b = defop(int, name="a"), defop(int, name="b")
t = f(a(), y=b())
log = []
with handler({a: lambda: log.append("a") or 1, b: lambda: log.append("b") or 2}):
    evaluate(t)
assert log == ["a", "b"], log
""")

seed("c28-dict-key", "C28", [(TY, """                        f"{term_str(k)}:{term_str(v)}" for (k, v) in term.items()""", """                        f"{k}:{term_str(v)}" for (k, v) in term.items()""")],
"a term with a dictionary whose keys are operations that share a name with another operation of the term", "two different operations print with the same name", """
from effectful.ops.syntax import defop
from effectful.ops.types import NotHandled

@defop
def f(*args) -> int:
    raise NotHandled

x1, x2 = defop(int, name="x"), defop(int, name="x")
s = str(f(x1, {x2: 1}))
assert s == "f(x, {x!1:1})", s
""")

seed("c02-notimplemented", "C02", [(TY, """            return self.__default__(*args, **kwargs)
        except NotHandled:""", """            return self.__default__(*args, **kwargs)
        except (NotHandled, NotImplementedError):""")], "a default that raises NotImplementedError", "the exception is swallowed and a term returned", """
from effectful.ops.syntax import defop

@defop
def f() -> int:
    raise NotImplementedError

try:
    r = f()
except NotImplementedError:
    pass
else:
    raise AssertionError(r)
""")

seed("c01-no-copy", "C01", [(RT, "r.interpretation = r.interpretation, dict(intp)\n", "r.interpretation = (\n            r.interpretation,\n            intp if type(intp) is dict else dict(intp),\n        )\n")],
"the caller changes the mapping it installed while the block runs", "the change takes effect in the running block", """
from effectful.internals.runtime import interpreter
from effectful.ops.syntax import defop

@defop
def f() -> str:
    return "default"

m = {f: lambda: "installed"}
with interpreter(m):
    m[f] = lambda: "changed"
    assert f() == "installed", f()
""")

seed("c29-shared-base", "C29", [(RT, """        old_intp, r.interpretation = r.interpretation, dict(intp)
        yield intp
    finally:
        r.interpretation = old_intp
""", """        old_intp = dict(r.interpretation)
        if old_intp:
            r.interpretation = dict(intp)
        else:
            r.interpretation.update(intp)
        yield intp
    finally:
        if old_intp:
            r.interpretation = old_intp
        else:
            r.interpretation.clear()
""")], "two threads, one calling an operation while the other has its outermost handler block open", "the handlers of one thread's outermost block are visible in the other thread", """
import threading
from effectful.ops.semantics import handler
from effectful.ops.syntax import defop

@defop
def f() -> str:
    return "default"

inside, done = threading.Event(), threading.Event()
seen = []

def other():
    inside.wait(20)
    seen.append(f())
    done.set()

t = threading.Thread(target=other)
t.start()
with handler({f: lambda: "handled"}):
    inside.set()
    done.wait(20)
t.join(20)
assert seen == ["default"], seen
""")
