From cb6bd1d73d7a60b4525891c8ac4e0f7a5958441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 01/46] fix: a bare fwd() forwards the arguments of the handler
 that called it

Operation.__call__ bound fwd for the running handler but left the saved
arguments of an enclosing handler in place, so a handler without parameters
(or one installed with interpreter) forwarded some other call's arguments.
---
 effectful/ops/types.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 65e31de..864b68a 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -505,7 +505,11 @@ class Operation[**Q, V]:
             return self
 
     def __call__(self, *args: Q.args, **kwargs: Q.kwargs) -> V:
-        from effectful.internals.runtime import _restore_args, get_interpretation
+        from effectful.internals.runtime import (
+            _get_args,
+            _restore_args,
+            get_interpretation,
+        )
         from effectful.ops.semantics import fwd, handler
 
         intp = get_interpretation()
@@ -513,11 +517,12 @@ class Operation[**Q, V]:
         self_handler = intp.get(self)
         if self_handler is not None:
             # ensure that fwd is bound to the default rule. if this handler has
-            # a bound fwd, it will override this binding
-            fwd_intp = typing.cast(
-                Interpretation, {fwd: _restore_args(self.__default_rule__)}
-            )
-            with handler(fwd_intp):
+            # a bound fwd, it will override this binding.
+            fwd_intp = {fwd: _restore_args(self.__default_rule__)}
+            if self is not fwd or args or kwargs:
+                # the arguments of this call are the ones a bare fwd() forwards
+                fwd_intp[_get_args] = lambda: (args, kwargs)
+            with handler(typing.cast(Interpretation, fwd_intp)):
                 return self_handler(*args, **kwargs)
         elif args and isinstance(args[0], Operation) and self is args[0].__apply__:
             # Prevent infinite recursion when calling self.apply directly
-- 
2.43.0


From e1ccf115f296b268a0b2589a93399ee3c12bfb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 02/46] fix: number term comparisons fall back to the reflected
 operation

Calling int.__lt__ and friends directly returned NotImplemented for mixed
number types, e.g. x() < 2.5 with x bound to 1.
---
 effectful/ops/syntax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6349e10..69e89a6 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1125,35 +1125,35 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __eq__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__eq__(other)
+            return operator.__eq__(self, other)
         else:
             return syntactic_eq(self, other)
 
     @defop
     def __lt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__lt__(other)
+            return operator.__lt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __gt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__gt__(other)
+            return operator.__gt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __le__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__le__(other)
+            return operator.__le__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __ge__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__ge__(other)
+            return operator.__ge__(self, other)
         else:
             raise NotHandled
 
-- 
2.43.0


From 5f8adea4f884e00a06a2480751e1d0b0eeb36d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 03/46] fix: syntactic_eq is symmetric on strings and never
 calls __eq__ of a term

A list of one-character strings compared equal to the string but not the
other way round, and comparing a plain value with a number term invoked the
__eq__ operation, which may be handled.
---
 effectful/ops/syntax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 69e89a6..3f86fbb 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -879,6 +879,7 @@ def _(x: collections.abc.Sequence, other) -> bool:
     else:
         return (
             isinstance(other, collections.abc.Sequence)
+            and not isinstance(other, str | bytes)
             and len(x) == len(other)
             and all(syntactic_eq(a, b) for a, b in zip(x, other))
         )
@@ -887,7 +888,8 @@ def _(x: collections.abc.Sequence, other) -> bool:
 @syntactic_eq.register(object)
 @syntactic_eq.register(str | bytes)
 def _(x: object, other) -> bool:
-    return x == other
+    # comparing with a term would invoke the term's __eq__ operation
+    return not isinstance(other, Term) and x == other
 
 
 class ObjectInterpretation[T, V](collections.abc.Mapping):
-- 
2.43.0


From ca858087d560b60c83e2147388783aec3abc2cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 04/46] fix: applying a function term renames its bound
 variables apart from its arguments

---
 effectful/ops/syntax.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 3f86fbb..a641596 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -668,9 +668,16 @@ class _CallableTerm[**P, T](_BaseTerm[collections.abc.Callable[P, T]]):
     def __call__(
         self: collections.abc.Callable[P, T], *args: P.args, **kwargs: P.kwargs
     ) -> T:
-        from effectful.ops.semantics import evaluate, fvsof, handler
+        from effectful.internals.runtime import interpreter
+        from effectful.ops.semantics import apply, evaluate, fvsof, handler
 
         if isinstance(self, Term) and self.op is deffn:
+            # The arguments may mention variables bound inside the body (when the
+            # function is applied within a copy of itself), so use a copy whose
+            # bound variables are fresh.
+            with interpreter({apply: defdata}):
+                self = evaluate(self)
+
             body: Expr[Callable[P, T]] = self.args[0]
             argvars: tuple[Operation, ...] = self.args[1:]
             kwvars: dict[str, Operation] = self.kwargs
-- 
2.43.0


From 39d50cd3cb62bf3c81435ad18485049c01659d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 05/46] fix: named tuple classes have a canonical type

---
 effectful/internals/unification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 0ebd029..6c1a262 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -706,6 +706,8 @@ def _(typ: type | abc.ABCMeta):
         return typ
     elif types.get_original_bases(typ):
         for base in types.get_original_bases(typ):
+            if base is typing.NamedTuple:
+                base = tuple
             if typing.get_origin(base) is not typing.Generic:
                 cbase = canonicalize(base)
                 if cbase != object:
-- 
2.43.0


From f52d69b299ac03f4592d346f536484d8b1e5e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 06/46] fix: a variable bound in one subterm can be free in
 another

---
 effectful/ops/semantics.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index de041b6..d668a6b 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -297,18 +297,36 @@ def fvsof[S](term: Expr[S]) -> collections.abc.Set[Operation]:
     """
     from effectful.internals.runtime import interpreter
 
-    _fvs: set[Operation] = set()
+    # Stands for a subterm in the arguments of its parent.
+    @Operation.define
+    def free(variables: frozenset[Operation]) -> int:
+        raise NotHandled
 
-    def _update_fvs(op, *args, **kwargs):
-        _fvs.add(op)
+    def _collect(expr) -> set[Operation]:
+        found: set[Operation] = set()
+
+        def _add(variables):
+            found.update(variables)
+            return defdata(free, variables)
+
+        with interpreter({apply: defdata, free: _add}):
+            evaluate(expr)
+        return found
+
+    def _fvs(op, *args, **kwargs):
         bindings = op.__fvs_rule__(*args, **kwargs)
-        for bound_var in set().union(*(*bindings.args, *bindings.kwargs.values())):
-            assert isinstance(bound_var, Operation)
-            if bound_var in _fvs:
-                _fvs.remove(bound_var)
-        return defdata(op, *args, **kwargs)
+        bound_args = op.__signature__.bind(*args, **kwargs)
+        bound_args.apply_defaults()
+
+        # A variable is bound only in the arguments that are in its scope.
+        variables = {op}
+        for i, arg in enumerate(bound_args.args):
+            variables |= _collect(arg) - bindings.args[i]
+        for k, v in bound_args.kwargs.items():
+            variables |= _collect(v) - bindings.kwargs[k]
+        return defdata(free, frozenset(variables))
 
-    with interpreter({apply: _update_fvs}):
-        evaluate(term)
+    with interpreter({apply: _fvs}):
+        subterms = evaluate(term)
 
-    return _fvs
+    return _collect(subterms)
-- 
2.43.0


From 483efffd7b392b789610836d33a5d7ea35aa8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 07/46] fix: ranges and counters can be evaluated and used as
 arguments

---
 effectful/internals/product_n.py | 4 ++--
 effectful/ops/semantics.py       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 4b8bd2a..73e3ce7 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -67,9 +67,9 @@ def map_structure(func, expr):
         elif isinstance(expr, types.MappingProxyType):
             return type(expr)(dict(map_structure(func, tuple(expr.items()))))
         else:
-            return type(expr)(map_structure(func, tuple(expr.items())))
+            return type(expr)(dict(map_structure(func, tuple(expr.items()))))
     elif isinstance(expr, collections.abc.Sequence):
-        if isinstance(expr, str | bytes):
+        if isinstance(expr, str | bytes | range):
             return expr
         elif (
             isinstance(expr, tuple)
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index d668a6b..0014a31 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -151,6 +151,7 @@ def evaluate[T](
 @evaluate.register(object)
 @evaluate.register(str)
 @evaluate.register(bytes)
+@evaluate.register(range)
 def _evaluate_object[T](expr: T, **kwargs) -> T:
     if dataclasses.is_dataclass(expr) and not isinstance(expr, type):
         return typing.cast(
@@ -193,7 +194,7 @@ def _evaluate_mappingproxytype(expr, **kwargs):
 
 @evaluate.register(collections.abc.Mapping)
 def _evaluate_mapping(expr, **kwargs):
-    return type(expr)(evaluate(tuple(expr.items())))
+    return type(expr)(dict(evaluate(tuple(expr.items()))))
 
 
 @evaluate.register(tuple)
-- 
2.43.0


From b0bd52a3e93e76f86db196f33d44d2a311adc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 08/46] fix: operations of classes with one name, and copies of
 methods, are kept apart

---
 effectful/ops/types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 864b68a..9e357c8 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -49,7 +49,7 @@ class _ClassMethodOpDescriptor(classmethod):
 
     def __set_name__(self, owner, name):
         assert not hasattr(self, "_name_on_owner"), "should only be called once"
-        self._name_on_owner = f"_descriptorop_{name}"
+        self._name_on_owner = f"_descriptorop_{owner.__name__}_{name}_{id(self)}"
 
     def __get__(self, instance, owner: type | None = None):
         owner = owner if owner is not None else type(instance)
@@ -82,8 +82,9 @@ class Operation[**Q, V]:
         functools.update_wrapper(self, default)
         # update_wrapper copies the wrapped callable's __dict__. Do not retain a
         # signature cached by another Operation, since `default` may now be a
-        # bound version of that operation.
+        # bound version of that operation, or the class attribute it was.
         self.__dict__.pop("_signature", None)
+        self.__dict__.pop("_name_on_instance", None)
         self.__default__ = default
         self.__name__ = name or default.__name__
 
@@ -460,7 +461,7 @@ class Operation[**Q, V]:
         if not issubclass(owner, Term):
             assert not hasattr(self, "_name_on_instance"), "should only be called once"
             self._name_on_instance: str = (
-                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}"
+                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}_{id(self)}"
             )
 
     def __get__[T](self, instance: T | None, owner: type[T] | None = None):
-- 
2.43.0


From 12134e7cf28b1fea19343c34a2ecb4d3c3defff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 09/46] fix: operations over unhashable callables and union
 types can be defined and used

---
 effectful/ops/types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 9e357c8..dde815e 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -134,7 +134,10 @@ class Operation[**Q, V]:
         return id(self) >= id(other)
 
     def __hash__(self):
-        return hash(self.__default__)
+        try:
+            return hash(self.__default__)
+        except TypeError:  # an unhashable callable
+            return id(self)
 
     @functools.singledispatchmethod
     @classmethod
@@ -301,7 +304,7 @@ class Operation[**Q, V]:
             raise NotHandled
 
         func.__signature__ = inspect.Signature(return_annotation=t)  # type: ignore[attr-defined]
-        func.__name__ = t.__name__
+        func.__name__ = getattr(t, "__name__", str(t))
         return typing.cast(Operation[[], T], cls.define(func, **kwargs))
 
     @define.register(types.BuiltinFunctionType)
-- 
2.43.0


From 67ebc23aa2eb3cc0210f79528eae6a7510b2fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 10/46] fix: functions with positional-only parameters, or one
 named body, become terms

---
 effectful/ops/syntax.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index a641596..f4075aa 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -388,6 +388,7 @@ defop = Operation.define
 @Operation.define
 def deffn[T, A, B](
     body: Annotated[T, Scoped[A | B]],
+    /,
     *args: Annotated[Operation, Scoped[A]],
     **kwargs: Annotated[Operation, Scoped[A]],
 ) -> Annotated[Callable[..., T], Scoped[B]]:
@@ -734,10 +735,12 @@ def trace[**P, T](value: Callable[P, T]) -> Callable[P, T]:
         ):
             raise ValueError(f"cannot unembed {value}: parameter {name} is variadic")
 
-    bound_sig = sig.bind(
-        **{name: defop(param.annotation) for name, param in sig.parameters.items()}
+    bound_sig = inspect.BoundArguments(
+        sig,
+        collections.OrderedDict(
+            (name, defop(param.annotation)) for name, param in sig.parameters.items()
+        ),
     )
-    bound_sig.apply_defaults()
 
     with interpreter({apply: defdata, call: call.__default_rule__}):
         body = value(
-- 
2.43.0


From a9016e1f13caf9f73cee70e6635d1474a5c8a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 11/46] fix: handler classes resolve implementations along the
 MRO and leak none from failed definitions

---
 effectful/ops/syntax.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index f4075aa..0dccd91 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -949,25 +949,18 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
 
     """
 
-    # This is a weird hack to get around the fact that
-    # the default meta-class runs __set_name__ before __init__subclass__.
-    # We basically store the implementations here temporarily
-    # until __init__subclass__ is called.
-    # This dict is shared by all `Implementation`s,
-    # so we need to clear it when we're done.
-    _temporary_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
     implementations: dict[Operation[..., T], Callable[..., V]] = dict()
 
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = ObjectInterpretation._temporary_implementations.copy()
+        cls.implementations = {}
 
-        for sup in cls.mro():
-            if issubclass(sup, ObjectInterpretation):
-                cls.implementations = {**sup.implementations, **cls.implementations}
-
-        ObjectInterpretation._temporary_implementations.clear()
+        # The implementations each class declares itself are recorded by
+        # `_ImplementedOperation.__set_name__`, which runs before
+        # `__init_subclass__`.
+        for sup in reversed(cls.mro()):
+            cls.implementations.update(sup.__dict__.get("_own_implementations", {}))
 
     def __iter__(self):
         return iter(self.implementations)
@@ -1001,7 +994,9 @@ class _ImplementedOperation[**P, **Q, T, V]:
     def __set_name__(self, owner: ObjectInterpretation[T, V], name):
         assert self.impl is not None
         assert self.op is not None
-        owner._temporary_implementations[self.op] = self.impl
+        if "_own_implementations" not in owner.__dict__:
+            owner._own_implementations = {}  # type: ignore[attr-defined]
+        owner._own_implementations[self.op] = self.impl  # type: ignore[attr-defined]
 
 
 def implements[**P, V](op: Operation[P, V]):
-- 
2.43.0


From 2f2c6f5aef24ee16aa6971964e5d685bba1aaf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 12/46] fix: rounding and inverting a number term does what
 Python does on its value

---
 effectful/ops/syntax.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 0dccd91..2857256 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -2,6 +2,7 @@ import collections.abc
 import dataclasses
 import functools
 import inspect
+import math
 import numbers
 import operator
 import typing
@@ -1090,35 +1091,35 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __trunc__(self) -> int:
         if not isinstance(self, Term):
-            return self.__trunc__()
+            return math.trunc(self)
         else:
             raise NotHandled
 
     @defop
     def __floor__(self) -> int:
         if not isinstance(self, Term):
-            return self.__floor__()
+            return math.floor(self)
         else:
             raise NotHandled
 
     @defop
     def __ceil__(self) -> int:
         if not isinstance(self, Term):
-            return self.__ceil__()
+            return math.ceil(self)
         else:
             raise NotHandled
 
     @defop
     def __round__(self, ndigits: int | None = None) -> numbers.Real:
         if not isinstance(self, Term) and not isinstance(ndigits, Term):
-            return self.__round__(ndigits)
+            return round(self, ndigits)
         else:
             raise NotHandled
 
     @defop
     def __invert__(self) -> int:
         if not isinstance(self, Term):
-            return self.__invert__()
+            return operator.__invert__(self)
         else:
             raise NotHandled
 
-- 
2.43.0


From 745595ca8a86f3b35c99460d12c83c26cffb9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 13/46] fix: the real, imag, numerator and denominator of a
 number term are symbolic

---
 effectful/ops/syntax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 2857256..4baf7ee 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1032,6 +1032,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
         raise ValueError("Cannot convert term to bool")
 
     @property
+    @defop
     def real(self) -> float:
         if not isinstance(self, Term):
             return self.real
@@ -1039,6 +1040,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def imag(self) -> float:
         if not isinstance(self, Term):
             return self.imag
@@ -1053,6 +1055,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def numerator(self) -> int:
         if not isinstance(self, Term):
             return self.numerator
@@ -1060,6 +1063,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def denominator(self) -> int:
         if not isinstance(self, Term):
             return self.denominator
-- 
2.43.0


From 180073e9034d88935e684a3253495f329aa388d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 14/46] fix: a product component that forwards or calls an
 operation it does not handle reaches its default behaviour

---
 effectful/internals/product_n.py | 80 +++++++++++++-------------------
 1 file changed, 32 insertions(+), 48 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 73e3ce7..b5ccee3 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -124,11 +124,24 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
     }
 
     # For every prompt, build an isolated interpretation that binds all operations.
+    # The fresh operations have no default behavior of their own, so an operation
+    # that the prompt's interpretation does not handle, or a handler that forwards,
+    # must be given what it would reach under that interpretation alone.
     isolated_intps = {
-        prompt: {
-            renaming[(prompt, op)]: handler(translation_intps[prompt])(func)
-            for op, func in intp.items()
-        }
+        prompt: coproduct(
+            {
+                renaming[(prompt, op)]: (
+                    handler(translation_intps[prompt])(op.__default_rule__)
+                    if op in intp or apply not in intp
+                    else functools.partial(renaming[(prompt, apply)], op)
+                )
+                for op in result_ops
+            },
+            {
+                renaming[(prompt, op)]: handler(translation_intps[prompt])(func)
+                for op, func in intp.items()
+            },
+        )
         for prompt, intp in intps.items()
     }
 
@@ -143,18 +156,10 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
 
         result_intp = {}
 
-        def argsof_direct_call(prompt):
+        def argsof_prompt(prompt):
             return result_intp[prompt].args, result_intp[prompt].kwargs
 
-        def argsof_apply(prompt):
-            return result_intp[prompt].args[2:], result_intp[prompt].kwargs
-
-        # Every prompt gets an argsof implementation. The implementation is
-        # either for a direct call to a handler or for a call to an apply
-        # handler.
-        argsof_prompts = {}
-
-        for prompt, intp in intps.items():
+        for prompt in intps:
             # Args and kwargs are expected to be either interpretations with
             # bindings for each named analysis in intps or concrete values.
             # `get_for_intp` extracts the value that corresponds to this
@@ -171,41 +176,20 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             # so that when the result is requested in `get_for_intp`, it
             # evaluates in a context that binds the results of the other
             # named interpretations.
-            isolated_intp = isolated_intps[prompt]
-            renamed_op = renaming[(prompt, op)]
-            if op in intp:
-                result = CallByNeed(
-                    handler(isolated_intp)(renamed_op), *intp_args, **intp_kwargs
-                )
-                argsof_impl = argsof_direct_call
-            elif apply in intp:
-                result = CallByNeed(
-                    handler(isolated_intp)(renaming[(prompt, apply)]),
-                    renamed_op,
-                    *intp_args,
-                    **intp_kwargs,
-                )
-                argsof_impl = argsof_apply
-            else:
-                # TODO: If an intp does not handle an operation and has no apply
-                # handler, use the default rule. In the future, we would like to
-                # instead defer to the enclosing interpretation. This is
-                # difficult right now, because the output interpretation handles
-                # all operations with product handlers which would have to be
-                # skipped over.
-                result = CallByNeed(
-                    handler(coproduct(isolated_intp, translation_intps[prompt]))(
-                        op.__default_rule__
-                    ),
-                    *intp_args,
-                    **intp_kwargs,
-                )
-                argsof_impl = argsof_direct_call
-
-            result_intp[prompt] = result
-            argsof_prompts[prompt] = argsof_impl
+            #
+            # TODO: If an intp does not handle an operation and has no apply
+            # handler, this uses the default rule. In the future, we would like
+            # to instead defer to the enclosing interpretation. This is
+            # difficult right now, because the output interpretation handles
+            # all operations with product handlers which would have to be
+            # skipped over.
+            result_intp[prompt] = CallByNeed(
+                handler(isolated_intps[prompt])(renaming[(prompt, op)]),
+                *intp_args,
+                **intp_kwargs,
+            )
 
-        result_intp[argsof] = lambda prompt: argsof_prompts[prompt](prompt)
+        result_intp[argsof] = argsof_prompt
         return _pack(result_intp)
 
     product_intp: Interpretation = {
-- 
2.43.0


From abdac1e33aa4448bd488d6eaea28d54ea884d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 15/46] fix: a mapping with a term as a key can be an argument
 (types boxed during type inference are hashable)

---
 effectful/internals/unification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 6c1a262..2fbb654 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -94,7 +94,7 @@ TypeExpressions = TypeExpression | collections.abc.Sequence[TypeExpression]
 Substitutions = collections.abc.Mapping[TypeVariable, TypeExpressions]
 
 
-@dataclass
+@dataclass(frozen=True)
 class Box[T]:
     """Boxed types. Prevents confusion between types computed by __type_rule__
     and values.
-- 
2.43.0


From 03722c5db0f013690d4b57b764a5f779118d591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 16/46] fix: printing gives distinct operations distinct names
 even when one is named like a numbered other

---
 effectful/ops/types.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index dde815e..974fbd5 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -632,20 +632,19 @@ class Term[T](abc.ABC):
         from effectful.internals.runtime import interpreter
         from effectful.ops.semantics import apply, evaluate
 
-        fresh: dict[str, dict[Operation, int]] = collections.defaultdict(dict)
+        names: dict[Operation, str] = {}
+        taken: set[str] = set()
 
         def op_str(op):
             """Return a unique (in this term) name for the operation."""
-            name = op.__name__
-            if name not in fresh:
-                fresh[name] = {op: 0}
-            if op not in fresh[name]:
-                fresh[name][op] = len(fresh[name])
-
-            n = fresh[name][op]
-            if n == 0:
-                return name
-            return f"{name}!{n}"
+            if op not in names:
+                name, n = op.__name__, 0
+                while name in taken:
+                    n += 1
+                    name = f"{op.__name__}!{n}"
+                names[op] = name
+                taken.add(name)
+            return names[op]
 
         def term_str(term):
             if isinstance(term, Operation):
-- 
2.43.0


From 491a78f6ef30bf1adc1b87ab2c6c598e9e3cb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 17/46] fix: a term of a dataclass type has that type's own
 fields, not those of a base class seen earlier

---
 effectful/ops/syntax.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 4baf7ee..f551e27 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -565,7 +565,13 @@ def _construct_dataclass_term[T](
     bases = (Term, cls)
     term_cls = _DataclassTermMeta(term_name, bases, {})
 
-    defdata.register(cls)(term_cls)
+    @defdata.register(cls)
+    def _dispatch_defdata_dataclass(ty: type, op: Operation, *args, **kwargs):
+        # dispatch also reaches this for subclasses, which have their own fields
+        if ty is cls:
+            return term_cls(ty, op, *args, **kwargs)
+        return _construct_dataclass_term(ty, op, *args, **kwargs)
+
     return term_cls(cls, op, *args, **kwargs)
 
 
-- 
2.43.0


From bff3a3af82ae867ad0f86e45f36b0a133c4633b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 18/46] fix: the type of a named tuple value keeps one element
 type per element

---
 effectful/internals/unification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 2fbb654..fb74d9a 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -1103,7 +1103,7 @@ def _(value: collections.abc.Collection):
 
 @nested_type.register
 def _(value: tuple):
-    if type(value) != tuple or len(value) == 0:
+    if len(value) == 0 or canonicalize(type(value)) is not tuple:
         return nested_type.dispatch(collections.abc.Sequence)(value)
     else:
         return Box(tuple[tuple(nested_type(item).value for item in value)])  # type: ignore
-- 
2.43.0


From 45e8a6563baf05b16f47b6c84d169f8a6901c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 19/46] fix: % on a symbolic tensor is Python's modulo, as it
 is on tensors

---
 effectful/handlers/torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index c9b8f64..8faf232 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -433,10 +433,10 @@ class _TensorTerm(Term[torch.Tensor]):
         return torch.floor_divide(other, typing.cast(torch.Tensor, self))
 
     def __mod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(typing.cast(torch.Tensor, self), other)
+        return torch.remainder(typing.cast(torch.Tensor, self), other)
 
     def __rmod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(other, typing.cast(torch.Tensor, self))
+        return torch.remainder(other, typing.cast(torch.Tensor, self))
 
     def __lt__(self, other: torch.Tensor) -> torch.Tensor:
         return torch.lt(typing.cast(torch.Tensor, self), other)
-- 
2.43.0


From a362b9685d51394b1bb4e6d2a18b3255bcf57619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 20/46] fix: transpose of a symbolic jax array takes its axes
 like transpose of an array

---
 effectful/handlers/jax/_terms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/jax/_terms.py b/effectful/handlers/jax/_terms.py
index 8120629..c55a868 100644
--- a/effectful/handlers/jax/_terms.py
+++ b/effectful/handlers/jax/_terms.py
@@ -396,7 +396,11 @@ class _ArrayTerm(Term[jax.Array]):
             cast(jax.Array, self), offset=offset, axis1=axis1, axis2=axis2, dtype=dtype
         )
 
-    def transpose(self, axes=None):
+    def transpose(self, *args, axes=None):
+        if len(args) == 1 and (args[0] is None or isinstance(args[0], tuple | list)):
+            axes = args[0]
+        elif args:
+            axes = args
         return jnp.transpose(cast(jax.Array, self), axes=axes)
 
     def var(self, axis=None, keepdims=False, ddof=0, *, where=None):
-- 
2.43.0


From bb6aa693b336668418fd7ee7bd628b28a8ee139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 21/46] fix: indexing a tensor with integers, slices and index
 tensors mixed gives what tensor[key] gives

---
 effectful/handlers/torch.py | 54 ++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 8faf232..38d6487 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -291,31 +291,41 @@ def torch_getitem(x: torch.Tensor, key: tuple[IndexElement, ...]) -> torch.Tenso
     elif all(isinstance(k, torch.Tensor) for k in key):
         return torch.ops.aten.index(x, key)
 
+    # a mask stands for the indices it selects, one for each of its dimensions
+    key = tuple(
+        i
+        for k in key
+        for i in (
+            k.nonzero(as_tuple=True)
+            if isinstance(k, torch.Tensor) and k.dtype is torch.bool and k.ndim > 1
+            else (k,)
+        )
+    )
+
     # handle None, Ellipsis, and missing dimensions
     x, key = _getitem_ellipsis_and_none(x, key)
 
-    # Convert non-tensor args to tensors
-    key_l = list(key)
-    for i, arg in list(enumerate(key)):
-        if isinstance(arg, slice):
-            if arg == slice(None):
-                key_l[i] = None
-            else:
-                # Convert slices to torch.arange()s.
-                start = arg.start if arg.start is not None else 0
-                stop = arg.stop if arg.stop is not None else x.shape[i]
-                step = arg.step if arg.step is not None else 1
-                flat_arg = torch.arange(
-                    start, stop, step, dtype=torch.long, device=x.device
-                )
-                key_l[i] = flat_arg.reshape((-1,) + (1,) * i)
-        elif isinstance(arg, int):
-            key_l[i] = torch.tensor(arg, dtype=torch.long, device=x.device)
-        elif isinstance(arg, list | tuple):
-            flat_arg = torch.tensor(arg, dtype=torch.long, device=x.device)
-            key_l[i] = flat_arg.reshape(flat_arg.shape + (1,) * i)
-
-    return torch.ops.aten.index(x, tuple(key_l))
+    # Integers and slices are applied first, as they are when indexing a tensor.
+    x = x[tuple(k if isinstance(k, int | slice) else slice(None) for k in key)]
+    indices = [
+        None
+        if isinstance(k, slice)
+        else k
+        if isinstance(k, torch.Tensor)
+        else torch.tensor(k, dtype=torch.long, device=x.device)
+        for k in key
+        if not isinstance(k, int)
+    ]
+
+    # Tensors without dimensions select, as integers do.
+    for i, k in reversed(list(enumerate(indices))):
+        if k is not None and k.ndim == 0:
+            x = torch.ops.aten.index(x, [None] * i + [k])
+            del indices[i]
+
+    if all(k is None for k in indices):
+        return x
+    return torch.ops.aten.index(x, indices)
 
 
 @defdata.register(torch.Tensor)
-- 
2.43.0


From 3dcf8a7cb7ce6fa15da69fadf8de0dd309717a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 22/46] fix: sizes of named dimensions behind new axes or
 ellipsis in a jax index

---
 effectful/handlers/jax/_handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 308cdb7..224573f 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -11,6 +11,7 @@ except ImportError:
     raise ImportError("JAX is required to use effectful.handlers.jax")
 
 from effectful.internals.runtime import interpreter
+from effectful.internals.tensor_utils import _desugar_tensor_index
 from effectful.ops.semantics import apply, evaluate, fvsof, typeof
 from effectful.ops.syntax import (
     Scoped,
@@ -65,9 +66,10 @@ def sizesof(value) -> Mapping[Operation[[], jax.Array], int]:
 
     def _getitem_sizeof(x: jax.Array, key: tuple[Expr[IndexElement], ...]):
         if is_eager_array(x):
-            for i, k in enumerate(key):
+            shape, key_ = _desugar_tensor_index(x.shape, key)
+            for i, k in enumerate(key_):
                 if isinstance(k, Term) and len(k.args) == 0 and len(k.kwargs) == 0:
-                    update_sizes(sizes, k.op, x.shape[i])
+                    update_sizes(sizes, k.op, shape[i])
         return defdata(jax_getitem, x, key)
 
     def _apply(op, *args, **kwargs):
-- 
2.43.0


From 03b395a86a995f94e4269bf9416994d3571ea133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 23/46] fix: bind_dims of a tensor indexed twice by one name

---
 effectful/handlers/torch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 38d6487..be3478b 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -180,6 +180,11 @@ def _bind_dims_tensor(
     ):
         raise NotHandled
 
+    # a name at several positions selects the diagonal over them
+    dim_names = [a.op for a in value.args[1] if isinstance(a, Term)]
+    if len(set(dim_names)) < len(dim_names):
+        value = _partial_eval(value)
+
     tensor = value.args[0]
     dims = value.args[1]
     assert isinstance(dims, Sequence)
-- 
2.43.0


From de71b3eebcbb69dd33276df3da63132c2e4d403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 24/46] fix: gather keeps positions in increasing order; union
 of no index sets; a dimension may be named self

---
 effectful/handlers/indexed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/indexed.py b/effectful/handlers/indexed.py
index 2e97b8b..1e9547d 100644
--- a/effectful/handlers/indexed.py
+++ b/effectful/handlers/indexed.py
@@ -45,7 +45,7 @@ class IndexSet(dict[str, set[int]]):
         True
     """
 
-    def __init__(self, **mapping: int | Iterable[int]):
+    def __init__(self, /, **mapping: int | Iterable[int]):
         index_set = {}
         for k, vs in mapping.items():
             indexes = {vs} if isinstance(vs, int) else set(vs)
@@ -90,7 +90,7 @@ def union(*indexsets: IndexSet) -> IndexSet:
     return IndexSet(
         **{
             k: set.union(*[vs[k] for vs in indexsets if k in vs])
-            for k in set.union(*(set(vs) for vs in indexsets))
+            for k in set().union(*indexsets)
         }
     )
 
@@ -228,7 +228,7 @@ def gather(value: torch.Tensor, indexset: IndexSet) -> torch.Tensor:
     """
     indexset_vars = {name_to_sym(name): inds for name, inds in indexset.items()}
     binding = {
-        k: functools.partial(lambda v: v, torch.tensor(list(indexset_vars[k]))[k()])
+        k: functools.partial(lambda v: v, torch.tensor(sorted(indexset_vars[k]))[k()])
         for k in sizesof(value).keys()
         if k in indexset_vars
     }
-- 
2.43.0


From c4e8ac1a140012c82bce4f7fb5b7cfa82518adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 25/46] fix: a symbolic StudentT keeps df, loc and scale in
 their own roles

---
 effectful/handlers/pyro.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 2e79242..dc1e981 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -580,7 +580,6 @@ def _embed_masked(d: dist.MaskedDistribution) -> Term[TorchDistribution]:
 @evaluate.register(dist.Logistic)
 @evaluate.register(dist.LogisticNormal)
 @evaluate.register(dist.Normal)
-@evaluate.register(dist.StudentT)
 def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
         loc_raw = d.loc
@@ -782,6 +781,20 @@ def _embed_relaxed(d: TorchDistribution) -> Term[TorchDistribution]:
     return _register_distribution_op(type(d))(temperature, probs)
 
 
+@evaluate.register
+def _embed_student_t(d: dist.StudentT) -> Term[TorchDistribution]:
+    with interpreter({}):
+        df_raw = d.df
+        loc_raw = d.loc
+        scale_raw = d.scale
+
+    df = evaluate(df_raw)
+    loc = evaluate(loc_raw)
+    scale = evaluate(scale_raw)
+
+    return _register_distribution_op(dist.StudentT)(df, loc, scale)
+
+
 @evaluate.register
 def _embed_uniform(d: dist.Uniform) -> Term[TorchDistribution]:
     with interpreter({}):
-- 
2.43.0


From 86e8a14d49a7578b8f41a3bca6fec3f4f04e1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 26/46] fix: a symbolic Wishart keeps its scale_tril

---
 effectful/handlers/pyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index dc1e981..9b465e7 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -840,7 +840,7 @@ def _embed_wishart(d: dist.Wishart) -> Term[TorchDistribution]:
     df = evaluate(df_raw)
     scale_tril = evaluate(scale_tril_raw)
 
-    return _register_distribution_op(dist.Wishart)(df, scale_tril)
+    return _register_distribution_op(dist.Wishart)(df, scale_tril=scale_tril)
 
 
 @evaluate.register
-- 
2.43.0


From 1a4d668a447c024c7e9026ce49b5cf7791f5279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 27/46] fix: an expanded distribution with a symbolic base can
 be made a term

---
 effectful/handlers/pyro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 9b465e7..520d6e2 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -527,12 +527,11 @@ def _embed_distribution(dist: TorchDistribution) -> Term[TorchDistribution]:
 @evaluate.register
 def _embed_expanded(d: dist.ExpandedDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
-        batch_shape_raw = d._batch_shape
+        batch_shape = d._batch_shape
         base_dist_raw = d.base_dist
+        base_batch_shape = base_dist_raw.batch_shape
 
-    batch_shape = evaluate(batch_shape_raw)
     base_dist = evaluate(base_dist_raw)
-    base_batch_shape = base_dist.batch_shape  # type: ignore
     if batch_shape == base_batch_shape:
         return base_dist
 
-- 
2.43.0


From 877374373fdcd5c7bd61c001765ebe56a12aa6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 28/46] fix: binding named dimensions of nested distributions
 and of ones with scalar parameters

---
 effectful/handlers/pyro.py | 51 +++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 520d6e2..a6abcdd 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -360,6 +360,8 @@ def _unbind_dims_distribution(
     def _to_named(a):
         nonlocal batch_shape
         if isinstance(a, torch.Tensor):
+            if keep_scalars and len(a.shape) == 0:
+                return a
             _validate_batch_shape(a)
             return typing.cast(torch.Tensor, a)[tuple(n() for n in names)]
         elif isinstance(a, TorchDistribution):
@@ -374,6 +376,12 @@ def _unbind_dims_distribution(
     if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
         raise NotHandled
 
+    # A scalar is the same along every dimension another parameter has.
+    tensors = [
+        a for a in (*d.args, *d.kwargs.values()) if isinstance(a, torch.Tensor)
+    ]
+    keep_scalars = any(len(a.shape) >= len(names) for a in tensors)
+
     new_d = d.op(
         *[_to_named(a) for a in d.args],
         **{k: _to_named(v) for (k, v) in d.kwargs.items()},
@@ -388,32 +396,47 @@ def _bind_dims_distribution(
     value: pyro.distributions.torch_distribution.TorchDistribution,
     *names: Operation[[], torch.Tensor],
 ) -> pyro.distributions.torch_distribution.TorchDistribution:
-    def _to_positional(a, indices):
+    sizes = sizesof(value)
+    return _to_positional_distribution(value, {k: sizes[k] for k in names})
+
+
+def _to_positional_distribution(
+    value: pyro.distributions.torch_distribution.TorchDistribution,
+    indices: Mapping[Operation[[], torch.Tensor], int],
+) -> pyro.distributions.torch_distribution.TorchDistribution:
+    """Make the named dimensions in `indices` positional throughout `value`."""
+    with handler({apply: defdata}):
+        d = typing.cast(TorchDistribution, evaluate(value))
+
+    if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
+        raise NotHandled
+
+    # A scalar that does not vary along the dimensions needs no dimensions of
+    # its own, as long as another parameter has them.
+    keep_scalars = any(
+        isinstance(a, torch.Tensor) and indices.keys() <= sizesof(a).keys()
+        for a in (*d.args, *d.kwargs.values())
+    )
+
+    def _to_positional(a):
         if isinstance(a, torch.Tensor):
             # broadcast to full indexed shape
             existing_dims = set(sizesof(a).keys())
             missing_dims = set(indices) - existing_dims
+            if keep_scalars and a.ndim == 0 and missing_dims == set(indices):
+                return a
 
             a_indexed = torch.broadcast_to(
                 a, torch.Size([indices[dim] for dim in missing_dims]) + a.shape
             )[tuple(n() for n in missing_dims)]
-            return bind_dims(a_indexed, *names)
+            return bind_dims(a_indexed, *indices)
         elif isinstance(a, TorchDistribution):
-            return bind_dims(a, *names)
+            return _to_positional_distribution(a, indices)
         else:
             return a
 
-    with handler({apply: defdata}):
-        d = typing.cast(TorchDistribution, evaluate(value))
-
-    if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
-        raise NotHandled
-
-    sizes = sizesof(d)
-    indices = {k: sizes[k] for k in names}
-
-    pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in d.kwargs.items()}
+    pos_args = [_to_positional(a) for a in d.args]
+    pos_kwargs = {k: _to_positional(v) for (k, v) in d.kwargs.items()}
     new_d = d.op(*pos_args, **pos_kwargs)
 
     assert new_d.event_shape == d.event_shape
-- 
2.43.0


From 305c572eb35e20e39593f4a9f4eef7d3a90555cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 29/46] fix: keywords, argument trees and out_dims of the
 torch.func wrappers

---
 effectful/handlers/torch.py | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index be3478b..277854c 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -632,18 +632,28 @@ def _indexed_func_wrapper[**P, S, T](
         return tensors
 
     # reapply the stored indexes to a result
-    def reindex(ret, starting_dim=0):
-        def index_expr(i):
-            return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
+    def reindex(ret, batch_dims=None):
+        def reindex_tensor(t, i, dim):
+            key = tuple(x() for x in i.indexes)
+            if dim is None or not key:
+                return torch_getitem(t, key)
+            # the stored indexes come first among the dimensions other than dim
+            t = torch_getitem(torch.movedim(t, dim, 0), (slice(None), *key))
+            return torch.movedim(t, 0, dim)
+
+        # where the function returns one tensor, a transform of it may return a
+        # tree of them (e.g. a Jacobian for each of several arguments)
+        def reindex_tree(i, r, dim):
+            return pytree.tree_map(lambda t: reindex_tensor(t, i, dim), r)
 
-        if not pytree.tree_is_leaf(ret):
-            indexed_ret = pytree.tree_map(
-                lambda t, i: torch_getitem(t, index_expr(i)), ret, indexes
-            )
-        else:
-            indexed_ret = torch_getitem(ret, index_expr(indexes))
-
-        return indexed_ret
+        return pytree.tree_map(
+            lambda dim, i, r: pytree.tree_map(
+                lambda i, r: reindex_tree(i, r, dim), i, r
+            ),
+            batch_dims,
+            indexes,
+            ret,
+        )
 
     return deindexed, reindex
 
@@ -657,28 +667,28 @@ def grad(func, *args, **kwargs):
     """
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(f(*a, *k))
+    return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(h(*a, *k))
+    return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
@@ -688,7 +698,12 @@ def jvp(func, *args, **kwargs):
     # hide deindexed_func from _register_torch_op
     jvp_func = functools.partial(torch.func.jvp, deindexed_func)
     ret = _register_torch_op(jvp_func)(*args, **kwargs)
-    return pytree.tree_map(reindex, ret)
+    if len(ret) == 3:  # has_aux: the function returns its result and aux
+        (value, tangent, aux) = ret
+        (tangent, _) = reindex((tangent, aux))
+        (value, aux) = reindex((value, aux))
+        return value, tangent, aux
+    return tuple(reindex(r) for r in ret)
 
 
 @functools.wraps(torch.func.vjp)
@@ -731,10 +746,18 @@ def vjp(func, *indexed_primals, **kwargs):
 def vmap(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     vmap_func = _register_torch_op(torch.func.vmap(deindexed_func, *args, **kwargs))
-    # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
-    # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
-    # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, *k), starting_dim=1)
+    # vmap_func returns tensors of shape [indexed_dim_1, ..., indexed_dim_n,
+    # pos_dim_1, ..., pos_dim_m] with the vmapped dimension put at out_dims.
+    out_dims = args[1] if len(args) > 1 else kwargs.get("out_dims", 0)
+
+    def call(*a, **k):
+        ret = vmap_func(*a, **k)
+        # a single result may have its dimension in a tuple
+        if isinstance(out_dims, tuple) and pytree.tree_is_leaf(ret):
+            return reindex(ret, out_dims[0])
+        return reindex(ret, out_dims)
+
+    return call
 
 
 @syntactic_eq.register
-- 
2.43.0


From d63921ad63a0c01cdb93f4b087fec23b8d0fcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 30/46] fix: LKJCholesky, MultivariateNormal and Wishart
 distributions can be made terms

---
 effectful/handlers/numpyro.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 329cf47..f2b7fb7 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -963,7 +963,7 @@ class LKJCholeskyTerm(_DistributionTerm):
 
 @evaluate.register(dist.LKJCholesky)
 def _embed_lkjcholesky(d: dist.LKJCholesky) -> Term[dist.LKJCholesky]:
-    return LKJCholesky(d.dim, d.concentration)
+    return LKJCholesky(d.dimension, d.concentration, sample_method=d.sample_method)
 
 
 @defop
@@ -997,9 +997,8 @@ class MultivariateNormalTerm(_DistributionTerm):
 def _embed_multivariatenormal(
     d: dist.MultivariateNormal,
 ) -> Term[dist.MultivariateNormal]:
-    return MultivariateNormal(
-        d.loc, d.covariance_matrix, d.precision_matrix, d.scale_tril
-    )
+    # the scale is kept in only one of its parametrisations
+    return MultivariateNormal(d.loc, None, None, d.scale_tril)
 
 
 @defop
@@ -1082,14 +1081,15 @@ def Wishart(df, scale_tril, **kwargs) -> dist.Wishart:
 @defdata.register(dist.Wishart)
 class WishartTerm(_DistributionTerm):
     def __init__(self, ty, op, df, scale_tril, **kwargs):
-        super().__init__(dist.Wishart, op, df, scale_tril, **kwargs)
+        # the second positional parameter of dist.Wishart is the scale matrix
+        super().__init__(dist.Wishart, op, df, scale_tril=scale_tril, **kwargs)
         self.df = df
         self.scale_tril = scale_tril
 
 
 @evaluate.register(dist.Wishart)
 def _embed_wishart(d: dist.Wishart) -> Term[dist.Wishart]:
-    return Wishart(d.df, d.scale_tril)
+    return Wishart(d.concentration, d.scale_tril)
 
 
 @defop
-- 
2.43.0


From fc2fb3fdbe6084faab68fcd75a2f97af4670a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 31/46] fix: parameters, samples and densities of numpyro
 distributions with named dimensions keep their alignment

---
 effectful/handlers/numpyro.py | 86 +++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 15 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index f2b7fb7..7c2bd62 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -6,6 +6,7 @@ except ImportError:
 
 
 import functools
+import inspect
 from collections.abc import Collection, Mapping
 from typing import Any
 
@@ -106,9 +107,15 @@ def _unbind_distribution(
 def _bind_dims_distribution(
     d: dist.Distribution, *names: Operation[[], jax.Array]
 ) -> dist.Distribution:
-    def _to_positional(a, indices):
+    def _to_positional(a, event_dim):
         typ = typeof(a)
         if issubclass(typ, jax.Array):
+            # named dimensions go before the batch dimensions, which align on
+            # the right
+            if event_dim is not None and len(a.shape) - event_dim < batch_ndims:
+                padding = (1,) * (batch_ndims + event_dim - len(a.shape))
+                a = jnp.reshape(a, padding + a.shape)
+
             # broadcast to full indexed shape
             existing_dims = set(sizesof(a).keys())
             missing_dims = set(indices) - existing_dims
@@ -138,11 +145,16 @@ def _bind_dims_distribution(
     sizes = sizesof(d)
     indices = {k: sizes[k] for k in names}
 
-    pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in d.kwargs.items()}
-    new_d = d.op(*pos_args, **pos_kwargs)
+    batch_ndims = max(
+        (
+            len(a.shape) - event_dim
+            for a, event_dim in d._params()
+            if event_dim is not None and issubclass(typeof(a), jax.Array)
+        ),
+        default=0,
+    )
 
-    return new_d
+    return d._map_params(_to_positional)
 
 
 def _broadcast_to_named(t, sizes):
@@ -233,6 +245,29 @@ class _DistributionTerm(dist.Distribution):
 
         return all(_arg_is_eager(x) for x in (*self.args, *self.kwargs.values()))
 
+    def _event_dim(self, name: str) -> int | None:
+        """The number of event dimensions of a parameter of the constructor."""
+        constraint = self._constr.arg_constraints.get(name)
+        return None if constraint is None else constraint.event_dim
+
+    def _param_names(self) -> list[str]:
+        constr_names = list(inspect.signature(self._constr.__init__).parameters)[1:]
+        return [*constr_names[: len(self._args)], *self._kwargs]
+
+    def _params(self) -> list[tuple[Any, int | None]]:
+        """The arguments, each with the number of its event dimensions."""
+        values = (*self._args, *self._kwargs.values())
+        return [
+            (v, self._event_dim(k))
+            for k, v in zip(self._param_names(), values, strict=True)
+        ]
+
+    def _map_params(self, f) -> dist.Distribution:
+        """Apply `f` to each argument and the number of its event dimensions."""
+        values = [f(v, event_dim) for v, event_dim in self._params()]
+        n = len(self._args)
+        return self.op(*values[:n], **dict(zip(self._kwargs, values[n:])))
+
     @property
     def op(self):
         return self._op
@@ -299,6 +334,9 @@ class _DistributionTerm(dist.Distribution):
         sample_shape = (
             value.shape if n_batch_event == 0 else value.shape[:-n_batch_event]
         )
+        if len(value.shape) < n_batch_event:
+            padding = (1,) * (n_batch_event - len(value.shape))
+            value = jnp.reshape(value, padding + value.shape)
         value = bind_dims(_broadcast_to_named(value, self._indices), *self._indices)
         dims = list(range(len(value.shape)))
         n_named_batch = len(self._indices)
@@ -346,16 +384,22 @@ class _DistributionTerm(dist.Distribution):
     def enumerate_support(self, expand=True) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._reindex_sample(self._pos_base_dist.enumerate_support(expand), ())
+        # the values have shape cardinality + named + batch_shape + event_shape
+        values = self._pos_base_dist.enumerate_support(expand)
+        if not expand:
+            return values[(slice(None),) + (0,) * len(self._indices)]
+        return self._reindex_sample(values, values.shape[:1])
 
     @defop
     def entropy(self) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._pos_base_dist.entropy()
+        return self._reindex_sample(self._pos_base_dist.entropy(), ())
 
     @defop
     def to_event(self, reinterpreted_batch_ndims=None) -> dist.Distribution:
+        if reinterpreted_batch_ndims is None and self._is_eager:
+            return self.to_event(len(self.batch_shape))
         raise NotHandled
 
     @defop
@@ -363,19 +407,24 @@ class _DistributionTerm(dist.Distribution):
         if not self._is_eager:
             raise NotHandled
 
-        def expand_arg(a, batch_shape):
-            if is_eager_array(a):
-                return expand_to_batch_shape(a, len(self.batch_shape), batch_shape)
+        def expand_arg(a, event_dim):
+            if isinstance(a, dist.Distribution):
+                # the batch dimensions that have become event dimensions stay
+                a = evaluate(a)
+                kept = a.batch_shape[len(self.batch_shape) :]
+                return a.expand((*batch_shape, *kept))
+            elif event_dim is not None and (
+                is_eager_array(a) or isinstance(a, int | float)
+            ):
+                a = jnp.asarray(a) if isinstance(a, int | float) else a
+                batch_ndims = len(a.shape) - event_dim
+                return expand_to_batch_shape(a, batch_ndims, batch_shape)
             return a
 
         if self.batch_shape == batch_shape:
             return self
 
-        expanded_args = [expand_arg(a, batch_shape) for a in self.args]
-        expanded_kwargs = {
-            k: expand_arg(v, batch_shape) for (k, v) in self.kwargs.items()
-        }
-        return self.op(*expanded_args, **expanded_kwargs)
+        return self._map_params(expand_arg)
 
     def __repr__(self):
         return Term.__repr__(self)
@@ -424,6 +473,10 @@ class _DistributionMethodTerm(_DistributionTerm):
         )
         return getattr(base, self._op.__name__)(*self._args[1:], **self._kwargs)
 
+    def _param_names(self) -> list[str]:
+        # the arguments of a method are not parameters of the constructor
+        return [""] * (len(self._args) + len(self._kwargs))
+
 
 @defop
 def Cauchy(loc=0.0, scale=1.0, **kwargs) -> dist.Cauchy:
@@ -1104,6 +1157,9 @@ class DeltaTerm(_DistributionTerm):
         self.v = v
         self.log_density = log_density
 
+    def _event_dim(self, name: str) -> int | None:
+        return {"v": self._args[2], "log_density": 0}.get(name)
+
 
 @evaluate.register(dist.Delta)
 def _embed_delta(d: dist.Delta) -> Term[dist.Delta]:
-- 
2.43.0


From dbea893f7ef5a75b653a8103ea15049b79f3a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 32/46] fix: the type evaluator keeps each annotation of an
 annotated type

---
 effectful/internals/unification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index fb74d9a..81f76be 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -144,7 +144,7 @@ class TypeEvaluator(abc.ABC):
     def _(self, typ: typing._AnnotatedAlias):  # type: ignore
         return typing.Annotated[
             self.evaluate(typing.get_args(typ)[0]),
-            typ.__metadata__,
+            *typ.__metadata__,
         ]
 
     @evaluate.register
-- 
2.43.0


From c876a102f38b32b1f879d26d3d6b5f113c62a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 33/46] fix: encodings of tuples and named tuples reject other
 items and encode nested fields

---
 effectful/handlers/llm/encoding.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 4ccc8fd..8638109 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -294,6 +294,19 @@ def _inline_refs(schema: dict) -> dict:
     return _resolve(schema)
 
 
+def _check_items(value: object, fields: list[str]) -> Mapping[str, Any]:
+    """The items of a tuple, given as a sequence or by name; exactly `fields`."""
+    if isinstance(value, tuple | list):
+        if len(value) != len(fields):
+            raise ValueError(f"expected {len(fields)} items, got {len(value)}")
+        return dict(zip(fields, value))
+    if not isinstance(value, Mapping):
+        raise ValueError(f"expected an object, got {type(value).__name__}")
+    if set(value) != set(fields):
+        raise ValueError(f"expected exactly the items {fields}, got {list(value)}")
+    return value
+
+
 @TypeToPydanticType.register(tuple)
 def _pydantic_type_tuple(ty):
     """Convert finitary tuples to object-based schemas (``properties/required``).
@@ -307,9 +320,12 @@ def _pydantic_type_tuple(ty):
     """
     # NamedTuple subclasses dispatch here via MRO; use field names.
     if isinstance(ty, type) and hasattr(ty, "_fields"):
-        hints = typing.get_type_hints(ty)
+        hints = typing.get_type_hints(ty, include_extras=True)
         nt_fields: list[str] = list(ty._fields)
-        nt_types = [hints.get(f, typing.Any) for f in nt_fields]
+        nt_types = [
+            TypeToPydanticType().evaluate(hints[f]) if f in hints else typing.Any
+            for f in nt_fields
+        ]
         nt_adapters = [pydantic.TypeAdapter(t) for t in nt_types]
         nt_model = pydantic.create_model(
             ty.__name__,
@@ -318,8 +334,7 @@ def _pydantic_type_tuple(ty):
         )
 
         def _nt_validate(value, info: pydantic.ValidationInfo):
-            if isinstance(value, tuple | list):
-                value = dict(zip(nt_fields, value))
+            value = _check_items(value, nt_fields)
             return ty(
                 **{
                     f: nt_adapters[i].validate_python(value[f], context=info.context)
@@ -363,8 +378,7 @@ def _pydantic_type_tuple(ty):
     )
 
     def _validate(value, info: pydantic.ValidationInfo):
-        if isinstance(value, tuple | list):
-            value = {f"item_{i}": v for i, v in enumerate(value)}
+        value = _check_items(value, [f"item_{i}" for i in range(len(effective))])
         return tuple(
             adapters[i].validate_python(value[f"item_{i}"], context=info.context)
             for i in range(len(effective))
-- 
2.43.0


From 898b51c61851f4a76ae4919eada3242e0b778f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 34/46] fix: image payloads that are no image are rejected as
 invalid when decoded

---
 effectful/handlers/llm/encoding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 8638109..273080a 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -416,7 +416,12 @@ def _validate_image(value: ChatCompletionImageObject) -> Image.Image:
     prefix, data = url.split(",")
     if not prefix.startswith("data:image/"):
         raise ValueError(f"expected base64 encoded image as data uri, received {url}")
-    return Image.open(fp=io.BytesIO(base64.b64decode(data)))
+    try:
+        image = Image.open(fp=io.BytesIO(base64.b64decode(data)))
+        image.load()  # decode here, not at the first use
+    except (OSError, SyntaxError) as e:
+        raise ValueError(f"not an image: {e}") from e
+    return image
 
 
 def _serialize_image(value: Image.Image) -> ChatCompletionImageObject:
-- 
2.43.0


From 1b31b1d19a2400ef12e07b73106c80879572c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 35/46] fix: synthesised functions keep their own source

---
 effectful/handlers/llm/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 273080a..a523d93 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -601,7 +601,8 @@ def _pydantic_callable(callable_type: Any) -> Any:
             )
 
         ctx = info.context or {}
-        filename = f"<synthesis:{id(encoded)}>"
+        # unique, as the source is looked up by it as long as the function lives
+        filename = f"<synthesis:{uuid.uuid4()}>"
         module: ast.AST = evaluation.parse(encoded.module_code, filename)
 
         if not isinstance(module, ast.Module) or not module.body:
-- 
2.43.0


From 1bbc5bf72cef104e5f5baa5e92aca390e8a1ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 36/46] fix: nested format specifications in prompts are
 expanded

---
 effectful/handlers/llm/completions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 4e9f03d..dcedcde 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -527,7 +527,8 @@ def call_user(
                     if conversion
                     else part["text"]
                 )
-                buf.append(formatter.format_field(text, format_spec or ""))
+                spec = formatter.vformat(format_spec or "", (), env)
+                buf.append(formatter.format_field(text, spec))
             else:
                 flush_text()
                 parts.append(part)
-- 
2.43.0


From 7470b66e329d6e1f48572b73da8d40dbc2d488d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 37/46] fix: data with a "type" key is rendered as data, not
 taken for a content block

---
 effectful/handlers/llm/encoding.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index a523d93..5a31f01 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -61,6 +61,23 @@ CONTENT_BLOCK_TYPES: frozenset[str] = frozenset(
 )
 
 
+_CONTENT_BLOCK: pydantic.TypeAdapter[OpenAIMessageContentListBlock] = (
+    pydantic.TypeAdapter(OpenAIMessageContentListBlock)
+)
+
+
+def _is_content_block(value: dict) -> bool:
+    """Whether `value` is a content block, and not other data with a "type" key."""
+    kind = value.get("type")
+    if not isinstance(kind, str) or kind not in CONTENT_BLOCK_TYPES:
+        return False
+    try:
+        block = _CONTENT_BLOCK.validate_python(value)
+    except pydantic.ValidationError:
+        return False
+    return set(value) <= set(block)
+
+
 @pydantic.validate_call(validate_return=True)
 def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
     """Convert an encoded JSON-compatible value into a flat list of content blocks.
@@ -85,7 +102,7 @@ def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
             buf.clear()
 
     def walk(v: typing.Any) -> None:
-        if isinstance(v, dict) and v.get("type") in CONTENT_BLOCK_TYPES:
+        if isinstance(v, dict) and _is_content_block(v):
             flush()
             blocks.append(typing.cast(OpenAIMessageContentListBlock, v))
         elif isinstance(v, dict):
-- 
2.43.0


From 822aeaeb6a4936d6dc92dc181618bb52b0be8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 38/46] fix: tool requests can name positional-only parameters
 and encode by parameter types and offered names

---
 effectful/handlers/llm/encoding.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 5a31f01..9d39f09 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -34,7 +34,7 @@ from PIL import Image
 
 import effectful.handlers.llm.evaluation as evaluation
 from effectful.handlers.llm.template import Tool
-from effectful.internals.unification import GenericAlias, TypeEvaluator, nested_type
+from effectful.internals.unification import GenericAlias, TypeEvaluator
 from effectful.ops.types import Operation, Term
 
 type ToolCallID = str
@@ -796,9 +796,14 @@ def _validate_tool_call(
             Encodable[param.annotation]  # type: ignore[name-defined]
         )
         decoded_args[name] = arg_enc.validate_python(raw_arg, context=ctx)
+    positional_args = [
+        decoded_args.pop(name)
+        for name, param in sig.parameters.items()
+        if param.kind is param.POSITIONAL_ONLY and name in decoded_args
+    ]
     return DecodedToolCall(
         tool=tool,
-        bound_args=sig.bind(**decoded_args),
+        bound_args=sig.bind(*positional_args, **decoded_args),
         id=value.id,
         name=value.function.name,
     )
@@ -809,9 +814,10 @@ def _serialize_tool_call(
 ) -> dict:
     ctx = info.context or {}
     encoded_args = {}
+    params = value.bound_args.signature.parameters
     for k, v in value.bound_args.arguments.items():
         v_enc: pydantic.TypeAdapter[Any] = pydantic.TypeAdapter(
-            Encodable[nested_type(v).value]  # type: ignore[misc]
+            Encodable[params[k].annotation]  # type: ignore[name-defined]
         )
         encoded_args[k] = v_enc.dump_python(v, mode="json", context=ctx)
     return OpenAIChatCompletionMessageToolCall.model_validate(
@@ -819,7 +825,7 @@ def _serialize_tool_call(
             "type": "function",
             "id": value.id,
             "function": {
-                "name": value.tool.__name__,
+                "name": value.name,
                 "arguments": json.dumps(encoded_args),
             },
         }
-- 
2.43.0


From 744004ffe83eb38f0133ffe5705ad39e101720a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 39/46] fix: a template method is not offered to itself unless
 it is recursive

---
 effectful/handlers/llm/completions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index dcedcde..5391559 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -382,7 +382,14 @@ def call_assistant[T](
             includes the raw assistant message for retry handling.
     """
     anchor = kwargs.pop("anchor", None)  # ride in kwargs; pop before the LLM call
-    tools = dict(collect_tools(env))
+    # a template is offered to itself, under any name, only if it is recursive
+    tools = {
+        name: tool
+        for name, tool in collect_tools(env).items()
+        if anchor is None
+        or tool.__default__ is not anchor
+        or _is_recursive_signature(tool.__signature__)
+    }
     tool_specs = {
         k: typing.cast(
             pydantic.TypeAdapter[typing.Any],
-- 
2.43.0


From 9bbc24a4c08a18834fd603409af6fcae27c71204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 40/46] fix: collecting the tools of an agent does not read its
 properties, and finds class methods

---
 effectful/handlers/llm/completions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 5391559..e3b011e 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -243,9 +243,14 @@ def collect_tools(
             result[name] = obj
         elif isinstance(obj, Agent):
             for cls in type(obj).__mro__:
-                for attr_name in vars(cls):
-                    if isinstance(getattr(obj, attr_name), Tool):
-                        result[f"{name}__{attr_name}"] = getattr(obj, attr_name)
+                for attr_name in tuple(vars(cls)):
+                    # only methods: reading a property may run anything
+                    static_attr = inspect.getattr_static(obj, attr_name)
+                    if isinstance(static_attr, property | functools.cached_property):
+                        continue
+                    attr = getattr(obj, attr_name, None)
+                    if isinstance(attr, Tool):
+                        result[f"{name}__{attr_name}"] = attr
 
     # Same Tool can appear under multiple names when visible both in the
     # enclosing scope and via an Agent instance's MRO.  Keep only the
-- 
2.43.0


From 457fe7bc320a281032baa7b28e866800bee621e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 41/46] fix: lexical readers skip tools bound to several names

---
 effectful/handlers/llm/completions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index e3b011e..846cee1 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -279,6 +279,8 @@ class LexicalReaders(ObjectInterpretation):
         for name, obj in env.items():
             if name in result or not name.isidentifier():
                 continue
+            if isinstance(obj, Tool | Template | Agent):
+                continue  # a tool may be in `result` under another name
             try:
                 result[name] = _LexicalVariableTool.define(obj, name=name)
             # `TypeError` joins the three Pydantic errors because the
-- 
2.43.0


From 7f7ce4fa0c4ac410983b911c8d128daf8cf94a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 42/46] fix: star and __future__ imports nested in blocks are
 refused too

---
 effectful/handlers/llm/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 729d818..f0ab430 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -125,7 +125,8 @@ def scan_non_nestable(generated: ast.Module) -> None:
     error), so a decoder can catch it alongside ``SyntaxError`` without swallowing a real
     ``TypeError`` from a broken provider.
     """
-    for stmt in generated.body:
+    # also in the blocks of module-level statements (`if`, `try`, ...)
+    for stmt in ast.walk(generated):
         if isinstance(stmt, ast.ImportFrom):
             if stmt.module == "__future__":
                 raise ValueError(
-- 
2.43.0


From d41b12d8c9550bf810651fef714a29964d7a59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 43/46] fix: spliced regions begin at the first decorator

---
 effectful/handlers/llm/evaluation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index f0ab430..01d38b6 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -153,6 +153,12 @@ def _def_nodes(
     ]
 
 
+def _first_lineno(stmt: ast.stmt) -> int:
+    """The first line of ``stmt``: that of its first decorator, if it has any."""
+    decorators = getattr(stmt, "decorator_list", [])
+    return decorators[0].lineno if decorators else stmt.lineno
+
+
 def _find_def_at_lineno(
     module: ast.Module, lineno: int
 ) -> ast.FunctionDef | ast.AsyncFunctionDef | None:
@@ -165,8 +171,7 @@ def _find_def_at_lineno(
     source that has drifted since import.
     """
     for node in _def_nodes(module):
-        start = node.decorator_list[0].lineno if node.decorator_list else node.lineno
-        if start == lineno:
+        if _first_lineno(node) == lineno:
             return node
     return None
 
@@ -253,7 +258,7 @@ def splice_into_source(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[0].lineno  # first generated statement (body is non-empty)
+    lo = _first_lineno(spliced.body[0])  # first generated statement (body is non-empty)
     hi = spliced.end_lineno or lo
     return checked_source, lo, hi
 
@@ -333,7 +338,7 @@ def _splice_repl(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[-n_current].lineno
+    lo = _first_lineno(spliced.body[-n_current])
     hi = spliced.body[-1].end_lineno or lo
     return checked_source, lo, hi
 
-- 
2.43.0


From 12b2bc63ae72f0a54a10790fe49b469c33904b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 44/46] fix: the restricted evaluator keeps what code bound
 before it raised, and drops what it deleted

---
 effectful/handlers/llm/evaluation.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 01d38b6..a93fb3d 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -559,16 +559,22 @@ class RestrictedEvalProvider(ObjectInterpretation):
         # Snapshot value identities before execution so we can copy back every
         # *binding effect* — both new names and rebindings of seeded names.
         before = dict(rglobals)
-        builtins.exec(bytecode, rglobals, rglobals)
-
         sentinel = object()
-        env.update(
-            {
-                key: value
-                for key, value in rglobals.items()
-                if key != "__builtins__" and before.get(key, sentinel) is not value
-            }
-        )
+        try:
+            builtins.exec(bytecode, rglobals, rglobals)
+        finally:
+            # Also when the code raises: what it bound before that stays bound.
+            # `_print` is bound by RestrictedPython, not by the code.
+            env.update(
+                {
+                    key: value
+                    for key, value in rglobals.items()
+                    if key not in ("__builtins__", "_print")
+                    and before.get(key, sentinel) is not value
+                }
+            )
+            for key in before.keys() - rglobals.keys():
+                env.pop(key, None)
 
 
 class _OpCommandCompiler(codeop.CommandCompiler):
-- 
2.43.0


From 9cc62cfac8d07cba3e2573e8ae1a3f525ebbc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 45/46] fix: canonicalize a parameterized generic subclass
 through its base's own parameters

Subclasses whose base is given other or reordered parameters (class Swap[X, Y](dict[Y, X]))
were widened to the base with their arguments in the subclass's order, so unification
matched them against the wrong parameters.
---
 effectful/internals/unification.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 81f76be..a3a5f1a 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -772,7 +772,13 @@ def _(typ: GenericAlias):
         else:
             raise TypeError(f"Cannot canonicalize type {typ}")
     else:
-        return canonicalize(origin)[tuple(canonicalize(a) for a in args)]  # type: ignore
+        corigin, cargs = canonicalize(origin), tuple(canonicalize(a) for a in args)
+        params = getattr(origin, "__parameters__", ())
+        if corigin is not origin and params and len(params) == len(cargs):
+            # A generic subclass: its base is given in terms of its own parameters,
+            # which need not be those of the base, nor in the same order.
+            return canonicalize(substitute(corigin, dict(zip(params, cargs))))
+        return corigin[cargs]  # type: ignore
 
 
 @canonicalize.register
-- 
2.43.0


From 8439537f07390051723444bb5e25c3eef7ea96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:22 +0000
Subject: [PATCH 46/46] fix: a compiled function keeps the named dimensions of
 each of its traces

---
 effectful/handlers/jax/_handlers.py | 55 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 224573f..cb64f95 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -234,40 +234,47 @@ def jit(f, *args, **kwargs):
     return lambda *args, **kwargs: f_reindex(f_noindex_jitted(*args, **kwargs))
 
 
+@jax.tree_util.register_pytree_node_class
+class _Indexed:
+    """A positional array and the names of its first dimensions.
+
+    The names are part of the tree structure: a compiled function keeps them for
+    each of its traces.
+    """
+
+    def __init__(self, array, names):
+        self.array, self.names = array, names
+
+    def tree_flatten(self):
+        return (self.array,), self.names
+
+    @classmethod
+    def tree_unflatten(cls, names, children):
+        return cls(*children, names)
+
+
 def _indexed_func_wrapper[**P, S, T](
     func: Callable[P, T], getitem, sizesof
 ) -> tuple[Callable[P, S], Callable[[S], T]]:
-    # index expressions for the result of the function
-    indexes = None
-
-    # hide index lists from jax.tree.mapping
-    class Indexes:
-        def __init__(self, sizes):
-            self.sizes = sizes
-            self.indexes = list(sizes.keys())
-
     # strip named indexes from the result of the function and store them
     def deindexed(*args, **kwargs):
-        nonlocal indexes
+        def deindex_tensor(t):
+            sizes = sizesof(t)
+            t_ = bind_dims(t, *sizes.keys())
+            assert all(t_.shape[j] == size for j, size in enumerate(sizes.values()))
+            return _Indexed(t_, tuple(sizes.keys()))
 
-        def deindex_tensor(t, i):
-            t_ = bind_dims(t, *i.sizes.keys())
-            assert all(t_.shape[j] == i.sizes[v] for j, v in enumerate(i.sizes))
-            return t_
-
-        ret = func(*args, **kwargs)
-        indexes = jax.tree.map(lambda t: Indexes(sizesof(t)), ret)
-        tensors = jax.tree.map(lambda t, i: deindex_tensor(t, i), ret, indexes)
-        return tensors
+        return jax.tree.map(deindex_tensor, func(*args, **kwargs))
 
     # reapply the stored indexes to a result
     def reindex(ret, starting_dim=0):
-        def index_expr(i):
-            return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
-
-        indexed_ret = jax.tree.map(lambda t, i: getitem(t, index_expr(i)), ret, indexes)
+        def reindex_tensor(t):
+            index_expr = (slice(None),) * starting_dim + tuple(x() for x in t.names)
+            return getitem(t.array, index_expr)
 
-        return indexed_ret
+        return jax.tree.map(
+            reindex_tensor, ret, is_leaf=lambda t: isinstance(t, _Indexed)
+        )
 
     return deindexed, reindex
 
-- 
2.43.0

