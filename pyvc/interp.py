"""Statement and expression execution (mixed into the engine)."""
import ast

import z3

from .engine import Engine, I, is_V, is_boolv, is_int, is_strv, is_z, keysT, simp, simp_int, zand, zb, znot, zor
from .values import *  # noqa: F403

BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

_locals_cache = {}


def local_names(node):
    """Names assigned in a function body (its own scope)."""
    if id(node) in _locals_cache:
        return _locals_cache[id(node)][0]
    out, nl = set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    targets(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target)
        elif isinstance(n, (ast.For,)):
            targets(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars:
                    targets(it.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            nl.update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(p.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)
        if not isinstance(node, ast.Lambda):
            for s in node.body:
                walk(s)
    else:
        for s in node if isinstance(node, list) else [node]:
            walk(s)
    res = frozenset(out - nl)
    _locals_cache[id(node)] = (res, node)
    return res


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Frame:
    def __init__(self, func, on_yield=None):
        self.func, self.on_yield = func, on_yield


class Interp(Engine):
    # ------------------------------------------------------------- globals
    def eval_static(self, node, module):
        return self.ev(node, None, module)

    def resolve(self, qual):
        """Value of a repository definition by qualified name."""
        if qual in self.overrides:
            return self.overrides[qual](self)
        hit = self.repo.lookup(qual)
        if hit is None:
            raise Unsupported(f"no definition of {qual} in the sources")
        mod, chain = hit
        if not chain:
            return ModV(mod.name)
        if len(chain) == 1:
            return self.global_value(mod, qual[len(mod.name) + 1:])
        owner = self.global_value(mod, chain[0].name) if isinstance(chain[0], ast.ClassDef) else None
        if owner is None:
            raise Unsupported(f"cannot address nested definition {qual}")
        for c in chain[1:-1]:
            owner = ClassV(owner.qual + "." + c.name, c, mod)
        return self.class_attr(owner, chain[-1].name, raw=True)

    def global_value(self, mod, name):
        q = mod.name + "." + name
        if q in self.overrides:
            return self.overrides[q](self)
        if q in self.st.globals:
            return self.st.globals[q]
        nodes = mod.defs.get(name)
        if not nodes:
            return None
        n = nodes[-1]
        if isinstance(n, tuple):
            v = self.import_value(mod, n[0], n[1])
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = self.make_function(n, None, mod, q)
        elif isinstance(n, ast.ClassDef):
            v = ClassV(q, n, mod)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                raise Unsupported(f"global {q} declared without value")
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(tgt, ast.Name):
                raise Unsupported(f"global {q} bound by a pattern")
            v = self.ev(n.value, None, mod)
        else:
            raise Unsupported(f"global {q}")
        self.st.globals[q] = v
        return v

    def import_value(self, mod, node, alias):
        if isinstance(node, ast.Import):
            if alias.asname:
                return self.modval(alias.name)
            return self.modval(alias.name.split(".")[0])
        src = node.module or ""
        if node.level:
            base = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (node.level - 1)]
            src = ".".join(base + ([src] if src else []))
        return self.mod_attr(src, alias.name)

    def modval(self, name):
        return ModV(name)

    def mod_attr(self, modname, attr):
        if modname.split(".")[0] == "effectful":
            sub = modname + "." + attr
            m = self.repo.module(modname)
            if m is not None:
                if sub in self.overrides:
                    return self.overrides[sub](self)
                if attr in m.defs:
                    return self.global_value(m, attr)
            if self.repo.path_of(sub) or attr in ("handlers",):
                return ModV(sub)
            if m is not None and "__getattr__" in m.defs:
                raise Unsupported(f"module __getattr__ for {sub}")
            raise Unsupported(f"unknown repository name {sub}")
        path = modname + "." + attr
        if modname == "builtins":
            path = "builtins." + attr
        try:
            import importlib.util

            if modname.split(".")[0] in ("collections", "importlib", "concurrent", "os") and importlib.util.find_spec(path) is not None:
                return ModV(path)
        except (ImportError, ModuleNotFoundError, ValueError):
            pass
        if path in self.submodules:
            return ModV(path)
        return ExtV(self.canon_ext(path))

    submodules = {"jax.numpy", "jax.tree", "jax.tree_util", "jax.scipy", "jax.scipy.special", "torch.func", "pyro.distributions", "pyro.poutine", "torch.distributions",
                  "numpyro.distributions", "pyro.poutine.indep_messenger", "pyro.distributions.torch_distribution", "jax.numpy.linalg", "torch.nn", "jax.typing",
                  "numpyro.distributions.batch_util", "numpyro.util"}

    ALIASES = {"typing.Callable": "collections.abc.Callable", "typing.Mapping": "collections.abc.Mapping",
               "typing.Sequence": "collections.abc.Sequence", "types.EllipsisType": "builtins.ellipsis",
               "builtins.Ellipsis": "builtins.Ellipsis"}

    def canon_ext(self, p):
        return self.ALIASES.get(p, p)

    # ------------------------------------------------------------- functions
    def make_function(self, node, env, mod, qual, owner=None):
        a = node.args
        defaults = tuple(self.ev(d, env, mod) if not isinstance(d, ast.Constant) else d.value for d in a.defaults)
        kwd = {p.arg: self.ev(d, env, mod) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = FuncV(node, env, mod, qual, defaults, kwd, False, owner)
        v = f
        for d in reversed(getattr(node, "decorator_list", [])):
            v = self.decorate(d, v, f, env, mod)
        return v

    def dec_name(self, d, env, mod):
        """dotted path of a decorator expression, or None"""
        try:
            x = self.ev(d, env, mod)
        except Unsupported:
            return None
        if isinstance(x, ExtV):
            return x.path
        if isinstance(x, ModV):
            return x.name
        if isinstance(x, (FuncV, ClassV)):
            return x.qual
        if isinstance(x, BoundV):
            g = x.func.func if isinstance(x.func, DispatchV) else x.func
            return getattr(g, "qual", "")
        if isinstance(x, DispatchV):
            return x.func.qual
        if is_V(x):
            return "op:" + str(x)
        if isinstance(x, NativeV):
            return "native:" + x.name
        return None

    DROP = {"functools.wraps", "typing.final", "typing.no_type_check", "typing.overload", "abc.abstractmethod", "contextlib.wraps", "typing.runtime_checkable"}

    def decorate(self, d, v, f, env, mod):
        if isinstance(d, ast.Attribute) and d.attr == "register" or isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
            return v
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            return v
        core = d.func if isinstance(d, ast.Call) else d
        nm = self.dec_name(core, env, mod)
        if nm in self.DROP:
            return v
        if nm == "contextlib.contextmanager":
            g = FuncV(f.node, f.env, f.module, f.qual, f.defaults, f.kwdefaults, True, f.owner)
            return g
        if nm in ("builtins.property", "functools.cached_property"):
            return BoundV(ExtV("builtins.property"), v)
        if nm == "builtins.staticmethod":
            return BoundV(ExtV("builtins.staticmethod"), v)
        if nm == "builtins.classmethod":
            return BoundV(ExtV("builtins.classmethod"), v)
        if nm in ("functools.lru_cache", "functools.cache"):
            return v  # only via contract: see assumptions
        if nm in ("functools.singledispatch", "functools.singledispatchmethod"):
            if isinstance(v, BoundV) and v.func == ExtV("builtins.classmethod"):
                return BoundV(ExtV("builtins.classmethod"), DispatchV(v.self_, mod, f.node.name))
            return DispatchV(v, mod, f.node.name)
        if nm and nm.endswith("_CustomSingleDispatchCallable"):
            return DispatchV(v, mod, f.node.name)
        if nm and (nm.endswith("Operation.define") or nm.endswith(".defop")):
            return self.make_op(f.qual, v)
        if nm in self.decorators:
            return self.decorators[nm](self, d, v, f, env, mod)
        # a decorator that is repository code or a native: call it
        dec = self.ev(d, env, mod)
        return self.call(dec, Seq.of([v]), Map())

    decorators = {}

    def make_op(self, name, default):
        t = self.global_const("op:" + name)
        self.typed(t, self.op_class())
        self.st.attrs[(t.get_id(), "__default__")] = default
        self.st.attrs[(t.get_id(), "__name__")] = name.split(".")[-1]
        return t

    def op_class(self):
        return self.resolve("effectful.ops.types.Operation")

    def bind_args(self, f, args, kwargs):
        """-> dict of parameter values (raises TypeError in the program when they do not fit)."""
        a = f.node.args
        out = {}
        pos = a.posonlyargs + a.args
        segs = list(args.segs)
        k = 0
        while k < len(pos) and segs:
            g = segs[0]
            if isinstance(g, One):
                out[pos[k].arg] = g.v
                segs.pop(0)
                k += 1
            elif isinstance(g, Block):
                if self.decide(I(g.n) > 0):
                    out[pos[k].arg] = g.at(0)
                    k += 1
                    gg = g
                    segs[0] = Block(simp_int(I(g.n) - 1), (lambda at: lambda j: at(simp_int(I(j) + 1)))(gg.at))
                else:
                    segs.pop(0)
            else:
                raise Unsupported("filtered sequence as positional arguments")
        rest = Seq(segs)
        if a.vararg:
            out[a.vararg.arg] = TupleV(rest)
        elif segs:
            if self.decide(self.seq_nonempty(rest)):
                self.throw("TypeError", "too many positional arguments")
        names = {p.arg for p in a.args + a.kwonlyargs}
        m = kwargs
        absent = set()
        for p in a.args + a.kwonlyargs:
            if p.arg in out:
                if not self.trivially_empty(m):
                    if self.decide(self.map_has(m, p.arg)):
                        self.throw("TypeError", "multiple values for argument")
                absent.add(p.arg)
                continue
            if not self.trivially_empty(m):
                v = self.map_get(m, p.arg)
                if v is not self.MISSING:
                    out[p.arg] = v
                else:
                    absent.add(p.arg)
        # keyword arguments not consumed
        if a.kwarg:
            if m.base is None and all(ly[0] == "store" and isinstance(ly[1], str) for ly in m.layers):
                rest_m = Map(None, [ly for ly in m.layers if ly[1] not in names])
            else:
                rest_m = m
                for nme in sorted(names - absent):
                    if simp(self.map_has(m, nme)) is not False:
                        rest_m = rest_m.plus(("del", nme))
            out[a.kwarg.arg] = self.new_dict(rest_m)
        elif not self.trivially_empty(m):
            if m.base is None and all(ly[0] == "store" and isinstance(ly[1], str) for ly in m.layers):
                if any(ly[1] not in names for ly in m.layers):
                    self.throw("TypeError", "unexpected keyword argument")
            else:
                rest_m = m
                for nme in sorted(names - absent):
                    rest_m = rest_m.plus(("del", nme))
                if self.decide(self.map_nonempty(rest_m)):
                    self.throw("TypeError", "unexpected keyword argument")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in out:
                di = i - (len(pos) - nd)
                if di >= 0:
                    out[p.arg] = f.defaults[di]
                else:
                    self.throw("TypeError", "missing argument " + p.arg)
        for p in a.kwonlyargs:
            if p.arg not in out:
                if p.arg in f.kwdefaults:
                    out[p.arg] = f.kwdefaults[p.arg]
                else:
                    self.throw("TypeError", "missing argument " + p.arg)
        return out

    def trivially_empty(self, m):
        return m.base is None and not m.layers and m.hole is None

    def exec_function(self, f, args, kwargs, on_yield=None, body_only=False):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion too deep: " + f.qual)
        if sum(1 for fr in self.frames if fr.func.node is f.node) > 6:
            raise Unsupported("recursive call without contract: " + f.qual)
        if f.qual not in self.funcs_seen:
            self.funcs_seen[f.qual] = self.repo.digest(f.node)
        vals = self.bind_args(f, args, kwargs)
        env = self.new_env(f.env, local_names(f.node))
        self.st.heap[env.oid] = vals
        self.frames.append(Frame(f, on_yield))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.module)
            self.run_body(f.node.body, env, f.module)
            return None
        except Ret as r:
            return r.val
        finally:
            self.frames.pop()
            self.depth -= 1

    def run_body(self, stmts, env, mod):
        for s in stmts:
            self.ex(s, env, mod)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        f = self.unbox(f)
        if isinstance(f, FuncV):
            if f.qual in self.contracts and not self.verifying(f.qual):
                self.contracts_used.add(f.qual)
                self.callee = f
                return self.contracts[f.qual](self, args, kwargs)
            if f.cm:
                return CMV(f, args, kwargs)
            if isinstance(f.node, ast.AsyncFunctionDef):
                raise Unsupported("async function")
            if is_generator(f.node):
                def thunk():
                    acc = []
                    self.exec_function(f, args, kwargs, on_yield=lambda v: acc.append(v))
                    return Seq.of(acc)
                return GenV(thunk)
            return self.exec_function(f, args, kwargs)
        if isinstance(f, NativeV):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundV):
            if isinstance(f.func, ExtV) and f.func.path.startswith("builtins."):
                return self.call(f.self_, args, kwargs)
            if isinstance(f.func, str):
                return self.method(f.self_, f.func, args, kwargs)
            return self.call(f.func, Seq([One(f.self_)]) + args, kwargs)
        if isinstance(f, PartialV):
            return self.call(f.func, f.args + args, f.kwargs.plus(("merge", kwargs)) if not self.trivially_empty(kwargs) else f.kwargs)
        if isinstance(f, CMV):
            c = args.concrete()
            return CMDecorated(f, c[0])
        if isinstance(f, CMDecorated):
            box = []

            def body(_):
                box.append(self.call(f.func, args, kwargs))

            self.run_cm(f.cm, body)
            return box[0] if box else None
        if isinstance(f, DispatchV):
            q = f.func.qual
            if q in self.contracts and not self.verifying(q):
                self.contracts_used.add(q)
                return self.contracts[q](self, args, kwargs)
            return self.call_dispatch(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, Inst):
                m = self.class_attr(o.cls, "__call__") if isinstance(o.cls, ClassV) else None
                if m is not None:
                    return self.call(self.bind(m, f, o.cls), args, kwargs)
            self.throw("TypeError", "not callable")
        if is_V(f):
            return self.call_V(f, args, kwargs)
        if isinstance(f, TupleV) or f is None or isinstance(f, (int, str, float)):
            self.throw("TypeError", "not callable")
        raise Unsupported(f"call of {f!r}")

    def verifying(self, qual):
        return qual in self.target_set

    target_set = frozenset()

    def call_V(self, f, args, kwargs):
        ty = self.type_of_term(f)
        if ty is not None and isinstance(ty, ClassV):
            q = ty.qual + ".__call__"
            if q in self.contracts:
                if not self.verifying(q):
                    self.contracts_used.add(q)
                    return self.contracts[q](self, Seq([One(f)]) + args, kwargs)
        return self.opaque(f, args, kwargs)

    def force_args(self, args, kwargs):
        out = []
        for g in args.segs:
            if isinstance(g, One) and isinstance(g.v, GenV):
                out.append(One(TupleV(g.v.thunk(), ExtV("iterator"))))
            else:
                out.append(g)
        return Seq(out), kwargs

    def opaque(self, f, args, kwargs, what="call", may_raise=True):
        """A call of code we know nothing about: recorded, arbitrary outcome."""
        args, kwargs = self.force_args(args, kwargs)
        e = Event(what, f, args, kwargs, self.interp_snapshot())
        self.st.events.append(e)
        hook = self.st.ghost.get("opaque_hook")
        if hook is not None:
            r = hook(self, e)
            if r is not NotImplemented:
                return r
        if may_raise and self.st.ghost.get("opaque_raises", True):
            if self.choose("raises"):
                x = self.fresh("exc")
                self.typed(x, ExtV("builtins.BaseException"))
                # the exception may be of any class
                del self.st.types[x.get_id()]
                self.st.ghost[("isexc", x.get_id())] = True
                self.st.events[-1] = Event(what, f, args, kwargs, e.interp, ("exc", x))
                raise PyExc(x)
        r = self.fresh("ret")
        self.st.events[-1] = Event(what, f, args, kwargs, e.interp, ("ok", r))
        return r

    def interp_snapshot(self):
        rt = self.st.ghost.get("runtime")
        if rt is None:
            return None
        i = self.obj(rt).fields.get("interpretation")
        if isinstance(i, Ref) and isinstance(self.obj(i), DictObj):
            return self.obj(i).map
        return i

    def run_cm(self, cm, body):
        if isinstance(cm, CMV):
            state = {"n": 0, "pending": None}

            def on_yield(v):
                state["n"] += 1
                if state["n"] > 1:
                    raise Unsupported("context manager yields twice")
                try:
                    body(v)
                except (Ret, Brk, Cont) as s:
                    state["pending"] = s
                return None

            self.exec_function(cm.func, cm.args, cm.kwargs, on_yield=on_yield)
            if state["n"] == 0:
                self.throw("RuntimeError", "generator didn't yield")
            if state["pending"] is not None:
                raise state["pending"]
            return
        cm = self.unbox(cm)
        if isinstance(cm, Ref) and isinstance(self.obj(cm), Inst) and isinstance(self.obj(cm).cls, ClassV):
            cls = self.obj(cm).cls
            en, exi = self.class_attr(cls, "__enter__"), self.class_attr(cls, "__exit__")
            if en is not None and exi is not None:
                v = self.call(self.bind(en, cm, cls), Seq(), Map())
                try:
                    body(v)
                except PyExc as e:
                    t = self.type_value(e.val)
                    r = self.call(self.bind(exi, cm, cls), Seq.of([t, e.val, self.fresh("tb")]), Map())
                    if not self.truth(r):
                        raise
                    return
                except (Ret, Brk, Cont):
                    self.call(self.bind(exi, cm, cls), Seq.of([None, None, None]), Map())
                    raise
                self.call(self.bind(exi, cm, cls), Seq.of([None, None, None]), Map())
                return
        if isinstance(cm, NativeV):
            cm.fn(self, body)
            return
        if is_V(cm) or isinstance(cm, ExtV):
            v = self.opaque(cm, Seq(), Map(), what="enter")
            try:
                body(v)
            except PyExc as e:
                self.opaque(cm, Seq.of([e.val]), Map(), what="exit", may_raise=False)
                raise
            except (Ret, Brk, Cont):
                self.opaque(cm, Seq.of([None]), Map(), what="exit", may_raise=False)
                raise
            self.opaque(cm, Seq.of([None]), Map(), what="exit", may_raise=False)
            return
        raise Unsupported(f"with on {cm!r}")

    # ------------------------------------------------------------- dispatch
    def registry(self, d):
        """[(class value, function node)] of a singledispatch function, in registration order."""
        out = []
        for modname in sorted(self.dispatch_modules | {d.module.name}):
            mod = self.repo.module(modname)
            if mod is None:
                continue
            for base, ty, node in mod.registrations:
                if not (isinstance(base, ast.Name) and base.id == d.name):
                    continue
                tgt = None
                try:
                    tgt = self.global_value(mod, base.id)
                except Unsupported:
                    continue
                if not (isinstance(tgt, DispatchV) and tgt.module is d.module):
                    continue
                if ty is None:
                    ann = node.args.args[0].annotation
                    ty = ann
                try:
                    c = self.ev(ty, None, mod)
                except Unsupported:
                    continue
                for cc in (c.items if isinstance(c, UnionV) else [c]):
                    out.append((cc, node, mod))
        return out

    dispatch_modules = frozenset()

    def dispatch_on(self, d, cls_test, static=None):
        """Choose the most specific registration; cls_test(c) -> z3 cond that the value is a c."""
        regs = {}
        for c, node, mod in self.registry(d):
            regs[c] = (node, mod)
        order = list(regs)
        # most specific first
        all_ = list(order)
        order.sort(key=lambda c: -self.rank(c, all_))
        for c in order:
            if self.decide(cls_test(c)):
                return regs[c], c
        return None, None

    def rank(self, c, order):
        return sum(1 for x in order if x != c and self.is_sub(c, x))

    def call_dispatch(self, d, args, kwargs, force=False):
        f = d.func
        params = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        if params and params[0] == "__dispatch":
            nat = NativeV("dispatch", lambda ctx, a, k: ctx.dispatch_type(d, a.concrete()[0]), key=("dispatch", d.name))
            return self.exec_function(f, Seq([One(nat)]) + args, kwargs) if force or f.qual not in self.contracts or self.verifying(f.qual) else self.contracts[f.qual](self, args, kwargs)
        c = args.segs[0]
        if not isinstance(c, One):
            raise Unsupported("dispatch on unknown argument")
        fn = self.dispatch_type(d, self.type_value(c.v))
        return self.call(fn, args, kwargs)

    def dispatch_type(self, d, ty):
        """The implementation registered for a type value."""
        ty = self.unbox(ty)
        if isinstance(ty, (ClassV, ExtV)):
            test = lambda c: self.is_sub(ty, c)  # noqa: E731
        elif is_V(ty):
            subj = self.st.ghost.get(("typeof_subject", ty.get_id()))
            if subj is None:
                raise Unsupported("dispatch on an unknown type")
            test = lambda c: self.isinst(subj, c)  # noqa: E731
        else:
            raise Unsupported("dispatch on non-type")
        hit, c = self.dispatch_on(d, test)
        if hit is None:
            return d.func
        node, mod = hit
        cname = getattr(c, "qual", None) or getattr(c, "path", "?")
        if isinstance(node, ast.ClassDef):
            return ClassV(mod.name + "." + node.name, node, mod)
        f = FuncV(node, None, mod, f"{d.module.name}.{d.name}[{cname}]",
                  tuple(self.ev(x, None, mod) for x in node.args.defaults), {p.arg: self.ev(x, None, mod) for p, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None})
        return f

    def type_value(self, v):
        v = self.unbox(v)
        c = self.class_of(v)
        if c is not None:
            return c
        if is_V(v):
            t = typeF(v)
            self.keep.append(t)
            self.st.ghost[("typeof_subject", t.get_id())] = v
            return t
        raise Unsupported(f"type of {v!r}")

    # ------------------------------------------------------------- classes
    def class_attr(self, cls, name, raw=False):
        """Look an attribute up along the MRO; functions come back unbound."""
        if not isinstance(cls, ClassV):
            return None
        for c in self.mro(cls):
            if not isinstance(c, ClassV):
                continue
            q = c.qual + "." + name
            if q in self.overrides:
                return self.overrides[q](self)
            key = ("classattr", c.qual, name)
            if key in self.st.ghost:
                return self.st.ghost[key]
            for n in reversed(c.node.body):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    return self.make_function(n, c.env, c.module, q, c)
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return ClassV(q, n, c.module)
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return self.ev(n.value, c.env, c.module)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                    return self.ev(n.value, c.env, c.module)
        return None

    def bind(self, m, self_, cls):
        """Descriptor protocol for what class_attr returned."""
        if isinstance(m, BoundV) and isinstance(m.func, ExtV):
            if m.func.path == "builtins.property":
                return self.call(m.self_, Seq.of([self_]), Map())
            if m.func.path == "builtins.staticmethod":
                return m.self_
            if m.func.path == "builtins.classmethod":
                return BoundV(m.self_, cls)
        if isinstance(m, (FuncV, NativeV)):
            return BoundV(m, self_)
        if is_V(m) and self.type_of_term(m) is not None and getattr(self.type_of_term(m), "qual", "") == "effectful.ops.types.Operation":
            return BoundV(m, self_)
        return m

    def is_dataclass(self, cls):
        if not isinstance(cls, ClassV):
            return False
        return any((self.dec_name(d.func if isinstance(d, ast.Call) else d, None, cls.module) == "dataclasses.dataclass") for d in cls.node.decorator_list)

    def dataclass_fields(self, cls):
        out = []
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClassV) and self.is_dataclass(c):
                for n in c.node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        if "ClassVar" in ast.dump(n.annotation):
                            continue
                        out = [x for x in out if x[0] != n.target.id] + [(n.target.id, n, c)]
        return out

    def instantiate(self, cls, args, kwargs):
        q = cls.qual
        if q in self.contracts and not self.verifying(q):
            self.contracts_used.add(q)
            return self.contracts[q](self, args, kwargs)
        r = self.alloc(Inst(cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call(BoundV(init, r), args, kwargs)
            return r
        if self.is_dataclass(cls):
            fs = self.dataclass_fields(cls)
            segs = list(args.segs)
            vals = {}
            for nm, n, c in fs:
                if segs:
                    if not isinstance(segs[0], One):
                        raise Unsupported("symbolic dataclass arguments")
                    vals[nm] = segs.pop(0).v
                    continue
                v = self.map_get(kwargs, nm) if not self.trivially_empty(kwargs) else self.MISSING
                if v is self.MISSING:
                    if n.value is None:
                        self.throw("TypeError", "missing " + nm)
                    if isinstance(n.value, ast.Call) and any(k.arg == "default_factory" for k in n.value.keywords):
                        fac = self.ev([k.value for k in n.value.keywords if k.arg == "default_factory"][0], None, c.module)
                        v = self.call(fac, Seq(), Map())
                    else:
                        v = self.ev(n.value, None, c.module)
                vals[nm] = v
            if segs:
                self.throw("TypeError", "too many arguments")
            self.st.heap[r.oid] = Inst(cls, vals)
            return r
        for b in self.mro(cls):
            if isinstance(b, ExtV) and b.path not in ("builtins.object", "abc.ABC", "typing.Protocol", "typing.Generic", "collections.abc.Mapping"):
                rc = self.real_class(b)
                if rc is not None and issubclass(rc, BaseException):
                    self.st.heap[r.oid] = Inst(cls, {"args": TupleV(args)})
                    return r
                raise Unsupported(f"instantiate {cls.qual} with external base {b.path}")
        if args.segs or not self.trivially_empty(kwargs):
            self.throw("TypeError", "takes no arguments")
        return r

    # ------------------------------------------------------------- truth
    def truth(self, v):
        return self.decide(self.truth_f(v))

    def truth_f(self, v):
        v = self.unbox(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if is_boolv(v):
            return v
        if is_int(v):
            return v != 0
        if is_strv(v):
            return v != z3.StringVal("")
        if isinstance(v, TupleV):
            return self.seq_nonempty(v.seq)
        if isinstance(v, ViewV):
            return self.map_nonempty(v.map)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                return self.seq_nonempty(o.seq)
            if isinstance(o, DictObj):
                return self.map_nonempty(o.map)
            if isinstance(o, SetObj):
                if o.set.elems is not None:
                    return bool(o.set.elems)
                return o.set.arr != z3.EmptySet(V)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                b = self.class_attr(o.cls, "__bool__")
                if b is not None:
                    return self.truth_f(self.call(BoundV(b, v), Seq(), Map()))
                ln = self.class_attr(o.cls, "__len__")
                if ln is not None:
                    return self.truth_f(self.call(BoundV(ln, v), Seq(), Map()))
            return True
        if is_V(v):
            ty = self.type_of_term(v)
            if ty is not None and getattr(ty, "qual", "") == "effectful.ops.types.Operation":
                return True
            self._once(("truthnone",), lambda: z3.Not(truthyF(NONE)))
            self.box(None)
            k = ("truthint", v.get_id())
            self._once(k, lambda: z3.And(z3.Implies(kind(v) == K_BOOL, truthyF(v) == unBool(v)), z3.Implies(kind(v) == K_INT, truthyF(v) == (unInt(v) != 0)),
                                         z3.Implies(kind(v) == K_STR, truthyF(v) == (unStr(v) != z3.StringVal("")))))
            return truthyF(v)
        return True
