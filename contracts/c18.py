"""C18: operators and methods of symbolic arrays call the library function of that operator, with the operands in order."""
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403

T, J = "effectful.handlers.torch._TensorTerm", "effectful.handlers.jax._terms._ArrayTerm"
JNP = "effectful.handlers.jax.numpy."
#          torch functions                                  jax.numpy functions
BIN = {"add": (["add"], ["add"]), "sub": (["sub", "subtract"], ["subtract"]), "mul": (["mul", "multiply"], ["multiply"]), "truediv": (["div", "divide", "true_divide"], ["divide", "true_divide"]),
       "floordiv": (["floor_divide"], ["floor_divide"]), "mod": (["remainder"], ["mod", "remainder"]), "pow": (["pow"], ["power", "pow"]), "lshift": (["bitwise_left_shift"], ["left_shift", "bitwise_left_shift"]),
       "rshift": (["bitwise_right_shift"], ["right_shift", "bitwise_right_shift"]), "and": (["bitwise_and"], ["bitwise_and"]), "xor": (["bitwise_xor"], ["bitwise_xor"]), "or": (["bitwise_or"], ["bitwise_or"]), "matmul": (["matmul"], ["matmul"])}
CMP = {"eq": (["eq"], ["equal"]), "ne": (["ne", "not_equal"], ["not_equal"]), "lt": (["lt", "less"], ["less"]), "le": (["le", "less_equal"], ["less_equal"]), "gt": (["gt", "greater"], ["greater"]), "ge": (["ge", "greater_equal"], ["greater_equal"])}
UN = {"neg": (["neg", "negative"], ["negative"]), "pos": (["positive"], ["positive"]), "abs": (["abs", "absolute"], ["abs", "absolute"]), "invert": (["bitwise_not"], ["bitwise_not", "invert", "bitwise_invert"])}
# positional parameters of the jax.numpy functions (assumed contract of the library)
SIG = {"all": "a axis out keepdims", "any": "a axis out keepdims", "argmax": "a axis out keepdims", "argmin": "a axis out keepdims", "argpartition": "a kth axis", "argsort": "a axis", "astype": "x dtype", "choose": "a choices out mode", "clip": "arr min max",
       "compress": "condition a axis", "conj": "x", "conjugate": "x", "copy": "a order", "cumprod": "a axis dtype out", "cumsum": "a axis dtype out", "diagonal": "a offset axis1 axis2", "dot": "a b", "max": "a axis out keepdims initial where",
       "mean": "a axis dtype out keepdims", "min": "a axis out keepdims initial where", "nonzero": "a", "prod": "a axis dtype out keepdims initial where promote_integers", "ptp": "a axis out keepdims", "ravel": "a order", "repeat": "a repeats axis", "round": "a decimals out",
       "searchsorted": "a v side sorter", "sort": "a axis", "squeeze": "a axis", "std": "a axis dtype out ddof keepdims", "sum": "a axis dtype out keepdims initial where promote_integers", "swapaxes": "a axis1 axis2", "take": "a indices axis out mode unique_indices indices_are_sorted fill_value",
       "trace": "a offset axis1 axis2 dtype out", "var": "a axis dtype out ddof keepdims", "shape": "a", "size": "a axis", "ndim": "a", "transpose": "a axes", "reshape": "a shape order"}
ARRAY = {"compress": "a"}


def term(h, q):
    e = h.e
    names = {f for d in (BIN, CMP, UN) for _, fs in d.values() for f in fs} | set(SIG)
    for f in names:
        e.overrides[JNP + f] = lambda ctx, f=f: ctx.make_op("jnp." + f, None)
    h.note("effectful.handlers.jax.numpy.NAME is the operation registered for jax.numpy.NAME (checked when run, not proved)")
    h.note("torch functions reach the operation through torch's own __torch_function__ protocol (assumed)")
    cls = h.fn(q)
    self_ = e.alloc(Inst(cls, {"_op": h.op("op"), "_args": TupleV(h.args()), "_kwargs": h.dict("kw")}))
    return cls, self_


def is_fn(h, f, names, lib):
    e = h.e
    if lib == "torch":
        return isinstance(f, ExtV) and f.path in [p + n for n in names for p in ("torch.", "torch.Tensor.")]
    return any(e.decide(h.same(f, e.make_op("jnp." + n, None))) for n in names)


def operator(q, lib, meth, names, order):
    def f(h):
        e = h.e
        cls, self_ = term(h, q)
        other = h.val("other")
        m = e.class_attr(cls, meth)
        h.prove("it is defined", isinstance(m, FuncV))
        if not isinstance(m, FuncV):
            return
        out = h.call(m, self_, *([other] if order else []))
        evs = h.events()
        h.prove("one function is called", len(evs) == 1)
        if len(evs) != 1:
            return
        h.prove("the function of this operator", is_fn(h, evs[0].f, names, lib))
        a = evs[0].args.concrete()
        want = [self_, other] if order == 1 else [other, self_] if order == 2 else [self_]
        h.prove("with the operands in order", a is not None and len(a) == len(want) and all(e.decide(h.same(x, y)) for x, y in zip(a, want)) and e.trivially_empty(evs[0].kwargs))
        h.prove("its result, or what it raises, is the result", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)
    return f


for _q, _lib, _k in ((T, "torch", 0), (J, "jax", 1)):
    for _n, _f in BIN.items():
        harness("C18", f"{_lib} __{_n}__")(operator(_q, _lib, f"__{_n}__", _f[_k], 1))
        harness("C18", f"{_lib} __r{_n}__")(operator(_q, _lib, f"__r{_n}__", _f[_k], 2))
    for _n, _f in CMP.items():
        harness("C18", f"{_lib} __{_n}__")(operator(_q, _lib, f"__{_n}__", _f[_k], 1))
    for _n, _f in UN.items():
        harness("C18", f"{_lib} __{_n}__")(operator(_q, _lib, f"__{_n}__", _f[_k], 0))


def check_call(h, out, name, self_, given):
    """One call of jnp.name, whose parameters are given: {parameter: value}."""
    e = h.e
    evs = h.events()
    h.prove("one function is called", len(evs) == 1)
    if len(evs) != 1:
        return
    ev = evs[0]
    h.prove("the array function of this name", is_fn(h, ev.f, [name], "jax"))
    pos = SIG[name].split()
    a = ev.args.concrete()
    h.prove("with a fixed number of positional arguments", a is not None and len(a) <= len(pos))
    if a is None or len(a) > len(pos):
        return
    got = dict(zip(pos, a))
    kws = {ly[1]: ly[2] for ly in ev.kwargs.layers}
    h.prove("no parameter twice", not set(got) & set(kws))
    got.update(kws)
    arr = ARRAY.get(name, pos[0])
    h.prove("on the array itself", arr in got and h.same(got[arr], self_))
    for p, v in given.items():
        h.prove(f"with {p} as given", p in got and h.deep_same(got[p], v))
    h.prove("and nothing else", set(got) <= {arr} | set(given))
    h.prove("its result, or what it raises, is the result", h.same(out.val, ev.out[1]) if out.ok == (ev.out[0] == "ok") else False)


def method(name):
    def f(h):
        e = h.e
        cls, self_ = term(h, J)
        m = e.class_attr(cls, name)
        prop = isinstance(m, BoundV)
        if prop:
            m = m.self_
        h.prove("it is defined", isinstance(m, FuncV))
        a = m.node.args
        ps = [p.arg for p in a.posonlyargs + a.args][1:] + [p.arg for p in a.kwonlyargs]
        given = {p: h.val(p) for p in ps}
        npos = len(a.posonlyargs + a.args) - 1
        out = h.callx(m, Seq.of([self_] + [given[p] for p in ps[:npos]]), Map(None, [("store", p, given[p]) for p in ps[npos:]]))
        check_call(h, out, {"T": "transpose"}.get(name, name), self_, given)
    return f


for _n in list(SIG) + ["T"]:
    if _n not in ("reshape", "transpose"):
        harness("C18", f"jax .{_n}")(method(_n))


@harness("C18", "jax .reshape")
def reshape(h):
    e = h.e
    h.expect_cover("one shape", "sizes")
    cls, self_ = term(h, J)
    order = h.val("order")
    if e.choose("one"):
        h.cover("one shape")
        shape = TupleV(h.args("shape"))
        out = h.callx(e.class_attr(cls, "reshape"), Seq.of([self_, shape]), Map(None, [("store", "order", order)]))
    else:
        h.cover("sizes")
        sizes = h.args("sizes")
        if e.decide(e.seq_len(sizes) == 1):
            h.assume(znot_container(h, e.seq_at(sizes, 0)))
        shape = TupleV(sizes)
        out = h.callx(e.class_attr(cls, "reshape"), Seq([One(self_)]) + sizes, Map(None, [("store", "order", order)]))
    check_call(h, out, "reshape", self_, {"shape": shape, "order": order})


def znot_container(h, v):
    from pyvc.engine import znot
    e = h.e
    return znot(e.isinst(v, ExtV("builtins.tuple"))) if e.decide(znot(e.isinst(v, ExtV("builtins.list")))) else False


@harness("C18", "jax .transpose")
def transpose(h):
    e = h.e
    h.expect_cover("axes", "one tuple", "none")
    cls, self_ = term(h, J)
    m = e.class_attr(cls, "transpose")
    if e.choose("none"):
        h.cover("none")
        axes = h.val("axes")
        out = h.callx(m, Seq.of([self_]), Map(None, [("store", "axes", axes)]))
    elif e.choose("tuple"):
        h.cover("one tuple")
        axes = TupleV(h.args("axes")) if e.choose("some") else None
        out = h.callx(m, Seq.of([self_, axes]), Map())
    else:
        h.cover("axes")
        s = h.args("axes")
        h.assume(e.seq_len(s) > 0)
        if e.decide(e.seq_len(s) == 1):
            h.assume(znot_container(h, e.seq_at(s, 0)))
            h.assume(e.seq_at(s, 0) != e.box(None))
        axes = TupleV(s)
        out = h.callx(m, Seq([One(self_)]) + s, Map())
    check_call(h, out, "transpose", self_, {"axes": axes})


@harness("C18", "torch getitem")
def torch_getitem(h):
    getitem(h, T, "effectful.handlers.torch.torch_getitem")


@harness("C18", "jax getitem")
def jax_getitem(h):
    getitem(h, J, "effectful.handlers.jax._handlers.jax_getitem")


def getitem(h, q, qop):
    e = h.e
    h.expect_cover("tuple", "single")
    e.overrides[qop] = lambda ctx: ctx.make_op(qop, None)
    cls, self_ = term(h, q)
    if e.choose("tuple"):
        h.cover("tuple")
        key = want = TupleV(h.args("key"))
    else:
        h.cover("single")
        key = h.val("key")
        from pyvc.engine import znot
        h.assume(znot(e.isinst(key, ExtV("builtins.tuple"))))
        want = tup(key)
    out = h.call(e.class_attr(cls, "__getitem__"), self_, key)
    evs = h.events()
    h.prove("one operation is called", len(evs) == 1 and h.same(evs[0].f, e.make_op(qop, None)))
    if len(evs) == 1:
        a = evs[0].args.concrete()
        h.prove("on the array", a is not None and len(a) == 2 and h.same(a[0], self_))
        h.prove("with the indices as a tuple", a is not None and len(a) == 2 and h.deep_same(a[1], want))
        h.prove("its result, or what it raises, is the result", h.same(out.val, evs[0].out[1]) if out.ok == (evs[0].out[0] == "ok") else False)


for _q, _lib in ((T, "torch"), (J, "jax")):
    def _iter(h, q=_q):
        cls, self_ = term(h, q)
        out = h.call(h.e.class_attr(cls, "__iter__"), self_)
        h.prove("iterating over a free array is refused", out.exc and isinstance(out.val, Ref) and h.e.obj(out.val).cls == ExtV("builtins.TypeError") and len(h.events()) == 0)
    harness("C18", f"{_lib} __iter__")(_iter)
