"""C29: what one thread does is invisible to every other.

Contract of threading.local (assumed): each thread has its own attributes of such an object, set up by running its
constructor with the arguments it was first given; so an attribute that is read or written is the running thread's, and
the *objects* the constructor was given are shared by all threads.  What is proved is the guarantee every step must
give the other threads: nothing that existed before it - the mappings other threads have in force, the mapping a new
thread starts with, what is being installed, module-level state - is ever written, not even for a moment; only the
running thread's own attribute is."""
from pyvc.engine import znot
from pyvc.harness import harness
from pyvc.values import *  # noqa: F403
from contracts.c01 import RT, SEM, run_with
from contracts.c02 import zor_same

T = "effectful.ops.types.Operation."
LOCAL = "threading.local: every thread has its own attributes of the object, initialised with the arguments it was constructed with"


class Watched(dict):
    """The heap, remembering every object that is written after it was made."""

    def __init__(self, d, written):
        dict.__init__(self, d)
        self.written = written

    def __setitem__(self, oid, o):
        if oid in self and self[oid] is not None:
            self.written.append((oid, self[oid], o))
        dict.__setitem__(self, oid, o)

    def copy(self):
        return Watched(self, self.written)


class Two:
    """The running thread, and another one that shares the object it started from."""

    def __init__(self, h, aliased=False, distinct=False):
        self.h, e = h, h.e
        h.note(LOCAL)
        shared = h.dict("start")
        mine = shared if aliased or not distinct and e.choose("nothing installed yet") else h.dict("mine")
        self.rt = h.runtime(mine)
        theirs = shared if aliased or not distinct and e.choose("the other thread has nothing installed") else h.dict("theirs")
        if not aliased and not distinct and e.choose("a shared set of handlers is in force in both"):
            theirs = mine
        self.other = e.alloc(Inst(e.obj(self.rt).cls, {"interpretation": theirs}))
        self.shared, self.mine, self.theirs = shared, mine, theirs
        self.maps = [(d, e.obj(d).map) for d in (shared, mine, theirs)]

    def watch(self, *more):
        e = self.h.e
        self.maps += [(d, e.obj(d).map) for d in more]
        self.written = []
        self.mark = e.st.next_oid
        self.nev = len(e.st.events)
        e.st.heap = Watched(e.st.heap, self.written)

    def check(self, what):
        h, e = self.h, self.h.e
        globs = {v.oid for v in e.st.globals.values() if isinstance(v, Ref)}
        bad = [o for o, was, now in self.written if (o < self.mark or o in globs) and o != self.rt.oid and not isinstance(was, dict)]
        h.prove(what + ": no object other threads can reach is ever written", not bad)
        h.prove(what + ": of the runtime only the interpretation is written", all(set(now.fields) == set(was.fields) for o, was, now in self.written if o == self.rt.oid))
        h.prove(what + ": no attribute of a shared object is set", not [v for v in e.st.events[self.nev:] if v.what == "setattr"])
        h.prove(what + ": the mappings in force elsewhere have the same contents", all(e.obj(d).map is m for d, m in self.maps))
        now = e.obj(self.other).fields["interpretation"]
        h.prove(what + ": the other thread's interpretation is its own", isinstance(now, Ref) and now == self.theirs)


def entering(name, qual, prep=None):
    def run(h):
        e = h.e
        h.expect_cover("inside", "left")
        two = Two(h, e.choose("everything shared"), True) if qual == SEM + "handler" else Two(h)
        f = h.fn(qual)
        given = two.theirs if e.choose("installing what the other thread has in force") else h.dict("given")
        two.watch(given)
        e.st.ghost["opaque_raises"] = False
        rec = {}
        inner = e.choose("nested")

        cm = e.call(f, Seq.of([given]), Map())

        def body(v):
            h.cover("inside")
            two.check("inside")
            if inner:
                cm2 = e.call(f, Seq.of([two.mine]), Map())

                def deeper(w):
                    two.check("inside a nested one")
                e.run_cm(cm2, deeper)
                two.check("after a nested one")
            if e.choose("raises"):
                rec["exc"] = e.fresh("bodyexc")
                raise PyExc(rec["exc"])
        try:
            e.run_cm(cm, body)
        except PyExc:
            pass
        h.cover("left")
        two.check("left")
        now = e.obj(two.rt).fields["interpretation"]
        h.prove("left: the running thread has back what it had", isinstance(now, Ref) and now == two.mine)
    return run


harness("C29", "installing an interpretation")(entering("interpreter", RT + "interpreter"))
harness("C29", "installing handlers")(entering("handler", SEM + "handler"))


@harness("C29", "a thread of its own")
def start(h):
    """The runtime is a thread-local object, and a thread starts with nothing installed."""
    e = h.e
    h.note(LOCAL)
    h.note("functools.lru_cache: the runtime is made once")
    e.contracts.pop(RT + "get_runtime", None)
    made = []

    def construct(ctx, a, k):
        made.append((a, k))
        return ctx.alloc(Inst(ctx.resolve(RT + "Runtime"), {}))
    cls = h.fn(RT + "Runtime")
    h.prove("the runtime is thread-local", ExtV("threading.local") in e.mro(cls))
    h.prove("what a thread has installed is no attribute of the class", e.class_attr(cls, "interpretation") is None)
    h.prove("nor shared through slots", e.class_attr(cls, "__slots__") is None and not any(
        k.arg == "slots" and getattr(k.value, "value", None) is not False for d in cls.node.decorator_list for k in getattr(d, "keywords", [])))
    e.contracts[RT + "Runtime"] = construct
    out = h.callx(h.fn(RT + "get_runtime"), Seq(), Map())
    h.prove("there is a runtime", out.ok and len(made) == 1 and isinstance(out.val, Ref) and e.obj(out.val).cls.qual == RT + "Runtime")
    if len(made) == 1:
        a, k = made[0]
        v = e.map_get(k, "interpretation") if a.concrete() == [] else a.concrete()[0]
        h.prove("a thread starts with nothing installed", isinstance(v, Ref) and isinstance(e.obj(v), DictObj) and not e.decide(e.map_nonempty(e.obj(v).map)))


@harness("C29", "which runtime is read")
def reads(h):
    e = h.e
    two = Two(h)
    two.watch()
    out = h.callx(h.fn(RT + "get_interpretation"), Seq(), Map())
    h.prove("the interpretation in force is the running thread's", out.ok and isinstance(out.val, Ref) and out.val == two.mine)
    two.check("reading")


@harness("C29", "calling an operation")
def calling(h):
    e = h.e
    h.expect_cover("handled", "unhandled")
    h.target(T + "__call__")
    two = Two(h)
    op, args, kwargs = h.op("self"), h.args(), h.kwargs(reserved=("self", "op"))
    f = h.fn(T + "__call__")
    m = e.obj(two.mine).map
    two.watch()
    h.callx(f, Seq.of([op]) + args, kwargs)
    h.cover("handled" if e.decide(e.map_has(m, op)) else "unhandled")
    two.check("called")


@harness("C29", "composing", budget=120.0)
def composing(h):
    """Composing handlers, and running what comes of it."""
    e = h.e
    h.expect_cover("run")
    two = Two(h, aliased=True)
    left, right = two.mine, h.dict("right")
    fwd, ga = e.resolve(SEM + "fwd"), e.resolve(RT + "_get_args")
    k = h.op("k")
    h.assume(znot(zor_same(h, k, [fwd, ga])))
    f = h.fn(SEM + "coproduct")
    two.watch(right)
    out = h.call(f, left, right)
    two.check("composed")
    if not out.ok:
        return
    v = e.map_get(e.obj(out.val).map, k)
    if v is not e.MISSING and not e.decide(e.same(v, None)):
        h.cover("run")
        h.callx(v, h.args(), h.kwargs(reserved=("self", "op")))
        two.check("run")


@harness("C29", "evaluating under an interpretation")
def evaluating(h):
    e = h.e
    h.expect_cover("evaluated")
    two = Two(h)
    given = two.theirs if e.choose("the other thread's") else h.dict("given")
    x = h.val("expr")
    two.watch(given)
    d = h.fn(SEM + "evaluate")

    def ev(ctx, args, kwargs):
        if not ctx.st.ghost.get("outer"):
            ctx.st.ghost["outer"] = True
            return ctx.call_dispatch(d, args, kwargs, True)
        two.check("evaluating")
        return ctx.opaque(ExtV("evaluate"), args, kwargs)
    e.contracts[SEM + "evaluate"] = ev
    h.callx(d, Seq.of([x]), Map(None, [("store", "intp", given)]))
    h.cover("evaluated")
    two.check("evaluated")


@harness("C29", "letting a continuation be forwarded to")
def prompting(h):
    """_set_prompt, and the saved and restored arguments: what they install is seen by the running thread only."""
    e = h.e
    h.expect_cover("ran")
    two = Two(h, aliased=True)
    which = "prompt" if e.choose("prompt") else "save" if e.choose("save") else "restore"
    f = h.val("continuation")
    if which == "prompt":
        g = h.callx(h.fn(RT + "_set_prompt"), Seq.of([h.op("prompt"), f, h.val("body")]), Map())
    else:
        g = h.callx(h.fn(RT + ("_save_args" if which == "save" else "_restore_args")), Seq.of([f]), Map())
    if not g.ok:
        return
    two.watch()
    h.callx(g.val, h.args(), h.kwargs(reserved=("self", "op")))
    h.cover("ran")
    two.check("forwarding")
