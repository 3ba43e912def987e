"""C01: installing handlers is strictly scoped, on every way out."""
from pyvc.harness import harness, Out
from pyvc.values import *  # noqa: F403
from pyvc.stmts import GenComp

RT = "effectful.internals.runtime."
SEM = "effectful.ops.semantics."


def body_outcomes(h, record):
    """An arbitrary body: runs user code (opaque), then ends normally, by raising or by returning."""
    e = h.e

    def body(v):
        record["yielded"] = v
        record["inside"] = e.obj(e.obj(e.st.ghost["runtime"]).fields["interpretation"]).map
        record["inside_ref"] = e.obj(e.st.ghost["runtime"]).fields["interpretation"]
        if e.choose("body_raises"):
            x = e.fresh("bodyexc")
            record["exc"] = x
            raise PyExc(x)
        if e.choose("body_returns"):
            raise Ret("sentinel")
    return body


def check_restored(h, rt, old, old_map, out, rec, what):
    e = h.e
    now = e.obj(rt).fields["interpretation"]
    h.prove(what + ": interpretation in force restored", h.same(now, old) if isinstance(now, Ref) else False)
    h.prove(what + ": previously active mapping not modified", e.obj(old).map is old_map or h.map_same(e.obj(old).map, old_map))
    if "exc" in rec:
        h.cover("raises")
        h.prove(what + ": the body's exception leaves unchanged", out.exc and h.same(out.val, rec["exc"]))
    else:
        h.cover("leaves")
        h.prove(what + ": nothing else escapes", out.ok or not out.exc)


def run_with(h, cm, rec):
    e = h.e
    try:
        e.run_cm(cm, body_outcomes(h, rec))
        return Out("ok", None)
    except Ret:
        return Out("ok", "ret")
    except PyExc as x:
        return Out("exc", x.val)


@harness("C01", "interpreter")
def interpreter(h):
    e = h.e
    h.expect_cover("raises", "leaves")
    rt = h.runtime()
    old = e.obj(rt).fields["interpretation"]
    old_map = e.obj(old).map
    f = h.fn(RT + "interpreter")
    given = h.dict("intp")
    gm = e.obj(given).map
    rec = {}
    cm = e.call(f, Seq.of([given]), Map())
    out = run_with(h, cm, rec)
    h.prove("the body runs", "yielded" in rec)
    if "yielded" in rec:
        h.prove("inside: exactly the given handlers are in force", h.map_same(rec["inside"], gm))
        h.prove("inside: a private copy is in force", rec["inside_ref"] != given and rec["inside_ref"] != old)
    h.prove("the installed mapping is not modified", e.obj(given).map is gm)
    check_restored(h, rt, old, old_map, out, rec, "interpreter")


@harness("C01", "handler")
def handler(h):
    e = h.e
    h.expect_cover("raises", "leaves")
    rt = h.runtime()
    old = e.obj(rt).fields["interpretation"]
    old_map = e.obj(old).map
    f = h.fn(SEM + "handler")
    given = h.dict("intp")
    gm = e.obj(given).map
    rec = {}
    e.st.ghost["opaque_raises"] = False
    cm = e.call(f, Seq.of([given]), Map())
    out = run_with(h, cm, rec)
    h.prove("the body runs", "yielded" in rec)
    if "yielded" in rec:
        k = h.op("k")
        v = e.map_get(rec["inside"], k)
        if e.decide(e.map_has(gm, k)):
            h.cover("handled")
            h.prove("inside: an operation of the installed set is handled", v is not e.MISSING)
        else:
            o = e.map_get(old_map, k)
            h.cover("others")
            h.prove("inside: every other operation is handled as before", (v is e.MISSING and o is e.MISSING) or (v is not e.MISSING and o is not e.MISSING and h.same(v, o)))
        h.prove("inside: neither mapping is the one in force", rec["inside_ref"] != given and rec["inside_ref"] != old)
        h.prove("handler yields the mapping it was given", h.same(rec["yielded"], given))
    h.prove("the installed mapping is not modified", e.obj(given).map is gm)
    check_restored(h, rt, old, old_map, out, rec, "handler")
