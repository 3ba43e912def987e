from rt.core import *  # noqa: F403
from rt.c18 import run
import dataclasses
import datetime
import decimal
import enum
import json
import math
import typing
import uuid

E = "effectful.handlers.llm.encoding."


class Colour(enum.Enum):
    RED = "red"
    BLUE = 2


UserId = typing.NewType("UserId", int)


def enc(ty):
    import pydantic
    from effectful.handlers.llm.encoding import Encodable
    return pydantic.TypeAdapter(Encodable[ty])


def text(ty, v):
    return json.dumps(enc(ty).dump_python(v, mode="json", context={}))


def same(a, b, what):
    from PIL import Image
    if isinstance(b, Image.Image):
        require(isinstance(a, Image.Image) and a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes(), f"{what}: the image")
        return
    require(type(a) is type(b), f"{what}: {a!r} is a {type(a).__name__}, not a {type(b).__name__}")
    if isinstance(b, (list, tuple)):
        require(len(a) == len(b), f"{what}: {a!r} for {b!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    elif isinstance(b, dict):
        eq(list(a), list(b), f"{what}: keys")
        for k in b:
            same(a[k], b[k], f"{what}[{k!r}]")
    elif dataclasses.is_dataclass(b):
        for f in dataclasses.fields(b):
            same(getattr(a, f.name), getattr(b, f.name), f"{what}.{f.name}")
    elif isinstance(b, float):
        require(a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b), f"{what}: {a!r} for {b!r}")
    elif isinstance(b, complex):
        same(a.real, b.real, what + ".real")
        same(a.imag, b.imag, what + ".imag")
    else:
        require(a == b, f"{what}: {a!r} for {b!r}")


FLOATS = [0., -0., 1.5, -2.25, 1e300, 5e-324, 3., 1 / 3]
STRS = ["", "a", "é\u2028", '"\\', "{x}", "null", "1", "[1]", " s ", "image_url", "text"]


class G:
    """A random type with a way to draw its values: gen(d) -> (type, draw, hashable, kind)."""

    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def name(self):
        self.n += 1
        return f"T{self.n}x{self.rng.randrange(10**6)}"

    def atom(self, hashable=False):
        r = self.rng
        opts = [
            (int, lambda: r.choice([0, 1, -1, 2**70, -(2**63), 7])), (float, lambda: r.choice(FLOATS)), (bool, lambda: r.random() < .5), (str, lambda: r.choice(STRS)),
            (complex, lambda: complex(r.choice(FLOATS) + 0., r.choice(FLOATS) + 0.)), (complex, lambda: complex(r.choice(FLOATS) + 0., r.choice(FLOATS) + 0.)),
            (type(None), lambda: None), (Colour, lambda: r.choice(list(Colour))), (typing.Literal["a", 3, None], lambda: r.choice(["a", 3, None])),
            (datetime.date, lambda: datetime.date(2020, r.randint(1, 12), r.randint(1, 28))), (datetime.datetime, lambda: datetime.datetime(2020, 1, r.randint(1, 28), 3, 4, 5, r.randint(0, 999999))),
            (datetime.timedelta, lambda: datetime.timedelta(seconds=r.randint(-10**6, 10**6), microseconds=r.randint(0, 999999))),
            (decimal.Decimal, lambda: decimal.Decimal(r.choice(["0.10", "-3", "1E+5"]))), (uuid.UUID, lambda: uuid.UUID(int=r.randrange(2**128))), (bytes, lambda: r.choice([b"", b"abc", "é".encode()])), (UserId, lambda: r.randint(0, 5)),
        ]
        ty, f = r.choice(opts)
        return ty, f

    def image(self):
        from PIL import Image
        r = self.rng
        mode = r.choice(["RGB", "RGBA", "L", "1"])
        size = (r.randint(1, 4), r.randint(1, 4))

        def f():
            im = Image.new(mode, size)
            for x in range(size[0]):
                for y in range(size[1]):
                    im.putpixel((x, y), r.randrange(256) if mode in ("L",) else r.choice([0, 255]) if mode == "1" else tuple(r.randrange(256) for _ in mode))
            return im
        return Image.Image, f

    def gen(self, d, hashable=False, image=True):
        r = self.rng
        if d <= 0 or r.random() < .15:
            if image and not hashable and r.random() < .12:
                return self.image()
            return self.atom(hashable)
        k = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12])
        if hashable:
            k = r.choice([2, 3, 7])
        if k == 0:
            t, f = self.gen(d - 1, False, image)
            return list[t], lambda: [f() for _ in range(r.randint(0, 3))]
        if k in (1, 2, 4):
            parts = [self.gen(d - 1, hashable, image) for _ in range(r.randint(0, 3))]
            if not parts:
                return tuple[()], lambda: ()
            return tuple[tuple(t for t, _ in parts)], lambda: tuple(f() for _, f in parts)
        if k == 3:
            t, f = self.gen(d - 1, hashable, image)
            return tuple[t, ...], lambda: tuple(f() for _ in range(r.randint(0, 3)))
        if k == 5:
            t, f = self.gen(d - 1, False, image)
            kt, ks = r.choice([(str, STRS), (int, [0, 1, -5])])
            return dict[kt, t], lambda: {x: f() for x in r.sample(ks, r.randint(0, 3))}
        if k in (7, 8):
            parts = [self.gen(d - 1, hashable, image) for _ in range(r.randint(1, 3))]
            nt = typing.NamedTuple(self.name(), [(n, t) for n, (t, _) in zip(["first", "second", "item_0"], parts)])
            return nt, lambda: nt(*[f() for _, f in parts])
        if k == 9:
            parts = [self.gen(d - 1, hashable, False) for _ in range(r.randint(1, 3))]
            dc = dataclasses.make_dataclass(self.name(), [(n, t) for n, (t, _) in zip(["type", "name", "x"], parts)])
            return dc, lambda: dc(*[f() for _, f in parts])
        if k == 10:
            t, f = self.gen(d - 1, hashable, image)
            return typing.Optional[t], lambda: None if r.random() < .3 else f()
        if k == 11:
            t, f = self.gen(d - 1, hashable, image)
            return typing.Annotated[t, "note", "other"], f
        t, f = self.gen(d - 1, False, False)
        td = typing.TypedDict(self.name(), {"k": t, "z": int})
        return td, lambda: {"k": f(), "z": 3}


def draw_type(rng, d, image=True):
    g = G(rng)
    return g.gen(d, image=image)


@contract("C26", "round trip", [E + "TypeToPydanticType.evaluate", E + "_pydantic_type_tuple", E + "_pydantic_type_complex", E + "_pydantic_type_image"],
          "random nested types (numbers, complex, text, enums, literals, dates, images, lists, tuples, named tuples, dataclasses, typed dicts, optionals, annotated) and values: encoding, its JSON text, and decoding give an equal value of the same type; also boxed in a response; encoding twice gives the same text; non-trivial: a container", "types of depth at most 3, up to 3 elements per container")
def round_trip(t):
    import pydantic
    from effectful.handlers.llm.encoding import Encodable

    def one(rng):
        ty, f = draw_type(rng, rng.randint(0, 3))
        v = f()
        s = text(ty, v)
        what = f"{ty} {v!r} as {s[:200]}"
        same(enc(ty).validate_python(json.loads(s), context={}), v, what)
        eq(text(ty, v), s, "encoding again: " + what)
        box = pydantic.create_model("Box", value=Encodable[ty])
        b = json.dumps({"value": json.loads(s)})
        same(box.model_validate(json.loads(b), context={}).value, v, "boxed " + what)
        same(enc(ty).validate_python(enc(ty).dump_python(enc(ty).validate_python(json.loads(s), context={}), mode="json", context={}), context={}), v, "twice: " + what)
        return None if typing.get_origin(ty) or hasattr(ty, "__annotations__") else "trivial"
    for k, rng in t.each(t.n(250, 5000)):
        yield k, (lambda rng=rng: one(rng))

    def sets(rng):
        a = rng.choice([(int, [0, 1, -4]), (str, STRS), (float, [.5, 2.]), (complex, [1j, 2 + 1j, 0j]), (tuple[int, str], [(1, "a"), (2, ""), (1, "b")]), (Colour, list(Colour))])
        c = rng.choice([set, frozenset])
        v = c(rng.sample(a[1], rng.randint(0, len(a[1]))))
        same(enc(c[a[0]]).validate_python(json.loads(text(c[a[0]], v)), context={}), v, f"{c[a[0]]} {v!r}")
    for k, rng in t.each(t.n(40, 400), "set"):
        yield k, (lambda rng=rng: sets(rng))


def spoil(rng, ty, f):
    """(payload, what) which is no encoding of the type, or None."""
    g = json.loads(text(ty, f()))
    o = typing.get_origin(ty)
    if o is typing.Annotated:
        return spoil(rng, typing.get_args(ty)[0], f)
    if ty is complex:
        return rng.choice([({"real": 1.}, "no imag"), ({"imag": 1.}, "no real"), ("x", "text"), (None, "null"), ({"real": "x", "imag": 1.}, "text for real"), ([1., 2.], "a list"), ({"real": None, "imag": 1.}, "null for real")])
    gone = None
    if o is tuple and not (len(typing.get_args(ty)) == 2 and typing.get_args(ty)[1] is Ellipsis):
        n = len(typing.get_args(ty))
        opts = [({**g, f"item_{n}": 1}, "an extra item"), ({**g, "other": 1}, "an extra key"), (list(g.values()) + [1], "a list too long"), (None, "null"), (5, "a number"), ("x" * n, "text")]
        if n:
            gone = rng.randrange(n)
            opts += [({k: v for k, v in g.items() if k != f"item_{gone}"}, "a missing item"), (list(g.values())[:-1], "a list too short")]
        return rng.choice(opts)
    if isinstance(ty, type) and issubclass(ty, tuple) and hasattr(ty, "_fields"):
        gone = rng.choice(ty._fields)
        return rng.choice([({**g, "more": 1}, "an extra field"), ({k: v for k, v in g.items() if k != gone}, "a missing field"), (list(g.values()) + [1], "a list too long"), (list(g.values())[:-1], "a list too short"), (None, "null"), (7, "a number"), ({}, "nothing"), ("x" * len(ty._fields), "text")])
    if dataclasses.is_dataclass(ty):
        gone = rng.choice([q.name for q in dataclasses.fields(ty)])
        return rng.choice([({k: v for k, v in g.items() if k != gone}, "a missing field"), (None, "null"), (7, "a number")])
    if ty in (int, float, bool):
        return rng.choice([("x", "text"), (None, "null"), ([], "a list"), ({}, "an object")])
    if ty is str:
        return rng.choice([(1, "a number"), (None, "null"), ([], "a list")])
    if o is list:
        return rng.choice([(5, "a number"), (None, "null"), ("ab", "text")])
    if o is dict:
        return rng.choice([(5, "a number"), (None, "null"), ([1], "a list")])
    from PIL import Image
    if ty is Image.Image:
        import base64
        url = g["image_url"]["url"]
        raw = base64.b64decode(url.split(",")[1])
        cut = base64.b64encode(raw[:len(raw) - 24]).decode()
        return rng.choice([({**g, "image_url": {"url": "data:image/png;base64,QUJD", "detail": "auto"}}, "no image data"), ({**g, "image_url": {"url": "data:image/png;base64," + cut, "detail": "auto"}}, "half an image"), ({**g, "image_url": {"url": "data:image/png;base64,Q", "detail": "auto"}}, "bad base64"), ({"type": "text", "text": "x"}, "text"), (None, "null"), ({"type": "image_url", "image_url": {"url": "http://x/y.png", "detail": "auto"}}, "a link"), ({"type": "image_url"}, "no image"), ({"type": "image_url", "image_url": {"url": "data:text/plain;base64,QUJD", "detail": "auto"}}, "a text file"), ({"type": "image_url", "image_url": {"url": "nothing", "detail": "auto"}}, "no data")])
    return None


@contract("C26", "malformed payloads", [E + "_pydantic_type_tuple", E + "_pydantic_type_complex", E + "_validate_image"],
          "encodings of random types spoiled (items missing or too many, wrong kinds, extra keys), alone or inside a list, dictionary, tuple, dataclass or response: rejected with a validation error", "types of depth at most 2")
def malformed(t):
    import pydantic
    from effectful.handlers.llm.encoding import Encodable

    def one(rng):
        ty, f = draw_type(rng, rng.randint(0, 2))
        bad = spoil(rng, ty, f)
        if bad is None:
            raise Skip
        bad, why = bad
        k = rng.randrange(6)
        if k == 0:
            ty, bad = list[ty], [json.loads(text(ty, f())), bad]
        elif k == 1:
            ty, bad = dict[str, ty], {"k": bad}
        elif k == 2:
            ty, bad = tuple[int, ty], {"item_0": 3, "item_1": bad}
        elif k == 3:
            nt = typing.NamedTuple("NT", [("a", ty), ("b", int)])
            ty, bad = nt, {"a": bad, "b": 1}
        elif k == 4:
            box = pydantic.create_model("Box", value=Encodable[ty])
            try:
                got = box.model_validate({"value": bad}, context={})
            except pydantic.ValidationError:
                return
            raise Bad(f"{ty}: {why} {bad!r} is decoded as {got.value!r} in a response")
        try:
            got = enc(ty).validate_python(bad, context={})
        except pydantic.ValidationError:
            return
        except Exception as e:
            raise Bad(f"{ty}: {why} {bad!r} is rejected with {type(e).__name__}, not as invalid")
        raise Bad(f"{ty}: {why} {bad!r} is decoded as {got!r}")
    for k, rng in t.each(t.n(250, 5000)):
        yield k, (lambda rng=rng: one(rng))

    def cut(rng):
        """Image data that cannot be read to its end is no image; what can be is that image."""
        import base64
        import io
        from PIL import Image
        n = rng.choice([1, 3, 16])
        im = Image.frombytes("RGB", (n, n), bytes(rng.randrange(256) for _ in range(3 * n * n)))
        g = enc(Image.Image).dump_python(im, mode="json", context={})
        raw = base64.b64decode(g["image_url"]["url"].split(",")[1])
        for keep in [len(raw)] + [rng.randint(0, len(raw)) for _ in range(4)]:
            data = raw[:keep]

            def read(data=data):
                q = Image.open(io.BytesIO(data))
                q.load()
                return q.mode, q.size, q.tobytes()
            want = run(read)
            payload = {**g, "image_url": {**g["image_url"], "url": "data:image/png;base64," + base64.b64encode(data).decode()}}

            try:
                q = enc(Image.Image).validate_python(payload, context={})
            except pydantic.ValidationError:
                require(want[0] == "exc", f"an image of which {keep} of {len(raw)} bytes are enough is rejected")
                continue
            require(want[0] == "ok", f"{keep} of {len(raw)} bytes of an image are decoded as {q}")
            eq((q.mode, q.size, q.tobytes()), want[1], "the image")
    for k, rng in t.each(t.n(10, 100), "cut"):
        yield k, (lambda rng=rng: cut(rng))

    def constrained():
        for ty, good, bad in ((typing.Annotated[int, pydantic.Field(ge=0)], 3, -1), (typing.Annotated[str, pydantic.Field(max_length=2)], "ab", "abc"), (typing.Annotated[int, pydantic.Field(ge=0), pydantic.Field(le=9)], 3, 10), (list[typing.Annotated[int, pydantic.Field(ge=0)]], [0], [1, -1]), (tuple[typing.Annotated[int, pydantic.Field(ge=0)], int], {"item_0": 0, "item_1": -1}, {"item_0": -1, "item_1": -1})):
            require(run(lambda: enc(ty).validate_python(good, context={}))[0] == "ok", f"{good!r} is in {ty}")
            eq(run(lambda: enc(ty).validate_python(bad, context={})), ("exc", "ValidationError"), f"{bad!r} is not in {ty}")
    yield "constrained", constrained


@contract("C26", "schemas", [E + "_pydantic_type_tuple", E + "_inline_refs"],
          "the JSON schema of a random type: no reference without a definition; the encoding of a value has exactly the keys it lists (fixed tuples, named tuples, complex)", "types of depth at most 3")
def schemas(t):
    def refs(s, defs):
        if isinstance(s, dict):
            if "$ref" in s:
                require(s["$ref"].split("/")[-1] in defs, f"the reference {s['$ref']} has a definition")
            for v in s.values():
                refs(v, defs)
        elif isinstance(s, list):
            for v in s:
                refs(v, defs)

    def conforms(s, v, defs, what):
        require(all(x is not None for k, x in s.items() if k not in ("default", "const")), f"{what}: the schema {s}")
        if "$ref" in s:
            return conforms(defs[s["$ref"].split("/")[-1]], v, defs, what)
        if s.get("type") == "object" and "properties" in s:
            require(isinstance(v, dict), f"{what}: {v!r} is no object")
            require(set(s.get("required", [])) <= set(v) and set(v) <= set(s["properties"]), f"{what}: keys {list(v)} for {list(s['properties'])}")
            for k in v:
                conforms(s["properties"][k], v[k], defs, f"{what}.{k}")
        elif s.get("type") == "array":
            require(isinstance(v, list), f"{what}: {v!r} is no array")
            for x in v:
                if isinstance(s.get("items"), dict):
                    conforms(s["items"], x, defs, what + "[]")
        elif s.get("type") in ("integer", "string", "boolean", "null"):
            require(type(v) is {"integer": int, "string": str, "boolean": bool, "null": type(None)}[s["type"]], f"{what}: {v!r} is no {s['type']}")

    def one(rng):
        ty, f = draw_type(rng, rng.randint(1, 3))
        s = enc(ty).json_schema()
        refs(s, s.get("$defs", {}))
        v = f()
        conforms(s, json.loads(text(ty, v)), s.get("$defs", {}), str(ty))
    for k, rng in t.each(t.n(150, 2000)):
        yield k, (lambda rng=rng: one(rng))

    def closed():
        """An object with known keys says that it has no others."""
        class NT(typing.NamedTuple):
            a: complex
            b: int

        def walk(s, defs, what):
            if "$ref" in s:
                return walk(defs[s["$ref"].split("/")[-1]], defs, what)
            if "properties" in s:
                is_(s.get("additionalProperties"), False, f"{what}: whether other keys are allowed")
                eq(sorted(s.get("required", [])), sorted(s["properties"]), f"{what}: the required keys")
                for k, v in s["properties"].items():
                    walk(v, defs, f"{what}.{k}")
        for ty in (complex, NT, tuple[int, complex], tuple[NT, tuple[int]], tuple[()]):
            s = enc(ty).json_schema()
            walk(s, s.get("$defs", {}), str(ty))
    yield "closed", closed


def spoken(x: int) -> int:
    """A function at the top of a file."""
    return sum(range(x))


@contract("C26", "functions and code", [E + "_pydantic_callable", E + "_pydantic_type_code"],
          "functions and code objects decoded from source, several at a time: each behaves as its source says and encodes as that source, also after others are decoded; signatures with other numbers of parameters, text that is no function or does not parse rejected as invalid", "sources of a few lines")
def functions(t):
    import types
    from collections.abc import Callable
    from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
    from effectful.ops.semantics import handler

    def source(rng):
        n = rng.randint(0, 3)
        ps = [f"p{i}" for i in range(n)]
        c = rng.randint(-99, 99)
        pre = rng.choice(["", f"c = {c}\n", f"def helper(x: int) -> int:\n    return x + {c}\n\n"])
        doc = rng.choice(["", "    # a comment\n", '    """text {x} \\u00e9"""\n'])
        ret = "c" if pre.startswith("c =") else f"helper({'p0' if n else 0})" if "helper" in pre else f"{c}"
        sig = [p + ": int" for p in ps]
        if n and rng.random() < .3:
            sig.insert(rng.randint(1, n), "/")
        src = pre + f"def g{rng.randint(0, 2)}({', '.join(sig)}) -> int:\n{doc}    return {' + '.join([ret] + ps)}\n"
        return src, n, lambda args: (c + (args[0] if n else 0) if "helper" in pre else c) + sum(args)

    def one(rng):
        with handler(rng.choice([UnsafeEvalProvider, RestrictedEvalProvider])()):
            made = []
            for _ in range(rng.randint(1, 6)):
                src, n, ref = source(rng)
                ty = Callable[[int] * n, int]
                f = enc(ty).validate_python({"module_code": src}, context={})
                made.append((src, ty, n, ref, f))
            for src, ty, n, ref, f in made:
                args = [rng.randint(-5, 5) for _ in range(n)]
                eq(f(*args), ref(args), f"the function of {src!r} at {args}")
                got = enc(ty).dump_python(f, mode="json", context={})
                require(got["module_code"].strip() and got["module_code"].strip() in src, f"{src!r} is encoded as {got['module_code']!r}")
                if src.startswith("def g"):
                    h = enc(ty).validate_python(json.loads(json.dumps(got)), context={})
                    eq(h(*args), ref(args), f"decoded again: {src!r}")
                for m in {0, 1, 2, 3} - {n}:
                    eq(run(lambda m=m: enc(Callable[[int] * m, int]).validate_python({"module_code": src}, context={})), ("exc", "ValidationError"), f"{src!r} takes {n} parameters, not {m}")
    for k, rng in t.each(t.n(40, 400)):
        yield k, (lambda rng=rng: one(rng))

    def names(rng):
        """The function sees the names of the context it is decoded in, and no context is changed."""
        ctx = {"helper": lambda x: x * 3, "K": rng.randint(0, 9), "not a name": 5, "_hidden": 1}
        for k_ in list(ctx):
            if rng.random() < .2:
                del ctx[k_]
        before = dict(ctx)
        use = rng.choice(["K", "helper(p)", "p"])
        src = f"def g(p: int) -> int:\n    return {use}\n"
        with handler(rng.choice([UnsafeEvalProvider, RestrictedEvalProvider])()):
            f = enc(Callable[[int], int]).validate_python({"module_code": src}, context=ctx)
            eq(ctx, before, "the context")
            want = {"K": lambda: ctx["K"], "helper(p)": lambda: ctx["helper"](4), "p": lambda: 4}[use]
            missing = use == "K" and "K" not in ctx or use == "helper(p)" and "helper" not in ctx
            eq(run(lambda: f(4)), ("exc", "NameError") if missing else ("ok", want()) , f"{src!r} in a context of {sorted(ctx)}")
    for k, rng in t.each(t.n(40, 300), "names"):
        yield k, (lambda rng=rng: names(rng))

    def described():
        import math
        for f in (math.gcd, len, math.sqrt, sorted, dict):
            got = enc(Callable[[int], int]).dump_python(f, mode="json", context={})["module_code"]
            require(f"def {f.__name__}" in got and (f.__doc__ or "").strip().split("\n")[0] in got, f"{f} is described as {got!r}")
        for f in (5, None):
            require(run(lambda: enc(Callable[[int], int]).dump_python(f, mode="json", context={}))[0] == "exc", f"{f!r} is no function")
        s = enc(Callable[[int, str], bool]).json_schema()
        eq((s["type"], s["properties"]["module_code"]["type"], s["required"]), ("object", "string", ["module_code"]), "the schema of a function")
        require("Callable[[int, str], bool]" in json.dumps(s), "the schema of a function says which")
        g = enc(Callable[[int], int]).validate_python(len, context={})
        is_(g, len, "a function is decoded to itself")
    yield "described", described

    def written():
        """Functions written in files, indented or not, are encoded as source that decodes to the same."""
        def nested(x: int) -> int:
            # with a comment
            if x > 3:
                return x * 2
            return x + 1

        class Owner:
            @staticmethod
            def method(x: int) -> int:
                """Of a class."""
                return x - 7
        for f in (nested, spoken):
            got = json.loads(json.dumps(enc(Callable[[int], int]).dump_python(f, mode="json", context={})))
            r = run(lambda: compile(got["module_code"], "f", "exec"))
            require(r[0] == "ok", f"{f.__name__} is encoded as {got['module_code']!r}, which does not parse")
            with handler(UnsafeEvalProvider()):
                g = enc(Callable[[int], int]).validate_python(got, context={})
            eq([g(i) for i in range(8)], [f(i) for i in range(8)], f"{f.__name__} decoded again")
        got = enc(Callable[[int], int]).dump_python(Owner.method, mode="json", context={})
        require(got["module_code"].startswith("@staticmethod\ndef method(x: int) -> int:\n"), f"a method is encoded as {got['module_code']!r}")
    yield "written", written

    def code(rng):
        with handler(rng.choice([UnsafeEvalProvider, RestrictedEvalProvider])()):
            made = []
            for _ in range(rng.randint(1, 5)):
                src = rng.choice(["", "# only a comment\n", f"x = {rng.randint(0, 99)}\n", "def f():\n    return 1\n\n\ny = f()", f"s = '''a\n{rng.randint(0, 9)}'''"])
                made.append((src, enc(types.CodeType).validate_python(src, context={})))
            for src, c in made:
                eq(enc(types.CodeType).dump_python(c, mode="json", context={}), src, "the source of code")
    for k, rng in t.each(t.n(25, 200), "code"):
        yield k, (lambda rng=rng: code(rng))

    def bad():
        with handler(UnsafeEvalProvider()):
            for src in ["def f(x: int) -> int:\n    return x\nf(1)", "", "x = 1", "def f(x: int):\n    return x", "def f(x: int, *, y: int = 1) -> int:\n    return x", "class f:\n    pass", "f = lambda x: x"]:
                eq(run(lambda: enc(Callable[[int], int]).validate_python({"module_code": src}, context={})), ("exc", "ValidationError"), f"{src!r} is no function of one number")
            for v in [5, None, {"code": "x"}, []]:
                eq(run(lambda: enc(Callable[[int], int]).validate_python(v, context={})), ("exc", "ValidationError"), f"{v!r} is no function")
            for v in [5, None, "x =", "def", "from x import *", "from __future__ import annotations", "return 1", "\0"]:
                eq(run(lambda: enc(types.CodeType).validate_python(v, context={})), ("exc", "ValidationError"), f"{v!r} is no code")
    yield "bad", bad


@contract("C26", "in context", [E + "_validate_tool", E + "_serialize_tool", E + "_validate_tool_call", E + "_serialize_tool_call", E + "_pydantic_type_tuple"],
          "tools, functions and calls of tools inside tuples, named tuples, lists, dictionaries, dataclasses and calls, encoded and decoded in contexts that name the tools differently: the same tool comes back, under the name the context gives it; constraints on parts are kept", "types of depth at most 2")
def in_context(t):
    import collections.abc
    import pydantic
    from effectful.handlers.llm import Tool
    from effectful.handlers.llm.encoding import DecodedToolCall, Encodable

    @Tool.define
    def first(x: int) -> int:
        """The first tool."""
        return x + 1

    @Tool.define
    def second(x: int, name: str) -> str:
        """The second tool, of two."""
        return name * x

    @Tool.define
    def user(which: Tool, n: int) -> int:
        """Uses a tool."""
        return n

    def namesake():
        @Tool.define
        def first(x: int) -> int:
            """Another tool with the name of the first."""
            return x - 1
        return first

    tools = [first, second, user, namesake()]

    class Pair(typing.NamedTuple):
        tool: Tool
        n: int

    class Bounded(typing.NamedTuple):
        n: typing.Annotated[int, pydantic.Field(ge=0)]
        s: typing.Annotated[str, pydantic.Field(max_length=3)]

    @dataclasses.dataclass
    class Use:
        tool: Encodable[Tool]
        n: int
    forms = [
        (lambda u: u, Tool), (lambda u: (u, 3), tuple[Tool, int]), (lambda u: Pair(u, 4), Pair), (lambda u: [u, u], list[Tool]),
        (lambda u: {"a": u}, dict[str, Tool]), (lambda u: Use(u, 5), Use), (lambda u: (Pair(u, 1), "x"), tuple[Pair, str]), (lambda u: [(u, 1)], list[tuple[Tool, int]]),
    ]

    def found(v, out):
        if isinstance(v, Tool):
            out.append(v)
        elif isinstance(v, dict):
            [found(x, out) for x in v.values()]
        elif isinstance(v, (list, tuple)):
            [found(x, out) for x in v]
        elif dataclasses.is_dataclass(v):
            [found(x, out) for x in vars(v).values()]
        return out

    def names(v, out):
        if isinstance(v, dict):
            if v.get("type") == "function" and "function" in v:
                out.append(v["function"]["name"])
            else:
                [names(x, out) for x in v.values()]
        elif isinstance(v, list):
            [names(x, out) for x in v]
        return out

    def context(rng):
        ns = rng.sample(["alpha", "beta", "gamma", "delta", "first", "second"], 4)
        return dict(zip(ns, rng.sample(tools, 4)))

    def one(rng):
        ctx = context(rng)
        name, u = rng.choice(list(ctx.items()))
        make, ty = rng.choice(forms)
        v = make(u)
        e = enc(ty)
        got = json.loads(json.dumps(e.dump_python(v, mode="json", context=ctx)))
        require(names(got, []) and set(names(got, [])) == {name}, f"{v} in a context naming {sorted(ctx)} is encoded under {names(got, [])}, not {name}")
        back = e.validate_python(got, context=ctx)
        eq(type(back), type(v), "the type of what is decoded")
        a, b = found(back, []), found(v, [])
        require(len(a) == len(b) and all(x is y for x, y in zip(a, b)), f"{ty} gives {back!r} for {v!r}")
    for k, rng in t.each(t.n(80, 600)):
        yield k, (lambda rng=rng: one(rng))

    def call(rng):
        ctx = context(rng)
        name, u = rng.choice(list(ctx.items()))
        other, w = rng.choice(list(ctx.items()))
        n = rng.randint(0, 9)
        args = {"first": {"x": n}, "second": {"x": n, "name": "s"}, "user": {"which": w, "n": n}}
        ns = u.__name__
        import inspect
        b = inspect.signature(u).bind(**args[ns])
        c = DecodedToolCall(tool=u, bound_args=b, id=f"id{n}", name=name)
        e = enc(DecodedToolCall)
        got = json.loads(json.dumps(e.dump_python(c, mode="json", context=ctx)))
        eq((got["id"], got["type"], got["function"]["name"]), (f"id{n}", "function", name), "the call")
        sent = json.loads(got["function"]["arguments"])
        eq(set(sent), set(args[ns]), "the arguments")
        if ns == "user":
            eq(names(sent, []), [other], "the tool given to the call")
        back = e.validate_python(got, context=ctx)
        is_(back.tool, u, "the tool called")
        eq((back.id, back.name), (f"id{n}", name), "the call")
        eq(list(back.bound_args.arguments), list(args[ns]), "the arguments")
        require(all(back.bound_args.arguments[k_] is v or back.bound_args.arguments[k_] == v for k_, v in args[ns].items()), f"the arguments {back.bound_args} of {args[ns]}")
        if name not in ("zeta",):
            r = run(lambda: e.validate_python(got, context={k_: v for k_, v in ctx.items() if k_ != name}))
            require(r[0] == "exc", "a call of a tool the context does not name is decoded")
    for k, rng in t.each(t.n(60, 400), "call"):
        yield k, (lambda rng=rng: call(rng))

    def constrained():
        e = enc(Bounded)
        for n, s in [(0, ""), (3, "abc"), (-1, "a"), (1, "abcd"), (-2, "abcde")]:
            ok = n >= 0 and len(s) <= 3
            r = run(lambda: e.validate_python({"n": n, "s": s}, context={}))
            eq(r, ("ok", Bounded(n, s)) if ok else ("exc", "ValidationError"), f"parts {n}, {s!r} within bounds")
        e = enc(tuple[typing.Annotated[int, pydantic.Field(ge=0)], typing.Annotated[str, pydantic.Field(max_length=3)]])
        for n, s in [(0, ""), (-1, "a"), (1, "abcd")]:
            ok = n >= 0 and len(s) <= 3
            r = run(lambda: e.validate_python({"item_0": n, "item_1": s}, context={}))
            eq(r, ("ok", (n, s)) if ok else ("exc", "ValidationError"), f"items {n}, {s!r} within bounds")
    yield "constrained", constrained

    def stated(rng):
        kinds = [int, str, bool, float, list]
        ps = [rng.choice(kinds) for _ in range(rng.randint(0, 3))]
        r = rng.choice(kinds)
        for ty, sig in [(collections.abc.Callable[ps, r], f"Callable[[{', '.join(p.__name__ for p in ps)}], {r.__name__}]"), (collections.abc.Callable[..., r], f", {r.__name__}]")]:
            s = json.dumps(enc(ty).json_schema())
            require(sig in s, f"the schema of {ty} says {sig}: {s}")
    for k, rng in t.each(t.n(10, 40), "stated"):
        yield k, (lambda rng=rng: stated(rng))

    def from_text():
        from effectful.handlers.llm.evaluation import UnsafeEvalProvider
        from effectful.ops.semantics import handler
        e = enc(collections.abc.Callable[[int], int])
        src = "def g(p: int) -> int:\n    return p + 2\n"
        with handler(UnsafeEvalProvider()):
            eq(e.validate_python(json.dumps({"module_code": src}), context={})(3), 5, "a function decoded from JSON text")
            for bad in ["", "{}", "def g(): pass", json.dumps({"code": src}), json.dumps([src])]:
                eq(run(lambda: e.validate_python(bad, context={})), ("exc", "ValidationError"), f"{bad!r} is no function")
    yield "from text", from_text
