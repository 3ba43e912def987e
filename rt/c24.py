from rt.core import *  # noqa: F403
import copy
import dataclasses
import json
import typing

L = "effectful.handlers.llm."


@dataclasses.dataclass
class Point:
    x: int
    y: int


class Pair(typing.NamedTuple):
    first: int
    second: str


class Boom(Exception):
    pass


class ProviderDown(Exception):
    pass


class World:
    """Tools that record their calls, an agent and templates around them, and a scripted model."""

    def __init__(self):
        from effectful.handlers.llm import Agent, Template, Tool
        from effectful.ops.types import NotHandled
        log = self.log = []

        @Tool.define
        def add(x: int, y: int = 1) -> int:
            """Add."""
            log.append(("add", x, y))
            return x + y

        @Tool.define
        def echo(s: str, /, *, times: int = 1) -> str:
            """Repeat."""
            log.append(("echo", s, times))
            return s * times

        @Tool.define
        def move(p: Point, by: Pair) -> list[Point]:
            """Move."""
            log.append(("move", p, by))
            return [Point(p.x + by.first, p.y), p]

        @Tool.define
        def boom(kind: str) -> str:
            """Fail."""
            log.append(("boom", kind))
            raise {"value": ValueError, "boom": Boom}[kind]("no " + kind)

        @Template.define
        def inner(q: str) -> int:
            """Inner {q}."""
            raise NotHandled

        class Helper(Agent):
            """A helper."""

            @Tool.define
            def count(self, n: int) -> int:
                """Count."""
                log.append(("count", n))
                return n

            @Template.define
            def ask(self, q: str) -> int:
                """Ask {q}."""
                raise NotHandled

            @Template.define
            def tell(self, q: str) -> str:
                """Tell {q}."""
                raise NotHandled

        @Template.define
        def plain(q: str) -> int:
            """Plain {q}."""
            raise NotHandled
        self.agent = Helper()
        self.tpl = {"ask": self.agent.ask, "tell": self.agent.tell, "plain": plain, "inner": inner}
        self.tools = {"add": add, "echo": echo, "move": move, "boom": boom, "inner": inner}


def request(rng, i, nested):
    """A tool request: (name, arguments, what happens)."""
    from rt.core import Skip
    n = rng.randrange(100)
    good = [("add", {"x": n}, ("ok", ("add", n, 1), str(n + 1))), ("add", {"y": 2, "x": n}, ("ok", ("add", n, 2), str(n + 2))),
            ("echo", {"s": f"s{n}{{}}"}, ("ok", ("echo", f"s{n}{{}}", 1), f"s{n}{{}}")), ("echo", {"times": 2, "s": "ab"}, ("ok", ("echo", "ab", 2), "abab")),
            ("move", {"p": {"x": n, "y": 2}, "by": {"first": 3, "second": "z"}}, ("ok", ("move", Point(n, 2), Pair(3, "z")), json.dumps([{"x": n + 3, "y": 2}, {"x": n, "y": 2}]))),
            ("boom", {"kind": "value"}, ("raise", ("boom", "value"), ValueError)), ("boom", {"kind": "boom"}, ("raise", ("boom", "boom"), Boom))]
    if nested:
        good += [("inner", {"q": f"q{n}"}, ("inner", f"Inner q{n}."))] * 2
    bad = [("nothing", {"x": 1}, ("bad",)), ("add", {"x": "text"}, ("bad",)), ("add", {}, ("bad",)), ("add", {"x": 1, "z": 2}, ("bad",)), ("move", {"p": {"x": 1}, "by": {"first": 3, "second": "z"}}, ("bad",)),
           ("move", {"p": {"x": 1, "y": 2}, "by": {"first": 3, "second": "z", "third": 1}}, ("bad",)), ("add", "not json", ("bad",)), ("add", [1, 2], ("bad",)), ("echo", {"s": 5}, ("bad",))]
    name, args, what = rng.choice(good if rng.random() < .8 else bad)
    return {"id": f"call_{i}", "type": "function", "function": {"name": name, "arguments": args if args == "not json" else json.dumps(args)}}, what


class Script:
    """What the model answers, drawn as it is asked, and what the conversation must then be."""

    def __init__(self, rng, retry, catch, stop, faults=True):
        self.rng, self.retry, self.catch, self.stop, self.n, self.faults = rng, retry, catch, stop, 0, faults
        self.requests = []      # what the model was asked, as it was
        self.answers = []       # answers to give, appended by simulate()
        self.want = []          # the requests expected
        self.log = []

    def __call__(self, model, *args, messages=None, tools=None, **kwargs):
        import litellm
        self.requests.append(copy.deepcopy(list(messages)))
        self.offered = tools
        require(len(self.requests) <= len(self.answers), f"a request beyond the {len(self.answers)} expected: {summary(messages)}")
        a = self.answers[len(self.requests) - 1]
        if isinstance(a, Exception):
            raise a
        return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": copy.deepcopy(a)}])

    def draw(self, ty, nested):
        """One answer: (message, kind, data)."""
        r = self.rng.random()
        if self.faults and r < .04:
            return ProviderDown("down"), "error", None
        if r < .45:
            calls = []
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                self.n += 1
                calls.append(request(self.rng, self.n, nested))
            msg = {"role": "assistant", "content": self.rng.choice([None, "thinking"]), "tool_calls": [c for c, _ in calls]}
            bad = next((c for c, w in calls if w[0] == "bad"), None)
            return msg, "malformed" if bad else "tools", bad or calls
        if ty is int and r < .6:
            return {"role": "assistant", "content": self.rng.choice(['{"value": "x"}', "no json", "{}", "7", '{"value": 1.5}', "[]", "null"])}, "malformed", None
        if ty is int:
            n = self.rng.randrange(1000)
            return {"role": "assistant", "content": json.dumps({"value": n})}, "final", n
        s = self.rng.choice(["answer", "{}", "null", " x "])
        return {"role": "assistant", "content": s}, "final", s

    def simulate(self, ty, system, user, history, depth=0):
        """-> (outcome, history): the reference conversation.  A message is (role, about)."""
        msgs = list(history)
        if not msgs or msgs[0][0] != "system":
            msgs.insert(0, ("system", system))
        msgs.append(("user", user))
        while True:
            temp, tries = list(msgs), 0
            while True:
                tries += 1
                a, kind, data = self.draw(ty, depth < 1)
                self.answers.append(a)
                self.want.append(list(temp))
                if kind == "error":
                    return ("raise", ProviderDown), history
                if kind != "malformed":
                    break
                exc = "ResultDecodingError" if data is None else "ToolCallDecodingError"
                if not self.retry or tries >= self.stop:
                    return ("raise", exc), history
                temp += [("assistant", key(a)), ("user", None) if data is None else ("tool", data["id"], None)]
            msgs.append(("assistant", key(a)))
            if kind == "final":
                return ("ok", data), msgs
            for c, w in data:
                if w[0] == "inner":
                    out, _ = self.simulate(int, None, w[1], [], depth + 1)
                else:
                    self.log.append(w[1])
                    out = ("ok", w[2]) if w[0] == "ok" else ("raise", w[2])
                if out[0] == "ok":
                    msgs.append(("tool", c["id"], str(out[1])))
                elif self.retry and self.caught(out[1]):
                    msgs.append(("tool", c["id"], None))
                else:
                    return ("raise", "ToolCallExecutionError"), history

    def caught(self, e):
        return True if self.catch is Exception else isinstance(e, type) and issubclass(e, self.catch)


def key(m):
    return (m["content"], tuple(c["id"] for c in m.get("tool_calls") or ()))


def text(m):
    c = m["content"]
    return c if isinstance(c, str) or c is None else "".join(p["text"] for p in c)


def summary(ms):
    out = []
    for m in ms:
        if m["role"] == "assistant":
            out.append(("assistant", (m["content"], tuple(c["id"] for c in m.get("tool_calls") or ()))))
        elif m["role"] == "tool":
            out.append(("tool", m["tool_call_id"], text(m)))
        else:
            out.append((m["role"], text(m)))
    return out


def agree(got, want, what):
    got = summary(got)
    require(len(got) == len(want), f"{what}: {len(got)} messages {got} for {len(want)}: {want}")
    for g, w in zip(got, want):
        ok = g[0] == w[0] and len(g) == len(w)
        for x, y in zip(g[1:], w[1:]):
            # None is text the reference does not fix (feedback, default prompts)
            ok = ok and (x == y if y is not None else isinstance(x, str) and x != "")
        require(ok, f"{what}: {g} for {w} in {got}")


def converse(rng, faults=True):
    import tenacity
    from effectful.handlers.llm.completions import LiteLLMProvider, RetryLLMHandler, completion
    from effectful.ops.semantics import handler
    w = World()
    add, echo, move, boom, inner = (w.tools[k] for k in ("add", "echo", "move", "boom", "inner"))  # noqa: F841
    stop, retry = rng.randint(1, 4), rng.random() < .7
    catch = rng.choice([Exception, Exception, ValueError, (ValueError, KeyError), Boom])
    history = []
    sent = 0
    for call in range(rng.randint(1, 4)):
        name = rng.choice(["ask", "ask", "tell", "plain"])
        script = Script(rng, retry, catch, stop, faults)
        q = rng.choice(["one", "", "a {b}", "x\ny"])
        own = name != "plain"
        system = None
        (kind, value), after = script.simulate(str if name == "tell" else int, system, f"{name.capitalize()} {q}.", history if own else [])
        w.log.clear()
        hs = [LiteLLMProvider(model="m")] + ([RetryLLMHandler(stop=tenacity.stop_after_attempt(stop), catch_tool_errors=catch, include_traceback=rng.random() < .5)] if retry else []) + [{completion: script}]
        from contextlib import ExitStack
        with ExitStack() as st:
            for h in hs:
                st.enter_context(handler(h))
            before = copy.deepcopy(list(w.agent.__history__.values()))
            try:
                got = ("ok", w.tpl[name](q))
            except Exception as e:
                got = ("raise", e)
        what = f"call {call} of {name} (retry={retry and stop}, catch={catch})"
        for i, (g, x) in enumerate(zip(script.requests, script.want)):
            agree(g, x, f"{what}: request {i}")
        eq(len(script.requests), len(script.answers), f"{what}: the number of requests, {[key(a) if isinstance(a, dict) else a for a in script.answers]}; it gave {got!r}")
        if kind == "ok":
            require(got[0] == "ok" and type(got[1]) is type(value) and got[1] == value, f"{what}: {got!r} for {value!r}")
        else:
            require(got[0] == "raise" and type(got[1]).__name__ == (value if isinstance(value, str) else value.__name__), f"{what}: {got!r} for {value}")
        eq(w.log, script.log, f"{what}: the tools called")
        if own and kind == "ok":
            history = after
        now = list(w.agent.__history__.values())
        agree(now, history, f"{what}: the history")
        eq(now[:len(before)] if not before or before[0]["role"] == "system" else now[1:len(before) + 1], before, f"{what}: the earlier history")
        eq([m["id"] for m in now], list(w.agent.__history__), "the keys of the history")
        eq(len({m["id"] for m in now}), len(now), "message identifiers")
    return w


@contract("C24", "conversations", [L + "completions.LiteLLMProvider._call", L + "completions.RetryLLMHandler._call_assistant", L + "completions.RetryLLMHandler._call_tool", L + "completions.append_message", L + "completions.call_assistant"],
          "random scripts of model answers (final, malformed, several tool requests, bad requests, failing and nested tools, provider failures) over several calls of an agent and of plain templates, with and without retries: each request holds exactly the reference messages, the number of requests is that of the retry limit, the history after a success is the earlier one followed by that call's messages without failed attempts and after a failure is unchanged, other errors surface at once; non-trivial: all", "up to 4 calls, 4 attempts, 3 tool requests an answer")
def conversations(t):
    for k, rng in t.each(t.n(150, 3000)):
        yield k, (lambda rng=rng: converse(rng) and None)


@contract("C24", "retries", [L + "completions.RetryLLMHandler._before_sleep", L + "completions.RetryLLMHandler.__init__", L + "completions.append_message"],
          "for each limit and number of malformed answers first: the attempts, what the user callback sees, the error at the end; errors of other kinds are not retried; append_message outside of a conversation does nothing and at the front keeps the others in order", "limits 1 to 5")
def retries(t):
    def one(limit, bad, other):
        import tenacity
        from effectful.handlers.llm.completions import LiteLLMProvider, RetryLLMHandler, completion
        from effectful.ops.semantics import handler
        import litellm
        w = World()
        seen, slept = [], []

        def model(*a, messages=None, **k):
            seen.append(len(messages))
            if other and len(seen) > bad:
                raise other("x")
            c = "no json" if len(seen) <= bad else '{"value": 5}'
            return litellm.ModelResponse(choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": c}}])
        with handler(LiteLLMProvider(model="m")), handler(RetryLLMHandler(stop=tenacity.stop_after_attempt(limit), before_sleep=lambda s: slept.append(s.attempt_number))), handler({completion: model}):
            try:
                got = w.agent.ask("q")
            except Exception as e:
                got = type(e).__name__
        n = min(limit, bad + 1)
        eq(seen, [2 + 2 * i for i in range(n)], "messages in each request")
        eq(slept, list(range(1, n)), "the callback")
        eq(got, "ResultDecodingError" if bad >= limit else other.__name__ if other else 5, "the outcome")
        eq(len(w.agent.__history__), 3 if got == 5 else 0, "history")
    for limit in range(1, 6):
        for bad in range(0, 7):
            for other in (None, ProviderDown, ValueError, TypeError):
                yield f"{limit}/{bad}/{other and other.__name__}", (lambda a=(limit, bad, other): one(*a))

    def front():
        from collections import OrderedDict
        from effectful.handlers.llm.completions import _get_history, append_message
        from effectful.ops.semantics import handler
        append_message({"id": "x", "role": "user", "content": ""})
        h = OrderedDict()
        with handler({_get_history: lambda: h}):
            for i, last in [("a", True), ("b", False), ("c", True), ("d", False)]:
                append_message({"id": i, "role": "user", "content": i}, last=last)
        eq(list(h), ["d", "b", "a", "c"], "the order")
    yield "front", front
