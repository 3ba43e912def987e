from rt.core import *  # noqa: F403


@contract("C29", "interleavings", ["effectful.internals.runtime.Runtime", "effectful.internals.runtime.get_runtime", "effectful.internals.runtime.interpreter", "effectful.ops.semantics.handler"],
          "random programs of several threads (install, nest, leave by falling out or raising, forward, call) under random interleavings of their steps: each thread sees what it sees alone, and a new thread starts with nothing installed; non-trivial: two threads inside handlers at once",
          "2-4 threads, up to 12 steps each")
def interleavings(t):
    import threading
    from effectful.internals.runtime import get_interpretation, interpreter
    from effectful.ops.semantics import fwd, handler
    from effectful.ops.syntax import defop
    from effectful.ops.types import NotHandled

    @defop
    def a(x: int) -> object:
        return ("default a", x)

    @defop
    def b(x: int) -> object:
        raise NotHandled

    def script(rng, n):
        out, depth = [], 0
        for _ in range(n):
            k = rng.randrange(6)
            if k < 2 and depth < 3:
                out.append(("enter", rng.choice(["handler", "handler", "interpreter"]), rng.choice(["a", "b", "ab"]), rng.random() < .4, rng.randrange(1000)))
                depth += 1
            elif k == 2 and depth:
                out.append(("leave", rng.random() < .4))
                depth -= 1
            else:
                out.append(("call", rng.choice("ab"), rng.randrange(100)))
        return out

    def play(steps, turn, me):
        """Run the script; turn() waits for this thread's turn.  Returns the observations."""
        obs = []
        pos = [0]

        class Leave(Exception):
            pass

        def see(which, x):
            r = (a if which == "a" else b)(x)
            return str(r)

        def block(depth):
            while pos[0] < len(steps):
                turn()
                s = steps[pos[0]]
                pos[0] += 1
                if s[0] == "call":
                    obs.append(see(s[1], s[2]))
                elif s[0] == "leave":
                    if depth:
                        if s[1]:
                            raise Leave
                        return
                else:
                    _, kind, which, forwards, tag = s
                    fn = (lambda x, tag=tag: (me, tag, fwd(), fwd(x + 1))) if forwards else (lambda x, tag=tag: (me, tag, x))
                    intp = {o: fn for o, n in ((a, "a"), (b, "b")) if n in which}
                    before = get_interpretation()
                    try:
                        with (handler if kind == "handler" else interpreter)(intp):
                            inside[me] = depth + 1
                            block(depth + 1)
                    except Leave:
                        pass
                    inside[me] = depth
                    obs.append(("restored", get_interpretation() is before))
        obs.append(("start", len(get_interpretation())))
        inside = overlap
        block(0)
        obs.append(("end", len(get_interpretation())))
        return obs
    overlap = {}

    for k, rng in t.each(t.n(150, 3000)):
        def go(rng=rng):
            n = rng.choice([2, 2, 3, 4])
            scripts = [script(rng, rng.randrange(4, 13)) for _ in range(n)]
            alone = []
            for i, s in enumerate(scripts):
                out = []
                th = threading.Thread(target=lambda i=i, s=s: out.append(play(s, lambda: None, i)))
                th.start()
                th.join()
                alone.append(out[0])
            go_ = [threading.Semaphore(0) for _ in range(n)]
            back = threading.Semaphore(0)
            res = [None] * n
            done = [False] * n
            overlap.clear()

            def run(i):
                started = [False]

                def turn():
                    if started[0]:
                        back.release()
                    started[0] = True
                    go_[i].acquire()
                try:
                    res[i] = play(scripts[i], turn, i)
                except BaseException as x:
                    res[i] = x
                done[i] = True
                back.release()
            inmain = rng.random() < .5
            threads = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
            main = {a: lambda x: Bad("a handler of the main thread ran")}
            with handler(main if inmain else {}):
                mine = get_interpretation()
                both = 0
                pending = list(range(n))
                started = set()
                while pending:
                    i = rng.choice(pending)
                    if i not in started:
                        started.add(i)
                        threads[i].start()
                    go_[i].release()
                    back.acquire()
                    if done[i]:
                        pending.remove(i)
                    both = max(both, sum(1 for v in overlap.values() if v))
                    is_(get_interpretation(), mine, "the handlers of the main thread")
            for th in threads:
                th.join(10)
            for i in range(n):
                if isinstance(res[i], BaseException):
                    raise res[i]
                eq(res[i], alone[i], f"what thread {i} sees, against what it sees alone")
                eq(res[i][0], ("start", 0), "handlers installed in a new thread")
            return None if both > 1 else "trivial"
        yield k, go


@contract("C29", "pools", ["effectful.internals.runtime.get_runtime"], "worker threads and threads started within handlers have no handlers installed", "one pool")
def pools(t):
    import concurrent.futures
    import threading
    from effectful.internals.runtime import get_interpretation
    from effectful.ops.semantics import handler
    from effectful.ops.syntax import defop

    @defop
    def a() -> int:
        return 1

    def go():
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            eq(ex.submit(a).result(), 1)
            with handler({a: lambda: 2}):
                eq(ex.submit(a).result(), 1, "in a worker")
                eq(a(), 2)
                eq(ex.submit(lambda: len(get_interpretation())).result(), 0)

                def inner():
                    with handler({a: lambda: 3}):
                        out.append(a())
                        with concurrent.futures.ThreadPoolExecutor(1) as ex2:
                            out.append(ex2.submit(a).result())
                    out.append(a())
                out = []
                th = threading.Thread(target=inner)
                th.start()
                th.join()
                eq(out, [3, 1, 1])
                eq(a(), 2)
    yield "pool", go
