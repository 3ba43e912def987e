"""Runtime evaluation of the contracts on the real code of /repo.

A contract is a generator of cases `(key, thunk)`.  The thunk builds an input, runs the real code, and
evaluates the postcondition; it raises when it fails.  This is the concrete half of the machinery: it replays
what the deductive half (pyvc) refutes, and stands in - labelled bounded - where the prover cannot reach.
"""
import random

REG = []


class Bad(AssertionError):
    """A postcondition evaluated to false."""


class Skip(Exception):
    """The case does not meet the precondition."""


class Contract:
    def __init__(self, prop, name, on, rule, bound, gen):
        self.prop, self.name, self.on, self.rule, self.bound, self.gen = prop, name, on, rule, bound, gen


def contract(prop, name, on, rule, bound="sampled inputs"):
    """on: the functions whose contract is evaluated."""
    def d(gen):
        REG.append(Contract(prop, name, on, rule, bound, gen))
        return gen
    return d


class T:
    def __init__(self, seed, tier, name):
        self.seed, self.tier = seed, tier
        self.rng = random.Random(f"{seed}/{name}")

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough if thorough is not None else quick * 20)

    def each(self, count, prefix="r"):
        """(key, own rng) pairs: every case draws from its own generator, so that it can be replayed alone."""
        for i in range(count):
            s = self.rng.getrandbits(48)
            yield f"{prefix}{i}-{s:x}", random.Random(s)


def require(c, *msg):
    if not c:
        raise Bad(" ".join(str(m)[:400] for m in msg) or "postcondition is false")


def eq(a, b, what=""):
    if not (a == b):
        raise Bad(f"{what}: got {str(a)[:400]!s}, expected {str(b)[:400]!s}")


def is_(a, b, what=""):
    if a is not b:
        raise Bad(f"{what}: got {str(a)[:300]}, expected the very object {str(b)[:300]}")


def raises(exc, f, what=""):
    try:
        r = f()
    except exc as x:
        return x
    raise Bad(f"{what}: expected {exc}, got result {str(r)[:300]}")


def outcome(f):
    """('ok', value) or ('exc', type)."""
    try:
        return ("ok", f())
    except Exception as x:
        return ("exc", type(x))
