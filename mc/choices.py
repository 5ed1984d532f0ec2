"""Every random decision of the library as an enumerable choice.

While a Chooser is active, all random numbers of the random module (the hidden
instance, other Random objects, SystemRandom) come from it: each request for a
number below n is a choice point with n alternatives."""
import random


class Diverged(Exception):
    """Replaying a prefix met another choice point than before."""


class Endless(BaseException):
    """More choices than any terminating run needs."""


class Chooser(object):
    def __init__(self, base, dev=(), limit=200000):
        """base: default policy, dev: {index of choice point: value}."""
        self.base = base
        self.dev = dict(dev)
        self.points = []
        self.limit = limit

    def below(self, n):
        i = len(self.points)
        if i >= self.limit:
            raise Endless("more than %d random choices" % self.limit)
        if i in self.dev:
            v = self.dev[i]
            if not 0 <= v < n:
                raise Diverged("choice %d of %d alternatives at point %d" % (v, n, i))
        else:
            b = self.base
            if b == "last":
                v = n - 1
            elif b == "first":
                v = 0
            elif b == "mid":
                v = n // 2
            elif b == "alt":
                v = (n - 1) if i % 2 else 0
            else:
                # fixed multiplicative pattern
                v = (i * 7919 + b * 104729 + n * 31) % n
        self.points.append(n)
        return v

    # -- patching ---------------------------------------------------------
    def __enter__(self):
        me = self
        self.saved = []

        def put(obj, name, value):
            old = obj.__dict__.get(name, self)
            self.saved.append((obj, name, old))
            setattr(obj, name, value)

        def below(rnd, n):
            return me.below(n)

        def real(*rnd):
            return me.below(64) / 64.0

        def bits(rnd, k):
            return me.below(1 << k)

        def seed(*args, **kwargs):
            return None

        put(random.Random, "_randbelow", below)
        put(random.Random, "random", real)
        put(random.Random, "getrandbits", bits)
        put(random.SystemRandom, "random", real)
        put(random.SystemRandom, "getrandbits", bits)
        put(random, "random", real)
        put(random, "getrandbits", lambda k: me.below(1 << k))
        put(random, "seed", seed)
        return self

    def __exit__(self, *exc):
        for obj, name, old in reversed(self.saved):
            if old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        return False


def run(func, base, dev=()):
    """Returns (result of func, choice points met)."""
    ch = Chooser(base, dev)
    with ch:
        res = func()
    if ch.dev and max(ch.dev) >= len(ch.points):
        raise Diverged("choice point %d was not reached" % max(ch.dev))
    return res, ch.points


def full(func, visit, limit=None):
    """All outcomes of all choices (stateless depth first search). visit(result,
    schedule). Returns the number of executions."""
    n = 0
    prefix = []
    while True:
        res, points = run(func, "first", list(enumerate(prefix)))
        chosen = prefix + [0] * (len(points) - len(prefix))
        visit(res, chosen)
        n += 1
        while chosen and chosen[-1] + 1 >= points[len(chosen) - 1]:
            chosen.pop()
        if not chosen:
            return n
        chosen[-1] += 1
        prefix = chosen


def deviations(func, visit, base, bound, part=0, parts=1, start=0, stop=None):
    """All schedules with at most `bound` departures from the policy `base`
    (departures only at choice points start..stop). Returns the executions."""
    n = [0]
    counter = [0]

    def go(dev, last, left):
        res, points = run(func, base, dev)
        visit(res, dev)
        n[0] += 1
        if not left:
            return
        for i in range(max(last + 1, start), len(points) if stop is None else min(stop, len(points))):
            for v in range(points[i]):
                if not dev:
                    counter[0] += 1
                    if counter[0] % parts != part:
                        continue
                nxt = dev + [(i, v)]
                go(nxt, i, left - 1)

    go([], -1, bound)
    return n[0]
