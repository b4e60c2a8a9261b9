"""Strategies with two drivers. The combinators mirror hypothesis.strategies; every strategy can be drawn
  * by Hypothesis (`s.hyp`): slow generation, varied, excellent shrinking;
  * by the swarm driver (`s.swarm(source)`): an order of magnitude more cases per second from the same generators. A source
    records its choices, and replaying a shortened or lowered choice sequence is how a failing case is shrunk.
"""
import functools
import random

from hypothesis import strategies as h


class Strategy:
    _hyp = None

    @property
    def hyp(self):
        if self._hyp is None:
            self._hyp = self.make()
        return self._hyp

    def map(self, fn):
        return Mapped(self, fn)


class Source:
    """Choices: each is an int in [0, n), 0 the simplest. From a replayed sequence (missing: 0), else at random."""

    def __init__(self, rnd=None, replay=None):
        self.rnd = rnd
        self.replay = replay
        self.taken = []

    def choose(self, n, pick=None):
        if self.replay is not None:
            i = len(self.taken)
            k = min(self.replay[i], n - 1) if i < len(self.replay) else 0
        else:
            k = pick() if pick else self.rnd.randrange(n)
        self.taken.append(k)
        if len(self.taken) > 200000:
            raise RuntimeError("a strategy does not end")
        return k

    def draw(self, s):
        return s.swarm(self)

    def more(self, lo, hi, average=None):
        """Yield as many times as a collection of lo..hi elements has elements; hi None: no limit."""
        if self.replay is None:
            top = hi if hi is not None else lo + 10
            if top - lo > 30 and self.rnd.random() < .7:
                size = lo + self.rnd.randint(0, 12)
            else:
                size = self.rnd.randint(lo, top)
        n = 0
        while True:
            if n >= lo:
                if hi is not None and n >= hi:
                    return
                if not self.choose(2, lambda: 1 if n < size else 0):
                    return
            yield n
            n += 1


class Integers(Strategy):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.a, self.b = (lo if lo is not None else -10 ** 6), (hi if hi is not None else 10 ** 6)
        self.zero = min(max(0, self.a), self.b)

    def make(self):
        return h.integers(self.lo, self.hi)

    def swarm(self, src):
        a, b, z = self.a, self.b, self.zero
        if a > b:
            raise ValueError(f"integers({a}, {b})")
        n = b - a + 1

        def pick():
            r = src.rnd.random()
            if r < .06:
                v = a
            elif r < .12:
                v = b
            elif r < .3 and n > 40:
                v = min(max(a, z + src.rnd.randint(-5, 5)), b)
            else:
                v = src.rnd.randint(a, b)
            return self.rank(v)
        return self.value(src.choose(n, pick))

    # values by distance from the one nearest 0, positive first
    def rank(self, v):
        a, b, z = self.a, self.b, self.zero
        d = abs(v - z)
        short = min(b - z, z - a)
        if d > short:
            return d + short
        return 2 * d - (1 if v > z else 0) if d else 0

    def value(self, k):
        a, b, z = self.a, self.b, self.zero
        up, down = b - z, z - a
        short = min(up, down)
        if k <= 2 * short:
            d = (k + 1) // 2
            return z + d if k % 2 else z - d
        d = k - short
        return z + d if up > down else z - d


class SampledFrom(Strategy):
    def __init__(self, items):
        self.items = items if isinstance(items, (str, list, tuple, range)) else list(items)

    def make(self):
        return h.sampled_from(self.items)

    def swarm(self, src):
        return self.items[src.choose(len(self.items))]


class Just(Strategy):
    def __init__(self, value):
        self.value = value

    def make(self):
        return h.just(self.value)

    def swarm(self, src):
        return self.value


class OneOf(Strategy):
    def __init__(self, options):
        self.options = []
        for o in options:
            self.options += o.options if isinstance(o, OneOf) else [o]

    def make(self):
        return h.one_of(*[o.hyp for o in self.options])

    def swarm(self, src):
        return self.options[src.choose(len(self.options))].swarm(src)


class Lists(Strategy):
    def __init__(self, elem, lo, hi, unique):
        self.elem, self.lo, self.hi, self.unique = elem, lo, hi, unique

    def make(self):
        return h.lists(self.elem.hyp, min_size=self.lo, max_size=self.hi, unique=self.unique)

    def swarm(self, src):
        if not self.unique:
            return [self.elem.swarm(src) for _ in src.more(self.lo, self.hi)]
        out = []
        for _ in src.more(self.lo, self.hi):
            for _ in range(20):
                v = self.elem.swarm(src)
                if v not in out:
                    out.append(v)
                    break
            else:
                if len(out) < self.lo:
                    out.append(self.missing(out))
                else:
                    break
        return out

    def missing(self, out):
        e = self.elem
        values = range(e.a, e.b + 1) if isinstance(e, Integers) else e.items
        return next(v for v in values if v not in out)


class Tuples(Strategy):
    def __init__(self, elems):
        self.elems = elems

    def make(self):
        return h.tuples(*[e.hyp for e in self.elems])

    def swarm(self, src):
        return tuple(e.swarm(src) for e in self.elems)


class FixedDict(Strategy):
    def __init__(self, d):
        self.d = d

    def make(self):
        return h.fixed_dictionaries({k: v.hyp for k, v in self.d.items()})

    def swarm(self, src):
        return {k: v.swarm(src) for k, v in self.d.items()}


class Text(Strategy):
    ANY = ("abcXYZ019 .,;:-–—()[]{}/\\'\"!?#*\t\n\r\x00\x0b\x85\xa0éßİıſKſ²³¹½٣०１Ａ Ω漢字"
           "\u2028\u200b\u202e\ufeff\ud7ff\U0001f4d6\U0001d7d9")

    def __init__(self, alphabet, lo, hi):
        self.alphabet, self.lo, self.hi = alphabet, lo, hi
        self.elem = alphabet if isinstance(alphabet, Strategy) else SampledFrom(alphabet if alphabet is not None else self.ANY)

    def make(self):
        if self.alphabet is None:
            return h.text(min_size=self.lo, max_size=self.hi)
        return h.text(self.elem.hyp, min_size=self.lo, max_size=self.hi)

    def swarm(self, src):
        return "".join(self.elem.swarm(src) for _ in src.more(self.lo, self.hi))


class Floats(Strategy):
    SOME = [0.0, 1.0, 0.5, 1.5, 2.0, 3.25, 5.0]

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def make(self):
        return h.floats(self.lo, self.hi)

    def swarm(self, src):
        more = [-1.0, 1e300, float("inf"), float("-inf"), float("nan")] if self.lo is None and self.hi is None else []
        items = self.SOME + more
        return items[src.choose(len(items))]


class Permutations(Strategy):
    def __init__(self, items):
        self.items = list(items)

    def make(self):
        return h.permutations(self.items)

    def swarm(self, src):
        out = list(self.items)
        for i in range(len(out) - 1):
            j = i + src.choose(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out


class Mapped(Strategy):
    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def make(self):
        return self.base.hyp.map(self.fn)

    def swarm(self, src):
        return self.fn(self.base.swarm(src))


class Composite(Strategy):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def make(self):
        @h.composite
        def go(draw):
            return self.fn(lambda s: draw(s.hyp), *self.args, **self.kwargs)
        return go()

    def swarm(self, src):
        return self.fn(src.draw, *self.args, **self.kwargs)


def composite(fn):
    @functools.wraps(fn)
    def make(*args, **kwargs):
        return Composite(fn, args, kwargs)
    return make


def integers(min_value=None, max_value=None):
    return Integers(min_value, max_value)


def sampled_from(items):
    return SampledFrom(items)


def booleans():
    return SampledFrom([False, True])


def just(value):
    return Just(value)


def none():
    return Just(None)


def one_of(*options):
    return OneOf(options)


def lists(elem, min_size=0, max_size=None, unique=False):
    return Lists(elem, min_size, max_size, unique)


def sets(elem, min_size=0, max_size=None):
    return Lists(elem, min_size, max_size, True).map(set)


def tuples(*elems):
    return Tuples(elems)


def fixed_dictionaries(d):
    return FixedDict(d)


def text(alphabet=None, min_size=0, max_size=None):
    return Text(alphabet, min_size, max_size)


def floats(min_value=None, max_value=None):
    return Floats(min_value, max_value)


def permutations(items):
    return Permutations(items)


def builds(fn):
    return Just(None).map(lambda _: fn())


def shrink(replay, fails, tries=2500):
    """The simplest choice sequence found for which fails() (-> the sequence actually taken, or None) still fails."""
    best = list(replay)
    left = [tries]

    def attempt(seq):
        nonlocal best
        if left[0] <= 0:
            return False
        left[0] -= 1
        taken = fails(seq)
        if taken is not None and (len(taken), taken) < (len(best), best):
            best = list(taken)
            return True
        return False

    changed = True
    while changed and left[0] > 0:
        changed = False
        for size in (64, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                i = min(i, len(best) - size)
                if i < 0:
                    break
                if attempt(best[:i] + best[i + size:]):
                    changed = True
                else:
                    # the same, with the choice before it lowered (a "one more element" flag, a count)
                    if i and best[i - 1] and attempt(best[:i - 1] + [best[i - 1] - 1] + best[i + size:]):
                        changed = True
                i -= 1 if size < 8 else size // 2
        for i in range(len(best)):
            if i >= len(best) or not best[i]:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                changed = True
                continue
            lo, hi = 0, best[i]
            while hi - lo > 1 and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    changed = True
                    hi = mid
                else:
                    lo = mid
    return best
