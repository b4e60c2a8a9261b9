"""Reference model of Bible references.

Verses are tuples (b, c, v): b is the index of the book in the book ordering. A World lists every verse that exists,
in order, once without and once with the verse 0s; ranges are intervals of positions in that list and sets of verses
are bitsets (Python ints) over positions. Nothing here calls the code under test.
"""
from bisect import bisect_right


class World:
    def __init__(self, books, maxv, v0):
        """books: list of book keys in order; maxv: key -> list of last verse numbers; v0: key -> set of chapters"""
        self.books = list(books)
        self.idx = {k: i for i, k in enumerate(self.books)}
        self.maxv = [list(maxv[k]) for k in self.books]
        self.v0 = [frozenset(v0.get(k, ())) for k in self.books]
        self._lines = {}
        self.invented = False

    def nchap(self, b):
        return len(self.maxv[b])

    def first_num(self, b, c, zero):
        return 0 if zero and c in self.v0[b] else 1

    def last_num(self, b, c):
        return self.maxv[b][c - 1]

    def exists(self, v, zero):
        b, c, n = v
        return 0 <= b < len(self.books) and 1 <= c <= self.nchap(b) and \
            self.first_num(b, c, zero) <= n <= self.last_num(b, c)

    def line(self, zero):
        zero = bool(zero)
        if zero not in self._lines:
            self._lines[zero] = Line(self, zero)
        return self._lines[zero]


class Line:
    """All the verses in order, under one choice about verse 0."""

    def __init__(self, world, zero):
        self.world = world
        self.zero = zero
        self.start = {}         # (b, c) -> position of the first verse of the chapter
        self.chapters = []      # list of (position, b, c)
        pos = 0
        for b in range(len(world.books)):
            for c in range(1, world.nchap(b) + 1):
                self.start[b, c] = pos
                self.chapters.append((pos, b, c))
                pos += world.last_num(b, c) - world.first_num(b, c, zero) + 1
        self.n = pos
        self._poss = [p for p, _, _ in self.chapters]

    def pos(self, v):
        b, c, n = v
        w = self.world
        lo = w.first_num(b, c, self.zero)
        if not lo <= n <= w.last_num(b, c):
            raise KeyError(v)
        return self.start[b, c] + n - lo

    def verse(self, p):
        i = bisect_right(self._poss, p) - 1
        q, b, c = self.chapters[i]
        return (b, c, p - q + self.world.first_num(b, c, self.zero))

    def chap_span(self, b, c):
        w = self.world
        s = self.start[b, c]
        return s, s + w.last_num(b, c) - w.first_num(b, c, self.zero)

    def book_span(self, b):
        return self.start[b, 1], self.chap_span(b, self.world.nchap(b))[1]

    def book_of(self, p):
        return self.verse(p)[0]

    # -- sets of verses as bitsets -------------------------------------------------------------------------
    @staticmethod
    def mask(lo, hi):
        return ((1 << (hi - lo + 1)) - 1) << lo

    def runs(self, bits, multibook=True):
        """Maximal runs of consecutive positions as (lo, hi); if not multibook, runs are also cut between books."""
        out = []
        while bits:
            lo = (bits & -bits).bit_length() - 1
            rest = (bits >> lo) + 1
            length = (rest & -rest).bit_length() - 1
            hi = lo + length - 1
            bits &= ~self.mask(lo, hi)
            if multibook:
                out.append((lo, hi))
            else:
                while True:
                    end = self.book_span(self.book_of(lo))[1]
                    if end >= hi:
                        out.append((lo, hi))
                        break
                    out.append((lo, end))
                    lo = end + 1
        return out
