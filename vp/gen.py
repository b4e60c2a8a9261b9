"""Strategies (all cases are JSON values) and the bridge between cases and objects of the code under test."""
import random

from . import strat as st
from .core import *
from .model import World

W = World(DEFAULT_DATA["book_order"], DEFAULT_DATA["max_verses"], DEFAULT_DATA["verse_0s"])
NB = len(W.books)
SINGLE = [b for b in range(NB) if W.nchap(b) == 1]
PSA = W.idx[BibleBook.Psa]


def last_book():
    return len(W.books) - 1


def zero_chaps():
    """All chapters with a verse 0, as (book, chapter)."""
    return [(b, c) for b in range(len(W.books)) for c in sorted(W.v0[b])]


# ------------------------------------------------------------------ bridge


def rd(v, w=W):
    """A BibleVerse as a model tuple."""
    if not isinstance(v, BibleVerse):
        raise Violation(f"expected a BibleVerse, got {_r(v)}")
    return (w.idx[v.book], v.chap_num, v.verse_num)


def _r(v):
    try:
        return repr(v)[:200]
    except Exception as exc:
        return f"<{type(v).__name__}, repr fails: {exc}>"


def rdr(r, w=W):
    """A BibleRange as a pair of model tuples."""
    if not isinstance(r, BibleRange):
        raise Violation(f"expected a BibleRange, got {_r(r)}")
    return (rd(r.start, w), rd(r.end, w))


def rdl(lst, cap=20000, w=W):
    """The flat contents of a BibleRangeList as pairs of model tuples."""
    if not isinstance(lst, BibleRangeList):
        raise Violation(f"expected a BibleRangeList, got {_r(lst)}")
    return [rdr(r, w) for r in drain("iterating the list", lambda: lst, cap)]


def rdg(lst, cap=20000, w=W):
    """The groups of a BibleRangeList as lists of pairs."""
    if not isinstance(lst, BibleRangeList):
        raise Violation(f"expected a BibleRangeList, got {_r(lst)}")
    groups = drain("iterating the groups", lambda: lst.groups, cap)
    return [[rdr(r, w) for r in drain("iterating a group", lambda g=g: g, cap)] for g in groups]


def V(t, w=W):
    return sut(f"constructing verse {t}", lambda: BibleVerse(w.books[t[0]], t[1], t[2], flags=BibleFlag.ALL))


def R(t, w=W):
    a, b = V(t[0], w), V(t[1], w)
    return sut(f"constructing range {t}", lambda: BibleRange(start=a, end=b, flags=BibleFlag.ALL))


def L(ranges, w=W):
    rs = [R(t, w) for t in ranges]
    return sut(f"constructing list {ranges}", lambda: BibleRangeList(rs, flags=BibleFlag.ALL))


def LG(groups, w=W):
    gs = [[R(t, w) for t in g] for g in groups]
    return sut(f"constructing list {groups}", lambda: BibleRangeList(gs, flags=BibleFlag.ALL))


def name(t, w=W):
    return f"{w.books[t[0]].name} {t[1]}:{t[2]}"


def rname(t, w=W):
    return f"{name(t[0], w)}-{name(t[1], w)}"


def lname(rs, w=W):
    return "[" + ", ".join(rname(t, w) for t in rs) + "]"


def tt(x):
    """JSON lists back to tuples."""
    return tuple(tt(i) for i in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ flags
# A mode [g, a]: package-wide flags FLAG[g], and flags argument FLAG[a] (or no argument if a is None).


def modes(effs=(0, 1, 2, 3), arg=True):
    opts = [[f, None] for f in effs]
    if arg:
        opts += [[g, f] for f in effs for g in (0, 1, 2, 3)]
        return st.one_of(st.sampled_from(opts[:len(effs)]), st.sampled_from(opts))
    return st.sampled_from(opts)


def eff(mode):
    return mode[0] if mode[1] is None else mode[1]


def kw(mode):
    return {} if mode[1] is None else {"flags": FLAG[mode[1]]}


def mname(mode):
    return f"global flags {FLAG[mode[0]]}" + ("" if mode[1] is None else f", flags argument {FLAG[mode[1]]}")


# ------------------------------------------------------------------ verses and ranges

_INTEREST = sorted(set(SINGLE + [PSA, 0, NB - 1, W.idx[BibleBook.Mal], W.idx[BibleBook.Matt], W.idx[BibleBook.Esth],
                                 W.idx[BibleBook.IJn], W.idx[BibleBook.Ruth], W.idx[BibleBook.Jonah],
                                 W.idx[BibleBook.Titus], W.idx[BibleBook.Job], W.idx[BibleBook.Song],
                                 W.idx[BibleBook.Prov], W.idx[BibleBook.Heb], W.idx[BibleBook.Hag]]))


def books(w=W):
    if w is W:
        if W.invented:
            return st.integers(0, len(W.books) - 1)
        return st.one_of(st.sampled_from(_INTEREST), st.integers(0, NB - 1), st.just(PSA))
    return st.integers(0, len(w.books) - 1)


@st.composite
def positions(draw, line, w=W):
    """A position, favouring ends of chapters and books, single-chapter books and Psalms."""
    b = draw(books(w))
    n = w.nchap(b)
    c = draw(st.one_of(st.integers(1, n), st.sampled_from([1, n, min(2, n), max(1, n - 1)])))
    s, e = line.chap_span(b, c)
    return draw(st.one_of(st.integers(s, e), st.sampled_from([s, e, min(s + 1, e), max(s, e - 1)])))


@st.composite
def near(draw, line, p0, w=W):
    """A position in the neighbourhood of p0: a few verses off, a chapter or book boundary close by, or anywhere."""
    n = line.n
    kind = draw(st.sampled_from("0123456789"))
    if kind in "012":
        p = p0 + draw(st.integers(-4, 4))
    elif kind in "3":
        p = p0 + draw(st.integers(-60, 60))
    elif kind in "456":
        b, c, _ = line.verse(p0)
        c = min(max(1, c + draw(st.integers(-2, 2))), w.nchap(b))
        s, e = line.chap_span(b, c)
        p = draw(st.sampled_from([s, e, s + 1, e - 1]))
    elif kind in "78":
        b = line.book_of(p0) + draw(st.sampled_from([0, 0, 0, 1, -1, 2, -2]))
        b = min(max(0, b), len(w.books) - 1)
        s, e = line.book_span(b)
        p = draw(st.sampled_from([s, e, s + 1, e - 1]))
    else:
        p = draw(positions(line, w))
    return min(max(0, p), n - 1)


def _vt(line, p):
    return list(line.verse(p))


@st.composite
def spans(draw, line, p0, multibook=True, w=W):
    """An interval (lo, hi) of positions near p0."""
    a = draw(near(line, p0, w))
    shape = draw(st.sampled_from("vcbrrrr"))
    if shape == "v":
        return a, a
    if shape == "c":
        b, c, _ = line.verse(a)
        if draw(st.booleans()):
            return line.chap_span(b, c)
        c2 = min(w.nchap(b), c + draw(st.integers(0, 3)))
        return line.chap_span(b, c)[0], line.chap_span(b, c2)[1]
    if shape == "b":
        b = line.book_of(a)
        b2 = min(len(w.books) - 1, b + draw(st.integers(0, 2))) if multibook else b
        return line.book_span(b)[0], line.book_span(b2)[1]
    z = draw(near(line, p0, w))
    lo, hi = min(a, z), max(a, z)
    if not multibook:
        hi = min(hi, line.book_span(line.book_of(lo))[1])
    return lo, hi


@st.composite
def ranges(draw, line, p0, multibook=True, w=W):
    lo, hi = draw(spans(line, p0, multibook, w))
    return [_vt(line, lo), _vt(line, hi)]


def cluster(line, multibook, min_size=0, max_size=5, w=W):
    """A list of ranges around one place (so that they overlap, touch and nest), sometimes around two."""
    @st.composite
    def go(draw):
        p0 = draw(positions(line, w))
        p1 = draw(positions(line, w)) if draw(st.integers(0, 4)) == 0 else p0
        n = draw(st.integers(min_size, max_size))
        return [draw(ranges(line, draw(st.sampled_from([p0, p1])), multibook, w)) for _ in range(n)]
    return go()


def knot(line, multibook, min_size=1, max_size=6, w=W):
    """A list of ranges of every shape, unordered, between few places: the same two chapter numbers of up to three
    neighbouring books."""
    @st.composite
    def go(draw):
        b0 = draw(books(w))
        bs = sorted({min(len(w.books) - 1, b0 + i) for i in range(draw(st.integers(1, 3)))})
        cs = draw(st.lists(st.integers(1, max(w.nchap(b) for b in bs)), min_size=1, max_size=2))
        spots = sorted({line.chap_span(b, min(c, w.nchap(b))) for b in bs for c in cs})

        def place():
            s, e = draw(st.sampled_from(spots))
            return draw(st.sampled_from([s, s, min(s + 1, e), max(s, e - 1), e, (s + e) // 2]))
        out = []
        for _ in range(draw(st.integers(min_size, max_size))):
            lo, hi = place(), place()
            if draw(st.integers(0, 2)) == 0:
                hi = lo
            lo, hi = min(lo, hi), max(lo, hi)
            if not multibook:
                hi = min(hi, line.book_span(line.book_of(lo))[1])
            out.append([_vt(line, lo), _vt(line, hi)])
        return out
    return go()


def bulk(line, multibook, n, seed, w=W):
    """Many ranges of every shape around one place, in no order, as pairs of verse tuples (a function of n and seed;
    the first of n + 1 ranges are those of n)."""
    rnd = random.Random(seed)
    home = rnd.randrange(line.n)
    spread = rnd.choice([40, 200, 1500, line.n])
    out = []
    while len(out) < n:
        lo = min(max(0, home + rnd.randint(-spread, spread)), line.n - 1)
        shape = rnd.choice("vvvccbrrrrsn")
        b, c, _ = line.verse(lo)
        if shape == "v":
            hi = lo
        elif shape == "c":
            lo, hi = line.chap_span(b, c)[0], line.chap_span(b, min(w.nchap(b), c + rnd.choice([0, 0, 1, 2])))[1]
        elif shape == "b":
            lo, hi = line.book_span(b)
            if rnd.random() < .7:
                lo = hi = rnd.choice([lo, hi])
        elif shape == "s" and out:
            lo, hi = line.pos(out[-1][0]), line.pos(out[-1][1])
        elif shape == "n" and out:
            lo = min(line.pos(out[-1][1]) + rnd.choice([1, 1, 2]), line.n - 1)
            hi = min(lo + rnd.randint(0, 9), line.n - 1)
        else:
            hi = min(lo + rnd.choice([1, 2, 5, 20, 45, 200]), line.n - 1)
        if not multibook:
            hi = min(hi, line.book_span(line.book_of(lo))[1])
        out.append(vr(line, lo, hi))
    return out


def bulk_cuts(n, seed):
    """A grouping of n items, as group_split gives it."""
    rnd = random.Random(seed)
    p = rnd.choice([0, .1, .3, .6, 1])
    return [rnd.random() < p for _ in range(max(0, n - 1))]


SEED = st.integers(0, 10 ** 6)


@st.composite
def many_n(draw, lo, hi):
    """A number of ranges: mostly lo..hi, rarely far more."""
    t = draw(st.integers(0, 24))
    return draw(st.integers(hi, 150) if t == 24 else st.integers(150, 320) if t == 23 else st.integers(lo, hi))


def span_of(line, t):
    """A range of the case as positions."""
    return line.pos(tt(t[0])), line.pos(tt(t[1]))


def bits_of(line, rs):
    m = 0
    for t in rs:
        m |= line.mask(*span_of(line, t))
    return m


def vr(line, lo, hi):
    """Positions as a pair of verse tuples."""
    return (line.verse(lo), line.verse(hi))


def group_split(n_items):
    """Strategy for a grouping of n items: sorted cut points."""
    return st.lists(st.booleans(), min_size=max(0, n_items - 1), max_size=max(0, n_items - 1))


def apply_groups(items, cuts):
    if not items:
        return []
    out = [[items[0]]]
    for item, cut in zip(items[1:], cuts):
        if cut:
            out.append([item])
        else:
            out[-1].append(item)
    return out
