from ..gen import *
from bibleref.ref import InvalidReferenceError
from ..invented import invented


@st.composite
def verse_cases(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0 or draw(st.integers(0, 5)) == 0)       # a verse 0 may be asked without VERSE_0
    v = line.verse(draw(positions(line)))
    n = W.nchap(v[0])
    c = draw(st.one_of(st.none(), st.just(v[1]), st.integers(1, n), st.sampled_from([1, n, n + 1, 0, -1])))
    b = draw(st.one_of(st.none(), st.just(v[0]), books()))
    return {"v": list(v), "c": c, "b": b, "mode": mode}


def verse(case):
    v, c, b, mode = tt(case["v"]), case["c"], case["b"], case["mode"]
    zero = eff(mode) & V0
    line = W.line(zero)
    x, k = V(v), kw(mode)
    cc = v[1] if c is None else c
    ok = 1 <= cc <= W.nchap(v[0])
    args = [] if c is None else [c]
    if c is None and case["b"] is None:
        args = [None]
    what = f"{name(v)}, chapter {c}, with {mname(mode)}"

    def call(label, fn, want):
        got = sut(f"{label} of {what}", fn, allow=(InvalidReferenceError,))
        if not ok:
            expect(isinstance(got, Raised), lambda: f"{label} of {what}: there is no such chapter, got {got!r}")
        else:
            expect(not isinstance(got, Raised), lambda: f"{label} of {what}: {got}")
            expect_eq(rd(got) if isinstance(got, BibleVerse) else got, want, f"{label} of {what}")
    with gflags(mode[0]):
        lo = W.first_num(v[0], cc, zero) if ok else None
        hi = W.last_num(v[0], cc) if ok else None
        call("min_verse_num", lambda: x.min_verse_num(*args, **k), lo)
        call("max_verse_num", lambda: x.max_verse_num(*args), hi)
        call("first_verse", lambda: x.first_verse(*args, **k), (v[0], cc, lo))
        call("last_verse", lambda: x.last_verse(*args), (v[0], cc, hi))
        call("is_first_in_chap", lambda: x.is_first_in_chap(*args, **k), v == (v[0], cc, lo))
        call("is_last_in_chap", lambda: x.is_last_in_chap(*args), v == (v[0], cc, hi))
        bk = W.books[v[0]]
        if c is not None:
            call("book.min_verse_num", lambda: bk.min_verse_num(c, **k), lo)
            call("book.max_verse_num", lambda: bk.max_verse_num(c), hi)
            call("book.first_verse", lambda: bk.first_verse(c, **k), (v[0], cc, lo))
            call("book.last_verse", lambda: bk.last_verse(c), (v[0], cc, hi))
        ok = True
        call("min_chap_num", lambda: x.min_chap_num(), 1)
        call("max_chap_num", lambda: x.max_chap_num(), W.nchap(v[0]))
        bb = v[0] if b is None else b
        s, e = line.book_span(bb)
        bargs = [] if b is None else [W.books[b]]
        call(f"is_first_in_book({b})", lambda: x.is_first_in_book(*bargs, **k), v == line.verse(s))
        call(f"is_last_in_book({b})", lambda: x.is_last_in_book(*bargs), v == line.verse(e))
        expect_eq(rdr(sut(what, lambda: x.chap_range(**k))), vr(line, *line.chap_span(v[0], v[1])), f"chap_range of {what}")
        expect_eq(rdr(sut(what, lambda: x.book_range(**k))), vr(line, *line.book_span(v[0])), f"book_range of {what}")
    cs = line.chap_span(*v[:2])
    return ["chapter edge" if v in vr(line, *cs) else "inside"] + ([] if c is None else ["chapter given"])


@st.composite
def range_cases(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    p = draw(positions(line))
    return {"r": draw(ranges(line, p)), "mode": mode}


def range_(case):
    t, mode = tt(case["r"]), case["mode"]
    line = W.line(eff(mode) & V0)
    lo, hi = span_of(line, t)
    r, k = R(t), kw(mode)
    (b1, c1, _), (b2, c2, _) = t
    sc, ec, sb, eb = line.chap_span(b1, c1), line.chap_span(b2, c2), line.book_span(b1), line.book_span(b2)

    def within(s):
        return lo <= s[0] and s[1] <= hi
    want = {
        "is_whole_chap": sc == (lo, hi), "is_whole_book": sb == (lo, hi),
        "spans_start_chap": lo == sc[0] and within(sc), "spans_end_chap": hi == ec[1] and within(ec),
        "spans_start_book": lo == sb[0] and within(sb), "spans_end_book": hi == eb[1] and within(eb),
    }
    # "includes the whole chapter that contains the start verse" - a chapter that contains the start can only be
    # wholly included if it begins there
    expect(want["spans_start_chap"] == within(sc) and want["spans_end_book"] == within(eb), "oracle")
    labels = []
    with gflags(mode[0]):
        for m, w in want.items():
            got = sut(f"{m} of {rname(t)}", lambda: getattr(r, m)(**k))
            expect(got is w, lambda: f"{rname(t)}.{m}() with {mname(mode)} is {got}, want {w}")
            if w:
                labels.append(m)
        expect(sut("is_single_verse", lambda: r.is_single_verse()) is (lo == hi), f"{rname(t)}.is_single_verse()")
        expect_eq(rdr(sut("chap_range", lambda: r.chap_range(**k))), vr(line, sc[0], ec[1]),
                  f"{rname(t)}.chap_range() with {mname(mode)}")
        expect_eq(rdr(sut("book_range", lambda: r.book_range(**k))), vr(line, sb[0], eb[1]),
                  f"{rname(t)}.book_range() with {mname(mode)}")
    return labels or ["no boundary"]


def book_cases():
    for b in range(NB):
        for g in range(4):
            for a in (None, 0, 1, 2, 3):
                yield {"b": b, "mode": [g, a]}


@st.composite
def some_book(draw):
    return {"b": draw(st.integers(0, last_book())), "mode": draw(modes())}


def book(case):
    b, mode = case["b"], case["mode"]
    bk, k = W.books[b], kw(mode)
    line = W.line(eff(mode) & V0)
    what = f"{bk.name} with {mname(mode)}"
    with gflags(mode[0]):
        expect_eq((bk.min_chap_num(), bk.max_chap_num(), bk.chap_count()), (1, W.nchap(b), W.nchap(b)), f"chapter numbers of {what}")
        expect_eq(rd(sut(what, lambda: bk.first_verse(**k))), line.verse(line.book_span(b)[0]), f"first_verse of {what}")
        expect_eq(rd(sut(what, lambda: bk.last_verse())), line.verse(line.book_span(b)[1]), f"last_verse of {what}")
        expect_eq(rdr(sut(what, lambda: bk.range(**k))), vr(line, *line.book_span(b)), f"range of {what}")
        chaps = [vr(line, *line.chap_span(b, c)) for c in range(1, W.nchap(b) + 1)]
        for c in range(1, W.nchap(b) + 1):
            expect_eq(rdr(sut(what, lambda: bk.chap_range(c, **k))), chaps[c - 1], f"chap_range({c}) of {what}")
        for c in (0, W.nchap(b) + 1, -1):
            for m in (lambda: bk.chap_range(c, **k), lambda: bk.first_verse(c, **k), lambda: bk.last_verse(c)):
                got = sut(f"chapter {c} of {what}", m, allow=(InvalidReferenceError,))
                expect(isinstance(got, Raised), f"chapter {c} of {what} was accepted: {got!r}")
        got = sut(what, lambda: bk.chap_ranges(**k), budget=6_000_000)
        expect_eq(rdl(got), chaps, f"chap_ranges of {what}")
        got = sut(what, lambda: bk.chap_ranges(regroup=False, **k), budget=6_000_000)
        expect_eq(rdl(got), chaps, f"chap_ranges(regroup=False) of {what}")
        expect_eq(bk.next(), W.books[b + 1] if b < last_book() else None, f"next of {what}")
        expect_eq(bk.prev(), W.books[b - 1] if b else None, f"prev of {what}")
    return ["book"]


CHECK = Check("C07", "Chapter and book boundary queries agree with the versification", [
    Facet("verse", verse_cases(), verse, 4000),
    invented(Facet("verse", verse_cases(), verse, 0), 1200),
    Facet("range", range_cases(), range_, 6000),
    invented(Facet("range", range_cases(), range_, 0), 2000),
    Exhaustive("book", book_cases, book),
    invented(Facet("book", some_book(), book, 0), 1000),
], rule="verses and ranges at and around chapter/book ends x flags, every book under every flag combination; oracle: "
        "intervals of the flat list of verses. Non-trivial: every case (each decides all queries of one object)")
