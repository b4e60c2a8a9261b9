from ..gen import *
from ..golden import CANON, SUPERSCRIBED
from bibleref.ref import InvalidReferenceError


def chapters():
    for b, (_, _, _, v) in enumerate(CANON):
        for c in range(1, len(v) + 1):
            yield {"b": b, "c": c}


def chapter(case):
    b, c = case["b"], case["c"]
    n, abbrev, title, v = CANON[b]
    book = getattr(BibleBook, n)
    last = v[c - 1]
    zero = n == "Psa" and c in SUPERSCRIBED
    for f in range(4):
        with gflags(f):
            for k, ok in ((0, zero and bool(f & V0)), (1, True), (last, True), (last + 1, False)):
                got = sut(f"BibleVerse({n}, {c}, {k})", lambda: BibleVerse(book, c, k), allow=(InvalidReferenceError,))
                expect(isinstance(got, Raised) != ok, lambda: f"{title} {c}:{k} gives {got!r} with flags {FLAG[f]}; "
                                                              f"the chapter has {last} verses, verse 0: {zero}")
    expect_eq(sut("max_verse_num", lambda: book.max_verse_num(c)), last, f"last verse of {title} {c}")
    return ["chapter"]


def books_():
    for b in range(len(CANON)):
        yield {"b": b}


def book(case):
    b = case["b"]
    n, abbrev, title, v = CANON[b]
    bk = getattr(BibleBook, n, None)
    expect(bk is not None, f"BibleBook has no {n}")
    expect_eq((bk.order, bk.abbrev, bk.title), (b, abbrev, title), f"order, abbreviation and title of {n}")
    expect_eq(sut("chap_count", lambda: bk.chap_count()), len(v), f"chapters in {title}")
    expect_eq(sut("verse_count", lambda: bk.verse_count(flags=BibleFlag.NONE)), sum(v), f"verses in {title}")
    extra = len(SUPERSCRIBED) if n == "Psa" else 0
    expect_eq(sut("verse_count", lambda: bk.verse_count(flags=BibleFlag.VERSE_0)), sum(v) + extra, f"verses in {title} with verse 0s")
    nxt = getattr(BibleBook, CANON[b + 1][0]) if b + 1 < len(CANON) else None
    prv = getattr(BibleBook, CANON[b - 1][0]) if b else None
    expect(sut("next", lambda: bk.next()) is nxt, f"{title} is followed by {bk.next()}")
    expect(sut("prev", lambda: bk.prev()) is prv, f"{title} is preceded by {bk.prev()}")
    expect(sut("from_str", lambda: BibleBook.from_str(title)) is bk, f"from_str({title!r})")
    expect(sut("from_str", lambda: BibleBook.from_str(abbrev)) is bk, f"from_str({abbrev!r})")
    return ["book"]


@st.composite
def texts_(draw):
    b = draw(st.integers(0, len(CANON) - 1))
    v = CANON[b][3]
    c = draw(st.integers(1, len(v)))
    k = draw(st.one_of(st.integers(0, v[c - 1] + 2), st.sampled_from([v[c - 1], v[c - 1] + 1, 0, 1])))
    return {"b": b, "c": c, "v": k, "f": draw(st.integers(0, 3)), "abbrev": draw(st.booleans())}


def text(case):
    b, c, k, f = case["b"], case["c"], case["v"], case["f"]
    n, abbrev, title, v = CANON[b]
    s = f"{abbrev if case['abbrev'] else title} {c}:{k}"
    ok = (0 if f & V0 and n == "Psa" and c in SUPERSCRIBED else 1) <= k <= v[c - 1]
    from bibleref.ref import BibleRefParsingError
    got = sut(f"BibleVerse({s!r})", lambda: BibleVerse(s, flags=FLAG[f]), allow=(BibleRefParsingError, InvalidReferenceError))
    expect(isinstance(got, Raised) != ok, lambda: f"BibleVerse({s!r}) with {FLAG[f]} gives {got!r}")
    if ok:
        expect((got.book.name, got.chap_num, got.verse_num) == (n, c, k), lambda: f"BibleVerse({s!r}) gives {got!r}")
    return ["exists" if ok else "does not exist"]


def whole():
    for f in range(4):
        yield {"f": f}


def bible(case):
    f = case["f"]
    want = [(n, c, k) for n, _, _, v in CANON for c, last in enumerate(v, 1)
            for k in range(0 if f & V0 and n == "Psa" and c in SUPERSCRIBED else 1, last + 1)]
    with gflags(f):
        r = sut("whole_bible", lambda: BibleRange.whole_bible())
        expect_eq(sut("verse_count", lambda: r.verse_count(), budget=10**7), len(want), f"verses in the Bible with {FLAG[f]}")
        got = drain("iterating the whole Bible", lambda: r, len(want), budget=10**7)
        got = [(v.book.name, v.chap_num, v.verse_num) for v in got]
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), None)
        expect(got == want, lambda: f"the Bible with {FLAG[f]}: {len(got)} verses, want {len(want)}; first difference at {i}")
    return ["bible"]


CHECK = Check("C27", "The default Bible is the 66-book canon with its standard versification", [
    Exhaustive("chapters", chapters, chapter),
    Exhaustive("books", books_, book),
    Exhaustive("whole", whole, bible),
    Facet("texts", texts_(), text, 1600),
], rule="every chapter (first and last verse and their neighbours, verse 0) and every book enumerated, the whole Bible "
        "iterated under all flags, and generated reference strings; oracle: a table of the canon held by the check. "
        "Non-trivial: every case",
    assumptions=["the standard is the King James versification (1189 chapters, 31102 verses) with the 116 superscribed Psalms"])
