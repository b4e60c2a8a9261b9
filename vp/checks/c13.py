from ..gen import *
from ..refparse import *
from bibleref.ref import BibleRefParsingError, InvalidReferenceError
from ..invented import invented


@st.composite
def cases(draw):
    mode = draw(modes())
    t = draw(texts(W, mode, implied_start=draw(st.integers(0, 9)) == 0))
    return {**t, "mode": mode}


@st.composite
def long_cases(draw):
    mode = draw(modes())
    return {**draw(texts(W, mode, max_items=draw(st.sampled_from([12, 12, 20, 20, 40, 40, 12, 20, 40, 12, 20, 40, 120, 240])), invalid=draw(st.booleans()))), "mode": mode}


def check_text(case, s, mode, want, err, w=W, what=None):
    """Compare one parse with the expected groups (or error)."""
    what = what or f"BibleRangeList({s!r}) with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: BibleRangeList(s, **kw(mode)), allow=(BibleRefParsingError,))
        if err is not None:
            expect(isinstance(got, Raised), lambda: f"{what}: should be refused ({err.why}), got {got!r}")
            span = (got.exc.start_pos, got.exc.end_pos)
            expect_eq(span, err.span, f"{what}: position of the error ({err.why}; {s[err.span[0]:err.span[1]]!r})")
            return
        expect(not isinstance(got, Raised), lambda: f"{what}: {got!r}")
        expect_eq(rdg(got, w=w), want, what)
        expect_eq(rdl(got, w=w), [r for g in want for r in g], what)
        flat = [r for g in want for r in g]
        got = sut(f"BibleRange({s!r})", lambda: BibleRange(s, **kw(mode)), allow=(InvalidReferenceError,))
        if len(flat) == 1:
            expect(not isinstance(got, Raised), lambda: f"BibleRange({s!r}), {mname(mode)}: {got!r}")
            expect_eq(rdr(got, w), flat[0], f"BibleRange({s!r})")
        else:
            expect(isinstance(got, Raised), lambda: f"BibleRange({s!r}) of several ranges gives {got!r}")
        got = sut(f"BibleVerse({s!r})", lambda: BibleVerse(s, **kw(mode)), allow=(InvalidReferenceError,))
        if len(flat) == 1 and flat[0][0] == flat[0][1]:
            expect(not isinstance(got, Raised), lambda: f"BibleVerse({s!r}), {mname(mode)}: {got!r}")
            expect_eq(rd(got, w), flat[0][0], f"BibleVerse({s!r})")
        else:
            expect(isinstance(got, Raised), lambda: f"BibleVerse({s!r}), not one verse, gives {got!r}")


def expected(case, f, w=W, seps=SEPS):
    try:
        return meaning(case, f, w, seps), None
    except RefError as e:
        return None, e


def parse(case):
    mode = case["mode"]
    s = text_of(case)
    want, err = expected(case, eff(mode))
    check_text(case, s, mode, want, err)
    if err:
        return ["refused: " + err.why]
    labels = ["parsed", f"{min(len(case['items']), 4)} items"]
    if any(r["b"] is None for it in case["items"] for r in it["refs"]):
        labels.append("implied book")
    if any(len(it["refs"]) == 2 for it in case["items"]):
        labels.append("ranges")
    if any(a[0][0] != a[1][0] for g in want for a in g):
        labels.append("multi-book")
    return labels


CHECK = Check("C13", "Parsing a reference string gives what the string means", [
    Facet("parse", cases(), parse, 3600),
    invented(Facet("parse", cases(), parse, 0), 1200),
    Facet("long", long_cases(), parse, 200),
    invented(Facet("long", long_cases(), parse, 0), 120),
], rule="strings of up to 5, and of up to 40 (sometimes 240), references generated from a structure (books in any spelling, chapters, verses, ranges, reversed ranges, implied "
        "books and chapters, both list separators, both verse separators, spacing, nonexistent references) x flags; "
        "oracle: a reference interpreter of the structure, which gives the ranges and groups or the span of the first "
        "offending reference. Non-trivial: every case (parsed or refused as the interpreter says)")
