from ..gen import *
from .c06 import BIG
from ..invented import invented


@st.composite
def opts(draw, *names):
    return {n: True for n in names if draw(st.integers(0, 2)) == 0}


@st.composite
def verse_cases(draw):
    mode = draw(modes(arg=False))
    line = W.line(eff(mode) & V0)
    return {"v": list(line.verse(draw(positions(line)))), "mode": mode, "o": draw(opts("abbrev", "alt_sep", "nospace"))}


def verse(case):
    v, mode = tt(case["v"]), case["mode"]
    x = V(v)
    with gflags(mode[0]):
        s = sut("str", lambda: x.str(**case["o"]))
        back = sut(f"BibleVerse({s!r}), written from {name(v)} with {case['o']},", lambda: BibleVerse(s))
        expect_eq(rd(back), v, f"{name(v)} written with {case['o']} as {s!r} reads as")
        expect(back == x, f"{name(v)} != itself after {s!r}")
        s = sut("str", lambda: str(x))
        expect_eq(rd(sut(f"BibleVerse({s!r})", lambda: BibleVerse(s))), v, f"str() of {name(v)}, {s!r}, reads as")
    return ["verse"] + sorted(case["o"])


@st.composite
def range_cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    return {"r": draw(ranges(line, draw(positions(line)), bool(f & MB))), "mode": mode,
            "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


def shape(t, line):
    lo, hi = span_of(line, t)
    if t[0] == t[1]:
        return "one verse"
    if t[0][0] != t[1][0]:
        return "multi-book"
    if line.book_span(t[0][0]) == (lo, hi):
        return "whole book"
    if lo == line.chap_span(*t[0][:2])[0] and hi == line.chap_span(*t[1][:2])[1]:
        return "whole chapters"
    return "several chapters" if t[0][1] != t[1][1] else "verses"


def range_(case):
    t, mode = tt(case["r"]), case["mode"]
    line = W.line(eff(mode) & V0)
    r, k = R(t), kw(mode)
    with gflags(mode[0]):
        s = sut("str", lambda: r.str(**case["o"], **k))
        what = f"{rname(t)} written with {case['o']}, {mname(mode)}, as {s!r}"
        back = sut(f"reading {what}", lambda: BibleRange(s, **k))
        expect_eq(rdr(back), t, f"{what} reads as")
        if mode[1] is None:
            s = sut("str", lambda: str(r))
            back = sut(f"reading str() of {rname(t)}, {s!r}", lambda: BibleRange(s))
            expect_eq(rdr(back), t, f"str() of {rname(t)}, {s!r}, {mname(mode)}, reads as")
    return [shape(t, line)] + sorted(case["o"])


@st.composite
def list_cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    mb = bool(f & MB)
    rs = draw(st.one_of(cluster(line, mb, 1, 6), same_book(line, mb), knot(line, mb)))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode,
            "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


@st.composite
def same_book(draw, line, mb):
    """Ranges of every shape within one book (and, with MULTIBOOK, into its neighbours)."""
    b = draw(books())
    out = []
    for _ in range(draw(st.integers(1, 7))):
        c = draw(st.integers(1, W.nchap(b))) if not out or draw(st.booleans()) else min(out[-1][1][1], W.nchap(b))
        s, e = line.chap_span(b, c)
        c2 = min(W.nchap(b), c + draw(st.integers(0, 2)))
        s2, e2 = line.chap_span(b, c2)
        lo = draw(st.sampled_from([s, s, s, min(s + 1, e), e, draw(st.integers(s, e))]))
        hi = draw(st.sampled_from([lo, lo, e, e, e2, e2, draw(st.integers(s2, e2)), draw(st.integers(lo, e))]))
        if hi < lo:
            lo, hi = hi, lo
        if mb and draw(st.integers(0, 5)) == 0:
            nb = min(last_book(), b + 1)
            hi = draw(st.sampled_from([line.book_span(nb)[1], line.book_span(nb)[0], line.chap_span(nb, 1)[1],
                                       line.book_span(b)[1]]))
            if draw(st.booleans()):
                lo = line.book_span(b)[0]
            hi = max(hi, lo)
            b = line.book_of(hi) if draw(st.booleans()) else b
        elif draw(st.integers(0, 9)) == 0:
            lo, hi = line.book_span(b)
        out.append([list(line.verse(lo)), list(line.verse(hi))])
    return out


def list_(case):
    rs, mode = tt(case["rs"]), case["mode"]
    groups = apply_groups(list(rs), case["cuts"])
    lst, k = LG(groups), kw(mode)
    with gflags(mode[0]):
        for pg in (True, False):
            s = sut("str", lambda: lst.str(preserve_groups=pg, **case["o"], **k), budget=BIG)
            what = f"{[lname(g) for g in groups]} written with preserve_groups={pg}, {case['o']}, {mname(mode)}, as {s!r}"
            back = sut(f"reading {what}", lambda: BibleRangeList(s, **k))
            if pg:
                expect_eq(rdg(back), groups, f"{what} reads as")
                expect(sut("==", lambda: back == lst) is True, f"{what}: reads as an unequal list")
            else:
                expect_eq(rdl(back), list(rs), f"{what} reads as")
        if mode[1] is None:
            s = sut("str", lambda: str(lst), budget=BIG)
            back = sut(f"reading str() {s!r}", lambda: BibleRangeList(s))
            expect_eq(rdg(back), groups, f"str() of {[lname(g) for g in groups]}, {s!r}, {mname(mode)}, reads as")
    if len(rs) < 2:
        return []
    return ["several groups" if len(groups) > 1 else "one group"] + sorted(case["o"])


@st.composite
def many(draw):
    case = {"mode": draw(modes()), "n": draw(many_n(2, 60)), "seed": draw(SEED)}
    case["o"] = draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))
    return case


def many_ranges(case):
    f = eff(case["mode"])
    rs = bulk(W.line(f & V0), bool(f & MB), case["n"], case["seed"])
    return list_({**case, "rs": rs, "cuts": bulk_cuts(len(rs), case["seed"])}) + (["over 15"] if len(rs) > 15 else [])


CHECK = Check("C16", "Writing a reference and reading it back gives the same reference", [
    Facet("verse", verse_cases(), verse, 1600),
    invented(Facet("verse", verse_cases(), verse, 0), 500),
    Facet("range", range_cases(), range_, 4000),
    invented(Facet("range", range_cases(), range_, 0), 1200),
    Facet("list", list_cases(), list_, 4000),
    invented(Facet("list", list_cases(), list_, 0), 1200),
    Facet("many", many(), many_ranges, 240),
    invented(Facet("many", many(), many_ranges, 0), 120),
], rule="verses, ranges of every shape (verse, verses, chapters, books, mixtures, multi-book) and grouped lists of them (of up to 7, and of up to 60, sometimes 320, ranges) "
        "x all combinations of abbrev, alt_sep, nospace, force_start_verses, preserve_groups x flags; oracle: reading "
        "gives the original (groups too, unless preserve_groups is False). Non-trivial: every verse and range; lists of "
        "at least two ranges",
    assumptions=["written and read under the same flags", "lists are not empty"])
