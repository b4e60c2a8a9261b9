from ..gen import *
from ..invented import invented

BIG = 6_000_000


@st.composite
def one_range(draw):
    mode = draw(modes())
    zero = bool(eff(mode) & V0) or draw(st.integers(0, 3)) == 0
    line = W.line(zero)
    p = draw(positions(line))
    return {"r": draw(ranges(line, p)), "mode": mode}


def implied(rs):
    return any(v[2] == 0 for r in rs for v in r)


def counts(line, t):
    """verses, chapters touched, whole chapters, books touched, whole books of the range t"""
    lo, hi = span_of(line, t)
    (b1, c1, _), (b2, c2, _) = t
    chaps = wchaps = wbooks = 0
    for b in range(b1, b2 + 1):
        for c in range(c1 if b == b1 else 1, (c2 if b == b2 else line.world.nchap(b)) + 1):
            s, e = line.chap_span(b, c)
            chaps += 1
            wchaps += lo <= s and e <= hi
        s, e = line.book_span(b)
        wbooks += lo <= s and e <= hi
    return hi - lo + 1, chaps, wchaps, b2 - b1 + 1, wbooks


def check_counts(obj, want, mode, imp, what):
    n, ch, wch, bk, wbk = want
    with gflags(mode[0]):
        k = kw(mode)
        expect_eq(sut(what, lambda: obj.verse_count(**k), budget=BIG), n, f"{what}.verse_count()")
        expect_eq(sut(what, lambda: obj.chap_count(**k), budget=BIG), ch, f"{what}.chap_count()")
        expect_eq(sut(what, lambda: obj.book_count(**k), budget=BIG), bk, f"{what}.book_count()")
        if not imp:     # a chapter with a verse 0 has no agreed extent when the flags say it has none
            expect_eq(sut(what, lambda: obj.chap_count(whole=True, **k), budget=BIG), wch,
                      f"{what}.chap_count(whole=True)")
            expect_eq(sut(what, lambda: obj.book_count(whole=True, **k), budget=BIG), wbk,
                      f"{what}.book_count(whole=True)")


def count_range(case):
    t, mode = tt(case["r"]), case["mode"]
    imp = implied([t]) and not eff(mode) & V0
    line = W.line(bool(eff(mode) & V0) or imp)
    what = f"{rname(t)} with {mname(mode)}"
    want = counts(line, t)
    check_counts(R(t), want, mode, imp, what)
    return [("many books" if want[3] > 1 else "many chapters" if want[1] > 1 else
             "many verses" if want[0] > 1 else "one verse")] + (["verse 0"] if implied([t]) else [])


@st.composite
def iter_cases(draw):
    g = draw(st.sampled_from([0, 1, 2, 3]))
    line = W.line(bool(g & V0) or draw(st.integers(0, 3)) == 0)
    p = draw(positions(line))
    lo, hi = draw(spans(line, p))
    hi = min(hi, lo + draw(st.sampled_from([3, 60, 400, 400, 3000])))
    return {"r": [list(line.verse(lo)), list(line.verse(hi))], "g": g}


def iterate(case):
    t, g = tt(case["r"]), case["g"]
    line = W.line(bool(g & V0) or implied([t]))
    lo, hi = span_of(line, t)
    want = [line.verse(p) for p in range(lo, hi + 1)]
    r = R(t)
    what = f"iterating {rname(t)} with global flags {FLAG[g]}"
    with gflags(g):
        got = [rd(v) for v in drain(what, lambda: r, len(want), budget=BIG)]
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Violation(f"{what}: {len(got)} verses, want {len(want)}; first difference at item {i}: "
                            f"{[name(v) for v in got[i:i+2]]}, want {[name(v) for v in want[i:i+2]]}")
        expect_eq(sut(what, lambda: r.verse_count(), budget=BIG), len(want), f"{what}: verse_count()")
    return ["many books" if t[0][0] != t[1][0] else "many chapters" if t[0][1] != t[1][1] else "one chapter"] \
        if hi > lo else []


@st.composite
def weave_cases(draw):
    case = draw(iter_cases())
    case["plan"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 4)), min_size=2, max_size=12))
    return case


def weave(case):
    """Several iterations over one range at the same time, some left unfinished, others read the counts meanwhile."""
    t, g = tt(case["r"]), case["g"]
    line = W.line(bool(g & V0) or implied([t]))
    lo, hi = span_of(line, t)
    r = R(t)
    what = f"iterating {rname(t)} several times at once ({case['plan']}) with global flags {FLAG[g]}"
    its, done = {}, {}
    with gflags(g):
        for who, n in case["plan"]:
            if who == 3:
                expect_eq(sut(what, lambda: r.verse_count(), budget=BIG), hi - lo + 1, f"{what}: verse_count()")
                continue
            if who not in its:
                its[who], done[who] = sut(what, lambda: iter(r)), lo
            got = [rd(v) for v in sut(what, lambda: list(itertools.islice(its[who], n)))]
            want = [line.verse(p) for p in range(done[who], min(done[who] + n, hi + 1))]
            expect_eq(got, want, what)
            done[who] += len(want)
        got = [rd(v) for v in sut(what, lambda: list(itertools.islice(iter(r), 5)))]
        expect_eq(got, [line.verse(p) for p in range(lo, min(lo + 5, hi + 1))], f"{what}: once more from the start")
    return ["woven"] if len(its) > 1 and hi > lo else []


@st.composite
def list_cases(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    rs = draw(cluster(line, True, 0, 5))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode}


def count_list(case):
    rs, mode = tt(case["rs"]), case["mode"]
    line = W.line(eff(mode) & V0)
    want = [sum(x) for x in zip((0, 0, 0, 0, 0), *(counts(line, t) for t in rs))]
    lst = LG(apply_groups(rs, case["cuts"]))
    what = f"{lname(rs)} with {mname(mode)}"
    check_counts(lst, want, mode, False, what)
    expect_eq(sut("len", lambda: len(lst)), len(rs), f"len of {what}")
    return ["several ranges"] if len(rs) > 1 else []


def book_cases():
    for b in range(NB):
        for g in (0, 2):
            for a in (None, 0, 1, 2):
                yield {"b": b, "mode": [g, a]}


def book(case):
    bk, mode = W.books[case["b"]], case["mode"]
    line = W.line(eff(mode) & V0)
    s, e = line.book_span(case["b"])
    with gflags(mode[0]):
        expect_eq(sut("verse_count", lambda: bk.verse_count(**kw(mode))), e - s + 1, f"{bk.name}.verse_count(), {mname(mode)}")
        expect_eq(sut("chap_count", lambda: bk.chap_count()), W.nchap(case["b"]), f"{bk.name}.chap_count()")
        r = sut("range", lambda: bk.range(**kw(mode)))
        expect_eq(sut("verse_count", lambda: r.verse_count(**kw(mode)), budget=BIG), e - s + 1, f"{bk.name}.range().verse_count(), {mname(mode)}")
    return ["book"]


def bible_cases():
    for g in range(4):
        yield {"g": g}


def bible(case):
    g = case["g"]
    line = W.line(g & V0)
    t = vr(line, 0, line.n - 1)
    with gflags(g):
        r = sut("whole_bible", lambda: BibleRange.whole_bible())
        want = [line.verse(p) for p in range(line.n)]
        got = [rd(v) for v in drain("iterating the whole Bible", lambda: r, line.n, budget=BIG)]
        expect(got == want, f"iterating the whole Bible with global flags {FLAG[g]}: {len(got)} verses, want {len(want)}, or out of order")
    check_counts(r, counts(line, t), [g, None], False, f"the whole Bible with {FLAG[g]}")
    return ["whole Bible"]


CHECK = Check("C06", "Iteration and counts agree with the verses that exist", [
    Facet("iterate", iter_cases(), iterate, 2400),
    invented(Facet("iterate", iter_cases(), iterate, 0), 1000),
    Facet("weave", weave_cases(), weave, 600),
    invented(Facet("weave", weave_cases(), weave, 0), 600),
    Facet("count", one_range(), count_range, 2400),
    invented(Facet("count", one_range(), count_range, 0), 1000),
    Facet("count-list", list_cases(), count_list, 1200),
    invented(Facet("count-list", list_cases(), count_list, 0), 600),
    Exhaustive("books", book_cases, book),
    Exhaustive("bible", bible_cases, bible),
], rule="ranges from one verse to many books, ends drawn at chapter and book ends, all flags; several iterations of one range at once; oracle: slices of the flat "
        "list of all verses. Non-trivial: more than one verse (or a single verse counted)",
    assumptions=["whole-chapter/whole-book counts of a range that has a verse 0 although VERSE_0 is not in effect are "
                 "not checked"])
