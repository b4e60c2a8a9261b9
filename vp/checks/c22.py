from ..gen import *
from .c09 import build, bn, related
from .c10 import OPS
from .c11 import INPLACE
from .c06 import BIG, check_counts, counts
from .c08 import pieces
from .c16 import opts
import operator
from ..invented import invented


def unset_modes():
    return st.sampled_from([[0, None], [0, None], [2, None], [1, 0], [3, 0], [0, 0], [0, 2], [3, 2], [1, 2]])


@st.composite
def operands(draw):
    """Operands some of which span books, under flags without MULTIBOOK."""
    mode = draw(unset_modes())
    line = W.line(eff(mode) & V0)
    b0 = draw(st.integers(0, max(0, last_book() - 1)))
    p = line.book_span(b0)[1] + draw(st.integers(-3, 3))
    n = draw(st.integers(1, 3))
    a = [draw(st.one_of(crossing(line, b0), ranges(line, p, True))) for _ in range(n)]
    kb = draw(st.sampled_from("vrrll"))
    if kb == "v":
        r = draw(related(line, p, a, True))
        b = [[r[0], r[0]]]
    else:
        b = [draw(st.one_of(related(line, p, a, True), crossing(line, b0)))
             for _ in range(1 if kb == "r" else draw(st.integers(0, 3)))]
    return {"a": a, "ka": "r" if n == 1 and draw(st.booleans()) else "l", "b": b, "kb": kb, "mode": mode,
            "op": draw(st.sampled_from(sorted(OPS)))}


@st.composite
def crossing(draw, line, b0):
    """A range over the boundary after book b0 (or thereabouts)."""
    s, e = line.book_span(b0)
    b1 = min(last_book(), b0 + draw(st.integers(1, 3)))
    t, f = line.book_span(b1)
    lo = draw(st.one_of(st.sampled_from([s, e, max(s, e - 1), min(e, s + 1)]), st.integers(s, e)))
    hi = draw(st.one_of(st.sampled_from([t, f, max(t, f - 1), min(f, t + 1)]), st.integers(t, f)))
    return [list(line.verse(lo)), list(line.verse(hi))]


def any_multi(*lists):
    return any(t[0][0] != t[1][0] for rs in lists for t in rs)


def consolidated(line, got, bits, what, overlap_ok=False):
    """got covers exactly bits, in order, without overlaps, and without neighbours in one book that touch."""
    sp = [(line.pos(s), line.pos(e)) for s, e in got]
    have = 0
    for lo, hi in sp:
        expect(lo <= hi, f"{what} has a reversed range")
        expect(not have & line.mask(lo, hi), f"{what} gives overlapping ranges {lname(got)}")
        have |= line.mask(lo, hi)
    expect(have == bits, lambda: f"{what} gives {lname(got)}; missing "
                                 f"{lname([vr(line, *x) for x in line.runs(bits & ~have)])}, in excess "
                                 f"{lname([vr(line, *x) for x in line.runs(have & ~bits)])}")
    expect(sp == sorted(sp), f"{what} is not in order: {lname(got)}")
    for (_, h), (l, _) in zip(sp, sp[1:]):
        expect(l > h + 1 or line.book_of(l) != line.book_of(h), f"{what} leaves unmerged neighbours: {lname(got)}")


def setops(case):
    a, b, mode, ka, kb, op = tt(case["a"]), tt(case["b"]), case["mode"], case["ka"], case["kb"], case["op"]
    line = W.line(eff(mode) & V0)
    sym, model = OPS[op]
    bits = model(bits_of(line, a), bits_of(line, b))
    what = f"({bn(ka, a)}).{op}({bn(kb, b)}) with {mname(mode)}"
    with gflags(mode[0]):
        x, y = build(ka, a), build(kb, b)
        got = sut(what, lambda: getattr(x, op)(y, **kw(mode)), budget=BIG)
        consolidated(line, rdl(got), bits, what)
        if ka == "l":
            expect_eq(rdl(x), list(a), f"{what} changed the list")
            sut(f"in-place {what}", lambda: getattr(x, op + "_update")(y, **kw(mode)), budget=BIG)
            consolidated(line, rdl(x), bits, f"in-place {what}")
            expect_eq(sut("len", lambda: len(x)), len(rdl(x)), f"len after in-place {what}")
        if kb == "l":
            expect_eq(rdl(y), list(b), f"{what} changed the other list")
        if mode[1] is None:
            x, y = build(ka, a), build(kb, b)
            got = sut(f"operator: {what}", lambda: sym(x, y), budget=BIG)
            consolidated(line, rdl(got), bits, f"operator: {what}")
    return [op] if any_multi(a, b) else []


def relations(case):
    a, b, mode, ka, kb = tt(case["a"]), tt(case["b"]), case["mode"], case["ka"], case["kb"]
    line = W.line(eff(mode) & V0)
    A, B = bits_of(line, a), bits_of(line, b)
    x, y = build(ka, a), build(kb, b)
    what = f"({bn(ka, a)}, {bn(kb, b)}) with {mname(mode)}"

    def want(label, fn, w):
        got = sut(f"{label} {what}", fn)
        expect(got is w, lambda: f"{label} {what} is {got}, want {w}")
    with gflags(mode[0]):
        want("is_disjoint", lambda: x.is_disjoint(y), not A & B)
        want("contains", lambda: x.contains(y, **(kw(mode) if ka == "l" else {})), not B & ~A)
        if mode[1] is None:
            want("in", lambda: y in x, not B & ~A)
        if ka == "r":
            lo, hi = span_of(line, a[0])
            sp = [span_of(line, t) for t in b]
            want("surrounds", lambda: x.surrounds(y), all(lo < s and e < hi for s, e in sp))
            adj = any((s == hi + 1 and line.book_of(s) == line.book_of(hi)) or
                      (e == lo - 1 and line.book_of(e) == line.book_of(lo)) for s, e in sp)
            want("is_adjacent", lambda: x.is_adjacent(y, **kw(mode)), adj and not A & B)
    return ["contains" if not B & ~A else "overlap" if A & B else "disjoint"] if any_multi(a, b) else []


@st.composite
def lists(draw):
    mode = draw(unset_modes())
    line = W.line(eff(mode) & V0)
    b0 = draw(st.integers(0, max(0, last_book() - 1)))
    p = line.book_span(b0)[1] + draw(st.integers(-3, 3))
    a = [draw(crossing(line, b0)) if draw(st.booleans()) else draw(ranges(line, p, True))
         for _ in range(draw(st.integers(1, 5)))]
    if draw(st.integers(0, 3)) == 0:
        a = draw(knot(line, True, 1, 5))
    return {"a": a, "cuts": draw(group_split(len(a))), "mode": mode,
            "split": {"by_book": draw(st.booleans()), "by_chap": draw(st.booleans()),
                      "num_verses": draw(st.one_of(st.none(), st.integers(1, 60), st.integers(1, 4)))},
            "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


def listops(case):
    a, mode = tt(case["a"]), case["mode"]
    f = eff(mode)
    line = W.line(f & V0)
    what = f"of {lname(a)} with {mname(mode)}"
    k = kw(mode)
    groups = apply_groups(a, case["cuts"])
    bits = bits_of(line, a)
    with gflags(mode[0]):
        x = LG(groups)
        if mode[1] is None:
            sut(f"sort() {what}", lambda: x.sort(), budget=BIG)
            expect_eq(rdl(x), sorted(a), f"sort() {what}")
        x = LG(groups)
        sut(f"merge() {what}", lambda: x.merge(**k), budget=BIG)
        consolidated(line, rdl(x), bits, f"merge() {what}")
        x = LG(groups)
        r = sut(f"range() {what}", lambda: x.range())
        expect_eq(rdr(r), (min(t[0] for t in a), max(t[1] for t in a)), f"range() {what}")
        n = sum(hi - lo + 1 for lo, hi in (span_of(line, t) for t in a))
        expect_eq(sut(f"verse_count() {what}", lambda: x.verse_count(**k), budget=BIG), n, f"verse_count() {what}")
        # the string names every verse of it, and reads back where multi-book ranges are allowed
        s = sut(f"str() {what}", lambda: x.str(**case["o"], **k), budget=BIG)
        back = sut(f"reading {s!r}, the string {what}", lambda: BibleRangeList(s, flags=FLAG[f | MB]))
        expect_eq(rdg(back), groups, f"reading {s!r}, the string {what}")
        r0 = R(a[0])
        s = sut(f"str() of {rname(a[0])}", lambda: r0.str(**case["o"], **k), budget=BIG)
        back = sut(f"reading {s!r}", lambda: BibleRange(s, flags=FLAG[f | MB]))
        expect_eq(rdr(back), a[0], f"reading {s!r}, the string of {rname(a[0])} with {mname(mode)}")
        copy_ = sut("copying", lambda: BibleRange(r0, **k))
        expect_eq(rdr(copy_), a[0], f"copy of {rname(a[0])} with {mname(mode)}")
        lst = sut("list of existing ranges", lambda: BibleRangeList([r0], **k))
        expect_eq(rdl(lst), [a[0]], f"BibleRangeList([{rname(a[0])}]) with {mname(mode)}")
        lo, hi = span_of(line, a[0])
        sp = dict(case["split"])
        if sp["num_verses"] is not None and hi - lo > 300 * sp["num_verses"]:
            sp["num_verses"] = None
        if hi - lo > 9000:
            sp["by_chap"] = False
        parts = sut(f"split({sp}) of {rname(a[0])} with {mname(mode)}", lambda: r0.split(**sp, **k), budget=BIG)
        expect_eq(rdl(parts), [vr(line, *y) for y in pieces(line, lo, hi, *sp.values())],
                  f"split({sp}) of {rname(a[0])} with {mname(mode)}")
        check_counts(r0, counts(line, a[0]), mode, False, f"{rname(a[0])} with {mname(mode)}")
        check_counts(x, [sum(n) for n in zip(*(counts(line, t) for t in a))], mode, False, f"{lname(a)} with {mname(mode)}")
        if hi - lo < 3000 and mode[1] is None:
            got = [rd(v) for v in drain("iterating", lambda: r0, hi - lo + 1, budget=BIG)]
            expect_eq(got, [line.verse(i) for i in range(lo, hi + 1)], f"iterating {rname(a[0])} with {mname(mode)}")
    return ["multi-book"] if any_multi(a) else []


CHECK = Check("C22", "Ranges that span books keep working when MULTIBOOK is not set", [
    Facet("setops", operands(), setops, 5000),
    invented(Facet("setops", operands(), setops, 0), 1500, 2),
    Facet("relations", operands(), relations, 5000),
    invented(Facet("relations", operands(), relations, 0), 1500, 2),
    Facet("lists", lists(), listops, 3000),
    invented(Facet("lists", lists(), listops, 0), 1000, 2),
], rule="ranges and lists over one to four book boundaries, built with MULTIBOOK, then used without it (unset package-wide, "
        "or overridden by the flags argument): relations, the four set operations in all forms, sort, merge, extent, "
        "counts, split, iteration, strings; oracle: bitsets over the flat list of verses (the result has exactly those "
        "verses, in order, without overlaps or touching neighbours of one book). Non-trivial: some operand spans books",
    assumptions=["where a result is cut at a book boundary is left open"])
