from ..gen import *
from .c06 import BIG
from ..invented import invented


@st.composite
def cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    rs = draw(cluster(line, bool(f & MB), 0, 8))
    if rs and draw(st.booleans()):
        # add neighbours of what is there, so that chains of merges happen
        for _ in range(draw(st.integers(1, 4))):
            lo, hi = span_of(line, draw(st.sampled_from(rs)))
            x = min(line.n - 1, hi + 1)
            y = min(x + draw(st.integers(0, 40)), line.n - 1)
            if not f & MB:
                y = min(y, line.book_span(line.book_of(x))[1])
            rs.append([list(line.verse(x)), list(line.verse(y))])
        rs = draw(st.permutations(rs))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode}


def regrouped(rs, f):
    lst = L(rs)
    sut("regroup", lambda: lst.regroup(flags=FLAG[f]), budget=BIG)
    return rdg(lst)


def consolidate(case):
    rs, mode = tt(case["rs"]), case["mode"]
    f = eff(mode)
    line = W.line(f & V0)
    groups = apply_groups(rs, case["cuts"])
    want = [vr(line, lo, hi) for lo, hi in line.runs(bits_of(line, rs), bool(f & MB))]
    what = f"{lname(rs)} with {mname(mode)}"
    with gflags(mode[0]):
        x = LG(groups)
        sut(f"merge of {what}", lambda: x.merge(**kw(mode)), budget=BIG)
        expect_eq(rdl(x), want, f"merge of {what}")
        expect_eq(rdg(x), regrouped(want, f), f"groups after merge of {what}")
        expect_eq(sut("len", lambda: len(x)), len(want), f"len after merge of {what}")
        expect_eq([rdr(r) for r in drain("reversed", lambda: reversed(x), len(want))], want[::-1],
                  f"backwards, merge of {what}")
        sut(f"second merge of {what}", lambda: x.merge(**kw(mode)), budget=BIG)
        expect_eq(rdl(x), want, f"second merge of {what}")
        if mode[1] is None:
            x = LG(groups)
            sut(f"sort of {what}", lambda: x.sort(), budget=BIG)
            expect_eq(rdl(x), sorted(rs), f"sort of {what}")
            expect_eq(rdg(x), regrouped(sorted(rs), f), f"groups after sort of {what}")
            x = LG(groups)
            sut(f"sort(regroup=False) of {what}", lambda: x.sort(regroup=False))
            expect_eq(rdg(x), [sorted(rs)] if rs else [], f"sort(regroup=False) of {what}")
    if len(rs) < 2:
        return []
    return ["merged" if len(want) < len(rs) else "sorted only"] + (["out of order"] if list(rs) != sorted(rs) else [])


@st.composite
def many(draw):
    return {"mode": draw(modes()), "n": draw(many_n(2, 60)), "seed": draw(SEED), "dups": draw(st.booleans())}


def many_ranges(case):
    f = eff(case["mode"])
    rs = bulk(W.line(f & V0), bool(f & MB), case["n"], case["seed"])
    if case["dups"]:
        rnd = random.Random(case["seed"])
        rs = [rnd.choice(rs) if rnd.random() < .3 else r for r in rs]
    case = {**case, "rs": rs, "cuts": bulk_cuts(len(rs), case["seed"])}
    labels = consolidate(case)
    extent(case)
    return labels


def extent(case):
    rs, mode = tt(case["rs"]), case["mode"]
    if not rs:
        return []
    line = W.line(eff(mode) & V0)
    lst = LG(apply_groups(rs, case["cuts"]))
    lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
    what = f"of {lname(rs)} with {mname(mode)}"
    with gflags(mode[0]):
        expect_eq(rdr(sut("range()", lambda: lst.range())), (lo, hi), f"range() {what}")
        expect_eq(rdr(sut("chap_range()", lambda: lst.chap_range(**kw(mode)))),
                  vr(line, line.chap_span(*lo[:2])[0], line.chap_span(*hi[:2])[1]), f"chap_range() {what}")
        expect_eq(rdr(sut("book_range()", lambda: lst.book_range(**kw(mode)))),
                  vr(line, line.book_span(lo[0])[0], line.book_span(hi[0])[1]), f"book_range() {what}")
    last = max(rs)
    return ["several"] + (["nested end"] if last[1] < hi else []) if len(rs) > 1 else []


@st.composite
def large(draw):
    f = draw(st.sampled_from([0, 1, 2, 3]))
    return {"f": f, "n": draw(st.integers(900, 3500)), "stride": draw(st.sampled_from([7, 11, 3001, 9973, 17])),
            "gap": draw(st.sampled_from([1, 2, 3, 5])), "len": draw(st.integers(1, 4)), "rev": draw(st.booleans()),
            "off": draw(st.integers(0, 20000))}


def large_items(case):
    line = W.line(case["f"] & V0)
    order = sorted(range(case["n"]), key=lambda i: (i * case["stride"]) % 10007)
    if case["rev"]:
        order.reverse()
    out = []
    for i in order:
        lo = (case["off"] + i * case["gap"]) % line.n
        hi = min(lo + case["len"] - 1, line.n - 1)
        if not case["f"] & MB:
            hi = min(hi, line.book_span(line.book_of(lo))[1])
        out.append((lo, hi))
    return line, out


def long_list(case):
    line, items = large_items(case)
    f = case["f"]
    bits = 0
    for lo, hi in items:
        bits |= line.mask(lo, hi)
    want = [vr(line, lo, hi) for lo, hi in line.runs(bits, bool(f & MB))]
    rs = [vr(line, lo, hi) for lo, hi in items]
    what = f"a list of {len(rs)} ranges ({case})"
    with gflags(f):
        x = sut("building", lambda: BibleRangeList([R(r) for r in rs]), budget=50_000_000)
        sut(f"sorting {what}", lambda: x.sort(regroup=False), budget=50_000_000)
        expect(rdl(x) == sorted(rs), f"{what}: wrong after sort")
        x = sut("building", lambda: BibleRangeList([R(r) for r in rs]), budget=50_000_000)
        sut(f"merging {what}", lambda: x.merge(), budget=50_000_000)
        expect(rdl(x) == want, f"{what}: wrong after merge")
    return ["long list"]


CHECK = Check("C12", "Sorting and merging a list give its canonical form", [
    Facet("consolidate", cases(), consolidate, 5000),
    invented(Facet("consolidate", cases(), consolidate, 0), 1500),
    Facet("extent", cases(), extent, 2000),
    invented(Facet("extent", cases(), extent, 0), 600),
    Facet("many", many(), many_ranges, 300),
    invented(Facet("many", many(), many_ranges, 0), 120),
    Facet("long", large(), long_list, 24, thorough=400),
], rule="lists of up to a dozen, and of up to 60 (sometimes 320), overlapping, nested, adjacent and out-of-order ranges grouped at random, and lists of "
        "thousands of ranges, all flags; oracle: tuple sort / maximal runs of the bitset (cut at book ends without "
        "MULTIBOOK). Non-trivial: at least two ranges",
    assumptions=["ranges are references that the flags in effect allow (others: C22)"])
