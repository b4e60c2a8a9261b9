from ..gen import *
from .c06 import implied, BIG
from ..invented import invented


@st.composite
def cases(draw):
    mode = draw(modes())
    zero = bool(eff(mode) & V0) or draw(st.integers(0, 4)) == 0
    line = W.line(zero)
    lo, hi = draw(spans(line, draw(positions(line))))
    nv = draw(st.one_of(st.none(), st.integers(1, 40), st.sampled_from([1, 2, 3, 5, 10, 100, 10**6])))
    if nv is not None:
        hi = min(hi, lo + nv * 300)
    else:
        hi = min(hi, lo + 9000)
    span = line.chap_span(*line.verse(lo)[:2])
    if draw(st.integers(0, 3)) == 0:
        nv = draw(st.sampled_from([span[1] - span[0] + 1, span[1] - lo + 1, hi - lo + 1, max(1, hi - lo), hi - lo + 2]))
        hi = min(hi, lo + nv * 300)
    return {"r": [list(line.verse(lo)), list(line.verse(hi))], "by_book": draw(st.booleans()),
            "by_chap": draw(st.booleans()), "num": nv, "regroup": draw(st.sampled_from([True, True, False])),
            "mode": mode}


def pieces(line, lo, hi, by_book, by_chap, num):
    cut = {lo}
    b1, c1, _ = line.verse(lo)
    b2, c2, _ = line.verse(hi)
    if by_book:
        cut |= {line.book_span(b)[0] for b in range(b1 + 1, b2 + 1)}
    if by_chap:
        for b in range(b1, b2 + 1):
            for c in range(c1 + 1 if b == b1 else 1, (c2 if b == b2 else line.world.nchap(b)) + 1):
                cut.add(line.chap_span(b, c)[0])
    edges = sorted(cut) + [hi + 1]
    out = []
    for s, e in zip(edges, edges[1:]):
        while num is not None and e - s > num:
            out.append((s, s + num - 1))
            s += num
        out.append((s, e - 1))
    return out


def split(case):
    t, mode = tt(case["r"]), case["mode"]
    imp = implied([t])
    line = W.line(bool(eff(mode) & V0) or imp)
    lo, hi = span_of(line, t)
    want = [vr(line, a, b) for a, b in pieces(line, lo, hi, case["by_book"], case["by_chap"], case["num"])]
    opts = {k: v for k, v in (("by_book", case["by_book"]), ("by_chap", case["by_chap"])) if v}
    if case["num"] is not None:
        opts["num_verses"] = case["num"]
    if not case["regroup"]:
        opts["regroup"] = False
    r = R(t)
    what = f"{rname(t)}.split({opts}) with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: r.split(**opts, **kw(mode)), budget=BIG)
        flat = rdl(got, cap=len(want) + 5)
        if flat != want:
            i = next((i for i, (x, y) in enumerate(zip(flat, want)) if x != y), min(len(flat), len(want)))
            raise Violation(f"{what}: {len(flat)} pieces, want {len(want)}; first difference at {i}: "
                            f"{lname(flat[i:i+2])}, want {lname(want[i:i+2])}")
        expect_eq(rdr(r), t, f"{what} changed the range")
        groups = rdg(got)
        expect_eq([x for g in groups for x in g], want, f"{what}: items of the groups")
        if len(want) <= 60:
            f = eff(mode) | (V0 if imp else 0)
            copy = L(want)
            if case["regroup"]:
                sut(f"regrouping {lname(want)}", lambda: copy.regroup(flags=FLAG[f]), budget=BIG)
            expect_eq(groups, rdg(copy), f"{what}: groups")
    if len(want) < 2:
        return []
    return ["pieces"] + [k for k in ("by_book", "by_chap") if case[k]] + (["num_verses"] if case["num"] else []) + \
        (["many books"] if t[0][0] != t[1][0] else [])


CHECK = Check("C08", "Splitting a range partitions it exactly where asked", [
    Facet("split", cases(), split, 5000),
    invented(Facet("split", cases(), split, 0), 2000),
], rule="range x by_book x by_chap x num_verses (aimed at exact multiples of chapter and range lengths) x regroup x "
        "flags; oracle: cutting the interval of positions. Non-trivial: at least two pieces",
    assumptions=["num_verses >= 1"])
