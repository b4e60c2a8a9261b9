from ..gen import *
from ..invented import invented


@st.composite
def cases(draw):
    line = W.line(draw(st.integers(0, 3)) > 0)
    if draw(st.integers(0, 3)):
        b, c = draw(st.sampled_from(zero_chaps() or [(0, 1)]))
        if not draw(st.integers(0, 4)):
            c = draw(st.integers(1, W.nchap(b)))
        p = max(0, min(line.n - 1, line.chap_span(b, c)[0] + draw(st.integers(-1, 2))))
    else:
        p = draw(positions(line))
    near_starts = st.sampled_from([0, 1])

    @st.composite
    def one(draw):
        # both ends are often a chapter's verse 0 or 1
        a, z = draw(ranges(line, p))
        out = []
        for b, c, v in (a, z):
            if draw(st.integers(0, 2)):
                v = draw(near_starts)
                if v == 0 and c not in W.v0[b]:
                    v = 1
            out.append([b, c, v])
        return sorted(out)
    rs = [draw(one()) for _ in range(draw(st.integers(0, 5)))]
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "g": draw(st.integers(0, 3)),
            "how": draw(st.sampled_from(["verse_0_to_1", "verse_1_to_0"]))}


def to1(v):
    return (v[0], v[1], 1) if v[2] == 0 else v


def to0(v):
    return (v[0], v[1], 0) if v[2] == 1 and v[1] in W.v0[v[0]] else v


def convert(case):
    how, rs = case["how"], tt(case["rs"])
    model = to1 if how == "verse_0_to_1" else to0
    groups = apply_groups(list(rs), case["cuts"])
    g = f"with package flags {FLAG[case['g']]}"
    changed = False
    lst = LG(groups)
    views = list(lst.groups)
    with gflags(case["g"]):
        for t in rs:
            for v in t:
                x = V(v)
                got = sut(f"{name(v)}.{how}() {g}", lambda: getattr(x, how)())
                expect_eq(rd(got), model(v), f"{name(v)}.{how}() {g}")
                expect_eq(rd(x), v, f"{name(v)}.{how}() changed the verse")
                changed |= model(v) != v
            r = R(t)
            got = sut(f"{rname(t)}.{how}() {g}", lambda: getattr(r, how)())
            expect_eq(rdr(got), (model(t[0]), model(t[1])), f"{rname(t)}.{how}() {g}")
            expect_eq(rdr(r), t, f"{rname(t)}.{how}() changed the range")
        ret = sut(f"{lname(rs)}.{how}() {g}", lambda: getattr(lst, how)())
        expect(ret is None, f"list.{how}() returns {ret!r}, not None")
        want = [[(model(s), model(e)) for s, e in gr] for gr in groups]
        expect_eq(rdg(lst), want, f"{lname(rs)}.{how}() {g}")
        for v, w_ in zip(views, want):
            expect_eq([rdr(r) for r in sut("reading a group view", lambda: list(v))], w_, f"group view after {how}")
        # doing it again changes nothing
        sut(f"{how} again", lambda: getattr(lst, how)())
        expect_eq(rdg(lst), want, f"{how}() twice on {lname(rs)} {g}")
    return [how] if changed else []


def every_chapter():
    for b in range(NB):
        for c in range(1, W.nchap(b) + 1):
            yield {"b": b, "c": c}


def chapter(case):
    b, c = case["b"], case["c"]
    has0 = c in W.v0[b]
    labels = []
    for g in range(4):
        with gflags(g):
            for v in ([0] if has0 else []) + [1, 2, W.last_num(b, c)]:
                if v > W.last_num(b, c):
                    continue
                x = V((b, c, v))
                got = sut("verse_1_to_0", lambda: x.verse_1_to_0())
                expect_eq(rd(got), to0((b, c, v)), f"{name((b, c, v))}.verse_1_to_0() with package flags {FLAG[g]}")
                got = sut("verse_0_to_1", lambda: x.verse_0_to_1())
                expect_eq(rd(got), to1((b, c, v)), f"{name((b, c, v))}.verse_0_to_1() with package flags {FLAG[g]}")
    return ["has a verse 0" if has0 else "no verse 0"]


CHECK = Check("C23", "Conversion between verse 0 and verse 1 changes only first verses, whatever the flags", [
    Facet("convert", cases(), convert, 4000),
    invented(Facet("convert", cases(), convert, 0), 1500),
    Exhaustive("chapters", every_chapter, chapter),
], rule="verses, ranges and grouped lists with ends at verse 0s and 1s of chapters with and without a verse 0 x package "
        "flags; oracle: the documented rule applied to each end; the list is changed in place, groups and views kept. "
        "Every chapter enumerated. Non-trivial: some verse changes")
