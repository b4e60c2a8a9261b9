from ..gen import *
from .c06 import BIG
from .c16 import same_book
from .c17 import fmt_list
from ..invented import invented


@st.composite
def cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    rs = draw(st.one_of(cluster(line, bool(f & MB), 1, 7), same_book(line, bool(f & MB)), knot(line, bool(f & MB), 1, 7)))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode}


def regroup(case):
    rs, mode = list(tt(case["rs"])), case["mode"]
    k = kw(mode)
    what = f"regroup of {lname(rs)} with {mname(mode)}"
    with gflags(mode[0]):
        x = LG(apply_groups(rs, case["cuts"]))
        sut(what, lambda: x.regroup(**k), budget=BIG)
        got = rdg(x)
        expect_eq([r for g in got for r in g], rs, f"{what}: items")
        expect(all(got), f"{what}: empty group")
        # the grouping depends on the items only
        y = L(rs)
        sut(what, lambda: y.regroup(**k), budget=BIG)
        expect_eq(rdg(y), got, f"{what}: from another grouping")
        sut(what, lambda: x.regroup(**k), budget=BIG)
        expect_eq(rdg(x), got, f"{what}: second time")
        # it is the grouping of the conventional string
        s = sut("str", lambda: y.str(preserve_groups=False, force_start_verses=True, **k), budget=BIG)
        sep = DEFAULTS["major_list_sep"]
        cut = [x.count(",") + 1 for x in fmt_list([rs], W.line(eff(mode) & V0), {"force_start_verses": True}, False).split(sep)]
        expect_eq([len(g) for g in got], cut, f"{what}: sizes of the groups")
        back = sut(f"reading {s!r}", lambda: BibleRangeList(s, **k))
        expect_eq(got, rdg(back), f"{what}: differs from the conventional string {s!r}")
        s2 = sut("str", lambda: x.str(force_start_verses=True, **k), budget=BIG)
        expect_eq(s2, s, f"{what}: conventional string, before and after")
    return ["%d groups" % min(4, len(got))] if len(rs) > 1 else []


@st.composite
def many(draw):
    case = {"mode": draw(modes()), "n": draw(many_n(2, 60)), "seed": draw(SEED)}
    return case


def many_ranges(case):
    f = eff(case["mode"])
    rs = bulk(W.line(f & V0), bool(f & MB), case["n"], case["seed"])
    return regroup({**case, "rs": rs, "cuts": bulk_cuts(len(rs), case["seed"])}) + (["over 15"] if len(rs) > 15 else [])


CHECK = Check("C18", "Regrouping keeps the ranges and matches the conventional string", [
    Facet("regroup", cases(), regroup, 4000),
    invented(Facet("regroup", cases(), regroup, 0), 1200),
    Facet("many", many(), many_ranges, 240),
    invented(Facet("many", many(), many_ranges, 0), 120),
], rule="lists of up to 7, and of up to 60 (sometimes 320), ranges of every shape, grouped at random, all flags; oracle: items unchanged, independent of the old "
        "groups, idempotent, equal to the groups read from the conventional (preserve_groups=False) string. "
        "Non-trivial: at least two ranges")
