from ..gen import *
from ..refparse import *
from .c06 import BIG
from .c13 import expected, check_text
from .c16 import opts, same_book
from .c17 import fmt_range, fmt_verse, fmt_list
from bibleref.ref import BibleRefParsingError

ATTR = {"range": "range_sep", "major": "major_list_sep", "minor": "minor_list_sep", "std": "verse_sep_std",
        "alt": "verse_sep_alt"}
CHARS = list("-;,:.!#$%&()*+/<=>?@[]^`{|}~'\"\\") + ["\u2013", "\u2014", "\u00b7", "\u3001", "\uff1a", "\u00a7"]


@st.composite
def configs(draw):
    if draw(st.integers(0, 3)) == 0:
        chars = draw(st.permutations(list(SEPS.values())))          # the default characters in other roles
    else:
        chars = draw(st.lists(st.sampled_from(CHARS), min_size=5, max_size=5, unique=True))
        if draw(st.booleans()):     # change only some
            keep = draw(st.sets(st.sampled_from(sorted(SEPS)), max_size=4))
            new = {k: (SEPS[k] if k in keep else c) for k, c in zip(SEPS, chars)}
            if len(set(new.values())) == 5:
                chars = list(new.values())
    return {"seps": dict(zip(SEPS, chars)), "order": draw(st.permutations(list(SEPS)))}


def install(case):
    d = bible_data()
    for k in case["order"]:
        sut(f"setting {ATTR[k]} = {case['seps'][k]!r} (of {case['seps']}, in order {case['order']})",
            lambda: setattr(d, ATTR[k], case["seps"][k]))
    for k in SEPS:
        expect_eq(getattr(d, ATTR[k]), case["seps"][k], f"{ATTR[k]} after setting it")


def changed(case):
    n = sum(case["seps"][k] != SEPS[k] for k in SEPS)
    return ["all changed" if n == 5 else "some changed"] if n else []


@st.composite
def texts_(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        mode = draw(modes())
        out.append({**draw(texts(W, mode, max_items=4)), "mode": mode})
    return {**draw(configs()), "texts": out}


def parse(case):
    install(case)
    for t in case["texts"]:
        s = text_of(t, case["seps"])
        want, err = expected(t, eff(t["mode"]), seps=case["seps"])
        what = f"BibleRangeList({s!r}) with separators {case['seps']}, {mname(t['mode'])}"
        check_text(t, s, t["mode"], want, err, what=what)
    return changed(case)


@st.composite
def lists(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        mode = draw(modes())
        f = eff(mode)
        line = W.line(f & V0)
        rs = draw(st.one_of(cluster(line, bool(f & MB), 1, 5), same_book(line, bool(f & MB)), knot(line, bool(f & MB), 1, 5)))
        out.append({"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode,
                    "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))})
    return {**draw(configs()), "lists": out}


def write(case):
    install(case)
    for one in case["lists"]:
        write_one({**one, "seps": case["seps"]})
    return changed(case)


def write_one(case):
    seps = {ATTR[k]: case["seps"][k] for k in SEPS}
    mode, rs, o = case["mode"], tt(case["rs"]), case["o"]
    line = W.line(eff(mode) & V0)
    groups = apply_groups(list(rs), case["cuts"])
    lst = LG(groups)
    with gflags(mode[0]):
        s = sut("str", lambda: lst.str(**o, **kw(mode)), budget=BIG)
        what = f"{[lname(g) for g in groups]} written as {s!r} with separators {case['seps']}, {o}, {mname(mode)}"
        back = sut(f"reading {what}", lambda: BibleRangeList(s, **kw(mode)))
        expect_eq(rdg(back), groups, f"{what} reads as")
        expect_eq(s, fmt_list(groups, line, o, True, seps=seps), f"{what}: should be")
        free = sut("str", lambda: lst.str(preserve_groups=False, **o, **kw(mode)), budget=BIG)
        expect_eq(free, fmt_list(groups, line, o, False, seps=seps), f"{what}: with preserve_groups=False")
        expect_eq(s.count(seps["major_list_sep"]), len(groups) - 1, f"{what}: number of major separators")
        expect_eq(s.count(seps["minor_list_sep"]), len(rs) - len(groups), f"{what}: number of minor separators")
        unused = seps["verse_sep_std" if o.get("alt_sep") else "verse_sep_alt"]
        expect(unused not in s, f"{what}: has the other verse separator")
        for t in rs[:2]:
            r = R(t)
            got = sut("str", lambda: r.str(**o, **kw(mode)))
            expect_eq(got, fmt_range(t, line, o, seps=seps), f"{rname(t)}.str({o}) with separators {case['seps']}, {mname(mode)}")
            v = V(t[0])
            got = sut("str", lambda: v.str(**{k: x for k, x in o.items() if k != "force_start_verses"}))
            expect_eq(got, fmt_verse(t[0], "BCV", o, seps=seps), f"{name(t[0])}.str({o}) with separators {case['seps']}")


@st.composite
def olds(draw):
    c = draw(configs())
    return {**c, "k": draw(st.sampled_from(sorted(SEPS)))}


def retired(case):
    """A default separator that has been replaced separates no more; one that changed role has the new role only."""
    install(case)
    old = SEPS[case["k"]]
    s = {"range": f"Mark 2{old}3", "major": f"Mark 2{old} 3", "minor": f"Mark 2{old} 3", "std": f"Mark 2{old}3",
         "alt": f"Mark 2{old}3"}[case["k"]]
    role = next((k for k, c in case["seps"].items() if c == old), None)
    got = sut(f"BibleRangeList({s!r}) with separators {case['seps']}", lambda: BibleRangeList(s),
              allow=(BibleRefParsingError,))
    mk = W.idx[BibleBook.Mark]
    c2, c3 = ((mk, 2, 1), (mk, 2, W.last_num(mk, 2))), ((mk, 3, 1), (mk, 3, W.last_num(mk, 3)))
    want = {None: None, "range": [[(c2[0], c3[1])]], "major": [[c2], [c3]], "minor": [[c2, c3]],
            "std": [[((mk, 2, 3), (mk, 2, 3))]], "alt": [[((mk, 2, 3), (mk, 2, 3))]]}[role]
    what = f"BibleRangeList({s!r}) with separators {case['seps']}"
    if want is None:
        expect(isinstance(got, Raised), lambda: f"{what} gives {got!r}, though {old!r} is no separator")
    else:
        expect(not isinstance(got, Raised), lambda: f"{what}: {got!r}")
        expect_eq(rdg(got), want, what)
    return ["retired" if role is None else "other role"] if role != case["k"] else []


CHECK = Check("C24", "Changed separators are used for reading and writing, and the replaced ones no longer are", [
    Facet("parse", texts_(), parse, 360),
    Facet("write", lists(), write, 360),
    Facet("retired", olds(), retired, 280),
], rule="five distinct separator characters (ASCII and other punctuation, the defaults in other roles, only some changed) "
        "set in any order x reference strings written with them / grouped lists written and read back; oracle: the "
        "reference interpreter and formatter with the same separators. Non-trivial: at least one separator changed",
    assumptions=["separators are single, distinct characters that are neither word characters nor whitespace"])
