from ..ops import *
from .c06 import BIG
import operator
from bibleref import BibleVersePart
from ..invented import invented

INPLACE_OPS = {n for n in OPS if n.endswith("_update") or n in ("list.merge", "list.regroup")}

# operations without a flags argument
PLAIN = {
    "list.range": ("l", "", m("range")),
    "list.is_disjoint": ("l", "O", m("is_disjoint")),
    "range.is_disjoint": ("r", "O", m("is_disjoint")),
    "range.contains": ("r", "O", m("contains")),
    "range.surrounds": ("r", "O", m("surrounds")),
    "range.verse_0_to_1": ("r", "", m("verse_0_to_1")),
    "range.verse_1_to_0": ("r", "", m("verse_1_to_0")),
    "list.to_nested_lists": ("l", "", m("to_nested_lists")),
    "list.count": ("l", "R", m("count")),
    "list.equals": ("l", "L", m("equals")),
    "BibleRangeList(list)": ("-", "L", lambda x, a, k: BibleRangeList(a[0])),
    "BibleRangeList(ranges)": ("-", "L", lambda x, a, k: BibleRangeList(list(a[0]))),
    "BibleRangeList(nested)": ("-", "L", lambda x, a, k: BibleRangeList(a[0].to_nested_lists())),
    "BibleRange(range)": ("-", "R", lambda x, a, k: BibleRange(a[0])),
    "list |": ("l", "O", lambda x, a, k: x | a[0]),
    "list &": ("l", "O", lambda x, a, k: x & a[0]),
    "list -": ("l", "O", lambda x, a, k: x - a[0]),
    "list ^": ("l", "O", lambda x, a, k: x ^ a[0]),
    "range |": ("r", "O", lambda x, a, k: x | a[0]),
    "range &": ("r", "O", lambda x, a, k: x & a[0]),
    "range -": ("r", "O", lambda x, a, k: x - a[0]),
    "range ^": ("r", "O", lambda x, a, k: x ^ a[0]),
    "repr(list)": ("l", "", lambda x, a, k: repr(x)),
    "list.extend": ("l", "L", inplace("extend")),
    "list.append_group": ("l", "L", inplace("append_group")),
}
ALL = {**OPS, **PLAIN}
CHANGES_SUBJECT = INPLACE_OPS | {"list.extend", "list.append_group"}


@st.composite
def cases(draw):
    op = draw(st.sampled_from(sorted(ALL)))
    subj, kinds, _ = ALL[op]
    line = W.line(draw(st.booleans()))
    p = draw(positions(line))
    mb = draw(st.booleans())
    base = draw(calls([op])) if op in OPS else {"op": op, "p": list(line.verse(p)), "args": []}
    if op not in OPS:
        many = lambda lo, hi: [draw(ranges(line, p, mb)) for _ in range(draw(st.integers(lo, hi)))]
        if subj == "r":
            base["rs"] = many(1, 1)
        elif subj == "l":
            base["rs"] = many(0, 4)
            base["cuts"] = draw(group_split(len(base["rs"])))
        for kind in kinds:
            if kind == "O":
                k = draw(st.sampled_from("vrl"))
                rs = many(0, 3) if k == "l" else many(1, 1)
                base["args"].append([k, [[rs[0][0], rs[0][0]]] if k == "v" else rs])
            elif kind == "R":
                base["args"].append(["r", many(1, 1)])
            elif kind == "L":
                base["args"].append(["l", many(0, 4)])
    return {**base, "mode": draw(modes()) if op in OPS else [draw(st.integers(0, 3)), None],
            "alias": subj == "l" and "O" in kinds and draw(st.integers(0, 5)) == 0}


def build_any(case):
    if case["op"] in OPS:
        return build_call(case)
    subj, kinds, fn = PLAIN[case["op"]]
    x = None
    if subj == "r":
        x = R(tt(case["rs"][0]))
    elif subj == "l":
        x = LG(apply_groups(tt(case["rs"]), case["cuts"]))
    args = []
    for k, rs in case["args"]:
        rs = tt(rs)
        args.append(V(rs[0][0]) if k == "v" else R(rs[0]) if k == "r" else L(rs))
    return x, args, fn


def data_state():
    d = bible_data()
    return ([getattr(d, k) for k in sorted(DEFAULTS)], list(d.book_order), {b: list(v) for b, v in d.max_verses.items()},
            {b: set(v) for b, v in d.verse_0s.items()}, {b: tuple(x) if not isinstance(x, tuple) else x for b, x in d.name_data.items()})


DATA = data_state()


def spoil(lst):
    """Change every part of a list."""
    if isinstance(lst, BibleRangeList):
        lst.append(R(((0, 1, 1), (0, 1, 1))), new_group=True)
        lst[0] = R(((0, 1, 1), (0, 1, W.last_num(0, 1))))
        lst.reverse()


def pure(case):
    mode, op = case["mode"], case["op"]
    k = kw(mode)
    d = f"{op} on {case.get('rs') or case['p']} with {case['args']}, {mname(mode)}"

    def fresh():
        x, args, fn = build_any(case)
        if case["alias"]:
            args = [x]
        return x, args, fn
    data = data_state() if W.invented else DATA
    with gflags(mode[0]):
        x, args, fn = fresh()
        before = [normal(v) for v in [x] + args]
        hx = hash(x) if isinstance(x, (BibleVerse, BibleRange)) else None
        res = sut(d, lambda: fn(x, args, k), allow=EXCS, budget=BIG)
        want = normal(res)
        changes = op in CHANGES_SUBJECT
        after = [normal(v) for v in [x] + args]
        lo = 1 if changes else 0
        if not (changes and case["alias"]):
            expect(after[lo:] == before[lo:], lambda: f"{d}: changes its operands from {before[lo:]} to {after[lo:]}")
        expect(hx is None or hash(x) == hx, f"{d}: changes the hash of its subject")
        expect(bibleref.flags is FLAG[mode[0]], f"{d}: leaves the package flags at {bibleref.flags}")
        expect(data_state() == data, f"{d}: changes the package data")
        # what was returned is independent of the operands, both ways
        if not changes:
            for a in [x] + args:
                expect(not (isinstance(res, BibleRangeList) and res is a), f"{d}: returns its operand")
            x2, args2, fn2 = fresh()
            res2 = sut(d, lambda: fn2(x2, args2, k), allow=EXCS, budget=BIG)
            expect(normal(res2) == want, lambda: f"{d}: gives {want} the first time and {normal(res2)} the second")
            for a in {id(a): a for a in [x2] + args2}.values():
                sut("changing an operand", lambda: spoil(a))
            expect(normal(res2) == want, lambda: f"{d}: the result changes when the operands are changed later")
            again = sut(d, lambda: fn(x, args, k), allow=EXCS, budget=BIG)
            expect(normal(again) == want, lambda: f"{d}: called again on the same objects, gives {normal(again)}, not {want}")
            if isinstance(res, BibleRangeList):
                sut("changing the result", lambda: spoil(res))
                after = [normal(v) for v in [x] + args]
                expect(after == before, lambda: f"{d}: changing the result changes the operands")
                again = sut(d, lambda: fn(x, args, k), allow=EXCS, budget=BIG)
                expect(normal(again) == want, lambda: f"{d}: called again on the same objects after the first result was changed, "
                                                      f"gives {normal(again)}, not {want}")
        else:
            for a in args:
                if a is not x:
                    sut("changing an operand", lambda: spoil(a))
            now = normal(x)
            expect(now == want or now == after[0], lambda: f"{d}: the updated list changes when the operand is changed later")
    if isinstance(res, Raised):
        return ["refused"]
    return ["in place" if changes else "returning"] + (["aliased"] if case["alias"] else [])


# further questions, for the facet below
ASK = {
    "verse.max_verse_num": ("v", "", m("max_verse_num")),
    "verse.last_verse": ("v", "", m("last_verse")),
    "verse.is_last_in_chap": ("v", "", m("is_last_in_chap")),
    "verse.is_last_in_book": ("v", "", m("is_last_in_book")),
    "verse.verse_0_to_1": ("v", "", m("verse_0_to_1")),
    "verse.verse_1_to_0": ("v", "", m("verse_1_to_0")),
    "verse + n": ("v", "n", lambda x, a, k: x + a[0]),
    "verse - n": ("v", "n", lambda x, a, k: x - a[0]),
    "iterating range": ("r", "", lambda x, a, k: [v for v, _ in zip(x, range(400))]),
    "iterating list": ("l", "", lambda x, a, k: list(x)),
    "range.is_single_verse": ("r", "", m("is_single_verse")),
    "book.max_verse_num": ("b", "c", m("max_verse_num")),
    "book.last_verse": ("b", "", m("last_verse")),
    "book.last_verse(chapter)": ("b", "c", m("last_verse")),
    "book.chap_count": ("b", "", m("chap_count")),
}
for kind_, opts_ in (("verse", ("abbrev", "alt_sep", "nospace")), ("range", ("abbrev", "alt_sep", "nospace", "force_start_verses")),
                     ("list", ("abbrev", "alt_sep", "nospace", "force_start_verses"))):
    for o_ in opts_:
        ASK[f"{kind_}.str({o_} only)"] = (kind_[0], "", lambda x, a, k, o_=o_: x.str(**{o_: True}))
    ASK[f"{kind_}.str()"] = (kind_[0], "", lambda x, a, k: x.str())
    for t_, fn_ in (("str", str), ("repr", repr)):
        ASK[f"{t_}({kind_})"] = (kind_[0], "", lambda x, a, k, fn_=fn_: fn_(x))
for p_ in ("BOOK", "CHAP", "VERSE", "BOOK_CHAP", "CHAP_VERSE"):
    ASK[f"verse.str({p_})"] = ("v", "", lambda x, a, k, p_=p_: x.str(verse_parts=BibleVersePart[p_]))
ASK.update({n: v for n, v in PLAIN.items() if v[1] in ("", "O") and v[0] in "rl" and n not in CHANGES_SUBJECT})
TOLD = {n: v for n, v in {**OPS, **ASK}.items() if v[0] in "bvrl" and n not in CHANGES_SUBJECT}


@st.composite
def reuse_cases(draw):
    """One subject, asked several questions, some of them again under other flags, with other arguments, or after others."""
    kind = draw(st.sampled_from("bvvrrrrll"))
    line = W.line(draw(st.integers(0, 2)) > 0)
    p = draw(st.one_of(positions(line), chap_starts(line)))
    mb = draw(st.booleans())
    case = {"kind": kind, "p": list(line.verse(p)), "rs": [draw(ranges(line, p, mb)) for _ in range(draw(st.integers(1, 3)))]}
    names = draw(st.lists(st.sampled_from(sorted(n for n in TOLD if TOLD[n][0] == kind)), min_size=1, max_size=3))
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(names))
        args = []
        for a in TOLD[op][1]:
            if a == "c":
                args.append(draw(st.integers(1, W.nchap(case["p"][0]))))
            elif a == "n":
                args.append(draw(st.integers(0, 60)))
            elif a == "V":
                args.append(list(line.verse(draw(near(line, p)))))
            else:
                k = draw(st.sampled_from("vrl"))
                rs = [draw(ranges(line, p, mb)) for _ in range(draw(st.integers(1, 3)) if k == "l" else 1)]
                args.append([k, [[rs[0][0], rs[0][0]]] if k == "v" else rs])
        steps.append([op, args, draw(modes()) if op in OPS else [draw(st.integers(0, 3)), None]])
    return {**case, "steps": steps}


def reuse(case):
    kind, p, rs = case["kind"], tt(case["p"]), tt(case["rs"])

    def subject():
        return W.books[p[0]] if kind == "b" else V(p) if kind == "v" else R(rs[0]) if kind == "r" else L(rs)

    def arg(kind, a):
        if kind == "V":
            return V(tt(a))
        if kind == "O":
            return V(tt(a[1])[0][0]) if a[0] == "v" else R(tt(a[1])[0]) if a[0] == "r" else L(tt(a[1]))
        return a
    old, trail, answers = subject(), [], set()
    for op, args, mode in case["steps"]:
        _, kinds, fn = TOLD[op]
        k = kw(mode) if op in OPS else {}
        trail.append(f"{op}({args}) with {mname(mode)}")
        what = f"{normal(old)}: {'; '.join(trail)}"
        with gflags(mode[0]):
            got, want = (normal(sut(what, lambda: fn(x, [arg(i, a) for i, a in zip(kinds, args)], k), allow=EXCS, budget=BIG))
                         for x in (old, subject()))
        expect_eq(got, want, f"{what}: the last answer, compared with that of a fresh equal {kind}")
        answers.add((op, repr(got)))
    return ["answers differ" if len(answers) > len({op for op, _ in answers}) else "answers agree"]


CHECK = Check("C26", "Operations leave their operands, the flags and the data alone, and results stand on their own", [
    Facet("pure", cases(), pure, 9000),
    invented(Facet("pure", cases(), pure, 0), 3000),
    Facet("reuse", reuse_cases(), reuse, 4000),
    invented(Facet("reuse", reuse_cases(), reuse, 0), 3000),
], rule="every operation (with and without flags argument, methods, operators, in-place updates, constructors) on generated "
        "operands, also a list with itself; oracle: operands, package flags and data compare equal before and after, a "
        "second call gives the same, changing the result does not change the operands or the other way round (for "
        "in-place updates: the argument); and an object asked several questions answers each as a fresh equal object does. Non-trivial: every case")
