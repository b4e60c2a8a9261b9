from ..ops import *
from ..invented import invented
from .c06 import BIG
import operator

# ------------------------------------------------------------------ construction

FORMS = ["list", "tuple", "generator", "dict", "positional", "nested lists", "nested tuples", "any nesting", "any nesting", "mixed", "copy", "view",
         "text", "flat of copy", "empty groups"]


@st.composite
def build_cases(draw):
    line = W.line(draw(st.booleans()))
    mb = draw(st.booleans())
    rs = draw(cluster(line, mb, 0, 6))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "form": draw(st.sampled_from(FORMS)),
            "loose": draw(st.lists(st.booleans(), min_size=8, max_size=8)),
            "bad": draw(st.one_of(st.none(), st.none(), st.integers(0, 3)))}


def build(case):
    rs, form = tt(case["rs"]), case["form"]
    groups = apply_groups(list(rs), case["cuts"])
    one = [list(rs)] if rs else []
    x = [R(t) for t in rs]
    gx = apply_groups(list(x), case["cuts"])
    what = f"a list built from {lname(rs)} as {form}"
    if form == "positional" and len(x) == 1:
        form = "list"
    if form == "list":
        got, want = sut(what, lambda: BibleRangeList(list(x))), one
    elif form == "tuple":
        got, want = sut(what, lambda: BibleRangeList(tuple(x))), one
    elif form == "generator":
        got, want = sut(what, lambda: BibleRangeList(r for r in x)), one
    elif form == "dict":
        uniq = list(dict.fromkeys(rs))
        got, want = sut(what, lambda: BibleRangeList(dict.fromkeys(x).keys())), [uniq] if uniq else []
    elif form == "positional":
        got, want = sut(what, lambda: BibleRangeList(*x)), one
    elif form == "nested lists":
        got, want = sut(what, lambda: BibleRangeList(gx)), groups
    elif form == "nested tuples":
        got, want = sut(what, lambda: BibleRangeList(tuple(tuple(g) for g in gx))), groups
    elif form == "any nesting":
        inner = [list(g) if e else tuple(g) for g, e in zip(gx, case["loose"])]
        outer = [list, tuple, iter][sum(case["loose"]) % 3]
        what += f" {[type(g).__name__ for g in inner]} in {outer.__name__}"
        got, want = sut(what, lambda: BibleRangeList(outer(inner))), groups
    elif form == "empty groups":
        gaps = []
        for g, e in zip(gx, case["loose"]):
            gaps += [[]] * e + [g]
        got, want = sut(what, lambda: BibleRangeList(gaps + [[]])), groups
    elif form == "mixed":
        # a range on its own continues the group before it
        arg, want = [], []
        for g, t, loose in zip(gx, groups, case["loose"]):
            if loose:
                arg += g
                if want:
                    want[-1] = want[-1] + t
                else:
                    want.append(t)
            else:
                arg.append(g)
                want.append(t)
        got = sut(what, lambda: BibleRangeList(arg))
    elif form == "copy":
        src = LG(groups)
        got, want = sut(what, lambda: BibleRangeList(src)), groups
        expect(got is not src, f"{what} is the same object")
        expect(sut("==", lambda: got == src) is True, f"{what} does not equal the original")
    elif form == "flat of copy":
        src = LG(groups)
        got, want = sut(what, lambda: BibleRangeList(iter(src))), one
    elif form == "view":
        src = LG(groups)
        i = len(case["loose"]) % len(groups) if groups else None
        if i is None:
            got, want = sut(what, lambda: BibleRangeList()), []
        else:
            got, want = sut(what, lambda: BibleRangeList(src.groups[i])), [groups[i]]
            expect_eq(rdg(src), groups, f"the list a view of which became {what}")
    else:
        if not rs:
            got, want = sut(what, lambda: BibleRangeList([])), []
        else:
            s = " ; ".join(" , ".join(f"{W.books[a[0]].title} {a[1]}:{a[2]} - {W.books[b[0]].title} {b[1]}:{b[2]}" for a, b in g)
                           for g in groups)
            got, want = sut(f"BibleRangeList({s!r})", lambda: BibleRangeList(s, flags=BibleFlag.ALL)), groups
    expect_eq(rdg(got), want, what)
    expect_eq(len(got), sum(map(len, want)), f"len of {what}")
    expect_eq(len(got.groups), len(want), f"number of groups of {what}")
    if case["bad"] is not None and rs:
        # something that is not a range
        bad = ["Mark 2", 7, None, x[0].start][case["bad"]]
        at = sum(case["loose"]) % (len(x) + 1)
        y = x[:at] + [bad] + x[at:]
        for label, fn in (("in an iterable", lambda: BibleRangeList(y)), ("in a group", lambda: BibleRangeList([x, y])),
                          ("among the arguments", lambda: BibleRangeList(*y))):
            r = sut(f"building a list with {bad!r} {label}", fn, allow=(TypeError,))
            expect(isinstance(r, Raised), f"{bad!r} {label} was accepted as a range of a list")
    return [form] if len(rs) > 1 else []


# ------------------------------------------------------------------ histories

EXC = (IndexError, ValueError, TypeError, MultibookRangeNotAllowedError, InvalidReferenceError)


@st.composite
def op_cases(draw, line, p0, mb):
    one = lambda: draw(ranges(line, p0, mb))
    some = lambda: [one() for _ in range(draw(st.integers(0, 3)))]
    i = st.integers(-6, 6)
    kind = draw(st.sampled_from(
        ["append", "append", "prepend", "insert", "insert", "split", "split", "pop", "pop", "pop", "set", "set", "set", "set", "remove", "gdel", "gset", "gset",
         "append_group", "extend", "clear", "clear_groups", "reverse", "reverse", "sort", "sort0", "regroup", "merge",
         "union", "inter", "diff", "sym", "|=", "&=", "-=", "^=", "v0to1", "v1to0", "copy",
         "ask", "ask", "ask", "ask", "ask", "ask", "ask"]))
    op = [kind]
    if kind in ("append", "prepend"):
        op += [one(), draw(st.booleans())]
    elif kind in ("insert", "set"):
        op += [draw(i), one()]
    elif kind in ("split", "pop", "remove"):
        op += [draw(i)]
    elif kind in ("gdel", "gset"):
        op += [draw(i), draw(st.integers(0, 3)), one()]
    elif kind == "ask":
        op += [draw(st.sampled_from(sorted(QUERIES)))]
    elif kind in ("append_group", "extend"):
        op += [draw(st.one_of(st.sampled_from(["self", "other", "view"]), st.builds(some)))]
    elif kind in ("union", "inter", "diff", "sym", "|=", "&=", "-=", "^="):
        op += [draw(st.sampled_from(["self", "other", "other", "verse", "range", "list"])), one()]
    return op


@st.composite
def history_cases(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    p0 = draw(positions(line))
    mb = bool(eff(mode) & MB)
    start = [[draw(ranges(line, p0, mb)) for _ in range(draw(st.integers(0, 5)))] for _ in "ab"]
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        t = draw(st.integers(0, 1))
        op = draw(op_cases(line, p0, mb))
        if draw(st.booleans()):     # the same question before and after (a stale answer), or the same change
            again = draw(st.one_of(st.sampled_from(sorted(QUERIES)).map(lambda q: ["ask", q]),
                                   st.sampled_from(["sort", "sort0", "merge", "regroup", "reverse"]).map(lambda q: [q])))
            ops += [[t, again], [t, op], [t, again]]
        else:
            ops.append([t, op])
    return {"mode": mode, "start": start, "cuts": [draw(group_split(len(s))) for s in start], "ops": ops}


@st.composite
def long_cases(draw):
    """The same with lists of up to 60 ranges; the ranges come from a seed."""
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    mb = bool(eff(mode) & MB)
    seed = draw(SEED)
    start = [bulk(line, mb, draw(many_n(2, 60)), seed + i) for i in draw(st.sampled_from([(0, 0), (0, 1)]))]
    p0 = line.pos(start[0][0][0])
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.integers(0, 1))
        op = draw(op_cases(line, p0, mb))
        if op[0] in ("insert", "set", "split", "pop", "remove", "gdel", "gset"):
            n = len(start[t])
            op[1] = draw(st.integers(-n, n))
        again = draw(st.one_of(st.sampled_from(sorted(QUERIES)).map(lambda q: ["ask", q]),
                               st.sampled_from(["sort", "sort0", "merge", "regroup", "reverse"]).map(lambda q: [q])))
        ops += [[t, again], [t, op], [t, again]] if draw(st.booleans()) else [[t, op]]
    return {"mode": mode, "start": start, "cuts": [bulk_cuts(len(s), seed) for s in start], "ops": ops}


UPD = {"union": "union_update", "inter": "intersection_update", "diff": "difference_update", "sym": "sym_difference_update"}
IOP = {"|=": operator.ior, "&=": operator.iand, "-=": operator.isub, "^=": operator.ixor}


def perform(x, y, op, k, what):
    """Apply op to the list x (y is the other list). Returns (the list to go on with, what the call gave)."""
    kind = op[0]
    nxt = [x]

    def operand(o):
        if o == "self":
            return x
        if o == "other":
            return y
        if o == "view":
            return x.groups[-1] if len(x) else []
        if o == "verse":
            return V(tt(op[2])[0])
        if o == "range":
            return R(tt(op[2]))
        if o == "list":
            return L(tt([op[2], op[2]]))
        return [R(t) for t in tt(o)]

    def go():
        if kind in ("append", "prepend"):
            return getattr(x, kind)(R(tt(op[1])), new_group=op[2])
        if kind == "insert":
            return x.insert(op[1], R(tt(op[2])))
        if kind == "set":
            x[op[1]] = R(tt(op[2]))
        elif kind == "split":
            return x.insert_group_at(op[1])
        elif kind == "pop":
            return x.pop(op[1])
        elif kind == "remove":
            return x.remove(x[op[1]])
        elif kind == "gdel":
            del x.groups[op[1]][op[2]]
        elif kind == "gset":
            x.groups[op[1]][op[2]] = R(tt(op[3]))
        elif kind in ("append_group", "extend"):
            return getattr(x, kind)(operand(op[1]))
        elif kind in ("clear", "clear_groups", "reverse"):
            return getattr(x, kind)()
        elif kind == "sort":
            return x.sort()
        elif kind == "sort0":
            return x.sort(regroup=False)
        elif kind in ("regroup", "merge"):
            return getattr(x, kind)(**k)
        elif kind in UPD:
            getattr(x, UPD[kind])(operand(op[1]), **k)
        elif kind in IOP:
            nxt[0] = IOP[kind](x, operand(op[1]))
        elif kind == "v0to1":
            return x.verse_0_to_1()
        elif kind == "v1to0":
            return x.verse_1_to_0()
        elif kind == "copy":
            nxt[0] = BibleRangeList(x)
        elif kind == "ask":
            return QUERIES[op[1]](x, y, k)
    got = sut(what, go, allow=EXC, budget=BIG)
    return nxt[0], normal(got)


def changed(method):
    def go(x, y, k):
        c = BibleRangeList(x)
        getattr(c, method)()
        return c
    return go


def about_items(x, y, k):
    return [(x.index(r), x.count(r), r in x) for r in list(x)[:3]]


QUERIES = {
    "len": lambda x, y, k: len(x),
    "reversed": lambda x, y, k: list(reversed(x)),
    "indexes": lambda x, y, k: [x[i] for i in range(-len(x), len(x))],
    "groups": lambda x, y, k: [[g[i] for i in range(len(g))] for g in x.groups],
    "str": lambda x, y, k: x.str(**k),
    "str(preserve_groups=False)": lambda x, y, k: x.str(preserve_groups=False, abbrev=True, **k),
    "repr": lambda x, y, k: repr(x),
    "verse_count": lambda x, y, k: x.verse_count(**k),
    "chap_count": lambda x, y, k: x.chap_count(**k),
    "chap_count(whole)": lambda x, y, k: x.chap_count(whole=True, **k),
    "book_count": lambda x, y, k: x.book_count(**k),
    "chap_range": lambda x, y, k: x.chap_range(**k),
    "book_range": lambda x, y, k: x.book_range(**k),
    "range": lambda x, y, k: x.range(),
    "is_disjoint": lambda x, y, k: x.is_disjoint(y),
    "==": lambda x, y, k: x == y,
    "equals(compare_groups=False)": lambda x, y, k: x.equals(y, compare_groups=False),
    "copy": lambda x, y, k: BibleRangeList(x),
    "index, count, in": about_items,
}
for m_ in ("contains", "union", "intersection", "difference", "sym_difference"):
    QUERIES[m_] = lambda x, y, k, m_=m_: getattr(x, m_)(y, **k)
    QUERIES[m_ + " of the other"] = lambda x, y, k, m_=m_: getattr(y, m_)(x, **k)
    QUERIES[m_ + " with itself"] = lambda x, y, k, m_=m_: getattr(x, m_)(x, **k)
for m_ in ("sort", "regroup", "merge", "reverse", "clear_groups"):
    QUERIES[m_ + " of a copy"] = changed(m_)


def battery(x, y, k, what):
    """What the list answers to everything one can ask of it."""
    return [(label, normal(sut(f"{label} {what}", lambda: fn(x, y, k), allow=EXC, budget=BIG))) for label, fn in QUERIES.items()]


def history(case):
    mode, k = case["mode"], kw(case["mode"])
    lists = [LG(apply_groups(list(tt(s)), c)) for s, c in zip(case["start"], case["cuts"])]
    trail = []
    changes = 0
    with gflags(mode[0]):
        for t, op in case["ops"]:
            before = [rdg(x) for x in lists]
            fresh = [LG(g) for g in before]
            trail.append(f"{'AB'[t]}: {op}")
            what = f"after {'; '.join(trail)} (A and B were {case['start']}, cuts {case['cuts']}, {mname(mode)})"
            lists[t], a = perform(lists[t], lists[1 - t], op, k, what)
            fresh[t], b = perform(fresh[t], fresh[1 - t], op, k, "fresh, " + what)
            expect_eq(a, b, f"what the last call gives {what}, compared with lists freshly built from the same ranges")
            for i in (0, 1):
                expect_eq(rdg(lists[i]), rdg(fresh[i]), f"list {'AB'[i]} {what}, compared with the same call on lists freshly "
                                                        f"built from the same ranges")
            changes += before != [rdg(x) for x in lists]
        what = f"after {'; '.join(trail)} (A and B were {case['start']}, cuts {case['cuts']}, {mname(mode)})"
        fresh = [LG(rdg(x)) for x in lists]
        for i in (0, 1):
            expect(sut("==", lambda: lists[i] == fresh[i]) is True and sut("==", lambda: fresh[i] == lists[i]) is True,
                   f"list {'AB'[i]} {what} does not equal a fresh list of the same ranges and groups")
            a = battery(lists[i], lists[1 - i], k, what)
            b = battery(fresh[i], fresh[1 - i], k, "fresh, " + what)
            for (label, p), (_, q) in zip(a, b):
                expect_eq(p, q, f"{label} of list {'AB'[i]} {what}, compared with a fresh list")
    return [f"{min(changes, 6)} changes"] if changes > 1 else []


CHECK = Check("C28", "A list is what it was built from, and has no memory of how it got there", [
    Facet("build", build_cases(), build, 3000),
    Facet("history", history_cases(), history, 1200),
    invented(Facet("history", history_cases(), history, 0), 1600),
    Facet("long", long_cases(), history, 120),
], rule="lists built in every documented way; and histories of up to 21 list, group and set operations on two lists (short ones, and ones of up to 60, sometimes 320, ranges), operands of "
        "each other, where every step (queries among them), and at the end every query, is repeated on lists freshly built from the same ranges and "
        "groups (differential oracle). Non-trivial: at least two ranges, or at least two operations that changed a list",
    assumptions=["the right results for freshly built lists are the business of C09-C12, C16-C19"])
