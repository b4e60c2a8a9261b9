from ..listmodel import *

SUT_INTS, SUT_RANGES = Ints(), Ranges()


def player(br):
    def play(case):
        m = [list(g) for g in case["start"]]
        lst = sut(f"making a list of {m}", lambda: br.make(m))
        trail = [f"start {m}"]
        if not case["quiet"]:
            observe(br, lst, m, f"of a new list of {m}")
        nontrivial = 0
        for op in case["ops"]:
            before = [list(g) for g in m]
            what = f"{br.cls.__name__}: {op} on {before}"
            lst = apply(br, lst, m, op, what)
            trail.append(str(op))
            if not case["quiet"]:
                observe(br, lst, m, f"after {what}")
            nontrivial += before != m
        if case["quiet"]:
            observe(br, lst, m, f"after {', '.join(trail)}")
        return ["ops"] if nontrivial > 1 else []
    return play


def huge(case):
    m = huge_start(case)
    lst = sut("making a list", lambda: SUT_INTS.make(m))
    trail = f"a list of {case['start'][1]} items (seed {case['start'][0]}, groups {case['start'][2]})"
    for op in case["ops"]:
        trail += f", {op}"
        lst = apply(SUT_INTS, lst, m, op, f"{trail}:")
    observe(SUT_INTS, lst, m, f"after {trail}")
    return ["huge"]


@st.composite
def pairs(draw):
    g = draw(st.lists(st.lists(KEYS, min_size=1, max_size=3), max_size=4))
    how = draw(st.sampled_from(["same", "regroup", "item", "shorter", "other"]))
    h = [list(x) for x in g]
    if how == "regroup":
        h = apply_groups(flat(g), draw(group_split(len(flat(g)))))
    elif how == "item" and g:
        i = draw(st.integers(0, len(g) - 1))
        j = draw(st.integers(0, len(g[i]) - 1))
        h[i][j] = draw(KEYS)
    elif how == "shorter" and g:
        h[-1].pop()
        norm(h)
    elif how == "other":
        h = draw(st.lists(st.lists(KEYS, min_size=1, max_size=3), max_size=4))
    return {"a": g, "b": h, "ranges": draw(st.booleans())}


def equality(case):
    a, b = case["a"], case["b"]
    br = SUT_RANGES if case["ranges"] else SUT_INTS
    x, y = sut("making", lambda: br.make(a)), sut("making", lambda: br.make(b))
    what = f"of {br.cls.__name__} {a} and {b}"
    for p, q, label in ((x, y, ""), (y, x, ", swapped,")):
        expect(sut("==", lambda: p == q) is (a == b), f"=={label} {what} is not {a == b}")
        expect(sut("!=", lambda: p != q) is (a != b), f"!={label} {what} is not {a != b}")
        expect(sut("equals", lambda: p.equals(q)) is (a == b), f"equals{label} {what} is not {a == b}")
        f = flat(a) == flat(b)
        expect(sut("equals", lambda: p.equals(q, compare_groups=False)) is f,
               f"equals(compare_groups=False){label} {what} is not {f}")
        expect(sut("equals", lambda: p.equals(list(q), compare_groups=False)) is f,
               f"equals(a Python list, compare_groups=False){label} {what} is not {f}")
        expect(sut("equals", lambda: p.equals(list(q))) is False, f"equals(a Python list){label} {what} is not False")
    for z in (None, 3, "x", object(), [1], (), {}):
        expect(sut("==", lambda: x == z) is False, f"== {z!r} of {a} is not False")
        expect(sut("!=", lambda: x != z) is True, f"!= {z!r} of {a} is not True")
    return ["equal" if a == b else "same items" if flat(a) == flat(b) else "different"] if a and b else []


CHECK = Check("C19", "A grouped list behaves as a list of groups under every history of operations", [
    Facet("ints", histories(), player(SUT_INTS), 5000),
    Facet("ranges", histories(10), player(SUT_RANGES), 2000),
    Facet("long ints", long_histories(), player(SUT_INTS), 400),
    Facet("long ranges", long_histories(3, 8), player(SUT_RANGES), 100),
    Facet("huge ints", huge_histories(), huge, 24, 400),
    Facet("equality", pairs(), equality, 4000),
], rule="histories of up to 14 operations on short lists, or 5 on lists of up to 150 items, or 3 on lists of up to 4000 (append, prepend, groups, extend with itself or its views, insert, split a "
        "group, pop, delete, set, remove, through groups, clear, reverse, sort, copy, rejected values; indexes in, "
        "at and out of range, negative too) on a GroupedList and on a BibleRangeList; oracle: a Python list of lists, "
        "compared in full after every operation, or only by single reads along the way and in full at the end. Non-trivial: at least two operations changed the list",
    assumptions=["insert() at an index before which there is no item (len or 0) or in range joins the neighbouring group "
                 "as documented; other indexes are refused", "index() with 0 <= min_index < limit_index <= len",
                 "index() on an empty list and the state after extend() fails on its second item are not checked"])
