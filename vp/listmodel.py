"""Histories of list operations, and the reference model of a grouped list: a Python list of non-empty groups (lists of
item keys). Items are small integers; a bridge turns them into values of the list under test and back."""
from .gen import *
from bibleref.util import GroupedList, GroupViewError

POOL = [((0, 1, 1), (0, 1, 5)), ((0, 1, 1), (0, 1, 1)), ((0, 1, 1), (0, 2, 25)), ((0, 49, 3), (0, 50, 26)),
        ((PSA, 3, 1), (PSA, 3, 8)), ((PSA, 3, 2), (PSA, 3, 8)), ((NB - 1, 22, 1), (NB - 1, 22, 21)),
        ((38, 1, 1), (39, 1, 1))]
POOL.sort()


class Ints:
    """GroupedList of integers"""
    cls = GroupedList
    typed = False

    def item(self, k):
        return k

    def key(self, v):
        if not isinstance(v, int):
            raise Violation(f"the list holds {v!r}")
        return v

    def make(self, groups):
        return GroupedList([[self.item(k) for k in g] for g in groups])

    def sort(self, lst):
        lst.sort()


class Ranges(Ints):
    """BibleRangeList of ranges; key k stands for POOL[k]. A new object every time: equality decides, not identity."""
    cls = BibleRangeList
    typed = True

    def item(self, k):
        return R(POOL[k])

    def key(self, v):
        return POOL.index(rdr(v))

    def make(self, groups):
        return BibleRangeList([[self.item(k) for k in g] for g in groups])

    def sort(self, lst):
        lst.sort(regroup=False)


BAD = ["Matt 1", 5, None, (1, 2), V((0, 1, 1))]


def flat(m):
    return [k for g in m for k in g]


def place(m, i):
    """Group number and offset of item i."""
    for gi, g in enumerate(m):
        if i < len(g):
            return gi, i
        i -= len(g)
    raise IndexError(i)


def norm(m):
    m[:] = [g for g in m if g]


def conform(i, n):
    """The non-negative equivalent of index i, or None if it is out of range."""
    if i < 0:
        i += n
    return i if 0 <= i < n else None


def some(n):
    """Some of the indexes of n items."""
    return sorted({i for k in (0, 1, 2, n // 4, n // 2 - 1, n // 2, n // 2 + 1, 3 * n // 4, n - 2, n - 1) for i in (k, k - n)})


def observe(br, lst, m, what):
    """Everything that can be read from the list agrees with the model."""
    n = len(flat(m))
    expect_eq(sut(f"len {what}", lambda: len(lst)), n, f"len {what}")
    expect_eq([br.key(v) for v in drain(f"iterating {what}", lambda: lst, n + 3)], flat(m), f"items {what}")
    expect_eq([br.key(v) for v in drain(f"reversed() {what}", lambda: reversed(lst), n + 3)], flat(m)[::-1],
              f"reversed items {what}")
    expect_eq(sut(f"len(groups) {what}", lambda: len(lst.groups)), len(m), f"number of groups {what}")
    gs = [[br.key(v) for v in drain(f"iterating a group {what}", lambda g=g: g, n + 3)]
          for g in drain(f"iterating groups {what}", lambda: lst.groups, n + 3)]
    expect_eq(gs, m, f"groups {what}")
    nested = sut(f"to_nested_lists {what}", lambda: lst.to_nested_lists())
    expect_eq([[br.key(v) for v in g] for g in nested], m, f"to_nested_lists {what}")
    expect(all(type(g) is list for g in nested) and type(nested) is list, f"to_nested_lists {what} gives {nested!r}")
    for i in range(-n, n) if n <= 200 else some(n):
        expect_eq(br.key(sut(f"[{i}] {what}", lambda: lst[i])), flat(m)[i], f"[{i}] {what}")
    for i in range(-len(m), len(m)):
        g = sut(f"groups[{i}] {what}", lambda: lst.groups[i])
        js = range(len(m[i])) if len(m[i]) <= 200 else [j for j in some(len(m[i])) if j >= 0]
        expect_eq([br.key(sut(f"groups[{i}][{j}] {what}", lambda: g[j])) for j in js], [m[i][j] for j in js],
                  f"groups[{i}] {what}")
        expect_eq(sut(f"len(groups[{i}]) {what}", lambda: len(g)), len(m[i]), f"len(groups[{i}]) {what}")
        for j in (len(m[i]), len(m[i]) + 1):
            got = sut(f"groups[{i}][{j}] {what}", lambda: g[j], allow=(IndexError,))
            expect(isinstance(got, Raised), f"groups[{i}][{j}] {what} gives {got!r}")
    for i in (n, n + 1, -n - 1, -n - 2, 2 * n + 1, -2 * n - 1):
        got = sut(f"[{i}] {what}", lambda: lst[i], allow=(IndexError,))
        expect(isinstance(got, Raised), f"[{i}] of {n} items {what} gives {got!r}")
    for i in (len(m), -len(m) - 1):
        got = sut(f"groups[{i}] {what}", lambda: lst.groups[i], allow=(IndexError,))
        expect(isinstance(got, Raised), f"groups[{i}] of {len(m)} groups {what} gives {got!r}")


WALKS = ["forwards", "backwards", "groups", "in group"]


def walk(br, lst, m, how, g):
    """An iterator over the list, or over its groups, and what it should give."""
    items = flat(m)
    if how == "forwards":
        return iter(lst), items, br.key
    if how == "backwards":
        return reversed(lst), items[::-1], br.key
    if how == "groups" or not m:
        return iter(lst.groups), m, lambda v: [br.key(x) for x in v]
    return iter(lst.groups[g % len(m)]), m[g % len(m)], br.key


LOOKS = ["at once", "at once", "item", "item", "group", "in group", "first items", "last items", "len", "groups", "nested", "every other"]


def look(br, lst, m, how, i, j, what):
    """Read one thing from the list. (Reading everything, as observe() does, may put right what a read remembers.)"""
    items, n = flat(m), len(flat(m))
    c, g = conform(i, n), conform(i, len(m))
    if how == "at once":        # two or three iterations at the same time
        n = 1 + j
        walks = [sut(what, lambda w=w: walk(br, lst, m, w, i)) for w in (WALKS[i % 4], WALKS[(i // 4 + j) % 4], WALKS[i % 4])]
        got = [[], [], []]
        for k, cap in ((0, n), (1, n // 2 + 1), (0, 1), (2, len(items) + 3), (1, len(items) + 3), (0, len(items) + 3)):
            it, _, key = walks[k]
            got[k] += [key(v) for v in sut(what, lambda: list(itertools.islice(it, cap)))]
        for x, (_, want, _) in zip(got, walks):
            expect_eq(x, want, what)
    elif how == "item":
        got = sut(what, lambda: lst[i], allow=(IndexError,) if c is None else ())
        expect(isinstance(got, Raised) if c is None else br.key(got) == items[c], lambda: f"{what} gives {got!r}")
    elif how in ("group", "in group"):
        got = sut(what, lambda: lst.groups[i], allow=(IndexError,) if g is None else ())
        if g is None:
            expect(isinstance(got, Raised), lambda: f"{what} gives {got!r}")
        elif how == "group":
            expect_eq(sut(what, lambda: len(got)), len(m[g]), f"{what}: len")
            expect_eq([br.key(v) for v in drain(what, lambda: got, n + 3)], m[g], what)
        elif j < len(m[g]):
            expect_eq(br.key(sut(what, lambda: got[j])), m[g][j], what)
    elif how in ("first items", "last items"):
        it = sut(what, lambda: iter(lst) if how == "first items" else reversed(lst))
        want = (items if how == "first items" else items[::-1])[:j + 1]
        expect_eq([br.key(v) for v in sut(what, lambda: list(itertools.islice(it, j + 1)))], want, what)
    elif how == "len":
        expect_eq(sut(what, lambda: len(lst)), n, what)
        expect_eq(sut(what, lambda: len(lst.groups)), len(m), f"{what} of groups")
    elif how == "groups":
        expect_eq([[br.key(v) for v in x] for x in drain(what, lambda: lst.groups, n + 3)], m, what)
    elif how == "nested":
        expect_eq([[br.key(v) for v in x] for x in sut(what, lambda: lst.to_nested_lists())], m, what)
    else:
        for k in range(j % 2, n, 2):
            expect_eq(br.key(sut(what, lambda: lst[k])), items[k], f"{what}: [{k}]")


KEYS = st.integers(0, 7)
IDX = st.integers(-9, 9)
def operations(IDX, OFF, *LIM):
    return st.one_of(
        st.tuples(st.sampled_from(["append", "prepend"]), KEYS, st.booleans()),
        st.tuples(st.sampled_from(["append_group", "extend", "iadd"]), st.lists(KEYS, max_size=4)),
        st.tuples(st.sampled_from(["append_group", "extend", "iadd"]), st.sampled_from(["self", "view", "iter", "range"])),
        st.tuples(st.just("insert"), IDX, KEYS),
        st.tuples(st.just("insert"), IDX, KEYS),
        st.tuples(st.just("insert_group_at"), IDX),
        st.tuples(st.just("insert_group_at"), IDX),
        st.tuples(st.sampled_from(["pop", "del"]), IDX),
        st.tuples(st.sampled_from(["pop", "del"]), IDX),
        st.tuples(st.just("pop"), st.none()),
        st.tuples(st.just("set"), IDX, KEYS),
        st.tuples(st.just("remove"), KEYS),
        st.tuples(st.just("gdel"), IDX, OFF),
        st.tuples(st.just("gset"), IDX, OFF, KEYS),
        st.tuples(st.sampled_from(["clear", "clear_groups", "reverse", "sort", "sort", "copy", "rebuild"])),
        st.tuples(st.just("index"), KEYS, *LIM),
        st.tuples(st.just("look"), st.sampled_from(LOOKS), IDX, OFF),
        st.tuples(st.just("look"), st.just("item"), IDX, st.just(0)),
        st.tuples(st.just("bad"), st.sampled_from(["append", "prepend", "insert", "set", "gset", "extend", "append_group",
                                                   "new"]), st.integers(0, len(BAD) - 1), IDX),
    )


OP = operations(IDX, st.integers(0, 4), st.integers(0, 8), st.integers(0, 8))


def histories(max_ops=14):
    return st.fixed_dictionaries({
        "start": st.lists(st.lists(KEYS, min_size=1, max_size=4), max_size=4),
        "ops": st.lists(OP, min_size=1, max_size=max_ops), "quiet": st.booleans()})


def long_histories(max_ops=5, keys=None):
    """Histories of lists of up to 150 items: all different (if keys is None), or of the given number of keys."""
    @st.composite
    def go(draw):
        n = draw(st.one_of(st.integers(5, 40), st.integers(30, 150)))
        seed = draw(SEED)
        rnd = random.Random(seed)
        items = list(range(100, 100 + n)) if keys is None else [rnd.randrange(keys) for _ in range(n)]
        rnd.shuffle(items)
        idx = st.one_of(st.integers(-n - 2, n + 2), st.sampled_from([0, n - 1, n, -1, -n, n // 2, n // 2 - 1, n // 2 + 1]))
        k = st.sampled_from(items)
        op = operations(idx, st.integers(0, n), st.integers(0, n), st.integers(0, n))
        ops = draw(st.lists(st.one_of(op, op, st.tuples(st.just("remove"), k), st.tuples(st.just("set"), idx, k),
                                      st.tuples(st.just("index"), k, st.integers(0, n), st.integers(0, n))),
                            min_size=1, max_size=max_ops))
        return {"start": apply_groups(items, bulk_cuts(n, seed + 1)), "ops": ops, "quiet": draw(st.booleans())}
    return go()


@st.composite
def huge_histories(draw, max_ops=3):
    """Histories of lists of thousands of items in few or many groups."""
    n = draw(st.sampled_from([1100, 1500, 2500, 4000]))
    seed = draw(SEED)
    idx = st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, n, -1, -n, n // 2, 1]))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["append", "prepend"]), KEYS, st.booleans()),
        st.tuples(st.sampled_from(["append_group", "extend"]), st.sampled_from(["self", "view", "iter"])),
        st.tuples(st.just("insert"), idx, KEYS),
        st.tuples(st.just("insert_group_at"), idx),
        st.tuples(st.just("insert_group_at"), idx),
        st.tuples(st.sampled_from(["pop", "del"]), idx),
        st.tuples(st.just("gdel"), st.integers(0, 2), st.integers(0, n)),
        st.tuples(st.just("remove"), st.integers(100, 99 + n)),
        st.tuples(st.sampled_from(["clear", "clear_groups", "reverse", "sort", "copy", "rebuild"])),
        st.tuples(st.just("index"), st.integers(100, 99 + n), st.just(0), st.just(n)),
    ), min_size=1, max_size=max_ops))
    p = draw(st.sampled_from([0, 0, .001, .5]))
    return {"start": [seed, n, p], "ops": ops, "quiet": True}


def huge_start(case):
    seed, n, p = case["start"]
    items = list(range(100, 100 + n))
    random.Random(seed).shuffle(items)
    rnd = random.Random(seed + 1)
    return apply_groups(items, [rnd.random() < p for _ in range(n - 1)])


def apply(br, lst, m, op, what):
    """Apply op to the list and to the model m (in place). Returns the list to go on with."""
    n = len(flat(m))
    kind = op[0]

    def call(fn, refuse, *, excs=(IndexError,)):
        got = sut(what, fn, allow=excs if refuse else ())
        if refuse:
            expect(isinstance(got, Raised), f"{what}: not refused")
            return None
        return got

    if kind == "look":
        look(br, lst, m, *op[1:], what)
    elif kind in ("append", "prepend"):
        _, k, new = op
        r = call(lambda: getattr(lst, kind)(br.item(k), new_group=new) if new else getattr(lst, kind)(br.item(k)), False)
        expect(r is None, f"{what} returns {r!r}")
        if kind == "append":
            m.append([k]) if new or not m else m[-1].append(k)
        else:
            m.insert(0, [k]) if new or not m else m[0].insert(0, k)
    elif kind in ("append_group", "extend", "iadd"):
        src = op[1]
        if src == "self":
            ks, arg = flat(m), lst
        elif src == "view":
            ks = list(m[-1]) if m else []
            arg = sut(what, lambda: lst.groups[-1]) if m else []
        elif src == "iter":
            ks = [1, 3]
            arg = iter([br.item(k) for k in ks])
        elif src == "range":
            ks = [2, 0, 2]
            arg = br.make([[2], [0, 2]])
        else:
            ks = list(src)
            arg = [br.item(k) for k in ks]
        if kind == "iadd":
            before = lst

            def go():
                x = lst
                x += arg
                return x
            lst = call(go, False)
            expect(lst is before, f"{what}: += makes another list")
        else:
            call(lambda: getattr(lst, kind)(arg), False)
        if ks:
            if kind == "append_group" or not m:
                m.append(ks)
            else:
                m[-1].extend(ks)
    elif kind == "insert":
        _, i, k = op
        c = conform(i, n)
        ok = i == n or c is not None
        if i == n == 0:
            c = 0
        call(lambda: lst.insert(i, br.item(k)), not ok)
        if ok:
            if not m:
                m.append([k])
            elif i == n:
                m[-1].append(k)
            else:
                g, j = place(m, c)
                m[g].insert(j, k)
    elif kind == "insert_group_at":
        c = conform(op[1], n)
        call(lambda: lst.insert_group_at(op[1]), c is None)
        if c is not None:
            g, j = place(m, c)
            if j:
                m[g:g + 1] = [m[g][:j], m[g][j:]]
    elif kind in ("pop", "del"):
        i = -1 if op[1] is None else op[1]
        c = conform(i, n)
        if kind == "pop":
            got = call(lambda: lst.pop() if op[1] is None else lst.pop(op[1]), c is None)
        else:
            def go():
                del lst[i]
            call(go, c is None)
        if c is not None:
            g, j = place(m, c)
            k = m[g].pop(j)
            if kind == "pop":
                expect_eq(br.key(got), k, what)
            norm(m)
    elif kind == "set":
        c = conform(op[1], n)

        def go():
            lst[op[1]] = br.item(op[2])
        call(go, c is None)
        if c is not None:
            g, j = place(m, c)
            m[g][j] = op[2]
    elif kind == "remove":
        call(lambda: lst.remove(br.item(op[1])), op[1] not in flat(m), excs=(ValueError,))
        if op[1] in flat(m):
            g, j = place(m, flat(m).index(op[1]))
            m[g].pop(j)
            norm(m)
    elif kind in ("gdel", "gset"):
        gi, j = op[1], op[2]
        c = conform(gi, len(m))
        bad = c is None or j >= len(m[c])

        def go():
            if kind == "gdel":
                del lst.groups[gi][j]
            else:
                lst.groups[gi][j] = br.item(op[3])
        call(go, bad)
        if not bad:
            if kind == "gdel":
                m[c].pop(j)
                norm(m)
            else:
                m[c][j] = op[3]
    elif kind == "clear":
        call(lambda: lst.clear(), False)
        m.clear()
    elif kind == "clear_groups":
        call(lambda: lst.clear_groups(), False)
        m[:] = [flat(m)]
        norm(m)
    elif kind == "reverse":
        call(lambda: lst.reverse(), False)
        m[:] = [flat(m)[::-1]]
        norm(m)
    elif kind == "sort":
        call(lambda: br.sort(lst), False)
        m[:] = [sorted(flat(m))]
        norm(m)
    elif kind in ("copy", "rebuild"):
        old, oldm = lst, [list(g) for g in m]
        if kind == "copy":
            lst = call(lambda: br.cls(lst.to_nested_lists()), False)
        else:
            lst = call(lambda: br.cls(list(old)), False)
            m[:] = [flat(m)]
            norm(m)
        same = m == oldm
        expect(sut(f"{what} ==", lambda: lst == old) is same, f"{what}: == with the original is not {same}")
        expect(sut(f"{what} !=", lambda: lst != old) is not same, f"{what}: != with the original is not {not same}")
        expect(sut(f"{what} equals", lambda: lst.equals(old)) is same, f"{what}: equals(original) is not {same}")
        expect(sut(f"{what} equals", lambda: lst.equals(old, compare_groups=False)) is True,
               f"{what}: equals(original, compare_groups=False) is not True")
        expect(sut(f"{what} equals", lambda: lst.equals(list(old), compare_groups=False)) is True,
               f"{what}: equals(list(original), compare_groups=False) is not True")
        # the copy is a separate list
        sut(what, lambda: old.append(br.item(7)))
        sut(what, lambda: old.prepend(br.item(7), new_group=True))
        if lst:
            expect(sut(f"{what} ==", lambda: lst == old) is False, f"{what}: equal to a longer list")
    elif kind == "index":
        _, k, lo, hi = op
        items = flat(m)
        if lo < hi <= n:
            want = next((i for i in range(lo, hi) if items[i] == k), None)
            got = call(lambda: lst.index(br.item(k), lo, hi), want is None, excs=(ValueError,))
            expect_eq(got, want, what)
            # the same bounds, counted from the end or given in part
            got = call(lambda: lst.index(br.item(k), lo - n, hi), want is None, excs=(ValueError,))
            expect_eq(got, want, f"{what}: with the lower bound counted from the end")
            if hi < n:
                got = call(lambda: lst.index(br.item(k), lo, hi - n), want is None, excs=(ValueError,))
                expect_eq(got, want, f"{what}: with the limit counted from the end")
            part = next((i for i in range(lo, n) if items[i] == k), None)
            got = call(lambda: lst.index(br.item(k), lo), part is None, excs=(ValueError,))
            expect_eq(got, part, f"{what}: without a limit")
            part = next((i for i in range(hi) if items[i] == k), None)
            got = call(lambda: lst.index(br.item(k), limit_index=hi), part is None, excs=(ValueError,))
            expect_eq(got, part, f"{what}: without a lower bound")
        if n:
            got = call(lambda: lst.index(br.item(k)), k not in items, excs=(ValueError,))
            expect_eq(got, items.index(k) if k in items else None, what)
        expect_eq(sut(what, lambda: lst.count(br.item(k))), items.count(k), f"{what}: count")
        if not br.typed:        # for a BibleRangeList, `in` is about verses (C09)
            expect_eq(sut(what, lambda: br.item(k) in lst), k in items, f"{what}: in")
    elif kind == "bad" and br.typed:
        _, how, which, i = op
        bad = BAD[which]
        partial = False
        if how in ("append", "prepend"):
            fn = lambda: getattr(lst, how)(bad)
        elif how == "insert":
            fn = lambda: lst.insert(i, bad)
        elif how == "set":
            def fn():
                lst[i] = bad
        elif how == "gset":
            def fn():
                lst.groups[i][0] = bad
        elif how in ("extend", "append_group"):
            partial = True
            fn = lambda: getattr(lst, how)([br.item(4), bad, br.item(5)])
        else:
            if isinstance(bad, (str, tuple, list)):
                return lst
            fn = lambda: br.cls([br.item(1), bad])
        got = sut(what, fn, allow=(TypeError, ValueError, IndexError))
        expect(isinstance(got, Raised), f"{what}: {bad!r} accepted in a BibleRangeList")
        if partial:
            now = [[br.key(v) for v in g] for g in sut(what, lambda: lst.to_nested_lists())]
            if now != m:
                if how == "append_group" or not m:
                    m.append([4])
                else:
                    m[-1].append(4)
    return lst
