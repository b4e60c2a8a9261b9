from ..listmodel import *

SUT_INTS, SUT_RANGES = Ints(), Ranges()
EXTRA = st.one_of(
    st.tuples(st.just("take"), IDX),
    st.tuples(st.just("take"), IDX),
    st.tuples(st.just("vdel"), st.integers(0, 3), st.integers(-1, 4)),
    st.tuples(st.just("vset"), st.integers(0, 3), st.integers(-1, 4), KEYS),
    st.tuples(st.just("vset"), st.integers(0, 3), st.integers(0, 1), KEYS),
    st.tuples(st.just("vlook"), st.integers(0, 3), st.sampled_from(["len", "item", "last", "iter", "all", "str"])),
    st.tuples(st.just("vlook"), st.integers(0, 3), st.just("len")),
)



def hist(n):
    return st.fixed_dictionaries({
        "start": st.lists(st.lists(KEYS, min_size=1, max_size=4), min_size=1, max_size=4),
        "ops": st.lists(st.one_of(OP, EXTRA), min_size=2, max_size=n), "quiet": st.booleans()})


def player(br):
    def read(view):
        return [br.key(v) for v in view]

    def play(case):
        m = [list(g) for g in case["start"]]
        lst = sut("making", lambda: br.make(m))
        views = []      # (view, its group when last seen valid) of the current list
        alive = dead = 0
        for step, op in enumerate(case["ops"]):
            before = [list(g) for g in m]
            what = f"{br.cls.__name__}: {op} on {before}"
            if op[0] == "take":
                c = conform(op[1], len(m))
                if c is not None:
                    views.append(sut(what, lambda: lst.groups[op[1]]))
            elif op[0] == "vlook":
                if views:
                    view = views[op[1] % len(views)]
                    fn = {"len": lambda: len(view), "item": lambda: br.key(view[0]), "last": lambda: br.key(view[len(view) - 1]),
                          "iter": lambda: br.key(next(iter(view))), "all": lambda: read(view), "str": lambda: str(view)}[op[2]]
                    got = sut(what, fn, allow=(GroupViewError,))
                    if not isinstance(got, Raised) and op[2] != "str":
                        fits = {"len": len, "item": lambda g: g[0], "last": lambda g: g[-1], "iter": lambda g: g[0], "all": list}[op[2]]
                        expect(any(fits(g) == got for g in m), lambda: f"{what} of an earlier view gives {got!r}; the groups are {m}")
            elif op[0] in ("vdel", "vset"):
                if not views:
                    continue
                view, j = views[op[1] % len(views)], op[2]

                def go():
                    if op[0] == "vdel":
                        del view[j]
                    else:
                        view[j] = br.item(op[3])
                now = sut(what, lambda: read(view), allow=(GroupViewError,))
                got = sut(what, go, allow=(GroupViewError, IndexError))
                if isinstance(now, Raised):
                    expect(isinstance(got, Raised), f"{what}: a view that cannot be read can be changed")
                elif not 0 <= j < len(now):
                    expect(isinstance(got, Raised), f"{what}: index {j} accepted by a view of {now}")
                else:
                    expect(not isinstance(got, Raised), f"{what}: {got!r} on a view of {now}")
                    # which of the equal groups it was is decided by the outcome
                    outcomes = []
                    for i, g in enumerate(m):
                        if g == now:
                            o = [list(x) for x in m]
                            if op[0] == "vdel":
                                o[i].pop(j)
                                norm(o)
                            else:
                                o[i][j] = op[3]
                            outcomes.append(o)
                    after = [read(g) for g in drain(what, lambda: lst.groups, 1000)]
                    expect(after in outcomes, f"{what}: view of {now}: the list becomes {after}")
                    m[:] = after
            else:
                old = lst
                lst = apply(br, lst, m, op, what)
                if lst is not old:
                    views = []
            if case["quiet"] and step + 1 < len(case["ops"]):
                continue
            observe(br, lst, m, f"after {what}")
            for view in views:
                got = sut(f"reading an earlier view after {what}", lambda: read(view), allow=(GroupViewError,))
                if isinstance(got, Raised):
                    dead += 1
                    for label, fn in (("len", lambda: len(view)), ("[0]", lambda: view[0])):
                        r = sut(f"{label} of an earlier view after {what}", fn, allow=(GroupViewError,))
                        expect(isinstance(r, Raised), f"{label} of an unreadable view works after {what}: {r!r}")
                else:
                    alive += 1
                    expect(got in m, f"an earlier view shows {got} after {what}; the groups are {m}")
                    expect_eq(sut("len of a view", lambda: len(view)), len(got), f"len of an earlier view after {what}")
                    expect_eq([br.key(sut("view index", lambda: view[j])) for j in range(len(got))], got,
                              f"items of an earlier view by index after {what}")
        return (["read"] if alive else []) + (["refused"] if dead else [])
    return play


@st.composite
def long_hist(draw):
    case = draw(long_histories(4))
    n = len(case["start"])
    size = max(map(len, case["start"]))
    take = st.integers(0, n - 1)
    ops = [("take", draw(take)) for _ in range(draw(st.integers(1, 5)))]
    off = st.one_of(st.integers(0, 3), st.integers(0, size), st.just(size - 1))
    extra = st.one_of(st.tuples(st.just("take"), take), st.tuples(st.just("vdel"), st.integers(0, 4), off),
                      st.tuples(st.just("vlook"), st.integers(0, 4), st.sampled_from(["len", "item", "last", "iter"])),
                      st.tuples(st.just("vset"), st.integers(0, 4), off, KEYS))
    for op in case["ops"]:
        ops += [op] if draw(st.booleans()) else [op, draw(extra)]
    return {"start": case["start"], "ops": ops, "quiet": case["quiet"]}


@st.composite
def untouched(draw):
    """Views of groups that the operations do not touch stay valid."""
    groups = draw(st.lists(st.lists(KEYS, min_size=1, max_size=3), min_size=2, max_size=5))
    gi = draw(st.integers(0, len(groups) - 1))
    ops = draw(st.lists(st.tuples(st.sampled_from(["append", "prepend", "del", "set", "insert", "append_group", "split"]),
                                  st.integers(0, 20), KEYS), min_size=1, max_size=8))
    return {"groups": groups, "gi": gi, "ops": ops, "ranges": draw(st.booleans()), "orphan": draw(st.integers(0, 3)) == 0}


def stay(case):
    br = SUT_RANGES if case["ranges"] else SUT_INTS
    m = [list(g) for g in case["groups"]]
    lst = sut("making", lambda: br.make(m))
    gi = case["gi"]
    view = sut("groups[]", lambda: lst.groups[gi])
    mine = m[gi]            # kept by identity: operations below never touch this group
    done = 0
    for kind, i, k in case["ops"]:
        pos = next(j for j, g in enumerate(m) if g is mine)
        what = f"{kind} {i} {k} beside group {pos} of {m}"
        if kind == "append":
            sut(what, lambda: lst.append(br.item(k), new_group=True))
            m.append([k])
        elif kind == "prepend":
            sut(what, lambda: lst.prepend(br.item(k), new_group=True))
            m.insert(0, [k])
        elif kind == "append_group":
            sut(what, lambda: lst.append_group([br.item(k), br.item(0)]))
            m.append([k, 0])
        else:
            others = [(g, j) for g in range(len(m)) if m[g] is not mine for j in range(len(m[g]))]
            if not others:
                continue
            g, j = others[i % len(others)]
            at = sum(len(x) for x in m[:g]) + j
            if kind == "del":
                sut(what, lambda: lst.pop(at))
                m[g].pop(j)
                m[:] = [x for x in m if x]
            elif kind == "set":
                def go():
                    lst[at] = br.item(k)
                sut(what, go)
                m[g][j] = k
            elif kind == "insert":
                sut(what, lambda: lst.insert(at, br.item(k)))
                m[g].insert(j, k)
            else:
                sut(what, lambda: lst.insert_group_at(at))
                if j:
                    m[g:g + 1] = [m[g][:j], m[g][j:]]
        done += 1
        got = sut(f"reading the view after {what}", lambda: [br.key(v) for v in view])
        expect_eq(got, mine, f"the view of an untouched group after {what}")
    if case["orphan"]:      # nothing refers to the list but the view
        del lst
        got = sut(f"reading the view of a list that is not otherwise referred to", lambda: [br.key(v) for v in view])
        expect_eq(got, mine, f"the view of group {mine} of {m}, when the list is not referred to otherwise")
        expect_eq(sut("len of the view", lambda: len(view)), len(mine), "len of the view")
        sut("view[0] =", lambda: view.__setitem__(0, br.item(7)))
        expect_eq(sut("reading", lambda: [br.key(v) for v in view]), [7] + mine[1:], "the view after writing through it")
        return ["stayed"]
    # the view writes through
    sut("view[0] =", lambda: view.__setitem__(0, br.item(7)))
    mine[0] = 7
    observe(br, lst, m, f"after writing through the view in {m}")
    return ["stayed"] if done else []


CHECK = Check("C20", "An earlier group view shows a current group, or is refused", [
    Facet("ints", hist(16), player(SUT_INTS), 5000),
    Facet("ranges", hist(10), player(SUT_RANGES), 2000),
    Facet("long ints", long_hist(), player(SUT_INTS), 240),
    Facet("untouched", untouched(), stay, 4000),
], rule="histories as in C19 (read in full after every step or only at the end) with views taken, kept, read, written and deleted through along the way; oracle: a kept view "
        "either raises GroupViewError or lists exactly one of the current groups, changes through it change that group "
        "and nothing else, and the view of a group that no operation touched keeps showing it (also when nothing else refers to the list). Non-trivial: at least "
        "one kept view was read or refused",
    assumptions=["of several groups with equal items, a view may be of any"])
