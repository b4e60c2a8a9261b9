from ..gen import *
from bibleref.ref import MultibookRangeNotAllowedError
from ..invented import invented


@st.composite
def steps(draw):
    mode = draw(modes())
    line = W.line(True)          # verse 0s may also be stepped from when VERSE_0 is not in effect
    zero_ok = draw(st.booleans())
    if not (zero_ok or eff(mode) & V0):
        line = W.line(False)
    p = draw(positions(line))
    v = line.verse(p)
    zl = W.line(bool(eff(mode) & V0) or v[2] == 0)
    p = zl.pos(v)
    d = draw(st.sampled_from(["fwd", "back"]))
    k = draw(st.integers(0, 5))
    if k <= 1:
        n = draw(st.integers(0, 6))
    elif k == 2:
        n = draw(st.integers(0, 400))
    else:
        q = draw(near(zl, p)) if k == 3 else draw(positions(zl))
        n = abs(q - p) + draw(st.sampled_from([0, 0, 0, 1, 2]))
        d = "fwd" if q >= p else "back"
    return {"v": list(v), "n": n, "dir": d, "mode": mode}


def step(case):
    v, n, mode = tt(case["v"]), case["n"], case["mode"]
    f = eff(mode)
    line = W.line(bool(f & V0) or v[2] == 0)
    q = line.pos(v) + (n if case["dir"] == "fwd" else -n)
    lo, hi = (0, line.n - 1) if f & MB else line.book_span(v[0])
    want = line.verse(q) if lo <= q <= hi else None
    x = V(v)
    op = "add" if case["dir"] == "fwd" else "subtract"
    what = f"{name(v)} {op} {n} with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: getattr(x, op)(n, **kw(mode)))
        got = None if got is None else rd(got)
        expect_eq(got, want, what)
        if mode[1] is None:
            got = sut(what, lambda: x + n if op == "add" else x - n)
            expect_eq(None if got is None else rd(got), want, f"operator: {what}")
    labels = []
    if want is None:
        labels.append("beyond the end")
    else:
        if want[0] != v[0]:
            labels.append("crosses books")
        elif want[1] != v[1]:
            labels.append("crosses chapters")
        elif n:
            labels.append("within chapter")
        if abs(want[1] - v[1]) > 1 or abs(want[0] - v[0]) > 1:
            labels.append("several boundaries")
    if line.zero and labels and (v[0] == PSA or (want and want[0] == PSA)):
        labels.append("verse 0 counted")
    return labels


@st.composite
def pairs(draw):
    mode = draw(modes())
    line = W.line(bool(eff(mode) & V0) or draw(st.booleans()))
    p = draw(positions(line))
    q = draw(near(line, p))
    a, b = line.verse(p), line.verse(q)
    if a[0] != b[0] and not eff(mode) & MB and draw(st.integers(0, 3)):
        lo, hi = line.book_span(a[0])
        b = line.verse(min(max(q, lo), hi))
    return {"a": list(a), "b": list(b), "mode": mode}


def distance(case):
    a, b, mode = tt(case["a"]), tt(case["b"]), case["mode"]
    f = eff(mode)
    line = W.line(bool(f & V0) or a[2] == 0 or b[2] == 0)
    want = line.pos(a) - line.pos(b)
    x, y = V(a), V(b)
    gated = a[0] != b[0] and not f & MB
    what = f"{name(a)} - {name(b)} with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: x.subtract(y, **kw(mode)), allow=(MultibookRangeNotAllowedError,) if gated else ())
        if not (gated and isinstance(got, Raised)):
            expect_eq(got, want, what)
        if mode[1] is None and not gated:
            expect_eq(sut(what, lambda: x - y), want, f"operator: {what}")
    if gated:
        return []
    return (["across books"] if a[0] != b[0] else ["across chapters"] if a[1] != b[1] else
            ["same chapter"] if want else []) + (["with verse 0"] if line.zero and PSA in (a[0], b[0]) else [])


def types(case):
    v = V(tt(case["v"]))
    bad = case["bad"]
    for n, fn in (("add", lambda: v.add(bad)), ("subtract", lambda: v.subtract(bad)),
                  ("+", lambda: v + bad), ("-", lambda: v - bad)):
        got = sut(f"{n} {bad!r}", fn, allow=(TypeError,))
        expect(isinstance(got, Raised), f"verse {n} {bad!r} gives {got!r}")
    return ["refused"]


CHECK = Check("C04", "Verse arithmetic moves along the actual sequence of verses", [
    Facet("step", steps(), step, 9000),
    invented(Facet("step", steps(), step, 0), 2000),
    Facet("distance", pairs(), distance, 5000),
    invented(Facet("distance", pairs(), distance, 0), 1500),
    Facet("types", st.fixed_dictionaries({"v": st.just([0, 1, 1]), "bad": st.one_of(
        st.text(max_size=3), st.none(), st.floats(), st.lists(st.integers(), max_size=2))}), types, 80),
], rule="verse x number of verses x direction x flags, distances aimed at chapter, book and Bible boundaries; oracle: "
        "position in the flat list of all verses. Non-trivial: the step leaves the verse or runs off the end",
    assumptions=["number of verses >= 0", "a step from a verse 0 counts verse 0s whatever the flags, as documented",
                 "for verses of different books without MULTIBOOK, MultibookRangeNotAllowedError is also accepted"])
