from ..gen import *
from ..gen import _r
from .c09 import build, bn, related
from .c10 import OPS
from .c06 import BIG
import operator
from ..invented import invented

INPLACE = {"union": operator.ior, "intersection": operator.iand, "difference": operator.isub,
           "sym_difference": operator.ixor}


@st.composite
def cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    mb = bool(f & MB)
    a = draw(cluster(line, mb, 0, 5))
    p = line.pos(tt(a[0][0])) if a else draw(positions(line))
    kb = draw(st.sampled_from("vrllll"))
    same = kb == "l" and draw(st.integers(0, 7)) == 0
    if kb == "v":
        r = draw(related(line, p, a, mb))
        b = [[r[0], r[0]]]
    elif same:
        b = a
    else:
        b = [draw(related(line, p, a, mb)) for _ in range(1 if kb == "r" else draw(st.integers(0, 5)))]
    return {"a": a, "b": b, "kb": "self" if same else kb, "cuts": draw(group_split(len(a))),
            "op": draw(st.sampled_from(sorted(OPS))), "mode": mode}


def run(case):
    a, b, mode, kb = tt(case["a"]), tt(case["b"]), case["mode"], case["kb"]
    f, op = eff(mode), case["op"]
    line = W.line(f & V0)
    sym, model = OPS[op]
    bits = model(bits_of(line, a), bits_of(line, b))
    want = [vr(line, lo, hi) for lo, hi in line.runs(bits, bool(f & MB))]
    ga = apply_groups(a, case["cuts"])
    grouped = L(want)
    sut("regroup", lambda: grouped.regroup(flags=FLAG[f]), budget=BIG)
    wantg = rdg(grouped)
    expect_eq([r for g in wantg for r in g], want, "regroup")
    what = f"{lname(a)}.{op}({bn(kb if kb != 'self' else 'l', b)}{' (the same list)' if kb == 'self' else ''}) with {mname(mode)}"

    def operands():
        x = LG(ga)
        return x, (x if kb == "self" else build(kb, b))

    def unchanged(x, y, label):
        expect_eq(rdg(x), ga, f"{label} changed the list")
        if kb == "l":
            expect_eq(rdl(y), list(b), f"{label} changed the other list")

    with gflags(mode[0]):
        x, y = operands()
        got = sut(what, lambda: getattr(x, op)(y, **kw(mode)), budget=BIG)
        expect_eq(rdl(got), want, what)
        expect_eq(rdg(got), wantg, f"groups of {what}")
        expect(got is not x and got is not y, f"{what} returns its operand")
        unchanged(x, y, what)

        x, y = operands()
        sut(f"in-place {what}", lambda: getattr(x, op + "_update")(y, **kw(mode)), budget=BIG)
        expect_eq(rdl(x), want, f"in-place {what}")
        expect_eq(rdg(x), wantg, f"groups of in-place {what}")
        expect_eq(sut("len", lambda: len(x)), len(want), f"len after in-place {what}")
        if kb == "l":
            expect_eq(rdl(y), list(b), f"in-place {what} changed the other list")
        if mode[1] is None:
            x, y = operands()
            got = sut(f"operator: {what}", lambda: sym(x, y), budget=BIG)
            expect_eq(rdl(got), want, f"operator: {what}")
            unchanged(x, y, f"operator: {what}")
            x, y = operands()
            got = sut(f"in-place operator: {what}", lambda: INPLACE[op](x, y), budget=BIG)
            expect(got is x, lambda: f"in-place operator: {what} leaves the variable as {got!r}, not the updated list")
            expect_eq(rdl(x), want, f"in-place operator: {what}")
    if not a or not b:
        return []
    return [op, f"result {min(len(want), 4)}"] + (["aliased"] if kb == "self" else [])


@st.composite
def many(draw):
    return {"mode": draw(modes()), "n": draw(many_n(1, 40)), "m": draw(many_n(1, 40)), "seed": draw(SEED),
            "op": draw(st.sampled_from(sorted(OPS))), "same": draw(st.integers(0, 9)) == 0}


def many_ops(case):
    mode, n = case["mode"], case["n"]
    f = eff(mode)
    line = W.line(f & V0)
    a = bulk(line, bool(f & MB), n, case["seed"])
    b = a if case["same"] else bulk(line, bool(f & MB), case["m"] + 3, case["seed"])[3:]
    if not case["same"]:     # near a, but not the same
        rnd = random.Random(case["seed"] + 1)
        off = rnd.choice([0, 1, -1, 7, 300])
        b = [vr(line, *sorted(min(max(0, line.pos(v) + off), line.n - 1) for v in t)) for t in b]
        if not f & MB:
            b = [t if t[0][0] == t[1][0] else (t[0], t[0]) for t in b]
        rnd.shuffle(b)
    labels = run({"a": a, "b": b, "kb": "self" if case["same"] else "l", "cuts": bulk_cuts(n, case["seed"]), "op": case["op"],
                  "mode": mode})
    return labels + (["over 15"] if len(a) + len(b) > 15 else []) if labels else []


@st.composite
def wrong(draw):
    line = W.line(True)
    return {"a": draw(cluster(line, True, 0, 3)), "op": draw(st.sampled_from(sorted(OPS))),
            "bad": draw(st.one_of(st.text(max_size=3), st.none(), st.integers(), st.just("Gen 1")))}


def types(case):
    a, op, bad = tt(case["a"]), case["op"], case["bad"]
    x = L(a)
    for n in (op, op + "_update"):
        got = sut(f"{lname(a)}.{n}({bad!r})", lambda: getattr(x, n)(bad), allow=(ValueError, TypeError))
        expect(isinstance(got, Raised), lambda: f"{lname(a)}.{n}({bad!r}) gives {_r(got)}")
        expect_eq(rdl(x), list(a), f"{lname(a)} after the refused {n}({bad!r})")
    return ["refused"]


CHECK = Check("C11", "Set operations on lists give exactly the right verses, in consolidated form", [
    Facet("ops", cases(), run, 6000),
    invented(Facet("ops", cases(), run, 0), 1500),
    Facet("many", many(), many_ops, 300),
    invented(Facet("many", many(), many_ops, 0), 300),
    Facet("types", wrong(), types, 200),
], rule="list op (verse, range, list or the same list) for the four set operations, in the returning, the in-place and "
        "the operator forms, operands overlapping, nested, adjacent and grouped at random, all flags, and lists of up to 40 (sometimes 320) ranges; oracle: bitset "
        "operation, then maximal runs (cut at book ends without MULTIBOOK), grouped as regroup() groups them; operands that are not references "
        "are refused and leave the list alone. Non-trivial: both operands non-empty",
    assumptions=["operands are references that the flags in effect allow (others: C22)"])
