from ..gen import *
from .c09 import pair, build, bn, related
import operator
from ..invented import invented

OPS = {"union": (operator.or_, lambda a, b: a | b), "intersection": (operator.and_, lambda a, b: a & b),
       "difference": (operator.sub, lambda a, b: a & ~b), "sym_difference": (operator.xor, lambda a, b: a ^ b)}


@st.composite
def cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    mb = bool(f & MB)
    p = draw(positions(line))
    a = [draw(ranges(line, p, mb))]
    kb = draw(st.sampled_from("vrrrl"))
    if kb == "v":
        r = draw(related(line, p, a, mb))
        b = [[r[0], r[0]]]
    else:
        b = [draw(related(line, p, a, mb)) for _ in range(1 if kb == "r" else draw(st.integers(0, 3)))]
    return {"a": a, "b": b, "kb": kb, "op": draw(st.sampled_from(sorted(OPS))), "mode": mode}


def run(case):
    a, b, mode, kb = tt(case["a"]), tt(case["b"]), case["mode"], case["kb"]
    f = eff(mode)
    line = W.line(f & V0)
    sym, model = OPS[case["op"]]
    bits = model(bits_of(line, a), bits_of(line, b))
    want = [vr(line, lo, hi) for lo, hi in line.runs(bits, bool(f & MB))]
    x, y = R(a[0]), build(kb, b)
    what = f"({rname(a[0])}).{case['op']}({bn(kb, b)}) with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: getattr(x, case["op"])(y, **kw(mode)))
        expect_eq(rdl(got), want, what)
        if mode[1] is None:
            got = sut(f"operator: {what}", lambda: sym(x, y))
            expect_eq(rdl(got), want, f"operator: {what}")
    if not b:
        return []
    return [f"{case['op']}: {len(want)}" if len(want) < 3 else f"{case['op']}: more"]


def types(case):
    r, bad = R(tt(case["r"])), case["bad"]
    for n, (sym, _) in OPS.items():
        got = sut(f"{n}({bad!r})", lambda: getattr(r, n)(bad), allow=(ValueError, TypeError))
        expect(isinstance(got, Raised), f"range.{n}({bad!r}) gives {got!r}")
    return ["refused"]


CHECK = Check("C10", "Set operations on a range give exactly the right verses", [
    Facet("ops", cases(), run, 9000),
    invented(Facet("ops", cases(), run, 0), 2500),
    Facet("types", st.fixed_dictionaries({"r": st.just([[0, 1, 1], [0, 1, 3]]), "bad": st.one_of(
        st.text(max_size=3), st.none(), st.integers())}), types, 60),
], rule="range op (verse, range or list) for union, intersection, difference, symmetric difference, as method and as "
        "operator, operands aimed at each other's ends and at chapter/book ends, all flags; oracle: bitset operation, "
        "then maximal runs (cut at book ends without MULTIBOOK). Non-trivial: second operand non-empty",
    assumptions=["operands are references that the flags in effect allow (others: C22)"])
