from ..ops import *
from .c06 import BIG
from ..invented import invented


@st.composite
def cases(draw):
    return {**draw(calls()), "f": draw(st.integers(0, 3)), "g": draw(st.integers(0, 3))}


def override(case):
    f, g = case["f"], case["g"]
    d = describe(case)

    def go(glob, kwargs):
        x, args, fn = build_call(case)
        with gflags(glob):
            r = normal(sut(d, lambda: fn(x, args, kwargs), allow=EXCS, budget=BIG))
            expect(bibleref.flags is FLAG[glob], f"{d} with {kwargs} leaves the package flags at {bibleref.flags}")
        return r
    explicit = go(g, {"flags": FLAG[f]})
    packagewide = go(f, {})
    expect(explicit == packagewide, lambda: f"{d}: flags={FLAG[f]} with package flags {FLAG[g]} gives {explicit}, "
                                            f"but package flags {FLAG[f]} alone give {packagewide}")
    none = go(g, {"flags": None})
    plain = go(g, {})
    expect(none == plain, lambda: f"{d}: flags=None gives {none}, no flags argument {plain}")
    if f == 0:
        def unset():
            bibleref.flags = None
            x, args, fn = build_call(case)
            return fn(x, args, {})
        try:
            r = normal(sut(f"{d} with package flags None", unset, allow=EXCS, budget=BIG))
        finally:
            bibleref.flags = BibleFlag.NONE
        expect(r == packagewide, lambda: f"{d}: package flags None give {r}, {FLAG[0]} {packagewide}")
    labels = ["override"] if explicit != plain else ["same either way"] if f != g else []
    return labels


def every_op():
    """Every operation, with each flags argument against each package-wide setting, on subjects at a verse 0 and at a
    book boundary."""
    ps = [[PSA, 3, 0], [PSA, 3, 1], [PSA, 1, 1], [38, 4, 6]]
    rs = [[[PSA, 3, 1], [PSA, 3, 8]], [[PSA, 3, 0], [PSA, 3, 8]], [[38, 1, 1], [39, 2, 3]], [[PSA, 2, 1], [PSA, 5, 12]],
          [[PSA, 1, 1], [PSA, 150, 6]], [[38, 4, 1], [39, 1, 25]], [[PSA, 2, 12], [PSA, 3, 0]]]
    arg = {"c": [3, 1], "n": [1, 2], "V": [[PSA, 4, 1], [39, 1, 1]],
           "O": [["r", [[[PSA, 4, 1], [PSA, 5, 2]]]], ["r", [[[PSA, 3, 0], [PSA, 3, 2]]]], ["r", [[[39, 2, 4], [40, 1, 1]]]],
                 ["v", [[[PSA, 3, 0], [PSA, 3, 0]]]], ["r", [[[PSA, 4, 0], [PSA, 4, 1]]]],
                 ["l", [[[PSA, 2, 1], [PSA, 2, 12]], [[PSA, 3, 0], [PSA, 3, 4]], [[39, 1, 1], [39, 1, 4]]]]],
           "s": ["Psalm 3", "Psalm 3:0", "Mal 4-Matt 1", "Psalm 3-4:0"], "3": [[PSA, 3, 0]],
           "6": [[PSA, 3, None, None, None, None], [PSA, 3, 0, None, 4, None], [38, None, None, 39, 1, None]]}
    for op, (subj, kinds, _) in sorted(OPS.items()):
        for f in range(4):
            for g in range(4):
                if f == g:
                    continue
                for p in (ps if subj in "bv" else ps[:1]):
                    for r in (rs if subj in "rl" else rs[:1]):
                        choices = itertools.product(*[arg[k] for k in kinds])
                        for a in choices:
                            case = {"op": op, "p": p, "args": list(a), "f": f, "g": g}
                            if subj in "rl":
                                case["rs"] = [r] if subj == "r" else [r, rs[2]]
                                case["cuts"] = [] if subj == "r" else [True]
                            yield case
                    if subj == "l" and kinds == "O":
                        for a, z in (((PSA, 2, 12), (PSA, 3, 1)), ((38, 4, 6), (39, 1, 1)), ((PSA, 2, 12), (PSA, 3, 0))):
                            yield {"op": op, "p": p, "args": [["r", [[list(a), list(z)]]]], "f": f, "g": g,
                                   "rs": [[list(x), list(x)] for x in (a, z)], "cuts": [True]}


CHECK = Check("C21", "A flags argument overrides the package-wide flags in every operation", [
    Facet("override", cases(), override, 6000),
    invented(Facet("override", cases(), override, 0), 2500),
    Exhaustive("every-operation", every_op, override),
], rule="every public operation that takes flags x subjects and operands at verse 0s and book boundaries x every (package "
        "flags, flags argument); oracle: flags=f under package flags g gives the result (or refusal) of package flags f "
        "without an argument; flags=None is as no argument, package flags None are as NONE; the package flags stay as set. Non-trivial: f differs from g",
    assumptions=["exceptions are compared by type and position, not by message"])
