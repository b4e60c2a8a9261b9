import copy
import operator
from ..gen import *
from ..gen import _r
from ..invented import invented

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


@st.composite
def verse_pairs(draw):
    line = W.line(True)
    p = draw(positions(line))
    a, b, c = (_t(line, draw(near(line, p))) for _ in range(3))
    return {"vs": [a, b, c]}


def _t(line, p):
    return list(line.verse(p))


def compare(objs, keys, what):
    for (x, kx) in zip(objs, keys):
        for (y, ky) in zip(objs, keys):
            for n, op in OPS.items():
                got = sut(f"{what} {kx} {n} {ky}", lambda: op(x, y))
                expect(got is op(kx, ky), lambda: f"{what}: {kx} {n} {ky} is {got}")
            if kx == ky:
                expect_eq(hash(x), hash(y), f"{what}: equal but different hashes: {kx}")
    order = sut(f"sorting {what}", lambda: sorted(range(len(objs)), key=lambda i: objs[i]))
    expect_eq([keys[i] for i in order], sorted(keys), f"{what}: sort order")


def immutable(obj, attrs, key, reader):
    for a in attrs:
        got = sut(f"assigning {a}", lambda: setattr(obj, a, getattr(obj, a)), allow=(AttributeError, TypeError))
        expect(isinstance(got, Raised), f"{key}: attribute {a} can be assigned")
        got = sut(f"deleting {a}", lambda: delattr(obj, a), allow=(AttributeError, TypeError))
        expect(isinstance(got, Raised), f"{key}: attribute {a} can be deleted")
    expect_eq(reader(obj), key, "value after refused assignment")


def foreign(x, others):
    """Other types: ordering is refused, equality is false."""
    for o in others:
        for n, op in OPS.items():
            got = sut(f"{_r(x)} {n} {_r(o)}", lambda: op(x, o), allow=(TypeError,))
            if n in ("==", "!="):
                expect(got is (n == "!="), lambda: f"{_r(x)} {n} {_r(o)}: {got!r}")
            else:
                expect(isinstance(got, Raised), lambda: f"{_r(x)} {n} {_r(o)}: {got!r}")


def verses(case):
    keys = [tt(v) for v in case["vs"]]
    objs = [V(v) for v in keys] + [V(keys[0])]
    keys = keys + [keys[0]]
    compare(objs, keys, "verses")
    expect(len({o for o in objs}) == len(set(keys)), f"set of verses {keys}")
    immutable(objs[0], ("book", "chap_num", "verse_num"), keys[0], rd)
    compare([o.book for o in objs], [k[0] for k in keys], "books")
    foreign(objs[0], (None, 5, "Mark 2:3", objs[0].book, R((keys[0], keys[0]))))
    foreign(objs[0].book, (None, keys[0][0], objs[0].book.name, objs[0].book.value, objs[0]))
    return ["verses"] if len(set(keys)) > 1 else []


@st.composite
def range_triples(draw):
    line = W.line(True)
    p = draw(positions(line))
    a = draw(spans(line, p))
    out = [a]
    for _ in range(2):
        k = draw(st.sampled_from("sear"))
        if k == "s":
            out.append((a[0], max(a[0], draw(near(line, a[1])))))
        elif k == "e":
            out.append((min(a[1], draw(near(line, a[0]))), a[1]))
        elif k == "a":
            out.append(a)
        else:
            out.append(draw(spans(line, p)))
    return {"rs": [[list(line.verse(x)), list(line.verse(y))] for x, y in out]}


def ranges_(case):
    keys = [tt(r) for r in case["rs"]]
    objs = [R(r) for r in keys] + [R(keys[0])]
    keys = keys + [keys[0]]
    compare(objs, keys, "ranges")
    expect(len({o for o in objs}) == len(set(keys)), f"set of ranges {keys}")
    immutable(objs[0], ("start", "end"), keys[0], rdr)
    foreign(objs[0], (None, 5, "Mark 2:3", objs[0].start, objs[0].end, objs[0].start.book))
    return ["ranges"] if len(set(keys)) > 1 else []


def book_pairs():
    for i in range(NB):
        for j in range(NB):
            yield [i, j]


def book_pair(case):
    i, j = case
    x, y = W.books[i], W.books[j]
    for n, op in OPS.items():
        expect(sut(f"{x} {n} {y}", lambda: op(x, y)) is op(i, j), f"{x.name} {n} {y.name}")
    return ["books"]


A = BibleFlag.ALL


def _attempts(ways, key, reader, what):
    """The objects those ways of building give, where they give this value (that they do is for other properties)."""
    out = []
    for n, fn in ways.items():
        x = sut(f"{what} {key} built by {n}", fn, allow=(Exception,))
        if isinstance(x, (BibleVerse, BibleRange)) and reader(x) == key:
            out.append((n, x))
    return out


def verse_ways(k, shared):
    b = W.books[k[0]]
    return {
        "book, chapter, verse": lambda: BibleVerse(b, k[1], k[2], flags=A),
        "book title": lambda: BibleVerse(b.title, k[1], k[2], flags=A),
        "copy": lambda: BibleVerse(shared),
        "text": lambda: BibleVerse(shared.str(), flags=A),
        "end of a range": lambda: BibleRange(start=V(k), end=shared, flags=A).end,
        "start of a range": lambda: BibleRange(shared.book, k[1], k[2], flags=A).start,
        "adding 0": lambda: shared.add(0, flags=A),
        "there and back": lambda: shared.add(1, flags=A).subtract(1, flags=A),
        "back and there": lambda: shared.subtract(1, flags=A).add(1, flags=A),
        "iteration": lambda: next(iter(BibleRange(start=shared, end=shared, flags=A))),
        "copy.copy": lambda: copy.copy(shared),
        "copy.deepcopy": lambda: copy.deepcopy(shared),
        "pickle": lambda: pickle.loads(pickle.dumps(shared)),
        "verse 1 for 0 and back": lambda: shared.verse_0_to_1().verse_1_to_0(),
    }


def range_ways(k, shared):
    (a, b) = k
    ba, bb = W.books[a[0]], W.books[b[0]]
    x, y = shared.start, shared.end
    ways = {
        "start and end": lambda: R(k),
        "end and start": lambda: BibleRange(start=V(b), end=V(a), flags=A),
        "copy": lambda: BibleRange(shared),
        "copy.copy": lambda: copy.copy(shared),
        "copy.deepcopy": lambda: copy.deepcopy(shared),
        "pickle": lambda: pickle.loads(pickle.dumps(shared)),
        "six arguments": lambda: BibleRange(ba, a[1], a[2], bb, b[1], b[2], flags=A),
        "titles": lambda: BibleRange(ba.title, a[1], a[2], bb.title, b[1], b[2], flags=A),
        "text": lambda: BibleRange(shared.str(flags=A), flags=A),
        "item of a list": lambda: BibleRangeList([shared], flags=A)[0],
        "item of a list of a list": lambda: BibleRangeList([R(k), R(k)], flags=A)[1],
        "whole chapter": lambda: BibleRange(ba, a[1], flags=A),
        "whole book": lambda: BibleRange(ba, flags=A),
        "same ends": lambda: BibleRange(start=x, end=y, flags=A),
        "consolidated": lambda: BibleRangeList([R(k), R((a, a))], flags=A).consolidated(flags=A)[0],
        "union": lambda: R(k).union(R((a, a)), flags=A)[0],
        "intersection": lambda: R(k).intersection(R(k), flags=A)[0],
    }
    if a == b:
        ways["one verse as both ends"] = lambda: BibleRange(start=x, end=x, flags=A)
        ways["one verse"] = lambda: BibleRange(ba, a[1], a[2], flags=A)
    return ways


@st.composite
def built_case(draw):
    line = W.line(True)
    p = draw(positions(line))
    a = draw(spans(line, p))
    if draw(st.booleans()):
        a = (a[0], a[0])
    other = draw(spans(line, p))
    return {"r": [list(line.verse(x)) for x in a], "o": [list(line.verse(x)) for x in other]}


def alike(objs, others, what):
    for n, x in objs:
        for m, y in objs:
            expect(x == y and not x != y, lambda: f"{what} {_r(x)} by {n} and by {m} differ")
            expect(x <= y and x >= y and not x < y and not x > y, lambda: f"{what} {_r(x)} by {n} and by {m} are ordered")
            expect(hash(x) == hash(y), lambda: f"{what} {_r(x)} by {n} and by {m} hash differently")
            expect(x in {y} and {y: 1}.get(x) == 1, lambda: f"{what} {_r(x)} by {n} is not found under the one by {m}")
        for o, lt in others:
            expect((x < o) is lt and (o > x) is lt and (x >= o) is not lt, lambda: f"{what} {_r(x)} by {n} against {_r(o)}")


def built(case):
    k, o = tt(case["r"]), tt(case["o"])
    vs = _attempts(verse_ways(k[0], V(k[0])), k[0], rd, "verse")
    sut("comparing", lambda: alike(vs, [(V(o[0]), k[0] < o[0])], "verse"))
    rs = _attempts(range_ways(k, R(k)), k, rdr, "range")
    sut("comparing", lambda: alike(rs, [(R(o), k < o)], "range"))
    expect(len(vs) > 2 and len(rs) > 2, f"{k}: too few ways of building it gave it: {[n for n, _ in vs + rs]}")
    return ["built"]


CHECK = Check("C03", "Books, verses and ranges have one consistent, immutable total order", [
    Facet("verses", verse_pairs(), verses, 4000),
    invented(Facet("verses", verse_pairs(), verses, 0), 800),
    Facet("ranges", range_triples(), ranges_, 4000),
    invented(Facet("ranges", range_triples(), ranges_, 0), 800),
    Facet("built", built_case(), built, 2000),
    invented(Facet("built", built_case(), built, 0), 500),
    Exhaustive("books", book_pairs, book_pair),
], rule="triples of nearby verses / ranges compared with all six operators in both directions, hashed and sorted, "
        "against tuple comparison; all pairs of books enumerated; one verse and "
        "one range built in up to eleven / sixteen ways (arguments, text, copies, shared ends, set operations): all equal, "
        "interchangeable in sets and dicts. Non-trivial: not all three equal")
