from ..gen import *
from ..invented import invented


@st.composite
def pair(draw):
    """A range or list, and a verse, range or list near it, all valid under the flags in effect."""
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    mb = bool(f & MB)
    p = draw(positions(line))
    kind = draw(st.sampled_from("vrrl"))
    a = [draw(ranges(line, p, mb))] if draw(st.booleans()) else draw(cluster_at(line, p, mb, 0, 4))
    if kind == "v":
        q = draw(near(line, p))
        if a and draw(st.integers(0, 2)) == 0:
            lo, hi = span_of(line, a[0])
            q = min(max(0, draw(st.sampled_from([lo, hi, lo - 1, hi + 1]))), line.n - 1)
        v = list(line.verse(q))
        b = [[v, v]]
    elif kind == "r":
        b = [draw(related(line, p, a, mb))]
    else:
        b = [draw(related(line, p, a, mb)) for _ in range(draw(st.integers(0, 3)))]
    return {"a": a, "ka": "r" if len(a) == 1 and draw(st.booleans()) else "l", "b": b, "kb": kind, "mode": mode}


@st.composite
def cluster_at(draw, line, p, mb, lo, hi):
    return [draw(ranges(line, p, mb)) for _ in range(draw(st.integers(lo, hi)))]


@st.composite
def related(draw, line, p, a, mb):
    """A range near p, sometimes chosen to touch, share an end with, or just miss one of a."""
    if not a or draw(st.integers(0, 2)) == 0:
        return draw(ranges(line, p, mb))
    lo, hi = span_of(line, draw(st.sampled_from(a)))
    n = line.n
    s = draw(st.sampled_from(["after", "before", "inner", "outer", "start", "end", "same", "over"]))
    d = draw(st.integers(0, 30))
    if s == "after":
        x = hi + draw(st.sampled_from([1, 1, 1, 2]))
        y = x + d
    elif s == "before":
        y = lo - draw(st.sampled_from([1, 1, 1, 2]))
        x = y - d
    elif s == "inner":
        x, y = lo + draw(st.integers(0, 2)), hi - draw(st.integers(0, 2))
    elif s == "outer":
        x, y = lo - draw(st.integers(0, 2)), hi + draw(st.integers(0, 2))
    elif s == "start":
        x, y = lo, lo + d
    elif s == "end":
        x, y = hi - d, hi
    elif s == "over":
        x, y = hi - draw(st.integers(0, 2)), hi + d
    else:
        x, y = lo, hi
    x, y = min(max(0, x), n - 1), min(max(0, y), n - 1)
    x, y = min(x, y), max(x, y)
    if not mb:
        if s == "before":
            x = max(x, line.book_span(line.book_of(y))[0])
        else:
            y = min(y, line.book_span(line.book_of(x))[1])
    return [list(line.verse(x)), list(line.verse(y))]


def build(kind, rs):
    if kind == "v":
        return V(rs[0][0])
    return R(rs[0]) if kind == "r" else L(rs)


def bn(kind, rs):
    return name(rs[0][0]) if kind == "v" else rname(rs[0]) if kind == "r" else lname(rs)


def relations(case):
    a, b, mode = tt(case["a"]), tt(case["b"]), case["mode"]
    ka, kb, f = case["ka"], case["kb"], eff(case["mode"])
    line = W.line(f & V0)
    A, B = bits_of(line, a), bits_of(line, b)
    x, y = build(ka, a), build(kb, b)
    what = f"({bn(ka, a)}, {bn(kb, b)}) with {mname(mode)}"
    k = kw(mode)
    disjoint, contains = not A & B, B & ~A == 0
    labels = ["disjoint" if disjoint else "contains" if contains else "overlap"]

    def want(label, fn, w):
        got = sut(f"{label} {what}", fn)
        expect(got is w, lambda: f"{label} {what} is {got}, want {w}")
    with gflags(mode[0]):
        want("is_disjoint", lambda: x.is_disjoint(y), disjoint)
        if ka == "l":
            want("contains", lambda: x.contains(y, **k), contains)
        else:
            want("contains", lambda: x.contains(y), contains)
            sp = [span_of(line, t) for t in b]
            lo, hi = span_of(line, a[0])
            adj = [(s == hi + 1 or e == lo - 1) and (f & MB or line.book_of(hi if s > hi else lo) ==
                                                     line.book_of(s if s > hi else e)) for s, e in sp]
            adjacent = disjoint and any(adj)
            want("is_adjacent", lambda: x.is_adjacent(y, **k), adjacent)
            want("surrounds", lambda: x.surrounds(y), all(lo < s and e < hi for s, e in sp))
            if adjacent:
                labels.append("adjacent")
        if mode[1] is None:
            want("in", lambda: y in x, contains)
        if kb != "v":       # is_disjoint is symmetric; so is adjacency of two ranges
            want("is_disjoint, swapped,", lambda: y.is_disjoint(x), disjoint)
            if ka == kb == "r":
                want("is_adjacent, swapped,", lambda: y.is_adjacent(x, **k), adjacent)
    return labels if a and b else []


@st.composite
def many(draw):
    """Two long lists, of which the second is often part of the first, or nearly."""
    mode = draw(modes())
    return {"mode": mode, "n": draw(many_n(1, 60)), "seed": draw(SEED), "m": draw(many_n(1, 40)),
            "how": draw(st.sampled_from(["inside", "gaps", "almost", "other"])), "ka": draw(st.sampled_from("lllr"))}


def many_relations(case):
    mode, n = case["mode"], case["n"]
    f = eff(mode)
    line = W.line(f & V0)
    mb = bool(f & MB)
    a = bulk(line, mb, n, case["seed"])
    rnd = random.Random(case["seed"] + 1)
    A = bits_of(line, a)
    full = line.mask(0, line.n - 1)
    how = case["how"]
    if how == "other":
        b = bulk(line, mb, case["m"], case["seed"] + (2 if rnd.random() < .5 else 0))
        rnd.shuffle(b)
    else:
        # pieces of the verses of a (or of those not in a): all of them but perhaps the last are inside
        pool = line.runs(A if how != "gaps" else full & ~A, mb)
        b = []
        for _ in range(case["m"] if pool else 0):
            lo, hi = rnd.choice(pool)
            x = rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi)])
            y = rnd.choice([lo, hi, x, rnd.randint(lo, hi)])
            b.append(vr(line, min(x, y), max(x, y)))
        if how == "almost" and b:
            lo, hi = rnd.choice(pool)
            p = min(max(0, rnd.choice([lo - 1, hi + 1])), line.n - 1)
            b.insert(rnd.randrange(len(b) + 1), vr(line, p, p))
    if case["ka"] == "r":
        a, b = [max(a, key=lambda t: line.pos(t[1]) - line.pos(t[0]))], b
    labels = relations({"a": a, "b": b, "ka": case["ka"], "kb": "l", "mode": mode})
    return [f"{labels[0]}, {'over 15' if len(a) + len(b) > 15 else 'short'}"] if labels else []


def types(case):
    r, bad = R(tt(case["r"])), case["bad"]
    for n in ("is_disjoint", "is_adjacent", "contains", "surrounds"):
        got = sut(f"{n}({bad!r})", lambda: getattr(r, n)(bad), allow=(ValueError, TypeError))
        expect(isinstance(got, Raised), f"range.{n}({bad!r}) gives {got!r}")
    return ["refused"]


CHECK = Check("C09", "Disjoint, adjacent, contains and surrounds mean what they say about verses", [
    Facet("relations", pair(), relations, 8000),
    invented(Facet("relations", pair(), relations, 0), 2000),
    Facet("many", many(), many_relations, 800),
    invented(Facet("many", many(), many_relations, 0), 400),
    Facet("types", st.fixed_dictionaries({"r": st.just([[0, 1, 1], [0, 1, 3]]), "bad": st.one_of(
        st.text(max_size=3), st.none(), st.integers())}), types, 60),
], rule="a range or list against a verse, range or list that touches, shares an end with, nests in or just misses it, "
        "all flags, and lists of up to 60 (sometimes 320) ranges; oracle: bitsets over the flat list of verses. Non-trivial: both operands non-empty",
    assumptions=["operands are references that the flags in effect allow (others: C22)"])
