from ..gen import *
from bibleref.ref import InvalidReferenceError, MultibookRangeNotAllowedError
from ..invented import invented


@st.composite
def arg_cases(draw):
    mode = draw(modes())
    b1 = draw(books())
    b2 = draw(st.one_of(st.none(), st.none(), st.just(b1), st.integers(max(0, b1 - 2), min(last_book(), b1 + 2)), books()))

    def num(b, c=None):
        if c is None:
            n = W.nchap(b)
            return draw(st.one_of(st.integers(1, n), st.sampled_from([1, n, 1, n + 1, 0])))
        m = W.last_num(b, c) if 1 <= c <= W.nchap(b) else 10
        return draw(st.one_of(st.integers(1, m), st.integers(1, min(m, 9)), st.sampled_from([1, m, 0, m + 1])))
    c1 = num(b1) if draw(st.integers(0, 4)) else None
    v1 = num(b1, c1 or 1) if (draw(st.integers(0, 2)) and (c1 is not None or draw(st.integers(0, 5)) == 0)) else None
    bb = b1 if b2 is None else b2
    c2 = None
    k = draw(st.integers(0, 3))
    if k == 1 and c1 is not None:
        c2 = c1
    elif k:
        c2 = num(bb)
    v2 = num(bb, c2 or c1 or 1) if draw(st.integers(0, 2)) else None
    args = [b1, c1, v1, b2, c2, v2]
    if draw(st.integers(0, 40)) == 0:
        args[0] = None
    return {"args": args, "mode": mode, "as": draw(st.sampled_from(["enum", "enum", "title", "abbrev"])),
            "trim": draw(st.booleans())}


def oracle(args, f):
    """-> (set of acceptable exception names, or None) , range"""
    b1, c1, v1, b2, c2, v2 = args
    zero = f & V0
    if b1 is None:
        return {"InvalidReferenceError"}, None
    if b2 is not None and b1 > b2:
        b1, c1, v1, b2, c2, v2 = b2, c2, v2, b1, c1, v1
    elif b2 is None or b2 == b1:
        if c1 is not None and c2 is not None and c1 > c2:
            c1, v1, c2, v2 = c2, v2, c1, v1
        elif c1 is not None and (c2 is None or c2 == c1) and v1 is not None and v2 is not None and v1 > v2:
            v1, v2 = v2, v1
    errors = set()
    have_end = not (b2 is None and c2 is None and v2 is None)
    eb = b1 if b2 is None else b2
    if eb != b1 and not f & MB:
        errors.add("MultibookRangeNotAllowedError")

    def chap_ok(b, c):
        return 1 <= c <= W.nchap(b)
    if c1 is None and v1 is not None:
        errors.add("InvalidReferenceError")
    sc = 1 if c1 is None else c1
    if not chap_ok(b1, sc):
        return errors | {"InvalidReferenceError"}, None
    start = (b1, sc, W.first_num(b1, sc, zero) if v1 is None else v1)
    if not W.exists(start, zero):
        errors.add("InvalidReferenceError")
    if not have_end:
        end = (b1, W.nchap(b1), W.last_num(b1, W.nchap(b1))) if c1 is None else \
              (b1, c1, W.last_num(b1, c1)) if v1 is None else start
    else:
        if c2 is None and v2 is not None:
            if eb != b1:
                return errors | {"InvalidReferenceError"}, None
            ec = sc
        elif c2 is None:
            ec = W.nchap(eb)
        else:
            ec = c2
        if not chap_ok(eb, ec):
            return errors | {"InvalidReferenceError"}, None
        end = (eb, ec, W.last_num(eb, ec) if v2 is None else v2)
        if not W.exists(end, zero):
            errors.add("InvalidReferenceError")
    return (errors, None) if errors else (None, (start, end))


def arguments(case):
    args, mode = case["args"], case["mode"]
    f = eff(mode)
    errors, want = oracle(args, f)

    def bk(b):
        return None if b is None else {"enum": W.books[b], "title": W.books[b].title,
                                       "abbrev": W.books[b].abbrev}[case["as"]]
    real = [bk(args[0]), args[1], args[2], bk(args[3]), args[4], args[5]]
    if case["trim"]:
        while len(real) > 1 and real[-1] is None:
            real.pop()
    if len(real) == 1 and not isinstance(real[0], BibleBook):
        real.append(None)       # a single string would be parsed; a single None is not a book
    what = f"BibleRange{tuple(real)} with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: BibleRange(*real, **kw(mode)),
                  allow=(InvalidReferenceError, MultibookRangeNotAllowedError))
    if errors:
        expect(isinstance(got, Raised) and got.type.__name__ in errors,
               lambda: f"{what}: want {' or '.join(sorted(errors))}, got {got!r}")
        return ["refused"]
    expect(not isinstance(got, Raised), lambda: f"{what}: want {rname(want)}, got {got!r}")
    expect_eq(rdr(got), want, what)
    expect(want[0] <= want[1], "oracle order")
    labels = ["built", "%d arguments" % sum(a is not None for a in args)]
    if args[3] is not None and args[3] < args[0] or (args[3] in (None, args[0]) and None not in (args[1], args[4])
                                                     and args[1] > args[4]):
        labels.append("swapped")
    return labels


@st.composite
def ends(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    p = draw(positions(line))
    return {"a": list(line.verse(p)), "b": list(line.verse(draw(near(line, p)))), "mode": mode}


def keywords(case):
    a, b, mode = tt(case["a"]), tt(case["b"]), case["mode"]
    x, y = V(a), V(b)
    what = f"BibleRange(start={name(a)}, end={name(b)}) with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: BibleRange(start=x, end=y, **kw(mode)), allow=(MultibookRangeNotAllowedError,))
        if a[0] != b[0] and not eff(mode) & MB:
            expect(isinstance(got, Raised), lambda: f"{what}: a multi-book range was built: {got!r}")
            return ["multi-book refused"]
        expect(not isinstance(got, Raised), lambda: f"{what}: {got!r}")
        expect_eq(rdr(got), (min(a, b), max(a, b)), what)
        again = sut(f"copy of {what}", lambda: BibleRange(got, **kw(mode)))
        expect_eq(rdr(again), rdr(got), f"copy of {what}")
    return ["reversed" if a > b else "in order"] + (["multi-book"] if a[0] != b[0] else [])


@st.composite
def bad_args(draw):
    k = draw(st.sampled_from(["many", "single", "book", "name", "endbook", "endname", "kw"]))
    if k == "kw":       # start/end missing, or not verses
        bad = st.sampled_from([["none"], ["none"], ["int", 3], ["str", "Matt 1:1"], ["range"]])
        x, y = draw(bad), draw(bad)
        if draw(st.booleans()):
            x, y = draw(st.permutations([x, ["verse"]]))
        return {"k": k, "b": draw(books()), "x": [x, y], "mode": draw(modes())}
    return {"k": k, "b": draw(books()), "x": draw(st.one_of(st.integers(0, 9), st.booleans()))
            if k in ("single", "book", "endbook") else draw(st.text("qxz", min_size=1, max_size=5)),
            "n": draw(st.integers(7, 9))}


def malformed(case):
    k, book = case["k"], W.books[case["b"]]
    if k == "kw":
        def arg(x):
            v = V((case["b"], 1, 1))
            return {"none": None, "verse": v, "range": R(((case["b"], 1, 1), (case["b"], 1, 1)))}.get(x[0], x[-1])
        kws = {n: arg(x) for n, x in zip(("start", "end"), case["x"]) if x[0] != "none" or case["b"] % 2}
        what = f"BibleRange(**{kws}) with {mname(case['mode'])}"
        with gflags(case["mode"][0]):
            got = sut(what, lambda: BibleRange(**kws, **kw(case["mode"])), allow=(ValueError,))
        expect(isinstance(got, Raised), lambda: f"{what} was accepted")
        return [k]
    args, want = {
        "many": ([book] + [1] * (case["n"] - 1), ValueError),
        "single": ([case["x"]], ValueError),
        "book": ([case["x"], 1], (ValueError, InvalidReferenceError)),
        "name": ([case["x"], 1], InvalidReferenceError),
        "endbook": ([book, 1, 1, case["x"] + 1000], (ValueError, InvalidReferenceError)) if k == "endbook" else None,
        "endname": ([book, 1, 1, case["x"]], InvalidReferenceError),
    }[k]
    allow = want if isinstance(want, tuple) else (want,)
    got = sut(f"BibleRange{tuple(args)}", lambda: BibleRange(*args), allow=allow)
    expect(isinstance(got, Raised), lambda: f"BibleRange{tuple(args)} was accepted: {got!r}")
    return [k]


def whole(case):
    mode = case["mode"]
    with gflags(mode[0]):
        got = sut("BibleRange.whole_bible()", lambda: BibleRange.whole_bible(**kw(mode)))
    line = W.line(eff(mode) & V0)
    expect_eq(rdr(got), vr(line, 0, line.n - 1), f"whole_bible with {mname(mode)}")
    return ["whole"]


CHECK = Check("C05", "A range built from arguments is exactly the documented range", [
    Facet("arguments", arg_cases(), arguments, 9000),
    invented(Facet("arguments", arg_cases(), arguments, 0), 2000),
    Facet("keywords", ends(), keywords, 4000),
    invented(Facet("keywords", ends(), keywords, 0), 1000),
    Facet("malformed", bad_args(), malformed, 800),
    Facet("whole", st.fixed_dictionaries({"mode": modes()}), whole, 40),
    invented(Facet("whole", st.fixed_dictionaries({"mode": modes()}), whole, 0), 400),
], rule="all combinations of present/omitted start and end book, chapter and verse, including nonexistent, reversed and "
        "multi-book ones, under all flags; oracle: the constructor's documentation written as a function over the "
        "versification table. Non-trivial: the oracle decides the outcome (built or refused)",
    assumptions=["when several documented refusals apply to one call, any of them is accepted"])
