from ..gen import *
from bibleref.ref import InvalidReferenceError, BibleRefParsingError
from ..invented import invented

CH_OFF = st.one_of(st.integers(-2, 160), st.sampled_from([0, -1, 10**6, 10**30]))


@st.composite
def ctor_cases(draw):
    b = draw(books())
    n = W.nchap(b)
    c = draw(st.one_of(st.integers(1, n), st.integers(1, n), st.sampled_from([1, n, n + 1, 0, -1]), CH_OFF))
    mx = W.last_num(b, c) if 1 <= c <= n else 20
    v = draw(st.one_of(st.integers(0, mx + 1), st.sampled_from([0, 1, mx, mx + 1, -1]), st.sampled_from([0, mx]),
                       CH_OFF))
    return {"v": [b, c, v], "mode": draw(modes()), "as": draw(st.sampled_from(["enum", "title", "abbrev"]))}


def ctor(case):
    b, c, v = case["v"]
    mode = case["mode"]
    book = W.books[b]
    arg = {"enum": book, "title": book.title, "abbrev": book.abbrev}[case["as"]]
    ok = W.exists((b, c, v), eff(mode) & V0)
    what = f"BibleVerse({arg!r}, {c}, {v}) with {mname(mode)}"
    with gflags(mode[0]):
        got = sut(what, lambda: BibleVerse(arg, c, v, **kw(mode)), allow=(InvalidReferenceError,))
        if ok:
            expect(not isinstance(got, Raised), lambda: f"{what}: the verse exists but was refused: {got}")
            expect_eq((got.book, got.chap_num, got.verse_num), (book, c, v), what)
            again = sut(f"copy of {what}", lambda: BibleVerse(got, **kw(mode)))
            expect(again == got and rd(again) == (b, c, v), f"copying {what} gives a different verse")
        else:
            expect(isinstance(got, Raised), lambda: f"{what}: there is no such verse but it was accepted")
        # the same reference as a string
        if c >= 0 and v >= 0 and c < 10**9 and v < 10**9:
            s = f"{arg if isinstance(arg, str) else book.title} {c}:{v}"
            got2 = sut(f"BibleVerse({s!r})", lambda: BibleVerse(s, **kw(mode)),
                       allow=(InvalidReferenceError, BibleRefParsingError))
            if ok:
                expect(not isinstance(got2, Raised), lambda: f"BibleVerse({s!r}), {mname(mode)}: {got2}")
                expect_eq(rd(got2), (b, c, v), f"BibleVerse({s!r})")
            else:
                expect(isinstance(got2, Raised) and got2.type is BibleRefParsingError,
                       lambda: f"BibleVerse({s!r}), {mname(mode)}: no such verse, but {got2!r}")
    labels = ["accepted" if ok else "refused"]
    if v == 0:
        labels.append("verse 0")
    if mode[1] is not None:
        labels.append("flags argument")
    return labels


def edges():
    for b in range(NB):
        for c in range(0, W.nchap(b) + 2):
            mx = W.last_num(b, c) if 1 <= c <= W.nchap(b) else 5
            for v in (-1, 0, 1, mx, mx + 1):
                for f in (0, 2):
                    yield {"v": [b, c, v], "mode": [f, None], "as": "enum"}


def edge(case):
    b, c, v = case["v"]
    f = case["mode"][0]
    ok = W.exists((b, c, v), f & V0)
    what = f"BibleVerse({W.books[b].name}, {c}, {v}) with global flags {FLAG[f]}"
    with gflags(f):
        got = sut(what, lambda: BibleVerse(W.books[b], c, v), allow=(InvalidReferenceError,))
    expect(isinstance(got, Raised) != ok, lambda: f"{what}: {'exists but refused' if ok else 'accepted but does not exist'}")
    return ["edge"]


BAD = st.one_of(st.text("abcxyz 12", max_size=8), st.floats(0, 5), st.none(), st.lists(st.integers(), max_size=1))


@st.composite
def bad_cases(draw):
    t = draw(st.sampled_from(["count", "type", "single", "book", "name"]))
    case = {"kind": t, "b": draw(books())}
    if t == "count":
        case["args"] = draw(st.one_of(st.lists(st.integers(1, 3), min_size=3, max_size=6),
                                      st.lists(st.integers(1, 3), min_size=1, max_size=1)))
    elif t == "type":
        case["pos"] = draw(st.sampled_from([1, 2]))
        case["bad"] = draw(BAD)
    elif t == "single":
        case["bad"] = draw(st.one_of(st.integers(), st.booleans(), st.lists(st.integers(), max_size=2), st.none()))
    elif t == "book":
        case["bad"] = draw(st.one_of(st.integers(), st.none(), st.lists(st.integers(), max_size=2)))
    else:
        case["bad"] = draw(st.text("qxz", min_size=1, max_size=6))
    return case


def bad(case):
    book = W.books[case["b"]]
    k = case["kind"]
    if k == "count":
        args, want = [book] + case["args"], ValueError
    elif k == "type":
        args, want = [book, 1, 1], ValueError
        args[case["pos"]] = case["bad"]
    elif k == "single":
        args, want = [case["bad"]], ValueError
    elif k == "book":
        args, want = [case["bad"], 1, 1], ValueError
    else:
        args, want = [case["bad"], 1, 1], InvalidReferenceError
    got = sut(f"BibleVerse{tuple(args)}", lambda: BibleVerse(*args), allow=(want,))
    expect(isinstance(got, Raised), lambda: f"BibleVerse{tuple(args)} was accepted")
    return [k]


CHECK = Check("C01", "A verse can be built exactly when it exists", [
    Facet("construct", ctor_cases(), ctor, 6000),
    invented(Facet("construct", ctor_cases(), ctor, 0), 1500),
    Exhaustive("edges", edges, edge),
    Facet("malformed", bad_cases(), bad, 600),
], rule="book x chapter x verse x (package flags, flags argument) drawn around the ends of chapters, books and the "
        "verse-0 set, plus every chapter's first/last verse and their neighbours enumerated; non-trivial: the call "
        "was decided (accepted or refused) by the existence oracle",
    assumptions=["the versification table of the package is what decides existence (its content is C27's business)"])
