"""Invented Bibles: a few short books in any order, with verse 0s in any chapter, so that every boundary is close to every
other; now and then one with a chapter longer, a book with more chapters, or more books than usual. `invented(facet)` runs a facet of another check inside one: the package is given the data, and the model world
W, on which strategies and bodies are built, is switched to the same data while the case is drawn and while it is judged.
"""
from .gen import *


@st.composite
def worlds(draw, min_books=1, max_books=6, max_chaps=5, max_verses=7):
    n = draw(st.integers(min_books, max_books))
    keys = draw(st.lists(st.integers(0, len(BOOKS) - 1), min_size=n, max_size=n, unique=True))
    maxv = [draw(st.lists(st.integers(1, max_verses), min_size=1, max_size=max_chaps)) for _ in keys]
    grand = draw(st.integers(0, 23))
    if grand == 22:     # a chapter of up to four digits
        m = draw(st.sampled_from(maxv))
        m[draw(st.integers(0, len(m) - 1))] = draw(st.one_of(st.integers(8, 300), st.sampled_from([176, 177, 999, 1000, 1203])))
    elif grand == 23:   # many chapters
        m = draw(st.sampled_from(maxv))
        m += [1 + (i * i) % 3 for i in range(draw(st.one_of(st.integers(6, 60), st.sampled_from([149, 151, 170]))))]
    elif grand == 21 and max_books > 2:
        keys = draw(st.permutations(range(len(BOOKS))))[:draw(st.integers(7, len(BOOKS)))]
        maxv = [maxv[i % len(maxv)][:3] for i in range(len(keys))]
    v0 = [sorted(draw(st.sets(st.integers(1, len(m)), max_size=3))) if draw(st.booleans()) else [] for m in maxv]
    return {"keys": keys, "maxv": maxv, "v0": v0}


def desc(c):
    return f"books {[BOOKS[k].name for k in c['keys']]}, verses {c['maxv']}, verse 0s {c['v0']}"


@contextlib.contextmanager
def switched(c):
    """The model world W is the invented one for the duration."""
    bs = [BOOKS[i] for i in c["keys"]]
    new = World(bs, dict(zip(bs, c["maxv"])), {b: v for b, v in zip(bs, c["v0"]) if v})
    new.invented = True
    old = dict(W.__dict__)
    W.__dict__.update(new.__dict__)
    try:
        yield
    finally:
        W.__dict__.update(old)


@contextlib.contextmanager
def inhabited(c):
    """W and the package's data are the invented ones for the duration."""
    with switched(c):
        d = bible_data()
        try:
            sut("setting the data", lambda: setattr(d, "book_order", list(W.books)))
            sut("setting the data", lambda: setattr(d, "max_verses", {b: list(W.maxv[i]) for i, b in enumerate(W.books)}))
            sut("setting the data", lambda: setattr(d, "verse_0s", {b: set(W.v0[i]) for i, b in enumerate(W.books) if W.v0[i]}))
            yield
        finally:
            restore_versification()


def invented(facet, quick, min_books=1):
    @st.composite
    def cases(draw):
        c = draw(worlds(min_books))
        with switched(c):
            return {"world": c, "case": draw(facet.strategy)}

    def body(case):
        with inhabited(case["world"]):
            try:
                return facet.body(case["case"])
            except Violation as v:
                raise Violation(f"{v} [in a Bible of {desc(case['world'])}]") from None
    return Facet(facet.name + "-invented", cases(), body, quick)
