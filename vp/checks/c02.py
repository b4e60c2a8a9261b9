from ..gen import *
from bibleref.ref import InvalidReferenceError

from ..golden import NAMES

ND = {getattr(BibleBook, n): x for n, x in NAMES.items()}


def match_spaced(pattern, s, need):
    """Does s spell a prefix of pattern that covers at least `need` of its characters? A space in the pattern stands
    for any amount of whitespace."""
    i = j = 0
    while j < len(s):
        if i < len(pattern) and pattern[i] == " ":
            i += 1
            while j < len(s) and s[j].isspace():
                j += 1
            continue
        if i < len(pattern) and pattern[i] == s[j]:
            i += 1
            j += 1
        else:
            return False
    return i >= need


def names(book, string, nd=ND):
    """Does the (documented) name data make `string` a name of `book`?"""
    s = string.strip().lower()
    abbrev, title, need, extra = nd[book]
    title = title.lower()
    if title[:2] in ("1 ", "2 ", "3 "):
        roman = "i" * int(title[0])
        rests = []
        if s[:1] == title[0]:
            rests.append(s[1:].lstrip())
        if s.startswith(roman) and s[len(roman):len(roman) + 1].isspace():
            rests.append(s[len(roman):].lstrip())
        rest_title = title[2:]
    else:
        rests, rest_title = [s], title
    if any(r and match_spaced(rest_title, r, need) for r in rests):
        return True
    return any(match_spaced(x.lower(), s, len(x)) for x in extra)


def matches(string, nd=ND):
    return [b for b in BOOKS if b in nd and names(b, string, nd)]


EXOTIC = ["\r\n", "\x0b", "\x0c", "\x1f", "\x85", "\xa0", "\u2003", "\u2028", "\u3000", " \xa0"]
WS = st.one_of(st.sampled_from(["", " ", " ", "  ", "\t", "\n "]), st.sampled_from(["", " "] + EXOTIC))
WS1 = st.one_of(st.sampled_from([" ", " ", "  ", "\t", " \n"]), st.sampled_from([" "] + EXOTIC))


@st.composite
def spelled(draw):
    """A recognised name of a book, in any spelling the name data allows."""
    b = draw(st.integers(0, NB - 1))
    abbrev, title, need, extra = ND[W.books[b]]
    kind = draw(st.sampled_from(["title", "title", "abbrev", "extra"]))
    if kind == "extra" and extra:
        s = "".join(draw(WS) if ch == " " else ch for ch in draw(st.sampled_from(extra)))
    elif kind == "abbrev":
        s = abbrev
    else:
        head, rest = "", title
        if title[:2] in ("1 ", "2 ", "3 "):
            rest = title[2:]
            head = draw(st.sampled_from([title[0] + draw(WS), "I" * int(title[0]) + draw(WS1)]))
        rest = rest[:draw(st.integers(need, len(rest)))]
        s = head + "".join(draw(WS) if ch == " " else ch for ch in rest)
    case = draw(st.integers(0, 3))
    s = [s, s.lower(), s.upper(), s.swapcase()][case]
    return {"b": b, "s": draw(WS) + s + draw(WS), "kind": kind}


def recognise(case):
    s, book = case["s"], W.books[case["b"]]
    ms = matches(s)
    got = sut(f"BibleBook.from_str({s!r})", lambda: BibleBook.from_str(s))
    expect(got is book, lambda: f"BibleBook.from_str({s!r}) gives {got}, want {book}")
    got = sut(f"from_str({s!r}, raise_error=True)", lambda: BibleBook.from_str(s, raise_error=True))
    expect(got is book, lambda: f"BibleBook.from_str({s!r}, raise_error=True) gives {got}, want {book}")
    expect_eq([m.name for m in ms], [book.name], f"{s!r} names more than one book")
    # the same name wherever a book can be given by name
    v = sut(f"BibleVerse({s!r}, 1, 2)", lambda: BibleVerse(s, 1, 2))
    expect_eq(rd(v), (case["b"], 1, 2), f"BibleVerse({s!r}, 1, 2)")
    r = sut(f"BibleRange({s!r}, 1, 2)", lambda: BibleRange(s, 1, 2, s, 1, 3))
    expect_eq(rdr(r), ((case["b"], 1, 2), (case["b"], 1, 3)), f"BibleRange({s!r}, 1, 2, {s!r}, 1, 3)")
    if not any(c.isspace() and c not in " \t\n\r\f" for c in s):  # the grammar skips only these between tokens
        p = sut(f"BibleRange({s + ' 1:2'!r})", lambda: BibleRange(s + " 1:2"))
        expect_eq(rdr(p), ((case["b"], 1, 2), (case["b"], 1, 2)), f"BibleRange({s + ' 1:2'!r})")
    return [case["kind"]] + (["spacing"] if s != s.strip() or "  " in s else [])


ALPHA = st.text(st.sampled_from("abcdefghijlmnopqrtuvwxyzSTJMPI123 .-:"), max_size=12)


@st.composite
def foreign(draw):
    """Text that is usually not a name: near misses of real names, and random text."""
    base = draw(spelled())["s"]
    kind = draw(st.sampled_from(["cut", "swap", "insert", "append", "random", "shortest", "space"]))
    i = draw(st.integers(0, max(0, len(base) - 1)))
    if kind == "cut":
        base = base[:i] + base[i + 1:]
    elif kind == "swap":
        base = base[:i] + draw(st.sampled_from("abcdeghijmnoprtuz123 ")) + base[i + 1:]
    elif kind == "insert":
        base = base[:i] + draw(st.sampled_from("abcdeghijmnoprtuz123 ")) + base[i:]
    elif kind == "append":
        base += draw(ALPHA)
    elif kind == "shortest":
        base = base.strip()[:draw(st.integers(0, 4))]
    elif kind == "space":
        base = base[:i] + " " + base[i:]
    else:
        base = draw(ALPHA)
    return {"s": base, "kind": kind}


def refuse(case):
    s = case["s"]
    want = matches(s)
    expect(len(want) <= 1, lambda: f"{s!r} names more than one book: {want}")
    got = sut(f"BibleBook.from_str({s!r})", lambda: BibleBook.from_str(s))
    if want:
        expect(got is want[0], lambda: f"BibleBook.from_str({s!r}) gives {got}, want {want[0]}")
        return []
    expect(got is None, lambda: f"BibleBook.from_str({s!r}) gives {got}, but it names no book")
    got = sut(f"from_str({s!r}, raise_error=True)", lambda: BibleBook.from_str(s, raise_error=True),
              allow=(InvalidReferenceError,))
    expect(isinstance(got, Raised), lambda: f"BibleBook.from_str({s!r}, raise_error=True) gives {got}")
    return [case["kind"]]


def all_spellings():
    for b in range(NB):
        abbrev, title, need, extra = ND[W.books[b]]
        forms = [abbrev, title] + list(extra) + [title.replace(" ", "")]
        head, rest = ("", title) if title[:2] not in ("1 ", "2 ", "3 ") else (title[:2], title[2:])
        forms += [head + rest[:k] for k in range(need, len(rest) + 1)]
        if head:
            forms += ["I" * int(head[0]) + " " + rest[:k] for k in range(need, len(rest) + 1)]
        for s in forms:
            for t in dict.fromkeys([s, s.lower(), s.upper()]):
                yield {"b": b, "s": t, "kind": "listed"}


def attributes():
    for b in range(NB):
        yield {"b": b}


def attribute(case):
    book = W.books[case["b"]]
    abbrev, title, _, _ = ND[book]
    expect_eq((book.abbrev, book.title, book.order), (abbrev, title, case["b"]), f"attributes of {book.name}")
    for s in (abbrev, title):
        expect(sut("regex", lambda: book.regex.fullmatch(s)) is not None, f"{book.name}.regex does not match {s!r}")
    return ["book"]


CHECK = Check("C02", "Every documented spelling of a book's name finds that book, and nothing else does", [
    Facet("recognise", spelled(), recognise, 1600),
    Facet("refuse", foreign(), refuse, 6000),
    Exhaustive("listed", all_spellings, recognise),
    Exhaustive("attributes", attributes, attribute),
], rule="spellings built from the name data (title prefixes of at least the minimum length, numeral forms, listed "
        "abbreviations, letter case, whitespace) and near misses of them; oracle: an independent matcher over the "
        "name data. Non-trivial: a spelling of some book, or a text that names none",
    assumptions=["letters whose Unicode case folding is an ASCII letter (such as the Kelvin sign) are not generated"])
