from ..gen import *
from ..refparse import *
from bibleref.ref import BibleRefParsingError, InvalidReferenceError

TOKENS = ["Matt", "Mark", "1 John", "3Jn", "II Kings", "Jude", "Psalms", "Song of Songs", "SongofSongs", "Phlm", "Zorp",
          "1", "2", "3", "12", "0", "00", "03", "151", "999", "2:3", "1:1", "3:0", "119:176", ":", ".", "-", ";", ",", " ", "  ",
          "\n", "\t", "(", ")", "--", ";;", "\u00a0", "\u2013", "é", "_", "I", "\u0661", "\u00b2", "'", "\"", "\\", "\0", "x" * 30,
          "\U0001d7d9", "\r\n", "\x0b", "\x1c", "\u2028", "K", "\u212a"]


@st.composite
def strings(draw):
    kind = draw(st.sampled_from(["tokens", "tokens", "mutated", "mutated", "text", "digits"]))
    if kind == "tokens":
        s = "".join(draw(st.lists(st.sampled_from(TOKENS), max_size=12)))
    elif kind == "text":
        s = draw(st.text(max_size=25))
    elif kind == "digits":
        d = draw(st.sampled_from([20, 400, 4299, 4300, 4301, 6000]))
        s = draw(st.sampled_from(["Matt {}", "Matt {}:1", "Matt 1:{}", "{}", "Jude {}", "Matt 1-{}", "Matt 1, {}; 3"])) \
            .format(draw(st.sampled_from(["1", "9", "0"])) * d)
        return {"fmt": s[:12], "digits": d, "s": s, "kind": kind, "mode": draw(modes())}
    else:
        s = text_of(draw(texts(max_items=4)))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(s)))
            op = draw(st.sampled_from(["ins", "del", "cut", "dup", "tok"]))
            if op == "ins":
                s = s[:i] + draw(st.sampled_from(list(":;,.- 0129aJ(\u2013\n"))) + s[i:]
            elif op == "tok":
                s = s[:i] + draw(st.sampled_from(TOKENS)) + s[i:]
            elif op == "del":
                s = s[:i] + s[i + draw(st.integers(1, 3)):]
            elif op == "cut":
                s = s[:i]
            else:
                j = draw(st.integers(0, len(s)))
                s = s + s[min(i, j):max(i, j)][:20]
    return {"s": s, "kind": kind, "mode": draw(modes())}


def sound(lst, s, f):
    """What came out must consist of verses that exist, in proper ranges, non-empty groups."""
    line = W.line(f & V0)
    groups = rdg(lst)
    expect(groups and all(groups), f"{s!r} parses to groups {groups}")
    for g in groups:
        for a, b in g:
            expect(W.exists(a, f & V0) and W.exists(b, f & V0), lambda: f"{s!r} parses to {a}-{b}, which does not exist")
            expect(a <= b, lambda: f"{s!r} parses to a backward range {a}-{b}")
            expect(a[0] == b[0] or f & MB, lambda: f"{s!r} parses to the multi-book {a}-{b} without MULTIBOOK")


def total(case):
    s, mode = case["s"], case["mode"]
    f = eff(mode)
    what = f"{s[:200]!r} with {mname(mode)}"
    labels = []
    with gflags(mode[0]):
        got = sut(f"BibleRangeList({what})", lambda: BibleRangeList(s, **kw(mode)), allow=(BibleRefParsingError,))
        if isinstance(got, Raised):
            a, b = got.exc.start_pos, got.exc.end_pos
            expect(type(a) is int and type(b) is int and 0 <= a <= b <= len(s),
                   lambda: f"BibleRangeList({what}): the error is at {a}..{b}, outside the string of {len(s)} characters")
            expect(len(str(got.exc)) > 0, f"BibleRangeList({what}): empty message")
            labels.append("refused")
        else:
            sound(got, s, f)
            labels.append("parsed")
        for cls in (BibleRange, BibleVerse):
            one = sut(f"{cls.__name__}({what})", lambda: cls(s, **kw(mode)),
                      allow=(BibleRefParsingError, InvalidReferenceError))
            if isinstance(got, Raised):
                expect(isinstance(one, Raised) and one.type is BibleRefParsingError,
                       lambda: f"{cls.__name__}({what}): {one!r} although the list is refused")
                expect_eq((one.exc.start_pos, one.exc.end_pos), (got.exc.start_pos, got.exc.end_pos),
                          f"{cls.__name__}({what}): position of the error")
    return labels + [case["kind"]]


@st.composite
def broken(draw):
    """A reference string cut at a place where what may follow is known, with something else put there (or nothing)."""
    mode = draw(modes())
    parts = draw(texts(W, mode, max_items=4, invalid=False))["parts"]
    cuts, nums, dual = [(0, "start")], 0, False
    for i, (t, k) in enumerate(parts):
        if k == "num":
            nums += 1
            if nums == 2:       # a complete chapter and verse
                cuts.append((i + 1, "second" if dual else "verse"))
        elif k == "vsep":
            cuts.append((i + 1, "vsep"))
        elif k in ("range", "sep"):
            cuts.append((i + 1, k))
            nums, dual = 0, k == "range"
    i, where = draw(st.sampled_from(cuts))
    head = "".join(t for t, k in parts[:i]) + draw(SPACE)
    rest = "".join(t for t, k in parts[i:])
    junk = {"start": ":.;,-$#(", "verse": ":.$#(aZ_\u00e9", "second": ":.-$#(aZ", "vsep": ":.;,-$#(aZ_", "range": ":.;,-$#(",
            "sep": ":.;,-$#("}[where]
    if where in ("vsep", "range") and draw(st.integers(0, 3)) == 0:
        return {"head": head, "tail": "", "where": "end after " + where, "mode": mode}
    return {"head": head, "tail": draw(st.sampled_from(list(junk))) + draw(st.sampled_from(["", " ", rest, " " + rest])),
            "where": "after " + where, "mode": mode}


def position(case):
    head, tail, mode = case["head"], case["tail"], case["mode"]
    s = head + tail
    what = f"{s!r} with {mname(mode)}"
    want = (len(head), len(head) + 1) if tail else (len(s), len(s))
    with gflags(mode[0]):
        for cls in (BibleRangeList, BibleRange, BibleVerse):
            got = sut(f"{cls.__name__}({what})", lambda: cls(s, **kw(mode)), allow=(BibleRefParsingError,))
            expect(isinstance(got, Raised), lambda: f"{cls.__name__}({what}): accepted as {got!r}")
            expect_eq((got.exc.start_pos, got.exc.end_pos), want, f"{cls.__name__}({what}): position of the unexpected character")
    return [case["where"]] + (["several lines"] if "\n" in head else [])


UNKNOWN = ["Zorp", "Q", "Matthias", "Zorp Gil", "Zorp \n Gil", "1 Zorp", "2Zorp", "4 John", "IV Kings", "Caf\u00e9", "Cafe\u0301", "Zorp e\u0301",
           "\u212bngstrom", "A\u030a", "\u0395\u03bb\u03bb\u03b7\u03bd", "\ufb01sh", "Gen_", "Matt$", "\U0001d50a", "Stra\u00dfe", "\u0130x", "Zorp#"]


@st.composite
def strange(draw):
    """A valid reference string with one of its books, or the end of a book's name, replaced by a name of no book."""
    mode = draw(modes())
    case = draw(texts(W, mode, max_items=5, invalid=False))
    try:
        meaning(case, eff(mode))
    except RefError:        # spans books
        mode = (MB | V0, None)
    at = [i for i, (t, k) in enumerate(case["parts"]) if k == "book"]
    i = draw(st.sampled_from(at))
    return {"head": "".join(t for t, k in case["parts"][:i]), "name": draw(st.sampled_from(UNKNOWN)),
            "tail": "".join(t for t, k in case["parts"][i + 1:]), "mode": mode}


def unknown(case):
    head, word, mode = case["head"], case["name"], case["mode"]
    s = head + word + case["tail"]
    what = f"{s!r} with {mname(mode)}"
    with gflags(mode[0]):
        for cls in (BibleRangeList, BibleRange, BibleVerse):
            got = sut(f"{cls.__name__}({what})", lambda: cls(s, **kw(mode)), allow=(BibleRefParsingError,))
            expect(isinstance(got, Raised), lambda: f"{cls.__name__}({what}): accepted as {got!r}")
            expect_eq((got.exc.start_pos, got.exc.end_pos), (len(head), len(head) + len(word)),
                      f"{cls.__name__}({what}): position of the name of no book")
    return ["unknown name"] + (["later"] if head.strip() else [])


CHECK = Check("C14", "Any string either parses to sound ranges or is refused with a position inside it", [
    Facet("total", strings(), total, 4800, thorough=150000),
    Facet("position", broken(), position, 2400),
    Facet("unknown", strange(), unknown, 1600),
], rule="token soup, mutated reference strings, random Unicode text and very long numbers x flags; oracle: the only "
        "outcomes are a non-empty list of existing, ordered ranges, or BibleRefParsingError with "
        "0 <= start_pos <= end_pos <= len; for a string broken off at a place where what may follow is known (after a "
        "separator, or after chapter and verse), exactly the place of the break. Non-trivial: every case (parsed or refused)")
