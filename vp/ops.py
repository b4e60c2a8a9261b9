"""A table of the package's public operations that take a flags argument, each as (subject kind, arguments, call), and a
normal form of whatever they return. Used by the checks that relate one call to another (C21, C26)."""
from .gen import *
from .refparse import texts, text_of
from bibleref.ref import InvalidReferenceError, BibleRefParsingError, MultibookRangeNotAllowedError

EXCS = (InvalidReferenceError, BibleRefParsingError, MultibookRangeNotAllowedError, ValueError, TypeError, IndexError)


def normal(v):
    """A comparable rendering of a result."""
    if isinstance(v, Raised):
        return ("raised", v.type.__name__, getattr(v.exc, "start_pos", None), getattr(v.exc, "end_pos", None))
    if isinstance(v, BibleVerse):
        return ("verse", rd(v))
    if isinstance(v, BibleRange):
        return ("range", rdr(v))
    if isinstance(v, BibleRangeList):
        return ("list", rdg(v))
    if isinstance(v, BibleBook):
        return ("book", v.name)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [normal(x) for x in v])
    return (type(v).__name__, v)


def m(method):
    return lambda x, a, k: getattr(x, method)(*a, **k)


def inplace(method):
    def go(x, a, k):
        getattr(x, method)(*a, **k)
        return x
    return go


# subject: b book, v verse, r range, l list, - none.   args: a tuple of argument kinds
#   c chapter number, n number of verses, V verse, R range, L list, B book, s text, 4 book and numbers
OPS = {
    "book.verse_count": ("b", "", m("verse_count")),
    "book.min_verse_num": ("b", "c", m("min_verse_num")),
    "book.first_verse": ("b", "", m("first_verse")),
    "book.first_verse(chapter)": ("b", "c", m("first_verse")),
    "book.range": ("b", "", m("range")),
    "book.chap_range": ("b", "c", m("chap_range")),
    "book.chap_ranges": ("b", "", m("chap_ranges")),
    "BibleVerse(text)": ("-", "s", lambda x, a, k: BibleVerse(*a, **k)),
    "BibleVerse(book, chapter, verse)": ("-", "3", lambda x, a, k: BibleVerse(*a[0], **k)),
    "verse.min_verse_num": ("v", "", m("min_verse_num")),
    "verse.min_verse_num(chapter)": ("v", "c", m("min_verse_num")),
    "verse.first_verse": ("v", "", m("first_verse")),
    "verse.first_verse(chapter)": ("v", "c", m("first_verse")),
    "verse.is_first_in_chap": ("v", "", m("is_first_in_chap")),
    "verse.is_first_in_book": ("v", "", m("is_first_in_book")),
    "verse.chap_range": ("v", "", m("chap_range")),
    "verse.book_range": ("v", "", m("book_range")),
    "verse.add": ("v", "n", m("add")),
    "verse.subtract(number)": ("v", "n", m("subtract")),
    "verse.subtract(verse)": ("v", "V", m("subtract")),
    "BibleRange.whole_bible": ("-", "", lambda x, a, k: BibleRange.whole_bible(**k)),
    "BibleRange(text)": ("-", "s", lambda x, a, k: BibleRange(*a, **k)),
    "BibleRange(start, end)": ("-", "VV", lambda x, a, k: BibleRange(start=a[0], end=a[1], **k)),
    "BibleRange(end)": ("-", "V", lambda x, a, k: BibleRange(end=a[0], **k)),
    "BibleRange(start)": ("-", "V", lambda x, a, k: BibleRange(start=a[0], **k)),
    "BibleRange(arguments)": ("-", "6", lambda x, a, k: BibleRange(*a[0], **k)),
    "range.is_whole_chap": ("r", "", m("is_whole_chap")),
    "range.is_whole_book": ("r", "", m("is_whole_book")),
    "range.spans_start_chap": ("r", "", m("spans_start_chap")),
    "range.spans_end_chap": ("r", "", m("spans_end_chap")),
    "range.spans_start_book": ("r", "", m("spans_start_book")),
    "range.spans_end_book": ("r", "", m("spans_end_book")),
    "range.verse_count": ("r", "", m("verse_count")),
    "range.chap_count": ("r", "", m("chap_count")),
    "range.chap_count(whole)": ("r", "", lambda x, a, k: x.chap_count(whole=True, **k)),
    "range.book_count": ("r", "", m("book_count")),
    "range.book_count(whole)": ("r", "", lambda x, a, k: x.book_count(whole=True, **k)),
    "range.chap_range": ("r", "", m("chap_range")),
    "range.book_range": ("r", "", m("book_range")),
    "range.split(by_book)": ("r", "", lambda x, a, k: x.split(by_book=True, **k)),
    "range.split(by_chap)": ("r", "", lambda x, a, k: x.split(by_chap=True, **k)),
    "range.split(num_verses)": ("r", "", lambda x, a, k: x.split(num_verses=7, **k)),
    "range.split(all)": ("r", "", lambda x, a, k: x.split(by_book=True, by_chap=True, num_verses=5, regroup=False, **k)),
    "range.is_adjacent": ("r", "O", m("is_adjacent")),
    "range.union": ("r", "O", m("union")),
    "range.intersection": ("r", "O", m("intersection")),
    "range.difference": ("r", "O", m("difference")),
    "range.sym_difference": ("r", "O", m("sym_difference")),
    "range.str": ("r", "", m("str")),
    "range.str(force_start_verses)": ("r", "", lambda x, a, k: x.str(force_start_verses=True, **k)),
    "BibleRangeList(text)": ("-", "s", lambda x, a, k: BibleRangeList(*a, **k)),
    "list.verse_count": ("l", "", m("verse_count")),
    "list.chap_count": ("l", "", m("chap_count")),
    "list.chap_count(whole)": ("l", "", lambda x, a, k: x.chap_count(whole=True, **k)),
    "list.book_count": ("l", "", m("book_count")),
    "list.book_count(whole)": ("l", "", lambda x, a, k: x.book_count(whole=True, **k)),
    "list.chap_range": ("l", "", m("chap_range")),
    "list.book_range": ("l", "", m("book_range")),
    "list.merge": ("l", "", inplace("merge")),
    "list.contains": ("l", "O", m("contains")),
    "list.union": ("l", "O", m("union")),
    "list.intersection": ("l", "O", m("intersection")),
    "list.difference": ("l", "O", m("difference")),
    "list.sym_difference": ("l", "O", m("sym_difference")),
    "list.union_update": ("l", "O", inplace("union_update")),
    "list.intersection_update": ("l", "O", inplace("intersection_update")),
    "list.difference_update": ("l", "O", inplace("difference_update")),
    "list.sym_difference_update": ("l", "O", inplace("sym_difference_update")),
    "list.regroup": ("l", "", inplace("regroup")),
    "list.str": ("l", "", m("str")),
    "list.str(conventional)": ("l", "", lambda x, a, k: x.str(preserve_groups=False, force_start_verses=True, **k)),
}


@st.composite
def calls(draw, names=None):
    op = draw(st.sampled_from(sorted(names or OPS)))
    subj, args, _ = OPS[op]
    line = W.line(draw(st.integers(0, 2)) > 0)
    p = draw(st.one_of(positions(line), chap_starts(line)))
    mb = draw(st.booleans())
    case = {"op": op, "p": list(line.verse(p))}
    if subj == "r":
        case["rs"] = [draw(ranges(line, p, mb))]
    elif subj == "l":
        case["rs"] = [draw(ranges(line, p, mb)) for _ in range(draw(st.integers(0, 4)))]
        case["cuts"] = draw(group_split(len(case["rs"])))
    out = []
    for a in args:
        b = line.verse(p)[0]
        if a == "c":
            out.append(draw(st.one_of(st.integers(1, W.nchap(b)), st.sampled_from([0, W.nchap(b) + 1]))))
        elif a == "n":
            out.append(draw(st.one_of(st.integers(0, 60), st.integers(0, 3), st.integers(0, 2000))))
        elif a == "V":
            out.append(list(line.verse(draw(near(line, p)))))
        elif a == "O":
            k = draw(st.sampled_from("vrl"))
            n = draw(st.integers(0, 3)) if k == "l" else 1
            rs = [draw(ranges(line, p, mb)) for _ in range(n)]
            out.append([k, [[rs[0][0], rs[0][0]]] if k == "v" else rs])
        elif a == "s":
            out.append(text_of(draw(texts(W, [draw(st.sampled_from([0, 1, 2, 3])), None], max_items=2)))
                       if draw(st.integers(0, 3)) else draw(short_texts()))
        elif a == "3":
            out.append([b, draw(st.integers(1, W.nchap(b))), draw(st.sampled_from([0, 0, 1, 2]))])
        elif a == "6":
            b2 = draw(st.sampled_from([None, b, b, min(last_book(), b + 1)]))
            num = lambda: draw(st.one_of(st.none(), st.sampled_from([0, 1, 2, 3])))
            out.append([b, num(), num(), b2, num(), num()])
    case["args"] = out
    if subj in "rl" and args == "O" and draw(st.integers(0, 3)) == 0:
        pieces, whole = draw(meeting())
        if subj == "r":
            case["rs"], case["args"] = pieces[:1], [["r", pieces[1:]]]
        else:
            case["rs"] = case["rs"][:2] + pieces
            case["cuts"] = draw(group_split(len(case["rs"])))
            case["args"] = [["r", [whole]]] if draw(st.booleans()) else [["l", [whole] + case["rs"][:1]]]
    elif subj == "l" and draw(st.integers(0, 5)) == 0:
        case["rs"] = case["rs"][:2] + draw(meeting())[0]
        case["cuts"] = draw(group_split(len(case["rs"])))
    return case


@st.composite
def meeting(draw):
    """Two ranges that meet where the flags matter (at a verse 0 or a boundary of books), and one across."""
    if draw(st.integers(0, 2)) and zero_chaps():
        b, c = draw(st.sampled_from(zero_chaps()))
    else:
        b, c = draw(st.integers(0, last_book())), 1
    e = (b, c - 1) if c > 1 else (b - 1, W.nchap(b - 1)) if b else (b, c)
    last = W.last_num(*e)
    first = draw(st.sampled_from([W.first_num(b, c, True), 1, 1]))
    end = max(first, draw(st.integers(1, min(3, W.last_num(b, c)))))
    back = draw(st.integers(0, min(3, last - 1)))
    if e == (b, c):     # the very first chapter
        return [[[b, c, first], [b, c, end]], [[b, c, last], [b, c, last]]], [[b, c, first], [b, c, last]]
    return [[[*e, last - back], [*e, last]], [[b, c, first], [b, c, end]]], [[*e, last - draw(st.integers(0, back))], [b, c, end]]


@st.composite
def chap_starts(draw, line):
    """Positions at the starts of the chapters that have a verse 0."""
    b, c = draw(st.sampled_from(zero_chaps() or [(0, 1)]))
    return min(line.chap_span(b, c)[0] + draw(st.integers(0, 2)), line.n - 1)


@st.composite
def short_texts(draw):
    if W.invented:
        b, c = draw(st.one_of(st.sampled_from(zero_chaps() or [(0, 1)]), st.just((0, 1)), st.just((last_book(), 1))))
        t, u = W.books[b].title, W.books[last_book()].title
        return draw(st.sampled_from([f"{t} {c}:0", f"{t} {c}", f"{t}", f"{t}-{u}", f"{t} {c}-{u} 1", f"{t} {c}:0-1", f"{t} {c}:1; {u}"]))
    c = draw(st.one_of(st.sampled_from(sorted(W.v0[PSA])), st.integers(1, 150)))
    return draw(st.sampled_from(["Psalm {c}:0", "Psalm {c}", "Ps {c}:0-3", "Psalms {c}-{d}", "Psalms {c}-{d}:0", "Ps {c}:0, 2",
                                 "Mal 4-Matt 1", "Mal-Matt", "Psalm {c}-Prov 1", "Psalm {c}:1", "Psalms {c}:0-Prov",
                                 "Job-Psalms", "Jude-Rev 1:2", "Psalm {c}:1; Matt 2"])).format(c=c, d=min(150, c + 1))


def build_call(case):
    """The subject, the arguments and the call of a case, as fresh objects."""
    subj, kinds, fn = OPS[case["op"]]
    p = tt(case["p"])
    x = None
    if subj == "b":
        x = W.books[p[0]]
    elif subj == "v":
        x = V(p)
    elif subj == "r":
        x = R(tt(case["rs"][0]))
    elif subj == "l":
        x = LG(apply_groups(tt(case["rs"]), case["cuts"]))
    args = []
    for kind, a in zip(kinds, case["args"]):
        if kind == "V":
            a = V(tt(a))
        elif kind == "O":
            rs = tt(a[1])
            a = V(rs[0][0]) if a[0] == "v" else R(rs[0]) if a[0] == "r" else L(rs)
        elif kind == "3":
            a = [W.books[a[0]], a[1], a[2]]
        elif kind == "6":
            a = [W.books[a[0]], a[1], a[2], None if a[3] is None else W.books[a[3]], a[4], a[5]]
        args.append(a)
    return x, args, fn


def describe(case):
    d = [case["op"]]
    subj = OPS[case["op"]][0]
    if subj in "bv":
        d.append(name(tt(case["p"])))
    if "rs" in case:
        d.append(lname(tt(case["rs"])))
    d.append(f"arguments {case['args']}")
    return " ".join(d)
