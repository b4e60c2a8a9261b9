import re
from ..gen import *
from .c06 import BIG
from .c16 import opts, same_book, shape
from bibleref import BibleVersePart
from ..invented import invented

P = {"B": BibleVersePart.BOOK, "C": BibleVersePart.CHAP, "V": BibleVersePart.VERSE}


def fmt_verse(v, parts, o, w=W, seps=None):
    """The documented form of a verse, with spaces."""
    d = seps or DEFAULTS
    bk = w.books[v[0]]
    if w.nchap(v[0]) == 1:
        parts = parts.replace("C", "")
    b = (bk.abbrev if o.get("abbrev") else bk.title) if "B" in parts else ""
    sep = (d["verse_sep_alt"] if o.get("alt_sep") else d["verse_sep_std"]) if "C" in parts and "V" in parts else ""
    n = (str(v[1]) if "C" in parts else "") + sep + (str(v[2]) if "V" in parts else "")
    s = (b + " " + n).strip()
    return s.replace(" ", "") if o.get("nospace") else s


def fmt_range(t, line, o, w=W, seps=None):
    """A range: the start as a book, chapter or verse, whichever is the largest unit the range includes from its
    start; then, unless that alone is the whole range, the end likewise, without what repeats the start."""
    d = seps or DEFAULTS
    a, z = t
    lo, hi = line.pos(a), line.pos(z)
    sb, sc = line.book_span(a[0]), line.chap_span(*a[:2])
    eb, ec = line.book_span(z[0]), line.chap_span(*z[:2])

    def inside(s):
        return lo <= s[0] and s[1] <= hi
    if o.get("force_start_verses") and not inside(ec):
        start = "BCV"
    elif inside(sb):
        start = "B"
    elif inside(sc):
        start = "BC"
    else:
        start = "BCV"
    s = fmt_verse(a, start, o, w, d)
    if lo == hi or (lo, hi) in (sb, sc):
        return s
    if inside(eb):
        end = "B"
    elif inside(ec) and (start != "BCV" or a[0] != z[0]):
        end = "BC"
    else:
        end = "BCV"
    if a[0] == z[0]:
        end = end.replace("B", "")
        if a[1] == z[1]:
            end = end.replace("C", "")
    return s + d["range_sep"] + fmt_verse(z, end, o, w, d)


def fmt_list(groups, line, o, keep, w=W, seps=None):
    """A list: each range names its start and end by the largest unit inside it, without the book (and, for verses of the
    chapter last mentioned, without the chapter) that the text before it gives; but a range of a book already in effect
    that starts a chapter and can not be written by chapters there is written out with verses. keep: ";" stands between
    groups; otherwise ";" stands before every range that is not just further verses of the same chapter."""
    d = seps or DEFAULTS
    major, minor = d["major_list_sep"], d["minor_list_sep"]
    out, book, chap, verses = "", None, None, False      # verses: a bare number is a verse of chap
    for gi, group in enumerate(groups):
        for i, (a, z) in enumerate(group):
            lo, hi = line.pos(a), line.pos(z)
            eb, ec = line.book_span(z[0]), line.chap_span(*z[:2])
            sb, sc = line.book_span(a[0]), line.chap_span(*a[:2])

            def inside(s):
                return lo <= s[0] and s[1] <= hi
            fresh = gi > 0 and i == 0 if keep else True     # a ";" is before it, or may be put there
            single = lo == hi or (lo, hi) in (sb, sc)
            more = False                                    # further verses of the same chapter
            if inside(sb):
                start, verses = "B", False
            elif inside(sc):
                if a[0] != book:
                    start, verses = "BC", False
                elif fresh or not verses and inside(ec):
                    start, verses = "C", False
                else:
                    start, verses, single = "CV", True, False
            else:
                more = a[0] == book and verses and a[1] == chap and a[:2] == z[:2]
                start, verses = "V" if more else "CV" if a[0] == book else "BCV", True
            if o.get("force_start_verses") and not inside(ec) and "V" not in start:
                start, verses = start.replace("C", "") + "CV", True
            text = fmt_verse(a, start, o, w, d)
            book, chap = a[0], None if start == "B" else a[1]
            if not single:
                verses = verses and a[0] == z[0]
                if inside(eb):
                    end, chap, verses = "B", None, False
                elif inside(ec) and not verses:
                    end = "BC" if z[0] != a[0] else "C"
                    chap = z[1]
                else:
                    end = "BCV" if z[0] != a[0] else "CV" if z[1] != chap else "V"
                    chap, verses = z[1], True
                book = z[0]
                text += d["range_sep"] + fmt_verse(z, end, o, w, d)
            if out:
                sep = (major if i == 0 else minor) if keep else minor if more else major
                out += sep + ("" if o.get("nospace") else " ")
            out += text
        if keep:
            verses = False
    return out


@st.composite
def verse_cases(draw):
    line = W.line(draw(st.booleans()))
    return {"v": list(line.verse(draw(positions(line)))), "o": draw(opts("abbrev", "alt_sep", "nospace")),
            "parts": draw(st.sampled_from(["BCV", "BCV", "BC", "BV", "CV", "B", "C", "V", ""])),
            "g": draw(st.sampled_from([0, 1, 2, 3]))}


def verse(case):
    v, o = tt(case["v"]), case["o"]
    parts = BibleVersePart.NONE
    for p in case["parts"]:
        parts |= P[p]
    x = V(v)
    with gflags(case["g"]):
        got = sut("str", lambda: x.str(verse_parts=parts, **o))
        expect_eq(got, fmt_verse(v, case["parts"], o), f"{name(v)}.str(verse_parts={case['parts']}, {o})")
        expect_eq(sut("str", lambda: x.str(**o)), fmt_verse(v, "BCV", o), f"{name(v)}.str({o})")
        expect_eq(sut("str", lambda: str(x)), fmt_verse(v, "BCV", {}), f"str({name(v)})")
        expect_eq(sut("repr", lambda: repr(x)), f"BibleVerse({fmt_verse(v, 'BCV', {'abbrev': 1})})", f"repr of {name(v)}")
    return ["verse", case["parts"] or "none"] + sorted(o)


@st.composite
def range_cases(draw):
    mode = draw(modes())
    line = W.line(eff(mode) & V0)
    r = draw(st.one_of(ranges(line, draw(positions(line))), same_book(line, True).map(lambda rs: rs[0])))
    return {"r": r, "mode": mode, "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


def range_(case):
    t, mode, o = tt(case["r"]), case["mode"], case["o"]
    line = W.line(eff(mode) & V0)
    r = R(t)
    with gflags(mode[0]):
        what = f"{rname(t)}.str({o}) with {mname(mode)}"
        want = fmt_range(t, line, o)
        expect_eq(sut(what, lambda: r.str(**o, **kw(mode))), want, what)
        one = L([t])
        for pg in (True, False):
            expect_eq(sut(f"list of one: {what}", lambda: one.str(preserve_groups=pg, **o, **kw(mode)), budget=BIG), want,
                      f"list of one: {what}, preserve_groups={pg}")
        if mode[1] is None:
            plain = fmt_range(t, line, {})
            expect_eq(sut("str", lambda: str(r)), plain, f"str({rname(t)}) with {mname(mode)}")
            expect_eq(sut("repr", lambda: repr(r)), f"BibleRange({plain})", f"repr of {rname(t)} with {mname(mode)}")
            expect_eq(sut("repr", lambda: repr(one), budget=BIG), f'BibleRangeList("{plain}")', f"repr of a list of {rname(t)}")
    return [shape(t, line)] + sorted(o)


@st.composite
def list_cases(draw):
    mode = draw(modes())
    f = eff(mode)
    line = W.line(f & V0)
    rs = draw(st.one_of(cluster(line, bool(f & MB), 1, 6), same_book(line, bool(f & MB)), knot(line, bool(f & MB))))
    return {"rs": rs, "cuts": draw(group_split(len(rs))), "mode": mode,
            "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


ITEM = re.compile(r"^(?P<b>(?:[123] ?)?[A-Za-z][A-Za-z ]*?)? ?(?P<n>[0-9][0-9:.]*)?$")


def restyle(plain, o):
    """The string without abbrev, alt_sep and nospace, turned into the one with them."""
    if o.get("abbrev"):
        names = {b.title: b.abbrev for b in W.books}
        plain = re.sub(r"(?<![A-Za-z])(?:[123] )?[A-Za-z][A-Za-z ]*[A-Za-z]",
                       lambda m: names.get(m.group(), m.group()), plain)
    if o.get("alt_sep"):
        plain = plain.replace(":", ".")
    return plain.replace(" ", "") if o.get("nospace") else plain


def list_(case):
    rs, mode, o = tt(case["rs"]), case["mode"], case["o"]
    groups = apply_groups(list(rs), case["cuts"])
    lst, k = LG(groups), kw(mode)
    line = W.line(eff(mode) & V0)
    with gflags(mode[0]):
        s = sut("str", lambda: lst.str(**o, **k), budget=BIG)
        free = sut("str", lambda: lst.str(preserve_groups=False, **o, **k), budget=BIG)
        o1 = {x: o[x] for x in o if x == "force_start_verses"}
        for pg, text in ((True, s), (False, free)):
            plain = sut("str", lambda: lst.str(preserve_groups=pg, **o1, **k), budget=BIG)
            expect_eq(text, restyle(plain, o), f"{[lname(g) for g in groups]}.str({o}, preserve_groups={pg}) with {mname(mode)}, "
                                               f"compared with {plain!r} restyled")
        if mode[1] is None and not o:
            expect_eq(sut("str", lambda: str(lst), budget=BIG), s, "str() and .str()")
            expect_eq(sut("repr", lambda: repr(lst), budget=BIG), f'BibleRangeList("{s}")', "repr")
    what = f"{[lname(g) for g in groups]}.str({o}) with {mname(mode)} gives {s!r}"
    for pg, text in ((True, s), (False, free)):
        expect_eq(text, fmt_list(groups, line, o, pg), f"{[lname(g) for g in groups]}.str({o}, preserve_groups={pg}) with {mname(mode)}")
    got = [g.split(",") for g in s.split(";")]
    expect_eq([len(g) for g in got], [len(g) for g in groups], f"{what}: ';' between groups, ',' within")
    expect_eq(len(re.split("[;,]", free)), len(rs), f"{what}; preserve_groups=False gives {free!r}: items")
    labels = []
    for text in (s, free):
        expect(text == text.strip(), f"{what}: stray space: {text!r}")
        if o.get("nospace"):
            expect(not re.search(r"\s", text), f"{what}: spaces in {text!r}")
        expect((":" if o.get("alt_sep") else ".") not in text, f"{what}: wrong verse separator in {text!r}")
        items = [i.strip() for i in re.split("[;,]", text)]
        prev = None
        for item, t in zip(items, rs):
            ends = item.split("-")
            expect(1 <= len(ends) <= 2, f"{what}: item {item!r}")
            for n, (e, v) in enumerate(zip(ends, (t[0], t[1]))):
                m = ITEM.match(e)
                expect(m is not None and (m["b"] or m["n"]), f"{what}: {e!r} in {text!r}")
                if m["b"] is not None:
                    bk = W.books[v[0]]
                    nm = bk.abbrev if o.get("abbrev") else bk.title
                    expect_eq(m["b"].strip(), nm.replace(" ", "") if o.get("nospace") else nm, f"{what}: book name in {text!r}")
                if prev is not None and prev != v[0]:
                    expect(m["b"] is not None, f"{what}: the change of book is not written in {text!r}")
                if n == 1 and t[0][0] == t[1][0]:
                    expect(m["b"] is None, f"{what}: the book is repeated within the range {item!r}")
                prev = v[0]
            if o.get("force_start_verses") and len(ends) == 2:
                # an explicit end verse needs an explicit start verse
                lo, hi = span_of(line, t)
                ec = line.chap_span(*t[1][:2])
                if not (lo <= ec[0] and ec[1] <= hi):
                    num = str(t[0][2])
                    if W.nchap(t[0][0]) > 1 and (ITEM.match(ends[0])["b"] or t[0][1] != t[1][1]):
                        num = f"{t[0][1]}{'.' if o.get('alt_sep') else ':'}{num}"
                    expect(ends[0].rstrip().endswith(num), f"{what}: start verse not written in {item!r}")
                    labels.append("forced start verse")
    return ["several ranges"] + labels + sorted(o) if len(rs) > 1 else []


@st.composite
def many(draw):
    case = {"mode": draw(modes()), "n": draw(many_n(2, 60)), "seed": draw(SEED)}
    case["o"] = draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))
    return case


def many_ranges(case):
    f = eff(case["mode"])
    rs = bulk(W.line(f & V0), bool(f & MB), case["n"], case["seed"])
    return list_({**case, "rs": rs, "cuts": bulk_cuts(len(rs), case["seed"])}) + (["over 15"] if len(rs) > 15 else [])


CHECK = Check("C17", "Strings honour every formatting option", [
    Facet("verse", verse_cases(), verse, 2400),
    invented(Facet("verse", verse_cases(), verse, 0), 600),
    Facet("range", range_cases(), range_, 4000),
    invented(Facet("range", range_cases(), range_, 0), 1200),
    Facet("list", list_cases(), list_, 3000),
    invented(Facet("list", list_cases(), list_, 0), 1000),
    Facet("many", many(), many_ranges, 200),
    invented(Facet("many", many(), many_ranges, 0), 100),
], rule="verses x all parts and options; ranges of every shape (also multi-book) x options x flags against a reference "
        "formatter; grouped lists x options x flags against a reference formatter for lists, and separately: separators between and within groups, book names and verse "
        "separators as asked (and nothing else different from the plain string), books named when they change and not repeated within a range, no stray spaces. "
        "Non-trivial: every verse and range; lists of at least two ranges")
