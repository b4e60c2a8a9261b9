from ..gen import *
import copy
from ..refparse import *
from .. import invented
from ..invented import desc
from .c06 import BIG, counts
from .c10 import OPS
from .c13 import expected, check_text
from .c16 import opts
from .c17 import fmt_range, fmt_list
from .c08 import pieces
from bibleref.ref import InvalidReferenceError, MultibookRangeNotAllowedError

# names in other languages: [abbreviation, title, minimum letters, extra abbreviations]; any two differ in the first two
# letters after the numeral
TITLES = [["Gn", "Genesi", 2, ["Gnsi"]], ["Es", "Esodo", 2, []], ["Lv", "Levitico", 3, ["Lvt"]], ["Sal", "Salmi", 3, ["Slm", "Ps"]],
          ["Ион", "Иона", 3, []], ["Éz", "Ézéchiel", 2, []], ["Rt", "Ruta", 2, []], ["1Re", "1 Re", 2, []],
          ["2Re", "2 Re", 2, []], ["3Mac", "3 Maccabei", 3, ["3Mcc"]], ["Ct", "Cantico dei Cantici", 3, ["Cnt"]],
          ["Откр", "Откровение", 4, []], ["Zz", "Zzyzx", 1, []], ["创", "创世记", 1, []], ["1撒", "1 撒母耳记", 1, []]]
TITLES = [[a, t, n, [a] + x] for a, t, n, x in TITLES]      # the abbreviation is among the recognised spellings
PROPS = ["book_order", "name_data", "max_verses", "verse_0s"]


@st.composite
def worlds(draw):
    c = draw(invented.worlds())
    n = len(c["keys"])
    c["names"] = draw(st.permutations(range(len(TITLES))))[:n] if draw(st.booleans()) and n <= len(TITLES) else None
    c["order"] = draw(st.permutations(PROPS))
    c["extra"] = draw(st.booleans())
    c["inplace"] = draw(st.integers(0, 4)) == 0
    return c


_worlds = {}


def world(c):
    key = json.dumps([c["keys"], c["maxv"], c["v0"]])
    if key not in _worlds:
        if len(_worlds) > 200:
            _worlds.clear()
        bs = [BOOKS[i] for i in c["keys"]]
        _worlds[key] = World(bs, dict(zip(bs, c["maxv"])), {b: v for b, v in zip(bs, c["v0"]) if v})
    return _worlds[key]


def name_data(c):
    if c["names"] is None:
        nd = DEFAULT_DATA["name_data"]
        return dict(nd) if c["extra"] else {BOOKS[k]: nd[BOOKS[k]] for k in c["keys"]}
    return {BOOKS[k]: TITLES[t] for k, t in zip(c["keys"], c["names"])}


def install(c):
    w = world(c)
    data = {"book_order": list(w.books), "name_data": name_data(c), "max_verses": {b: list(w.maxv[i]) for i, b in enumerate(w.books)},
            "verse_0s": {b: set(w.v0[i]) for i, b in enumerate(w.books) if w.v0[i]}}
    if c["extra"]:      # data for books that are not in the ordering is allowed
        for b in BOOKS:
            if b not in w.idx:
                data["max_verses"][b] = [3, 4]
                break
    d = bible_data()
    if c.get("inplace"):    # the data are changed where they are, and set again
        now = {k: copy.deepcopy(DEFAULT_DATA[k]) for k in PROPS}
        for k in c["order"]:
            sut(f"setting {k}", lambda: setattr(d, k, now[k]))
        sut("asking", lambda: [(b.order, b.title, b.chap_count(), b.range(), b.verse_count(), BibleBook.from_str(b.title), b.next(), b.prev())
                               for b in (BOOKS[i] for i in c["keys"])])
        sut("asking", lambda: BibleRange.whole_bible())
        for k in c["order"]:
            change(now[k], data[k])
            sut(f"setting {k} again", lambda: setattr(d, k, now[k]))
        return w
    for k in c["order"]:
        sut(f"setting {k}", lambda: setattr(d, k, data[k]))
    return w


def change(old, new):
    """Make one collection equal to another, keeping its parts where possible."""
    if isinstance(old, list):
        old[:] = new
    elif isinstance(old, set):
        old.clear()
        old.update(new)
    else:
        for k in list(old):
            if k not in new:
                del old[k]
        for k, v in new.items():
            if type(old.get(k)) is type(v) and isinstance(v, (list, set)):
                change(old[k], v)
            else:
                old[k] = v


def with_world(fn):
    def body(case):
        try:
            w = install(case["world"])
            return fn(case, w, desc(case["world"]))
        finally:
            restore_data()
    return body


@st.composite
def facts_cases(draw):
    return {"world": draw(worlds()), "mode": draw(modes())}


def facts(case, w, d):
    mode = case["mode"]
    f = eff(mode)
    line = w.line(f & V0)
    nd = name_data(case["world"])
    with gflags(mode[0]):
        k = kw(mode)
        for i, b in enumerate(w.books):
            what = f"{b.name} with {d}, {mname(mode)}"

            def eq(label, fn, want):
                expect_eq(sut(f"{label} of {what}", fn), want, f"{label} of {what}")
            eq("order", lambda: b.order, i)
            eq("next", lambda: b.next(), w.books[i + 1] if i + 1 < len(w.books) else None)
            eq("prev", lambda: b.prev(), w.books[i - 1] if i else None)
            eq("chap_count", lambda: b.chap_count(), w.nchap(i))
            lo, hi = line.book_span(i)
            eq("verse_count", lambda: b.verse_count(**k), hi - lo + 1)
            eq("range", lambda: rdr(b.range(**k), w), vr(line, lo, hi))
            eq("first_verse", lambda: rd(b.first_verse(**k), w), line.verse(lo))
            eq("last_verse", lambda: rd(b.last_verse(), w), line.verse(hi))
            for c in range(1, w.nchap(i) + 1):
                eq(f"chap_range({c})", lambda: rdr(b.chap_range(c, **k), w), vr(line, *line.chap_span(i, c)))
                eq(f"min_verse_num({c})", lambda: b.min_verse_num(c, **k), w.first_num(i, c, f & V0))
                eq(f"max_verse_num({c})", lambda: b.max_verse_num(c), w.last_num(i, c))
                for v in (0, 1, w.last_num(i, c), w.last_num(i, c) + 1):
                    got = sut(f"BibleVerse({b.name}, {c}, {v})", lambda: BibleVerse(b, c, v, **k), allow=(InvalidReferenceError,))
                    expect(isinstance(got, Raised) != w.exists((i, c, v), f & V0),
                           lambda: f"BibleVerse({b.name}, {c}, {v}) gives {got!r} with {d}, {mname(mode)}")
            got = sut("BibleVerse", lambda: BibleVerse(b, w.nchap(i) + 1, 1), allow=(InvalidReferenceError,))
            expect(isinstance(got, Raised), lambda: f"BibleVerse({b.name}, {w.nchap(i) + 1}, 1) gives {got!r} with {d}")
            for j, b2 in enumerate(w.books):
                eq(f"< {b2.name}", lambda: b < b2, i < j)
                eq(f">= {b2.name}", lambda: b >= b2, i >= j)
        for b in BOOKS:
            if b not in w.idx:
                what = f"{b.name}, which is not in the ordering, with {d}"
                expect_eq(sut(what, lambda: (b.order, b.next(), b.prev())), (None, None, None), f"order, next, prev of {what}")
                if b not in bible_data().max_verses:
                    expect_eq(sut(what, lambda: (b.chap_count(), b.max_chap_num(), b.verse_count(**k))), (0, 0, 0), f"counts of {what}")
                    for c, v in ((0, 0), (0, 1), (1, 0), (1, 1), (-1, 1)):
                        got = sut(f"BibleVerse({b.name}, {c}, {v})", lambda: BibleVerse(b, c, v, **k), allow=(InvalidReferenceError,))
                        expect(isinstance(got, Raised), lambda: f"BibleVerse({b.name}, {c}, {v}) gives {got!r} with {d}")
            want = nd.get(b)
            expect_eq((b.abbrev, b.title), tuple(want[:2]) if want else (None, None), f"names of {b.name} with {d}")
            if want:
                for s in (want[0], want[1], want[1].lower(), *want[3]):
                    got = sut(f"from_str({s!r})", lambda: BibleBook.from_str(s))
                    expect(got is b, f"from_str({s!r}) gives {got}, want {b} ({d}, names {case['world']['names']})")
        if case["world"]["names"] is not None:
            for s in ("Exodus", "Isaiah", "Luke", "Jude"):
                got = sut(f"from_str({s!r})", lambda: BibleBook.from_str(s))
                expect(got is None, f"from_str({s!r}) gives {got}, though no book has that name ({d})")
        got = sut("whole_bible", lambda: BibleRange.whole_bible(**k))
        expect_eq(rdr(got, w), vr(line, 0, line.n - 1), f"whole_bible with {d}, {mname(mode)}")
        if mode[1] is None:
            got = [rd(v, w) for v in drain("iterating the whole Bible", lambda: BibleRange.whole_bible(), line.n, budget=BIG)]
            expect_eq(got, [line.verse(i) for i in range(line.n)], f"iterating the whole Bible with {d}, {mname(mode)}")
    return ["one book" if len(w.books) == 1 else "several books"]


@st.composite
def op_cases(draw):
    c = draw(worlds())
    w = world(c)
    mode = draw(modes())
    f = eff(mode)
    line = w.line(f & V0)
    mb = bool(f & MB)

    def one():
        a, z = sorted((draw(st.integers(0, line.n - 1)), draw(st.integers(0, line.n - 1))))
        if not mb:
            z = min(z, line.book_span(line.book_of(a))[1])
        return [list(line.verse(a)), list(line.verse(z))]
    a = [one() for _ in range(draw(st.integers(1, 4)))]
    b = [one() for _ in range(draw(st.integers(1, 4)))]
    return {"world": c, "mode": mode, "a": a, "b": b, "cuts": draw(group_split(len(a))),
            "op": draw(st.sampled_from(sorted(OPS))), "n": draw(st.one_of(st.integers(0, 20), st.integers(0, line.n))),
            "split": [draw(st.booleans()), draw(st.booleans()),
                      draw(st.sampled_from([None, 1, 2, 3, 5])) if draw(st.booleans()) else
                      max(1, draw(st.sampled_from(sum(c["maxv"], []) + [span_of(line, a[0])[1] - span_of(line, a[0])[0]] * 3)) +
                          draw(st.integers(-1, 1)))],
            "o": draw(opts("abbrev", "alt_sep", "nospace", "force_start_verses"))}


def ops(case, w, d):
    a, b, mode = tt(case["a"]), tt(case["b"]), case["mode"]
    f = eff(mode)
    line = w.line(f & V0)
    mb = bool(f & MB)
    at = f"with {d}, {mname(mode)}"
    with gflags(mode[0]):
        k = kw(mode)
        # arithmetic
        v = a[0][0]
        x = V(v, w)
        p = (line if f & V0 or v[2] else w.line(True)).pos(v)
        q = p + case["n"]
        got = sut(f"{name(v, w)}.add({case['n']}) {at}", lambda: x.add(case["n"], **k))
        if q < line.n and (mb or line.book_of(q) == v[0]):
            expect(got is not None, f"{name(v, w)}.add({case['n']}) is None {at}")
            expect_eq(rd(got, w), line.verse(q), f"{name(v, w)}.add({case['n']}) {at}")
            back = sut("subtract", lambda: got.subtract(case["n"], **k))
            expect_eq(rd(back, w), v, f"{name(line.verse(q), w)}.subtract({case['n']}) {at}")
            n = sut("subtract", lambda: got.subtract(x, **k))
            expect_eq(n, case["n"], f"{name(line.verse(q), w)}.subtract({name(v, w)}) {at}")
        else:
            expect(got is None, lambda: f"{name(v, w)}.add({case['n']}) is {got!r} {at}")
        # counts
        r = R(a[0], w)
        n, ch, wch, bk, wbk = counts(line, a[0])
        what = f"{rname(a[0], w)} {at}"
        got = sut(f"counts of {what}", lambda: (r.verse_count(**k), r.chap_count(**k), r.chap_count(whole=True, **k),
                                                r.book_count(**k), r.book_count(whole=True, **k)))
        expect_eq(got, (n, ch, wch, bk, wbk), f"counts of {what}")
        # split
        bb, bc, nv = case["split"]
        got = sut(f"split {case['split']} of {what}", lambda: r.split(by_book=bb, by_chap=bc, num_verses=nv, **k),
                  budget=BIG)
        expect_eq(rdl(got, w=w), [vr(line, *x) for x in pieces(line, *span_of(line, a[0]), bb, bc, nv)],
                  f"split {case['split']} of {what}")
        # sets
        sym, model = OPS[case["op"]]
        bits = model(bits_of(line, a), bits_of(line, b))
        want = [vr(line, lo, hi) for lo, hi in line.runs(bits, mb)]
        what = f"{lname(a, w)}.{case['op']}({lname(b, w)}) {at}"
        xs, ys = L(a, w), L(b, w)
        got = sut(what, lambda: getattr(xs, case["op"])(ys, **k), budget=BIG)
        expect_eq(rdl(got, w=w), want, what)
        got = sut(f"first range: {what}", lambda: getattr(r, case["op"])(ys, **k), budget=BIG)
        bits1 = model(bits_of(line, a[:1]), bits_of(line, b))
        expect_eq(rdl(got, w=w), [vr(line, lo, hi) for lo, hi in line.runs(bits1, mb)], f"first range: {what}")
        expect(sut("contains", lambda: xs.contains(ys, **k)) is (not bits_of(line, b) & ~bits_of(line, a)),
               f"{lname(a, w)}.contains({lname(b, w)}) {at}")
        # strings
        groups = apply_groups(list(a), case["cuts"])
        lst = LG(groups, w)
        s = sut("str", lambda: lst.str(**case["o"], **k), budget=BIG)
        what = f"{[lname(g, w) for g in groups]} written as {s!r} with {case['o']} {at}"
        back = sut(f"reading {what}", lambda: BibleRangeList(s, **k))
        expect_eq(rdg(back, w=w), groups, f"{what} reads as")
        for pg in (True, False):
            s = sut("str", lambda: lst.str(preserve_groups=pg, **case["o"], **k), budget=BIG)
            expect_eq(s, fmt_list(groups, line, case["o"], pg, w), f"{[lname(g, w) for g in groups]}.str({case['o']}, preserve_groups={pg}) {at}")
        expect_eq(sut("str", lambda: r.str(**case["o"], **k)), fmt_range(a[0], line, case["o"], w), f"str of {rname(a[0], w)} {at}")
    return [case["op"]]


@st.composite
def text_cases(draw):
    c = draw(worlds())
    w = world(c)
    out = []
    for _ in range(draw(st.integers(1, 3))):
        mode = draw(modes())
        out.append({**draw(texts(w, mode, max_items=4, nd=name_data(c))), "mode": mode})
    return {"world": c, "texts": out}


def parse(case, w, d):
    for t in case["texts"]:
        s = text_of(t)
        want, err = expected(t, eff(t["mode"]), w)
        check_text(t, s, t["mode"], want, err, w, f"BibleRangeList({s!r}) with {d}, names {case['world']['names']}, {mname(t['mode'])}")
    return ["parsed"]


CHECK = Check("C25", "Replaced Bible data (order, versification, verse 0s, names) is what everything follows", [
    Facet("facts", facts_cases(), with_world(facts), 2000),
    Facet("operations", op_cases(), with_world(ops), 8000),
    Facet("parse", text_cases(), with_world(parse), 2400),
], rule="invented Bibles of 1-6 books in any order with 1-5 chapters of 1-7 verses (sometimes of many books, many chapters or up to 1203 verses), verse 0s in any chapter, names in other "
        "languages, the four data properties set in any order; oracle: the reference model of that Bible for existence, "
        "order, boundaries, arithmetic, counts, splitting, sets, parsing and strings. Non-trivial: every case",
    assumptions=["titles and abbreviations consist of letters, digits and spaces, and no spelling fits two books",
                 "books outside the ordering are not compared or used in ranges; without verse data they have no chapters"])
