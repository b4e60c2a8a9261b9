"""A generator of reference strings with known structure, and a reference interpreter for that structure.

A parsed text is a list of tokens (JSON): the text is the tokens' text joined, the meaning is computed from the items
by the rules in the documentation, without calling the code under test.

item    {"refs": [ref] or [ref, ref], "sep": ";" | "," | None}   (sep: the separator after the item; None: the last)
ref     {"b": book index or None, "n": [num] or [chap, verse] or []}
"""
from .gen import *


class RefError(Exception):
    def __init__(self, span, why):
        super().__init__(why)
        self.span = span
        self.why = why


SEPS = {"range": "-", "major": ";", "minor": ",", "std": ":", "alt": "."}


@st.composite
def book_text(draw, b, nd=None, w=W):
    """A recognised spelling of book b, plain ones favoured."""
    nd = nd or DEFAULT_DATA["name_data"]
    abbrev, title, need, extra = nd[w.books[b]]
    k = draw(st.integers(0, 9))
    if k < 4:
        return title
    if k < 7:
        return abbrev
    if k == 7 and extra:
        return draw(st.sampled_from(extra))
    if k == 8:
        s = title
        return draw(st.sampled_from([s.lower(), s.upper(), s.replace(" ", ""), s.replace(" ", "  ")]))
    head, rest = (title[:2], title[2:]) if title[:2] in ("1 ", "2 ", "3 ") else ("", title)
    rest = rest[:draw(st.integers(need, len(rest)))].rstrip()
    if head and draw(st.booleans()):
        head = "I" * int(head[0]) + " "
    return head + rest


SPACE = st.sampled_from(["", "", "", "", "", "", " ", " ", "  ", "\t", "\n"])


@st.composite
def texts(draw, w=W, mode=None, max_items=5, invalid=True, implied_start=False, nd=None):
    """-> {"items": [...], "parts": [[text, kind], ...]}: a string with its structure."""
    f = eff(mode) if mode is not None else 3
    zero = f & V0
    n_items = draw(st.integers(1, max_items))
    cur = None          # book in effect
    level = False       # bare numbers are verses
    chap = None
    items = []
    p_home = draw(books(w))
    bad_from = draw(st.integers(0, n_items - 1)) if invalid and max_items > 5 else 0     # nothing wrong before this
    for i in range(n_items):
        refs = []
        dual = draw(st.integers(0, 2)) == 0
        for j in range(2 if dual else 1):
            if cur is None:
                named = not (implied_start and draw(st.integers(0, 3)) == 0)
            else:
                named = draw(st.integers(0, 5)) == 0 if j else draw(st.integers(0, 2)) == 0
            if named:
                b = draw(st.one_of(st.just(p_home), books(w))) if not (j and cur is not None and draw(st.integers(0, 3))) \
                    else draw(st.sampled_from([cur, min(len(w.books) - 1, cur + 1)]))
                forms = ["book", "num", "num", "cv", "cv", "cv"]
            else:
                b = None
                forms = ["num", "num", "num", "cv", "cv"]
            bk = b if b is not None else cur if cur is not None else 0
            form = draw(st.sampled_from(forms))
            single = w.nchap(bk) == 1
            bad = invalid and i >= bad_from and draw(st.integers(0, 24)) == 0
            if form == "book":
                nums = []
                level = False
            elif form == "cv":
                c = _chap(draw, w, bk, bad, chap if not named else None)
                nums = [c, _verse(draw, w, bk, c, zero, bad)]
                chap, level = c, True
            else:
                if single:
                    nums = [_verse(draw, w, bk, 1, zero, bad)]
                    chap, level = 1, True if named else level
                elif not named and level:
                    nums = [_verse(draw, w, bk, chap or 1, zero, bad)]
                else:
                    nums = [_chap(draw, w, bk, bad, None)]
                    if named:
                        chap, level = nums[0], False
            if named:
                cur = b
            refs.append({"b": b, "n": nums})
        last = i == n_items - 1
        sep = draw(st.sampled_from([";", ","])) if not last or draw(st.integers(0, 7)) == 0 else None
        if sep == ";":
            level = False
        items.append({"refs": refs, "sep": sep})
    # concrete text
    parts = []

    def put(t, k):
        parts.append([t, k])
    for i, item in enumerate(items):
        for j, r in enumerate(item["refs"]):
            if j:
                put(draw(SPACE), "ws")
                put("-", "range")
            put(draw(SPACE) if (i or j) else draw(st.sampled_from(["", "", "", " "])), "ws")
            if r["b"] is not None:
                put(draw(book_text(r["b"], nd, w)), "book")
                if r["n"]:
                    put(draw(st.sampled_from([" ", " ", " ", "", "  "])), "ws")
            for k, n in enumerate(r["n"]):
                if k:
                    put(draw(SPACE), "ws")
                    put(":" if draw(st.integers(0, 3)) else ".", "vsep")
                    put(draw(SPACE), "ws")
                put((draw(st.sampled_from(["0", "0", "0", "00", "000"])) if draw(st.integers(0, 30)) == 0 else "") + str(n), "num")
        if item["sep"]:
            put(draw(SPACE), "ws")
            put(item["sep"], "sep")
            if i < len(items) - 1:
                put(draw(st.sampled_from([" ", " ", " ", "", "", "\n", " \n "])), "ws")
    return {"items": items, "parts": [p for p in parts if p[0]]}


def _chap(draw, w, b, bad, stay):
    n = w.nchap(b)
    if bad:
        return draw(st.sampled_from([0, n + 1, n + 7, 999]))
    if stay is not None and 1 <= stay <= n and draw(st.booleans()):
        return draw(st.sampled_from([stay, min(n, stay + 1)]))
    return draw(st.one_of(st.integers(1, n), st.sampled_from([1, n])))


def _verse(draw, w, b, c, zero, bad):
    if not 1 <= c <= w.nchap(b):
        return draw(st.integers(1, 9))
    lo, hi = w.first_num(b, c, zero), w.last_num(b, c)
    if bad:
        return draw(st.sampled_from([0, hi + 1, hi + 9, 999]))
    return draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, min(hi, lo + 1)])))


def text_of(case, seps=SEPS):
    """The string; with other separators substituted if asked."""
    tr = {"-": seps["range"], ";": seps["major"], ",": seps["minor"], ":": seps["std"], ".": seps["alt"]}
    return "".join(tr[t] if k in ("range", "sep", "vsep") else t for t, k in case["parts"])


def ref_spans(case, seps=SEPS):
    """For each item: ([span of each ref], span of the item), as (start, end) in the text."""
    tr = {"-": seps["range"], ";": seps["major"], ",": seps["minor"], ":": seps["std"], ".": seps["alt"]}
    pos = 0
    items, refs, cur = [], [], []

    def close():
        nonlocal cur
        if cur:
            refs.append((cur[0][0], cur[-1][1]))
            cur = []
    for t, k in case["parts"]:
        t = tr[t] if k in ("range", "sep", "vsep") else t
        if k == "range":
            close()
        elif k == "sep":
            close()
            items.append((list(refs), (refs[0][0], refs[-1][1])))
            refs = []
        elif k != "ws":
            cur.append((pos, pos + len(t)))
        pos += len(t)
    close()
    if refs:
        items.append((list(refs), (refs[0][0], refs[-1][1])))
    return items


def meaning(case, f, w=W, seps=SEPS):
    """-> groups (lists of pairs of verse tuples), or raises RefError(span of the first offending reference)"""
    zero = f & V0
    cur, chap, level = None, None, False
    groups, group = [], []
    spans = ref_spans(case, seps)
    for item, (rspans, ispan) in zip(case["items"], spans):
        got = []
        for r, span in zip(item["refs"], rspans):
            b, nums = r["b"], r["n"]
            if b is not None:
                cur = b
            if cur is None:
                raise RefError(span, "no book")
            single = w.nchap(cur) == 1
            if not nums:
                level = False
                got.append(((cur, 1, w.first_num(cur, 1, zero)),
                            (cur, w.nchap(cur), w.last_num(cur, w.nchap(cur)))))
                continue
            if len(nums) == 2:
                chap, level = nums[0], True
                v = (cur, nums[0], nums[1])
                if not w.exists(v, zero):
                    raise RefError(span, "no such verse")
                got.append((v, v))
                continue
            if b is not None:
                level = single
                chap = 1 if single else nums[0]
            if single or level:
                if single:
                    chap = 1
                v = (cur, chap, nums[0])
                if not w.exists(v, zero):
                    raise RefError(span, "no such verse")
                got.append((v, v))
            else:
                c = nums[0]
                if not 1 <= c <= w.nchap(cur):
                    raise RefError(span, "no such chapter")
                got.append(((cur, c, w.first_num(cur, c, zero)), (cur, c, w.last_num(cur, c))))
        if len(got) == 2:
            x, y = got
            if y[1] < x[0]:
                x, y = y, x
            res = (x[0], y[1])
        else:
            res = got[0]
        if res[0][0] != res[1][0] and not f & MB:
            raise RefError(ispan, "multi-book")
        group.append(res)
        if item["sep"] == ";":
            level = False
            groups.append(group)
            group = []
    if group:
        groups.append(group)
    return groups
