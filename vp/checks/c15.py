import sys
import threading
from ..gen import *
from ..refparse import *
from .c13 import expected, check_text
from bibleref.ref import BibleRefParsingError, InvalidReferenceError


@st.composite
def history(draw):
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.integers(0, 9))
        mode = draw(modes())
        if k <= 5:
            t = draw(texts(W, mode, max_items=3, implied_start=True))
            steps.append({"k": "parse", **t, "mode": mode})
        elif k == 6:
            steps.append({"k": "junk", "s": draw(st.sampled_from(
                ["Matt 3:", "Mark 2:3;;4", "Zorp 3", "Luke 2:999", "Mark 2, 20, 3", "Jude 5-", "-", "", "Psa 3:0; 999:1"]))})
        elif k == 7:
            steps.append({"k": "book", "b": draw(books())})
        elif k == 8:
            steps.append({"k": "seps", "c": draw(st.sampled_from(["/", "|", "~"]))})
        else:
            steps.append({"k": "str", "b": draw(books())})
    mode = draw(modes())
    bare = draw(st.sampled_from([[3], [5, 6], [1], [2, 3]]))
    parts = [[str(bare[0]), "num"]] + ([[":", "vsep"], [str(bare[1]), "num"]] if len(bare) == 2 else [])
    if draw(st.booleans()):
        steps.append({"k": "parse", "items": [{"refs": [{"b": None, "n": bare}], "sep": None}], "parts": parts, "mode": mode})
    return {"steps": steps}


def play(case):
    labels = set()
    trail = []
    for st_ in case["steps"]:
        if st_["k"] == "parse":
            s = text_of(st_)
            want, err = expected(st_, eff(st_["mode"]))
            check_text(st_, s, st_["mode"], want, err,
                       what=f"after parsing {trail}, BibleRangeList({s!r}) with {mname(st_['mode'])}")
            trail.append(s)
            if len(trail) > 1:
                labels.add("refused" if err else "parsed")
                if any(r["b"] is None for r in st_["items"][0]["refs"][:1]):
                    labels.add("no book at the start")
        elif st_["k"] == "junk":
            sut(f"parsing {st_['s']!r}", lambda: BibleRangeList(st_["s"]), allow=(BibleRefParsingError,))
            trail.append(st_["s"])
        elif st_["k"] == "book":
            v = W.books[st_["b"]]
            sut("BibleRange(title)", lambda: BibleRange(v.title))
            trail.append(v.title)
        elif st_["k"] == "seps":
            d = bible_data()
            old = d.verse_sep_alt
            d.verse_sep_alt = st_["c"]
            sut("parse with other separator", lambda: BibleRangeList("Mark 2" + st_["c"] + "3"))
            d.verse_sep_alt = old
            trail.append("Mark 2" + st_["c"] + "3")
        else:
            r = R(((st_["b"], 1, 1), (st_["b"], 1, 2)))
            sut("str", lambda: str(r))
    return sorted(labels)


# ---------------------------------------------------------------------------------------------------------------
# Threads: a scheduler decides, from the generated schedule, which thread runs and for how many lines of the code
# under test; so the interleaving is part of the case and replays exactly. (If the thread whose turn it is waits for
# something another one holds, the others go on after PATIENCE: the schedule then no longer decides, nothing else.)
# ---------------------------------------------------------------------------------------------------------------
PATIENCE = 0.5
_LINES = 5
_mon = sys.monitoring


class Scheduler:
    def __init__(self, n, quanta):
        self.cv = threading.Condition()
        self.quanta = list(quanta)
        self.k = 0
        self.alive = list(range(n))
        self.turn = 0
        self.left = self.quanta[0]
        self.ids = {}
        self.switches = 0
        self.free = False

    def wait(self, me):                 # with cv held
        while self.turn != me and not self.free:
            if not self.cv.wait(PATIENCE):
                self.free = True
                self.cv.notify_all()

    def step(self):
        me = self.ids.get(threading.get_ident())
        if me is None or self.free:
            return
        with self.cv:
            self.left -= 1
            if self.left <= 0 and len(self.alive) > 1 and not self.free:
                self.pass_on(me)
            self.wait(me)

    def pass_on(self, me):              # with cv held
        others = [t for t in self.alive if t != me]
        self.k += 1
        q = self.quanta[self.k % len(self.quanta)]
        self.turn = others[(self.k + q) % len(others)]
        self.left = q
        self.switches += 1
        self.cv.notify_all()

    def leave(self, me):
        with self.cv:
            if self.turn == me and len(self.alive) > 1:
                self.pass_on(me)
            self.alive.remove(me)
            self.cv.notify_all()


def interleave(jobs, quanta):
    """Run the jobs in threads under the schedule -> ([outcome], number of switches)."""
    sched = Scheduler(len(jobs), quanta)
    out = [None] * len(jobs)
    ready = threading.Barrier(len(jobs))

    def work(i):
        sched.ids[threading.get_ident()] = i
        ready.wait()
        try:
            with sched.cv:
                sched.wait(i)
            out[i] = ("value", jobs[i]())
        except Exception as exc:
            out[i] = ("raised", exc)
        except BaseException as exc:
            out[i] = ("raised", RuntimeError(f"{type(exc).__name__}: does not terminate"))
        finally:
            sched.leave(i)

    def on_line(code, line):
        if not code.co_filename.startswith(REPO_SRC):
            return _mon.DISABLE
        sched.step()

    _mon.use_tool_id(_LINES, "verif-lines")
    try:
        _mon.register_callback(_LINES, _mon.events.LINE, on_line)
        _mon.set_events(_LINES, _mon.events.LINE)
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]

        def go():
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        sut("parsing in threads", go, budget=4 * DEFAULT_BUDGET)
    finally:
        _mon.set_events(_LINES, 0)
        _mon.register_callback(_LINES, _mon.events.LINE, None)
        _mon.free_tool_id(_LINES)
    return out, sched.switches


@st.composite
def threaded(draw):
    n = draw(st.integers(2, 3))
    g = draw(st.integers(0, 3))
    out = []
    for _ in range(n):
        mode = [g, draw(modes())[1]]
        out.append({**draw(texts(W, mode, max_items=3, implied_start=True)), "mode": mode})
    return {"texts": out, "quanta": draw(st.lists(st.integers(1, 40), min_size=1, max_size=8))}


def threads_(case):
    g = case["texts"][0]["mode"][0]
    with gflags(g):
        jobs = [lambda t=t: BibleRangeList(text_of(t), **kw(t["mode"])) for t in case["texts"]]
        outcomes, switches = interleave(jobs, case["quanta"])
    all_ = [text_of(t) for t in case["texts"]]
    for t, (kind, val) in zip(case["texts"], outcomes):
        what = f"BibleRangeList({text_of(t)!r}) with {mname(t['mode'])}, while other threads parse {all_}"
        want, err = expected(t, eff(t["mode"]))
        if err is not None:
            expect(kind == "raised" and isinstance(val, BibleRefParsingError),
                   lambda: f"{what}: should be refused ({err.why}), got {val!r}")
            expect_eq((val.start_pos, val.end_pos), err.span, f"{what}: position of the error")
        else:
            expect(kind == "value", lambda: f"{what}: raised {val!r}")
            expect_eq(rdg(val), want, what)
    return ["interleaved"] if switches > 1 else []


CHECK = Check("C15", "What a string parses to does not depend on what was parsed before", [
    Facet("history", history(), play, 1200),
    Facet("threads", threaded(), threads_, 480),
], rule="histories of 2-7 parses (valid, invalid, junk, single names, with other flags, with separators changed and "
        "changed back), including strings that name no book; oracle: the reference interpreter applied to each string "
        "alone. Threads: 2-3 parses in as many threads, under a generated schedule that switches between "
        "lines of the code under test; same oracle. Non-trivial: at least two parses compared, or a schedule that "
        "switched at least twice")
