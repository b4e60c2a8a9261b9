"""Harness core: loads the code under test from /repo/src, runs generated cases against an oracle, shrinks a
failure, writes the replay file and the evidence.

Vocabulary
----------
case      a JSON value drawn from a strategy (strat.py), by Hypothesis or by the swarm driver: everything random is in it
facet     one executable statement: (name, strategy, body, number of cases per tier). body(case) either returns a
          list of labels (non-empty = the case was non-trivial) or raises Violation
Violation the code under test broke the property. An error in a strategy, or running out of memory or time, is a
          harness error (exit 2)
"""
import sys
import os

REPO_SRC = os.path.realpath(os.environ.get("VERIF_REPO_SRC", "/repo/src"))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
sys.path.insert(0, REPO_SRC)

import contextlib
import copy
import hashlib
import itertools
import json
import random
import time
import traceback
import warnings

warnings.simplefilter("ignore")

import bibleref
import bibleref.ref
import bibleref.util
from bibleref import BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleFlag, bible_data

if not os.path.realpath(bibleref.__file__).startswith(REPO_SRC + os.sep):
    raise SystemExit("bibleref was imported from " + bibleref.__file__)


class Violation(Exception):
    """The code under test broke the property."""


class StepBudget(BaseException):
    """The code under test took more loop iterations than any terminating execution of this call can need."""


# ---------------------------------------------------------------------------------------------------------------
# A deterministic guard against calls that never return: loop back-edges executed inside /repo/src are counted and
# a call that takes more than the budget is stopped. No wall clock is involved.
# ---------------------------------------------------------------------------------------------------------------
_TOOL = 4
_steps = 0
_limit = None
_mon = sys.monitoring


def _on_jump(code, offset, dest):
    global _steps
    if not code.co_filename.startswith(REPO_SRC):
        return _mon.DISABLE
    if _limit is not None:
        _steps += 1
        if _steps > _limit:
            raise StepBudget()


_mon.use_tool_id(_TOOL, "verif-steps")
_mon.register_callback(_TOOL, _mon.events.JUMP, _on_jump)
_mon.set_events(_TOOL, _mon.events.JUMP)

DEFAULT_BUDGET = 1_600_000


class Raised:
    """An exception that the caller said was an acceptable outcome."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc)

    def __repr__(self):
        return f"raised {self.type.__name__}: {self.exc}"


def sut(what, fn, *, allow=(), budget=DEFAULT_BUDGET):
    """Run fn (a call into the code under test). Exceptions listed in allow are returned as Raised; any other
    exception, or running out of the step budget, is a violation."""
    global _steps, _limit
    outer = _limit
    _steps, _limit = 0, budget
    try:
        return fn()
    except StepBudget:
        raise Violation(f"{what}: does not terminate (more than {budget} loop iterations)") from None
    except Violation:
        raise
    except Exception as exc:
        if allow and isinstance(exc, tuple(allow)):
            return Raised(exc)
        raise Violation(f"{what}: unexpected {type(exc).__name__}: {str(exc)[:300]}") from None
    finally:
        _limit = outer


def drain(what, fn, cap, budget=DEFAULT_BUDGET):
    """list(fn()), bounded by cap items."""
    def go():
        return list(itertools.islice(iter(fn()), cap + 1))
    items = sut(what, go, budget=budget)
    if len(items) > cap:
        raise Violation(f"{what}: yields more than the {cap} items possible")
    return items


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def expect_eq(got, want, msg):
    if got != want:
        m = msg() if callable(msg) else msg
        raise Violation(f"{m}: got {_short(got)}, want {_short(want)}")


def _short(v):
    r = repr(v)
    return r if len(r) <= 600 else r[:600] + "..."


# ---------------------------------------------------------------------------------------------------------------
# The package has global state (flags, Bible data). Every case starts from, and goes back to, the defaults that the
# package was imported with.
# ---------------------------------------------------------------------------------------------------------------
BOOKS = list(BibleBook)
DEFAULTS = {
    "range_sep": bible_data().range_sep, "major_list_sep": bible_data().major_list_sep,
    "minor_list_sep": bible_data().minor_list_sep, "verse_sep_std": bible_data().verse_sep_std,
    "verse_sep_alt": bible_data().verse_sep_alt,
}
DEFAULT_DATA = {
    "book_order": list(bible_data().book_order), "name_data": dict(bible_data().name_data),
    "max_verses": {b: list(v) for b, v in bible_data().max_verses.items()},
    "verse_0s": {b: set(v) for b, v in bible_data().verse_0s.items()},
}
FLAG = [BibleFlag.NONE, BibleFlag.MULTIBOOK, BibleFlag.VERSE_0, BibleFlag.ALL]  # cases name flags by index: bit 0 = MULTIBOOK
MB, V0 = 1, 2


def reset_flags():
    bibleref.flags = BibleFlag.NONE


def restore_config():
    data = bible_data()
    if all(getattr(data, k) == v for k, v in DEFAULTS.items()):
        return
    for last in (False, True):      # a setter may fail while another separator is still one the grammar cannot take
        for k, v in DEFAULTS.items():
            try:
                setattr(data, k, v)
            except Exception:
                if last:
                    raise


def restore_data():
    bible_data().name_data = dict(DEFAULT_DATA["name_data"])
    restore_versification()


def restore_versification():
    data = bible_data()
    data.book_order = list(DEFAULT_DATA["book_order"])
    data.max_verses = {b: list(v) for b, v in DEFAULT_DATA["max_verses"].items()}
    data.verse_0s = {b: set(v) for b, v in DEFAULT_DATA["verse_0s"].items()}


_gflags = BibleFlag.NONE


@contextlib.contextmanager
def gflags(f):
    """Set the package-wide flags to FLAG[f] for the duration."""
    global _gflags
    outer, _gflags = _gflags, FLAG[f]
    bibleref.flags = _gflags
    try:
        yield
    finally:
        bibleref.flags = _gflags = outer


class Facet:
    def __init__(self, name, strategy, body, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule


class Exhaustive:
    """A facet whose cases are enumerated, not drawn. cases() yields JSON values; each goes through body."""

    def __init__(self, name, cases, body, rule=""):
        self.name = name
        self.cases = cases
        self.body = body
        self.rule = rule


class Check:
    def __init__(self, pid, title, facets, rule, assumptions=()):
        self.pid = pid
        self.title = title
        self.facets = facets
        self.rule = rule
        self.assumptions = list(assumptions)


def run_case(facet, case):
    """Run one case from a clean global state. Returns labels."""
    reset_flags()
    try:
        return facet.body(case) or []
    except (Violation, MemoryError):
        raise
    except Exception as exc:
        # The body handles every answer that a correct implementation gives, so this is either a call outside sut()
        # that raised, or an answer of a shape that the property rules out (None for a list, and so on).
        tb = traceback.extract_tb(exc.__traceback__)
        raise Violation(f"{type(exc).__name__}: {str(exc)[:300]} (at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno} "
                        f"in {tb[-1].name})") from exc
    finally:
        reset_flags()
        restore_config()


def case_hash(facet, case):
    return hashlib.blake2b((facet.name + json.dumps(case, sort_keys=True)).encode(), digest_size=8).digest()


class FacetResult:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.driver = None
        self.cut = False
        self.failure = None      # {"case":..., "message":...}
        self.error = None


def _record(res, facet, case, labels):
    res.evaluations += 1
    if labels:
        h = case_hash(facet, case)
        if h not in res.seen:
            res.seen.add(h)
            n = len(res.seen)
            if n <= 2 or (n in (50, 400) and len(res.samples) < 4):
                res.samples.append({"facet": facet.name, "labels": sorted(set(labels)), "case": case})
        for l in set(labels):
            res.labels[l] = res.labels.get(l, 0) + 1


def run_exhaustive(facet, shard, shards):
    res = FacetResult(facet.name)
    for i, case in enumerate(facet.cases()):
        if i % shards != shard:
            continue
        try:
            labels = run_case(facet, case)
        except Violation as v:
            res.failure = {"case": case, "message": str(v)}
            return res
        _record(res, facet, case, labels)
    return res


def run_swarm(facet, n, seed, seconds):
    """n cases (fewer if the time runs out) from the swarm driver; a failing one is shrunk by its choices."""
    from . import strat
    res = FacetResult(facet.name)
    rnd = random.Random(seed)
    end = time.monotonic() + seconds

    def build(replay):
        src = strat.Source(rnd, replay)
        return src, json.loads(json.dumps(facet.strategy.swarm(src)))
    for _ in range(n):
        if time.monotonic() > end:
            res.cut = True
            break
        src, case = build(None)
        try:
            _record(res, facet, case, run_case(facet, case))
        except Violation as v:
            found = {"case": case, "message": str(v)}
            end = time.monotonic() + min(40, seconds)

            def fails(replay):
                if time.monotonic() > end:
                    return None
                s, c = build(replay)
                try:
                    run_case(facet, c)
                except Violation as v:
                    size = len(s.taken), s.taken
                    if size < found.get("size", size) or "size" not in found:
                        found.update(case=c, message=str(v), size=size)
                    return s.taken
                return None
            if fails(src.taken) is not None:
                strat.shrink(src.taken, fails)
            res.failure = {"case": found["case"], "message": found["message"]}
            break
    return res


def run_generated(facet, n, seed):
    import hypothesis
    from hypothesis import settings, given, Phase, HealthCheck
    res = FacetResult(facet.name)
    last = {}

    def body(case):
        try:
            labels = run_case(facet, case)
        except Violation as v:
            last["case"], last["message"] = copy.deepcopy(case), str(v)
            raise
        _record(res, facet, case, labels)

    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(given(case=facet.strategy.hyp)(lambda case: body(case)))
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            test()
    except Violation:
        # Hypothesis re-runs the minimal failing case last, so `last` is the shrunk one.
        res.failure = dict(last)
    except hypothesis.errors.HypothesisException as exc:
        if last:    # e.g. Flaky: the failure depends on what ran before in this process; still a real counterexample
            res.failure = dict(last)
            res.failure["message"] += f" [{type(exc).__name__}]"
        else:
            raise
    return res
