#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; the outputs are committed)."""
import importlib
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
REF, DATA, PARSER, UTIL, INIT = ("src/bibleref/ref.py", "src/bibleref/data.py", "src/bibleref/parser.py",
                                 "src/bibleref/util.py", "src/bibleref/__init__.py")


def P(id, title, statement, over, text, why, files, mech, observe, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, note=note)


PROPS = [
P("C01", "A verse can be built exactly when it exists",
  "For every book, chapter number and verse number, building a verse (book given as enum, title or abbreviation) succeeds if "
  "and only if the Bible data has that verse, a verse 0 existing only in the listed chapters and only while VERSE_0 is in "
  "effect, and the built verse has exactly those parts. Otherwise InvalidReferenceError is raised; arguments of the wrong "
  "number or type raise ValueError.",
  ["inputs", "configurations"], "all books, all integers as chapter and verse, all package flags and flags arguments",
  "The tests build a handful of valid verses and a few invalid ones; the edges of 1189 chapters under 4x5 flag settings are not visited.",
  [REF, DATA], [("BibleVerse.__init__", REF), ("BibleBook.min_verse_num / max_verse_num", REF), ("BibleData.max_verses, verse_0s", DATA)],
  ["BibleVerse(book, chapter, verse)"], "every chapter's edges enumerated; the rest sampled around edges"),
P("C02", "Every accepted spelling names its book, and no other text names a book",
  "A text names a book exactly when, ignoring letter case and surrounding whitespace, it is a prefix of the book's title with at "
  "least the required number of letters (any or no whitespace where the title has a space; numbered titles also with Roman "
  "numerals, which need whitespace after them), or one of its listed abbreviations; then that book is returned. No text names two books, and for any other text the "
  "lookup returns None, or raises InvalidReferenceError if asked to raise.",
  ["inputs"], "all strings", "The tests look up a few dozen names; prefixes, case, numerals and spacing multiply them into thousands, and non-names are unbounded.",
  [REF, DATA], [("BibleBook.from_str", REF), ("BibleData._set_regexes", DATA), ("default_name_data", DATA)],
  ["BibleBook.from_str(text)", "BibleBook.title / abbrev"], "all listed spellings enumerated; near misses sampled; the spelling table is held by the check"),
P("C03", "Books, verses and ranges have one consistent, immutable total order",
  "Comparing two books, verses or ranges with any of the six operators agrees with comparing (book order, chapter, verse), for "
  "ranges start first and then end. Equal values have equal hashes, ordering comparison with other types raises TypeError and equality with them is false, and "
  "the attributes of a verse or range cannot be reassigned.",
  ["inputs"], "all pairs and triples of books, verses and ranges", "Tests compare single pairs; transitivity, consistency with hash and all operator/order combinations are universal.",
  [REF], [("dataclass order/frozen on BibleVerse and BibleRange", REF), ("BibleBook.__lt__ ...", REF)], ["< <= > >= == != hash()"],
  "all pairs of books enumerated, verses and ranges sampled in neighbourhoods"),
P("C04", "Verse arithmetic moves along the actual sequence of verses",
  "Adding or subtracting n >= 0 verses to a verse gives the verse n places later or earlier in the sequence of existing verses "
  "(with verse 0s if VERSE_0 is in effect or the verse is itself a verse 0), or None if that place is beyond the Bible, or beyond "
  "the book while MULTIBOOK is not in effect. Subtracting two verses gives the signed distance between them, so that "
  "b + (a - b) is a.",
  ["inputs", "configurations"], "all verses, all n >= 0, all pairs of verses, all flags", "Tests try a few steps inside and across chapters; every chapter, book and Bible boundary and distance under all flags is unbounded.",
  [REF], [("BibleVerse.add", REF), ("BibleVerse.subtract", REF), ("__add__ / __sub__", REF)], ["verse + n", "verse - n", "verse - verse"],
  "sampled, aimed at boundaries; oracle independent of the code"),
P("C05", "A range built from arguments is exactly the documented range",
  "Building a range from any combination of present and omitted start and end book, chapter and verse gives exactly the documented "
  "first and last verse (omitted parts fill out to the whole book or chapter, obviously reversed arguments are swapped), and building "
  "it from two verses gives the range between them in order. Nonexistent references raise InvalidReferenceError, and different "
  "books without MULTIBOOK in effect raise MultibookRangeNotAllowedError. The whole-Bible range runs from the first to the last verse, "
  "whatever the flags.",
  ["inputs", "configurations"], "all argument combinations and flags", "There are 2^5 omission patterns x reversed/equal/nonexistent values x flags; tests sample about twenty.",
  [REF], [("BibleRange.__init__", REF), ("BibleRange.whole_bible", REF)], ["BibleRange(...)", "BibleRange(start=, end=)"],
  "sampled; all omission patterns hit in every run"),
P("C06", "Iteration and counts agree with the verses that exist",
  "Iterating a range yields each of its verses exactly once in order (verse 0s included when VERSE_0 is in effect or the range "
  "has a verse 0 at an end), and verse_count is their number. chap_count and book_count are the numbers of chapters and books the "
  "verses lie in, with whole=True only of those entirely inside. A book's count is that of its range, a list's the sum over its ranges.",
  ["inputs", "configurations"], "all ranges, lists, books, flags", "Tests count a few ranges; ranges over any mixture of chapters, books and verse 0s under flag overrides are unbounded.",
  [REF], [("BibleRange.__iter__", REF), ("verse_count / chap_count / book_count", REF)], ["iter(range)", "verse_count()", "chap_count()", "book_count()"],
  "sampled plus every book and the whole Bible enumerated"),
P("C07", "Chapter and book boundary queries agree with the versification",
  "First/last verse and min/max chapter and verse queries, is-first/is-last-in-chapter/book, whole-chapter and whole-book tests, "
  "spans-start/end-of-chapter/book tests and the enclosing chapter and book ranges all agree with the verses that exist under "
  "the flags in effect. A chapter that does not exist is refused with InvalidReferenceError.",
  ["inputs", "configurations"], "all books, verses, ranges, optional chapter/book arguments, flags", "Each query is tested on one or two values; the verse-0 chapters and single-chapter books make the edges.",
  [REF], [("BibleBook / BibleVerse / BibleRange boundary methods", REF)], ["first_verse, last_verse, is_first_in_*, is_last_in_*, is_whole_*, spans_*, chap_range, book_range, next, prev"],
  "every book enumerated; verses and ranges sampled at and around boundaries"),
P("C08", "Splitting a range partitions it exactly where asked",
  "Splitting a range gives consecutive pieces that together are exactly the range, cut at every book boundary if by_book, at every "
  "chapter boundary if by_chap, and, counting from each such cut, after every num_verses verses, and nowhere else. The pieces "
  "are regrouped unless regroup=False, when they form one group, and the original range is unchanged.",
  ["inputs", "configurations"], "all ranges, option combinations, num_verses >= 1, flags", "Tests split three or four ranges.",
  [REF], [("BibleRange.split", REF)], ["range.split(...)"], "sampled with num_verses at exact multiples"),
P("C09", "Disjoint, adjacent, contains and surrounds mean what they say about verses",
  "For a range or list and a verse, range or list: is_disjoint holds exactly if they share no verse, contains (and `in`) exactly if "
  "every verse of the second is in the first. For a range, surrounds holds exactly if every range of the second lies strictly "
  "between its ends, and is_adjacent exactly if they are disjoint and a range of the second directly precedes or follows it in the "
  "sequence of verses (across a book boundary only with MULTIBOOK in effect).",
  ["inputs", "configurations"], "all pairs of references the flags allow, all flags", "Tests try one pair per relation; the interesting pairs touch at ends of chapters and books and at verse 0s.",
  [REF], [("is_disjoint, is_adjacent, contains, surrounds", REF)], ["the relation methods and `in`"], "sampled, second operand aimed at the ends of the first"),
P("C10", "Set operations on a range give exactly the right verses",
  "Union, intersection, difference and symmetric difference (methods and operators) of a range with a verse, range or list contain "
  "exactly the verses of the set operation. The result is in order, without overlaps, and with touching ranges joined (across a book boundary only "
  "with MULTIBOOK in effect).",
  ["inputs", "configurations"], "all ranges, all second operands, all flags", "Tests try a few operand pairs per operation in one book.",
  [REF], [("BibleRange.union / intersection / difference / sym_difference", REF)], ["| & - ^ and the methods on BibleRange"],
  "sampled against bitsets; operands aimed at each other's ends"),
P("C11", "Set operations on lists give exactly the right verses, consolidated",
  "Union, intersection, difference and symmetric difference of a list with a verse, range, list or itself contain exactly the "
  "verses of the set operation, as ordered, non-overlapping, joined ranges (across a book boundary only with MULTIBOOK in effect) in "
  "the groups that regrouping gives. The returning, in-place and operator forms agree, returning forms leave both operands unchanged, "
  "and the in-place operators leave the variable naming the same, updated list.",
  ["inputs", "configurations", "histories"], "all pairs of lists, groupings, flags", "Tests use two lists per operation; overlaps, nesting and adjacency among many ranges are combinatorial.",
  [REF, UTIL], [("BibleRangeList.*_update and operators", REF), ("merge", REF)], ["| & - ^ |= &= -= ^= and the methods on BibleRangeList"],
  "sampled against bitsets"),
P("C12", "Sorting and merging a list give its canonical form",
  "sort puts the ranges of a list in order, losing and inventing none; merge leaves exactly the ranges' verses as ordered, "
  "non-overlapping ranges with touching ones joined (across a book boundary only with MULTIBOOK in effect), for lists of any length. "
  "A list's range, chap_range and book_range are the smallest range of verses, chapters and books that includes every range in it.",
  ["inputs", "configurations"], "lists of any length and order, flags", "Tests sort and merge short lists; long lists and nested or duplicate ranges are not reached.",
  [REF, UTIL], [("BibleRangeList.sort / merge / range / chap_range / book_range", REF), ("GroupedList._merge_sort", UTIL)],
  ["sort(), merge(), range(), chap_range(), book_range()"], "sampled, including lists of thousands of ranges"),
P("C13", "Parsing a reference string gives what the string means",
  "Every well-formed reference string (books in any accepted spelling, chapters, verses, ranges, reversed ranges, implied books and "
  "chapters, either verse separator, any spacing, a trailing separator) gives exactly the ranges and groups it means by the documented rules: a bare "
  "number after the major list separator is a chapter, after the minor one it is what the previous number was, and in a "
  "single-chapter book a verse. If it names a verse or chapter that does not exist, has no book, or spans books without MULTIBOOK, "
  "BibleRefParsingError is raised with the position of the first reference that offends.",
  ["inputs", "configurations"], "all strings of the reference grammar, all flags", "About sixty sample strings are tested; combinations of implied context are unbounded.",
  [PARSER, REF], [("grammar in _recreate_parser", PARSER), ("_BibleRefTransformer", PARSER)], ["BibleRangeList(text)", "BibleRange(text)", "BibleVerse(text)"],
  "grammar-based generation against a reference interpreter"),
P("C14", "Any string either parses to sound ranges or is refused with a position in it",
  "Parsing any string whatever either gives a non-empty list of existing, ordered ranges that the flags allow, or raises "
  "BibleRefParsingError with 0 <= start_pos <= end_pos <= length of the string. No other exception escapes. Where a character cannot continue the text "
  "before it, the position is that character's; where the text ends too early, it is the end; for a name of no book, it is the name's.",
  ["inputs"], "all Unicode strings, all flags", "The space of malformed input is unbounded; tests have five error strings.",
  [PARSER, REF], [("_parse", PARSER), ("BibleRefParsingError", REF)], ["BibleRangeList(text)"], "token soup, mutation and random text"),
P("C15", "What a string parses to does not depend on what was parsed before",
  "The result of parsing a string is a function of the string, the flags in effect and the configured data: earlier parses (successful or "
  "failed, of any kind), string conversions and separator changes that were undone have no influence, and neither do parses running in other threads. "
  "In particular a string that names no book is refused, whatever was parsed before it.",
  ["histories", "schedules"], "all histories of parses, all interleavings of threads", "Tests parse strings once each, in a fixed order, from clean state.",
  [PARSER], [("_parse makes a transformer per parse", PARSER)], ["BibleRangeList(text) after other calls"], "sampled histories and thread schedules"),
P("C16", "Writing a reference and reading it back gives the same reference",
  "Under the same flags, the string of any verse, range or non-empty list, with any combination of the formatting options, parses back "
  "to the same verse, ranges and (unless preserve_groups is False) groups.",
  ["inputs", "configurations"], "all verses, ranges, grouped lists, option combinations, flags", "Round trips are tested on a few lists with default options.",
  [REF, PARSER], [("BibleVerse/BibleRange/BibleRangeList.str", REF), ("parser", PARSER)], ["str(), .str(...) then parse"], "sampled shapes x options"),
P("C17", "Strings honour every formatting option",
  "The string of a verse shows exactly the requested parts; the string of a range names its start and end by the largest unit "
  "(book, chapter, verse) fully inside the range, shows no more of the end than needed, and with force_start_verses shows the start verse whenever "
  "it shows the end verse. abbrev, alt_sep and nospace change only book names, verse separators and spaces; in lists the major separator "
  "stands exactly between groups and the minor one within; with preserve_groups False, the minor one stands just before further verses of the chapter "
  "in effect, the major one elsewhere. A range in a list leaves out the book in effect (whole books are always named) and, for verses of the chapter in effect, "
  "the chapter; starting with a whole chapter where only verses can follow, it is written with verses.",
  ["inputs", "configurations"], "all verses, ranges, grouped lists, options, flags", "Tests check the options one at a time on a few references.",
  [REF], [("str methods", REF)], ["str(), .str(...), repr()"], "sampled against a reference formatter"),
P("C18", "Regrouping keeps the ranges and matches the conventional string",
  "regroup changes no range and no order, its outcome does not depend on the previous groups, repeating it changes nothing, and the "
  "groups it makes are those read from the list's conventional string (preserve_groups=False): only further verses of the chapter in effect stay in a group.",
  ["inputs", "configurations"], "all lists, groupings, flags", "One list is regrouped in the tests.", [REF], [("BibleRangeList.regroup, str", REF)],
  ["regroup(), groups, str(preserve_groups=False)"], "sampled"),
P("C19", "A grouped list behaves as a list of groups under every history of operations",
  "After any sequence of operations a grouped list equals the nested Python list changed the same way: length, items forwards, backwards and "
  "by index, and groups (never empty); append and prepend join the outer group or start a new one, insert joins the group of the item at that index (the last "
  "group at the end), splitting at an item starts a group there, removals drop emptied groups, sort, reverse and clearing groups leave one group. Out-of-range indexes raise "
  "IndexError and missing values ValueError, leaving the list unchanged. Equality compares items and groups, and a list of Bible ranges accepts nothing else.",
  ["histories"], "all operation histories", "Tests exercise each operation from one or two starting lists; link and group-head upkeep fails only after particular sequences.",
  [UTIL, REF], [("GroupedList", UTIL)], ["the list API"], "model-based histories, full comparison after each step"),
P("C20", "An earlier group view shows a current group, or is refused",
  "A view of a group taken earlier either raises GroupViewError or shows exactly one of the list's current groups, with consistent length, items and indexing. Setting or deleting through "
  "it changes exactly that item of that group in the list. The view of a group that no operation has touched stays valid.",
  ["histories"], "all histories of list operations and views", "Tests use views immediately after taking them.", [UTIL], [("GroupView, GroupViewError", UTIL)],
  ["list.groups[i] kept across operations"], "model-based histories"),
P("C21", "A flags argument overrides the package-wide flags in every operation",
  "For every operation that takes flags, calling it with flags=f while the package flags are anything gives the same result or refusal as calling it "
  "without flags while the package flags are f, also for f = NONE; flags=None is the same as no argument. No operation changes the package flags.",
  ["configurations", "inputs"], "all flag-taking operations, operands, package flags, arguments", "Tests pass flags to a few methods with the package flags at their default.",
  [REF, INIT], [("_effective_flags and the passing-on of flags", REF)], ["every method with a flags argument"], "every operation enumerated on a fixed set of operands, plus sampled operands"),
P("C22", "Ranges that span books keep working when MULTIBOOK is not set",
  "With MULTIBOOK not in effect, existing ranges and lists that span books still iterate, count, split, compare, sort, merge, copy and convert to "
  "strings (readable with MULTIBOOK) correctly, and the relations and set operations on them hold of, or give, exactly the right verses, in order, without overlaps or "
  "touching ranges within one book. None of these is refused.",
  ["inputs", "configurations"], "all multi-book operands, all flags without MULTIBOOK", "Tests build multi-book ranges only with the flag set throughout.",
  [REF], [("set operations, merge, contains with MULTIBOOK unset", REF)], ["all operations"], "sampled across book boundaries"),
P("C23", "Converting between verse 0 and verse 1 changes only first verses",
  "verse_0_to_1 turns each verse 0 at an end of a verse, range or list into verse 1 of that chapter, and verse_1_to_0 each verse 1 of a chapter that has a verse 0 "
  "into verse 0; nothing else changes, whatever the package flags. Lists are changed in place with their groups kept, verses and ranges are not modified.",
  ["inputs", "configurations"], "all verses, ranges, lists, package flags", "Tests convert one Psalm.", [REF], [("verse_0_to_1, verse_1_to_0", REF)],
  ["verse_0_to_1(), verse_1_to_0()"], "every chapter enumerated; ranges and lists sampled"),
P("C24", "Changed separators are used for reading and writing; replaced ones are not",
  "After the separators have been set, in any order, to any five distinct punctuation characters, parsing and writing references work exactly as before with the new "
  "characters in the roles of the old. A character that is no longer a separator is not accepted as one.",
  ["configurations", "inputs", "histories"], "all assignments of distinct punctuation characters, setting orders, references", "Tests change one separator set once.",
  [DATA, PARSER, REF], [("separator setters", DATA), ("_recreate_parser", PARSER)], ["bible_data().*_sep", "parse and str"], "sampled configurations"),
P("C25", "Replaced Bible data is what everything follows",
  "After the book order, versification, verse-0 chapters or names in the Bible data have been replaced, in any order of setting, existence, ordering, boundaries, arithmetic, iteration, "
  "counts, splitting, set operations, parsing and strings all follow the new data and nothing of the old.",
  ["configurations", "inputs"], "all Bible data of the documented format", "Tests run with the default data.",
  [DATA, REF, PARSER], [("BibleData setters", DATA)], ["bible_data().book_order / max_verses / verse_0s / name_data, then the whole API"], "small invented Bibles, dense in boundaries"),
P("C26", "Operations leave operands, flags and data alone; results stand on their own",
  "No operation changes its operands (except the list an in-place operation is called on), the package flags or the Bible data, and repeating it gives the same result; an object that has been used answers, under any flags, as a fresh equal one does. "
  "Changing a returned list later does not change the operands, nor the other way round.",
  ["inputs", "histories"], "all operations and operands, including a list with itself", "Tests look at results, not at operands afterwards.",
  [REF, UTIL], [("copying in union/intersection/difference...", REF)], ["operands before and after"], "sampled over the table of all operations"),
P("C27", "The default Bible is the 66-book canon with its standard versification",
  "With the default data there are the 66 books of the Protestant canon in their usual order under their usual titles and abbreviations, with the King James versification: "
  "1189 chapters and 31102 verses, each chapter ending at its standard last verse. With VERSE_0 the 116 Psalms with a superscription, and no other chapters, begin with verse 0.",
  ["inputs"], "every book, chapter and verse number", "Tests touch a few dozen chapters.", [DATA], [("default_book_order, default_max_verses, default_verse_0s, default_name_data", DATA)],
  ["BibleVerse(...), whole_bible(), counts"], "every chapter enumerated against a table held by the check"),
P("C28", "A list is what it was built from, and has no memory of how it got there",
  "A list of ranges built from text, ranges as arguments, any iterable of ranges, nested lists or tuples, a group or another list holds exactly those ranges "
  "and groups; anything else in it is refused with TypeError. After any history of list, group, set, sorting and conversion operations a list behaves, in "
  "every later operation, query and string, and as an operand, exactly as a list freshly built with the same ranges and groups.",
  ["inputs", "histories"], "all ways to build a list; all histories of operations on lists that are operands of each other",
  "Tests call one operation on a freshly parsed list; links left wrong by one operation only show in a later one.",
  [REF, UTIL], [("BibleRangeList.__init__", REF), ("GroupedList links and group heads", UTIL)], ["BibleRangeList(...), then the whole API of lists"],
  "histories of up to 21 operations on two lists, differential against fresh lists"),
]

if __name__ == "__main__":
    sys.path.insert(0, str(HERE))
    with open(HERE / "properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        check = importlib.import_module(f"vp.checks.{p['id'].lower()}").CHECK
        assert check.pid == p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": "property-based testing (Hypothesis and a choice-sequence random driver) against a reference model",
            "level": "exploration",
            "level_note": f"Held on every case generated; {p['note']}. Trusts the reference model in vp/ and, where listed in the evidence, "
                          f"its assumptions."})
    (HERE / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, lark'", "checks": checks, "not_applicable": [],
        "notes": "Pure Python: each check imports /repo/src afresh, without bytecode. No hooks."}, indent=1) + "\n")
