"""Single source of properties.jsonl and MANIFEST.json: run `python3 lib/meta.py` after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
D = "src/icl_core/src/"


def prop(pid, title, statement, over, qtext, tests, files, mech, technique, note, level="model_checking", state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=[D + f for f in files],
                  mech=[{"name": n, "where": D + w} for n, w in mech], technique=technique, note=note, level=level, state=state, hook=hook))


MC = "TLA+ specification checked with TLC; every model transition replayed on the real code, recorded traces validated by TLC"
TV = "TLA+ specification; TLC validates traces recorded from the real code under generated inputs and histories"
TS = "TLA+ specification checked with TLC; real threads run under a controlled scheduler, TLC searches a linearisation of every recorded trace"

# --------------------------------------------------------------------------------------------- containers and helpers
prop("C01", "A ring buffer is a bounded FIFO through every mix of operations",
     "A ring buffer of capacity c always holds at most c elements and yields exactly the elements stored and not yet removed, oldest first, by reading, front/back access, indexing and iteration alike. A write to a full buffer is refused and changes nothing unless overwriting was asked for, in which case exactly the oldest element is lost; reading, skipping one element or accessing an index outside of the stored elements throws and changes nothing. Skipping several elements drops at most as many as there are; changing the capacity keeps the latest elements that fit, in order; raw access through the array ranges with a subsequent fake write, copying and assigning preserve contents and order.",
     ["histories", "inputs"], "every capacity (0 included) and every sequence of operations", "The tests run four fixed histories on two capacities; the wrap-around positions of the read and write indices are a product space they sample in a handful of points.",
     ["icl_core/RingBuffer.h", "icl_core/RingBuffer.hpp"], [("RingBuffer", "icl_core/RingBuffer.h")], MC,
     "All histories of the abstract buffer for capacities 0..3 in the model, every one of its transitions replayed; random histories up to capacity 66.")
prop("C02", "Union-find always represents the partition generated by the merges",
     "Two elements have the same representative exactly when a chain of unions and additions connects them, and a representative always belongs to the set it represents. Growing the structure adds singletons and, like asking for representatives, never changes the partition of the existing elements; an index out of range throws without effect.",
     ["histories", "inputs"], "every sequence of set creations, unions and look-ups", "The tests merge one fixed set of elements in one fixed order.",
     ["icl_core/UnionFind.h"], [("UnionFind", "icl_core/UnionFind.h")], MC,
     "All merge histories over up to 5 elements in the model, replayed; random histories with up to 60 elements.")
prop("C03", "A key/value directory behaves as a map with regular expression queries",
     "Inserting, looking up and testing keys behaves as on a map from text to values; inserting an existing key replaces its value, and the result of an insertion tells whether the key was new. A query yields exactly the entries whose whole key matches the expression, each exactly once and with the right captured groups, and afterwards stays at its end.",
     ["histories", "inputs"], "every history of insertions and queries, every key set and expression", "No test covers the directory or its query iterator.",
     ["icl_core/KeyValueDirectory.h", "icl_core/KeyValueDirectory.hpp"], [("KeyValueDirectory, KeyValueDirectoryIterator", "icl_core/KeyValueDirectory.hpp")], MC,
     "The specification has its own matcher for the generated expression family; the text of a query outside this family is not generated.")
prop("C04", "Sequence numbers order any two values at most half the range apart",
     "Incrementing a sequence number (prefix or postfix) steps through minimum .. maximum-1 cyclically: the value reaching the declared maximum becomes the minimum. Of two different numbers of which one is reached from the other by less than half a cycle of increments, the one reached first is the lower one for all six comparison operators, also across the wrap-around and for every declared range; equality is equality of the values.",
     ["inputs"], "every declared range and every pair of values", "The tests compare a few hand-picked values of one type.",
     ["icl_core/SequenceNumber.h"], [("SequenceNumber", "icl_core/SequenceNumber.h")], MC,
     "Several template instances covering narrow, wide and offset ranges; complete pair tables for the small ones.")
prop("C05", "Time spans and time stamps obey exact nanosecond arithmetic",
     "Every time span and time stamp denotes one exact count of nanoseconds, in a normal form whose sub-second part is below one second and never of the opposite sign to the seconds. Construction and conversion from and to seconds, milli-, micro- and nanoseconds and system time structures, addition, subtraction, difference, absolute value and the scaling of a span are the exact (documented rounding) operations on that count. All six comparisons agree with the order of the counts.",
     ["inputs"], "every pair of values in the representable range and every factor", "The tests check a dozen literal values; carries and borrows between the seconds and the sub-second part depend on the sign of both operands.",
     ["icl_core/TimeBase.cpp", "icl_core/TimeSpan.cpp", "icl_core/TimeStamp.cpp", "icl_core/TimeBase.h", "icl_core/TimeSpan.h", "icl_core/TimeStamp.h"],
     [("normalizeTime", "icl_core/TimeBase.cpp"), ("operators", "icl_core/TimeSpan.cpp"), ("operators", "icl_core/TimeStamp.cpp")], TV,
     "The specification computes with its own big numbers; inputs are products of boundary values (both signs, carries, extremes of the range) plus random values. The sub-second argument of the TimeStamp constructor is below 2^31.")
prop("C06", "Formatted time stamps denote the stamped instant and parse back to it",
     "Formatting a time stamp in any of the offered ISO 8601 forms yields the calendar date and time of that instant (in UTC or in the local zone), and reading back the basic UTC form gives the same instant to the nanosecond. A truncated text (date only, no sub-second part) denotes the start of the named interval, and printing a time span shows its amount in the unit printed.",
     ["inputs"], "every instant of the years 1970 to 9999 and every accepted text", "The tests parse and print a few literal dates; leap years, century rules and day boundaries are not covered.",
     ["icl_core/TimeStamp.cpp", "icl_core/TimeSpan.cpp"], [("fromIso8601BasicUTC, formatIso8601*", "icl_core/TimeStamp.cpp")], TV,
     "The specification has its own proleptic Gregorian calendar.")
prop("C07", "A resource URI splits into scheme, authority, path, query and anchor",
     "Parsing a resource text splits it into scheme, user, host, port, path, query parameters and anchor exactly as its grammar prescribes, rejects texts outside the grammar, and never reads outside the text. Building a text from these parts and parsing it again yields the same parts.",
     ["inputs"], "every text of the grammar and every mutation of one", "The tests parse a fixed list of well-formed texts.",
     ["icl_core/SchemeParser.h", "icl_core/SchemeParser.cpp"], [("SchemeParser", "icl_core/SchemeParser.cpp")], TV,
     "Sentences derived from the grammar and mutations of them.")
prop("C08", "Text helpers split, join, trim, pad and convert without loss",
     "Splitting a text at a delimiter and joining the pieces again with it restores the text, and trimming removes exactly the leading and trailing blanks. Padding on the left or right fills a text that is too short to exactly the asked width with the pad character and leaves longer ones alone, case conversion changes exactly the ASCII letters, and turning a value (integer, floating point, truth value) into text gives its decimal text.",
     ["inputs"], "every text, delimiter and width", "The tests use a few literals; empty texts and delimiters at the edges are not covered.",
     ["icl_core/StringHelper.cpp", "icl_core/StringHelper.h"], [("StringHelper", "icl_core/StringHelper.cpp")], TV,
     "All short texts over a small alphabet plus random long ones.")
prop("C09", "Small containers and helpers match their mathematical meaning",
     "A searchable stack is a LIFO that can be walked in both directions and whose search finds the lowest equal element; a two-dimensional array stores independent cells in row order, keeps them through copies and resizing as documented, and a vector wrapper behaves as its vector. The relation of two sets, and setting, clearing and testing bits, compute the mathematical operation, and converting an enumeration name to its value finds the entry of the description table (with either kind of end marker) and reports unknown names without touching the target.",
     ["histories", "inputs"], "every history of calls and every argument", "There are no tests for most of these helpers.",
     ["icl_core/SearchableStack.h", "icl_core/Array2D.h", "icl_core/VectorWrapper.h", "icl_core/SetHelper.h", "icl_core/BitfieldHelper.h", "icl_core/EnumHelper.cpp"],
     [("SearchableStack", "icl_core/SearchableStack.h"), ("Array2D", "icl_core/Array2D.h"), ("string2Enum", "icl_core/EnumHelper.cpp")], MC,
     "The stack's model is exhaustive for small depths; the pure helpers are validated call by call.")
prop("C10", "Scope guards run exactly once; finalised values never change; type tokens",
     "The function of an AtScopeEnd guard runs exactly once, when the scope of the guard ends (normally or by an exception), unless the guard is disabled at that moment, and guards of nested scopes run innermost first. A Finalizable accepts assignments until it is finalised; afterwards every assignment throws and its value never changes; a copy takes over the finality, an assignment only the value. Two ExpectedType tokens are equal, and is<T>() holds, exactly when they denote the same type.",
     ["histories"], "every nesting and order of scope ends, every history of assignments, every pair of types", "No test covers these classes, in particular exceptional ends of scopes.",
     ["icl_core/AtScopeEnd.h", "icl_core/Finalizable.h", "icl_core/ExpectedType.h"], [("AtScopeEnd", "icl_core/AtScopeEnd.h"), ("ExpectedType, ExpectedTypeIs", "icl_core/ExpectedType.h"), ("Finalizable", "icl_core/Finalizable.h")], MC,
     "All short histories of the model are replayed.")

prop("C11", "Depth buffers keep the best value per cell; stamped data its header",
     "Each cell of a depth buffer holds the best of the values offered to it since it was emptied, by the order the buffer was given, and an offer reports whether it was taken. A stamped datum carries its value and its header (frame, time stamp, sequence and item number) through construction, copies and every way of access, and items not given have their documented defaults.",
     ["histories"], "every history of offers and resets, every way of construction", "The tests only compile the stamped type; the depth buffer has none.",
     ["icl_core/ZBuffer.h", "icl_core/DataHeader.h"], [("ZBuffer::update", "icl_core/ZBuffer.h"), ("Stamped", "icl_core/DataHeader.h")], MC,
     "All histories over two cells and three values in the model, replayed; longer random ones.")

exec(open(os.path.join(V, "lib", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "lib", "meta_more.py")) else None


def main():
    hooks = []
    out = open(os.path.join(V, "properties.jsonl"), "w")
    man = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged and interpose library functions at link time", "source_commits": hooks},
           "checks": [], "not_applicable": []}
    for p in sorted(P, key=lambda p: p["pid"]):
        a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": D + w} for n, m, w in p["state"]]
        out.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                              "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["tests"], "anchors": a}) + "\n")
        if os.path.exists(os.path.join(V, "checks", p["pid"] + ".py")):
            man["checks"].append({"property": p["pid"], "quick_cmd": "bin/check %s --tier quick" % p["pid"],
                                  "thorough_cmd": "bin/check %s --tier thorough" % p["pid"],
                                  "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["pid"], "reason": NA.get(p["pid"], "The check for this property is not built yet.")})
    out.close()
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(man["checks"]), "claimed")


NA = globals().get("NA", {})
if __name__ == "__main__":
    main()
