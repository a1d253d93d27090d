#!/usr/bin/env python3
"""Writes sections 3 and 6 of DESIGN.md from the harnesses, the property list,
the notes below and seeded/*/meta.json (run by hand, after changing any)."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
suites = {}; harness = {}; engine = {}; variant = {}
for f in sorted(glob.glob(ROOT + "/h/*.cpp")):
    t = open(f).read(); b = os.path.basename(f)
    fl = re.search(r"// FLAVOR: (\w+)", t).group(1)
    v = re.search(r'#define VP_AS "(C\d+)"', t)
    if v:
        i = v.group(1); inc = re.search(r'#include "(\w+\.cpp)"', t).group(1)
        variant.setdefault(i, []).append((b, re.search(r"// DEFS: (.*)", t).group(1), inc, "")); harness.setdefault(i, set()).add(b); engine.setdefault(i, set()).add(fl)
    for m in re.finditer(r'^MC_SUITE\((C\d+), (\w+), \d+, "((?:[^"\\]|\\.)*)"\)', t, re.M):
        suites.setdefault(m.group(1), []).append((m.group(2), m.group(3))); harness.setdefault(m.group(1), set()).add(b); engine.setdefault(m.group(1), set()).add(fl)
N = {}
def n(p, oracle, note=""): N[p] = (oracle, note)
n("C01", "per resource: the harness's free function records frees, the shadow memory any touch of a freed handle or resource; at the end of a schedule every resource replaced and released has been freed once, the active one not until the manager is freed", "Five narrow known findings (see 5): the counter of a handle is reached through a pointer that is not yet protected. Everything else is still reported, because the explorer goes on past them by schedule.")
n("C02", "linearisation: after the last replacement finished an acquire gets its resource; every replacement's resource is active once or superseded and freed; the number of frees equals replacements", "Schedules that run into the C01 findings are abandoned (they are C01's).")
n("C03", "set of free items and holders kept by the harness; exhaustion only if at some instant of the call all items were held", "The version number counts, so ABA is decided for histories of every length in `aba` (one operation interrupted for an unbounded time).")
n("C04", "reference map from key to what the loader gave; the content of entries in use is re-read after every operation", "Breadth first over the real cache's states, canonicalised by a digest of the heap graph reachable from the cache (pointers renamed in visiting order). A first version used the model's state as key and missed seeds that corrupt internal links: lesson applied to all breadth first suites.")
n("C05", "reference LRU per shard with use counts: which key is evicted, hits and misses, which get must fail for lack of a free entry")
n("C06", "every get returns the entry of its key; counters equal what happened; nobody stays blocked; after all releases the whole capacity can be had again")
n("C07", "std::map; after each operation find of every key, iteration order and the balance condition as far as it shows (depth of find)", "States are trees up to isomorphism; since insert and delete only depend on the shape, every history over the key set is covered.")
n("C08", "the source's items as bytes; item objects must hold what they got until released; leaks and double frees by the balance")
n("C09", "a failed get has an error status, no pointer and gives nothing back; every later get of every key works; balance of memory, handles and cache entries")
n("C10", "as C08 per thread; nobody blocked at the end; all handles and entries free afterwards")
n("C11", "linear search in the model; the comparer records which indexes it saw (all inside the bounds), items held at the end of each step", "`wide` uses computed collections with 2^32 - 1 items and bounds the number of comparisons by 40.")
n("C12", "the engine of h/engine.hpp implements the documented extension contract; after each operation: which version is active, what each holder reads, status classes, number of live data sets, blocks and files")
n("C13", "as C12 under all schedules; a user never sees a mixture of versions or freed memory", "The C01 handle races are pruned here.")
n("C14", "the file system afterwards against the bytes: SUCCESS iff the destination is exactly the source", "Faults include short writes (part of the block is written, then failure), which the seed s14-partial-write made us add.")
n("C15", "directories listed before and after, byte comparison of candidates with the master", "Runs in a scratch directory made for each execution; all paths given to the library are inside it.")
n("C16", "string functions in the harness; each buffer is a heap block of exactly its size, so any overrun is an ASan report")
n("C17", "sum of the sizes of live tracked blocks and its running maximum", "Scoped to the time once tracking has been set up (before that the library documents nothing).")
n("C18", "which bytes exist; ASan for every byte of the buffer's heap block; a refused advance does not move")
n("C19", "list of pairs; filter by prefix bit in the harness")
n("C20", "set of lower case names built by splitting at the separator in the harness")
n("C21", "concatenation built by the harness from prefix precedence and segments", "")
n("C22", "independent parse in the harness", "With prefixed overriding on, unprefixed names are accepted too (the code's documented evidence handling does this), so neither behaviour alarms.")
n("C23", "set intersection in the harness, property order, evidence of each property; every name reference is given back", "")
n("C24", "the records the harness put into the collections", "A profile id of 0 and an empty offset collection may be answered with an error (documented status) or nothing.")
n("C25", "inet_pton semantics written out in the harness", "Lenient on malformed text: the parser may refuse or ignore; what it must not do is write outside, leave bytes unset, or misread good text.")
n("C26", "tolower loops in the harness, against a heap block of exact size")
n("C27", "the bits: float -> storage -> float", "Infinity uses the library's own layout convention, NaN only has to stay NaN. Thorough runs all 2^32 values.")
n("C28", "completeness (no placeholder left, text present, file name inserted), distinct text per status, no shared buffers")
n("C29", "split of the content at LF / CRLF", "")
n("C30", "reference reader of the documented subset (key: value, quoted values, --- and ...)", "`any` accepts what the documentation leaves open but demands that it does not depend on the buffer size.")
n("C31", "vector of items with a release count per item")
n("C32", "the set of outcomes an auto-reset event that starts set allows, computed by an explicit state search over an abstract event for the same scripts", "This is the one model in the set; it is bound to the code by comparing the outcome sets: each outcome of the real code must be one of the model's, including who stays blocked.")
n("C33", "the values put in, kept as plain standard library values", "Required properties are judged for comma separated texts, empty parts are not counted; setting a reason after a value is not judged.")
n("C34", "the same operation without faults; balance of memory and files", "Tolerances: data sets report the status of the step that failed, messages may become generic, IP lists see finding.")
n("C35", "that of the property each suite was written for", "The items of a MEMORY_ONLY collection are pointers into the data and are not given back, so balance of items is not judged there, that of memory is. What C01, C02 and C13 say about threads does not apply.")
n("C36", "the contents of the directories after every death and after both processes are done", "A process is the library called in the harness: it dies by leaving the call from the hook before a device operation, its files closed and its memory forgotten, or waits there (in a thread which runs only while the other waits) for the other one. Only processes of this kind have files of the scratch directory open, so `/proc` shows just them. A copy which is found, and then cleaned up by another process before its finder opens it, is not judged: the interface has no way to hold it.")
n("C37", "the text of all answers of the same call sequence run alone before the threads start", "Call sequences of 22 kinds cover every part with state that a caller could mistake for its own. An access is a scheduling point when learning runs saw two threads touch the same address, one of them writing, so a library that shares nothing has few schedules and one that hides a static buffer has many. The sched flavour is built without optimisation so that such a buffer stays in memory.")
def section3():
    s = ["For each property: engine and harness, what is enumerated (one line per suite; bounds are in the text, the thorough bound in parentheses), the oracle, remarks. Sizes and times of the last run are in evidence/Cnn.json. No suite is ever cut short silently: a suite that hits its execution limit is reported as `capped` and fails the check. Quick checks take 1 to 60 s, thorough ones up to about 15 minutes.", ""]
    for p in props:
        i = p["id"]; o = N.get(i, ("", ""))
        s += ["### %s %s" % (i, p["title"]), "", "Engine: %s; harness `%s`." % (" and ".join("schedules (`sched`)" if e == "sched" else "sequential (`seq`)" for e in sorted(engine[i])), "`, `".join(sorted(harness[i]))), ""]
        s += ["* `%s` with %s: the sequential suites of `%s`, at one step less depth where they are large" % x[:3] for x in variant.get(i, [])]
        s += ["* `%s`: %s" % x for x in suites.get(i, [])] + ["", "Oracle: %s." % o[0]] + ([o[1]] if o[1] else []) + [""]
    return "\n".join(s)
def section6():
    s = ["Each was written from the property's text and the code, confirmed to pass the 514 stable tests and to fail its own demonstration. All are caught by the quick check of their property.", "", "| id | property | caught by | breaks | needs |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(f)); s.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m.get("caught_by", "quick " + m["property"]), m["what_it_breaks"], m["needs"]))
    return "\n".join(s) + "\n"
t = open(ROOT + "/DESIGN.md").read()
for k, v in (("PROPERTIES", section3()), ("SEEDS", section6())):
    a, b = "<!-- %s -->" % k, "<!-- /%s -->" % k
    t = t[:t.index(a) + len(a)] + "\n" + v + t[t.index(b):]
open(ROOT + "/DESIGN.md", "w").write(t)
