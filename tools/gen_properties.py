#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as source so the file stays consistent."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A managed resource is never freed while in use and is freed exactly once",
  "Once a handle to a managed resource has been acquired, the resource behind it is not freed until that handle is released, however many replacements or a free of the manager happen meanwhile. Every resource given to the manager is freed exactly once: after it is no longer the active one and its last user has released it, and at the latest once the manager is freed and every handle released.",
  ["schedules", "histories"], "every interleaving of threads that acquire, release, replace and finally free, and every sequential history of those operations",
  "ResourceManagerTests runs 8 threads in one direction at a time (all acquire, or all release) and lets the OS choose a handful of schedules; acquire/release racing with replace at each atomic step is never forced.",
  ["resource.c", "resource.h", "threading.h"],
  [("double width compare-and-swap of (self pointer, use count)", "resource.c IncUse/DecUse"), ("self pointer nulled before free", "resource.c DecUse"), ("swap of manager->active", "resource.c Replace")],
  ["the freeResource callback", "fiftyoneDegreesResourceHandleIncUse / DecUse results"],
  [("counter", "use count and self pointer of a handle", "resource.h"), ("active", "current handle of the manager", "resource.h")])

p("C02", "A replacement of a managed resource is never lost and takes effect at once",
  "When a replacement has returned, every handle acquired later refers to that resource or to one installed after it, and the handle reported to the replacing caller is the one that was installed. Concurrent replacements all take effect one after the other: none is dropped, and the use counts reported by handles equal the acquisitions not yet released.",
  ["schedules"], "every interleaving of two or three threads that replace and acquire on one manager",
  "The tests replace from one thread only; two concurrent replacements, where a compare-and-swap fails, never occur.",
  ["resource.c", "resource.h"],
  [("retry loop around the swap of the active handle", "resource.c Replace")],
  ["fiftyoneDegreesResourceHandleIncUse", "newResourceHandle out-parameter", "fiftyoneDegreesResourceHandleGetUse"])

p("C03", "Pool items have one holder each, are never lost, and exhaustion is real",
  "An item got from a resource pool is held by nobody else until it is released, whatever the interleaving of gets and releases. Every released item can be got again, a get fails (returning null with the insufficient-handles status) only if at some moment during the call all items were held, and freeing the pool frees each created resource exactly once, including when creation failed part way.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of get/release by up to three threads, every sequential get/release history, every point at which resource creation fails",
  "PoolTests is single threaded with one or two gets; the ABA-prone compare-and-swap loops are never interleaved and creation never fails.",
  ["pool.c", "pool.h"],
  [("lock-free stack of indexes with an ABA counter", "pool.c ItemGet/ItemRelease"), ("null marker item at index 0", "pool.c PoolInit")],
  ["fiftyoneDegreesPoolItemGet / Release", "the create and free callbacks"])

p("C04", "A loading cache always returns the right value and never recycles one in use",
  "For any history of gets, releases and loader failures, a cache get returns the value the loader produces for exactly the requested key. A value that has been got and not yet released is neither overwritten, evicted nor reloaded, and other gets of its key return the same entry.",
  ["histories", "fault_sequences"], "every reachable cache state over small key sets, capacities and shard counts, with every operation and every loader outcome from each state; all key values at the hash extremes",
  "CacheTests runs a few fixed scenarios; histories that mix pinned entries, evictions and failed loads, and keys at the limits of the hash (negative, minimum integer), are not reached.",
  ["cache.c", "cache.h", "tree.c"],
  [("reference count per node, unlinking from the LRU list while in use", "cache.c getFromCache/CacheRelease"), ("red-black tree of keys per shard", "cache.c, tree.c")],
  ["fiftyoneDegreesCacheGet / Release", "loader callback arguments"])

p("C05", "The cache evicts the least recently used free entry and keeps its capacity",
  "Within each shard, a get of a key that is held calls no loader, and a miss recycles the entry whose last release is oldest among those not in use, so as many distinct released keys stay retrievable without loading as the shard has entries. A get fails for want of a free entry only when all the shard's entries are in use, loads that failed do not use capacity up, and the hit and miss counters count exactly the gets that found their key in the cache and those that did not.",
  ["histories", "fault_sequences"], "every reachable cache state over small key sets and capacities, including histories with failed loads",
  "CacheTests checks one eviction order and no failed load followed by continued use.",
  ["cache.c", "cache.h"],
  [("doubly linked LRU list", "cache.c"), ("hits/misses interlocked counters", "cache.c")],
  ["loader calls seen per get", "cache->hits / cache->misses"])

p("C06", "Concurrent use of a cache is linearizable, deadlock free and leak free",
  "Threads that get and release entries of the same cache always receive values for their own keys, never see an entry they hold being changed, and always finish (no deadlock or lost wake-up), for every interleaving. When all have released, the full capacity is available again and the hit and miss totals equal the number of gets.",
  ["schedules", "fault_sequences"], "every interleaving (within the preemption bound) of two or three threads with one to three operations on colliding keys and shards, including failing loaders",
  "CacheTests starts threads freely and observes whichever schedules the OS gives; a specific preemption inside get or release is not forced.",
  ["cache.c", "cache.h", "threading.c"],
  [("one mutex per shard", "cache.c"), ("interlocked active count", "cache.c CacheRelease")],
  ["fiftyoneDegreesCacheGet / Release under all schedules"])

p("C07", "The balanced tree is an exact ordered map for every insert/delete history",
  "After any history of insertions and deletions of distinct keys, finding a key returns the node inserted under it and nothing otherwise, iteration visits every node present exactly once, and the count matches. The tree stays balanced (height at most twice the binary logarithm of its size) and ordered, and deleting or clearing touches only nodes of that tree.",
  ["histories"], "every reachable tree shape over a bounded key set, and every insert, delete, find and iterate from each of them; keys at the 64 bit extremes",
  "The tree has no tests of its own; the cache tests reach few of the rebalancing cases.",
  ["tree.c", "tree.h"],
  [("red-black insert and delete rebalancing", "tree.c")],
  ["fiftyoneDegreesTreeFind / TreeIterateNodes / TreeCount"])

p("C08", "Every storage configuration of a collection returns the same items",
  "For every legal configuration (wholly in memory, partly loaded, cached, read from file, and combinations, created from memory or from file) getting an index or offset yields exactly the bytes the data source holds for it, for fixed width and variable width items. An index or offset beyond the data is reported as an error with a null result in every configuration, an item object can be reused for any sequence of gets, reading an item as an integer gives the number held there and keeps nothing, and after releasing items and freeing the collection all memory and file handles are returned.",
  ["configurations", "inputs", "histories"], "all combinations of loaded/capacity/concurrency in a small range, all indexes and sequences of gets up to the bound, several element layouts, both sources",
  "CollectionTests samples a few named configurations (high, low, balanced) on one string collection; boundaries between the loaded part and the rest and out-of-range items are not covered per configuration.",
  ["collection.c", "collection.h", "cache.c", "data.c", "file.c", "pool.c"],
  [("chain of collections each serving part of the range", "collection.c createFromFile"), ("loader cache over file reads", "collection.c"), ("size and bound checks", "collection.c get methods")],
  ["collection->get / release", "fiftyoneDegreesCollectionGet* helpers", "allocator and open-file balance"])

p("C09", "Collection reads survive I/O and memory faults without damage",
  "If a seek, read, file handle or memory request fails while a collection is created or an item is fetched, the call reports an error status and no item, memory and handles are not leaked or freed twice, and items already held stay intact. Once the fault has gone, the same collection and the same item object work again and return correct data, with all capacity and handles still available.",
  ["fault_sequences", "configurations"], "every single and every pair of fault points (each fopen, fseek, fread short or failing, and each allocation) during creation and a short sequence of gets, for every storage configuration",
  "No test injects an I/O or allocation failure into collections.",
  ["collection.c", "cache.c", "file.c", "pool.c", "data.c"],
  [("exception propagation and handle release on error paths", "collection.c, file.c")],
  ["status codes", "allocation and FILE balance", "later gets"])

p("C10", "Concurrent readers of any collection get correct items and always finish",
  "Threads that get and release items of the same file based or cached collection each receive the right bytes for their own request, whatever the interleaving, as long as no more threads than the configured concurrency use it at a time. No item held by a thread changes, no reader blocks forever or fails for want of a handle or cache entry, and all file handles and entries are available afterwards.",
  ["schedules", "configurations"], "every interleaving within the preemption bound of two or three readers over cached, partly loaded and file collections",
  "Existing multi-threaded tests depend on OS scheduling and mostly read shared memory collections.",
  ["collection.c", "cache.c", "pool.c", "file.c"],
  [("file handle pool", "file.c/pool.c"), ("sharded loading cache", "cache.c")],
  ["collection->get / release under all schedules"])

p("C11", "Binary search over a collection finds exactly the items that are there",
  "For every sorted collection content, bounds and target, searching returns the index of a matching entry inside the bounds when one exists and a negative result when none does, and fills the item with it. The search terminates within the bounds, and every item fetched on the way is released exactly once, also when the comparison or a read reports an error.",
  ["inputs", "fault_sequences"], "all sorted contents up to a bounded size, all lower/upper bounds, all targets, all failure positions",
  "Search is only exercised through a handful of lookups.",
  ["collection.c", "collection.h"],
  [("fiftyoneDegreesCollectionBinarySearch", "collection.c")],
  ["returned index", "get/release calls made on the collection"])

p("C12", "A failed data set reload leaves the old data set in service and leaks nothing",
  "When reloading a data set from a file or from memory fails at any point, the failure status is returned and users keep getting the data set that was active before, unchanged. When it succeeds, the status is success, later users get the new data set with the same configuration and selection of properties as before, and the old one is freed exactly once when its last user releases it; in every case all memory not owned by a data set in service or in use is returned.",
  ["fault_sequences", "histories"], "every fault point (open, read, allocation, initialiser failure) in every reload history up to the bound, with and without users holding the old data set",
  "Reload has no unit test in this repository (it is used by dependent engines) and no failure is injected.",
  ["dataset.c", "dataset.h", "resource.c", "file.c"],
  [("build replacement completely before ResourceReplace", "dataset.c"), ("free callback on failure", "dataset.c")],
  ["fiftyoneDegreesDataSetGet", "status returned", "free callback count"])

p("C13", "Reloads concurrent with users and each other are safe",
  "Threads that get and release the active data set while other threads reload it always hold a complete data set that stays valid until they release it, for every interleaving. After all threads finish, exactly one data set is active, it is one whose reload reported success, and every other has been freed exactly once.",
  ["schedules"], "every interleaving within the preemption bound of readers and one or two reloading threads",
  "No test reloads a data set while it is used.",
  ["dataset.c", "resource.c"],
  [("resource manager reference counts", "resource.c"), ("DataSetGet/Release", "dataset.c")],
  ["fiftyoneDegreesDataSetGet / Release under all schedules"])

p("C14", "File reads, writes and copies are complete or reported as failed",
  "When writing a byte array to a file, reading a file into memory or copying one file to another reports success, the destination holds exactly the source's bytes, for every file size. When any underlying open, read, write, flush, close, seek or memory request fails, the call reports a failure and closes every file it opened; a failed copy leaves no destination file behind and a failed read no buffer. Making a directory and deleting a file do exactly that and nothing else, or report that they did not.",
  ["fault_sequences", "inputs"], "every single fault (open, short read or write, error, seek, tell, flush, close, allocation) at every call, for file sizes around the buffer boundaries",
  "FileTests only covers success and missing files; write, flush and close failures (disk full) are never produced.",
  ["file.c", "file.h"],
  [("chunked copy loop", "file.c"), ("status mapping of errno", "file.c")],
  ["returned status", "destination contents", "open FILE balance"])

p("C15", "Temporary copies are created, found, reused and removed exactly as promised",
  "A temporary file is created as a full copy in the first of the given directories that can be written, under a name which no file there had, its path is reported, and no other directory receives one. An existing temporary file is offered for reuse only if it is in one of the given directories, carries the master's base name and has the same content; cleaning up removes every such file that no process has open, in every given directory, counts them, and never removes the master file or any other file.",
  ["configurations", "histories", "fault_sequences"], "every arrangement of up to three directories (writable, missing, failing) and of files in them (copies, altered copies, other names, the master itself, open or not)",
  "FileTests uses one directory and one temporary file at a time.",
  ["file.c", "file.h"],
  [("directory scan with base name and content comparison", "file.c"), ("createTempFileWithPaths", "file.c")],
  ["directory contents before and after", "returned paths, counts and status"])

p("C16", "File path and name helpers are exact and never overrun their buffers",
  "Taking the file name, base name or combining a directory with a file name returns exactly the documented part of the path for every path shape (no directory, dots in directory names, trailing or repeated separators, no extension). Every helper writes only inside the length it was given, terminates what it writes, and reports insufficient memory exactly when the result does not fit.",
  ["inputs"], "all paths up to a bounded length over an alphabet of separators, dots and letters; all buffer lengths around the needed one",
  "Tests use a few well formed paths and ample buffers.",
  ["file.c", "file.h"],
  [("separator and extension scanning", "file.c")],
  ["returned strings and status", "bytes outside the buffer"])

p("C17", "Memory tracking accounts exactly for every allocation in any history",
  "Once tracking has been set up the current figure equals the bytes allocated since the last reset and not yet freed (aligned requests counted at their requested size or rounded up to the alignment) and the maximum equals the highest value the current figure reached, after every history of plain and aligned allocations and frees and for any interleaving of threads. Freeing everything returns the figure to zero, resetting clears the figures, memory returned has the requested size and alignment, and freeing an untracked pointer changes no figure.",
  ["histories", "schedules"], "all allocation/free histories up to a bounded depth over several sizes and alignments; all interleavings within the preemption bound of two or three allocating threads",
  "The leak tests only compare totals at the end of single threaded scenarios.",
  ["memory.c", "memory.h", "tree.c"],
  [("sharded red-black trees keyed on address under mutexes", "memory.c"), ("interlocked running total and maximum", "memory.c")],
  ["fiftyoneDegreesMemoryTrackingGetAllocated / GetMax"])

p("C18", "Bounded memory readers never run past the end of the data",
  "Advancing a memory reader succeeds, and moves by exactly the requested amount, only while the position stays inside the buffer; otherwise it reports failure without moving. A collection whose header (size, or count and width) claims more than the memory buffer or file holds is refused, or gives an error for every item that is not wholly there, instead of being read out of bounds. An item read from a file which claims a length of its own (a string, a profile, a component) is returned only if it is wholly in the file; any other claimed length, negative or huge, is an error.",
  ["inputs"], "all buffer sizes, positions and advance amounts in a small range plus the integer extremes; all header values (size, count) around the true size for all sources",
  "Tests use well formed headers only.",
  ["memory.c", "collection.c", "string.c", "profile.c", "component.c"],
  [("fiftyoneDegreesMemoryAdvance bound check", "memory.c"), ("createFromMemory header checks", "collection.c")],
  ["returned flags, positions and statuses", "address sanitizer"])

p("C19", "Evidence is stored and found by prefix exactly as supplied",
  "A prefixed key is recognised, case sensitively, as the one defined prefix it starts with provided something follows it, and no other. Evidence added (up to the capacity, after which additions are refused) is returned by iteration in the order added, once each, exactly for the prefixes asked for, with its field, original and parsed values unchanged, and iteration stops as soon as the callback says so.",
  ["inputs", "histories"], "all key strings up to a bounded length over an alphabet built from the prefixes and near misses; all add sequences up to the capacity plus one; all prefix masks and stop positions",
  "EvidenceTests samples a few keys and single prefixes.",
  ["evidence.c", "evidence.h"],
  [("prefix table and masks", "evidence.c"), ("lazy value parsing", "evidence.c")],
  ["fiftyoneDegreesEvidenceMapPrefix / AddString / Iterate"])

p("C20", "Unique headers are unique, complete and looked up case insensitively",
  "From any list of header names, some of them duplicates or pseudo-headers made of several segments, the header set contains each distinct name once, in first-seen order, followed by every segment of the pseudo-headers that is not a name itself, and records each entry's segments and whether it came from the data set correctly. Looking a name up in any letter case, and with the HTTP_ prefix where that form is expected, returns its index, unknown names return not found, and building a set that fails leaks nothing.",
  ["inputs", "fault_sequences"], "all lists of up to four header names from an alphabet of plain, duplicate, case-variant, prefixed and pseudo-header names; all allocation failures",
  "HeadersTests uses a few fixed lists.",
  ["headers.c", "headers.h"],
  [("addHeadersFromDataSet / segment splitting", "headers.c"), ("HeaderGetIndex", "headers.c")],
  ["fiftyoneDegreesHeadersCreate / HeaderGetIndex"])

p("C21", "Pseudo-header evidence is built from the right segments in the right order",
  "For every set of pseudo-headers and evidence, each pseudo-header not itself given as evidence, all of whose segments have evidence in one accepted prefix, is constructed once, as the segment values joined by the separator in the pseudo-header's order, from the first such prefix in the order of precedence; a pseudo-header with a segment missing in every accepted prefix is not constructed. Constructed values are truncated to the configured size and terminated, construction never exceeds the pseudo evidence capacity, and removing them restores the evidence and leaks nothing.",
  ["inputs"], "all subsets and orders of evidence over two prefixes and three headers, all header configurations with up to two pseudo-headers, all buffer sizes around the needed one",
  "PseudoHeaderTests covers selected orders with one buffer size.",
  ["pseudoheader.c", "pseudoheader.h", "evidence.c", "headers.c"],
  [("construction loop over prefixes and segments", "pseudoheader.c")],
  ["evidence->pseudoEvidence items after construction"])

p("C22", "Property overrides are extracted from evidence exactly and completely",
  "Query and cookie evidence whose name matches an overridable property (case insensitively, and with or without the 51D_ prefix when that prefix is enabled) sets exactly that property's override value, a later value replacing an earlier one, and any other evidence sets none; the number reported is the number of values taken. Queries for an override by property return that value or report that there is none, the capacity is never exceeded (a value for a property already overridden is still taken when full), profile ids are exactly the runs of digits in ProfileIds evidence which are representable, in order, and freeing returns everything, also when memory runs out.",
  ["inputs", "histories"], "all evidence lists up to a bounded length over names and values with separators, empty and long parts; all property sets; all capacities",
  "OverridesTests samples typical cookies and query parameters.",
  ["overrides.c", "overrides.h"],
  [("OverridesExtractFromEvidence", "overrides.c"), ("OverridesAdd", "overrides.c"), ("OverrideHasValueForRequiredPropertyIndex", "overrides.c")],
  ["override value array contents"])

p("C23", "Required properties resolve to exactly the available ones requested",
  "For every request (delimited text, array, previous selection, or nothing meaning all) the result contains exactly the requested properties that exist, matched case insensitively, each once, with its index into the data set. Looking up a property by name or by index returns the entry if and only if it was selected, mapping back and forth between required index, property index and name is consistent, and a request that matches nothing is reported rather than silently meaning all.",
  ["inputs"], "all data sets of up to four property names and all requests up to four tokens over existing, unknown, duplicate, case-variant, prefix and empty names in every request form",
  "PropertiesTests uses a handful of requests.",
  ["properties.c", "properties.h"],
  [("initRequiredProperties*", "properties.c"), ("binary search over the sorted names", "properties.c PropertiesGetRequiredPropertyIndexFromName")],
  ["available array and index lookups"])

p("C24", "Entity lookups over data collections find exactly the matching records",
  "Finding a profile by identifier, a property or value by name, or a component's or profile's values by iteration returns exactly the records the data set holds for them, in order and once each, and reports absence otherwise, for every storage configuration of the collections involved. Every collection item fetched on the way is released exactly once to the collection it came from.",
  ["inputs", "configurations"], "all small data sets (up to four profiles, properties and values), all keys, in memory, cached and file backed collections",
  "Only engines built on this library exercise these look-ups; there are no tests here except for value conversion.",
  ["profile.c", "property.c", "value.c", "component.c", "collection.c"],
  [("binary searches and value index ranges", "profile.c, value.c, property.c, component.c")],
  ["returned records", "get/release balance on each collection"])

p("C25", "IP address parsing is memory safe and right for every input string",
  "Every well formed IPv4 or IPv6 text yields its family and exactly the bytes the standard parsers produce; any other text yields either nothing, an address marked invalid or a best effort address whose bytes depend only on the text; nothing is read or written out of bounds whatever the length. Parsing a list of addresses separated by commas and spaces yields every well formed address in the list, in order, freeing the list frees each element once, comparison orders addresses by their bytes, and copies of an address hold as many of its bytes as fit.",
  ["inputs"], "all strings up to a bounded length over the characters of addresses, separators and a stray character, plus structured families with too many or too few parts",
  "IpParserTests has a few well formed and malformed examples.",
  ["ip.c", "ip.h", "IpAddress.cpp"],
  [("segment iteration and byte building", "ip.c")],
  ["fiftyoneDegreesIpParseAddress / ParseAddresses results", "address sanitizer"])

p("C26", "Text comparison and search are exact for every pair of strings",
  "Comparing two strings ignoring case, with or without a length limit, has the sign of the comparison of their lower case forms (for ASCII text), is antisymmetric and transitive, and is zero exactly for strings equal ignoring case within the limit. Nothing is read after the end of either string. Searching for one non-empty string inside another returns the first occurrence ignoring case when there is one and nothing otherwise.",
  ["inputs"], "all pairs of strings up to a bounded length over a mixed case alphabet, all limits",
  "The string helpers have no dedicated tests.",
  ["string.c", "string.h"],
  [("fiftyoneDegreesStringCompare, StringCompareLength, StringSubString", "string.c")],
  ["returned values"])

p("C27", "Single precision values survive storage conversion unchanged",
  "Converting any finite native single precision number to the stored form and back gives an equal number, the stored form of every finite number is its standard 32 bit layout (zero without its sign) and every standard layout of a finite number is read as that number; infinities and not-a-numbers come back as an infinity and a not-a-number. Comparison of stored non-zero finite values reports equality (as zero) exactly when the numbers are equal. A stored coordinate is read as exactly its latitude and longitude, and a stored value of another type as an error.",
  ["inputs"], "all exponents and signs with all mantissas of a structured family, including zeros, subnormals and infinities (402 million patterns; all 2^32 in the thorough tier)",
  "FloatTests checks a few values.",
  ["float.c", "float.h", "coordinate.c"],
  [("fiftyoneDegreesFloatToNative / NativeToFloat / FloatIsEqual", "float.c")],
  ["converted values"])

p("C28", "Every status and exception yields a complete, self-contained message",
  "For every status code, defined or not, and every data file name, the message is a complete terminated string owned by the caller that contains the file name where the status calls for it and no unresolved placeholder. An exception's message includes the status message and where it was raised, a cleared exception reports success, failing to allocate a message gives null rather than damage, and asking to end the process on a failure does so exactly when there is one, with its status as exit code.",
  ["inputs", "fault_sequences"], "all status codes and their neighbours, file names of every bounded length including null and ones with format characters, every allocation failure",
  "StatusTests checks each code with one file name.",
  ["status.c", "exceptionsc.c", "exceptions.h", "Exceptions.cpp"],
  [("message table", "status.c"), ("Snprintf into an allocated buffer", "status.c, exceptionsc.c")],
  ["message text", "allocation balance"])

p("C29", "Text files are delivered line by line, whole, in order, once each",
  "Iterating a text file calls back once for each non-empty line in file order with exactly that line's text, whatever the line endings (LF or CRLF), with or without a final line end, and for every relation between buffer size, line length and file size. A limit on the number of lines stops exactly there, a missing file reports its status, a line that does not fit the buffer never causes access outside the buffer, and the file is always closed.",
  ["inputs"], "all file contents up to a bounded length over letters, LF and CRLF, all buffer sizes around the line lengths, all limits",
  "TextFileTests reads one or two fixed files with large buffers.",
  ["textfile.c", "textfile.h"],
  [("buffer refill and line split", "textfile.c")],
  ["callback arguments", "status"])

p("C30", "YAML documents are delivered as exactly their key/value pairs",
  "Iterating a YAML file calls back once per document, in order, with exactly that document's keys and values, quoted or not, for every supported layout and buffer size. Input with more pairs, longer keys or values, or other structure than supported is reported or cut off but never writes outside the supplied buffers, the result does not depend on the size of the read buffer, a failed read is reported, and the file is always closed.",
  ["inputs"], "all token sequences up to a bounded length over document markers, keys, colons, quotes, spaces and line ends; all small pair counts and buffer sizes",
  "YamlFileTests reads a few fixed files with ample buffers.",
  ["yamlfile.c", "yamlfile.h"],
  [("character state machine", "yamlfile.c")],
  ["callback arguments", "address sanitizer"])

p("C31", "List and data containers keep exactly what was put in them",
  "Items added to a list come back by index in the order added until the list is released, releasing hands every held item back to its collection exactly once, and the list reports its size truthfully. A data buffer asked to hold more grows without losing what the allocator promises, is reused when it is large enough, and is freed once.",
  ["histories", "fault_sequences"], "all operation histories up to a bounded depth over small capacities and sizes, with allocation failures",
  "The containers are only exercised incidentally.",
  ["list.c", "list.h", "data.c", "data.h", "array.h"],
  [("ListAdd/ListGet/ListReset/ListRelease", "list.c"), ("DataMalloc/DataReset", "data.c")],
  ["item pointers", "release calls", "allocation balance"])

p("C32", "Signals are never lost and mutexes exclude",
  "A thread waiting on a signal that is set before, during or after the wait begins always continues, each set releases at most one waiting thread, and a signal not set keeps its waiter blocked. Sections guarded by a mutex never overlap, for every interleaving, and creating and closing signals and mutexes leaks nothing.",
  ["schedules"], "every interleaving of up to three threads that set, wait, lock and unlock",
  "ThreadingTests only checks creation; no test interleaves set and wait.",
  ["threading.c", "threading.h"],
  [("flag, condition variable and mutex", "threading.c")],
  ["threads that complete under all schedules"])

p("C33", "The C++ interface reports configuration, evidence and values truthfully",
  "Asking a required-properties configuration, a temporary-directory configuration or evidence map for its contents returns what was put in, whichever constructor was used, as often as it is asked and without changing it. A value object returns exactly what was set or throws the exception matching its no-value reason, an IP address object returns the address it was built from, and conversions of result values to text, boolean, number and list agree with the underlying values for every number of values, with a message wherever there is no value. Copies of a configuration or evidence map are independent of the original. An engine lists each evidence key its headers and override properties call for exactly once, the text read for meta data is the text stored, and exceptions carry the status they were made from and its message.",
  ["inputs", "histories"], "all constructor forms and bounded sequences of queries and updates over small value sets; all no-value reasons; all result value lists up to length four",
  "The C++ tests call each accessor once on one instance.",
  ["RequiredPropertiesConfig.cpp", "ConfigBase.cpp", "EvidenceBase.cpp", "Value.hpp", "ResultsBase.cpp", "IpAddress.cpp", "EngineBase.cpp", "Exceptions.cpp", "PropertyMetaData.cpp", "ValueMetaData.cpp"],
  [("wrapper classes over the C structures", "*.cpp, *.hpp")],
  ["public C++ accessors and exceptions", "allocation balance"])

p("C34", "Running out of memory is reported, never crashed on or leaked",
  "If memory requests made by a public create, build, read or parse operation fail, one or several of them, the operation does not crash: it either still delivers the complete and correct result, or reports its failure - as insufficient memory where it gives a status of its own (for a data set, the status of the step which failed), or as null where that is the documented failure. It never passes off a partial result as a complete one; the text of a message may become a generic one. Whatever was active before stays in use, everything the operation had allocated or opened is returned, and the same operation succeeds in full once memory is available.",
  ["fault_sequences"], "each allocation made by each constructor-like operation of the C interface failing in turn",
  "No test makes the allocator fail, although the library routes all allocation through replaceable function pointers.",
  ["cache.c", "headers.c", "evidence.c", "overrides.c", "properties.c", "pool.c", "file.c", "list.c", "status.c", "ip.c", "resource.c"],
  [("null checks and INSUFFICIENT_MEMORY status", "throughout")],
  ["status or null result", "allocation balance"])

p("C35", "The documented build options change speed, not answers",
  "Built without threading (FIFTYONE_DEGREES_NO_THREADING) or for data in memory only (FIFTYONE_DEGREES_MEMORY_ONLY), the library gives a single thread the same answers, errors and refusals as the default build for the same data, configuration, operations and environment: caches, pools, resources, tracked memory, collections, entities and data set reloads keep their guarantees, nothing is read outside the data, a failed operation leaves nothing behind, and everything allocated is returned to the allocator it came from.",
  ["histories", "inputs", "fault_sequences"], "the bounded spaces of the other properties, run again over each build",
  "The tests are built once, with the default options; code excluded by a guard is never compiled in them.",
  ["pool.c", "cache.c", "resource.c", "memory.c", "collection.c", "component.c", "profile.c", "string.c", "threading.h"],
  [("code selected by the options", "#ifdef in the files above")],
  ["the same observations as for the properties concerned"])

p("C36", "Processes sharing temporary directories, or dying in them, do no harm",
  "However processes which make, look for and clean up temporary copies of the same master in the same directories interleave, and wherever one of them dies, a process is only given a complete copy of the master; a file which a process has open is not removed by another; each new copy has a name of its own; whatever a process which died left behind is a beginning of the master, which is never offered for reuse unless it is complete; later calls still succeed and clean up exactly the complete copies which no process has open; and the master and other files stay as they are.",
  ["schedules", "crash_points", "histories"], "a death before every device operation and between the pieces of every write, repeated; every switch between two processes at these points",
  "Tests run in one process, which neither dies nor meets another one.",
  ["file.c", "file.h"],
  [("copy to a temporary file while others scan the directory", "file.c"), ("check for use before removal", "file.c")],
  ["directory contents after each death and after both processes", "returned paths, counts and status"])

p("C37", "Threads which share no object, or only read one, do not affect each other",
  "Whatever threads do at the same time with objects of their own (trees, lists, pools, evidence, headers, overrides, properties, files, texts, addresses, data, results and so on), or by reading a table, collection or value which nobody changes, each gets the answers it would get alone, for every interleaving; nothing is kept between calls outside the objects given to them.",
  ["schedules", "inputs"], "every pair and bounded triple of call sequences on separate objects with inputs that differ, every interleaving up to a preemption bound at every access to data that could be shared",
  "The tests of these parts run in one thread.",
  ["tree.c", "list.c", "headers.c", "ip.c", "file.c", "textfile.c", "profile.c", "string.c", "properties.c", "float.c"],
  [("no writable data of static storage duration outside the global pools documented as such", "all .c files")],
  ["the result of each call sequence in a thread against its result alone"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
