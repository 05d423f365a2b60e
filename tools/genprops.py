#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json
P=[]
T=lambda *x:list(x)
TAB="pkg/idxtable/table.go"; ITER="pkg/idxtable/iterator.go"
TN=["pkg/table/table16/table16.go","pkg/table/table32/table32.go","pkg/table/table64/table64.go"]
IPT="pkg/iptable/iptable.go"
TREE="pkg/tree/tree.go"; MAN="pkg/tree/tree_manual.go"; NODE="pkg/tree/node.go"; ENT="pkg/tree/entry.go"
TR=["pkg/tree/tree16/tree16.go","pkg/tree/tree32/tree32.go","pkg/tree/tree64/tree64.go"]
IDF=["pkg/tree/id16/id16.go","pkg/tree/id32/id32.go","pkg/tree/id64/id64.go"]
IDS=["pkg/tree/id16/idset.go","pkg/tree/id32/idset.go","pkg/tree/id64/idset.go"]
RNG=["pkg/tree/id16/range16.go","pkg/tree/id32/range32.go","pkg/tree/id64/range64.go"]
UI=["pkg/tree/id16/myuint16.go","pkg/tree/id32/myuint32.go","pkg/tree/id64/myuint64.go"]
GT="pkg/tree/gtree/gtree.go"
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Shared table and tree state is only touched under its lock",
 "Every operation of an index table or an ID tree that may run concurrently with others reads the shared claim state only while holding that object's lock (shared or exclusive) and changes it only while holding the lock exclusively. This covers every method of the public interface on every path, including error paths and helper calls.",
 ["schedules","histories"],"every interleaving of any operations of one table or tree",
 "All tests are single-threaded and the race detector only sees schedules that happen to run.",
 [TAB]+TR+[TREE],[("RWMutex taken at the top of each public method",TAB),("RWMutex in tree16/32/64",TR[0])],
 [("claimed entries","map from index to entry",TAB),("radix nodes and values","node pool, free list, value map",TREE)])
p("C02","No operation deadlocks on, or leaks, its own lock",
 "Every public operation releases each lock it took, in the mode it took it, before it returns on every path, and never acquires a lock it already holds. No operation can therefore block itself or leave the table or tree blocked for later operations.",
 ["schedules","histories"],"every path through every operation and every schedule (a nested read lock deadlocks only with a waiting writer)",
 "A recursive read lock or a missed unlock on a rare path passes every single-threaded test.",
 [TAB]+TR,[("lock/defer unlock pairs",TAB),("internal unlocked helpers called with the lock held",TR[0])])
p("C03","Each operation decides and applies in one critical section",
 "Each mutating operation (claim, dynamic claim, range claim, size claim, update, release, release by label) checks its precondition and applies its change within one uninterrupted exclusive critical section of the table or tree, so two concurrent operations can never both be granted the same ID and no change is based on a stale check. The range tables and the IP table apply each operation through exactly one such self-checking operation of the underlying index table.",
 ["schedules","histories"],"all concurrent histories of claims, updates and releases",
 "Check-then-act windows need a specific interleaving; no existing test runs two goroutines.",
 [TAB]+TR+TN+[IPT],[("find and claim under one Lock",TAB),("ClaimFree find+set",TR[0]),("wrapper delegates to one inner operation",TN[0])])
p("C04","Results and stored arguments are detached from live state",
 "Nothing returned by a public operation (iterators, entry lists, ranges, sets, label sets, clones) shares mutable memory with the live table, tree, set builder or stored entry, and label sets passed in by a caller are copied before they are stored. Later operations or caller-side modifications therefore never change a result already handed out, nor the stored state.",
 ["histories","schedules"],"every later operation on the container and every caller-side mutation of a result or argument",
 "Tests look at results immediately and never mutate them or the container while holding one.",
 [TAB,ITER,TREE,GT,ENT]+TR+IDS,[("snapshot map handed to iterators",TAB),("tree iterator over a clone",TR[0]),("copying constructors/accessors",ENT),("slice copies in set accessors",IDS[0])])
p("C05","Index table: claims are exclusive and bounded, failures change nothing",
 "In an index table of size n an entry can only be created by a claim of an index below n that is currently free, and only be replaced by an update of an index that is currently claimed; it then holds exactly the index and data of that call. A release removes exactly the given index. An operation that returns an error leaves the table unchanged, and an in-range claim of a free index, or update of a claimed one, succeeds.",
 ["inputs","histories"],"every table size (including 0), index, data and prior history",
 "Tests use sizes 10 and 1000 and a handful of indexes; boundary sizes and error paths after partial work are not reached.",
 [TAB],[("bounds validation",TAB),("free check before store, claimed check before update",TAB)],
 [("claimed entries","map index->entry",TAB),("size","exclusive upper bound of indexes",TAB)])
p("C06","Index table: range and size claims take exactly what was asked",
 "A range search or claim for (start, size) succeeds only with exactly the size consecutive indexes start..start+size-1, all of which were free and inside the table, and fails otherwise without claiming anything, for all values including 0 and values near 2^64. A size search or claim yields exactly the requested number of distinct free in-range indexes, lowest first, or fails.",
 ["inputs","histories"],"all start/size pairs over the full 64-bit range and all prior claim patterns",
 "Three range cases and two size cases are tested; single-element ranges, ranges ending on a claimed index and wrapping arithmetic are not.",
 [TAB],[("contiguous free range search",TAB),("free size search",TAB)])
p("C07","Index table: free search and iteration are exact and ordered",
 "Finding a free index, or claiming one dynamically, yields the lowest unclaimed index below the table size and fails only if there is none. Iterating the claimed (free) indexes visits every claimed (free) index exactly once in ascending order with its entry, and the membership, freeness and size queries agree with the set of claimed indexes.",
 ["inputs","histories"],"all claim patterns and table sizes",
 "Tests iterate one three-element table and never compare free search with the claimed set.",
 [TAB,ITER],[("free scan",TAB),("sorted key snapshot and cursor",ITER)])
p("C08","Range tables accept exactly the IDs of their range",
 "A 16/32/64-bit range table created for start..end (start<=end) rejects every ID outside that range in every operation without touching the table, never rejects an ID inside the range because of its position, and has exactly one slot for each ID of the range.",
 ["inputs","configurations"],"every start/end pair including the full width of the type, every 64-bit ID argument",
 "Tests use 100-199 and one high 32-bit range; full-width ranges and boundary conversions are not reached.",
 TN,[("ID validation against start/end",TN[0]),("capacity computation in the constructor",TN[0])],
 [("start,end","inclusive ID range",TN[0])])
p("C09","Range tables translate IDs and entries faithfully",
 "In a 16/32/64-bit range table every ID maps to its own slot, and every entry handed out (get, claim-free, get-all, get-by-label) carries the external ID under which it was claimed, in the table's own ID width, with the labels of the last successful claim or update of that ID. A free ID reported by the table lies in its range and is unclaimed.",
 ["inputs","histories"],"every range, ID, label set and history",
 "Tests only check Has/Size, never the content or ID of a returned entry.",
 TN,[("index<->ID translation",TN[0]),("remapping of entries to external IDs",TN[0])])
p("C10","IP table maps each address of its range to its own slot",
 "An IP table for from..to accepts exactly the addresses of that range that its slots can represent, never lets two different addresses share a slot, and stores, returns, updates and releases the route of exactly the given address. The free address it reports is inside the range and is the address of an unclaimed slot.",
 ["inputs","configurations","histories"],"IPv4 and IPv6 ranges of any width, any address string",
 "The only test uses one 11-address IPv4 range.",
 [IPT],[("address validation",IPT),("address<->index big-integer translation",IPT),("slot count",IPT)])
p("C11","Listings and label queries return exactly the matching entries",
 "For every table and tree, get-all returns every stored entry, get-by-label returns exactly the stored entries whose labels match the selector, size counts exactly the stored entries, and lookup, children and parents queries on a tree return exactly the stored entries equal to, strictly below, or strictly above the given ID.",
 ["inputs","histories"],"every stored content, selector and query ID",
 "Tests only count results of get-all; label queries, children and parents are never asserted.",
 TN+[IPT]+TR,[("filter loops over all entries",TR[0])])
p("C12","ID comparison is one total order, equality is field equality",
 "At each width, comparing two IDs is the lexicographic order of (length, value): it returns -1, 0 or 1 accordingly, the less-than test agrees with it, and two entries are equal exactly if ID value, ID length and labels agree.",
 ["inputs"],"all pairs of IDs at widths 16, 32 and 64 and all entries",
 "No test calls compare, less or equal.",
 IDF+[ENT],[("Compare/Less",IDF[0]),("Equal",ENT)])
p("C13","ID bit operations are exact at every width and length",
 "For every width, value and prefix length within the width: masking keeps exactly the leading length bits, two IDs overlap exactly if they agree on the shorter length, the match count is the number of equal leading bits, the leftmost-bit tests agree with the top bit, shifting drops exactly the leading bits, the last ID of a prefix sets exactly the trailing bits, next/previous are value plus/minus one and yield the zero ID on overflow, and merging a prefix with a suffix concatenates them.",
 ["inputs"],"all values and all lengths 0..width at widths 16, 32 and 64",
 "Hand-written mask tables and carry arithmetic: each table row, length and carry needs its own input, and the tests touch almost none directly.",
 IDF+UI+RNG+[MAN,NODE],[("mask tables",UI[0]),("carry arithmetic",UI[0]),("LastID/RangeOfID",RNG[0]),("MergeID and left masks",MAN),("node prefix match and shift",NODE)])
p("C14","Range relations match the order of their endpoints",
 "For valid ranges of IDs of one width, the relations valid, less, entirely-before, covered-by, in-middle-of, overlaps-start-of and overlaps-end-of hold exactly when the endpoint order says so, replacing an endpoint changes only that endpoint, and a parsed or constructed range has exactly the given endpoints at full length, malformed or out-of-width text being rejected.",
 ["inputs"],"all relative orders of endpoints (finitely many orderings of four values) at each width",
 "No test exercises the relations; each combination of equal/adjacent endpoints is its own case.",
 RNG,[("range predicates",RNG[0]),("ParseRange",RNG[0])])
p("C15","ID set algebra is exact",
 "The set built from any sequence of add and remove calls contains exactly the IDs added and not subsequently removed, represented as sorted, disjoint, non-adjacent ranges; invalid input is reported as an error and changes nothing.",
 ["inputs","histories"],"all sequences of range additions and removals at each width, including ranges touching 0 and the maximum",
 "Only reached through claim-free in tests that never compare the set; every endpoint ordering of an added and a removed range is a separate case.",
 IDS+RNG,[("merge of sorted ranges",RNG[0]),("subtraction of removed ranges",IDS[0])])
p("C16","Range to prefix decomposition covers the range exactly",
 "Decomposing a range into prefix IDs yields prefixes that together cover exactly the IDs of the range, without overlap and in ascending order.",
 ["inputs"],"all ranges from<=to at each width, including 0 and the maximum",
 "Two ranges are decomposed in tests and the result is never checked.",
 RNG+UI,[("recursive split at the first differing bit",RNG[0]),("mask table row 0",UI[2])])
p("C17","Free-prefix selection returns a member and removes it",
 "Taking a free prefix of a requested length from a set yields a prefix of exactly that length lying entirely inside the set, preferring the tightest fitting free block, returns the set without it, and reports failure (with the set unchanged) only if no free block is large enough.",
 ["inputs"],"all sets and requested lengths at each width",
 "Only reached indirectly with full-length requests.",
 IDS,[("best-fit scan",IDS[0])])
p("C18","Radix tree values belong to exactly one stored ID",
 "In the radix tree no two stored IDs ever share a value slot at any width, and after any history each stored ID has exactly the values set or added and not deleted: every addition, deletion and relocation of values keeps the slots of an ID contiguous and their count exact.",
 ["inputs","histories"],"all histories of set/add/delete/merge at widths 16, 32 and 64",
 "Slot collisions depend on the width and on node reuse; tests check only a few claims and the 64-bit test already fails.",
 [TREE],[("value key derived from node index",TREE),("value count per node",TREE)],[("vals","slot -> value",TREE)])
p("C19","Radix tree insertion preserves the tree shape",
 "Inserting an ID places its node on the side given by its next bit under the node of its longest stored prefix, splits or re-parents existing nodes without losing, duplicating or relabelling any of them, and leaves every other stored ID reachable under its own full ID.",
 ["inputs","histories"],"all insertion orders and all IDs at each width",
 "Each split/parent/leaf case on each side needs a specific pair of IDs.",
 [TREE,NODE,MAN],[("descend/split/insert",TREE),("node allocation",MAN)],[("nodes","node pool with child links and label bits",TREE)])
p("C20","Radix tree deletion removes only its target",
 "Deleting from the radix tree removes exactly the matching values of exactly the given ID and, when compacting, re-attaches every remaining node to the right parent and side with its full label; freed nodes are unlinked, freed once and never the root.",
 ["inputs","histories"],"all tree shapes around the deleted node (children, sibling, parent with or without values, root)",
 "No test deletes from a tree.",
 [TREE,NODE],[("lookup",TREE),("deleteNode compaction cases",TREE),("free list",MAN)])
p("C21","Tree iteration visits every stored ID once",
 "Iterating a tree visits every node holding values exactly once, parents before children and left before right, then stops, for every tree shape.",
 ["inputs","histories"],"all tree shapes",
 "Iteration is a hand-written state machine; tests walk very few shapes.",
 [TREE,GT],[("iterator state machine",TREE)])
p("C22","A cloned tree is a complete, independent copy",
 "A clone of a tree holds the same entries, behaves like the original under every operation (same width, size limit, insertion, deletion and iteration), and no operation on either affects the other.",
 ["histories"],"all operation sequences on clone and original after cloning",
 "No test clones a tree.",
 [TREE]+TR,[("Clone copies",TREE)])
p("C23","Tree claim-free never hands out a taken or foreign ID",
 "Claiming a free ID from a tree of bit length n yields a full-length ID below 2^n that is covered by no existing claim (prefix or single ID), stores exactly that ID with the given labels, returns that entry, and fails only if no such ID exists.",
 ["inputs","histories","configurations"],"all tree bit lengths 0..width and all claim patterns, including claims covering the whole space",
 "Claim-free is only exercised from a demo program on a 12-bit tree.",
 TR+IDS,[("root prefix of the ID space minus claims",TR[0])])
p("C24","Trees reject IDs outside their space in every mutator",
 "A tree of bit length n rejects, before changing anything, every claim, range claim, update or release whose ID (including the last ID covered by a prefix) exceeds 2^n-1 or whose length exceeds the width or whose range is malformed or inverted, accepts every other one (a claim only if nothing it names is already claimed), and cannot be created with a bit length above its width.",
 ["inputs","configurations"],"all bit lengths and all IDs, prefixes and range strings",
 "Tests try one out-of-space single ID per width, never a range or prefix.",
 TR,[("validate before set",TR[0]),("limit computation in New",TR[0])])
p("C25","Tree claims, updates and releases affect exactly the named IDs",
 "A successful claim or update of a tree ID stores exactly that ID with exactly the given labels and leaves every other ID (of another length or other leading length bits) as it was, a range claim stores exactly the prefixes decomposing the range, a release removes exactly the entry of that ID and length, and a release by label removes exactly the entries matching the selector.",
 ["inputs","histories"],"all IDs, labels, selectors and prior contents",
 "Release and range claims on trees have no tests.",
 TR,[("set/del on the radix tree",TR[0])])
p("C26","No failure is swallowed or invented",
 "Every public operation that hits a failing step (validation, lookup, parse, search, inner claim) returns a non-nil error, and returns a nil error exactly when the requested effect took place (or, for a release, when nothing was left to release).",
 ["inputs","fault_sequences"],"every call site of an error-returning step on every path",
 "Most error branches have no test that reaches them.",
 [TAB,IPT]+TN+TR+IDS+RNG,[("error propagation",TAB)])
p("C27","A tree claim never takes over an existing claim",
 "Claiming a specific ID or a range in a tree fails if that ID is already claimed, instead of replacing the existing entry's labels.",
 ["inputs","histories"],"all claim histories",
 "No test claims the same tree ID twice.",
 TR,[("set overwrites without a check",TR[0])])
p("C28","A tree behaves like a map over arbitrary histories",
 "After any sequence of operations the whole content of a tree equals that of an abstract map from (value, length) to labels driven by the same sequence.",
 ["histories"],"arbitrary finite histories",
 "Unbounded histories over heap shapes.",
 [TREE]+TR,[("whole tree implementation",TREE)])
p("C29","Operations use time and memory bounded by the number of claims",
 "Finding a free ID, iterating and label queries need time and memory proportional to the number of stored claims, not to the size of the ID space.",
 ["inputs","configurations"],"all table sizes and claim patterns",
 "Cost is a runtime quantity; tests use small sizes.",
 [TAB]+TN,[("free scan",TAB)])
p("C30","Concurrent operations make progress and are linearizable",
 "Every concurrent history of operations on one container is linearizable and every operation eventually completes under a fair scheduler.",
 ["schedules","histories"],"all infinite schedules",
 "Requires quantifying over histories and scheduler fairness.",
 [TAB]+TR,[("RWMutex",TAB)])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
