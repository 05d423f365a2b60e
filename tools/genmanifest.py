#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,subprocess
AI="abstract interpretation of the SSA form (path-sensitive, symbolic heap, linear arithmetic, loop summaries); rule: "
BITS="relational abstract interpretation of specification clients with a bit-level abstract domain (each bit an affine form over GF(2)); rule: "
SPEC="relational abstract interpretation: specification clients with assertions are analysed together with the source (symbolic inputs and history, linear arithmetic, loop and collection summaries); rule: "
SN="Every input and every history (invariant assumed, re-established by each mutator) of a table of any size; loops by summaries, any iteration count. Sorting and map semantics are trusted. Goals over imprecise values are reported as undecided, not as violations."
TN="Every input and every state of a tree of any contents. The radix tree, the ID sets and the range decomposition below are replaced by their specifications (C15-C22): the claims are about the tree16/tree32/tree64 operations over them. Goals the analysis cannot decide within its time budget are reported as undecided, not as violations."
RN="Every tree of a family of shapes (up to 6 nodes in 3 levels below the root, label lengths 1-2, and long labels in chains), every bit of every label, every inserted ID and value symbolic, with and without free nodes; one operation (or a deletion followed by an insertion) from each. Larger shapes are not enumerated: the code looks at a node, its parent, its sibling and its children. A panic statement or index out of range on a feasible path is a violation."
C={
 'C01':(AI+"lockset of every access to mutable receiver memory","All paths of all exported methods of every locked type, loops abstracted; trusts Go's mutexes; a construct outside the analysis is reported as undecided, not as a violation."),
 'C02':(AI+"lock typestate automaton (acquire/release balance per mode, no re-acquisition)","As C01; lock-neutrality of loop iterations is checked at loop headers."),
 'C03':(AI+"single critical section per mutating path; single index-table mutation per range-table operation","As C01; atomicity is judged per operation, not per history."),
 'C04':(AI+"escape: no mutable memory of the receiver is reachable from a result, no map or slice of the caller is stored","Every path of every exported method of every struct type of pkg/ and of every exported function taking a map; loops abstracted. The radix tree package's own iterator is documented to be live and excepted. IDs, entries and ranges count as immutable because no function writes them (checked). Sharing through values of unknown (opaque) functions is not seen."),
 'C05':(SPEC+"claim/update/release exclusivity, bounds and failure atomicity of the index table",SN),
 'C06':(SPEC+"range and size claims of the index table",SN),
 'C07':(SPEC+"free search and iteration of the index table",SN),
 'C08':(SPEC+"range checks and sizes of the 16/32/64 bit range tables",SN+" The index table below is abstracted by its own invariant (C05)."),
 'C09':(SPEC+"ID translation and entry contents of the 16/32/64 bit range tables",SN+" The index table below is abstracted by its own invariant (C05)."),
 'C10':(SPEC+"IP table slots (128-bit address arithmetic)",SN+" net/netip, netipx and math/big are modelled, not analysed."),
 'C11':(SPEC+"listings, label, children and parents queries of the range tables, the IP table and the trees",SN+" For trees: "+TN),
 'C12':(SPEC+"comparison, order and equality of IDs and entries","All values and lengths of the three widths (symbolic); entry labels compared through their text form, which is trusted."),
 'C13':(BITS+"mask, overlap, match count, shift, merge, neighbours and last ID are exact","All values symbolic; lengths enumerated within the width (the analysed functions are loops and tables over them). math/bits is modelled."),
 'C14':(SPEC+"range relations, endpoints, validity and parsing","All endpoints symbolic; text parsing relative to strconv.ParseUint, which is trusted."),
 'C15':(SPEC+"membership, order and adjacency of the ranges of a set after any sequence of additions and removals","All endpoints and the tested ID symbolic (64, 32, 16 bits); sequences of up to 3 operations of every order, plus prefixes, invalid input and adding a set of up to two ranges; sorting replaced by its contract (a sorted permutation), Next and Prev by what C13 establishes. Longer sequences are not covered."),
 'C16':(BITS+"prefixes of a range are contiguous, ascending, aligned and cover it, by induction over the recursion","All endpoints symbolic, the length of their common prefix enumerated; recursive calls are replaced by the contract being proved, on a range that must be smaller (assume-guarantee). Trusts math/bits."),
 'C17':(SPEC+"the selected prefix has the length asked for, lies in a free block, is removed, nothing else is; failure only if no block is long enough","Sets of up to 3 prefix blocks of any length and value; normalisation of the set replaced by its contract (C15)."),
 'C18':(BITS+"value slots of tree nodes: disjoint, contiguous, counted, moved with their node",RN),
 'C19':(BITS+"insertion: every stored ID stays under its full ID, the new one is found, sides and free nodes are right",RN),
 'C20':(BITS+"deletion: only the target is gone, every other ID stays under its full ID, nodes are freed once",RN),
 'C21':(SPEC+"iteration order and completeness","Every tree shape of up to 8 nodes in 3 levels of fixed positions (128 shapes), with and without values; values symbolic."),
 'C22':(SPEC+"the clone of a tree has the same entries and configuration; no state shared with the original","Every state of a tree of the 16/32/64 bit layer, with the radix tree replaced by its specification (a map from (length, leading bits) to one entry); and, for the radix tree itself, operations on original and clone from every shape as in C19."),
 'C23':(SPEC+"free claims of trees: the granted ID is full length, below 2^n, uncovered, stored and returned; failure only if there is none",TN),
 'C24':(SPEC+"trees reject IDs outside their space in every mutator, before changing anything, and accept the others",TN),
 'C25':(SPEC+"a claim, update or release changes exactly the named IDs",TN),
 'C26':(SPEC+"an operation returns nil exactly if its effect took place",SN+" For trees: "+TN),
 'C27':(SPEC+"claims of claimed IDs or ranges fail and change nothing",TN),
}
NA={
 'C28':"Whole-history equivalence of a mutable heap structure with an abstract map needs an inductive shape invariant over unbounded heaps; no sound static argument in reach. The per-operation properties C18-C25 cover its steps.",
 'C29':"Time and memory cost are runtime quantities; a static bound on iterations depends on the claim pattern.",
 'C30':"Linearizability and progress quantify over whole schedules and scheduler fairness; the static lock discipline is covered by C01-C03, the rest is outside this family.",
}
import os
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[],
   "notes":"Pure static analysis; no hooks in /repo. One Go program (checker/) loads /repo's current source, builds SSA and decides the rules of one property per run."}
for p in ids:
    if p in C:
        m['checks'].append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":C[p][0],"level":"other","level_note":C[p][1]})
    else:
        m['not_applicable'].append({"property":p,"reason":NA.get(p,"no check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
