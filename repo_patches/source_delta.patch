From 83d4236bac3241b909eee8494824d30c37e5c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 01/31] fix: find a free index without materialising all free
 indexes

FindFree and ClaimDynamic listed every free index of the table (34 GB for a
32-bit range) just to return the first one.
---
 pkg/idxtable/table.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..2fe4013 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -78,15 +78,15 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
-		if err := r.add(e); err != nil {
-			return nil, err
-		}
-		return e, nil
+	id, err := r.findFree()
+	if err != nil {
+		return nil, err
+	}
+	e := NewEntry(id, d)
+	if err := r.add(e); err != nil {
+		return nil, err
 	}
-	return nil, fmt.Errorf("no free entry found")
+	return e, nil
 }
 
 func (r *table[T1]) ClaimRange(start, size uint64, d T1) error {
@@ -214,10 +214,17 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	if free.Next() {
-		return free.ID(), nil
+	return r.findFree()
+}
+
+func (r *table[T1]) findFree() (uint64, error) {
+	for id := uint64(0); id < r.size; id++ {
+		if r.isFree(id) {
+			return id, nil
+		}
 	}
 	return 0, fmt.Errorf("no free entry found")
 }
-- 
2.43.0


From fafe71b79c7c9e0a83918b4937a03063312d3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 02/31] fix: an index table of size 0 has no valid index

size-1 wrapped around, so every id was accepted.
---
 pkg/idxtable/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 2fe4013..777584a 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -46,8 +46,8 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
-	if id > r.size-1 {
-		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
+	if id >= r.size {
+		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size)
 	}
 	return nil
 }
-- 
2.43.0


From 71e031d19c1a6e2b06956220380280c109b48a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 03/31] fix: a free range contains exactly the requested
 indexes

FindFreeRange/ClaimRange skipped a claimed last index and took the next free
one, returned two indexes for size 1, failed for the last index, and accepted
sizes that wrap around.
---
 pkg/idxtable/table.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 777584a..834e9d1 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -236,35 +236,25 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
+	if size == 0 {
+		return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	}
+	if start >= r.size {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	if size > r.size-start {
+		return nil, fmt.Errorf("start %d, size %d is bigger then max allowed entries: %d", start, size, r.size)
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
-		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
-			return entries, nil
+	for i := uint64(0); i < size; i++ {
+		id := start + i
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
 		}
+		entries = append(entries, id)
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	return entries, nil
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From 9c1ae08fdedb7edf90505cf62ed92f64777cceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 04/31] fix: GetAll no longer takes the read lock recursively

A writer queued between the two RLock calls deadlocked the table.
---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 834e9d1..40066b7 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -316,7 +316,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 6e9a71c71918cc52c37ac97c0f489366120c20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 05/31] fix: index table iterators work on a snapshot

Iterate and IterateFree handed out the live map: reading it after the lock was
released raced with writers and lost entries released in the meantime.
---
 pkg/idxtable/table.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 40066b7..af4701f 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,17 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	// the iterator is used without the lock: give it its own copy of the table
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		table[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -170,22 +173,18 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
 
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: map[uint64]Entry[T1]{}}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 453c6d784dee0ead985b53ebcd51d4327c45de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 06/31] fix: a range table over the full width has a slot per
 id

end-start+1 wrapped to 0 in the id type, leaving a table of size 0.
---
 pkg/table/table16/table16.go | 2 +-
 pkg/table/table32/table32.go | 2 +-
 pkg/table/table64/table64.go | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..f3171c3 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..8976bc0 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..127dc6b 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -11,9 +12,14 @@ import (
 )
 
 func New(start, end uint64) table.Table {
+	size := end - start
+	if size < math.MaxUint64 {
+		// the full 64 bit range has one id more than a table can index
+		size++
+	}
 	return &table64{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			size,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From 3cf43a5ba3e550469ce5164d519d6c7c0ff9bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 07/31] fix: Get on a range table returns the external id

The stored entry carries the internal index; GetAll and GetByLabel remap it,
Get did not.
---
 pkg/table/table16/table16.go | 3 ++-
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index f3171c3..4c2c825 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -38,7 +38,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8976bc0..d8fd41b 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 127dc6b..655575b 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -43,7 +43,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(uint64(id), id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 142ff5f214abadb68f9ce7642516194323ab446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 08/31] fix: table16 lists its entries with 16 bit ids

GetAll and GetByLabel returned 32 bit ids, unequal to what ClaimFree and Get
return.
---
 pkg/table/table16/table16.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 4c2c825..5143bc0 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -126,7 +125,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -142,7 +141,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From 3aee3ffeaa0db6410093eb5f56b77cce78d17968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 09/31] fix: ClaimFree on a range table claims in one step

Two concurrent ClaimFree calls found the same free id and one of them failed
although other ids were free. The stored id is no longer used for remapping;
the index is.
---
 pkg/table/table16/table16.go | 13 +++++--------
 pkg/table/table32/table32.go | 13 +++++--------
 pkg/table/table64/table64.go | 13 +++++--------
 3 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 5143bc0..133a60d 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -57,16 +57,13 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
-
-	id, err := r.FindFree()
+	// claim in one step: finding a free id first and claiming it afterwards
+	// fails when another claim takes the id in between
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id16.NewID(0, id16.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
-		return nil, err
-	}
-	treeId := id16.NewID(uint16(id), id16.IDBitSize)
+	treeId := id16.NewID(calculateIDFromIndex(r.start, e.ID()), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -141,7 +138,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, iter.ID()), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index d8fd41b..246f8cb 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -57,16 +57,13 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
-
-	id, err := r.FindFree()
+	// claim in one step: finding a free id first and claiming it afterwards
+	// fails when another claim takes the id in between
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id32.NewID(0, id32.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
-		return nil, err
-	}
-	treeId := id32.NewID(uint32(id), id32.IDBitSize)
+	treeId := id32.NewID(calculateIDFromIndex(r.start, e.ID()), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -141,7 +138,7 @@ func (r *table32) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id32.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, iter.ID())), id32.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 655575b..82ea308 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -63,16 +63,13 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
-	// Validate input
-
-	id, err := r.FindFree()
+	// claim in one step: finding a free id first and claiming it afterwards
+	// fails when another claim takes the id in between
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id64.NewID(0, id64.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
-		return nil, err
-	}
-	treeId := id64.NewID(uint64(id), id64.IDBitSize)
+	treeId := id64.NewID(calculateIDFromIndex(r.start, e.ID()), id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -147,7 +144,7 @@ func (r *table64) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id64.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, iter.ID())), id64.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From 48bfa92cdd52087676effc584aa1c4722379a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 10/31] fix: ip tables wider than 64 bits neither lose nor
 share slots

The address count was truncated to an int (a /64 had size 0) and the index of an
address to 64 bits, so addresses 2^64 apart shared a slot.
---
 pkg/iptable/iptable.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 4d78b9d..38fd7fb 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -2,6 +2,7 @@ package iptable
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"net/netip"
 
@@ -30,7 +31,7 @@ type IPTable interface {
 func New(from, to netip.Addr) IPTable {
 	return &ipTable{
 		table: idxtable.NewTable[table.Route](
-			uint64(numIPs(from, to)),
+			numIPs(from, to),
 		),
 		ipRange: netipx.IPRangeFrom(from, to),
 	}
@@ -158,6 +159,9 @@ func (r *ipTable) validateIP(addr string) (netip.Addr, error) {
 	if !r.ipRange.Contains(claimIP) {
 		return netip.Addr{}, fmt.Errorf("ip address %s, does not fit in the range from %s to %s", addr, r.ipRange.From().String(), r.ipRange.To().String())
 	}
+	if !new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())).IsUint64() {
+		return netip.Addr{}, fmt.Errorf("ip address %s, is too far from the start of the range %s", addr, r.ipRange.From().String())
+	}
 	return claimIP, nil
 }
 
@@ -166,13 +170,21 @@ func calculateIndex(ip, start netip.Addr) uint64 {
 	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()
 }
 
-func numIPs(startIP, endIP netip.Addr) int {
+func numIPs(startIP, endIP netip.Addr) uint64 {
 	// Convert IP addresses to big integers
 	start := ipToInt(startIP)
 	end := ipToInt(endIP)
 
 	diff := new(big.Int).Sub(end, start)
-	return int(diff.Int64()) + 1 // Add 1 to include the start IP
+	if diff.Sign() < 0 {
+		return 0
+	}
+	num := new(big.Int).Add(diff, big.NewInt(1)) // Add 1 to include the start IP
+	if !num.IsUint64() {
+		// the table cannot index more addresses than this
+		return math.MaxUint64
+	}
+	return num.Uint64()
 }
 
 func ipToInt(ip netip.Addr) *big.Int {
-- 
2.43.0


From 03a9643ea2256ff95ec9d941b27d237ad6943e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 11/31] fix: the id after the largest id is the zero id

addOne added the carry back, so Next of the maximum was 1 and merging
[0,max] with [1,5] lost everything above 5.
---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..851da5d 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 3315122b8850e83b52fbaedf2f78e51d5d638ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 12/31] fix: the 64 bit predecessor no longer drops the upper
 32 bits

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 851da5d..07ba6de 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
-- 
2.43.0


From ede3c69e6e1b2b5ce3826b028005983a87bd14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 13/31] fix: the 64 bit mask of length 0 is zero

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 07ba6de..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From b422876fc8362c634186bae3a0631e548c7a761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 14/31] fix: the zero range is invalid instead of panicking

RangeOfID yields the zero range for an id whose length exceeds the width; the
set builder's validity check dereferenced its nil endpoints.
---
 pkg/tree/id16/range16.go | 3 ++-
 pkg/tree/id32/range32.go | 3 ++-
 pkg/tree/id64/range64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..2f0ae1d 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,8 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..f75a11f 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,8 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..e7ee6d1 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,8 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From 11f98a5febc223f8cb42bd8e3d198d46c90a15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 15/31] fix: a cloned tree keeps the name, width and bit test
 of the original

Without them the clone panicked on inserts and its value slots collided.
---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..2853fe7 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From 4f882a1064c10ef4aa0ae48350f54e2b9314a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 16/31] fix: values of different nodes never share a slot

Keys were nodeIndex << width; with 64 bit ids that is 0 for every node, so all
entries of a 64 bit tree shared one value.
---
 pkg/tree/tree.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 2853fe7..e5cf6e9 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -81,12 +81,19 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKey returns the key of the first value of a node; the values of a node
+// have consecutive keys. The width of the ids must not matter here: shifting by
+// 64 maps every node to the same key.
+func valKey(nodeIndex uint) uint64 {
+	return uint64(nodeIndex) << 32
+}
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := valKey(nodeIndex)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -106,8 +113,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := valKey(fromIndex)
+	toKey := valKey(toIndex)
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -126,7 +133,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := valKey(nodeIndex)
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -149,7 +156,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, valKey(nodeIndex)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From 37b9aa7274ed190d930c11c66ac78674efb88142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 17/31] fix: entries own their labels

The caller's map was stored and handed out, so changing it changed (and raced
with) stored entries.
---
 pkg/tree/entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 26b342c..9f7c905 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -2,6 +2,7 @@ package tree
 
 import (
 	"fmt"
+	"maps"
 
 	"k8s.io/apimachinery/pkg/labels"
 )
@@ -20,7 +21,7 @@ type entry struct {
 type Entries []Entry
 
 func (r entry) ID() ID             { return r.id }
-func (r entry) Labels() labels.Set { return r.labels }
+func (r entry) Labels() labels.Set { return maps.Clone(r.labels) }
 func (r entry) String() string     { return fmt.Sprintf("id: %d, labels: %s", r.id, r.labels.String()) }
 func (r entry) Equal(e2 Entry) bool {
 	if r.ID().ID() == e2.ID().ID() &&
@@ -34,7 +35,7 @@ func (r entry) Equal(e2 Entry) bool {
 func NewEntry(id ID, labels labels.Set) Entry {
 	return entry{
 		id:     id.Copy(),
-		labels: labels,
+		labels: maps.Clone(labels),
 	}
 }
 
-- 
2.43.0


From 66dce47d878dfa891bf862cb25547eab3b2d51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 18/31] fix: tree32 searches free ids in its own id space

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..91cfeb0 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, id32.IDBitSize-r.length)
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 87f73358ee16fb466c8bb56816a35f4ca34c565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 19/31] fix: ClaimFree on a tree sees every claim and claims in
 one step

---
 pkg/tree/tree16/tree16.go | 21 +++++++++++++++++----
 pkg/tree/tree32/tree32.go | 20 ++++++++++++++++----
 pkg/tree/tree64/tree64.go | 20 ++++++++++++++++----
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..de90861 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -77,12 +77,14 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// find and claim in one step, otherwise two claims can get the same id
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -120,8 +122,12 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// a claim of the root itself, or of a parent of it, takes ids as well
+	iter := r.iterate()
+	for iter.Next() {
+		if e := iter.Entry(); e.ID().Overlaps(rootID) {
+			bldr.RemoveId(e.ID())
+		}
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -249,6 +255,13 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	}
 }
 
+// iterate is used with the lock held
+func (r *tree16) iterate() *gtree.GTreeIterator {
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Iterate(),
+	}
+}
+
 func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 91cfeb0..ed57164 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -75,6 +75,9 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// find and claim in one step, otherwise two claims can get the same id
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +86,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -119,8 +120,12 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// a claim of the root itself, or of a parent of it, takes ids as well
+	iter := r.iterate()
+	for iter.Next() {
+		if e := iter.Entry(); e.ID().Overlaps(rootID) {
+			bldr.RemoveId(e.ID())
+		}
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -248,6 +253,13 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	}
 }
 
+// iterate is used with the lock held
+func (r *tree32) iterate() *gtree.GTreeIterator {
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Iterate(),
+	}
+}
+
 func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..5c3e71c 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -76,6 +76,9 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	// find and claim in one step, otherwise two claims can get the same id
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +87,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -120,8 +121,12 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// a claim of the root itself, or of a parent of it, takes ids as well
+	iter := r.iterate()
+	for iter.Next() {
+		if e := iter.Entry(); e.ID().Overlaps(rootID) {
+			bldr.RemoveId(e.ID())
+		}
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -249,6 +254,13 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	}
 }
 
+// iterate is used with the lock held
+func (r *tree64) iterate() *gtree.GTreeIterator {
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Iterate(),
+	}
+}
+
 func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
-- 
2.43.0


From 13debfce29961fe374c803665fa5a6b13f3bdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 20/31] fix: tree queries do not take the read lock twice

---
 pkg/tree/tree16/tree16.go | 10 ++++------
 pkg/tree/tree32/tree32.go | 10 ++++------
 pkg/tree/tree64/tree64.go | 10 ++++------
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index de90861..c867243 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -44,7 +44,7 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -184,7 +184,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +201,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
@@ -250,9 +250,7 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return &gtree.GTreeIterator{
-		Iter: r.tree.Iterate(),
-	}
+	return r.iterate()
 }
 
 // iterate is used with the lock held
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index ed57164..73c744c 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -42,7 +42,7 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -182,7 +182,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -199,7 +199,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
@@ -248,9 +248,7 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return &gtree.GTreeIterator{
-		Iter: r.tree.Iterate(),
-	}
+	return r.iterate()
 }
 
 // iterate is used with the lock held
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 5c3e71c..8b06ea8 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -42,7 +42,7 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -183,7 +183,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -200,7 +200,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
@@ -249,9 +249,7 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return &gtree.GTreeIterator{
-		Iter: r.tree.Iterate(),
-	}
+	return r.iterate()
 }
 
 // iterate is used with the lock held
-- 
2.43.0


From dc43f7c2e15e67f35f60b75b3aeaf86dbb351ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 21/31] fix: every tree query holds the read lock

---
 pkg/tree/tree16/tree16.go | 24 +++++++++++++++++++++---
 pkg/tree/tree32/tree32.go | 24 +++++++++++++++++++++---
 pkg/tree/tree64/tree64.go | 24 +++++++++++++++++++++---
 3 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index c867243..f677740 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -212,9 +215,12 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,9 +231,12 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -236,9 +245,12 @@ func (r *tree16) GetAll() tree.Entries {
 }
 
 func (r *tree16) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -271,9 +283,15 @@ func (r *tree16) validate(id tree.ID) error {
 }
 
 func (r *tree16) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree16) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 73c744c..2e3d0b5 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -210,9 +213,12 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -223,9 +229,12 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -234,9 +243,12 @@ func (r *tree32) GetAll() tree.Entries {
 }
 
 func (r *tree32) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -269,9 +281,15 @@ func (r *tree32) validate(id tree.ID) error {
 }
 
 func (r *tree32) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree32) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 8b06ea8..1ff537f 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -211,9 +214,12 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -224,9 +230,12 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -235,9 +244,12 @@ func (r *tree64) GetAll() tree.Entries {
 }
 
 func (r *tree64) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -270,9 +282,15 @@ func (r *tree64) validate(id tree.ID) error {
 }
 
 func (r *tree64) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(1)
 }
 
 func (r *tree64) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
-- 
2.43.0


From 5b1b0f7548cd2c9844fe90ee96c6b5360080515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 22/31] fix: a release on a tree looks up and deletes in one
 step

---
 pkg/tree/tree16/tree16.go | 19 +++++++++++++------
 pkg/tree/tree32/tree32.go | 19 +++++++++++++------
 pkg/tree/tree64/tree64.go | 19 +++++++++++++------
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index f677740..3b07270 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -46,7 +46,11 @@ func (r *tree16) Clone() gtree.GTree {
 func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
+// get is used with the lock held
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -151,22 +155,21 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	for _, e := range r.getByLabel(selector) {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
 		}
@@ -217,7 +220,11 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
 
+// getByLabel is used with the lock held
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 2e3d0b5..687e0ee 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -44,7 +44,11 @@ func (r *tree32) Clone() gtree.GTree {
 func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
+// get is used with the lock held
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -149,22 +153,21 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	for _, e := range r.getByLabel(selector) {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
 		}
@@ -215,7 +218,11 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
 
+// getByLabel is used with the lock held
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 1ff537f..c0cecf1 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -44,7 +44,11 @@ func (r *tree64) Clone() gtree.GTree {
 func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.get(id)
+}
 
+// get is used with the lock held
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -150,22 +154,21 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	for _, e := range entries {
+	for _, e := range r.getByLabel(selector) {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
 		}
@@ -216,7 +219,11 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
+	return r.getByLabel(selector)
+}
 
+// getByLabel is used with the lock held
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
-- 
2.43.0


From 98789a3fc96fc7693fee7971e7e4f8667a8b2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 23/31] fix: trees reject prefixes outside their id space

---
 pkg/tree/tree16/tree16.go | 7 +++++--
 pkg/tree/tree32/tree32.go | 7 +++++--
 pkg/tree/tree64/tree64.go | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 3b07270..c71332b 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -283,8 +283,11 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
+	}
+	if last := id16.LastID(id); last.ID() > uint64(r.size) {
+		return fmt.Errorf("max id allowed is %d, got %d as the last id of %s", r.size, last.ID(), id.String())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 687e0ee..464bc1f 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -281,8 +281,11 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id32.IDBitSize, id.Length())
+	}
+	if last := id32.LastID(id); last.ID() > uint64(r.size) {
+		return fmt.Errorf("max id allowed is %d, got %d as the last id of %s", r.size, last.ID(), id.String())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index c0cecf1..d00d4a0 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -282,8 +282,11 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id64.IDBitSize, id.Length())
+	}
+	if last := id64.LastID(id); last.ID() > uint64(r.size) {
+		return fmt.Errorf("max id allowed is %d, got %d as the last id of %s", r.size, last.ID(), id.String())
 	}
 	return nil
 }
-- 
2.43.0


From b228f4580026c7051c2ca10e5258b66eba21340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 24/31] fix: ClaimRange validates the range and takes the lock

---
 pkg/tree/tree16/tree16.go | 14 +++++++++++++-
 pkg/tree/tree32/tree32.go | 14 +++++++++++++-
 pkg/tree/tree64/tree64.go | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index c71332b..7e28b73 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -105,11 +105,23 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	ids := trange.IDs()
+	for _, treeId := range ids {
+		if err := r.validate(treeId); err != nil {
+			return err
+		}
+	}
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// TODO check if free
 
 	// get each entry and validate owner
 
-	for _, treeId := range trange.IDs() {
+	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
 			return err
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 464bc1f..f1221d7 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -104,11 +104,23 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	ids := vlanRange.IDs()
+	for _, treeId := range ids {
+		if err := r.validate(treeId); err != nil {
+			return err
+		}
+	}
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// TODO check if free
 
 	// get each entry and validate owner
 
-	for _, treeId := range vlanRange.IDs() {
+	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
 			return err
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index d00d4a0..a42ad51 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -105,11 +105,23 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	ids := treeRange.IDs()
+	for _, treeId := range ids {
+		if err := r.validate(treeId); err != nil {
+			return err
+		}
+	}
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	// TODO check if free
 
 	// get each entry and validate owner
 
-	for _, treeId := range treeRange.IDs() {
+	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
 			return err
-- 
2.43.0


From d9b59bb2539706790eb4dc785ba1edc619936771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 25/31] fix: tree iterators work on a snapshot

---
 pkg/tree/tree16/tree16.go | 5 ++++-
 pkg/tree/tree32/tree32.go | 5 ++++-
 pkg/tree/tree64/tree64.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 7e28b73..214d007 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -281,7 +281,10 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator is used without the lock: give it its own copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate is used with the lock held
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index f1221d7..4dcffb2 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -279,7 +279,10 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator is used without the lock: give it its own copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate is used with the lock held
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index a42ad51..60ae3d4 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -280,7 +280,10 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterate()
+	// the iterator is used without the lock: give it its own copy of the tree
+	return &gtree.GTreeIterator{
+		Iter: r.tree.Clone().Iterate(),
+	}
 }
 
 // iterate is used with the lock held
-- 
2.43.0


From 384e94684f089b585d3a2fcd66d612f3edcdc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 26/31] fix: Parents returns parents only

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 214d007..ec4cfe3 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -222,7 +222,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 4dcffb2..15f9252 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -220,7 +220,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 60ae3d4..b1be78e 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -221,7 +221,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 56393d679c15980945a7155e41a1e925fc2822a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 27/31] fix: deleting a value keeps duplicates of other values

---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index e5cf6e9..ad47e59 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -168,7 +168,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From 058cff178ff12f0148eb8de25cd36ea5603500de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:04 +0000
Subject: [PATCH 28/31] fix: the 64 bit mask accepts every length of its width

---
 pkg/tree/id64/id64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
-- 
2.43.0


From 2ba11b77f3d08a627f42ca977850069a9ff01811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 29/31] fix: a tree claim of a claimed id fails

---
 pkg/tree/tree16/tree16.go | 12 ++++++++----
 pkg/tree/tree32/tree32.go | 12 ++++++++----
 pkg/tree/tree64/tree64.go | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index ec4cfe3..0bc3c3c 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -80,6 +80,9 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 
 	r.m.Lock()
 	defer r.m.Unlock()
+	if _, err := r.get(id); err == nil {
+		return fmt.Errorf("id %s is already claimed", id.String())
+	}
 	return r.set(id, treeEntry)
 }
 
@@ -117,10 +120,11 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	// TODO check if free
-
-	// get each entry and validate owner
-
+	for _, treeId := range ids {
+		if _, err := r.get(treeId); err == nil {
+			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
+		}
+	}
 	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 15f9252..d6777bf 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -78,6 +78,9 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 
 	r.m.Lock()
 	defer r.m.Unlock()
+	if _, err := r.get(id); err == nil {
+		return fmt.Errorf("id %s is already claimed", id.String())
+	}
 	return r.set(id, treeEntry)
 }
 
@@ -116,10 +119,11 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	// TODO check if free
-
-	// get each entry and validate owner
-
+	for _, treeId := range ids {
+		if _, err := r.get(treeId); err == nil {
+			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
+		}
+	}
 	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index b1be78e..869ef1b 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -79,6 +79,9 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 
 	r.m.Lock()
 	defer r.m.Unlock()
+	if _, err := r.get(id); err == nil {
+		return fmt.Errorf("id %s is already claimed", id.String())
+	}
 	return r.set(id, treeEntry)
 }
 
@@ -117,10 +120,11 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	// TODO check if free
-
-	// get each entry and validate owner
-
+	for _, treeId := range ids {
+		if _, err := r.get(treeId); err == nil {
+			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
+		}
+	}
 	for _, treeId := range ids {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
-- 
2.43.0


From 9822cf254e6b333d1855c0b0973369c5c08e648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 30/31] fix: a tree finds an entry by its prefix, as it stores
 it

---
 pkg/tree/tree16/tree16.go | 4 ++--
 pkg/tree/tree32/tree32.go | 4 ++--
 pkg/tree/tree64/tree64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 0bc3c3c..787ad7d 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -53,8 +53,8 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 func (r *tree16) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
-		if iter.Entry().ID().ID() == id.ID() &&
-			iter.Entry().ID().Length() == id.Length() {
+		if iter.Entry().ID().Length() == id.Length() &&
+			iter.Entry().ID().Overlaps(id) {
 			return iter.Entry(), nil
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index d6777bf..f312c1f 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -51,8 +51,8 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 func (r *tree32) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
-		if iter.Entry().ID().ID() == id.ID() &&
-			iter.Entry().ID().Length() == id.Length() {
+		if iter.Entry().ID().Length() == id.Length() &&
+			iter.Entry().ID().Overlaps(id) {
 			return iter.Entry(), nil
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 869ef1b..eb3e2a2 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -51,8 +51,8 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 func (r *tree64) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
-		if iter.Entry().ID().ID() == id.ID() &&
-			iter.Entry().ID().Length() == id.Length() {
+		if iter.Entry().ID().Length() == id.Length() &&
+			iter.Entry().ID().Overlaps(id) {
 			return iter.Entry(), nil
 		}
 	}
-- 
2.43.0


From f7502e153d7a2379c2042db71ad3379689363576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:56 +0000
Subject: [PATCH 31/31] fix: no free prefix is longer than the width of the ids

---
 pkg/tree/id16/idset.go | 3 +++
 pkg/tree/id32/idset.go | 3 +++
 pkg/tree/id64/idset.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/tree/id16/idset.go b/pkg/tree/id16/idset.go
index 1371e54..55ea443 100644
--- a/pkg/tree/id16/idset.go
+++ b/pkg/tree/id16/idset.go
@@ -201,6 +201,9 @@ func (s *IDSet) IDs() []tree.ID {
 // If no contiguous prefix of length bitLen exists in s,
 // RemoveFreePrefix returns ok=false.
 func (s *IDSet) RemoveFreePrefix(bitLen uint8) (tree.ID, *IDSet, bool) {
+	if bitLen > IDBitSize {
+		return nil, s, false
+	}
 	var bestFit tree.ID
 	for _, r := range s.rr {
 		for _, id := range r.IDs() {
diff --git a/pkg/tree/id32/idset.go b/pkg/tree/id32/idset.go
index 83917df..4c98141 100644
--- a/pkg/tree/id32/idset.go
+++ b/pkg/tree/id32/idset.go
@@ -201,6 +201,9 @@ func (s *IDSet) IDs() []tree.ID {
 // If no contiguous prefix of length bitLen exists in s,
 // RemoveFreePrefix returns ok=false.
 func (s *IDSet) RemoveFreePrefix(bitLen uint8) (tree.ID, *IDSet, bool) {
+	if bitLen > IDBitSize {
+		return nil, s, false
+	}
 	var bestFit tree.ID
 	for _, r := range s.rr {
 		for _, id := range r.IDs() {
diff --git a/pkg/tree/id64/idset.go b/pkg/tree/id64/idset.go
index a4d8fc1..dd074f6 100644
--- a/pkg/tree/id64/idset.go
+++ b/pkg/tree/id64/idset.go
@@ -200,6 +200,9 @@ func (s *IDSet) IDs() []tree.ID {
 // If no contiguous prefix of length bitLen exists in s,
 // RemoveFreePrefix returns ok=false.
 func (s *IDSet) RemoveFreePrefix(bitLen uint8) (tree.ID, *IDSet, bool) {
+	if bitLen > IDBitSize {
+		return nil, s, false
+	}
 	var bestFit tree.ID
 	for _, r := range s.rr {
 		for _, id := range r.IDs() {
-- 
2.43.0

