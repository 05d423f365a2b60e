T='pkg/idxtable/table.go'
SEEDS=[
('s01_update_shared_lock','C01','two concurrent Update calls (or Update and Get) on one table','Update writes the table while holding only the shared lock, so concurrent updates race on the map',
 [(T,'''func (r *table[T1]) Update(id uint64, d T1) error {
	r.m.Lock()
	defer r.m.Unlock()
''','''func (r *table[T1]) Update(id uint64, d T1) error {
	// the set of claimed ids does not change, readers can proceed
	r.m.RLock()
	defer r.m.RUnlock()
''')],'pkg/idxtable','''
package idxtable

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	r := NewTable[int](100)
	for i := uint64(0); i < 100; i++ {
		if err := r.Claim(i, 0); err != nil {
			t.Fatal(err)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				_ = r.Update(uint64((i*7+g)%100), i)
			}
		}()
	}
	wg.Wait()
}
''',True),
('s02_claimsize_leaks_lock','C02','a ClaimSize call that fails, followed by any other operation on the table','ClaimSize returns with the lock still held when no ids are found; every later operation blocks forever',
 [(T,'''	r.m.Lock()
	defer r.m.Unlock()

	ids, err := r.findFreeSize(size)
	if err != nil {
		return nil, err
	}
''','''	r.m.Lock()
	ids, err := r.findFreeSize(size)
	if err != nil {
		return nil, err
	}
	defer r.m.Unlock()

''')],'pkg/idxtable','''
package idxtable

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	r := NewTable[int](10)
	if _, err := r.ClaimSize(11, 0); err == nil {
		t.Fatal("must fail")
	}
	done := make(chan error, 1)
	go func() { done <- r.Claim(1, 0) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("table is blocked")
	}
}
''',False),
('s03_claimrange_two_sections','C03','two overlapping ClaimRange calls whose search and claim steps interleave','ClaimRange searches in one critical section and claims in another: a claim in between makes it fail half way and leave part of the range claimed',
 [(T,'''	r.m.Lock()
	defer r.m.Unlock()

	ids, err := r.findFreeRange(start, size)
	if err != nil {
		return err
	}
''','''	ids, err := r.FindFreeRange(start, size)
	if err != nil {
		return err
	}
	r.m.Lock()
	defer r.m.Unlock()

''')],'pkg/idxtable','''
package idxtable

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 4000; round++ {
		r := NewTable[int](300)
		var wg sync.WaitGroup
		var errs [4]error
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[g] = r.ClaimRange(uint64(10*(3-g)), 200, g+1)
			}()
		}
		close(start)
		wg.Wait()
		ok := 0
		for _, err := range errs {
			if err == nil {
				ok++
			}
		}
		if ok != 1 {
			t.Fatalf("round %d: %d of 4 overlapping claims succeeded", round, ok)
		}
		if r.Size() != 200 {
			t.Fatalf("round %d: a failed claim left entries: %d", round, r.Size())
		}
	}
}
''',False),
('s05_update_creates','C05','an Update of an index that is not claimed, then a look at the table','a failing Update of a free index leaves the entry in the table',
 [(T,'''	if r.isFree(e.ID()) {
		return fmt.Errorf("entry %d not created", e.ID())
	}
	r.table[e.ID()] = e
	return nil
}
''','''	_, exists := r.table[e.ID()]
	r.table[e.ID()] = e
	if !exists {
		return fmt.Errorf("entry %d not created", e.ID())
	}
	return nil
}
''')],'pkg/idxtable','''
package idxtable

import "testing"

func TestDemo(t *testing.T) {
	r := NewTable[int](10)
	if err := r.Update(3, 1); err == nil {
		t.Fatal("update of a free index must fail")
	}
	if r.Has(3) || r.Size() != 0 {
		t.Fatal("failed update created an entry")
	}
}
''',False),
('s06_size_zero','C06','a size claim for zero entries','ClaimSize(0) claims an entry',
 [(T,'		if i > size-1 {','		if i >= size {')],'pkg/idxtable','''
package idxtable

import "testing"

func TestDemo(t *testing.T) {
	r := NewTable[int](10)
	es, err := r.ClaimSize(0, 1)
	if err == nil && len(es) != 0 || r.Size() != 0 {
		t.Fatalf("ClaimSize(0) claimed %d entries", r.Size())
	}
}
''',False),
('s07_iteratefree_end','C07','a complete walk over the free indexes of a table','the free iterator visits the index after the last one',
 [(T,'''	for id := uint64(0); id < r.size; id++ {
		_, exists := r.table[id]''','''	for id := uint64(0); id <= r.size; id++ {
		_, exists := r.table[id]''')],'pkg/idxtable','''
package idxtable

import "testing"

func TestDemo(t *testing.T) {
	r := NewTable[int](10)
	n := 0
	for it := r.IterateFree(); it.Next(); n++ {
		if it.ID() > 9 {
			t.Fatalf("index %d is not in the table", it.ID())
		}
	}
	if n != 10 {
		t.Fatalf("%d free indexes", n)
	}
}
''',False),
]
