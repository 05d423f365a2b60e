// Package defects: demonstrations of the genuine defects found in the base
// commit. Run: /verif/findings/run.sh (records pass/fail; not part of any check).
package table_test

import (
	"math"
	"net/netip"
	"sync"
	"testing"
	"time"

	ntable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"k8s.io/apimachinery/pkg/labels"
)

func nopanic(t *testing.T, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f()
}

func TestD01_ZeroSizeTable(t *testing.T) {
	r := idxtable.NewTable[string](0)
	if r.Claim(7, "a") == nil {
		t.Error("claim accepted by an empty table")
	}
}

func TestD02_FindFreeRange(t *testing.T) {
	r := idxtable.NewTable[string](10)
	r.Claim(4, "x")
	if ids, err := r.FindFreeRange(0, 5); err == nil {
		t.Errorf("range ending on a claimed id: %v", ids)
	}
	r = idxtable.NewTable[string](10)
	if ids, err := r.FindFreeRange(3, 1); err != nil || len(ids) != 1 {
		t.Errorf("single: %v %v", ids, err)
	}
	if ids, err := r.FindFreeRange(9, 1); err != nil || len(ids) != 1 {
		t.Errorf("single last: %v %v", ids, err)
	}
	if ids, err := r.FindFreeRange(5, math.MaxUint64); err == nil {
		t.Errorf("wrapping size: %v", ids)
	}
	if ids, err := r.FindFreeRange(5, 0); err == nil && len(ids) > 0 {
		t.Errorf("zero size: %v", ids)
	}
}

func within(t *testing.T, d time.Duration, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		t.Error("deadlock")
	}
}

func TestD03_GetAllRecursiveRLock(t *testing.T) {
	r := idxtable.NewTable[string](2000)
	for i := uint64(0); i < 1000; i++ {
		r.Claim(i, "a")
	}
	within(t, 20*time.Second, func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					r.Release(1999)
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					r.GetAll()
				}
			}()
		}
		wg.Wait()
	})
}

func TestD04_IteratorAliasesLiveTable(t *testing.T) {
	r := idxtable.NewTable[string](10)
	r.Claim(1, "a")
	it := r.Iterate()
	it.Next()
	r.Release(1)
	nopanic(t, func() {
		if it.Value() == nil {
			t.Error("iterator lost its entry")
		}
	})
}

func TestD05_FullRangeCapacity(t *testing.T) {
	r := table16.New(0, 65535)
	if _, err := r.FindFree(); err != nil {
		t.Errorf("table16: %v", err)
	}
	r = table32.New(0, math.MaxUint32)
	if _, err := r.FindFree(); err != nil {
		t.Errorf("table32: %v", err)
	}
}

func TestD06_GetReturnsIndex(t *testing.T) {
	r := table16.New(100, 199)
	r.Claim(150, nil)
	e, err := r.Get(150)
	if err != nil || e.ID().ID() != 150 {
		t.Errorf("got %v %v", e, err)
	}
}

func TestD07_Table16Width(t *testing.T) {
	r := table16.New(100, 199)
	e, _ := r.ClaimFree(nil)
	if all := r.GetAll(); len(all) != 1 || !all[0].Equal(e) {
		t.Errorf("claimed %v, listed %v", e, all)
	}
}

func TestD08_ClaimFreeSpuriousFailure(t *testing.T) {
	for n := 0; n < 2000; n++ {
		r := table16.New(0, 7)
		var wg sync.WaitGroup
		var mu sync.Mutex
		fails := 0
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if _, err := r.ClaimFree(nil); err != nil {
					mu.Lock()
					fails++
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if fails > 0 {
			t.Fatalf("%d of 8 claims failed with 8 free ids", fails)
		}
	}
}

func TestD09_CloneIncomplete(t *testing.T) {
	vt, _ := tree16.New("a", 16)
	vt.ClaimID(id16.NewID(1, 16), labels.Set{"n": "1"})
	vt.ClaimID(id16.NewID(2, 16), labels.Set{"n": "2"})
	c := vt.Clone()
	nopanic(t, func() {
		c.ClaimID(id16.NewID(3, 16), labels.Set{"n": "3"})
		for _, e := range c.GetAll() {
			if e == nil {
				t.Error("nil entry in clone")
				return
			}
		}
		if n := len(c.GetAll()); n != 3 {
			t.Errorf("clone has %d entries", n)
		}
		e, err := c.Get(id16.NewID(1, 16))
		if err != nil || e.Labels()["n"] != "1" {
			t.Errorf("clone get: %v %v", e, err)
		}
	})
}

func TestD10_Tree64Collision(t *testing.T) {
	vt, _ := tree64.New("a", 32)
	vt.ClaimID(id64.NewID(10, 64), labels.Set{"n": "10"})
	vt.ClaimID(id64.NewID(11, 64), labels.Set{"n": "11"})
	e, err := vt.Get(id64.NewID(10, 64))
	if err != nil || e.Labels()["n"] != "10" {
		t.Errorf("%v %v", e, err)
	}
}

func TestD11_Mask64Zero(t *testing.T) {
	m, _ := id64.NewID(math.MaxUint64, 64).Mask(0)
	if m.ID() != 0 {
		t.Errorf("%x", m.ID())
	}
}

func TestD12_Prev64(t *testing.T) {
	if got := id64.NewID(1<<40, 64).Prev().ID(); got != 1<<40-1 {
		t.Errorf("%x", got)
	}
}

func TestD13_NextOverflow(t *testing.T) {
	if got := id16.NewID(65535, 16).Next(); got.ID() != 0 {
		t.Errorf("16: %v", got)
	}
	if got := id32.NewID(math.MaxUint32, 32).Next(); got.ID() != 0 {
		t.Errorf("32: %v", got)
	}
	if got := id64.NewID(math.MaxUint64, 64).Next(); got.ID() != 0 {
		t.Errorf("64: %v", got)
	}
	var b id16.IDSetBuilder
	b.AddRange(id16.RangeFrom(0, 65535))
	b.AddRange(id16.RangeFrom(1, 5))
	s, _ := b.IPSet()
	if rr := s.Ranges(); len(rr) != 1 || rr[0].To().ID() != 65535 {
		t.Errorf("union %v", rr)
	}
}

func TestD14_Tree32Root(t *testing.T) {
	vt, _ := tree32.New("a", 32)
	a, _ := vt.ClaimFree(nil)
	b, err := vt.ClaimFree(nil)
	if err != nil || a.ID().ID() == b.ID().ID() {
		t.Errorf("%v %v %v", a, b, err)
	}
}

func TestD15_ClaimFreeAfterWholeSpace(t *testing.T) {
	vt, _ := tree16.New("a", 12)
	vt.ClaimRange("0-4095", nil)
	if e, err := vt.ClaimFree(nil); err == nil {
		t.Errorf("claimed %v although everything is taken", e)
	}
}

func TestD16_ConcurrentClaimFree(t *testing.T) {
	for n := 0; n < 3000; n++ {
		vt, _ := tree16.New("a", 12)
		var wg sync.WaitGroup
		got := make([]uint64, 8)
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				e, err := vt.ClaimFree(nil)
				if err == nil {
					got[g] = e.ID().ID() + 1
				}
			}()
		}
		close(start)
		wg.Wait()
		seen := map[uint64]bool{}
		for _, x := range got {
			if x != 0 && seen[x] {
				t.Fatalf("id %d claimed twice", x-1)
			}
			seen[x] = true
		}
	}
}

func TestD17_ClaimRangeOutside(t *testing.T) {
	vt, _ := tree16.New("a", 12)
	if vt.ClaimRange("5000-6000", nil) == nil {
		t.Error("out of range accepted")
	}
	if vt.ClaimRange("10-0", nil) == nil {
		t.Error("inverted range accepted")
	}
}

func TestD21_TreeIteratorLive(t *testing.T) {
	vt, _ := tree16.New("a", 12)
	vt.ClaimID(id16.NewID(1, 16), labels.Set{"n": "1"})
	it := vt.Iterate()
	it.Next()
	vt.ReleaseID(id16.NewID(1, 16))
	nopanic(t, func() { _ = it.Entry().ID() })
}

func TestD22_TreeValidate(t *testing.T) {
	vt, _ := tree16.New("a", 12)
	if vt.ClaimID(id16.NewID(0, 2), nil) == nil {
		t.Error("prefix beyond the tree accepted")
	}
	nopanic(t, func() {
		if vt.ClaimID(id16.NewID(5, 200), nil) == nil {
			t.Error("length 200 accepted")
		}
	})
}

func TestD23_InvalidIdInBuilder(t *testing.T) {
	nopanic(t, func() {
		var b id16.IDSetBuilder
		b.AddId(id16.NewID(5, 200))
		if _, err := b.IPSet(); err == nil {
			t.Error("no error")
		}
	})
}

func TestD24_LabelsAliased(t *testing.T) {
	l := labels.Set{"a": "b"}
	e := tree.NewEntry(id16.NewID(1, 16), l)
	l["a"] = "c"
	if e.Labels()["a"] != "b" {
		t.Error("caller map stored")
	}
	e.Labels()["a"] = "d"
	if e.Labels()["a"] != "b" {
		t.Error("internal map returned")
	}
}

func TestD25_WideIPRange(t *testing.T) {
	r := iptable.New(netip.MustParseAddr("2001:db8::"), netip.MustParseAddr("2001:db8:ffff:ffff:ffff:ffff:ffff:ffff"))
	if err := r.Claim("2001:db8::1", ntable.Route{}); err != nil {
		t.Errorf("claim: %v", err)
	}
	if r.Has("2001:db8:0:1::1") {
		t.Error("a different address reads as claimed")
	}
	within(t, 10*time.Second, func() {
		if a, err := r.FindFree(); err != nil || a.String() != "2001:db8::" {
			t.Errorf("free %v %v", a, err)
		}
	})
}

func TestD28_Parents(t *testing.T) {
	vt, _ := tree16.New("a", 16)
	vt.ClaimID(id16.NewID(0, 12), nil)
	if p := vt.Parents(id16.NewID(0, 8)); len(p) != 0 {
		t.Errorf("child reported as parent: %v", p)
	}
}

func TestD29_Mask64(t *testing.T) {
	if m, err := id64.NewID(5, 64).Mask(40); err != nil || m.Length() != 40 {
		t.Errorf("mask of length 40: %v %v", m, err)
	}
	vt, _ := tree64.New("a", 16)
	if e, err := vt.ClaimFree(nil); err != nil || e.ID().ID() != 0 {
		t.Errorf("claim free in 16 bits: %v %v", e, err)
	}
}

// two spellings of one prefix are one ID
func TestD30_PrefixSpelling(t *testing.T) {
	r, _ := tree32.New("x", 32)
	if err := r.ClaimID(id32.NewID(4, 29), labels.Set{"a": "1"}); err != nil {
		t.Fatal(err)
	}
	if err := r.ClaimID(id32.NewID(5, 29), labels.Set{"a": "2"}); err == nil {
		t.Error("claim of 5/29 took over 4/29")
	}
	if _, err := r.Get(id32.NewID(6, 29)); err != nil {
		t.Error(err)
	}
}

func TestD31_ClaimClaimed(t *testing.T) {
	r, _ := tree32.New("x", 32)
	if err := r.ClaimRange("0-7", labels.Set{"a": "1"}); err != nil {
		t.Fatal(err)
	}
	if err := r.ClaimRange("0-7", labels.Set{"a": "2"}); err == nil {
		t.Error("range claimed twice")
	}
	if err := r.ClaimID(id32.NewID(0, 29), labels.Set{"a": "2"}); err == nil {
		t.Error("ID claimed twice")
	}
}
