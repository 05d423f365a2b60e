T='pkg/tree/tree.go'
M='pkg/tree/tree_manual.go'
I16='pkg/tree/id16/'
I32='pkg/tree/id32/'
I64='pkg/tree/id64/'
T16='pkg/tree/tree16/tree16.go'
T32='pkg/tree/tree32/tree32.go'
T64='pkg/tree/tree64/tree64.go'
TH='''
package tree

import "testing"

type tid struct {
	id uint32
	l  uint8
}

func (r tid) Copy() ID                  { return r }
func (r tid) Length() uint8             { return r.l }
func (r tid) ID() uint64                { return uint64(r.id) }
func (r tid) ShiftLeft(n uint8) ID      { return tid{r.id << n, r.l - n} }
func (r tid) IsLeftBitSet() bool        { return r.id>>31 == 1 }
func (r tid) String() string            { return "" }
func (r tid) Matches(id uint64) uint8   { return uint8(bits.LeadingZeros32(uint32(id) ^ r.id)) }
func (r tid) Overlaps(ID) bool          { return false }
func (r tid) Compare(ID) int            { return 0 }
func (r tid) Less(ID) bool              { return false }
func (r tid) Next() ID                  { return r }
func (r tid) Prev() ID                  { return r }
func (r tid) Mask(l uint8) (ID, error)  { return r, nil }
func (r tid) Masked() ID                { return r }

var _ ID = tid{}

func newT() *Tree[string] {
	return NewTree[string]("t", func(id uint64) bool { return uint32(id)>>31 == 1 }, 32)
}

func eq(a, b string) bool { return a == b }

func all(t *Tree[string]) []string {
	out := []string{}
	it := t.Iterate()
	for n := 0; it.Next(); n++ {
		if n > 1000 {
			return append(out, "endless")
		}
		out = append(out, it.Vals()...)
	}
	return out
}

func same(t *testing.T, got, want []string) {
	t.Helper()
	if !slices.Equal(got, want) {
		t.Fatalf("got %v, want %v", got, want)
	}
}
'''.replace('import "testing"','import (\n\t"math/bits"\n\t"slices"\n\t"testing"\n)')
SEEDS=[
('s12_ipset_alias','C04','a builder that is used further after IPSet(), with a range that sorts before the ranges of the set','IPSet hands out the builder\'s own slice; a later AddRange/IPSet sorts it in place and changes the set already returned',
 [(I32+'idset.go','rr: append([]tree.Range{}, s.in...),','rr: s.in,')],'pkg/tree/id32','''
package id32

import "testing"

func TestDemo(t *testing.T) {
	var b IDSetBuilder
	b.AddRange(RangeFrom(10, 20))
	b.AddRange(RangeFrom(30, 40))
	b.RemoveRange(RangeFrom(30, 40))
	s, err := b.IPSet()
	if err != nil {
		t.Fatal(err)
	}
	b.AddRange(RangeFrom(1, 2))
	if _, err := b.IPSet(); err != nil {
		t.Fatal(err)
	}
	if rr := s.Ranges(); len(rr) != 1 || rr[0].String() != "10-20" {
		t.Fatalf("the set changed: %v", rr)
	}
}
''',False),
('s13_compare_by_difference','C12','two 64 bit IDs of one length that are 2^63 or more apart','IDs are ordered by the sign of their difference, which wraps around for distant IDs: smaller IDs sort after larger ones',
 [(I64+'id64.go','''	if r.ID() < id2.ID() {
		return -1
	}
	if r.ID() > id2.ID() {
		return 1
	}
	return 0''','''	switch d := int64(r.ID() - id2.ID()); {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0''')],'pkg/tree/id64','''
package id64

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewID(1, 64), NewID(1<<63+10, 64)
	if a.Compare(b) != -1 || b.Compare(a) != 1 || !a.Less(b) || b.Less(a) {
		t.Fatal("1 must sort before 2^63+10")
	}
}
''',False),
('s14_mask_table','C13','a 64 bit ID with the 41st bit set that is masked to, or compared at, length 41','one entry of the mask table repeats the one before it, so length 41 keeps only 40 bits',
 [(I64+'myuint64.go','0xffffffffff800000, //41','0xffffffffff000000, //41')],'pkg/tree/id64','''
package id64

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewID(1<<23, 41), NewID(0, 41)
	if a.Overlaps(b) {
		t.Fatal("two IDs of length 41 that differ in bit 41 overlap")
	}
	if m, _ := NewID(1<<23, 64).Mask(41); m.ID() != 1<<23 {
		t.Fatal("masking at 41 lost a bit")
	}
}
''',False),
('s15_parse_wide','C14','a range string whose end does not fit in 32 bits','the end of a range is parsed as a 64 bit number and truncated, so "5-4294967306" is the range 5-10 instead of an error',
 [(I32+'range32.go','strconv.ParseUint(to, 10, int(IDBitSize))','strconv.ParseUint(to, 10, 64)')],'pkg/tree/id32','''
package id32

import "testing"

func TestDemo(t *testing.T) {
	if r, err := ParseRange("5-4294967306"); err == nil {
		t.Fatalf("parsed as %v", r)
	}
	if r, err := ParseRange("5-4294967295"); err != nil || r.To().ID() != 4294967295 {
		t.Fatal("valid range refused")
	}
}
''',False),
('s16_addset_skips_pending','C15','AddSet on a builder with removals pending from before','AddSet appends the ranges of the set directly; removals made before it are applied to what it adds as well',
 [(I32+'idset.go','''	for _, r := range b.rr {
		s.AddRange(r)
	}''','''	// the ranges of a set are valid already
	s.in = append(s.in, b.rr...)''')],'pkg/tree/id32','''
package id32

import "testing"

func TestDemo(t *testing.T) {
	var x IDSetBuilder
	x.AddRange(RangeFrom(10, 20))
	s, err := x.IPSet()
	if err != nil {
		t.Fatal(err)
	}
	var b IDSetBuilder
	b.AddRange(RangeFrom(1, 5))
	b.RemoveRange(RangeFrom(10, 15))
	b.AddSet(s)
	r, err := b.IPSet()
	if err != nil {
		t.Fatal(err)
	}
	if rr := r.Ranges(); len(rr) != 2 || rr[1].String() != "10-20" {
		t.Fatalf("got %v", rr)
	}
}
''',False),
('s17_zero_start_block','C16','a 64 bit range that starts at 0 and ends in the upper half of the space, but not at its end','a range with no common leading bit that starts at 0 is taken for the whole ID space',
 [(I64+'range64.go','''	m := mask6[common]
''','''	if common == 0 && a.isZero() {
		return 0, true
	}
	m := mask6[common]
''')],'pkg/tree/id64','''
package id64

import "testing"

func TestDemo(t *testing.T) {
	r := RangeFrom(0, 1<<63+7)
	ids := r.IDs()
	if len(ids) != 2 {
		t.Fatalf("got %v", ids)
	}
	if l := LastID(ids[len(ids)-1]); l.ID() != 1<<63+7 {
		t.Fatalf("the last ID covered is %d", l.ID())
	}
}
''',False),
('s18_remove_best_fit','C17','a requested length longer than the best fitting block, and a look at the remaining set','the whole block the prefix was taken from is removed from the set, not just the prefix',
 [(I32+'idset.go','	b.RemoveId(id)\n	newSet','	b.RemoveId(bestFit)\n	newSet')],'pkg/tree/id32','''
package id32

import "testing"

func TestDemo(t *testing.T) {
	var b IDSetBuilder
	b.AddRange(RangeFrom(0, 255))
	s, _ := b.IPSet()
	_, s2, ok := s.RemoveFreePrefix(32)
	if !ok {
		t.Fatal("no free prefix")
	}
	if rr := s2.Ranges(); len(rr) != 1 || rr[0].String() != "1-255" {
		t.Fatalf("got %v", rr)
	}
}
''',False),
('s19_stale_value_count','C18','deleting an ID so that its sibling is merged into the parent, then storing a new ID that reuses the freed node','two sites: moving values leaves the count of the freed node, and reusing a node keeps its count; the new ID starts with a value it never got',
 [(T,'	r.nodes[fromIndex].ValCount = 0\n',''),
  (M,'		t.nodes[index] = treeNode[T]{Id: id.ID(), Length: length}\n','''		node := &t.nodes[index]
		node.Id, node.Length = id.ID(), length
		node.Left, node.Right = 0, 0
''')],'pkg/tree',TH+'''
func TestDemo(t *testing.T) {
	r := newT()
	r.Add(tid{0x00000000, 8}, "a", eq)
	r.Add(tid{0x01000000, 8}, "b", eq)
	r.Delete(tid{0x00000000, 8}, eq, "a")
	r.Add(tid{0xf0000000, 8}, "c", eq)
	r.Add(tid{0xf1000000, 8}, "d", eq)
	same(t, all(r), []string{"b", "c", "d"})
}
''',False),
('s20_reserve_one_node','C19','an ID that splits a node when the node slice has exactly one unused place','room is reserved for one node, but a split needs two: the slice moves in between and the links are written to the old copy',
 [(T,'(len(r.nodes) + 10)','(len(r.nodes) + 1)')],'pkg/tree',TH+'''
func TestDemo(t *testing.T) {
	for n := uint32(0); n < 40; n++ {
		r := newT()
		want := []string{}
		for i := uint32(0); i < n; i++ {
			r.Add(tid{i << 24, uint8(9)}, "x", eq)
			want = append(want, "x")
		}
		r.Add(tid{0xf0f00000, 12}, "a", eq)
		r.Add(tid{0xf0ff0000, 16}, "b", eq)
		same(t, all(r), append(want, "a", "b"))
	}
}
''',False),
('s21_swap_delete','C20','an ID with several values of which the deleted ones are adjacent at the end','values are deleted in place by swapping in the last one, which is not looked at again: matching values survive',
 [(T,'''	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
		delete(r.vals, valKey(nodeIndex)+uint64(i))
	}
	r.nodes[nodeIndex].ValCount = 0

	// put them back
	deleteCount := 0
	keepCount := 0
	for _, tag := range buf {
		if matchFunc(tag, matchTag) {
			deleteCount++
		} else {
			// doesn't match - get to keep it
			r.addVal(tag, nodeIndex, nil, nil)
			keepCount++
		}
	}
	return deleteCount, keepCount''','''	key := valKey(nodeIndex)
	deleteCount := 0
	keepCount := len(buf)
	for i := 0; i < keepCount; i++ {
		if matchFunc(r.vals[key+uint64(i)], matchTag) {
			// the last one takes its place
			keepCount--
			r.vals[key+uint64(i)] = r.vals[key+uint64(keepCount)]
			delete(r.vals, key+uint64(keepCount))
			deleteCount++
		}
	}
	r.nodes[nodeIndex].ValCount = keepCount
	return deleteCount, keepCount''')],'pkg/tree',TH+'''
func TestDemo(t *testing.T) {
	r := newT()
	id := tid{0x10000000, 8}
	for _, v := range []string{"a", "b", "c"} {
		r.Add(id, v, nil)
	}
	n := r.Delete(id, func(a, _ string) bool { return a != "a" }, "")
	same(t, all(r), []string{"a"})
	if n != 2 {
		t.Fatal(n)
	}
}
''',False),
('s22_iterate_left_only','C21','a stored ID with values, a right child and no left child, visited on the way','a node without left child is taken for a leaf: what lies to its right is skipped',
 [(T,'''				iter.nodeIndex = node.Left
				iter.next = nextSelf
			} else {
				iter.next = nextRight
			}''','''				iter.nodeIndex = node.Left
				iter.next = nextSelf
			} else if node.ValCount != 0 && len(iter.nodeHistory) > 2 {
				iter.next = nextUp
			} else {
				iter.next = nextRight
			}''')],'pkg/tree',TH+'''
func TestDemo(t *testing.T) {
	r := newT()
	r.Add(tid{0x10000000, 8}, "a", eq)
	r.Add(tid{0x10100000, 12}, "b", eq)
	r.Add(tid{0x10110000, 16}, "c", eq)
	r.Add(tid{0x10118000, 17}, "d", eq)
	r.Add(tid{0x1011c000, 18}, "e", eq)
	same(t, all(r), []string{"a", "b", "c", "d", "e"})
}
''',False),
('s23_clone_shares_freelist','C22','a tree from which IDs were deleted is cloned, then both delete and store IDs','the list of free nodes of original and clone share their memory; each overwrites what the other freed',
 [(T,'		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),','		availableIndexes: r.availableIndexes,'),
  (T,'	copy(ret.availableIndexes, r.availableIndexes)\n','')],'pkg/tree',TH+'''
func TestDemo(t *testing.T) {
	r := newT()
	want := []string{}
	for i := uint32(0); i < 8; i++ {
		v := string(rune('a' + i))
		r.Add(tid{0x80000000 + i<<24, 8}, v, eq)
		want = append(want, v)
	}
	for i := uint32(0); i < 3; i++ {
		r.Delete(tid{0x80000000 + i<<24, 8}, eq, string(rune('a'+i)))
	}
	c := r.Clone()
	// each frees other nodes: the shared list gets what was freed last
	r.Delete(tid{0x87000000, 8}, eq, "h")
	c.Delete(tid{0x83000000, 8}, eq, "d")
	for i := uint32(0); i < 6; i++ {
		r.Add(tid{0x10000000 + i<<16, 16}, "n", eq)
		c.Add(tid{0x10000000 + i<<16, 16}, "n", eq)
	}
	n := []string{"n", "n", "n", "n", "n", "n"}
	same(t, all(r), append(append([]string{}, n...), "d", "e", "f", "g"))
	same(t, all(c), append(append([]string{}, n...), "e", "f", "g", "h"))
}
''',False),
('s24_free_skips_first','C23','a tree in which every ID but 0 is claimed','the search for a free ID starts at 1, so the last free ID 0 is never handed out',
 [(T16,'	bldr.AddId(rootID)\n','	// ids count from 1\n	bldr.AddRange(id16.RangeFrom(1, r.size))\n')],'pkg/tree/tree16','''
package tree16

import "testing"

func TestDemo(t *testing.T) {
	r, err := New("t", 2)
	if err != nil {
		t.Fatal(err)
	}
	got := map[uint64]bool{}
	for i := 0; i < 4; i++ {
		e, err := r.ClaimFree(nil)
		if err != nil {
			t.Fatal(err)
		}
		got[e.ID().ID()] = true
	}
	if len(got) != 4 {
		t.Fatalf("got %v", got)
	}
}
''',False),
('s25_validate_narrow','C24','an ID of another, wider type whose low 16 bits are in the space of the tree','the limit is compared with the low 16 bits of the ID',
 [(T16,'	if id.ID() > uint64(r.size) {','	if uint16(id.ID()) > r.size {')],'pkg/tree/tree16','''
package tree16

import (
	"testing"

	"github.com/henderiw/idxtable/pkg/tree/id32"
)

func TestDemo(t *testing.T) {
	r, err := New("t", 12)
	if err != nil {
		t.Fatal(err)
	}
	if err := r.ClaimID(id32.NewID(1<<16+5, 16), nil); err == nil {
		t.Fatal("an ID beyond the space of the tree was claimed")
	}
	if r.Size() != 0 {
		t.Fatal("claimed")
	}
}
''',False),
('s26_update_merges_labels','C25','an update that drops a label the entry had before','Update merges the labels of the existing entry into the new ones',
 [(T32,'''	treeEntry := tree.NewEntry(id.Copy(), labels)

	r.m.Lock()
	defer r.m.Unlock()
	return r.set(id, treeEntry)
}

func (r *tree32) ClaimID''','''	r.m.Lock()
	defer r.m.Unlock()

	merged := map[string]string{}
	if e, err := r.get(id); err == nil {
		for k, v := range e.Labels() {
			merged[k] = v
		}
	}
	for k, v := range labels {
		merged[k] = v
	}
	return r.set(id, tree.NewEntry(id.Copy(), merged))
}

func (r *tree32) ClaimID''')],'pkg/tree/tree32','''
package tree32

import (
	"testing"

	"github.com/henderiw/idxtable/pkg/tree/id32"
	"k8s.io/apimachinery/pkg/labels"
)

func TestDemo(t *testing.T) {
	r, err := New("t", 32)
	if err != nil {
		t.Fatal(err)
	}
	id := id32.NewID(7, 32)
	if err := r.ClaimID(id, labels.Set{"a": "1", "b": "2"}); err != nil {
		t.Fatal(err)
	}
	if err := r.Update(id, labels.Set{"a": "3"}); err != nil {
		t.Fatal(err)
	}
	e, err := r.Get(id)
	if err != nil || e.Labels().String() != "a=3" {
		t.Fatalf("got %v %v", e, err)
	}
}
''',False),
('s27_parse_error_dropped','C26','a range string that does not parse','a parse failure of a range claim is taken for an empty range: nothing is claimed and no error is returned',
 [(T32,'''	vlanRange, err := id32.ParseRange(s)
	if err != nil {
		return err
	}
''','''	vlanRange, err := id32.ParseRange(s)
	if vlanRange == nil {
		return nil
	}
	if err != nil {
		return err
	}
''')],'pkg/tree/tree32','''
package tree32

import "testing"

func TestDemo(t *testing.T) {
	r, err := New("t", 32)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"5", "a-b", "-"} {
		if err := r.ClaimRange(s, nil); err == nil {
			t.Fatalf("claiming %q returned no error", s)
		}
	}
}
''',False),
]
