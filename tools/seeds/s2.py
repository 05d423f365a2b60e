A='pkg/table/table16/table16.go'
B='pkg/table/table32/table32.go'
D='pkg/table/table64/table64.go'
P='pkg/iptable/iptable.go'
SEEDS=[
('s08_narrow_before_check','C08','an ID above the 16 bit space whose low 16 bits fall in the range','the range check looks at the truncated ID, so 65536+n is taken for n: foreign IDs are claimed and released',
 [(A,'''	if id > 65535 {
		return fmt.Errorf("id %d, cannot be bigger than 65535", id)
	}
	if uint16(id) < r.start {
		return fmt.Errorf("id %d, does not fit in the range from %d to %d", id, r.start, r.end)
	}
	if uint16(id) > r.end {
		return''','''	// offset of the id in the range
	if uint16(id)-r.start > r.end-r.start {
		return''')],'pkg/table/table16','''
package table16

import "testing"

func TestDemo(t *testing.T) {
	r := New(100, 199)
	if err := r.Claim(65536+150, nil); err == nil {
		t.Fatal("an ID outside the range was claimed")
	}
	if r.IsFree(65536 + 150) {
		t.Fatal("an ID outside the range is free")
	}
	if !r.IsFree(150) {
		t.Fatal("150 was never claimed")
	}
}
''',False),
('s09_getall_stored_id','C09','GetAll on a table whose range does not start at 0','GetAll hands out the entries as stored, with the internal index for ID',
 [(B,'''	for _, entry := range r.table.GetAll() {
		// need to remap the id for the outside world
		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), id32.IDBitSize), entry.Data().Labels())

		entries = append(entries, entry)
''','''	for _, entry := range r.table.GetAll() {
		entries = append(entries, entry.Data())
''')],'pkg/table/table32','''
package table32

import (
	"testing"

	"k8s.io/apimachinery/pkg/labels"
)

func TestDemo(t *testing.T) {
	r := New(1000, 1999)
	if err := r.Claim(1500, labels.Set{"a": "b"}); err != nil {
		t.Fatal(err)
	}
	es := r.GetAll()
	if len(es) != 1 || es[0].ID().ID() != 1500 {
		t.Fatalf("got %v", es)
	}
}
''',False),
('s10_zone_ignored','C10','an IPv6 address with a zone (fe80::5%eth0) whose zone-less form lies in the range','the zone of an address is ignored, so addresses that are not in the range claim, release and answer for another address',
 [(P,'''	if !r.ipRange.Contains(claimIP) {''','''	// ranges have no zone
	if !r.ipRange.Contains(claimIP.WithZone("")) {''')],'pkg/iptable','''
package iptable

import (
	"net/netip"
	"testing"

	"github.com/hansthienpondt/nipam/pkg/table"
)

func TestDemo(t *testing.T) {
	r := New(netip.MustParseAddr("fe80::"), netip.MustParseAddr("fe80::ff"))
	if err := r.Claim("fe80::5", table.Route{}); err != nil {
		t.Fatal(err)
	}
	if r.Has("fe80::5%eth0") {
		t.Fatal("an address never claimed is reported as claimed")
	}
	if err := r.Release("fe80::5%eth1"); err == nil && !r.Has("fe80::5") {
		t.Fatal("releasing one address freed another")
	}
}
''',False),
('s11_label_dedup','C11','a label query on a table where two claimed IDs carry equal labels','GetByLabel stops at the first of several entries with the same labels and leaves out the others',
 [(D,'''	iter := r.table.Iterate()

	for iter.Next() {
		entry := iter.Value().Data()
		if selector.Matches(entry.Labels()) {''','''	iter := r.table.Iterate()

	seen := map[string]bool{}
	for iter.Next() {
		entry := iter.Value().Data()
		// labels were matched before
		key := entry.Labels().String()
		if seen[key] {
			continue
		}
		seen[key] = true
		if selector.Matches(entry.Labels()) {''')],'pkg/table/table64','''
package table64

import (
	"testing"

	"k8s.io/apimachinery/pkg/labels"
)

func TestDemo(t *testing.T) {
	r := New(1000, 1999)
	for _, id := range []uint64{1001, 1002, 1003} {
		if err := r.Claim(id, labels.Set{"a": "b"}); err != nil {
			t.Fatal(err)
		}
	}
	if n := len(r.GetByLabel(labels.Everything())); n != 3 {
		t.Fatalf("%d entries listed, 3 claimed", n)
	}
}
''',False),
]
