D='pkg/tree/id32/id32.go'; D16='pkg/tree/id16/id16.go'; D64='pkg/tree/id64/id64.go'
R='pkg/tree/id32/range32.go'; R16='pkg/tree/id16/range16.go'; R64='pkg/tree/id64/range64.go'
U='pkg/tree/id32/myuint32.go'; U16='pkg/tree/id16/myuint16.go'; U64='pkg/tree/id64/myuint64.go'
E='pkg/tree/entry.go'; MAN='pkg/tree/tree_manual.go'
OV='''	if minbits == 0 {
		return true
	}
	ida := r.id & mask6[minbits]
	idb := uint32(b.ID()) & mask6[minbits]

	return ida == idb
'''
CMP='''	f1, f2 := r.Length(), id2.Length()
	if f1 < f2 {
		return -1
	}
	if f1 > f2 {
		return 1
	}
	if r.ID() < id2.ID() {
		return -1
	}
	if r.ID() > id2.ID() {
		return 1
	}
	return 0
'''
M=[
 ('d_cmp_order','V',[(D,CMP,CMP.replace('if r.ID() < id2.ID() {\n\t\treturn -1','if r.ID() < id2.ID() {\n\t\treturn 1').replace('if r.ID() > id2.ID() {\n\t\treturn 1','if r.ID() > id2.ID() {\n\t\treturn -1'))],['C12']),
 ('d_cmp_sub','V',[(D,CMP,'''	if d := int(r.Length()) - int(id2.Length()); d != 0 {
		if d < 0 {
			return -1
		}
		return 1
	}
	d := int32(r.id) - int32(uint32(id2.ID()))
	if d < 0 {
		return -1
	}
	if d > 0 {
		return 1
	}
	return 0
''')],['C12']),
 ('d_less','V',[(D,'return r.Compare(id2) == -1','return r.Compare(id2) <= 0')],['C12']),
 ('d_eq_len','V',[(E,'''r.ID().Length() == e2.ID().Length() &&''','''r.ID().Length() <= e2.ID().Length() &&''')],['C12']),
 ('d_ov_max','V',[(D,'if r.Length() < b.Length() {','if r.Length() > b.Length() {')],['C13']),
 ('d_ov_eq0','V',[(D,'	if minbits == 0 {\n','	if minbits <= 1 {\n')],['C13']),
 ('d_mask_tbl','V',[(U,'0xfffffe00','0xffffff00',1)],['C13']),
 ('d_mask_len','V',[(D,'return myid32{id: newid, length: l}, nil','return myid32{id: newid, length: id.length}, nil')],['C13']),
 ('d_mask64','V',[(D64,'if l > IDBitSize {','if l >= IDBitSize {')],['C13']),
 ('d_matches','V',[(D64,'bits.LeadingZeros64(uint64(id) ^ r.id)','bits.LeadingZeros32(uint32((uint64(id) ^ r.id)>>32))')],['C13']),
 ('d_left','V',[(D16,'return r.id >= _leftmostBit','return r.id > _leftmostBit')],['C13']),
 ('d_last','V',[(R,'b < IDBitSize; b++','b < IDBitSize-1; b++')],['C13']),
 ('d_next','V',[(D,'''	if id.id == 0 {
		// Overflowed.
		return myid32{}
	}

''','')],['C13']),
 ('d_prev_len','V',[(D,'id.id = uint32(myuint32(id.id).subOne())','id.id, id.length = uint32(myuint32(id.id).subOne()), IDBitSize')],['C13']),
 ('d_borrow','V',[(U16,'(IDBitSize -1)','(IDBitSize -2)')],['C13']),
 ('d_merge','V',[(MAN,'(left & _leftMasks64[leftLength]) | ((right & _leftMasks64[rightLength]) >> leftLength)','left | ((right & _leftMasks64[rightLength]) >> leftLength)')],['C13']),
 ('d_merge16','V',[(MAN,'(left & _leftMasks16[leftLength]) | ((right & _leftMasks16[rightLength]) >> leftLength)','(left & _leftMasks16[leftLength]) | ((right >> leftLength) & _leftMasks16[rightLength])')],['C13']),
 ('d_rel_cov','V',[(R,'return lessOrEq(other.From(), r.From()) && lessOrEq(r.To(), other.To())','return lessOrEq(other.From(), r.From()) && r.To().Less(other.To())')],['C14']),
 ('d_rel_less','V',[(R,'return other.To().Less(r.to)','return r.to.Less(other.To())')],['C14']),
 ('d_rel_before','V',[(R64,'return r.to.Less(other.From())','return r.from.Less(other.From())')],['C14']),
 ('d_parse_w','V',[(R,'strconv.ParseUint(to, 10, int(IDBitSize))','strconv.ParseUint(to, 10, 64)')],['C14']),
 ('d_parse_base','V',[(R,'strconv.ParseUint(from, 10, int(IDBitSize))','strconv.ParseUint(from, 0, int(IDBitSize))')],['C14']),
 ('q_parse_last','Q',[(R16,"strings.IndexByte(s, '-')","strings.LastIndexByte(s, '-')")],['C14']),
 ('d_valid','V',[(R,'!(r.to.ID() < r.From().ID())','r.to.ID() > r.From().ID()')],['C14']),
 ('d_setto','V',[(R,'''func (r r32) SetTo(id tree.ID) tree.Range{
	r.to = id''','''func (r r32) SetTo(id tree.ID) tree.Range{
	r.to = NewID(uint32(id.ID()), IDBitSize)''')],['C14']),
 # refactorings
 ('q_cmp','Q',[(D,CMP,'''	if c := cmp.Compare(r.length, id2.Length()); c != 0 {
		return c
	}
	return cmp.Compare(uint64(r.id), id2.ID())
'''),(D,'"fmt"','"cmp"\n\t"fmt"')],['C12','C14']),
 ('q_cmp2','Q',[(D,CMP,'''	switch l := id2.Length(); {
	case r.length == l && uint64(r.id) == id2.ID():
		return 0
	case r.length < l, r.length == l && uint64(r.id) < id2.ID():
		return -1
	default:
		return 1
	}
''')],['C12','C14']),
 ('q_less','Q',[(D,'return r.Compare(id2) == -1','return r.Length() < id2.Length() || (r.Length() == id2.Length() && r.ID() < id2.ID())')],['C12','C14']),
 ('q_ov','Q',[(D,OV,'''	return (r.id^uint32(b.ID()))&mask6[minbits] == 0
''')],['C13']),
 ('q_ov2','Q',[(D,OV,'''	if minbits == 0 {
		return true
	}
	shift := IDBitSize - minbits
	return r.id>>shift == uint32(b.ID())>>shift
''')],['C13']),
 ('q_ov3','Q',[(D,OV,'''	return r.Matches(b.ID()) >= minbits
''')],['C13']),
 ('q_min','Q',[(D,'''	var minbits uint8
	if r.Length() < b.Length() {
		minbits = r.Length()
	} else {
		minbits = b.Length()
	}
''','''	minbits := min(r.Length(), b.Length())
''')],['C13']),
 ('q_mask','Q',[(D,'newid := uint32(myuint32(id.id).and(myuint32(mask6[uint32(l)])))','newid := id.id &^ (^uint32(0) >> l)')],['C13']),
 ('q_mask2','Q',[(D,'newid := uint32(myuint32(id.id).and(myuint32(mask6[uint32(l)])))','''newid := uint32(0)
	if l > 0 {
		newid = id.id >> (IDBitSize - l) << (IDBitSize - l)
	}''')],['C13']),
 ('q_left','Q',[(D,'return r.id >= _leftmostBit','return r.id&_leftmostBit != 0'),(D,'return uint32(id) >= _leftmostBit','return uint32(id)>>(IDBitSize-1) == 1')],['C13']),
 ('q_next','Q',[(D,'id.id = uint32(myuint32(id.id).addOne())','id.id++'),(D,'id.id = uint32(myuint32(id.id).subOne())','id.id--')],['C13']),
 ('q_next2','Q',[(D,'''	id.id = uint32(myuint32(id.id).addOne())
	if id.id == 0 {
		// Overflowed.
		return myid32{}
	}
''','''	if id.id == math.MaxUint32 {
		return myid32{}
	}
	id.id = id.id + 1
'''),(D,'"math/bits"','"math"\n\t"math/bits"')],['C13']),
 ('q_sub','Q',[(U16,'borrowOut = ((^x & y) | (^(x ^ y) & diff)) >> (IDBitSize -1)','if uint32(x) < uint32(y)+uint32(borrow) {\n\t\tborrowOut = 1\n\t}')],['C13']),
 ('q_last','Q',[(R,'''	var a4 [4]byte
	bePutUint32(a4[:], uint32(id.ID()))
	for b := uint8(id.Length()); b < IDBitSize; b++ {
		byteNum, bitInByte := b/8, 7-(b%8)
		a4[byteNum] |= 1 << uint(bitInByte)
	}
	return NewID(beUint32(a4[:]), IDBitSize)
''','''	return NewID(uint32(id.ID())|^uint32(0)>>id.Length(), IDBitSize)
''')],['C13']),
 ('q_merge','Q',[(MAN,'''	return (left & _leftMasks32[leftLength]) | ((right & _leftMasks32[rightLength]) >> leftLength), (leftLength + rightLength)''','''	hi := left &^ (^uint32(0) >> leftLength)
	lo := right & _leftMasks32[rightLength]
	return hi + lo>>leftLength, leftLength + rightLength''')],['C13']),
 ('q_rel','Q',[(R,'return lessOrEq(other.From(), r.From()) && lessOrEq(r.To(), other.To())','return !r.from.Less(other.From()) && !other.To().Less(r.to)')],['C14']),
 ('q_parse','Q',[(R,'''	h := strings.IndexByte(s, '-')
	if h == -1 {
		return r, fmt.Errorf("no hyphen in range %q", s)
	}
	from, to := s[:h], s[h+1:]
''','''	from, to, ok := strings.Cut(s, "-")
	if !ok {
		return r, fmt.Errorf("no hyphen in range %q", s)
	}
''')],['C14']),
 ('q_parse2','Q',[(R,"strings.IndexByte(s, '-')",'strings.Index(s, "-")'),(R,'if h == -1 {','if h < 0 {')],['C14']),
 ('q_parse3','Q',[(R,'''	return r32{
		from: NewID(uint32(fromUint32), IDBitSize),
		to:   NewID(uint32(toUint32), IDBitSize),
	}, nil''','''	return RangeFrom(uint32(fromUint32), uint32(toUint32)), nil''')],['C14']),
 ('q_valid','Q',[(R,'!(r.to.ID() < r.From().ID())','r.from.ID() <= r.to.ID()')],['C14','C13']),
 ('q_entry_eq','Q',[(E,'''	if r.ID().ID() == e2.ID().ID() &&
		r.ID().Length() == e2.ID().Length() &&
		r.labels.String() == e2.Labels().String() {
		return true
	}
	return false''','''	if r.id.ID() != e2.ID().ID() || r.id.Length() != e2.ID().Length() {
		return false
	}
	return r.labels.String() == e2.Labels().String()''')],['C12']),
]
