def S(w): return f'pkg/tree/id{w}/idset.go'
def R(w): return f'pkg/tree/id{w}/range{w}.go'
def U(w): return f'pkg/tree/id{w}/myuint{w}.go'
M=[
# --- merging (C15)
('b_merge_touch','V',[(R(32),'case (*prev).To().Next() == r.From():','case false:')],['C15']),
('b_merge_contained','V',[(R(64),'case (*prev).To().Less(r.To()):','case (*prev).From().Less(r.To()):')],['C15']),
('b_merge_drop','V',[(R(16),'			out = append(out, r)\n','			out = append(out[:len(out)-1], r)\n')],['C15']),
('b_merge_nosort','V',[(R(32),'	sort.Slice(rr, func(i, j int) bool { return rr[i].Less(rr[j]) })\n','	_ = sort.Slice\n')],['C15']),
('b_merge_sortto','V',[(R(64),'rr[i].Less(rr[j])','rr[i].To().Less(rr[j].To())')],['C15']),
('b_less','V',[(R(16),'		return cmp < 0\n','		return cmp > 0\n')],['C15']),
('b_before','V',[(R(32),'	return r.to.Less(other.From())\n','	return r.from.Less(other.From())\n')],['C15']),
('b_covered','V',[(R(64),'lessOrEq(other.From(), r.From()) && lessOrEq(r.To(), other.To())','lessOrEq(other.From(), r.From()) && lessOrEq(r.From(), other.To())')],['C15']),
('b_middle_eq','V',[(R(16),'	return other.From().Less(r.from) && r.to.Less(other.To())','	return lessOrEq(other.From(), r.from) && r.to.Less(other.To())')],['C15']),
('b_start','V',[(R(32),'	return lessOrEq(r.from, other.From()) && r.to.Less(other.To())','	return lessOrEq(r.from, other.From())')],['C15']),
('b_end_touch','V',[(R(64),'	return other.From().Less(r.from) && lessOrEq(other.To(), r.to)','	return other.From().Less(r.from) && other.To().Less(r.to)')],['C15']),
('b_norm_noprev','V',[(S(32),'''			min = append(min, r32{from: rin.From(), to: rout.From().Prev()})
			in = in[1:]''','''			min = append(min, r32{from: rin.From(), to: rout.From()})
			in = in[1:]''')],['C15']),
('b_norm_nonext','V',[(S(64),'''			in[0] = in[0].SetFrom(rout.To().Next())
			// Can't''','''			in[0] = in[0].SetFrom(rout.To())
			// Can't''')],['C15']),
('b_norm_middle','V',[(S(16),'''			// mutated range on the next iteration.
			in[0] = in[0].SetFrom(rout.To().Next())
			out = out[1:]''','''			// mutated range on the next iteration.
			in = in[1:]
			out = out[1:]''')],['C15']),
('b_norm_rest','V',[(S(32),'		min = append(min, in...)\n','		min = append(min, in[0])\n')],['C15']),
('b_norm_keepout','V',[(S(64),'	s.out = nil\n','')],['C15']),
('b_norm_outdrop','V',[(S(16),'''			// f------t   f-------t
			min = append(min, rin)
			in = in[1:]''','''			// f------t   f-------t
			min = append(min, rin)
			in = in[1:]
			if len(in) == 1 {
				out = out[1:]
			}''')],['C15']),
('b_add_nonorm','V',[(S(32),'''	if len(s.out) > 0 {
		s.normalize()
	}
	s.in''','''	s.in''')],['C15']),
('b_add_noerr','V',[(S(64),'''		s.errs = errors.Join(s.errs, fmt.Errorf("addRange(%v-%v)", r.From(), r.To()))
		return''','''		return''')],['C15']),
('b_rem_noerr','V',[(S(16),'''		s.errs = errors.Join(s.errs, fmt.Errorf("removeRange(%v-%v)", r.From(), r.To()))
		return''','''		return''')],['C15']),
('b_ipset_keeperr','V',[(S(32),'		s.errs = nil\n','')],['C15']),
('b_ipset_share','V',[(S(64),'rr: append([]tree.Range{}, s.in...),','rr: s.in,')],['C15']),
('b_ranges_share','V',[(S(16),'	return append([]tree.Range{}, s.rr...)\n','	return s.rr\n')],['C15']),
('b_addset_first','V',[(S(32),'	for _, r := range b.rr {\n		s.AddRange(r)\n	}','	for _, r := range b.rr {\n		s.AddRange(r)\n		break\n	}')],['C15']),
('b_lastid','V',[(R(16),'b < IDBitSize; b++ {','b < IDBitSize-1; b++ {')],['C15']),
('b_masked','V',[(R(64),'	id = id.Masked()\n	if id == nil {','	if id == nil {')],['C15']),
('b_valid','V',[(R(32),'		!(r.to.ID() < r.From().ID())','		true')],['C15']),
# --- decomposition (C16)
('b_dec_common','V',[(R(32),'a, a.bitsSetFrom(common+1))','a, a.bitsSetFrom(common))')],['C16']),
('b_dec_half','V',[(R(64),'b.bitsClearedFrom(common+1), b)','b.bitsClearedFrom(common+2), b)')],['C16']),
('b_dec_zero','V',[(R(16),'	return common, (ma.xor(ma.and(mm)).isZero() &&','	return common, (true &&')],['C16']),
('b_dec_ones','V',[(R(32),'		mb.or(mm) == myuint32(uint32(^uint32(0))))','		mb.or(mm) != 0)')],['C16']),
('b_dec_one','V',[(R(64),'	if common == IDBitSize {\n		return common, true','	if common == IDBitSize {\n		return common - 1, true')],['C16']),
('b_dec_drop','V',[(R(16),'	dst = appendRangeIDs(dst, makePrefix, b.bitsC','	appendRangeIDs(dst, makePrefix, b.bitsC')],['C16']),
('b_dec_make','V',[(R(32),'	return &myid32{id: uint32(id), length: bits}','	return &myid32{id: uint32(id), length: bits | 1}')],['C16']),
('b_mask_entry','V',[(U(64),'	0xfffffffffff80000, //45','	0xfffffffffff00000, //45')],['C16']),
('b_mask16','V',[(U(16),'0xfff8','0xfff0')],['C16']),
('b_ids_order','V',[(S(64),'		out = append(out, r.IDs()...)\n','		out = append(r.IDs(), out...)\n')],['C16']),
# --- free prefixes (C17)
('b_free_longer','V',[(S(16),'id.Length() > bestFit.Length() {','id.Length() < bestFit.Length() {')],['C17']),
('b_free_fits','V',[(S(32),'			if uint8(id.Length()) > bitLen {\n				continue\n			}\n','')],['C17']),
('b_free_wide','V',[(S(64),'	if bitLen > IDBitSize {\n		return nil, s, false\n	}\n','')],['C17']),
('b_free_len','V',[(S(16),'id := NewID(uint16(bestFit.ID()), bitLen)','id := NewID(uint16(bestFit.ID()), bestFit.Length())')],['C17']),
('b_free_keep','V',[(S(32),'	b.RemoveId(id)\n','')],['C17']),
('b_free_empty','V',[(S(64),'	b.AddSet(s)\n','')],['C17']),
('b_free_best','V',[(S(32),'	b.RemoveId(id)\n','	b.RemoveId(bestFit)\n')],['C17']),
('b_free_first','V',[(S(64),'''					// exact match, done.
					break
				}
''','''					break
				}
				return id, s, true
''')],['C17']),
# --- behaviour-preserving
('q_merge_if','Q',[(R(32),'''		case (*prev).To().Next() == r.From():
			// prev and r touch, merge them.
			//
			//   prev     r
			// f------tf-----t
			(*prev) = (*prev).SetTo(r.To())
''','''		case touches(*prev, r):
			*prev = (*prev).SetTo(r.To())
'''),(R(32),'// mergeRanges returns','''func touches(a, b tree.Range) bool { return b.From() == a.To().Next() }

// mergeRanges returns''')],['C15']),
('q_norm_prealloc','Q',[(S(64),'	min := make([]tree.Range, 0, len(in))\n','	var min []tree.Range\n')],['C15','C17']),
('q_norm_loop','Q',[(S(16),'		min = append(min, in...)\n','		for _, r := range in {\n			min = append(min, r)\n		}\n')],['C15','C17']),
('q_norm_index','Q',[(S(32),'	for len(in) > 0 && len(out) > 0 {\n		rin, rout := in[0], out[0]\n','	for len(in) != 0 && len(out) != 0 {\n		rin := in[0]\n		rout := out[0]\n')],['C15','C17']),
('q_add_guard','Q',[(S(64),'''	if len(s.out) > 0 {
		s.normalize()
	}
	s.in''','''	if len(s.out) != 0 {
		s.normalize()
	}
	s.in''')],['C15','C17']),
('q_addid','Q',[(S(16),'''	if r := RangeOfID(id); r.IsValid() {
		s.AddRange(r)
	} else {
		s.errs = errors.Join(s.errs, fmt.Errorf("addId(%v-%v)", id.ID(), id.Length()))
	}''','''	r := RangeOfID(id)
	if !r.IsValid() {
		s.errs = errors.Join(s.errs, fmt.Errorf("addId(%v-%v)", id.ID(), id.Length()))
		return
	}
	s.AddRange(r)''')],['C15','C17']),
('q_ipset','Q',[(S(32),'''	if s.errs == nil {
		return idset, nil
	} else {
		errs := s.errs
		s.errs = nil
		return idset, errs
	}''','''	errs := s.errs
	s.errs = nil
	return idset, errs''')],['C15']),
('q_ranges_copy','Q',[(S(64),'	return append([]tree.Range{}, s.rr...)\n','	out := make([]tree.Range, len(s.rr))\n	copy(out, s.rr)\n	return out\n')],['C15','C17']),
('q_free_flat','Q',[(S(16),'''			if !(bestFit != nil) || id.Length() > bestFit.Length() {
				bestFit = id
				if uint8(bestFit.Length()) == bitLen {
					// exact match, done.
					break
				}
			}
''','''			if bestFit == nil || bestFit.Length() < id.Length() {
				bestFit = id
			}
''')],['C17']),
('q_free_exact','Q',[(S(32),'''	var bestFit tree.ID
	for _, r := range s.rr {
		for _, id := range r.IDs() {''','''	var bestFit tree.ID
	ids := s.IDs()
	{
		for _, id := range ids {''')],['C17']),
('q_dec_iter','Q',[(R(64),'''	dst = appendRangeIDs(dst, makePrefix, a, a.bitsSetFrom(common+1))
	dst = appendRangeIDs(dst, makePrefix, b.bitsClearedFrom(common+1), b)
	return dst''','''	mid := common + 1
	lo := appendRangeIDs(dst, makePrefix, a, a.bitsSetFrom(mid))
	return appendRangeIDs(lo, makePrefix, b.bitsClearedFrom(mid), b)''')],['C16','C17']),
('q_dec_cmp','Q',[(R(32),'''	ma := myuint32(a)
	mb := myuint32(b)
	mm := myuint32(m)

	return common, (ma.xor(ma.and(mm)).isZero() &&
		mb.or(mm) == myuint32(uint32(^uint32(0))))''','''	return common, uint32(a)&^m == 0 && uint32(b)|m == ^uint32(0)''')],['C16','C17']),
('q_dec_mask','Q',[(U(16),'	return u.and(myuint16(mask6[bit]))','	return u & ^(^myuint16(0) >> bit)')],['C16','C17']),
]
