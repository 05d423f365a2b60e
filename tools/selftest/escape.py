E='pkg/tree/entry.go'
I='pkg/idxtable/table.go'
T='pkg/tree/tree.go'
M=[
('b_labels','V',[(E,'return maps.Clone(r.labels) }','return r.labels }'),(E,'		labels: maps.Clone(labels),','		labels: maps.Clone(labels),')],['C04']),
('b_newentry','V',[(E,'		labels: maps.Clone(labels),','		labels: labels,')],['C04']),
('b_iter_live','V',[('pkg/tree/tree32/tree32.go','		Iter: r.tree.Clone().Iterate(),','		Iter: r.tree.Iterate(),')],['C04']),
('b_clone_share','V',[('pkg/tree/tree64/tree64.go','r.tree.Clone(),','r.tree,')],['C04']),
('q_clone_lock','Q',[('pkg/tree/tree16/tree16.go','		m:      new(sync.RWMutex),\n		tree:   r.tree.Clone()','		m:      r.m,\n		tree:   r.tree.Clone()')],['C22']),
('b_idx_iter','V',[(I,'	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}','	_ = table\n	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}')],['C04']),
('b_ranges','V',[('pkg/tree/id16/idset.go','	return append([]tree.Range{}, s.rr...)\n','	return s.rr\n')],['C04']),
('b_ipset','V',[('pkg/tree/id64/idset.go','rr: append([]tree.Range{}, s.in...),','rr: s.in,')],['C04']),
('b_addset','V',[('pkg/tree/id32/idset.go','	for _, r := range b.rr {','	if len(s.in) == 0 && len(s.out) == 0 {\n		s.in = b.rr\n		return\n	}\n	for _, r := range b.rr {')],['C04']),
('b_clone_nodes','V',[(T,'	copy(ret.nodes, r.nodes)\n','	ret.nodes = r.nodes\n')],['C22']),
('b_cache','V',[('pkg/tree/id16/idset.go','	return append([]tree.Range{}, s.rr...)\n','	s.rr = append([]tree.Range{}, s.rr...)\n	return s.rr\n')],['C04']),
('b_idx_keys','V',[(I,'type table[T1 any] struct {','type table[T1 any] struct {\n	free []uint64'),(I,'	return r.findFreeSize(size)\n','	ids, err := r.findFreeSize(size)\n	r.free = ids\n	return ids, err\n')],['C04']),
('q_labels','Q',[(E,'return maps.Clone(r.labels) }','return copyLabels(r.labels) }'),(E,'func NewEntry','func copyLabels(l labels.Set) labels.Set {\n	out := make(labels.Set, len(l))\n	for k, v := range l {\n		out[k] = v\n	}\n	return out\n}\n\nfunc NewEntry')],['C04']),
('q_ranges','Q',[('pkg/tree/id16/idset.go','	return append([]tree.Range{}, s.rr...)\n','	out := make([]tree.Range, len(s.rr))\n	copy(out, s.rr)\n	return out\n')],['C04']),
('q_iter','Q',[('pkg/tree/tree32/tree32.go','	return &gtree.GTreeIterator{\n		Iter: r.tree.Clone().Iterate(),\n	}','	own := r.tree.Clone()\n	it := &gtree.GTreeIterator{}\n	it.Iter = own.Iterate()\n	return it')],['C04']),
]
