A='pkg/table/table16/table16.go'
B='pkg/table/table32/table32.go'
D='pkg/table/table64/table64.go'
P='pkg/iptable/iptable.go'
ALL=['C08','C09','C11']
M=[
 ('t_size_noplus','V',[(A,'uint64(end-start) + 1,','uint64(end-start),')],['C08']),
 ('t_size_wrap','V',[(A,'uint64(end-start) + 1,','uint64(end-start+1),')],['C08']),
 ('t64_wrap','V',[(D,'	if size < math.MaxUint64 {\n','	if size < math.MaxUint32 {\n')],['C08']),
 ('t_trunc','V',[(A,'''	if id > 65535 {
		return fmt.Errorf("id %d, cannot be bigger than 65535", id)
	}
''','')],['C08']),
 ('t32_lim','V',[(B,'if id > 4294967295 {','if id > 4294967296 {')],['C08']),
 ('t_end','V',[(B,'if uint32(id) > r.end {','if uint32(id) > r.end+1 {')],['C08']),
 ('t_start','V',[(B,'if uint32(id) < r.start {','if uint32(id)+1 < r.start {')],['C08']),
 ('t_get_internal','V',[(B,'tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels())','tree.NewEntry(id32.NewID(uint32(newid), id32.IDBitSize), e.Data().Labels())')],['C09']),
 ('t_get_len','V',[(A,'tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data()','tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize-1), e.Data()')],['C09']),
 ('t_release_noshift','V',[(D,'	newid := calculateIndex(id, r.start)\n	return r.table.Release(newid)','	return r.table.Release(id)')],['C09']),
 ('t_claim_update','V',[(D,'return r.table.Claim(newid, treeEntry)','return r.table.Update(newid, treeEntry)')],['C08']),
 ('t_claimfree_id','V',[(A,'treeId := id16.NewID(calculateIDFromIndex(r.start, e.ID()), id16.IDBitSize)','treeId := id16.NewID(uint16(e.ID()), id16.IDBitSize)')],['C09']),
 ('t_claimfree_labels','V',[(A,'e, err := r.table.ClaimDynamic(tree.NewEntry(id16.NewID(0, id16.IDBitSize), labels))','e, err := r.table.ClaimDynamic(tree.NewEntry(id16.NewID(0, id16.IDBitSize), nil))')],['C09']),
 ('t_findfree','V',[(B,'return uint64(calculateIDFromIndex(r.start, id)), nil','return id, nil')],['C09','C08']),
 ('t_findfree2','V',[(B,'return uint64(calculateIDFromIndex(r.start, id)), nil','return uint64(calculateIDFromIndex(r.start, id))|1, nil')],['C09']),
 ('t_getall_id','V',[(A,'tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())','tree.NewEntry(id16.NewID(uint16(entry.ID()), id16.IDBitSize), entry.Data().Labels())')],['C09']),
 ('t_getall_lab','V',[(A,'id16.IDBitSize), entry.Data().Labels())\n\n','id16.IDBitSize), nil)\n\n')],['C11']),
 ('t_getall_skip','V',[(D,'		entries = append(entries, entry)\n	}\n	return entries\n}\n\nfunc (r *table64) GetByLabel','		if entry.ID().ID() == r.start {\n			continue\n		}\n		entries = append(entries, entry)\n	}\n	return entries\n}\n\nfunc (r *table64) GetByLabel')],['C11']),
 ('t_label_neg','V',[(B,'		if selector.Matches(entry.Labels()) {','		if !selector.Matches(entry.Labels()) {')],['C11']),
 ('t_label_empty','V',[(B,'		if selector.Matches(entry.Labels()) {','		if len(entry.Labels()) == 0 || selector.Matches(entry.Labels()) {')],['C11']),
 ('t_label_id','V',[(B,'id32.NewID(uint32(calculateIDFromIndex(r.start, iter.ID()))','id32.NewID(uint32(entry.ID().ID())')],['C09']),
 ('t_label_last','V',[(B,'	for iter.Next() {','	for iter.Next() {\n		if iter.ID() == uint64(r.end-r.start) {\n			continue\n		}')],['C11']),
 ('t_isfree','V',[(A,'return r.table.IsFree(newid)','return !r.table.Has(newid+1)')],['C08','C09']),
 ('t_has','V',[(A,'return r.table.Has(newid)','return !r.table.IsFree(newid) || id == 65535')],['C08']),
 ('t_upd_labels','V',[(D,'treeEntry := tree.NewEntry(treeId.Copy(), labels)\n	return r.table.Update','treeEntry := tree.NewEntry(treeId.Copy(), nil)\n	return r.table.Update')],['C09']),
 ('p_num','V',[(P,'num := new(big.Int).Add(diff, big.NewInt(1))','num := new(big.Int).Add(diff, big.NewInt(0))')],['C10']),
 ('p_trunc','V',[(P,'''	if !num.IsUint64() {
		// the table cannot index more addresses than this
		return math.MaxUint64
	}
''','	_ = math.Pi\n')],['C10']),
 ('p_far','V',[(P,'''	if !new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())).IsUint64() {
		return netip.Addr{}, fmt.Errorf("ip address %s, is too far from the start of the range %s", addr, r.ipRange.From().String())
	}
''','')],['C10']),
 ('p_contains','V',[(P,'''	if !r.ipRange.Contains(claimIP) {''','''	if claimIP.Less(r.ipRange.From()) || r.ipRange.To().Less(claimIP) {''')],['C10']),
 ('p_contains2','V',[(P,'''	if !r.ipRange.Contains(claimIP) {''','''	if claimIP.Less(r.ipRange.From()) {''')],['C10']),
 ('p_unmap','V',[(P,'''	claimIP, err := netip.ParseAddr(addr)
	if err != nil {
		return netip''','''	claimIP, err := netip.ParseAddr(addr)
	claimIP = claimIP.Unmap()
	if err != nil {
		return netip''')],['C10']),
 ('p_claimbusy','V',[(P,'	if !r.table.IsFree(id) {\n		return fmt.Errorf("claim failed ip %s already claimed", addr)\n	}\n	return r.table.Claim(id, d)','	if !r.table.IsFree(id) {\n		return r.table.Update(id, d)\n	}\n	return r.table.Claim(id, d)')],['C10']),
 ('p_updfree','V',[(P,'	if r.table.IsFree(id) {\n		return fmt.Errorf("update failed ip %s not claimed", addr)','	if r.table.IsFree(id) {\n		return r.table.Claim(id, d)')],['C10']),
 ('p_v4','V',[(P,'	if startIP.Is4() {\n','	if startIP.Is4() && id < 1<<16 {\n')],['C10']),
 ('p_isfree','V',[(P,'''		return false
	}
	id := calculateIndex(claimIP, r.ipRange.From())
	return r.table.IsFree(id)''','''		return true
	}
	id := calculateIndex(claimIP, r.ipRange.From())
	return r.table.IsFree(id)''')],['C10']),
 ('p_findfree','V',[(P,'return calculateIPFromIndex(r.ipRange.From(), id), nil','return calculateIPFromIndex(r.ipRange.From(), id).Next(), nil')],['C10']),
 ('p_findto','V',[(P,'return calculateIPFromIndex(r.ipRange.From(), id), nil','return calculateIPFromIndex(r.ipRange.To(), id), nil')],['C10']),
 ('p_pad','V',[(P,'paddedBytes := make([]byte, 16-len(ipBytes))','paddedBytes := make([]byte, 15-len(ipBytes))')],['C10']),
 ('p_getall','V',[(P,'	for _, entry := range r.table.GetAll() {\n','	for i, entry := range r.table.GetAll() {\n		if i > 100 {\n			break\n		}\n')],['C11']),
 ('p_label','V',[(P,'		if selector.Matches(route.Labels()) {','		if selector.Empty() || selector.Matches(route.Labels()) {')],['C11']),
 ('p_label2','V',[(P,'		if selector.Matches(route.Labels()) {','		if len(routes) < 10 && selector.Matches(route.Labels()) {')],['C11']),
 # behaviour-preserving
 ('tq_validate','Q',[(A,'''	if uint16(id) < r.start {
		return fmt.Errorf("id %d, does not fit in the range from %d to %d", id, r.start, r.end)
	}
	if uint16(id) > r.end {
		return fmt.Errorf("id %d, does not fit in the range from %d to %d", id, r.start, r.end)
	}
	return nil''','''	if n := uint16(id); n >= r.start && n <= r.end {
		return nil
	}
	return fmt.Errorf("id %d, does not fit in the range from %d to %d", id, r.start, r.end)''')],ALL),
 ('tq_validate64','Q',[(A,'''	if id > 65535 {
		return fmt.Errorf("id %d, cannot be bigger than 65535", id)
	}
	if uint16(id) < r.start {
		return fmt.Errorf("id %d, does not fit in the range from %d to %d", id, r.start, r.end)
	}
	if uint16(id) > r.end {''','''	if id < uint64(r.start) || id > uint64(r.end) {''')],ALL),
 ('tq_index','Q',[(B,'return uint64(id - start)','return uint64(id) - uint64(start)')],ALL),
 ('tq_index2','Q',[(B,'return start + uint32(id)','return uint32(uint64(start) + id)')],ALL),
 ('tq_getall','Q',[(D,'	entries := make(tree.Entries, 0, r.table.Size())\n	for _, entry := range r.table.GetAll() {','	all := r.table.GetAll()\n	entries := make(tree.Entries, 0, len(all))\n	for _, entry := range all {')],ALL),
 ('tq_getall_idx','Q',[(D,'''	for _, entry := range r.table.GetAll() {
		// need to remap the id for the outside world
		entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, entry.ID())), id64.IDBitSize), entry.Data().Labels())

		entries = append(entries, entry)
	}''','''	all := r.table.GetAll()
	for i := 0; i < len(all); i++ {
		entries = append(entries, r.external(all[i].ID(), all[i].Data().Labels()))
	}'''),(D,'func (r *table64) validateID','''func (r *table64) external(idx uint64, l labels.Set) tree.Entry {
	return tree.NewEntry(id64.NewID(r.start+idx, id64.IDBitSize), l)
}

func (r *table64) validateID''')],ALL),
 ('tq_label','Q',[(D,'''		if selector.Matches(entry.Labels()) {
			// need''','''		if !selector.Matches(entry.Labels()) {
			continue
		}
		{
			// need''')],ALL),
 ('tq_label_all','Q',[(A,'''	iter := r.table.Iterate()

	for iter.Next() {
		entry := iter.Value().Data()
		if selector.Matches(entry.Labels()) {
			// need to remap the id for the outside world
			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, iter.ID()), id16.IDBitSize), entry.Labels())
			entries = append(entries, entry)
		}
	}''','''	for _, e := range r.GetAll() {
		if selector.Matches(e.Labels()) {
			entries = append(entries, e)
		}
	}''')],ALL),
 ('tq_claim','Q',[(A,'''	if !r.table.IsFree(newid) {''','''	if r.table.Has(newid) {''')],ALL),
 ('tq_claim2','Q',[(A,'''	treeId := id16.NewID(uint16(newid), id16.IDBitSize)
	treeEntry := tree.NewEntry(treeId.Copy(), labels)
	return r.table.Claim(newid, treeEntry)''','''	if err := r.table.Claim(newid, tree.NewEntry(id16.NewID(uint16(newid), id16.IDBitSize), labels)); err != nil {
		return fmt.Errorf("claim %d: %w", id, err)
	}
	return nil''')],ALL),
 ('tq_new64','Q',[(D,'''	size := end - start
	if size < math.MaxUint64 {
		// the full 64 bit range has one id more than a table can index
		size++
	}
''','''	size := uint64(math.MaxUint64)
	if end-start != size {
		size = end - start + 1
	}
''')],ALL),
 ('pq_index','Q',[(P,'''	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()''','''	d := ipToInt(ip)
	d.Sub(d, ipToInt(start))
	return d.Uint64()''')],['C10','C11']),
 ('pq_index64','Q',[(P,'''	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()''','''	return new(big.Int).Mod(ipToInt(ip), new(big.Int).Lsh(big.NewInt(1), 64)).Uint64() - new(big.Int).Mod(ipToInt(start), new(big.Int).Lsh(big.NewInt(1), 64)).Uint64()''')],['C10']),
 ('pq_validate','Q',[(P,'''	if !new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())).IsUint64() {''','''	if d := new(big.Int).Sub(ipToInt(claimIP), ipToInt(r.ipRange.From())); !d.IsUint64() {''')],['C10','C11']),
 ('pq_num','Q',[(P,'''	if diff.Sign() < 0 {
		return 0
	}
	num := new(big.Int).Add(diff, big.NewInt(1)) // Add 1 to include the start IP
	if !num.IsUint64() {
		// the table cannot index more addresses than this
		return math.MaxUint64
	}
	return num.Uint64()''','''	if start.Cmp(end) > 0 {
		return 0
	}
	if !diff.IsUint64() || diff.Uint64() == math.MaxUint64 {
		return math.MaxUint64
	}
	return diff.Uint64() + 1''')],['C10','C11']),
 ('pq_claim','Q',[(P,'''	if !r.table.IsFree(id) {
		return fmt.Errorf("claim failed ip %s already claimed", addr)
	}
	return r.table.Claim(id, d)''','''	return r.table.Claim(id, d)''')],['C10','C11']),
 ('pq_fill','Q',[(P,'''	ipBytes := ipInt.Bytes()

	if len(ipBytes) < 16 {
		// If the byte slice is shorter than 16 bytes, pad it with leading zeros
		paddedBytes := make([]byte, 16-len(ipBytes))
		ipBytes = append(paddedBytes, ipBytes...)
	}

	// Convert the byte slice to a [16]byte
	var ip16 [16]byte
	copy(ip16[:], ipBytes)
''','''	var ip16 [16]byte
	ipInt.FillBytes(ip16[:])
''')],['C10','C11']),
 ('pq_unmap','Q',[(P,'''		return netip.AddrFrom4(netip.AddrFrom16(ip16).As4())''','''		return netip.AddrFrom16(ip16).Unmap()''')],['C10','C11']),
 ('pq_helper','Q',[(P,'''	id := calculateIndex(claimIP, r.ipRange.From())
	return r.table.Release(id)''','''	return r.table.Release(r.index(claimIP))'''),(P,'func calculateIndex','''func (r *ipTable) index(ip netip.Addr) uint64 {
	return calculateIndex(ip, r.ipRange.From())
}

func calculateIndex''')],['C10','C11']),
 ('pq_getall','Q',[(P,'''	var routes table.Routes
	for _, entry := range r.table.GetAll() {
		routes = append(routes, entry.Data())
	}''','''	entries := r.table.GetAll()
	routes := make(table.Routes, len(entries))
	for i, entry := range entries {
		routes[i] = entry.Data()
	}''')],['C10','C11']),
 ('pq_bylabel','Q',[(P,'''	iter := r.table.Iterate()

	for iter.Next() {
		route := iter.Value().Data()
		if selector.Matches(route.Labels()) {
			routes = append(routes, iter.Value().Data())
		}
	}
''','''	for _, route := range r.GetAll() {
		if selector.Matches(route.Labels()) {
			routes = append(routes, route)
		}
	}
''')],['C10','C11']),
]
