T='pkg/tree/tree16/tree16.go'
T32='pkg/tree/tree32/tree32.go'
T64='pkg/tree/tree64/tree64.go'
M=[
# --- bugs
('b_get_len','V',[(T,'if iter.Entry().ID().Length() == id.Length() &&','if iter.Entry().ID().Length() <= id.Length() &&')],['C11','C25']),
('b_get_overl','V',[(T,'			iter.Entry().ID().Overlaps(id) {\n			return','			iter.Entry().ID().ID() == id.ID() {\n			return')],['C11']),
('b_update_novalidate','V',[(T,'''func (r *tree16) Update(id tree.ID, labels labels.Set) error {
	if err := r.validate(id); err != nil {
		return err
	}
''','''func (r *tree16) Update(id tree.ID, labels labels.Set) error {
''')],['C24','C26']),
('b_update_labels','V',[(T,'''	treeEntry := tree.NewEntry(id.Copy(), labels)

	r.m.Lock()
	defer r.m.Unlock()
	return r.set(id, treeEntry)''','''	treeEntry := tree.NewEntry(id.Copy(), nil)

	r.m.Lock()
	defer r.m.Unlock()
	return r.set(id, treeEntry)''')],['C25']),
('b_claim_noget','V',[(T,'''	if _, err := r.get(id); err == nil {
		return fmt.Errorf("id %s is already claimed", id.String())
	}
	return r.set(id''','''	return r.set(id''')],['C27']),
('b_claim_swallow','V',[(T,'''		return fmt.Errorf("id %s is already claimed", id.String())
''','''		return nil
''')],['C26','C25']),
('b_range_noval','V',[(T32,'''	for _, treeId := range ids {
		if err := r.validate(treeId); err != nil {
			return err
		}
	}
''','')],['C24','C26']),
('b_range_firstonly','V',[(T32,'''	for _, treeId := range ids {
		if _, err := r.get(treeId); err == nil {''','''	for _, treeId := range ids[:1] {
		if _, err := r.get(treeId); err == nil {''')],['C27']),
('b_range_partial','V',[(T64,'''		if _, err := r.get(treeId); err == nil {
			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
		}
	}
	for _, treeId := range ids {
''','''		if _, err := r.get(treeId); err == nil {
			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
		}
''')],['C24']),
('b_range_invalid','V',[(T64,'''	if !treeRange.IsValid() {
		return fmt.Errorf("invalid range %q", s)
	}
''','')],['C24','C26']),
('b_free_children','V',[(T,'if e := iter.Entry(); e.ID().Overlaps(rootID) {','if e := iter.Entry(); e.ID().Length() >= rootID.Length() && e.ID().Overlaps(rootID) {')],['C23']),
('b_free_full','V',[(T,'if e := iter.Entry(); e.ID().Overlaps(rootID) {','if e := iter.Entry(); e.ID().Length() == id16.IDBitSize && e.ID().Overlaps(rootID) {')],['C23']),
('b_free_root','V',[(T32,'rootID := id32.NewID(0, id32.IDBitSize-r.length)','rootID := id32.NewID(0, id32.IDBitSize-r.length+1)')],['C23']),
('b_free_skip','V',[(T64,'		if e := iter.Entry(); e.ID().Overlaps(rootID) {','		if e := iter.Entry(); e.ID().Overlaps(rootID) && len(e.Labels()) > 0 {')],['C23']),
('b_free_len','V',[(T,'	treeId := id16.NewID(uint16(id), id16.IDBitSize)\n	treeEntry := tree.NewEntry(treeId.Copy(), labels)','	treeId := id16.NewID(uint16(id), id16.IDBitSize-1)\n	treeEntry := tree.NewEntry(treeId.Copy(), labels)')],['C23']),
('b_free_nil','V',[(T,'		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())','		return nil, nil')],['C26']),
('b_rel_noval','V',[(T,'''func (r *tree16) ReleaseID(id tree.ID) error {
	if err := r.validate(id); err != nil {
		return err
	}
''','''func (r *tree16) ReleaseID(id tree.ID) error {
''')],['C24','C26']),
('b_rel_always','V',[(T,'''	matchFunc := func(e1, e2 tree.Entry) bool {
		return e1.Equal(e2)
	}''','''	matchFunc := func(e1, e2 tree.Entry) bool {
		return e1.ID().Overlaps(e2.ID())
	}''')],[]),
('b_relall_first','V',[(T,'''		if err := r.del(e.ID().Copy(), e); err != nil {
			return err
		}
	}
	return nil
}''','''		return r.del(e.ID().Copy(), e)
	}
	return nil
}''')],['C25']),
('b_children_ge','V',[(T,'entry.ID().Length() > id.Length()','entry.ID().Length() >= id.Length()')],['C11']),
('b_parents_le','V',[(T64,'entry.ID().Length() < id.Length()','entry.ID().Length() <= id.Length()')],['C11']),
('b_bylabel','V',[(T,'		if selector.Matches(iter.Entry().Labels()) {\n			entries','		if selector.Matches(iter.Entry().Labels()) && len(entries) == 0 {\n			entries')],['C11','C25']),
('b_size','V',[(T,'		size++','		if iter.Entry().ID().Length() > 0 {\n			size++\n		}')],['C11']),
('b_clone_size','V',[(T,'		size:   r.size,\n		length: r.length,\n	}\n}','		length: r.length,\n	}\n}')],['C22']),
('b_clone_len','V',[(T64,'		length: r.length,\n	}\n}','	}\n}')],['C22']),
('b_clone_share','V',[(T32,'		tree:   r.tree.Clone(),','		tree:   r.tree,')],['C22']),
('b_val_last','V',[(T,'last.ID() > uint64(r.size)','last.ID() > uint64(r.size) && id.Length() == id16.IDBitSize')],['C24']),
('b_val_ge','V',[(T32,'if id.ID() > uint64(r.size) {','if id.ID() >= uint64(r.size) {')],['C24']),
('b_val_len','V',[(T64,'''	if id.Length() > id64.IDBitSize {''','''	if id.Length() > id64.IDBitSize+1 {''')],['C24']),
# --- refactorings
('r_get_var','Q',[(T,'''		if iter.Entry().ID().Length() == id.Length() &&
			iter.Entry().ID().Overlaps(id) {
			return iter.Entry(), nil
		}''','''		e := iter.Entry()
		eid := e.ID()
		if eid.Length() != id.Length() {
			continue
		}
		if eid.Overlaps(id) {
			return e, nil
		}''')],['C11','C25','C27','C26']),
('r_get_find','Q',[(T,'''	iter := r.iterate()
	for iter.Next() {
		if iter.Entry().ID().Length() == id.Length() &&
			iter.Entry().ID().Overlaps(id) {
			return iter.Entry(), nil
		}
	}
	return nil, fmt.Errorf("entry %d not found", id)
}''','''	e, ok := r.find(func(e tree.Entry) bool {
		return e.ID().Length() == id.Length() && e.ID().Overlaps(id)
	})
	if !ok {
		return nil, fmt.Errorf("entry %d not found", id)
	}
	return e, nil
}

func (r *tree16) find(match func(tree.Entry) bool) (tree.Entry, bool) {
	for iter := r.iterate(); iter.Next(); {
		if e := iter.Entry(); match(e) {
			return e, true
		}
	}
	return nil, false
}''')],['C11','C25','C27','C26','C24']),
('r_children','Q',[(T,'''	entries := tree.Entries{}
	r.m.RLock()
	defer r.m.RUnlock()

	iter := r.iterate()

	for iter.Next() {
		entry := iter.Entry()
		if entry.ID().Overlaps(id) && entry.ID().Length() > id.Length() {
			entries = append(entries, iter.Entry())
		}

	}
	return entries''','''	r.m.RLock()
	defer r.m.RUnlock()
	return r.filter(func(e tree.Entry) bool {
		return e.ID().Length() > id.Length() && e.ID().Overlaps(id)
	})
}

func (r *tree16) filter(keep func(tree.Entry) bool) tree.Entries {
	out := make(tree.Entries, 0)
	for iter := r.iterate(); iter.Next(); {
		if e := iter.Entry(); keep(e) {
			out = append(out, e)
		}
	}
	return out''')],['C11','C01','C02','C03']),
('r_size','Q',[(T,'''	var size int

	iter := r.iterate()
	for iter.Next() {
		size++
	}

	return size''','''	size := 0
	for iter := r.iterate(); iter.Next(); size++ {
	}
	return size''')],['C11']),
('r_free_helper','Q',[(T,'''	iter := r.iterate()
	for iter.Next() {
		if e := iter.Entry(); e.ID().Overlaps(rootID) {
			bldr.RemoveId(e.ID())
		}
	}
''','''	for iter := r.iterate(); iter.Next(); {
		eid := iter.Entry().ID()
		if !rootID.Overlaps(eid) {
			continue
		}
		bldr.RemoveId(eid)
	}
''')],['C23','C26']),
('r_rel','Q',[(T,'''	e, err := r.get(id)
	if err != nil {
		return nil
	}
	return r.del(id, e)''','''	if e, err := r.get(id); err == nil {
		return r.del(id, e)
	}
	return nil''')],['C25','C24','C26']),
('r_validate','Q',[(T,'''	if id.ID() > uint64(r.size) {
		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
	}
	if id.Length() > id16.IDBitSize {
		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
	}
''','''	max := uint64(r.size)
	switch {
	case id.Length() > id16.IDBitSize:
		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
	case id.ID() > max:
		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
	}
''')],['C24','C23','C26','C27']),
('r_range_one','Q',[(T,'''	for _, treeId := range ids {
		if err := r.validate(treeId); err != nil {
			return err
		}
	}
''','''	for i := range ids {
		if err := r.validate(ids[i]); err != nil {
			return err
		}
	}
''')],['C24','C27','C25','C26']),
('r_range_split','Q',[(T,'''	for _, treeId := range ids {
		if _, err := r.get(treeId); err == nil {
			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
		}
	}
''','''	if err := r.unclaimed(s, ids); err != nil {
		return err
	}
'''),(T,'''func (r *tree16) ReleaseID(''','''func (r *tree16) unclaimed(s string, ids []tree.ID) error {
	for _, treeId := range ids {
		if _, err := r.get(treeId); err == nil {
			return fmt.Errorf("range %q: id %s is already claimed", s, treeId.String())
		}
	}
	return nil
}

func (r *tree16) ReleaseID(''')],['C24','C27','C25','C26','C01','C02','C03']),
('r_claimfree','Q',[(T,'''	if err := r.set(treeId, treeEntry); err != nil {
		return nil, err
	}
	return treeEntry, nil
}

func (r *tree16) ClaimRange''','''	err = r.set(treeId, treeEntry)
	if err == nil {
		return treeEntry, nil
	}
	return nil, err
}

func (r *tree16) ClaimRange''')],['C23','C26']),
('r_clone','Q',[(T,'''	return &tree16{
		m:      new(sync.RWMutex),
		tree:   r.tree.Clone(),
		size:   r.size,
		length: r.length,
	}''','''	c := *r
	c.m = &sync.RWMutex{}
	c.tree = r.tree.Clone()
	return &c''')],['C22','C01']),
]
