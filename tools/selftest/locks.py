T='pkg/idxtable/table.go'; T32='pkg/tree/tree32/tree32.go'
M=[
('l_print','V',[(T32,'''	r.m.RLock()
	defer r.m.RUnlock()

	r.tree.PrintNodes(0)''','''	r.tree.PrintNodes(0)''')],['C01']),
('l_getall','V',[(T32,'''func (r *tree32) GetAll() tree.Entries {
	r.m.RLock()
	defer r.m.RUnlock()
''','''func (r *tree32) GetAll() tree.Entries {
''')],['C01']),
('l_iter_live','V',[(T32,'Iter: r.tree.Clone().Iterate(),','Iter: r.tree.Iterate(),')],['C04']),
('l_rlock_update','V',[(T,'''	r.m.Lock()
	defer r.m.Unlock()

	return r.update(''','''	r.m.RLock()
	defer r.m.RUnlock()

	return r.update(''')],['C01']),
('l_nested','V',[(T,'''	iter := r.iterate()
	for iter.Next() {
		entries = append(entries, iter.Value())''','''	iter := r.Iterate()
	for iter.Next() {
		entries = append(entries, iter.Value())''')],['C02']),
('l_leak','V',[(T,'''	r.m.RLock()
	defer r.m.RUnlock()
	return r.isFree(id)''','''	r.m.RLock()
	if id >= r.size {
		return false
	}
	f := r.isFree(id)
	r.m.RUnlock()
	return f''')],['C02']),
('l_explicit','Q',[(T,'''	r.m.RLock()
	defer r.m.RUnlock()
	return r.isFree(id)''','''	r.m.RLock()
	f := r.isFree(id)
	r.m.RUnlock()
	return f''')],['C01','C02','C03']),
('l_split','V',[(T,'''	id, err := r.findFree()
	if err != nil {
		return nil, err
	}
	e := NewEntry(id, d)
''','''	id, err := r.findFree()
	if err != nil {
		return nil, err
	}
	e := NewEntry(id, d)
	r.m.Unlock()
	r.m.Lock()
''')],['C03']),
('l_closure','Q',[(T,'''	r.m.Lock()
	defer r.m.Unlock()

	return r.update(NewEntry(id, d))
}''','''	return r.locked(func() error { return r.update(NewEntry(id, d)) })
}

func (r *table[T1]) locked(f func() error) error {
	r.m.Lock()
	defer r.m.Unlock()
	return f()
}''')],['C01','C02','C03']),
('l_perelem','V',[(T32,'''	r.m.Lock()
	defer r.m.Unlock()

	// TODO check if free

	// get each entry and validate owner

	for _, treeId := range ids {
		treeEntry := tree.NewEntry(treeId.Copy(), labels)
		if err := r.set(treeId, treeEntry); err != nil {
			return err
		}
	}''','''	for _, treeId := range ids {
		treeEntry := tree.NewEntry(treeId.Copy(), labels)
		r.m.Lock()
		err := r.set(treeId, treeEntry)
		r.m.Unlock()
		if err != nil {
			return err
		}
	}''')],['C03']),
('l_reldouble','V',[(T32,'''	r.m.Lock()
	defer r.m.Unlock()

	e, err := r.get(id)
''','''	e, err := r.Get(id)
	r.m.Lock()
	defer r.m.Unlock()

''')],['C03']),
('l_tbl_claimfree','V',[('pkg/table/table32/table32.go','''	e, err := r.table.ClaimDynamic(tree.NewEntry(id32.NewID(0, id32.IDBitSize), labels))
	if err != nil {
		return nil, err
	}
''','''	free, err := r.table.FindFree()
	if err != nil {
		return nil, err
	}
	if err := r.table.Claim(free, tree.NewEntry(id32.NewID(0, id32.IDBitSize), labels)); err != nil {
		return nil, err
	}
	e, err := r.table.Get(free)
	if err != nil {
		return nil, err
	}
''')],['C03']),
('l_tbl_relcl','V',[('pkg/table/table32/table32.go','''	return r.table.Update(newid, treeEntry)''','''	if err := r.table.Release(newid); err != nil {
		return err
	}
	return r.table.Claim(newid, treeEntry)''')],['C03']),
('l_embed','Q',[(T,'''	m     *sync.RWMutex
	table''','''	guard
	table'''),(T,'''type table[T1 any] struct''','''type guard struct{ m sync.RWMutex }

type table[T1 any] struct'''),(T,'''		m:     new(sync.RWMutex),
''','')],['C01','C02','C03']),
]
