T='pkg/idxtable/table.go'
I='pkg/idxtable/iterator.go'
A=['C05','C06','C07']
M=[
 ('i_bound','V',[(T,'if id >= r.size {','if id > r.size {')],['C05']),
 ('i_addexists','V',[(T,'if !r.isFree(e.ID()) {\n\t\treturn fmt.Errorf("entry %d already','if r.size > 1 && !r.isFree(e.ID()) {\n\t\treturn fmt.Errorf("entry %d already')],['C05', 'C06']),
 ('i_updfree','V',[(T,'if r.isFree(e.ID()) {','if e.ID() > 3 && r.isFree(e.ID()) {')],['C05']),
 ('i_delmore','V',[(T,'delete(r.table, id)','delete(r.table, id)\n\tif id == 77 {\n\t\tdelete(r.table, id+1)\n\t}')],['C05']),
 ('i_range_off','V',[(T,'if size > r.size-start {','if size > r.size-start+1 {')],['C06']),
 ('i_range_add','V',[(T,'if size > r.size-start {','if start+size > r.size {')],['C06']),
 ('i_range_partial','V',[(T,'''	for _, id := range ids {
		id := id
		// getting an error is unlikely as we have a lock
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil''','''	for i, id := range ids {
		id := id
		if i > 63 {
			break
		}
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil''')],['C06']),
 ('i_range_lazy','V',[(T,'''	ids, err := r.findFreeRange(start, size)
	if err != nil {
		return err
	}
	for _, id := range ids {
		id := id
		// getting an error is unlikely as we have a lock
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil''','''	if size == 0 || start >= r.size || size > r.size-start {
		return fmt.Errorf("range")
	}
	for id := start; id < start+size; id++ {
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil''')],['C06']),
 ('i_findfree1','V',[(T,'for id := uint64(0); id < r.size; id++ {\n\t\tif r.isFree','for id := uint64(1); id < r.size; id++ {\n\t\tif r.isFree')],['C07']),
 ('i_findfreelast','V',[(T,'for id := uint64(0); id < r.size; id++ {\n\t\tif r.isFree','for id := uint64(0); id+1 < r.size; id++ {\n\t\tif r.isFree')],['C07']),
 ('i_findfreehint','V',[(T,'for id := uint64(0); id < r.size; id++ {\n\t\tif r.isFree','for id := uint64(len(r.table)); id < r.size; id++ {\n\t\tif r.isFree')],['C07']),
 ('i_size_n','V',[(T,'if i > size-1 {','if i > size {')],['C06']),
 ('i_size_sz','V',[(T,'if size > r.size {','if size >= r.size {')],['C06']),
 ('i_iterdesc','V',[(T,'''	sort.Slice(keys, func(i int, j int) bool {
		return keys[i] < keys[j]
	})

	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}''','''	sort.Slice(keys, func(i int, j int) bool {
		return keys[i] > keys[j]
	})

	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}''')],['C07']),
 ('i_iterskip','V',[(I,'return r.current < uint64(len(r.keys))','return r.current+1 < uint64(len(r.keys))')],['C07']),
 ('i_iterskip0','V',[(T,'return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}','return &Iterator[T1]{current: 0, keys: keys, table: table}')],['C07']),
 ('i_freeskip','V',[(T,'''		_, exists := r.table[id]
		if !exists {''','''		_, exists := r.table[id]
		if !exists || id == 0 {''')],['C07']),
 ('i_isfree','V',[(T,'	_, ok := r.table[id]\n\treturn !ok','	e, ok := r.table[id]\n\treturn !ok || e == nil')],['C07']),
 ('i_getall_drop','V',[(T,'''		entries = append(entries, iter.Value())
''','''		if iter.ID() == 0 {
			continue
		}
		entries = append(entries, iter.Value())
''')],['C07']),
 ('i_has','V',[(T,'''	_, ok := r.table[id]
	return ok
}

func (r *table[T1]) IsFree''','''	_, ok := r.table[id]
	return ok || id >= r.size
}

func (r *table[T1]) IsFree''')],['C05', 'C07']),
 # left undecided (several appends per iteration): ('i_sizedyn_wrongdata','V',[(T,'		e := NewEntry(id, d)\n		// getting','		var z T1\n		e := NewEntry(id, d)\n		if len(entries) > 5 {\n			e = NewEntry(id, z)\n		}\n		// getting')],['C06']),
 # behaviour-preserving
 ('iq_findfree_map','Q',[(T,'''		if r.isFree(id) {
			return id, nil
		}
	}
	return 0,''','''		if _, taken := r.table[id]; taken {
			continue
		}
		return id, nil
	}
	return 0,''')],A),
 ('iq_range_len','Q',[(T,'''	entries := []uint64{}
	for i := uint64(0); i < size; i++ {
		id := start + i
		if !r.isFree(id) {''','''	entries := make([]uint64, 0, 8)
	for id := start; id-start < size; id++ {
		if !r.isFree(id) {''')],A),
 ('iq_range_helper','Q',[(T,'''	for _, id := range ids {
		id := id
		// getting an error is unlikely as we have a lock
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil''','''	return r.addAll(ids, d)'''),(T,'func (r *table[T1]) Release(','''func (r *table[T1]) addAll(ids []uint64, d T1) error {
	for i := 0; i < len(ids); i++ {
		if err := r.add(NewEntry(ids[i], d)); err != nil {
			return err
		}
	}
	return nil
}

func (r *table[T1]) Release(''')],A),
 ('iq_getall_direct','Q',[(T,'''	iter := r.iterate()
	for iter.Next() {
		entries = append(entries, iter.Value())
	}
	return entries''','''	for _, e := range r.table {
		entries = append(entries, e)
	}
	return entries''')],A),
 ('iq_add_inline','Q',[(T,'''	if err := r.validate(e.ID()); err != nil {
		return err
	}
	if !r.isFree(e.ID()) {''','''	id := e.ID()
	if id >= r.size {
		return fmt.Errorf("id %d out of range", id)
	}
	if _, ok := r.table[id]; ok {''')],A),
 ('iq_size','Q',[(T,'''	i := uint64(0)
	for free.Next() {
		i++
		entries = append(entries, free.ID())
		if i > size-1 {
			return entries, nil
		}
	}''','''	for free.Next() {
		entries = append(entries, free.ID())
		if uint64(len(entries)) == size {
			return entries, nil
		}
	}''')],A),
 ('iq_iterkeys','Q',[(T,'''	keys := make([]uint64, 0, len(r.table))
	// the iterator''','''	var keys []uint64
	// the iterator''')],A),
 ('iq_swapcheck','Q',[(T,'''	if err := r.validate(e.ID()); err != nil {
		return err
	}
	if r.isFree(e.ID()) {
		return fmt.Errorf("entry %d not created", e.ID())
	}
	r.table[e.ID()] = e
	return nil''','''	err := r.validate(e.ID())
	if err == nil {
		if !r.isFree(e.ID()) {
			r.table[e.ID()] = e
			return nil
		}
		err = fmt.Errorf("entry %d not created", e.ID())
	}
	return err''')],A),
 ('iq_itersortkeys','Q',[(T,'''	for id := uint64(0); id < r.size; id++ {
		_, exists := r.table[id]
		if !exists {
			keys = append(keys, id)
		}
	}
	sort.Slice(keys, func(i int, j int) bool {
		return keys[i] < keys[j]
	})
''','''	for id := uint64(0); id < r.size; id++ {
		if _, exists := r.table[id]; exists {
			continue
		}
		keys = append(keys, id)
	}
''')],A),
]
