T='pkg/tree/tree.go'
TM='pkg/tree/tree_manual.go'
N='pkg/tree/node.go'
M=[
# --- bugs: values (C18)
('b_valkey8','V',[(T,'return uint64(nodeIndex) << 32','return uint64(nodeIndex) << 8')],['C18']),
('b_move_nodelete','Q',[(T,'		delete(r.vals, fromKey+uint64(i))\n','')],['C18']),
('b_move_nocount','V',[(T,'	r.nodes[toIndex].ValCount += r.nodes[fromIndex].ValCount\n','')],['C18','C20']),
('b_move_nozero','Q',[(T,'	r.nodes[fromIndex].ValCount = 0\n}','	_ = toKey\n}')],['C18']),
('b_addval_count','V',[(T,'''				return false
			}
		}
	}
	r.vals''','''				return true
			}
		}
	}
	r.vals''')],['C18']),
('b_addval_noupdate','V',[(T,'r.vals[key+(uint64(i))] = updateFunc(r.vals[key+(uint64(i))])','_ = updateFunc')],['C18']),
('b_addval_dup','V',[(T,'for i := 0; i < valCount; i++ {\n			if matchFunc(','for i := 0; i < valCount-1; i++ {\n			if matchFunc(')],['C18']),
('b_vals_filter','Q',[(T,'if filterFunc == nil || filterFunc(tag) {','if filterFunc == nil || !filterFunc(tag) {')],['C18']),
('b_delval_last','V',[(T,'''		if matchFunc(tag, matchTag) {
			deleteCount++''','''		if matchFunc(tag, matchTag) && deleteCount == 0 {
			deleteCount++''')],['C18','C20']),
('b_delval_keepslot','Q',[(T,'''	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
		delete(''','''	for i := 1; i < r.nodes[nodeIndex].ValCount; i++ {
		delete(''')],['C18']),
('b_newnode_stale','V',[(TM,'t.nodes[index] = treeNode[T]{Id: id.ID(), Length: length}','t.nodes[index].Id, t.nodes[index].Length = id.ID(), length')],['C19']),
('b_newnode_reuse','V',[(TM,'t.availableIndexes = t.availableIndexes[:availCount-1]','')],['C19']),
('b_newnode_first','V',[(TM,'index := t.availableIndexes[availCount-1]','index := t.availableIndexes[0]')],['C19']),
# --- insertion (C19)
('b_add_side','V',[(T,'''			if !r.isLeftBitSetFn(node.Id) {
				newNode.Left = nodeIndex''','''			if !id.IsLeftBitSet() {
				newNode.Left = nodeIndex''')],['C19']),
('b_add_noshift','V',[(T,'''			// shift
			node.ShiftLength(matchCount)

			if !r''','''			if !r''')],['C19']),
('b_add_parent','V',[(T,'''				parent = node
				nodeIndex = node.Left
				continue''','''				nodeIndex = node.Left
				continue''')],['C19']),
('b_add_splitlen','V',[(T,'newCommonParentNodeIndex := r.newNode(id, matchCount)','newCommonParentNodeIndex := r.newNode(id, matchCount-1)')],['C19']),
('b_add_splitside','V',[(T,'''			newCommonParentNode.Right = nodeIndex
			newCommonParentNode.Left = newNodeIndex''','''			newCommonParentNode.Left = nodeIndex
			newCommonParentNode.Right = newNodeIndex''')],['C19']),
('b_add_splitnoshift','V',[(T,'''		// shift
		id = id.ShiftLeft(matchCount)

		newNodeIndex''','''		newNodeIndex''')],['C19']),
('b_add_midval','V',[(T,'''			newNode := &r.nodes[newNodeIndex]
			countIncreased := r.addVal(val, newNodeIndex''','''			newNode := &r.nodes[newNodeIndex]
			countIncreased := r.addVal(val, nodeIndex''')],['C19']),
('b_add_cap','V',[(T,'< (len(r.nodes) + 10) {','< (len(r.nodes) + 1) {')],['C19']),
('b_add_root','V',[(T,'''	if id.Length() == 0 {
		countIncreased := r.addVal(val, 1, matchFunc, updateFunc)
		return countIncreased, r.nodes[1].ValCount
	}
''','')],['C19']),
('b_match_min','V',[(N,'if id.Length() > n.Length {','if id.Length() >= 8 {')],['C19']),
('b_match_len','V',[(N,'	if matches > length {\n		return length\n	}\n','	_ = length\n')],['C19']),
('b_shiftlen','V',[(N,'	n.Length -= shiftCount\n','')],['C19']),
('b_shiftid','V',[(N,'	n.Id <<= shiftCount\n','	n.Id <<= (shiftCount & 3)\n')],['C19']),
# --- deletion (C20)
('b_merge_width','V',[(N,'''	case 64:
		id, l := MergeID64(left.Id, left.Length, right.Id, right.Length)
		n.Id, n.Length = uint64(id), l''','''	case 64:
		id, l := MergeID32(uint32(left.Id), left.Length, uint32(right.Id), right.Length)
		n.Id, n.Length = uint64(id), l''')],['C20']),
('b_merge32','V',[(TM,'((right & _leftMasks32[rightLength]) >> leftLength), (leftLength','((right & _leftMasks32[rightLength]) >> rightLength), (leftLength')],['C20']),
('b_merge16mask','V',[(TM,'(left & _leftMasks16[leftLength]) |','left |')],['C20']),
('b_del_two','V',[(T,'if targetNode.Left != 0 && targetNode.Right != 0 {','if targetNode.Left != 0 && targetNode.Right != 0 && parentIndex == 1 {')],['C20']),
('b_del_prefix','V',[(T,'''			if matchCount < node.Length {
				// didn't match''','''			if matchCount+1 < node.Length {
				// didn't match''')],['C20']),
('b_del_longer','V',[(T,'''			if matchCount == id.Length() {
				// exact match - we're done
''','''			if matchCount == id.Length() || node.Left == 0 && node.Right == 0 {
				// exact match - we're done
''')],['C20']),
('b_del_merge_nomove','V',[(T,'''				r.moveTags(siblingIndexToDelete, parentIndex)

				// parent now gets target's sibling's children
				parent.Left = r.nodes[siblingIndexToDelete].Left''','''				// parent now gets target's sibling's children
				parent.Left = r.nodes[siblingIndexToDelete].Left''')],['C20']),
('b_del_merge_child','V',[(T,'''				parent.Left = r.nodes[siblingIndexToDelete].Left
				parent.Right = r.nodes[siblingIndexToDelete].Right
''','''				parent.Right = r.nodes[parent.Right].Right
				parent.Left = r.nodes[parent.Right].Left
''')],['C20']),
('b_del_merge_rootval','V',[(T,'if parentIndex > 1 && parent.ValCount == 0 && parent.Right != 0 {','if parentIndex > 1 && parent.Right != 0 {')],['C20']),
('b_del_merge_root','V',[(T,'if parentIndex > 1 && parent.ValCount == 0 && parent.Left != 0 {','if parent.ValCount == 0 && parent.Left != 0 {')],['C20']),
('b_del_free2','V',[(T,'''				parent.Right = r.nodes[parent.Left].Right
				parent.Left = r.nodes[parent.Left].Left

				r.availableIndexes = append(r.availableIndexes, siblingIndexToDelete)''','''				parent.Right = r.nodes[parent.Left].Right
				parent.Left = r.nodes[parent.Left].Left

				r.availableIndexes = append(r.availableIndexes, parentIndex)''')],['C20']),
('b_del_freechild','V',[(T,'''	targetNode.Left = 0
	targetNode.Right = 0
	r.availableIndexes = append(r.availableIndexes, targetNodeIndex)''','''	if targetNode.Left != 0 {
		targetNodeIndex = targetNode.Left
	}
	targetNode.Left = 0
	targetNode.Right = 0
	r.availableIndexes = append(r.availableIndexes, targetNodeIndex)''')],['C20']),
('b_del_onechild','V',[(T,'''			parent.Left = targetNode.Right
		} else {
			parent.Right = targetNode.Right
		}''','''			parent.Left = targetNode.Right
		} else {
			parent.Left = targetNode.Right
		}''')],['C20']),
('b_del_nomerge','V',[(T,'''		tmpNode := &r.nodes[targetNode.Left]
		tmpNode.MergeFromNodes(targetNode, tmpNode, r.length)
''','')],['C20']),
('b_del_mergeorder','V',[(T,'''				parent.MergeFromNodes(parent, tmpNode, r.length)

				// move tags
				r.moveTags(siblingIndexToDelete, parentIndex)

				// parent now gets target's sibling's children
				parent.Right''','''				parent.MergeFromNodes(tmpNode, parent, r.length)

				// move tags
				r.moveTags(siblingIndexToDelete, parentIndex)

				// parent now gets target's sibling's children
				parent.Right''')],['C20']),
('b_del_remaining','V',[(T,'if remainingTagCount > 0 {','if remainingTagCount > 1 {')],['C20']),
('b_del_parent','Q',[(T,'''			parentIndex = nodeIndex
			parent = node
			id''','''			parent = node
			id''')],['C20']),
# --- iteration (C21)
('b_it_nextup','V',[(T,'''			if previousNode.Left == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextRight''','''			if previousNode.Left == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextUp''')],['C21']),
('b_it_norighthist','V',[(T,'''				iter.nodeHistory = append(iter.nodeHistory, iter.nodeIndex)
				iter.nodeIndex = node.Right''','''				iter.nodeIndex = node.Right''')],['C21']),
('b_it_selftwice','V',[(T,'''			} else if previousNode.Right == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextUp''','''			} else if previousNode.Right == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextSelf''')],['C21']),
('b_it_start','V',[(T,'''		nodeIndex:   1,
		nodeHistory: []uint{},
		next:        nextSelf,''','''		nodeIndex:   1,
		nodeHistory: []uint{},
		next:        nextLeft,''')],['C21']),
('b_it_leafonly','V',[(T,'			if node.ValCount != 0 {\n				return true','			if node.ValCount != 0 && (node.Left == 0 || node.Right == 0) {\n				return true')],['C21']),
# --- clone (C22)
('b_clone_len','V',[(T,'		length:           r.length,\n		nodes:            make([]treeNode[T], len(r.nodes)','		nodes:            make([]treeNode[T], len(r.nodes)')],['C22']),
('b_clone_share','V',[(T,'	copy(ret.nodes, r.nodes)\n','	ret.nodes = r.nodes\n')],['C22']),
('b_clone_avail','V',[(T,'	copy(ret.availableIndexes, r.availableIndexes)\n','')],['C22']),
('b_clone_availshare','V',[(T,'	copy(ret.availableIndexes, r.availableIndexes)\n','	ret.availableIndexes = r.availableIndexes\n')],['C22']),
('b_clone_vals','V',[(T,'''	for k, v := range r.vals {
		ret.vals[k] = v
	}
''','''	ret.vals = r.vals
''')],['C22']),
# --- behaviour-preserving
('q_valkey_mul','Q',[(T,'return uint64(nodeIndex) << 32','return uint64(nodeIndex) * (1 << 32)')],['C18','C19','C20','C22']),
('q_vals_helper','Q',[(T,'''		tag := r.vals[key+uint64(i)]
		if filterFunc == nil || filterFunc(tag) {
			ret = append(ret, tag)
		}
''','''		if tag := r.vals[uint64(i)+key]; filterFunc == nil || filterFunc(tag) {
			ret = append(ret, tag)
		}
''')],['C18','C21']),
('q_add_child','Q',[(T,'''				// nowhere else to go - create a new node here
				newNodeIndex := r.newNode(id, id.Length())
				countIncreased := r.addVal(val, newNodeIndex, matchFunc, updateFunc)
				node.Right = newNodeIndex
				return countIncreased, r.nodes[newNodeIndex].ValCount
			}

			// there's a node to the right''','''				newNodeIndex, countIncreased := r.leaf(id, val, matchFunc, updateFunc)
				node.Right = newNodeIndex
				return countIncreased, r.nodes[newNodeIndex].ValCount
			}

			// there's a node to the right'''),(T,'func (r *Tree[T]) add(','''func (r *Tree[T]) leaf(id ID, val T, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) (uint, bool) {
	n := r.newNode(id, id.Length())
	return n, r.addVal(val, n, matchFunc, updateFunc)
}

func (r *Tree[T]) add(''')],['C18','C19']),
('q_del_replace','Q',[(T,'''		if parent.Left == targetNodeIndex {
			parent.Left = targetNode.Left
		} else {
			parent.Right = targetNode.Left
		}
''','''		parent.replace(targetNodeIndex, targetNode.Left)
'''),(N,'// ShiftLength','''func (n *treeNode[T]) replace(old, new uint) {
	if n.Left == old {
		n.Left = new
		return
	}
	n.Right = new
}

// ShiftLength''')],['C20']),
('q_del_reorder','Q',[(T,'''	targetNode.Left = 0
	targetNode.Right = 0
	r.availableIndexes = append(r.availableIndexes, targetNodeIndex)''','''	r.availableIndexes = append(r.availableIndexes, targetNodeIndex)
	targetNode.Right, targetNode.Left = 0, 0''')],['C20','C18']),
('q_it_switch','Q',[(T,'''			previousNode := iter.t.nodes[previousIndex]
			iter.nodeHistory = iter.nodeHistory[:nodeHistoryLen-1]
			if previousNode.Left == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextRight
			} else if previousNode.Right == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextUp
			} else {
				panic("unexpected state")
			}''','''			previousNode := &iter.t.nodes[previousIndex]
			iter.nodeHistory = iter.nodeHistory[:nodeHistoryLen-1]
			switch iter.nodeIndex {
			case previousNode.Left:
				iter.next = nextRight
			case previousNode.Right:
				iter.next = nextUp
			default:
				panic("unexpected state")
			}
			iter.nodeIndex = previousIndex''')],['C21']),
('q_clone_append','Q',[(T,'''		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
''',''),(T,'	copy(ret.availableIndexes, r.availableIndexes)\n','	ret.availableIndexes = append([]uint{}, r.availableIndexes...)\n')],['C22']),
('q_move_vals','Q',[(T,'''		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
		delete(r.vals, fromKey+uint64(i))
''','''		k := fromKey + uint64(i)
		v := r.vals[k]
		delete(r.vals, k)
		r.vals[toKey+uint64(i)] = v
''')],['C18','C20']),
('q_match_min','Q',[(N,'''	var length uint8
	if id.Length() > n.Length {
		length = n.Length
	} else {
		length = id.Length()
	}

	matches := id.Matches(n.Id)
	if matches > length {
		return length
	}
	return matches''','''	return min(id.Length(), n.Length, id.Matches(n.Id))''')],['C19','C20']),
('q_grow','Q',[(T,'make([]treeNode[T], len(r.nodes), (cap(r.nodes)+1)*2)','make([]treeNode[T], len(r.nodes), (cap(r.nodes)+10)*2)')],['C19','C18']),
]
