package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*natLoop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

// LoopRec describes one analysed loop in its calling context.
type LoopRec struct {
	fn      *ssa.Function
	head    *ssa.BasicBlock
	n       *Term // completed iterations
	key     string
	entry   *State
	headSt  *State
	phis    []*ssa.Phi
	initV   []Val
	headV   []Val
	cells   []*loopCell
	havoc   map[*Obj]string // object -> "havoc", "mapcompr"
	backs   []*BackEdge
	evStart int
	leaves  map[string]*leaf
	rounds  int
	mapc    map[*Obj]*mapCompr
	epoch   map[*Obj]*epochKeys
	backSig string
	fill    map[*Obj]*fillRec
}

// fillRec: every iteration writes one element, at position first + iteration.
type fillRec struct {
	first *Term
	elems []comprElem
	sig   string
	tries int
}

// epochKeys are the keys each iteration inserts into a map that is otherwise unknown
// in the middle of the loop.
type epochKeys struct {
	keys  [][]*Term // per back edge
	vals  [][]Val
	known bool
	sig   string
}

type mapCompr struct {
	keys []*Term
	vals []Val
}

type loopCell struct {
	obj  *Obj
	path []Sel
	typ  types.Type
	init Val
	head Val
}

type BackEdge struct {
	st    *State
	phiV  []Val
	cellV []Val
	lits  []*Term // literals decided in the iteration
	cons  []LinExpr
	from  *ssa.BasicBlock
}

type leaf struct {
	key   string
	init  *Term
	cls   string // inv, ind, hav
	step  *Term
	group int
	head  *Term
}

func (r *LoopRec) pos() string { return r.fn.String() }

const maxRounds = 14

func (e *Engine) loop(fr *Frame, from, to *ssa.BasicBlock, l *natLoop, st *State) []Outcome {
	ps := phisOf(to)
	k := predIndex(from, to)
	rec := &LoopRec{fn: fr.fn, head: to, phis: ps, entry: st.clone(), havoc: map[*Obj]string{}, leaves: map[string]*leaf{}, mapc: map[*Obj]*mapCompr{}, epoch: map[*Obj]*epochKeys{}, fill: map[*Obj]*fillRec{}}
	rec.key = fmt.Sprintf("%s/%s.L%d", fr.call, fr.fn.Name(), to.Index)
	rec.n = app(sInt, "iter", rec.key, st.iters...)
	for _, p := range ps {
		rec.initV = append(rec.initV, e.val(fr, p.Edges[k]))
	}
	var lits []*Term  // verified header literals (relative to n)
	var inv []LinExpr // verified header invariants
	compr := map[string]*comprVar{}
	ptrw := map[string]string{} // widened pointer/iface leaves
	prevSig := ""
	_ = lits
	for round := 0; ; round++ {
		rec.rounds = round + 1
		if round > maxRounds {
			panic(Undecided{to.Instrs[0].Pos(), "loop analysis does not stabilise in " + fr.fn.String()})
		}
		discover := func(disc bool) []Outcome {
			hs := st.clone()
			f := fr.clone()
			rec.headV = nil
			hs.iters = append(hs.iters, rec.n)
			g := &gen{e: e, rec: rec, compr: compr, widen: ptrw, st: hs}
			// objects first
			var hobjs []*Obj
			for o := range rec.havoc {
				hobjs = append(hobjs, o)
			}
			sort.Slice(hobjs, func(i, j int) bool { return hobjs[i].id < hobjs[j].id })
			for _, o := range hobjs {
				ep := opq("epoch", rec.key, append([]*Term{o.term}, hs.iters...)...)
				if rec.havoc[o] == "mapcompr" {
					hs.setMem(o, &ObjState{base: &Base{kind: "mapcompr", term: ep, rec: rec, src: o}})
				} else if rec.havoc[o] == "fill" {
					hs.setMem(o, &ObjState{base: &Base{kind: "fill", term: ep, rec: rec, src: o, srcSt: st.obj(o)}})
				} else {
					b := &Base{kind: "sym", term: ep}
					if isMapT(o.typ) && !o.fresh {
						b.rec, b.src, b.srcSt = rec, o, st.obj(o)
					}
					hs.setMem(o, &ObjState{base: b})
				}
			}
			for i, v := range rec.initV {
				hv := g.header(fmt.Sprintf("p%d", i), v, ps[i].Type())
				rec.headV = append(rec.headV, hv)
				f.env[ps[i]] = hv
			}
			for _, c := range rec.cells {
				c.head = g.header("c"+c.obj.term.show(3)+fmt.Sprint(c.obj.id)+selKey(c.path), c.init, c.typ)
				hs.write(c.obj, c.path, c.head, false)
			}
			for _, c := range inv {
				if !hs.addGE(c) {
					hs.dead = true
				}
			}
			rec.headSt = hs.clone()
			rec.evStart = len(hs.events)
			hs.loops = append(hs.loops, rec)
			hs.log(&Event{kind: "loop", rec: rec, pos: to.Instrs[0].Pos()})
			al := &activeLoop{head: to, body: l.body, disc: disc, rec: rec}
			f.active = append(f.active, al)
			if hs.dead {
				return nil
			}
			return e.exec(f, to, len(ps), hs)
		}
		outs := discover(true)
		// collect back edges
		rec.backs = nil
		for _, o := range outs {
			if o.kind != "back" || o.loop.rec != rec {
				continue
			}
			be := &BackEdge{st: o.st, from: o.from}
			bi := predIndex(o.from, to)
			f2 := &Frame{fn: fr.fn, env: o.env}
			for _, p := range ps {
				be.phiV = append(be.phiV, e.val(f2, p.Edges[bi]))
			}
			hl := len(rec.headSt.litOrd)
			if len(o.st.litOrd) > hl {
				be.lits = append(be.lits, o.st.litOrd[hl:]...)
			}
			if len(o.st.cons) > len(rec.headSt.cons) {
				be.cons = append(be.cons, o.st.cons[len(rec.headSt.cons):]...)
			}
			rec.backs = append(rec.backs, be)
		}
		changed := false
		// modified memory
		for _, be := range rec.backs {
			if e.modified(fr, rec, be) {
				changed = true
			}
		}
		if !changed {
			for _, be := range rec.backs {
				be.cellV = nil
				for _, c := range rec.cells {
					v := e.readNoFork(be.st, c.obj, c.path, c.typ)
					if v == nil {
						rec.havoc[c.obj] = "havoc"
						changed = true
						break
					}
					be.cellV = append(be.cellV, v)
				}
			}
			if changed {
				rec.dropCells()
			}
		}
		if !changed {
			g := &gen{e: e, rec: rec, compr: compr, widen: ptrw}
			for i := range ps {
				var bv []Val
				for _, be := range rec.backs {
					bv = append(bv, be.phiV[i])
				}
				if g.update(fmt.Sprintf("p%d", i), rec.initV[i], rec.headV[i], bv, ps[i].Type()) {
					changed = true
				}
			}
			for ci, c := range rec.cells {
				var bv []Val
				for _, be := range rec.backs {
					bv = append(bv, be.cellV[ci])
				}
				if g.update("c"+c.obj.term.show(3)+fmt.Sprint(c.obj.id)+selKey(c.path), c.init, c.head, bv, c.typ) {
					changed = true
				}
			}
			if g.regroup() {
				changed = true
			}
			// map comprehensions
			for o, kind := range rec.havoc {
				if kind == "mapcompr" {
					if e.mapComprUpdate(rec, o) {
						changed = true
					}
				} else if kind == "fill" {
					if e.fillUpdate(rec, o) {
						changed = true
					}
				} else if isMapT(o.typ) && !o.fresh {
					if e.epochUpdate(rec, o) {
						changed = true
					}
				}
			}
			// linear invariants
			ninv := e.loopInvariants(rec)
			sig := ""
			for _, c := range ninv {
				sig += c.key() + ";"
			}
			if sig != prevSig {
				changed = true
				// keep only invariants that survive (monotone after the first round)
				inv = ninv
				prevSig = sig
				if round > 8 {
					inv = nil
					prevSig = ""
					changed = len(ninv) > 0 && round < maxRounds-1
				}
			}
		}
		if len(rec.epoch) > 0 && !changed {
			// the facts of completed iterations were used: they must be reproduced
			sig := ""
			for _, be := range rec.backs {
				for _, l := range be.lits {
					sig += fmt.Sprintf("%d:%v,", l.id, be.st.lits.get(l))
				}
				sig += ";"
			}
			if sig != rec.backSig {
				rec.backSig = sig
				changed = true
			}
		}
		if !changed {
			// the discovery run was inductive; run the continuation
			final := rec.backs
			res := discover(false)
			var keep []Outcome
			for _, o := range res {
				if o.kind == "back" && o.loop.rec == rec {
					continue
				}
				keep = append(keep, o)
			}
			rec.backs = final
			return keep
		}
	}
}

func (r *LoopRec) dropCells() {
	var n []*loopCell
	for _, c := range r.cells {
		if _, h := r.havoc[c.obj]; !h {
			n = append(n, c)
		}
	}
	r.cells = n
}

func (e *Engine) readNoFork(s *State, o *Obj, path []Sel, t types.Type) (v Val) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case ForkOn, Undecided:
				v = nil
				return
			}
			panic(x)
		}
	}()
	return e.read(s, o, path, t)
}

// modified finds the pre-existing memory an iteration changes.
func (e *Engine) modified(fr *Frame, rec *LoopRec, be *BackEdge) bool {
	ch := false
	var objs []*Obj
	for o := range be.st.mem.all() {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		os := be.st.mem.get(o)
		hs, inHead := rec.headSt.mem.find(o)
		if !inHead {
			if o.fresh {
				continue // allocated in the iteration
			}
			hs = &ObjState{base: defaultBase(o)}
		}
		if hs == os || rec.havoc[o] == "havoc" {
			continue
		}
		if rec.havoc[o] == "mapcompr" || rec.havoc[o] == "fill" {
			continue
		}
		if hs.base != os.base && !(hs.base.kind == "sym" && os.base.kind == "sym" && hs.base.term == os.base.term) && !(hs.base.kind == os.base.kind && (os.base.kind == "zero" || os.base.kind == "empty")) {
			rec.havoc[o] = "havoc"
			ch = true
			continue
		}
		old := map[string]Val{}
		for _, w := range hs.writes {
			if w.del {
				old[selKey(w.path)] = "del"
			} else {
				old[selKey(w.path)] = e.valTerm(w.val)
			}
		}
		for _, w := range os.writes {
			k := selKey(w.path)
			var nv Val = "del"
			if !w.del {
				nv = e.valTerm(w.val)
			}
			if ov, ok := old[k]; ok && ov == nv {
				continue
			}
			if w.del || pathSymbolic(w.path) {
				if !isMapT(o.typ) && inHead && o.fresh && len(w.path) == 1 && !w.del {
					rec.havoc[o] = "fill"
				} else if !inHead || hs.base.kind != "empty" || len(hs.writes) > 0 || w.del || !isMapT(o.typ) {
					rec.havoc[o] = "havoc"
				} else {
					rec.havoc[o] = "mapcompr"
				}
				ch = true
				break
			}
			covered := false
			for _, c := range rec.cells {
				if c.obj == o && isPrefix(c.path, w.path) {
					covered = true
				}
			}
			if covered {
				continue
			}
			// new cell; drop narrower ones
			var n []*loopCell
			for _, c := range rec.cells {
				if c.obj == o && isPrefix(w.path, c.path) {
					continue
				}
				n = append(n, c)
			}
			t := pathType(o.typ, w.path)
			if t == nil {
				rec.havoc[o] = "havoc"
				ch = true
				break
			}
			iv := e.readNoFork(rec.entry, o, w.path, t)
			if iv == nil {
				rec.havoc[o] = "havoc"
				ch = true
				break
			}
			rec.cells = append(n, &loopCell{obj: o, path: w.path, typ: t, init: iv})
			ch = true
		}
	}
	if ch {
		rec.dropCells()
	}
	return ch
}

func isMapT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func pathSymbolic(p []Sel) bool {
	for _, s := range p {
		if s.idx != nil {
			return true
		}
	}
	return false
}

func isPrefix(a, b []Sel) bool {
	if len(a) > len(b) {
		return false
	}
	return selKey(a) == selKey(b[:len(a)])
}

func pathType(t types.Type, p []Sel) types.Type {
	for _, s := range p {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if s.idx != nil || s.field >= u.NumFields() {
				return nil
			}
			t = u.Field(s.field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// comprVar is a slice variable that only grows by appends in the loop.
type comprVar struct {
	base  *Base
	obj   *Obj
	per   int // appended per iteration, -1 varying
	sig   string
	init  SliceV
	initM *ObjState
}

type gen struct {
	e     *Engine
	rec   *LoopRec
	compr map[string]*comprVar
	widen map[string]string
	st    *State
}

func (g *gen) leafHead(key string, init *Term) *Term {
	lf := g.rec.leaves[key]
	if lf == nil {
		lf = &leaf{key: key, init: init, cls: "inv"}
		g.rec.leaves[key] = lf
	}
	lf.init = init
	switch lf.cls {
	case "inv":
		lf.head = init
	case "ind":
		lf.head = addScaled(init, lf.step, g.rec.n)
	default:
		lf.head = app(init.sort, "hv", fmt.Sprintf("%s:%d", g.rec.key, lf.group), append([]*Term{init}, g.st.iters...)...)
	}
	return lf.head
}

func addScaled(init, step, n *Term) *Term {
	if step.isConst() {
		return linCombine(init.sort, 1, init, step.c, toSort(n, init.sort, true))
	}
	return mkAdd(init, mkMul(step, toSort(n, init.sort, true)))
}

// header builds the header value of a variable from its classification.
func (g *gen) header(key string, init Val, t types.Type) Val {
	if w := g.widen[key]; w != "" {
		return g.widened(key, w, init, t)
	}
	switch x := init.(type) {
	case *Term:
		return g.leafHead(key, x)
	case StructV:
		sv := StructV{typ: x.typ}
		st, _ := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			sv.f = append(sv.f, g.header(fmt.Sprintf("%s.f%d", key, i), f, ft))
		}
		return sv
	case IfaceV:
		return IfaceV{dyn: x.dyn, v: g.header(key+".i", x.v, x.dyn)}
	case PtrV:
		p := PtrV{obj: x.obj}
		for i, s := range x.path {
			if s.idx != nil {
				s.idx = g.leafHead(fmt.Sprintf("%s.x%d", key, i), s.idx)
			}
			p.path = append(p.path, s)
		}
		return p
	case SliceV:
		if x.obj == nil {
			return x
		}
		return SliceV{obj: x.obj, path: x.path, off: g.leafHead(key+".off", x.off), len: g.leafHead(key+".len", x.len), cap: g.leafHead(key+".cap", x.cap)}
	}
	return init
}

func (g *gen) widened(key, w string, init Val, t types.Type) Val {
	id := opq("hvv", g.rec.key+":"+key, g.st.iters...)
	switch w {
	case "compr":
		cv := g.compr[key]
		in, _ := init.(SliceV)
		cv.init = in
		cv.initM = nil
		if in.obj != nil {
			cv.initM = g.rec.entry.obj(in.obj)
		}
		var et types.Type
		if s, ok := t.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		o := getObj(opq("compr", g.rec.key+":"+key, g.st.iters...), func() *Obj { return &Obj{kind: "compr", typ: et, fresh: true} })
		cv.obj = o
		cv.base = &Base{kind: "compr", rec: g.rec, term: o.term, elems: cv.base.elems, stride: cv.per, src: in.obj, srcSt: cv.initM, srcSl: &SliceV{obj: in.obj, path: in.path, off: in.off, len: in.len}}
		var ln *Term
		if cv.per >= 0 {
			ln = linCombine(sInt, 1, in.len, cv.per, g.rec.n)
		} else {
			cl := app(sInt, "len", "", o.term)
			ln = mkAdd(in.len, cl)
		}
		cv.base.total = ln
		regBase(o.term, cv.base)
		g.st.setMem(o, &ObjState{base: cv.base})
		return SliceV{obj: o, off: mkInt(sInt, 0), len: ln, cap: app(sInt, "cap", "", o.term)}
	case "slice":
		s, ok := t.Underlying().(*types.Slice)
		if ok {
			o := getObj(opq("deref", "", id), func() *Obj { return &Obj{kind: "sym", typ: s.Elem(), fresh: false, bounded: true} })
			return SliceV{obj: o, off: mkInt(sInt, 0), len: app(sInt, "len", "", id), cap: app(sInt, "cap", "", id)}
		}
	}
	so := g.e.sortOf(t)
	c := id
	if so.kind != 'o' {
		c = app(so, "hvv", g.rec.key+":"+key, g.st.iters...)
	}
	return g.e.symVal(g.st, c, t, nil, "")
}

// update compares the back-edge values with the header value.
func (g *gen) update(key string, init, head Val, backs []Val, t types.Type) bool {
	if w := g.widen[key]; w != "" {
		if w == "compr" {
			return g.updateCompr(key, head.(SliceV), backs)
		}
		return false
	}
	switch h := head.(type) {
	case *Term:
		var bt []*Term
		for _, b := range backs {
			x, ok := b.(*Term)
			if !ok || x.sort != h.sort {
				g.widen[key] = "any"
				return true
			}
			bt = append(bt, x)
		}
		return g.leafUpdate(key, h, bt)
	case StructV:
		ch := false
		st, _ := h.typ.Underlying().(*types.Struct)
		for i := range h.f {
			var bs []Val
			for _, b := range backs {
				bv, ok := b.(StructV)
				if !ok {
					g.widen[key] = "any"
					return true
				}
				bs = append(bs, bv.f[i])
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			if g.update(fmt.Sprintf("%s.f%d", key, i), init.(StructV).f[i], h.f[i], bs, ft) {
				ch = true
			}
		}
		return ch
	case IfaceV:
		var bs []Val
		for _, b := range backs {
			bv, ok := b.(IfaceV)
			if !ok || !types.Identical(bv.dyn, h.dyn) {
				g.widen[key] = "any"
				return true
			}
			bs = append(bs, bv.v)
		}
		return g.update(key+".i", init.(IfaceV).v, h.v, bs, h.dyn)
	case PtrV:
		ch := false
		for _, b := range backs {
			bv, ok := b.(PtrV)
			if !ok || bv.obj != h.obj || len(bv.path) != len(h.path) || shape(bv.path) != shape(h.path) {
				// a pointer into another object
				g.widen[key] = "any"
				return true
			}
		}
		for i, s := range h.path {
			if s.idx == nil {
				continue
			}
			var bt []*Term
			for _, b := range backs {
				bt = append(bt, b.(PtrV).path[i].idx)
			}
			if g.leafUpdate(fmt.Sprintf("%s.x%d", key, i), s.idx, bt) {
				ch = true
			}
		}
		return ch
	case SliceV:
		same := true
		for _, b := range backs {
			bv, ok := b.(SliceV)
			if !ok {
				g.widen[key] = "slice"
				return true
			}
			if bv.obj != h.obj {
				same = false
			}
		}
		if same {
			if h.obj == nil {
				return false
			}
			ch := false
			for i, nm := range []string{".off", ".len", ".cap"} {
				var bt []*Term
				for _, b := range backs {
					bv := b.(SliceV)
					bt = append(bt, []*Term{bv.off, bv.len, bv.cap}[i])
				}
				if g.leafUpdate(key+nm, []*Term{h.off, h.len, h.cap}[i], bt) {
					ch = true
				}
			}
			return ch
		}
		// growing by appends?
		if g.compr[key] == nil {
			g.compr[key] = &comprVar{base: &Base{kind: "compr", rec: g.rec}, per: -2}
			if g.collectCompr(key, h, backs) {
				g.widen[key] = "compr"
				return true
			}
		}
		g.widen[key] = "slice"
		return true
	}
	hk := g.e.valTerm(head)
	for _, b := range backs {
		if g.e.valTerm(b) != hk {
			g.widen[key] = "any"
			return true
		}
	}
	return false
}

func shape(p []Sel) string {
	var b strings.Builder
	for _, s := range p {
		if s.idx != nil {
			b.WriteString("#")
		} else {
			fmt.Fprintf(&b, ".%d", s.field)
		}
	}
	return b.String()
}

func (g *gen) leafUpdate(key string, head *Term, backs []*Term) bool {
	lf := g.rec.leaves[key]
	if lf == nil {
		return false
	}
	for i := range backs {
		backs[i] = g.rec.backs[i].st.canon2(backs[i], head)
	}
	switch lf.cls {
	case "inv":
		ok := true
		for _, b := range backs {
			if b != head {
				ok = false
			}
		}
		if ok {
			return false
		}
		if head.sort.kind == 'i' {
			var step *Term
			same := true
			for _, b := range backs {
				d := mkSub(b, head)
				if step == nil {
					step = d
				} else if step != d {
					same = false
				}
			}
			if same && step.isConst() {
				lf.cls, lf.step = "ind", step
				return true
			}
		}
		lf.cls = "hav"
		lf.group = g.groupOf(lf)
		return true
	case "ind":
		for _, b := range backs {
			if mkSub(b, head) != lf.step {
				lf.cls = "hav"
				lf.group = g.groupOf(lf)
				return true
			}
		}
		return false
	}
	return false
}

// canon2 normalises a back value by the facts of its path.
func (s *State) canon2(t, head *Term) *Term {
	if t == head {
		return t
	}
	return t
}

func (g *gen) groupOf(lf *leaf) int {
	// optimistic: same initial term, same group
	for _, o := range g.rec.leaves {
		if o != lf && o.cls == "hav" && o.init == lf.init && o.init.sort == lf.init.sort && o.group > 0 {
			return o.group
		}
	}
	g.e.uid++
	// deterministic numbering
	mx := 0
	for _, o := range g.rec.leaves {
		if o.group > mx {
			mx = o.group
		}
	}
	return mx + 1
}

// regroup splits congruence groups whose members diverge on a back edge.
func (g *gen) regroup() bool {
	groups := map[int][]*leaf{}
	for _, lf := range g.rec.leaves {
		if lf.cls == "hav" {
			groups[lf.group] = append(groups[lf.group], lf)
		}
	}
	ch := false
	var ids []int
	mx := 0
	for id := range groups {
		ids = append(ids, id)
		if id > mx {
			mx = id
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		ls := groups[id]
		if len(ls) < 2 {
			continue
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].key < ls[j].key })
		byBack := map[string][]*leaf{}
		var order []string
		for _, lf := range ls {
			s := fmt.Sprint(lf.init.id, ":")
			for i := range g.rec.backs {
				t := g.leafBack(lf.key, i)
				if t == nil {
					s += "nil,"
				} else {
					s += fmt.Sprint(t.id, ",")
				}
			}
			if _, ok := byBack[s]; !ok {
				order = append(order, s)
			}
			byBack[s] = append(byBack[s], lf)
		}
		for i, s := range order {
			if i == 0 {
				continue
			}
			mx++
			for _, lf := range byBack[s] {
				lf.group = mx
			}
			ch = true
		}
	}
	return ch
}

// leafBack finds the value of a leaf on back edge i.
func (g *gen) leafBack(key string, i int) *Term {
	be := g.rec.backs[i]
	for pi := range g.rec.phis {
		k := fmt.Sprintf("p%d", pi)
		if strings.HasPrefix(key, k+".") || key == k {
			return leafAt(be.phiV[pi], key[len(k):])
		}
	}
	for ci, c := range g.rec.cells {
		k := "c" + c.obj.term.show(3) + fmt.Sprint(c.obj.id) + selKey(c.path)
		if strings.HasPrefix(key, k+".") || key == k {
			if ci < len(be.cellV) {
				return leafAt(be.cellV[ci], key[len(k):])
			}
		}
	}
	return nil
}

func leafAt(v Val, rest string) *Term {
	for rest != "" {
		rest = rest[1:]
		p := rest
		if i := strings.IndexByte(rest, '.'); i >= 0 {
			p, rest = rest[:i], rest[i:]
		} else {
			rest = ""
		}
		switch x := v.(type) {
		case StructV:
			var n int
			if _, err := fmt.Sscanf(p, "f%d", &n); err != nil || n >= len(x.f) {
				return nil
			}
			v = x.f[n]
		case IfaceV:
			v = x.v
		case PtrV:
			var n int
			if _, err := fmt.Sscanf(p, "x%d", &n); err != nil || n >= len(x.path) {
				return nil
			}
			return x.path[n].idx
		case SliceV:
			switch p {
			case "off":
				return x.off
			case "len":
				return x.len
			case "cap":
				return x.cap
			}
			return nil
		default:
			return nil
		}
	}
	t, _ := v.(*Term)
	return t
}

// collectCompr records the elements appended on each back edge.
func (g *gen) collectCompr(key string, h SliceV, backs []Val) bool {
	cv := g.compr[key]
	per := -2
	var elems []comprElem
	sig := ""
	for bi, b := range backs {
		bv := b.(SliceV)
		chain, ok := appendChain(g.rec.backs[bi].st, bv, h)
		if !ok {
			return false
		}
		for _, v := range chain {
			elems = append(elems, comprElem{bi, v})
			sig += fmt.Sprintf("%d:%d;", bi, g.e.valTerm(v).id)
		}
		if per == -2 {
			per = len(chain)
		} else if per != len(chain) {
			per = -1
		}
	}
	cv.per = per
	cv.base = &Base{kind: "compr", rec: g.rec, elems: elems, stride: per}
	cv.sig = sig
	return true
}

func (g *gen) updateCompr(key string, h SliceV, backs []Val) bool {
	cv := g.compr[key]
	oldSig, oldPer := cv.sig, cv.per
	base := cv.base
	for _, b := range backs {
		if _, ok := b.(SliceV); !ok {
			g.widen[key] = "slice"
			return true
		}
	}
	if !g.collectCompr(key, h, backs) {
		g.widen[key] = "slice"
		return true
	}
	if cv.sig == oldSig && cv.per == oldPer {
		base.elems = cv.base.elems
		cv.base = base
		return false
	}
	return true
}

// appendChain returns the elements appended to h to obtain b.
func appendChain(st *State, b, h SliceV) ([]Val, bool) {
	if b.obj == h.obj {
		if b.obj == nil || (b.len == h.len && b.off == h.off) {
			return nil, true
		}
		return nil, false
	}
	if b.obj == nil {
		return nil, false
	}
	os := st.obj(b.obj)
	if os.base.kind != "copy" || os.base.srcSl == nil {
		return nil, false
	}
	pre, ok := appendChain(st, *os.base.srcSl, h)
	if !ok {
		return nil, false
	}
	// the appended elements, in index order
	base := os.base.srcSl.len
	var app []Val
	for k := 0; ; k++ {
		idx := linCombine(sInt, 1, base, k, mkInt(sInt, 1))
		found := false
		for _, w := range os.writes {
			if len(w.path) == 1 && w.path[0].idx == idx {
				app = append(app, w.val)
				found = true
			}
		}
		if !found {
			break
		}
	}
	if len(app) != len(os.writes) || len(app) == 0 {
		return nil, false
	}
	return append(append([]Val{}, pre...), app...), true
}

// comprElem is element i of a comprehension slice.
func (e *Engine) comprElem(s *State, o *Obj, b *Base, i *Term) Val {
	// inside the loop that builds it the elements are not known in general;
	// the facts of completed iterations still apply
	init := b.srcSl.len
	if !init.isConstV(0) {
		if s.decide(mkLt(i, init)) {
			if b.src == nil {
				s.dead = true
				return e.zero(o.typ)
			}
			sub := append(append([]Sel(nil), b.srcSl.path...), Sel{field: -1, idx: mkAdd(i, b.srcSl.off)})
			return e.readState(s, b.src, b.srcSt, sub, o.typ)
		}
	}
	rel := mkSub(i, init)
	rec := b.rec
	if len(b.elems) == 0 {
		s.dead = true
		return e.zero(o.typ)
	}
	var kappa *Term
	ce := b.elems[0]
	same := -1
	if len(b.elems) > 1 && b.stride != 2 {
		same = sameElems(e, b)
	}
	if same >= 0 {
		ce = b.elems[same]
		// every way appends the same value
		var kap *Term
		if b.stride == 1 {
			kap = rel
		} else {
			kap = app(sInt, "iter", "at", o.term, rel)
			if !s.addGE(leAdd(leTerm(rec.n), 1, leTerm(kap), -1).addConst(-1)) {
				s.dead = true
			}
		}
		m := map[*Term]*Term{rec.n: kap}
		memo := map[*Term]*Term{}
		be0 := rec.backsAt(ce.back)
		if be0 != nil {
			for _, l := range be0.lits {
				v, all := be0.st.lits.get(l), true
				for _, x := range b.elems[1:] {
					if bx := rec.backsAt(x.back); bx == nil {
						all = false
					} else if xv, ok := bx.st.lits.find(l); !ok || xv != v {
						all = false
					}
				}
				if all && !s.assume(subst(l, m, memo), v) {
					s.dead = true
				}
			}
			for _, c := range be0.cons {
				all := true
				for _, x := range b.elems[1:] {
					bx := rec.backsAt(x.back)
					if bx == nil || !bx.st.entailsGE(c) {
						all = false
					}
				}
				if all && !s.addGE(substLE(c, m, memo)) {
					s.dead = true
				}
			}
		}
		if be0 != nil {
			e.carry(be0.st, s, ce.val, m, memo, 0)
		}
		return e.substVal(ce.val, m, memo)
	}
	if len(b.elems) > 1 {
		// several ways to be appended: choose
		found := false
		for ci := range b.elems[:len(b.elems)-1] {
			if s.decide(app(sBool, "chose", fmt.Sprint(ci), o.term, rel)) {
				ce = b.elems[ci]
				found = true
				break
			}
		}
		if !found {
			ce = b.elems[len(b.elems)-1]
		}
	}
	if b.stride == 1 {
		kappa = rel
	} else {
		kappa = app(sInt, "iter", "at", o.term, rel)
		if !s.addGE(leAdd(leTerm(rec.n), 1, leTerm(kappa), -1).addConst(-1)) {
			s.dead = true
		}
	}
	v, ok := e.instBack(s, rec, rec.backsAt(ce.back), kappa, ce.val)
	if !ok {
		s.dead = true
	}
	return v
}

func (r *LoopRec) backsAt(i int) *BackEdge {
	if i < len(r.backs) {
		return r.backs[i]
	}
	return nil
}

// instBack assumes the facts of iteration kappa of a back edge and returns val at it.
func (e *Engine) instBack(s *State, rec *LoopRec, be *BackEdge, kappa *Term, val Val) (Val, bool) {
	m := map[*Term]*Term{rec.n: kappa}
	memo := map[*Term]*Term{}
	ok := true
	if be != nil {
		for _, l := range be.lits {
			nl := subst(l, m, memo)
			if !s.assume(nl, be.st.lits.get(l)) {
				ok = false
			}
		}
		for _, c := range be.cons {
			if !s.addGE(substLE(c, m, memo)) {
				ok = false
			}
		}
	}
	if be != nil {
		e.carry(be.st, s, val, m, memo, 0)
	}
	return e.substVal(val, m, memo), ok
}

// carry brings the contents of objects allocated in an iteration, as far as v reaches
// them, from the state at the iteration's end.
func (e *Engine) carry(from, to *State, v Val, m, memo map[*Term]*Term, depth int) {
	if depth > 6 || v == nil || from == nil {
		return
	}
	rec := func(w Val) { e.carry(from, to, w, m, memo, depth+1) }
	obj := func(o *Obj) {
		if o == nil || !o.fresh {
			return
		}
		os := from.mem.get(o)
		if os == nil {
			return
		}
		n := e.substObj(o, m, memo)
		if n == o || to.mem.get(n) != nil {
			return
		}
		to.setMem(n, e.substState(os, n, m, memo))
		for _, w := range os.writes {
			rec(w.val)
		}
	}
	switch x := v.(type) {
	case StructV:
		for _, f := range x.f {
			rec(f)
		}
	case TupleV:
		for _, f := range x {
			rec(f)
		}
	case IfaceV:
		rec(x.v)
	case PtrV:
		obj(x.obj)
	case SliceV:
		obj(x.obj)
	case MapV:
		obj(x.obj)
	}
}

func (e *Engine) substState(os *ObjState, o *Obj, m, memo map[*Term]*Term) *ObjState {
	n := &ObjState{}
	switch b := os.base; b.kind {
	case "zero", "empty":
		n.base = b
	case "sym":
		n.base = &Base{kind: "sym", term: subst(b.term, m, memo)}
	case "copy":
		nb := &Base{kind: "copy", src: e.substObj(b.src, m, memo)}
		if b.srcSt != nil {
			nb.srcSt = e.substState(b.srcSt, nb.src, m, memo)
		}
		if b.srcSl != nil {
			sl := e.substVal(*b.srcSl, m, memo).(SliceV)
			nb.srcSl = &sl
		}
		n.base = nb
	default:
		n.base = &Base{kind: "sym", term: opq("hv", "carry", o.term)}
	}
	for _, w := range os.writes {
		var p []Sel
		for _, x := range w.path {
			if x.idx != nil {
				x.idx = subst(x.idx, m, memo)
			}
			p = append(p, x)
		}
		n.writes = append(n.writes, Write{p, e.substVal(w.val, m, memo), w.del})
	}
	return n
}

func substLE(c LinExpr, m, memo map[*Term]*Term) LinExpr {
	r := LinExpr{c: new(big.Int).Set(c.c)}
	for _, mo := range c.ms {
		t := subst(mo.atom, m, memo)
		r = leAddB(r, bigOne, leTerm(t), mo.coef)
	}
	return r
}

func (e *Engine) substVal(v Val, m, memo map[*Term]*Term) Val {
	switch x := v.(type) {
	case *Term:
		return subst(x, m, memo)
	case StructV:
		n := StructV{typ: x.typ}
		for _, f := range x.f {
			n.f = append(n.f, e.substVal(f, m, memo))
		}
		return n
	case IfaceV:
		return IfaceV{dyn: x.dyn, v: e.substVal(x.v, m, memo)}
	case PtrV:
		p := PtrV{obj: e.substObj(x.obj, m, memo)}
		for _, s := range x.path {
			if s.idx != nil {
				s.idx = subst(s.idx, m, memo)
			}
			p.path = append(p.path, s)
		}
		return p
	case SliceV:
		if x.obj == nil {
			return x
		}
		return SliceV{obj: e.substObj(x.obj, m, memo), path: x.path, off: subst(x.off, m, memo), len: subst(x.len, m, memo), cap: subst(x.cap, m, memo)}
	case MapV:
		return MapV{obj: e.substObj(x.obj, m, memo)}
	}
	return v
}

func (e *Engine) substObj(o *Obj, m, memo map[*Term]*Term) *Obj {
	if o == nil {
		return nil
	}
	t := subst(o.term, m, memo)
	if t == o.term {
		return o
	}
	return getObj(t, func() *Obj {
		return &Obj{kind: o.kind, typ: o.typ, fresh: o.fresh, parent: o.parent, cls: o.cls}
	})
}

// loopInvariants proposes linear header facts: a constraint that every
// iteration establishes and that the entry establishes for n = -1.
func (e *Engine) loopInvariants(rec *LoopRec) []LinExpr {
	if len(rec.backs) == 0 {
		return nil
	}
	var out []LinExpr
	seen := map[string]bool{}
	local := func(t *Term) bool {
		return t.op == "iter" && t == rec.n
	}
	for _, c := range rec.backs[0].cons {
		ok := len(c.ms) > 0
		hasN := false
		for _, m := range c.ms {
			if m.atom == rec.n {
				hasN = true
				continue
			}
			if mentions(m.atom, local) {
				ok = false
			}
		}
		if !ok || !hasN {
			continue
		}
		all := true
		for _, be := range rec.backs {
			if !be.st.entailsGE(c) {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		m := map[*Term]*Term{rec.n: mkInt(sInt, -1)}
		c0 := substLE(c, m, map[*Term]*Term{})
		if !rec.entry.entailsGE(c0) {
			continue
		}
		m = map[*Term]*Term{rec.n: mkSub(rec.n, mkInt(sInt, 1))}
		c1 := substLE(c, m, map[*Term]*Term{})
		if k := c1.key(); !seen[k] {
			seen[k] = true
			out = append(out, c1)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// mapComprUpdate records what each iteration inserts into a fresh map.
func (e *Engine) mapComprUpdate(rec *LoopRec, o *Obj) bool {
	mc := &mapCompr{}
	for _, be := range rec.backs {
		os := be.st.obj(o)
		if os.base.kind != "mapcompr" || len(os.writes) > 1 {
			rec.havoc[o] = "havoc"
			return true
		}
		if len(os.writes) == 0 {
			mc.keys = append(mc.keys, nil)
			mc.vals = append(mc.vals, nil)
			continue
		}
		w := os.writes[0]
		if w.del || len(w.path) != 1 {
			rec.havoc[o] = "havoc"
			return true
		}
		mc.keys = append(mc.keys, w.path[0].idx)
		mc.vals = append(mc.vals, w.val)
	}
	rec.mapc[o] = mc
	return false
}

// fillUpdate checks that each iteration writes exactly the element at first + iteration.
func (e *Engine) fillUpdate(rec *LoopRec, o *Obj) bool {
	old := rec.fill[o]
	f := &fillRec{}
	if old != nil {
		f.tries = old.tries
	}
	for i, be := range rec.backs {
		os := be.st.obj(o)
		ok := os.base.kind == "fill" && os.base.rec == rec && len(os.writes) == 1 && len(os.writes[0].path) == 1 && os.writes[0].path[0].idx != nil
		if ok {
			w := os.writes[0]
			c := mkSub(w.path[0].idx, rec.n)
			ok = !mentions(c, func(t *Term) bool { return t == rec.n || t.op == "hv" || t.op == "hvv" || t.op == "chose" }) && (f.first == nil || f.first == c)
			f.first = c
			f.elems = append(f.elems, comprElem{i, w.val})
			f.sig += fmt.Sprintf("%d:%d;", c.id, e.valTerm(w.val).id)
		}
		if !ok {
			// the index may not be recognised yet
			tries := 1
			if old != nil {
				tries += old.tries
			}
			if rec.fill[o] = (&fillRec{tries: tries}); tries > 3 {
				rec.havoc[o] = "havoc"
				delete(rec.fill, o)
			}
			return true
		}
	}
	rec.fill[o] = f
	return old == nil || old.sig != f.sig
}

// fillElem is the element at position i of an object filled by a loop.
func (e *Engine) fillElem(s *State, o *Obj, b *Base, path []Sel, t types.Type) Val {
	f := b.rec.fill[b.src]
	if f == nil || f.first == nil {
		return e.symCell(s, o, b.term, path, t)
	}
	i := mkSub(path[0].idx, f.first)
	if !s.decide(mkLt(i, mkInt(i.sort, 0))) && s.decide(mkLt(i, lastArg(b.term))) {
		regBase(o.term, b)
		v := e.comprElem(s, o, &Base{kind: "compr", rec: b.rec, elems: f.elems, stride: 1, srcSl: &SliceV{len: mkInt(sInt, 0)}}, i)
		return e.project(s, v, path[1:])
	}
	return e.readState(s, o, b.srcSt, path, t)
}

// mapCopyOf recognises a finished comprehension that copies a whole map.
func (e *Engine) mapCopyOf(st *State, o *Obj, b *Base) (src *Obj, os *ObjState, ok bool) {
	mc := b.rec.mapc[b.src]
	if mc == nil || len(mc.keys) == 0 {
		return nil, nil, false
	}
	var rng *Term
	for i, k := range mc.keys {
		if k == nil || k.op != "rangekey" || k.args[2] != b.rec.n {
			return nil, nil, false
		}
		if rng != nil && rng != k.args[0] {
			return nil, nil, false
		}
		rng = k.args[0]
		so := objTab[k.args[1]]
		if so == nil {
			return nil, nil, false
		}
		src = so
		os = b.rec.entry.obj(so)
		v, has := e.mapgetNoFork(b.rec.backs[i].st, so, b.rec.backs[i].st.obj(so), k, so.typ.Underlying().(*types.Map).Elem())
		if v == nil || has != tTrue || e.valTerm(v) != e.valTerm(mc.vals[i]) {
			return nil, nil, false
		}
	}
	// the loop ended because the range was exhausted
	more := app(sBool, "more", "", rng, b.rec.n)
	if v, known := st.lits.find(more); !known || v {
		return nil, nil, false
	}
	return src, os, true
}

func (e *Engine) mapgetNoFork(s *State, o *Obj, os *ObjState, k *Term, t types.Type) (v Val, has *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(ForkOn); ok {
				v, has = nil, nil
				return
			}
			panic(x)
		}
	}()
	return e.mapget(s, o, os, k, t)
}

// epochUpdate records the keys written in each iteration; deletions give up.
func (e *Engine) epochUpdate(rec *LoopRec, o *Obj) bool {
	ek := &epochKeys{known: true}
	for i, be := range rec.backs {
		var ks []*Term
		var vs []Val
		for _, w := range be.st.obj(o).writes {
			if w.del || len(w.path) != 1 {
				ek.known = false
				continue
			}
			ks = append(ks, w.path[0].idx)
			vs = append(vs, w.val)
			ek.sig += fmt.Sprintf("%d:%d:%d;", i, w.path[0].idx.id, e.valTerm(w.val).id)
		}
		if b := be.st.obj(o).base; b.kind != "sym" || b.rec != rec {
			ek.known = false
		}
		ek.keys = append(ek.keys, ks)
		ek.vals = append(ek.vals, vs)
	}
	old := rec.epoch[o]
	if old == nil || old.sig != ek.sig || old.known != ek.known {
		rec.epoch[o] = ek
		return true
	}
	return false
}

// epochHas decides membership in the middle of (or after) a loop that only inserts:
// 1 present before, -1 absent before and different from every inserted key, 0 unknown.
func (e *Engine) epochHas(s *State, o *Obj, b *Base, k *Term) (res int) {
	ek := b.rec.epoch[b.src]
	if ek == nil || !ek.known || len(ek.keys) != len(b.rec.backs) || e.inEpoch > 2 {
		return 0
	}
	e.inEpoch++
	defer func() {
		e.inEpoch--
		if x := recover(); x != nil {
			if _, ok := x.(ForkOn); ok {
				res = 0
				return
			}
			panic(x)
		}
	}()
	pre := s.triSafe(e.hasTerm(s, o, b.srcSt, k))
	if pre != -1 {
		return pre
	}
	args := b.term.args
	n := args[len(args)-1]
	for i, ks := range ek.keys {
		if len(ks) == 0 {
			continue
		}
		kap := app(sInt, "iter", "before", b.term)
		s2 := s.clone()
		if !s2.addGE(leTerm(kap)) || !s2.addGE(leAdd(leTerm(n), 1, leTerm(kap), -1).addConst(-1)) {
			continue
		}
		if _, ok := e.instBack(s2, b.rec, b.rec.backs[i], kap, nil); !ok {
			continue
		}
		for _, key := range ks {
			kk := subst(key, map[*Term]*Term{b.rec.n: kap}, map[*Term]*Term{})
			if kk.sort != k.sort {
				return 0
			}
			if s2.proves(mkNot(mkEq(kk, k))) {
				continue
			}
			if !e.saturate(s2, kk, k) {
				continue
			}
			if !s2.proves(mkNot(mkEq(kk, k))) {
				return 0
			}
		}
	}
	return -1
}

// sameElems: one element per back edge, all with the value of one of them; its index,
// or -1.
func sameElems(e *Engine, b *Base) int {
	seen := map[int]bool{}
	for _, x := range b.elems {
		if seen[x.back] {
			return -1
		}
		seen[x.back] = true
	}
next:
	for g, y := range b.elems {
		for _, x := range b.elems {
			be := b.rec.backsAt(x.back)
			if e.valTerm(x.val) != e.valTerm(y.val) && (be == nil || !e.sameUnder(be.st, x.val, y.val)) {
				continue next
			}
		}
		return g
	}
	return -1
}

// sameUnder: two values are equal by the facts of a state.
func (e *Engine) sameUnder(s *State, v, w Val) bool {
	switch x := v.(type) {
	case StructV:
		y, ok := w.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.sameUnder(s, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := w.(IfaceV)
		return ok && types.Identical(x.dyn, y.dyn) && e.sameUnder(s, x.v, y.v)
	case *Term:
		y, ok := w.(*Term)
		if !ok || x.sort != y.sort {
			return false
		}
		return x == y || e.provesX(s, mkEq(x, y))
	}
	return e.valTerm(v) == e.valTerm(w)
}

// epochOne: every iteration inserts the same single key (as a function of the iteration).
func (e *Engine) epochOne(b *Base) (key *Term, val Val, ok bool) {
	ek := b.rec.epoch[b.src]
	if ek == nil || !ek.known || len(ek.keys) != len(b.rec.backs) || len(ek.keys) == 0 {
		return nil, nil, false
	}
	for _, ks := range ek.keys {
		if len(ks) != 1 {
			return nil, nil, false
		}
	}
next:
	for g := range ek.keys {
		key, val = ek.keys[g][0], ek.vals[g][0]
		for i, ks := range ek.keys {
			if i == g || ks[0] == key && e.valTerm(ek.vals[i][0]) == e.valTerm(val) {
				continue
			}
			st := b.rec.backs[i].st
			if !e.sameUnder(st, ks[0], key) || !e.sameUnder(st, ek.vals[i][0], val) {
				continue next
			}
		}
		return key, val, true
	}
	return nil, nil, false
}

// epochSome decides membership of k exactly when every iteration inserts one key:
// k is in the map iff it was before or it is the key of a completed iteration. It may
// split the state. done=false: not decided; ins: inserted by the loop, with value val.
func (e *Engine) epochSome(s *State, o *Obj, b *Base, k *Term) (done, ins bool, val Val) {
	if e.inEpoch > 0 {
		return
	}
	key, v, ok := e.epochOne(b)
	if !ok || key.sort != k.sort {
		return
	}
	n := b.term.args[len(b.term.args)-1]
	rec := b.rec
	at := func(kap *Term) Val {
		e.commonFacts(s, rec, kap)
		sm, memo := map[*Term]*Term{rec.n: kap}, map[*Term]*Term{}
		e.carry(rec.backs[0].st, s, v, sm, memo, 0)
		return e.substVal(v, sm, memo)
	}
	if m := e.solvePat(s, key, k, rec.n); m != nil {
		if s.proves(mkLe(mkInt(sInt, 0), m)) && s.proves(mkLt(m, n)) {
			return true, true, at(m)
		}
	}
	if kl, ok := rec.backs[0].st.liftSafe(key); ok {
		co := kl.coefOf(rec.n)
		inv := true
		for _, m := range kl.ms {
			if m.atom != rec.n && mentions(m.atom, func(t *Term) bool { return t == rec.n }) {
				inv = false
			}
		}
		if inv && co != nil && co.CmpAbs(bigOne) == 0 {
			// kappa = (k - c) * co
			d := leAdd(s.lift(k), 1, kl, -1)
			d = leAddB(d, bigOne, LinExpr{c: new(big.Int), ms: []Mono{{bigOne, rec.n}}}, co)
			if co.Sign() < 0 {
				d = d.neg()
			}
			hi := leAdd(leTerm(n), 1, d, -1).addConst(-1)
			for _, c := range []LinExpr{d, hi} {
				c := c
				if s.entailsGE(c) {
					continue
				}
				if infeasible(s.cons, c) {
					return true, false, nil // not an inserted key
				}
				panic(ForkOn{lin: &c})
			}
			return true, true, at(mkLin(sInt, d.c, d.ms))
		}
	}
	if s.decide(app(sBool, "ins", "", b.term, s.canon(k))) {
		// some completed iteration inserted it
		kap := app(sInt, "iter", "sk", b.term, k)
		if !s.addGE(leAdd(leTerm(n), 1, leTerm(kap), -1).addConst(-1)) || !s.assume(mkEq(k, subst(key, map[*Term]*Term{rec.n: kap}, map[*Term]*Term{})), true) {
			s.dead = true
		}
		return true, true, at(kap)
	}
	return true, false, nil
}

// commonFacts assumes at iteration kap what every back edge establishes.
func (e *Engine) commonFacts(s *State, rec *LoopRec, kap *Term) {
	if len(rec.backs) == 1 {
		if _, ok := e.instBack(s, rec, rec.backs[0], kap, nil); !ok {
			s.dead = true
		}
		return
	}
	m := map[*Term]*Term{rec.n: kap}
	memo := map[*Term]*Term{}
	for _, l := range rec.backs[0].lits {
		v, all := rec.backs[0].st.lits.get(l), true
		for _, b := range rec.backs[1:] {
			if x, ok := b.st.lits.find(l); !ok || x != v {
				all = false
			}
		}
		if all && !s.assume(subst(l, m, memo), v) {
			s.dead = true
		}
	}
}
