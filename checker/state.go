package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{}

type StructV struct {
	typ types.Type
	f   []Val
}
type PtrV struct {
	obj  *Obj // nil: nil pointer
	path []Sel
}
type SliceV struct {
	obj           *Obj // nil: nil slice
	path          []Sel
	off, len, cap *Term
}
type MapV struct{ obj *Obj } // obj nil: nil map
type IfaceV struct {
	dyn types.Type
	v   Val
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method value (opaque interface method)
	name  string
}
type TupleV []Val
type MapIterV struct {
	m    MapV
	term *Term
	len  *Term // number of keys when the range began
	os   *ObjState
	keys []*Term // the keys, when they are all known
	pos  *Obj    // how many of them were visited
}

var nilTerm = opq("nil", "")

// Obj is an abstract memory object.
type Obj struct {
	id    int
	term  *Term // identity
	kind  string
	typ   types.Type // content type (struct, array element type for slices, map type)
	fresh bool
	// how a symbolic object was reached: the cell it was loaded from
	parent  *Obj
	cls     string // class of the cell it was loaded from ("" for parameters)
	root    int    // parameter index + 1, 0 none
	bounded bool
	ref     bool // a map or the array of a slice
}

var objTab = map[*Term]*Obj{}

func getObj(term *Term, mk func() *Obj) *Obj {
	if o, ok := objTab[term]; ok {
		return o
	}
	o := mk()
	o.term = term
	o.id = len(objTab) + 1
	objTab[term] = o
	return o
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return o.term.show(4)
}

type Sel struct {
	field int    // >=0 for a field
	name  string // field name
	idx   *Term  // slice index, or map key term
}

func selKey(p []Sel) string {
	var b strings.Builder
	for _, s := range p {
		if s.idx != nil {
			fmt.Fprintf(&b, "[%d]", s.idx.id)
		} else {
			fmt.Fprintf(&b, ".%d", s.field)
		}
	}
	return b.String()
}

func pathStr(p []Sel) string {
	var b strings.Builder
	for _, s := range p {
		if s.idx != nil {
			b.WriteString("[" + s.idx.show(4) + "]")
		} else {
			b.WriteString("." + s.name)
		}
	}
	return b.String()
}

type Write struct {
	path []Sel
	val  Val
	del  bool
}

// Base describes what an object holds before its writes.
type Base struct {
	kind string // "zero", "sym", "copy", "compr", "sorted", "keys", "filter", "empty"
	term *Term  // sym: identity of the epoch
	// copy: content equals the snapshot src (slice: elements from off)
	src    *Obj
	srcSt  *ObjState
	srcSl  *SliceV
	rec    *LoopRec
	elems  []comprElem
	vkey   *Term
	vval   Val
	total  *Term
	stride int
	asc    bool
	desc   bool
	tail   *SliceV
	tailSt *ObjState
	less   *Term
	lessI  *Term
	lessJ  *Term
}

type comprElem struct {
	back int // index of the back edge
	val  Val
}

type ObjState struct {
	base   *Base
	writes []Write
}

// ---- state ----

type Event struct {
	kind string // read, write, mapget, mapset, mapdel, lock, call, loop, alloc, append
	obj  *Obj
	path []Sel
	cls  string
	key  Val
	val  Val
	mode string
	name string
	args []Val
	rets []Val
	rec  *LoopRec
	// objects reachable from the arguments of an opaque call
	reach  []*Obj
	before *ObjState // map contents before a write
	pos    token.Pos
	fn     *ssa.Function
}

type State struct {
	cons   []LinExpr
	nes    []LinExpr
	lits   *layers[*Term, bool]
	litOrd []*Term
	// the literals a path was split on; nil for a split on a linear constraint
	decided []*Term
	rep     map[*Term]*Term
	mem     *layers[*Obj, *ObjState]
	events  []*Event
	iters   []*Term
	loops   []*LoopRec
	stack   []*ssa.Function
	calls   []token.Pos
	dead    bool
	// facts assumed for every value of a variable
	schemas []*Schema
	// loops completed inside an iteration under consideration
	inner []*LoopRec
	// the maps shared with another state
	cow uint8
}

func newState() *State {
	return &State{lits: &layers[*Term, bool]{m: map[*Term]bool{}}, mem: &layers[*Obj, *ObjState]{m: map[*Obj]*ObjState{}}, rep: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{
		cons: s.cons[:len(s.cons):len(s.cons)], nes: s.nes[:len(s.nes):len(s.nes)],
		litOrd: s.litOrd[:len(s.litOrd):len(s.litOrd)],
		events: s.events[:len(s.events):len(s.events)], iters: s.iters[:len(s.iters):len(s.iters)],
		loops: s.loops[:len(s.loops):len(s.loops)], stack: s.stack[:len(s.stack):len(s.stack)],
		calls:   s.calls[:len(s.calls):len(s.calls)],
		schemas: s.schemas[:len(s.schemas):len(s.schemas)],
		inner:   s.inner[:len(s.inner):len(s.inner)],
		decided: s.decided[:len(s.decided):len(s.decided)],
	}
	n.lits, n.mem, n.rep = s.lits, s.mem, s.rep
	s.cow, n.cow = 7, 7
	return n
}

// the maps of a state are copied when they are first written after cloning.
func (s *State) setLitMap(t *Term, v bool) {
	if s.cow&1 != 0 {
		s.lits = s.lits.split()
		s.cow &^= 1
	}
	s.lits.m[t] = v
}

func (s *State) setMem(o *Obj, os *ObjState) {
	if s.cow&2 != 0 {
		s.mem = s.mem.split()
		s.cow &^= 2
	}
	s.mem.m[o] = os
}

func (s *State) setRep(a, b *Term) {
	if s.cow&4 != 0 {
		m := make(map[*Term]*Term, len(s.rep)+4)
		for k, v := range s.rep {
			m[k] = v
		}
		s.rep = m
		s.cow &^= 4
	}
	s.rep[a] = b
}

// ForkOn is thrown when an undecided condition must be split.
type ForkOn struct {
	b   *Term
	lin *LinExpr
}

// Undecided is thrown for constructs outside the analysis.
type Undecided struct {
	pos token.Pos
	msg string
}

// canon replaces atoms by their representatives known to be equal.
func (s *State) canon(t *Term) *Term {
	if len(s.rep) == 0 {
		return t
	}
	for i := 0; i < 8; i++ {
		n := subst(t, s.rep, map[*Term]*Term{})
		if n == t {
			return t
		}
		t = n
	}
	return t
}

func (s *State) entailsGE(e LinExpr) bool { // e >= 0
	if len(e.ms) == 0 {
		return e.c.Sign() >= 0
	}
	n := e.neg().addConst(-1)
	return infeasible(s.cons, n)
}

func (s *State) lift(t *Term) LinExpr {
	if t.op != "lin" || len(t.ms) == 0 {
		return leTerm(t)
	}
	e := leTerm(t)
	lo, hi := staticRange(t)
	mn, mx := t.sort.min(), t.sort.max()
	okLo := lo.Cmp(mn) >= 0 || s.entailsGE(leAddB(e, bigOne, leConst(new(big.Int).Neg(mn)), bigOne))
	okHi := hi.Cmp(mx) <= 0 || s.entailsGE(leAddB(e, big.NewInt(-1), leConst(mx), bigOne))
	if okLo && okHi {
		return e
	}
	// other numbers of wraps
	w := pow2(t.sort.w)
	kmin := floorDiv(new(big.Int).Sub(lo, mn), w)
	kmax := floorDiv(new(big.Int).Sub(hi, mn), w)
	d := new(big.Int).Sub(kmax, kmin)
	if d.IsInt64() && d.Int64() <= 3 {
		// E in k*2^w + [mn,mx]; find a boundary that is undecided
		for k := new(big.Int).Set(kmin); k.Cmp(kmax) < 0; k.Add(k, bigOne) {
			// E <= k*w + mx ?
			b := leAddB(e, big.NewInt(-1), leConst(new(big.Int).Add(mx, new(big.Int).Mul(k, w))), bigOne)
			if s.entailsGE(b) {
				return leAddB(e, bigOne, leConst(new(big.Int).Neg(new(big.Int).Mul(k, w))), bigOne)
			}
			if !infeasible(s.cons, b) {
				panic(ForkOn{lin: &b})
			}
		}
		return leAddB(e, bigOne, leConst(new(big.Int).Neg(new(big.Int).Mul(kmax, w))), bigOne)
	}
	return leTerm(app(t.sort, "wrap", "", t))
}

func (s *State) isZeroLE(e LinExpr) (bool, bool) { // decided?, value of e==0
	if len(e.ms) == 0 {
		return true, e.c.Sign() == 0
	}
	for _, n := range s.nes {
		if leEq(n, e) || leEq(n, e.neg()) {
			return true, false
		}
	}
	if s.entailsGE(e.addConst(-1)) || s.entailsGE(e.neg().addConst(-1)) {
		return true, false
	}
	if s.entailsGE(e) && s.entailsGE(e.neg()) {
		return true, true
	}
	return false, false
}

func leEq(a, b LinExpr) bool {
	if a.c.Cmp(b.c) != 0 || len(a.ms) != len(b.ms) {
		return false
	}
	for i := range a.ms {
		if a.ms[i].atom != b.ms[i].atom || a.ms[i].coef.Cmp(b.ms[i].coef) != 0 {
			return false
		}
	}
	return true
}

// tri is the three-valued truth of a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) tri(b *Term) int {
	switch b.op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -s.tri(b.args[0])
	case "band":
		r := 1
		for _, a := range b.args {
			switch s.tri(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case "bor":
		r := -1
		for _, a := range b.args {
			switch s.tri(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	if v, ok := s.lits.find(b); ok {
		if v {
			return 1
		}
		return -1
	}
	switch b.op {
	case "lt":
		x, y := s.lift(b.args[0]), s.lift(b.args[1])
		d := leAdd(y, 1, x, -1).addConst(-1) // y-x-1 >= 0
		if s.entailsGE(d) {
			return 1
		}
		if s.entailsGE(leAdd(x, 1, y, -1)) {
			return -1
		}
		// x <= y and x != y
		for _, n := range s.nes {
			e := leAdd(y, 1, x, -1)
			if (leEq(n, e) || leEq(n, e.neg())) && s.entailsGE(e) {
				return 1
			}
		}
		return 0
	case "eq":
		if b.args[0].sort.kind == 'i' {
			x, y := s.lift(b.args[0]), s.lift(b.args[1])
			if s.noHighBits(leAdd(x, 1, y, -1)) {
				return 1
			}
			if ok, v := s.isZeroLE(leAdd(x, 1, y, -1)); ok {
				if v {
					return 1
				}
				return -1
			}
			return 0
		}
		return s.sameOpq(b.args[0], b.args[1])
	}
	// congruence with known literals
	for _, l := range s.litOrd {
		if l.op == b.op && l.str == b.str && len(l.args) == len(b.args) {
			same := true
			for i := range l.args {
				if !s.sameArg(l.args[i], b.args[i]) {
					same = false
					break
				}
			}
			if same {
				if s.lits.get(l) {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

func (s *State) sameArg(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	if a.sort.kind == 'i' {
		if a.isConst() && b.isConst() {
			return false
		}
		return s.triSafe(mkEq(a, b)) == 1
	}
	if a.sort.kind == 'b' {
		x := s.triSafe(a)
		return x != 0 && x == s.triSafe(b)
	}
	return s.sameOpq(a, b) == 1
}

// triSafe is tri without forking.
func (s *State) triSafe(b *Term) (r int) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(ForkOn); ok {
				r = 0
				return
			}
			panic(x)
		}
	}()
	return s.tri(b)
}

func isFreshTerm(t *Term) bool {
	return t.op == "alloc" || t.op == "err"
}

func (s *State) sameOpq(a, b *Term) int {
	if a == b {
		return 1
	}
	if v, ok := s.lits.find(mkEq(a, b)); ok {
		if v {
			return 1
		}
		return -1
	}
	if a.op == "str" && b.op == "str" {
		return -1
	}
	if (isFreshTerm(a) && (b == nilTerm || isFreshTerm(b) || b.op == "sym")) || (isFreshTerm(b) && (a == nilTerm || a.op == "sym")) {
		return -1
	}
	if a == nilTerm || b == nilTerm {
		x := a
		if a == nilTerm {
			x = b
		}
		return s.tri(app(sBool, "isnil", "", x))
	}
	if a.op == b.op && a.str == b.str && len(a.args) == len(b.args) && len(a.args) > 0 {
		for i := range a.args {
			if !s.sameArg(a.args[i], b.args[i]) {
				return 0
			}
		}
		return 1
	}
	return 0
}

// decide returns the truth of b or throws a fork request.
func (s *State) decide(b *Term) bool {
	switch s.tri(b) {
	case 1:
		return true
	case -1:
		return false
	}
	for b.op == "not" || b.op == "band" || b.op == "bor" {
		if b.op == "not" {
			b = b.args[0]
			continue
		}
		for _, a := range b.args {
			if s.tri(a) == 0 {
				b = a
				break
			}
		}
	}
	panic(ForkOn{b: b})
}

func (s *State) addGE(e LinExpr) bool {
	if len(e.ms) == 0 {
		return e.c.Sign() >= 0
	}
	if infeasible(s.cons, e) {
		return false
	}
	for _, c := range s.cons {
		if leEq(c, e) {
			return true
		}
	}
	s.cons = append(s.cons, e)
	// combine with disequalities: e>=0 and e!=0
	for _, n := range s.nes {
		if leEq(n, e) || leEq(n, e.neg()) {
			s.cons = append(s.cons, e.addConst(-1))
			if infeasible(s.cons[:len(s.cons)-1], e.addConst(-1)) {
				return false
			}
		}
	}
	return true
}

// assume adds b==v; false if contradictory.
func (s *State) assume(b *Term, v bool) bool {
	switch b.op {
	case "true":
		return v
	case "false":
		return !v
	case "not":
		return s.assume(b.args[0], !v)
	case "band":
		if v {
			for _, a := range b.args {
				if !s.assume(a, true) {
					return false
				}
			}
			return true
		}
	case "bor":
		if !v {
			for _, a := range b.args {
				if !s.assume(a, false) {
					return false
				}
			}
			return true
		}
	}
	if old, ok := s.lits.find(b); ok {
		return old == v
	}
	if t := s.triSafe(b); t != 0 {
		if (t == 1) != v {
			return false
		}
		// keep as literal too (cheap)
		s.setLit(b, v)
		return true
	}
	s.setLit(b, v)
	switch b.op {
	case "fn":
		if !v && b.str == "m:Equal" && len(b.args) == 2 && b.args[0].sort == b.args[1].sort {
			// equal to itself (checked of entries by the clients of pkg/tree)
			return s.assume(mkEq(b.args[0], b.args[1]), false)
		}
	case "lt":
		x, y, ok := s.lift2(b.args[0], b.args[1])
		if !ok {
			return true
		}
		if v {
			return s.addGE(leAdd(y, 1, x, -1).addConst(-1))
		}
		return s.addGE(leAdd(x, 1, y, -1))
	case "eq":
		a0, a1 := b.args[0], b.args[1]
		if a0.sort.kind == 'i' {
			x, y, ok := s.lift2(a0, a1)
			if !ok {
				return true
			}
			d := leAdd(x, 1, y, -1)
			if v {
				if !s.addGE(d) || !s.addGE(d.neg()) {
					return false
				}
				s.mergeRep(a0, a1)
				return true
			}
			if s.entailsGE(d) {
				if !s.addGE(d.addConst(-1)) {
					return false
				}
			} else if s.entailsGE(d.neg()) {
				if !s.addGE(d.neg().addConst(-1)) {
					return false
				}
			}
			s.nes = append(s.nes, d)
			return true
		}
		if v && a0.sort.kind == 'o' && a0 != nilTerm && a1 != nilTerm {
			s.mergeRep(a0, a1)
		}
	}
	return true
}

func (s *State) mergeRep(a, b *Term) {
	// map the younger atom to the older term
	if a.op == "lin" && b.op == "lin" {
		return
	}
	if a.op == "lin" || (b.op != "lin" && b.id > a.id) {
		a, b = b, a
	}
	// a is an atom now; replace it by b unless b mentions a
	if mentions(b, func(t *Term) bool { return t == a }) {
		return
	}
	if a.op == "iter" {
		return
	}
	s.setRep(a, b)
}

func (s *State) setLit(b *Term, v bool) {
	if _, ok := s.lits.find(b); !ok {
		s.litOrd = append(s.litOrd, b)
	}
	s.setLitMap(b, v)
}

func (s *State) lift2(a, b *Term) (x, y LinExpr, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ForkOn); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return s.lift(a), s.lift(b), true
}

// proves reports that b holds in every refinement of the state.
func (s *State) proves(b *Term) bool { return s.provesD(b, 6) }

func (s *State) provesD(b *Term, depth int) (res bool) {
	if depth == 0 {
		return false
	}
	var fk *ForkOn
	func() {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(ForkOn); ok {
					fk = &f
					return
				}
				panic(x)
			}
		}()
		res = s.tri(b) == 1
	}()
	if fk == nil {
		if !res && b.op == "bor" {
			// case split on the disjuncts
			for i, a := range b.args {
				t := s.clone()
				if !t.assume(a, false) {
					return true
				}
				rest := append(append([]*Term{}, b.args[:i]...), b.args[i+1:]...)
				if len(rest) == 0 {
					return false
				}
				return t.provesD(mkOr(rest...), depth-1)
			}
		}
		if !res && b.op == "band" {
			for _, a := range b.args {
				if !s.provesD(a, depth-1) {
					return false
				}
			}
			return true
		}
		return res
	}
	a, c := s.split(*fk)
	return (a == nil || a.provesD(b, depth-1)) && (c == nil || c.provesD(b, depth-1))
}

func mkOr(ts ...*Term) *Term {
	if len(ts) == 0 {
		return tFalse
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return app(sBool, "bor", "", ts...)
}

func mkAnd(ts ...*Term) *Term {
	if len(ts) == 0 {
		return tTrue
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return app(sBool, "band", "", ts...)
}

// split returns the refinements of the state for a fork request (nil: infeasible).
func (s *State) split(f ForkOn) (*State, *State) {
	a, b := s.clone(), s.clone()
	if f.lin != nil {
		if !a.addGE(*f.lin) {
			a = nil
		}
		if !b.addGE(f.lin.neg().addConst(-1)) {
			b = nil
		}
		a.note(nil)
		b.note(nil)
		return a, b
	}
	n := len(s.litOrd)
	if !a.assume(f.b, true) {
		a = nil
	}
	if !b.assume(f.b, false) {
		b = nil
	}
	a.noteFrom(n)
	b.noteFrom(n)
	return a, b
}

// noHighBits: d is x with its low k bits cleared, and x < 1<<k.
func (s *State) noHighBits(d LinExpr) bool {
	if len(d.ms) != 1 || d.c.Sign() != 0 || d.ms[0].atom.op != "and" {
		return false
	}
	a := d.ms[0].atom
	if a.sort.signed || len(a.args) != 2 || !a.args[0].isConst() {
		return false
	}
	low := new(big.Int).Sub(a.sort.max(), a.args[0].c)
	if low.Sign() < 0 || new(big.Int).And(low, new(big.Int).Add(low, bigOne)).Sign() != 0 {
		return false
	}
	x, ok := s.liftSafe(a.args[1])
	return ok && s.entailsGE(leAddB(x, big.NewInt(-1), leConst(low), bigOne))
}

func (s *State) note(l *Term) {
	if s != nil {
		s.decided = append(s.decided, l)
	}
}

func (s *State) noteFrom(n int) {
	if s != nil {
		s.decided = append(s.decided, s.litOrd[n:]...)
	}
}

// ---- memory ----

func (s *State) obj(o *Obj) *ObjState {
	if st, ok := s.mem.find(o); ok {
		return st
	}
	return &ObjState{base: defaultBase(o)}
}

func defaultBase(o *Obj) *Base {
	if o.fresh {
		return &Base{kind: "zero"}
	}
	return &Base{kind: "sym", term: o.term}
}

func (s *State) log(e *Event) {
	if n := len(s.stack); n > 0 {
		e.fn = s.stack[n-1]
	}
	s.events = append(s.events, e)
}

func (s *State) write(o *Obj, path []Sel, v Val, del bool) {
	if av, ok := v.(StructV); ok && !del && isArray(av.typ) {
		for i, x := range av.f {
			s.write(o, append(append([]Sel(nil), path...), Sel{field: -1, idx: mkInt(sInt, int64(i))}), x, false)
		}
		return
	}
	st := s.obj(o)
	n := &ObjState{base: st.base}
	k := selKey(path)
	// drop identical earlier path (kept order of others)
	for _, w := range st.writes {
		if selKey(w.path) == k {
			continue
		}
		n.writes = append(n.writes, w)
	}
	n.writes = append(n.writes, Write{append([]Sel(nil), path...), v, del})
	s.setMem(o, n)
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// relate compares two paths: 0 disjoint, 1 same, 2 w prefix of p, 3 p proper prefix of w.
// Undecided index equality throws a fork.
func (s *State) relate(w, p []Sel) int {
	n := len(w)
	if len(p) < n {
		n = len(p)
	}
	// cheap field disjointness first
	for i := 0; i < n; i++ {
		if w[i].idx == nil && p[i].idx == nil && w[i].field != p[i].field {
			return 0
		}
	}
	for i := 0; i < n; i++ {
		if w[i].idx != nil && p[i].idx != nil && w[i].idx != p[i].idx {
			if w[i].idx.sort != p[i].idx.sort {
				continue
			}
			if !s.decide(mkEq(w[i].idx, p[i].idx)) {
				return 0
			}
		}
	}
	switch {
	case len(w) == len(p):
		return 1
	case len(w) < len(p):
		return 2
	}
	return 3
}

func (e *Engine) read(s *State, o *Obj, path []Sel, t types.Type) Val {
	return e.readState(s, o, s.obj(o), path, t)
}

func (e *Engine) readState(s *State, o *Obj, st *ObjState, path []Sel, t types.Type) Val {
	for i := len(st.writes) - 1; i >= 0; i-- {
		w := st.writes[i]
		switch s.relate(w.path, path) {
		case 1:
			return w.val
		case 2:
			return e.project(s, w.val, path[len(w.path):])
		case 3:
			// partial write below: assemble a struct
			if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 256 && w.path[len(path)].idx != nil {
				av := StructV{typ: t}
				for i := int64(0); i < at.Len(); i++ {
					sub := append(append([]Sel(nil), path...), Sel{field: -1, idx: mkInt(sInt, i)})
					av.f = append(av.f, e.readState(s, o, st, sub, at.Elem()))
				}
				return av
			}
			stt, ok := t.Underlying().(*types.Struct)
			if !ok {
				panic(Undecided{msg: "read of a partially written " + t.String()})
			}
			sv := StructV{typ: t}
			for f := 0; f < stt.NumFields(); f++ {
				sub := append(append([]Sel(nil), path...), Sel{field: f, name: stt.Field(f).Name()})
				sv.f = append(sv.f, e.readState(s, o, st, sub, stt.Field(f).Type()))
			}
			return sv
		}
	}
	return e.readBase(s, o, st.base, path, t)
}

func (e *Engine) project(s *State, v Val, path []Sel) Val {
	for _, p := range path {
		switch x := v.(type) {
		case StructV:
			if p.idx != nil {
				if !p.idx.isConst() || !p.idx.c.IsInt64() || p.idx.c.Int64() >= int64(len(x.f)) {
					panic(Undecided{msg: "index into an array value"})
				}
				v = x.f[p.idx.c.Int64()]
				continue
			}
			v = x.f[p.field]
		default:
			panic(Undecided{msg: fmt.Sprintf("projection into %T", v)})
		}
	}
	return v
}

func (e *Engine) readBase(s *State, o *Obj, b *Base, path []Sel, t types.Type) Val {
	if len(path) == 0 && b.kind != "zero" && b.kind != "sym" && (b.kind != "copy" || b.srcSl != nil) {
		if a, ok := t.Underlying().(*types.Array); ok && types.Identical(a.Elem(), types.Typ[types.Uint8]) {
			sl := SliceV{obj: o, off: mkInt(sInt, 0), len: mkInt(sInt, a.Len()), cap: mkInt(sInt, a.Len())}
			return fullBytes(s, e.bytesTermState(s, sl, &ObjState{base: b}), a.Len())
		}
		panic(Undecided{msg: "whole read of an indexed object"})
	}
	switch b.kind {
	case "zero":
		return e.zero(t)
	case "sym":
		if len(path) == 0 && b.term.op == "befill" {
			return b.term
		}
		return e.symCell(s, o, b.term, path, t)
	case "copy":
		// path[0] is an index relative to the copy
		if b.src == nil {
			return e.zero(t)
		}
		if b.srcSl != nil {
			i := mkAdd(path[0].idx, b.srcSl.off)
			sub := append(append([]Sel(nil), b.srcSl.path...), Sel{field: -1, idx: i})
			sub = append(sub, path[1:]...)
			return e.readState(s, b.src, b.srcSt, sub, t)
		}
		return e.readState(s, b.src, b.srcSt, path, t)
	case "concat":
		var sl *SliceV
		var os *ObjState
		i := path[0].idx
		if s.decide(mkLt(i, b.srcSl.len)) {
			sl, os = b.srcSl, b.srcSt
		} else {
			sl, os = b.tail, b.tailSt
			i = mkSub(i, b.srcSl.len)
		}
		if sl.obj == nil {
			s.dead = true
			return e.zero(t)
		}
		sub := append(append([]Sel(nil), sl.path...), Sel{field: -1, idx: mkAdd(i, sl.off)})
		sub = append(sub, path[1:]...)
		return e.readState(s, sl.obj, os, sub, t)
	case "fill":
		return e.fillElem(s, o, b, path, t)
	case "compr":
		v := e.comprElem(s, o, b, path[0].idx)
		return e.project(s, v, path[1:])
	case "sorted", "perm":
		// element of a permutation of src
		pt := b.term
		if pt == nil {
			pt = o.term
		}
		regBase(pt, b)
		k := app(sInt, "perm", "", pt, s.canon(path[0].idx))
		s.addGE(leTerm(k))
		if b.srcSl.len != nil {
			s.addGE(leAdd(leTerm(b.srcSl.len), 1, leTerm(k), -1).addConst(-1))
		}
		i := mkAdd(k, b.srcSl.off)
		sub := append(append([]Sel(nil), b.srcSl.path...), Sel{field: -1, idx: i})
		sub = append(sub, path[1:]...)
		return e.readState(s, b.src, b.srcSt, sub, t)
	case "keys":
		// an element is some key of the map
		kt := app(sInt, "keyat", "", o.term, path[0].idx)
		kk := e.symVal(s, app(sOpq, "mapkey", "", o.term, kt), t, nil, "")
		if kv, ok := kk.(*Term); ok {
			if !s.assume(e.hasTerm(s, b.src, b.srcSt, kv), true) {
				s.dead = true
			}
		}
		return e.project(s, kk, path[1:])
	}
	panic(Undecided{msg: "read of base " + b.kind})
}

func cellTerm(sort Sort, base *Term, path []Sel) *Term {
	args := []*Term{base}
	var b strings.Builder
	for i, p := range path {
		if i > 0 {
			b.WriteByte('.')
		}
		if p.idx != nil {
			b.WriteByte('#')
			args = append(args, p.idx)
		} else {
			b.WriteString(p.name)
		}
	}
	return app(sort, "cell", b.String(), args...)
}

func (e *Engine) symCell(s *State, o *Obj, base *Term, path []Sel, t types.Type) Val {
	np := make([]Sel, len(path))
	copy(np, path)
	for i := range np {
		if np[i].idx != nil {
			np[i].idx = s.canon(np[i].idx)
		}
	}
	cls := e.classOf(o, path)
	return e.symAt(s, base, np, t, o, cls)
}

func (e *Engine) symAt(s *State, base *Term, path []Sel, t types.Type, parent *Obj, cls string) Val {
	if st, ok := t.Underlying().(*types.Struct); ok && !e.isOpaqueStruct(t) {
		sv := StructV{typ: t}
		for f := 0; f < st.NumFields(); f++ {
			sub := append(append([]Sel(nil), path...), Sel{field: f, name: st.Field(f).Name()})
			sv.f = append(sv.f, e.symAt(s, base, sub, st.Field(f).Type(), parent, cls))
		}
		return sv
	}
	return e.symVal(s, cellTerm(e.sortOf(t), base, path), t, parent, cls)
}

// symVal makes the symbolic value of a type identified by a term.
func (e *Engine) symVal(s *State, ct *Term, t types.Type, parent *Obj, cls string) Val {
	if h := e.cfg.Concretize; h != nil {
		if v := h(e, s, ct, t); v != nil {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		so := e.sortOf(t)
		if ct.sort != so {
			ct = app(so, "as", "", ct)
		}
		return ct
	case *types.Pointer:
		et := u.Elem()
		return PtrV{obj: getObj(opq("deref", "", ct), func() *Obj {
			return &Obj{kind: "sym", typ: et, parent: parent, cls: cls}
		})}
	case *types.Slice:
		o := getObj(opq("deref", "", ct), func() *Obj {
			return &Obj{kind: "sym", typ: u.Elem(), parent: parent, cls: cls}
		})
		ln := app(sInt, "len", "", ct)
		return SliceV{obj: o, off: mkInt(sInt, 0), len: ln, cap: app(sInt, "cap", "", ct)}
	case *types.Map:
		return MapV{obj: getObj(opq("deref", "", ct), func() *Obj {
			return &Obj{kind: "sym", typ: t, parent: parent, cls: cls}
		})}
	case *types.Struct:
		if e.isOpaqueStruct(t) {
			return ct
		}
		sv := StructV{typ: t}
		for f := 0; f < u.NumFields(); f++ {
			sv.f = append(sv.f, e.symVal(s, app(e.sortOf(u.Field(f).Type()), "cell", u.Field(f).Name(), ct), u.Field(f).Type(), parent, cls))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.symVal(s, app(e.sortOf(u.At(i).Type()), "proj", fmt.Sprint(i), ct), u.At(i).Type(), parent, cls))
		}
		return tv
	}
	return ct
}

func (e *Engine) isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && p.Path() != modPath && !strings.HasPrefix(p.Path(), modPath+"/")
}

func (e *Engine) sortOf(t types.Type) Sort {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "ClientKey" {
		return sKey
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return sBool
		case types.Int, types.Int64, types.UntypedInt:
			return Sort{'i', 64, true}
		case types.Int8:
			return Sort{'i', 8, true}
		case types.Int16:
			return Sort{'i', 16, true}
		case types.Int32, types.UntypedRune:
			return Sort{'i', 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return Sort{'i', 64, false}
		case types.Uint8:
			return Sort{'i', 8, false}
		case types.Uint16:
			return Sort{'i', 16, false}
		case types.Uint32:
			return Sort{'i', 32, false}
		}
	}
	return sOpq
}

func (e *Engine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		so := e.sortOf(t)
		switch so.kind {
		case 'i':
			return mkInt(so, 0)
		case 'b':
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return opq("str", "")
		}
		if u.Kind() == types.UntypedNil {
			return nilTerm
		}
		return opq("zero", t.String())
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		z := mkInt(sInt, 0)
		return SliceV{off: z, len: z, cap: z}
	case *types.Map:
		return MapV{}
	case *types.Struct:
		if e.isOpaqueStruct(t) {
			return opq("zero", t.String())
		}
		sv := StructV{typ: t}
		for f := 0; f < u.NumFields(); f++ {
			sv.f = append(sv.f, e.zero(u.Field(f).Type()))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zero(u.At(i).Type()))
		}
		return tv
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return opq("zero", t.String())
		}
		return nilTerm
	case *types.Signature:
		return nilTerm
	case *types.Array:
		return opq("zero", t.String())
	}
	return opq("zero", t.String())
}

// classOf names the memory cell class: Type.field, with [] for contents.
func (e *Engine) classOf(o *Obj, path []Sel) string {
	base := ""
	if o.typ != nil {
		base = typeName(o.typ)
	}
	if len(path) > 0 && path[0].idx != nil {
		// contents of a slice or map
		c := o.cls
		if c == "" {
			c = base
		}
		r := c + "[]"
		for _, p := range path[1:] {
			if p.idx == nil {
				r += "." + p.name
			}
		}
		return r
	}
	for _, p := range path {
		if p.idx == nil {
			base += "." + p.name
		} else {
			base += "[]"
		}
	}
	return base
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin().Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
