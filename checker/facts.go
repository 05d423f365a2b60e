package main

import (
	"fmt"
	"go/token"
	"sort"
)

// baseTab finds the description of an enumeration by its identity.
var baseTab = map[*Term]*Base{}

func regBase(t *Term, b *Base) {
	if b.rec != nil && b.kind == "compr" {
		m := recBases[b.rec]
		if m == nil {
			m = map[*Term]*Base{}
			recBases[b.rec] = m
		}
		m[t] = b
	}
	baseTab[t] = b
}

// recBases are the comprehensions a loop builds (the same one anew for every path that
// reaches the loop).
var recBases = map[*LoopRec]map[*Term]*Base{}

// strictlyAscending: a comprehension whose elements grow with the iteration.
func strictlyAscending(e *Engine, s *State, b *Base) bool {
	if b.kind != "compr" || len(b.elems) == 0 || b.rec == nil || b.srcSl == nil || b.srcSl.len == nil || !b.srcSl.len.isConstV(0) {
		return false
	}
	seen := map[int]bool{}
	var first *LinExpr
	for _, x := range b.elems {
		be := b.rec.backsAt(x.back)
		t, ok := x.val.(*Term)
		if !ok || be == nil || seen[x.back] || t.sort.kind != 'i' {
			return false
		}
		seen[x.back] = true
		le, ok := be.st.liftSafe(t)
		if !ok {
			return false
		}
		if first == nil {
			first = &le
		} else if !leEq(*first, le) {
			return false
		}
		pos := false
		for _, m := range le.ms {
			if m.atom == b.rec.n {
				pos = m.coef.Sign() > 0
			} else if mentions(m.atom, func(t *Term) bool { return t == b.rec.n }) {
				return false
			}
		}
		if !pos {
			return false
		}
	}
	return true
}

func (s *State) liftSafe(t *Term) (le LinExpr, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(ForkOn); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return s.lift(t), true
}

// atoms collects the atoms of a state and some terms.
func (s *State) atoms(extra ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.ms {
			walk(m.atom)
		}
		out = append(out, t)
	}
	for _, c := range s.cons {
		for _, m := range c.ms {
			walk(m.atom)
		}
	}
	for _, l := range s.litOrd {
		walk(l)
	}
	for _, t := range extra {
		if t != nil {
			walk(t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// saturate adds the order and distinctness facts of enumerations for the atoms in play:
// iterations that produced element i come before those that produced element j>i,
// a permutation is injective, a range over a map yields each key once, a sorted slice
// ascends. It reports false if the state is contradictory.
func (e *Engine) saturate(s *State, extra ...*Term) bool {
	for round := 0; round < 4; round++ {
		n := len(s.cons) + len(s.nes) + len(s.litOrd)
		atoms := s.atoms(extra...)
		if !e.instSchemas(s, atoms) {
			return false
		}
		groups := map[[2]*Term][]*Term{}
		var order [][2]*Term
		for _, a := range atoms {
			var g [2]*Term
			switch {
			case a.op == "last" || a.op == "mask":
				d := leAdd(leTerm(a), 1, s.lift(a.args[0]), -1)
				if a.op == "mask" {
					d = d.neg()
				}
				if !s.entailsGE(d) && !s.addGE(d) {
					return false
				}
				continue
			case a.op == "iter" && a.str == "at" && len(a.args) == 2:
				g = [2]*Term{tTrue, a.args[0]}
			case a.op == "perm":
				g = [2]*Term{tFalse, a.args[0]}
			case a.op == "rangekey":
				g = [2]*Term{a.args[0], a.args[1]}
			default:
				continue
			}
			if groups[g] == nil {
				order = append(order, g)
			}
			groups[g] = append(groups[g], a)
		}
		for _, g := range order {
			as := groups[g]
			for i := range as {
				for j := i + 1; j < len(as); j++ {
					if !e.pairFacts(s, g, as[i], as[j]) {
						return false
					}
				}
			}
		}
		if !e.congruence(s, atoms) || !e.idFacts(s, atoms) {
			return false
		}
		if len(s.cons)+len(s.nes)+len(s.litOrd) == n {
			break
		}
	}
	return true
}

// sameTerm: two terms are equal by the facts of the state.
func (s *State) sameTerm(a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort || depth == 0 {
		return false
	}
	switch a.sort.kind {
	case 'i':
		if s.equalInts(a, b) {
			return true
		}
	case 'o':
		if v, ok := s.lits.find(mkEq(a, b)); ok {
			return v
		}
	case 'b':
		return false
	}
	if s.canon(a) == s.canon(b) {
		return true
	}
	if a.op != b.op || a.str != b.str || len(a.args) != len(b.args) || len(a.args) == 0 || a.op == "iter" && a.str != "at" {
		return false
	}
	for i := range a.args {
		if !s.sameTerm(a.args[i], b.args[i], depth-1) {
			return false
		}
	}
	return true
}

// congruence: equal arguments give equal results.
func (e *Engine) congruence(s *State, atoms []*Term) bool {
	type gk struct {
		op, str string
		n       int
		so      Sort
		a0      *Term
	}
	groups := map[gk][]*Term{}
	var order []gk
	for _, a := range atoms {
		switch a.op {
		case "lt", "eq", "not", "band", "bor", "lin", "ins", "more", "err", "alloc", "call", "sym", "chose":
			continue
		case "iter":
			continue
		}
		if len(a.args) == 0 {
			continue
		}
		g := gk{a.op, a.str, len(a.args), a.sort, nil}
		if a.args[0].sort.kind == 'o' && len(a.args) > 1 && len(a.args[0].args) == 0 {
			g.a0 = a.args[0]
		}
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], a)
	}
	for _, g := range order {
		as := groups[g]
		if len(as) > 24 {
			continue
		}
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				a, b := as[i], as[j]
				if a.sort.kind == 'b' {
					va, oka := s.lits.find(a)
					vb, okb := s.lits.find(b)
					if !oka && !okb || oka && okb && va == vb {
						continue
					}
					if !s.sameArgs(a, b) {
						continue
					}
					if oka && okb {
						return false
					}
					if oka && !s.assume(b, va) || okb && !s.assume(a, vb) {
						return false
					}
					continue
				}
				if a.sort.kind == 'o' && s.canon(a) == s.canon(b) || !s.sameArgs(a, b) || a.sort.kind == 'i' && s.equalInts(a, b) {
					continue
				}
				if !s.assume(mkEq(a, b), true) {
					return false
				}
			}
		}
	}
	return true
}

// equalInts: the constraints make a and b equal.
func (s *State) equalInts(a, b *Term) (ok bool) {
	if v, known := s.lits.find(mkEq(a, b)); known {
		return v
	}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(ForkOn); !is {
				panic(x)
			}
			ok = false
		}
	}()
	x, y, safe := s.lift2(a, b)
	if !safe {
		return false
	}
	d := leAdd(x, 1, y, -1)
	return len(d.ms) == 0 && d.c.Sign() == 0 || s.noHighBits(d) || len(d.ms) > 0 && s.entailsGE(d) && s.entailsGE(d.neg())
}

func (s *State) sameArgs(a, b *Term) bool {
	for i := range a.args {
		if !s.sameTerm(a.args[i], b.args[i], 4) {
			return false
		}
	}
	return true
}

// Schema is a clause assumed for every value of a variable.
type Schema struct {
	v    *Term
	lits []*Term // disjunction
	// what follows if no literal of the disjunction holds (nothing: a contradiction)
	facts []*Term
	pats  []*Term
}

// addSchemas records what a predicate, evaluated on a fresh variable, says.
func (e *Engine) addSchemas(s *State, f FuncV, pos token.Pos) {
	e.addSchemasWith(s, f, nil, pos)
}

// addSchemasWith assumes f(pre..., v) for every v.
func (e *Engine) addSchemasWith(s *State, f FuncV, pre []Val, pos token.Pos) {
	e.uid++
	so := e.sortOf(f.fn.Params[len(pre)].Type())
	v := app(so, "sym", fmt.Sprintf("all#%d", e.uid))
	base := s.clone()
	rs := e.call(f.fn, append(append([]Val(nil), pre...), v), f.binds, base, 2, pos, fmt.Sprintf("/all%d", e.uid))
	dec0 := len(base.decided)
	val := map[*Term]int{}
	for _, r := range rs {
		for l, v := range r.st.lits.all() {
			if v {
				val[l] |= 1
			} else {
				val[l] |= 2
			}
		}
	}
	signed := func(st *State, l *Term) *Term {
		if st.lits.get(l) {
			return l
		}
		return mkNot(l)
	}
	seen := map[string]bool{}
	add := func(sc *Schema) {
		if len(sc.lits) == 0 && len(sc.facts) == 0 {
			return
		}
		id := ""
		for _, l := range sc.lits {
			id += fmt.Sprintf("%d,", l.id)
		}
		for _, l := range sc.facts {
			id += fmt.Sprintf("=>%d,", l.id)
		}
		if seen[id] {
			return
		}
		seen[id] = true
		pats := map[*Term]bool{}
		for _, l := range append(append([]*Term(nil), sc.lits...), sc.facts...) {
			collectPats(l, v, pats)
		}
		for p := range pats {
			sc.pats = append(sc.pats, p)
		}
		sort.Slice(sc.pats, func(i, j int) bool { return sc.pats[i].id < sc.pats[j].id })
		if len(sc.pats) > 0 {
			s.schemas = append(s.schemas, sc)
		}
	}
	for _, r := range rs {
		decided, lin := map[*Term]bool{}, false
		for _, l := range r.st.decided[dec0:] {
			decided[l] = true
			lin = lin || l == nil
		}
		if lin {
			continue // the condition of the path has no literal
		}
		sc := &Schema{v: v}
		var facts []*Term
		flush := func() {
			if len(facts) > 0 {
				add(&Schema{v: v, lits: append([]*Term(nil), sc.lits...), facts: facts})
				facts = nil
			}
		}
		for _, l := range r.st.litOrd {
			if _, old := s.lits.find(l); old {
				continue
			}
			if !decided[l] && val[l] != 3 {
				facts = append(facts, signed(r.st, l))
				continue
			}
			flush()
			sc.lits = append(sc.lits, mkNot(signed(r.st, l)))
		}
		flush()
		if !r.panic {
			t, ok := r.ret.(*Term)
			if !ok {
				continue
			}
			if t == tTrue {
				continue
			}
			if t != tFalse {
				sc.lits = append(sc.lits, t)
			}
		}
		add(sc)
	}
}

type schemaInst struct {
	sc *Schema
	k  *Term
}

// instSchemas instantiates the schemas for the cells in play.
func (e *Engine) instSchemas(s *State, atoms []*Term) bool {
	if len(s.schemas) == 0 {
		return true
	}
	done := map[schemaInst]bool{}
	for _, sc := range s.schemas {
		for _, p := range sc.pats {
			for _, a := range atoms {
				if a == p || a.op != p.op || a.str != p.str || !keyed(a) {
					continue
				}
				k := e.solvePat(s, p, a, sc.v)
				if k == nil || k.sort != sc.v.sort || mentions(k, func(t *Term) bool { return t == sc.v }) {
					continue
				}
				key := schemaInst{sc, k}
				if done[key] {
					continue
				}
				done[key] = true
				if !e.instSchema(s, sc, k, atoms) {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) instSchema(s *State, sc *Schema, k *Term, atoms []*Term) bool {
	m, memo := map[*Term]*Term{sc.v: k}, map[*Term]*Term{}
	var open *Term
	var known map[string][]*Term
	eqs := map[*Term]*Term{}
	for _, l := range sc.lits {
		g := subst(l, m, memo)
		v := s.triSafe(g)
		if v == 0 {
			if known == nil {
				known = map[string][]*Term{}
				for _, a := range atoms {
					if len(a.args) > 0 && a.op != "eq" && a.op != "lt" && a.op != "not" {
						known[a.op+":"+a.str] = append(known[a.op+":"+a.str], a)
					}
				}
			}
			if h := s.inTermsOf(g, known, eqs); h != g {
				if w := s.triSafe(h); w != 0 {
					v = w
				} else {
					g = h
				}
			}
		}
		switch v {
		case 1:
			return true
		case -1:
			continue
		}
		if open != nil {
			return true // two undecided literals
		}
		open = g
	}
	if len(sc.facts) > 0 {
		if open != nil {
			return true
		}
		for _, f := range sc.facts {
			g := subst(f, m, memo)
			if s.triSafe(g) == 0 && !s.assume(g, true) {
				return false
			}
		}
		return true
	}
	if open == nil {
		return false
	}
	return s.assume(open, true)
}

// inTermsOf rewrites t to terms of the state with equal arguments.
func (s *State) inTermsOf(t *Term, known map[string][]*Term, eqs map[*Term]*Term) *Term {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || eqs[t] != nil {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.ms {
			walk(m.atom)
		}
		if len(t.args) == 0 || t.op == "eq" || t.op == "lt" || t.op == "not" || t.op == "band" || t.op == "bor" || t.op == "iter" && t.str != "at" {
			return
		}
		u := subst(t, eqs, map[*Term]*Term{})
		for _, a := range known[u.op+":"+u.str] {
			if a == u {
				if u != t {
					eqs[t] = u
				}
				return
			}
		}
		for _, a := range known[u.op+":"+u.str] {
			if a.sort == u.sort && len(a.args) == len(u.args) && s.sameArgs(a, u) {
				eqs[t] = a
				return
			}
		}
	}
	walk(t)
	if len(eqs) == 0 {
		return t
	}
	return subst(t, eqs, map[*Term]*Term{})
}

func lastArg(t *Term) *Term { return t.args[len(t.args)-1] }

func (e *Engine) pairFacts(s *State, g [2]*Term, a, b *Term) bool {
	ia, ib := lastArg(a), lastArg(b)
	eq := s.triSafe(mkEq(ia, ib))
	lt, gt := 0, 0
	if eq != 1 {
		lt, gt = s.triSafe(mkLt(ia, ib)), s.triSafe(mkLt(ib, ia))
		if eq == 0 && (lt == 1 || gt == 1) {
			eq = -1
		}
	}
	if gt == 1 {
		a, b, ia, ib, lt = b, a, ib, ia, 1
	}
	ab := leAdd(leTerm(b), 1, leTerm(a), -1) // b - a
	switch {
	case g[0] == tTrue: // iter:at
		if eq == 1 {
			return s.addGE(ab) && s.addGE(ab.neg())
		}
		base := baseTab[g[1]]
		if base == nil {
			return true
		}
		if lt != 1 {
			return true
		}
		if base.stride <= 1 && base.stride != 0 {
			if onePerBack(base) {
				ab = ab.addConst(-1)
			}
		}
		return s.addGE(ab)
	case g[0] == tFalse: // perm
		if eq == 1 {
			return s.addGE(ab) && s.addGE(ab.neg())
		}
		if eq == -1 {
			s.nes = append(s.nes, leAdd(leTerm(a), 1, leTerm(b), -1))
		}
		base := baseTab[g[1]]
		if base != nil && lt == 1 && (base.asc || base.desc) {
			et := base.src.typ
			s2 := s.clone()
			va, vb := e.readQuiet(s2, base.src, base.srcSt, a, et), e.readQuiet(s2, base.src, base.srcSt, b, et)
			if va != nil && vb != nil {
				if base.desc {
					va, vb = vb, va
				}
				if !s.assume(mkLt(vb, va), false) {
					return false
				}
				// distinct values of distinct positions are strictly ordered
				if s.triSafe(mkEq(va, vb)) == -1 && !s.assume(mkLt(va, vb), true) {
					return false
				}
			}
		}
	default: // rangekey
		if eq == 1 {
			return s.assume(mkEq(a, b), true)
		}
		if eq == -1 {
			return s.assume(mkEq(a, b), false)
		}
	}
	return true
}

func onePerBack(b *Base) bool {
	seen := map[int]bool{}
	for _, x := range b.elems {
		if seen[x.back] {
			return false
		}
		seen[x.back] = true
	}
	return true
}

// provesX proves b using the facts of enumerations.
func (e *Engine) provesX(s *State, b *Term) bool {
	if s.proves(b) {
		return true
	}
	t := s.clone()
	if !t.assume(mkNot(b), true) {
		return true
	}
	if !e.saturate(t, b) {
		return true
	}
	return t.proves(b) || !feasible(t)
}

// feasible is false if the linear facts contradict each other.
func feasible(s *State) bool {
	if s.dead {
		return false
	}
	for _, c := range s.cons {
		if infeasible(s.cons, c) {
			return false
		}
	}
	for _, l := range s.litOrd {
		if l.op == "eq" && !s.lits.get(l) && l.args[0].sort.kind == 'o' && s.canon(l.args[0]) == s.canon(l.args[1]) {
			return false
		}
	}
	for _, n := range s.nes {
		if s.entailsGE(n) && s.entailsGE(n.neg()) {
			return false
		}
	}
	return true
}
