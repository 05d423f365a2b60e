package main

import (
	"math/big"
	"os"
	"regexp"
	"sort"
)

// provesL proves b using, besides the facts of provesX, what completed iterations of the
// loops on the path established: for a membership (or any other literal) in play that an
// earlier iteration looked at, one of the loop's back edges must have been taken then.
func (e *Engine) provesL(s *State, b *Term) bool {
	if bad, _, _ := bitsCheck(s, b); bad {
		return true
	}
	if e.provesX(s, b) {
		return true
	}
	t := s.clone()
	if !t.assume(mkNot(b), true) {
		return true
	}
	if e.bitsRefute(t, b, 2) {
		return true
	}
	if e.refutes(t, 2, b) {
		return true
	}
	if debug {
		debugf("--- not proved: [%s] %s", curRule, shortSites(b.show(9)))
		for _, l := range t.litOrd {
			debugf("      %v %s", t.lits.get(l), shortSites(l.show(9)))
		}
		for _, c := range t.cons {
			debugf("      %s >= 0", shortSites(c.String()))
		}
	}
	return false
}

var debugDeep = os.Getenv("CHECKER_DEEP") != ""

var siteRe = regexp.MustCompile(`(?:/[\w\[\]<>.$:-]+)+/`)
var allocRe = regexp.MustCompile(`calloc:\S*?\(\)\d+`)

func shortSites(s string) string { return allocRe.ReplaceAllString(siteRe.ReplaceAllString(s, ""), "") }

// refutes reports that the state is contradictory.
func (e *Engine) refutes(t *State, depth int, extra ...*Term) bool {
	if t.dead || !e.saturate(t, extra...) || !feasible(t) {
		return true
	}
	if depth == 0 {
		return false
	}
	if e.splitDisj(t, depth, extra...) {
		return true
	}
	tried := 0
	for _, c := range e.candidates(t, extra...) {
		if tried++; tried > 60 {
			break
		}
		if e.caseIter(t, c.rec, c.kap, depth, extra...) {
			return true
		}
	}
	return false
}

// splitDisj refutes by cases over a disjunction known true.
func (e *Engine) splitDisj(t *State, depth int, extra ...*Term) bool {
	for _, l := range t.litOrd {
		if !(l.op == "bor" && t.lits.get(l) || l.op == "band" && !t.lits.get(l)) {
			continue
		}
		all := true
		for _, a := range l.args {
			u := t.clone()
			if u.assume(a, l.op == "bor") && !e.refutes(u, depth-1, extra...) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

type iterCand struct {
	rec *LoopRec
	kap *Term
}

// loopRecs are the loops completed on the path, also inside other loops' bodies.
func loopRecs(s *State) []*LoopRec {
	var out []*LoopRec
	for _, ev := range s.events {
		if ev.kind == "loop" && ev.rec != nil && len(ev.rec.backs) > 0 {
			out = append(out, ev.rec)
		}
	}
	return append(out, s.inner...)
}

var substRecs = map[*LoopRec]map[*Term]*LoopRec{}

// innerLoops are the loops completed in the iteration be of rec, at iteration kap.
func innerLoops(rec *LoopRec, be *BackEdge, kap *Term) []*LoopRec {
	if be.st == nil || len(be.st.events) <= rec.evStart+1 {
		return nil
	}
	var out []*LoopRec
	m, memo := map[*Term]*Term{rec.n: kap}, map[*Term]*Term{}
	for _, ev := range be.st.events[rec.evStart+1:] {
		in := ev.rec
		if ev.kind != "loop" || in == nil || len(in.backs) == 0 {
			continue
		}
		if r := substRecs[in][kap]; r != nil {
			out = append(out, r)
			continue
		}
		r := &LoopRec{fn: in.fn, head: in.head, n: subst(in.n, m, memo), key: in.key}
		for _, b := range in.backs {
			nb := &BackEdge{st: newState(), from: b.from}
			for _, l := range b.lits {
				nl := subst(l, m, memo)
				nb.lits = append(nb.lits, nl)
				nb.st.setLitMap(nl, b.st.lits.get(l))
			}
			for _, c := range b.cons {
				nb.cons = append(nb.cons, substLE(c, m, memo))
			}
			r.backs = append(r.backs, nb)
		}
		if substRecs[in] == nil {
			substRecs[in] = map[*Term]*LoopRec{}
		}
		substRecs[in][kap] = r
		out = append(out, r)
	}
	return out
}

// candidates are iterations whose literals would talk about a literal of the state.
func (e *Engine) candidates(t *State, extra ...*Term) []iterCand {
	var out []iterCand
	seen := map[[2]*Term]bool{}
	atoms := t.atoms(extra...)
	for _, rec := range loopRecs(t) {
		add := func(k *Term) {
			if k == nil || k.sort != sInt || mentions(k, func(x *Term) bool { return x == rec.n }) && k == rec.n {
				return
			}
			g := [2]*Term{rec.n, k}
			if seen[g] {
				return
			}
			seen[g] = true
			if t.provesSafe(mkLt(k, mkInt(sInt, 0))) || t.provesSafe(mkLe(rec.n, k)) {
				return
			}
			out = append(out, iterCand{rec, k})
		}
		add(mkSub(rec.n, mkInt(sInt, 1)))
		for _, a := range atoms {
			switch {
			case a.op == "iter" && a.str == "sk" && a.args[0].op == "epoch" && lastArg(a.args[0]) == rec.n:
				add(a)
			case a.op == "iter" && a.str == "at" && baseTab[a.args[0]] != nil && baseTab[a.args[0]].rec == rec:
				add(a)
			}
		}
		pats := map[*Term]bool{}
		for _, b := range rec.backs {
			for _, l := range b.lits {
				if mentions(l, func(x *Term) bool { return x == rec.n }) {
					collectPats(l, rec.n, pats)
					if l.op == "eq" && l.args[0].sort.kind == 'i' && !b.st.lits.get(l) {
						// the iteration that would have left the loop on equality
						x, y := l.args[0], l.args[1]
						if mentions(y, func(x *Term) bool { return x == rec.n }) {
							x, y = y, x
						}
						if k := e.solveLin(t, x, y, rec.n); k != nil {
							add(k)
						}
					}
				}
			}
		}
		for _, b := range rec.backs {
			if b.st == nil || len(b.st.events) <= rec.evStart+1 {
				continue
			}
			for _, ev := range b.st.events[rec.evStart+1:] {
				if ev.kind != "loop" || ev.rec == nil {
					continue
				}
				for _, ib := range ev.rec.backs {
					for _, l := range ib.lits {
						collectPats(l, rec.n, pats)
					}
				}
			}
		}
		for _, a := range atoms {
			if !keyed(a) {
				continue
			}
			for p := range pats {
				if p.op == a.op && p.str == a.str && p != a {
					if k := e.solvePat(t, p, a, rec.n); k != nil {
						add(k)
					}
				}
			}
		}
	}
	return out
}

// keyed terms identify a cell by an index or key.
func keyed(t *Term) bool {
	return len(t.args) > 0 && (t.op == "has" || t.op == "mapval" || t.op == "cell" || t.op == "rangekey" || t.op == "ins" || t.op == "iter" && t.str == "at" || t.op == "skolem")
}

func collectPats(t, n *Term, out map[*Term]bool) {
	if keyed(t) && mentions(t, func(x *Term) bool { return x == n }) {
		out[t] = true
	}
	for _, a := range t.args {
		collectPats(a, n, out)
	}
	for _, m := range t.ms {
		collectPats(m.atom, n, out)
	}
}

func (s *State) provesSafe(b *Term) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(ForkOn); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return s.tri(b) == 1
}

// solvePat finds the iteration at which pattern p is the term a.
func (e *Engine) solvePat(s *State, p, a, n *Term) *Term {
	if p == n {
		return a
	}
	if p.sort != a.sort {
		return nil
	}
	if !mentions(p, func(x *Term) bool { return x == n }) {
		return nil
	}
	if p.op == a.op && p.str == a.str && len(p.args) == len(a.args) && len(p.args) > 0 {
		var k *Term
		ok := true
		for i := range p.args {
			if p.args[i] == a.args[i] {
				continue
			}
			if !mentions(p.args[i], func(x *Term) bool { return x == n }) {
				if p.args[i].sort.kind == 'i' && s.triSafe(mkEq(p.args[i], a.args[i])) == 1 {
					continue
				}
				ok = false
				break
			}
			ki := e.solvePat(s, p.args[i], a.args[i], n)
			if ki == nil || k != nil && k != ki {
				ok = false
				break
			}
			k = ki
		}
		if ok {
			return k
		}
	}
	if p.op == "rangekey" && len(p.args) == 3 && (a.op != "rangekey" || a.args[0] != p.args[0]) {
		if k := e.rangePos(s, p, a); k != nil {
			return e.solvePat(s, p.args[2], k, n)
		}
	}
	if p.sort.kind == 'i' {
		if k := e.solveLin(s, p, a, n); k != nil {
			return k
		}
		return e.matchLin(s, p, a, n)
	}
	return nil
}

// matchLin matches two sums term by term.
func (e *Engine) matchLin(s *State, p, a, n *Term) *Term {
	pl, ok1 := s.liftSafe(p)
	al, ok2 := s.liftSafe(a)
	if !ok1 || !ok2 || len(pl.ms) < 2 || len(al.ms) < 2 {
		return nil
	}
	var k *Term
	for _, m := range pl.ms {
		if !mentions(m.atom, func(x *Term) bool { return x == n }) {
			continue
		}
		var ki *Term
		for _, o := range al.ms {
			if o.coef.Cmp(m.coef) == 0 && o.atom.sort == m.atom.sort {
				if ki = e.solvePat(s, m.atom, o.atom, n); ki != nil {
					break
				}
			}
		}
		if ki == nil || k != nil && k != ki {
			return nil
		}
		k = ki
	}
	if k == nil {
		return nil
	}
	d := leAdd(s.lift(subst(p, map[*Term]*Term{n: k}, map[*Term]*Term{})), 1, al, -1)
	if len(d.ms) != 0 || d.c.Sign() != 0 {
		return nil
	}
	return k
}

// rangePos is the position at which a completed range over an unchanged map visits a key
// of the map.
func (e *Engine) rangePos(s *State, p, key *Term) *Term {
	if p.sort != key.sort {
		return nil
	}
	h := app(sBool, "has", "", p.args[1], key)
	if v, ok := s.lits.find(h); !ok || !v {
		return nil
	}
	for _, rec := range loopRecs(s) {
		if lv, ok := s.lits.find(app(sBool, "more", "", p.args[0], rec.n)); !ok || lv {
			continue
		}
		k := app(sInt, "iter", "sk", p.args[0], key)
		at := app(p.sort, "rangekey", "", p.args[0], p.args[1], k)
		if v, ok := s.lits.find(mkEq(at, key)); ok && v {
			return k
		}
		t := s.clone()
		ok := false
		if t.addGE(leTerm(k)) && t.addGE(leAdd(leTerm(rec.n), 1, leTerm(k), -1).addConst(-1)) && e.assumeSafe(t, mkEq(at, key), true, &ok) && ok {
			*s = *t
			return k
		}
	}
	return nil
}

// solveLin solves p(n) = a for n if p is plus or minus one times n, or times one term
// that has n, plus a constant part.
func (e *Engine) solveLin(s *State, p, a, n *Term) *Term {
	pl, ok := s.liftSafe(p)
	if !ok {
		return nil
	}
	var at *Term
	var co *big.Int
	for _, m := range pl.ms {
		if mentions(m.atom, func(x *Term) bool { return x == n }) {
			if at != nil || m.coef.CmpAbs(bigOne) != 0 {
				return nil
			}
			at, co = m.atom, m.coef
		}
	}
	if at == nil || at == p {
		return nil
	}
	al, ok := s.liftSafe(a)
	if !ok {
		return nil
	}
	d := leAdd(al, 1, pl, -1)
	d = leAddB(d, bigOne, LinExpr{c: new(big.Int), ms: []Mono{{bigOne, at}}}, co)
	if co.Sign() < 0 {
		d = d.neg()
	}
	r := mkLin(at.sort, d.c, d.ms)
	if at == n {
		return r
	}
	return e.solvePat(s, at, r, n)
}

// caseIter refutes the state by cases: iteration kap of the loop took one of its back
// edges, or there was no such iteration.
func (e *Engine) caseIter(t *State, rec *LoopRec, kap *Term, depth int, extra ...*Term) bool {
	k := leTerm(kap)
	lo := t.clone()
	if !t.entailsGE(k) && lo.addGE(k.neg().addConst(-1)) && !e.refutes(lo, depth-1, extra...) {
		return false
	}
	in := leAdd(leTerm(rec.n), 1, k, -1).addConst(-1)
	hi := t.clone()
	if !t.entailsGE(in) && hi.addGE(in.neg().addConst(-1)) && !e.refutes(hi, depth-1, extra...) {
		return false
	}
	for bi, b := range rec.backs {
		u := t.clone()
		if !u.addGE(k) || !u.addGE(in) {
			continue
		}
		if _, ok := e.instBack(u, rec, b, kap, nil); !ok {
			continue
		}
		if !e.appended(u, rec, bi, kap) {
			continue
		}
		u.inner = append(u.inner, innerLoops(rec, b, kap)...)
		if !e.refutes(u, depth-1, extra...) {
			if debugDeep {
				debugf("+++ depth %d loop %s at %s back %d not refuted:", depth, shortSites(rec.n.show(6)), shortSites(kap.show(6)), bi)
				for _, l := range u.litOrd {
					if _, old := t.lits.find(l); !old {
						debugf("++      %v %s", u.lits.get(l), shortSites(l.show(9)))
					}
				}
			}
			return false
		}
	}
	return true
}

// appended: iteration kap took a back edge that appends, so its element is there.
func (e *Engine) appended(u *State, rec *LoopRec, back int, kap *Term) bool {
	os := make([]*Term, 0, len(recBases[rec]))
	for o := range recBases[rec] {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		b := recBases[rec][o]
		for _, el := range b.elems {
			if el.back != back || b.stride == 1 {
				continue
			}
			i, ln := app(sInt, "iter", "sk", o, kap), app(sInt, "len", "", o)
			if !u.addGE(leTerm(i)) || !u.addGE(leAdd(leTerm(ln), 1, leTerm(i), -1).addConst(-1)) || !u.assume(mkEq(app(sInt, "iter", "at", o, i), kap), true) {
				return false
			}
			break
		}
	}
	return true
}

// contains proves that some element of the slice equals v.
func (e *Engine) contains(s *State, sl SliceV, v Val) bool {
	if sl.obj == nil || sl.len == nil || len(sl.path) > 0 {
		return false
	}
	os := s.obj(sl.obj)
	i := app(sInt, "sym", "contains.i")
	var n *Term = i
	// elements are os[off+i], 0<=i<len
	s = s.clone()
	return e.forallFork(s, func(t *State) bool {
		// g: what holds of every element (the reading of one says so)
		g := t.clone()
		g.addGE(leTerm(i))
		g.addGE(leAdd(leTerm(sl.len), 1, leTerm(i), -1).addConst(-1))
		x := e.readState(g, sl.obj, os, []Sel{{field: -1, idx: mkAdd(sl.off, i)}}, sl.obj.typ)
		v := v
		if iv, ok := v.(IfaceV); ok {
			if _, is := x.(IfaceV); !is {
				v = iv.v
			}
		}
		return e.invert(g, t, e.valTerm(x), e.valTerm(v), n, sl.len, 9)
	})
}

// forallFork runs f on every split it asks for.
func (e *Engine) forallFork(s *State, f func(t *State) bool) bool {
	return e.forallForkD(s, f, 6)
}

func (e *Engine) forallForkD(s *State, f func(t *State) bool, depth int) (res bool) {
	if depth == 0 {
		return false
	}
	var fk *ForkOn
	func() {
		defer func() {
			if x := recover(); x != nil {
				if y, ok := x.(ForkOn); ok {
					fk = &y
					return
				}
				panic(x)
			}
		}()
		res = f(s)
	}()
	if fk == nil {
		return res
	}
	a, b := s.split(*fk)
	// existence needs one of the cases only, but which one is a matter of the element chosen
	return a != nil && e.forallForkD(a, f, depth-1) || b != nil && e.forallForkD(b, f, depth-1)
}

// invert proves that some value x in [0,n) of the variable makes pattern p equal v.
func (e *Engine) invert(gs, s *State, p, v, x, n *Term, depth int) bool {
	if debug {
		debugf("invert[%d] %s = %s", depth, shortSites(p.show(7)), shortSites(v.show(7)))
	}
	if depth == 0 {
		return false
	}
	has := func(t *Term) bool { return mentions(t, func(y *Term) bool { return y == x }) }
	if p == x {
		if v.sort != sInt || !e.provesL(s, mkLe(mkInt(sInt, 0), v)) || !e.provesL(s, mkLt(v, n)) {
			return false
		}
		// what was assumed of the variable holds of the witness
		m, memo := map[*Term]*Term{x: v}, map[*Term]*Term{}
		for _, l := range s.litOrd {
			if has(l) {
				g := subst(l, m, memo)
				if !s.lits.get(l) {
					g = mkNot(g)
				}
				if !e.provesL(s, g) {
					return false
				}
			}
		}
		for _, c := range s.cons {
			for _, mo := range c.ms {
				if has(mo.atom) {
					u := s.clone()
					if u.addGE(substLE(c, m, memo).neg().addConst(-1)) && !e.refutes(u, 1) {
						return false
					}
					break
				}
			}
		}
		return true
	}
	if !has(p) {
		return e.provesL(s, mkEq(p, v)) && e.provesL(s, mkLt(mkInt(sInt, 0), n))
	}
	if p == v {
		return false
	}
	if r := e.rewriteFor(gs, p, x); r != p {
		return e.invert(gs, s, r, v, x, n, depth-1)
	}
	sk := func(base, arg *Term) *Term { return app(sInt, "iter", "sk", base, arg) }
	switch {
	case p.op == "perm":
		b := baseTab[p.args[0]]
		if b == nil || b.srcSl == nil || b.srcSl.len == nil {
			return false
		}
		if !e.provesL(s, mkLe(mkInt(sInt, 0), v)) || !e.provesL(s, mkLt(v, b.srcSl.len)) {
			return false
		}
		k := sk(p.args[0], v)
		t := s.clone()
		if !t.addGE(leTerm(k)) || !t.addGE(leAdd(leTerm(b.srcSl.len), 1, leTerm(k), -1).addConst(-1)) || !t.assume(mkEq(app(sInt, "perm", "", p.args[0], k), v), true) {
			return false
		}
		return e.invert(gs, t, p.args[1], k, x, n, depth-1)
	case p.op == "iter" && p.str == "at":
		b := baseTab[p.args[0]]
		if b == nil || b.rec == nil {
			return false
		}
		rec := b.rec
		if !e.provesL(s, mkLe(mkInt(sInt, 0), v)) || !e.provesL(s, mkLt(v, rec.n)) {
			return false
		}
		// every way not appending is impossible at iteration v
		app1 := map[int]bool{}
		for _, el := range b.elems {
			app1[el.back] = true
		}
		for i, be := range rec.backs {
			if app1[i] {
				continue
			}
			u := s.clone()
			if _, ok := e.instBack(u, rec, be, v, nil); ok && !e.refutes(u, 2) {
				return false
			}
		}
		k := sk(p.args[0], v)
		t := s.clone()
		if len(b.elems) == 1 {
			if be := rec.backsAt(b.elems[0].back); be != nil {
				if _, ok := e.instBack(t, rec, be, v, nil); !ok {
					return true
				}
			}
		}
		ln := app(sInt, "len", "", p.args[0])
		if !t.addGE(leTerm(k)) || !t.addGE(leAdd(leTerm(ln), 1, leTerm(k), -1).addConst(-1)) || !t.assume(mkEq(app(sInt, "iter", "at", p.args[0], k), v), true) {
			return false
		}
		return e.invert(gs, t, p.args[1], k, x, n, depth-1)
	case p.op == "rangekey" && len(p.args) == 3:
		// a completed range over an unchanged map visits every key
		for _, rec := range loopRecs(s) {
			more := app(sBool, "more", "", p.args[0], rec.n)
			if lv, ok := s.lits.find(more); !ok || lv {
				continue
			}
			if !e.provesL(s, app(sBool, "has", "", p.args[1], v)) && !e.provesL(s, e.hasOfIter(s, p, v)) {
				return false
			}
			k := sk(p.args[0], v)
			t := s.clone()
			if !t.addGE(leTerm(k)) || !t.addGE(leAdd(leTerm(rec.n), 1, leTerm(k), -1).addConst(-1)) || !t.assume(mkEq(app(p.sort, "rangekey", "", p.args[0], p.args[1], k), v), true) {
				return false
			}
			return e.invert(gs, t, p.args[2], k, x, n, depth-1)
		}
		return false
	}
	// same shape: descend where the variable is
	if p.op == v.op && p.str == v.str && len(p.args) == len(v.args) && p.sort == v.sort && len(p.args) > 0 {
		at := -1
		for i := range p.args {
			if has(p.args[i]) {
				if at >= 0 {
					return false
				}
				at = i
			} else if p.args[i] != v.args[i] && !(p.args[i].sort.kind == 'i' && e.provesL(s, mkEq(p.args[i], v.args[i]))) {
				return false
			}
		}
		if at >= 0 && p.args[at].sort == v.args[at].sort {
			return e.invert(gs, s, p.args[at], v.args[at], x, n, depth-1)
		}
		return false
	}
	if p.sort.kind == 'i' {
		// linear in one atom that has the variable
		pl, ok := s.liftSafe(p)
		if !ok {
			u := gs.clone()
			if !e.saturate(u, p) {
				return false
			}
			pl, ok = u.liftSafe(p)
		}
		vl, ok2 := s.liftSafe(v)
		if !ok || !ok2 {
			return false
		}
		for _, m := range pl.ms {
			if m.atom.op != "wrap" || !has(m.atom) {
				continue
			}
			// a truncation that cannot happen
			u := gs.clone()
			if !e.saturate(u, p) {
				return false
			}
			in := leTerm(m.atom.args[0])
			lo := leAddB(in, bigOne, leConst(new(big.Int).Neg(m.atom.sort.min())), bigOne)
			hi := leAddB(in, big.NewInt(-1), leConst(m.atom.sort.max()), bigOne)
			if !u.entailsGE(lo) || !u.entailsGE(hi) {
				continue
			}
			pl = leAddB(pl, bigOne, leTerm(m.atom), new(big.Int).Neg(m.coef))
			pl = leAddB(pl, bigOne, in, m.coef)
			break
		}
		var atom *Term
		var co *big.Int
		for _, m := range pl.ms {
			if has(m.atom) {
				if atom != nil {
					return false
				}
				atom, co = m.atom, m.coef
			}
		}
		if atom == nil || co.CmpAbs(bigOne) != 0 || atom == p {
			return false
		}
		d := leAdd(vl, 1, pl, -1)
		d = leAddB(d, bigOne, LinExpr{c: new(big.Int), ms: []Mono{{bigOne, atom}}}, co)
		if co.Sign() < 0 {
			d = d.neg()
		}
		return e.invert(gs, s, atom, mkLin(atom.sort, d.c, d.ms), x, n, depth-1)
	}
	return false
}

// rewriteFor replaces in p opaque integer terms that have x by simpler terms the state
// knows them equal to, and drops truncations that cannot happen.
func (e *Engine) rewriteFor(s *State, p, x *Term) *Term {
	if p.sort.kind != 'i' {
		return p
	}
	hasX := func(t *Term) bool { return mentions(t, func(y *Term) bool { return y == x }) }
	var ts []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !hasX(t) {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.ms {
			walk(m.atom)
		}
		ts = append(ts, t)
	}
	walk(p)
	var u *State
	eq := func(a, b *Term) bool {
		if u == nil {
			u = s.clone()
			if !e.saturate(u, p) {
				return false
			}
		}
		return a.sort == b.sort && u.provesSafe(mkEq(a, b))
	}
	for _, t := range ts {
		if t.sort.kind != 'i' || t.op != "fn" && (t != p || t.sort != sKey) {
			continue
		}
		for _, k := range ts {
			if k == t {
				break
			}
			if k.sort == t.sort && k.op == "rangekey" && eq(t, k) {
				return subst(p, map[*Term]*Term{t: k}, map[*Term]*Term{})
			}
		}
	}
	return p
}

// hasOfIter is membership in the map a range ran over.
func (e *Engine) hasOfIter(s *State, p, v *Term) (h *Term) {
	it, ok := e.rangeOf[p.args[0]]
	if !ok {
		return tFalse
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(ForkOn); ok {
				h = tFalse
				return
			}
			panic(x)
		}
	}()
	os := it.os
	if os == nil {
		os = s.obj(it.m.obj)
	}
	return e.hasTerm(s.clone(), it.m.obj, os, v)
}
