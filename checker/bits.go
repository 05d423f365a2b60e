package main

import (
	"math/big"
	"sort"
)

// ---- affine relations over GF(2) ----
//
// Each bit of an integer term is abstracted by an exclusive-or of bits of its unknowns
// (masks, shifts by known counts, complements, reassembled bytes stay exact); a condition
// is a set of such sums being zero. Conditions known on a path form a linear system.

// Aff is a sum of unknown bits and a constant: bit 0 is the constant, bit 1+v the unknown v.
type Aff = *big.Int

type Bits struct {
	ands  map[int][2]Aff // products by their unknown
	tops  []*Term        // sums whose bits are unknowns
	vars  map[string]int
	memo  map[*Term][]Aff
	names []string
}

func newBits() *Bits {
	return &Bits{ands: map[int][2]Aff{}, vars: map[string]int{}, memo: map[*Term][]Aff{}}
}

var affZero, affOne = big.NewInt(0), big.NewInt(1)

func (b *Bits) fresh(key string) Aff {
	v, ok := b.vars[key]
	if !ok {
		v = len(b.vars)
		b.vars[key] = v
		b.names = append(b.names, key)
	}
	return new(big.Int).SetBit(new(big.Int), v+1, 1)
}

func affXor(x, y Aff) Aff { return new(big.Int).Xor(x, y) }
func affNot(x Aff) Aff    { return new(big.Int).Xor(x, affOne) }
func affEq(x, y Aff) bool { return x.Cmp(y) == 0 }

func (b *Bits) affAnd(x, y Aff) Aff {
	switch {
	case x.Sign() == 0 || y.Sign() == 0:
		return affZero
	case affEq(x, affOne):
		return y
	case affEq(y, affOne):
		return x
	case affEq(x, y):
		return x
	case affEq(x, affNot(y)):
		return affZero
	}
	if x.Cmp(y) > 0 {
		x, y = y, x
	}
	r := b.fresh("and(" + x.Text(62) + "," + y.Text(62) + ")")
	b.ands[r.BitLen()-1] = [2]Aff{x, y}
	return r
}

func (b *Bits) opaque(t *Term, w int) []Aff {
	out := make([]Aff, w)
	key := "#" + itoa(t.id)
	if t.op == "lin" {
		b.tops = append(b.tops, t)
	}
	for i := range out {
		out[i] = b.fresh(key + "." + itoa(i))
	}
	return out
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// vec is the term's value modulo 2^w, w its width, least significant bit first.
func (b *Bits) vec(t *Term) []Aff {
	if v, ok := b.memo[t]; ok {
		return v
	}
	v := b.vec1(t)
	b.memo[t] = v
	return v
}

// ext is the vector of a term in a wider or narrower sort, keeping its value.
func (b *Bits) ext(t *Term, w int) []Aff {
	v := b.vec(t)
	out := make([]Aff, w)
	for i := range out {
		switch {
		case i < len(v):
			out[i] = v[i]
		case t.sort.signed:
			out[i] = v[len(v)-1]
		default:
			out[i] = affZero
		}
	}
	return out
}

func constVec(c *big.Int, w int) []Aff {
	m := new(big.Int).Mod(c, pow2(w))
	out := make([]Aff, w)
	for i := range out {
		out[i] = affZero
		if m.Bit(i) == 1 {
			out[i] = affOne
		}
	}
	return out
}

func shlVec(v []Aff, n int) []Aff {
	out := make([]Aff, len(v))
	for i := range out {
		out[i] = affZero
		if i >= n {
			out[i] = v[i-n]
		}
	}
	return out
}

// addVec is the sum, when every carry is a bit that is known or equal to another one.
func addVec(x, y []Aff) ([]Aff, bool) { return addCarry(x, y, affZero) }

// subVec is the difference, when every borrow is.
func subVec(x, y []Aff) ([]Aff, bool) {
	n := make([]Aff, len(y))
	for i := range y {
		n[i] = affNot(y[i])
	}
	return addCarry(x, n, affOne)
}

func addCarry(x, y []Aff, c Aff) ([]Aff, bool) {
	out := make([]Aff, len(x))
	for i := range x {
		out[i] = affXor(affXor(x[i], y[i]), c)
		if i == len(x)-1 {
			break
		}
		// the majority of the three
		xy, xc, yc := affXor(x[i], y[i]), affXor(x[i], c), affXor(y[i], c)
		switch {
		case xy.Sign() == 0 || xc.Sign() == 0 || affEq(yc, affOne):
			c = x[i]
		case yc.Sign() == 0 || affEq(xc, affOne):
			c = y[i]
		case affEq(xy, affOne):
		default:
			return nil, false
		}
	}
	return out, true
}

func (b *Bits) vec1(t *Term) []Aff {
	w := t.sort.w
	switch t.op {
	case "lin":
		if len(t.ms) == 0 {
			return constVec(t.c, w)
		}
		pos, neg := constVec(affZero, w), constVec(affZero, w)
		ok := true
		if t.c.Sign() >= 0 {
			pos = constVec(t.c, w)
		}
		allNeg := true
		for _, m := range t.ms {
			allNeg = allNeg && m.coef.Sign() < 0
		}
		if allNeg {
			// c - X = not (X - c - 1)
			ms := make([]Mono, len(t.ms))
			for i, m := range t.ms {
				ms[i] = Mono{new(big.Int).Neg(m.coef), m.atom}
			}
			in := mkLin(t.sort, new(big.Int).Sub(new(big.Int).Neg(t.c), bigOne), ms)
			if in.op != "lin" || in.c.Sign() >= 0 && len(in.ms) == len(ms) {
				v := b.vec(in)
				out := make([]Aff, w)
				for i := range v {
					out[i] = affNot(v[i])
				}
				return out
			}
		}
		for _, m := range t.ms {
			a := new(big.Int).Abs(m.coef)
			n := a.BitLen() - 1
			if a.Cmp(pow2(n)) != 0 {
				ok = false
				break
			}
			v := shlVec(b.ext(m.atom, w), n)
			if m.coef.Sign() > 0 {
				pos, ok = addVec(pos, v)
			} else {
				neg, ok = addVec(neg, v)
			}
			if !ok {
				break
			}
		}
		if ok && t.c.Sign() < 0 {
			neg, ok = addVec(neg, constVec(new(big.Int).Neg(t.c), w))
		}
		if ok {
			if r, ok := subVec(pos, neg); ok {
				return r
			}
		}
		return b.opaque(t, w)
	case "and", "or", "xor":
		x, y := b.vec(t.args[0]), b.vec(t.args[1])
		out := make([]Aff, w)
		for i := range out {
			switch t.op {
			case "and":
				out[i] = b.affAnd(x[i], y[i])
			case "or":
				out[i] = affNot(b.affAnd(affNot(x[i]), affNot(y[i])))
			default:
				out[i] = affXor(x[i], y[i])
			}
		}
		return out
	case "shlk":
		return shlVec(b.vec(t.args[0]), int(t.args[1].c.Int64()))
	case "shr":
		if n := t.args[1]; n.isConst() && n.c.IsInt64() {
			x := b.vec(t.args[0])
			k := int(n.c.Int64())
			out := make([]Aff, w)
			for i := range out {
				switch {
				case i+k < len(x) && k < w:
					out[i] = x[i+k]
				case t.sort.signed:
					out[i] = x[len(x)-1]
				default:
					out[i] = affZero
				}
			}
			return out
		}
	case "wrap":
		if t.args[0].sort.w == w {
			return b.vec(t.args[0])
		}
	}
	return b.opaque(t, w)
}

// Cond is a condition: all (neg: not all) of the sums are zero.
type Cond struct {
	eqs []Aff
	neg bool
}

// conj gives a condition as sums that are all zero, if it has that form.
func (b *Bits) conj(t *Term, want bool) (eqs []Aff, ok bool) {
	switch t.op {
	case "true", "false":
		if (t.op == "true") == want {
			return nil, true
		}
		return []Aff{affOne}, true
	case "not":
		return b.conj(t.args[0], !want)
	case "band", "bor":
		if (t.op == "band") == want {
			for _, a := range t.args {
				e, ok := b.conj(a, want)
				if !ok {
					return nil, false
				}
				eqs = append(eqs, e...)
			}
			return eqs, true
		}
		if len(t.args) == 1 {
			return b.conj(t.args[0], want)
		}
		return nil, false
	case "eq", "lt":
		x, y := t.args[0], t.args[1]
		if x.sort.kind != 'i' || x.sort.w > 64 || y.sort.w > 64 {
			break
		}
		if t.op == "eq" {
			if x.sort != y.sort {
				break
			}
			vx, vy := b.vec(x), b.vec(y)
			for i := range vx {
				if e := affXor(vx[i], vy[i]); e.Sign() != 0 {
					eqs = append(eqs, e)
				}
			}
			if want {
				return eqs, true
			}
			if len(eqs) == 0 {
				return []Aff{affOne}, true
			}
			if len(eqs) == 1 {
				return []Aff{affNot(eqs[0])}, true
			}
			for _, e := range eqs {
				if affEq(e, affOne) {
					return nil, true
				}
			}
			return nil, false
		}
		return b.less(x, y, want)
	}
	v := b.fresh("?" + itoa(t.id))
	if want {
		v = affNot(v)
	}
	return []Aff{v}, true
}

// less: x < y with one side a known power of two or zero.
func (b *Bits) less(x, y *Term, want bool) ([]Aff, bool) {
	top := func(v []Aff, k int) []Aff { // bits k.. are zero
		var out []Aff
		for i := k; i < len(v); i++ {
			if v[i].Sign() != 0 {
				out = append(out, v[i])
			}
		}
		return out
	}
	// leading zeros: lz(z)+c < d
	if z, c, ok := lzOf(x); ok && y.isConst() {
		// lz < k
		k := new(big.Int).Sub(y.c, c)
		return b.lzLess(z, k, want)
	}
	if z, c, ok := lzOf(y); ok && x.isConst() {
		// c' < lz : not (lz < c'+1)
		k := new(big.Int).Add(new(big.Int).Sub(x.c, c), bigOne)
		return b.lzLess(z, k, !want)
	}
	if x.sort.signed {
		return nil, false
	}
	var eqs []Aff // zero iff below
	switch {
	case y.isConst():
		c := uval(y)
		k := c.BitLen() - 1
		if c.Sign() == 0 {
			eqs = []Aff{affOne}
		} else if c.Cmp(pow2(k)) == 0 {
			eqs = top(b.vec(x), k)
		} else {
			return nil, false
		}
	case x.isConst():
		// not (y <= c)
		c := new(big.Int).Add(uval(x), bigOne)
		k := c.BitLen() - 1
		if c.Cmp(pow2(k)) != 0 {
			return nil, false
		}
		eqs, want = top(b.vec(y), k), !want
	default:
		if x.sort != y.sort || x.sort.w > 64 {
			return nil, false
		}
		v, u := b.vec(x), b.vec(y)
		i := len(v) - 1
		for i >= 0 && affEq(v[i], u[i]) {
			i--
		}
		switch {
		case i < 0 || affEq(v[i], affOne) && u[i].Sign() == 0:
			eqs = []Aff{affOne}
		case affEq(u[i], affOne) && v[i].Sign() == 0:
		default:
			// no bit of y is above the same bit of x
			for ; i >= 0; i-- {
				if !affEq(v[i], u[i]) && !affEq(v[i], affOne) && u[i].Sign() != 0 {
					return nil, false
				}
			}
			eqs = []Aff{affOne}
		}
	}
	if want {
		return eqs, true
	}
	if len(eqs) == 0 {
		return []Aff{affOne}, true
	}
	for _, e := range eqs {
		if affEq(e, affOne) {
			return nil, true
		}
	}
	if len(eqs) == 1 {
		return []Aff{affNot(eqs[0])}, true
	}
	return nil, false
}

// lzOf: t = lz(z) + c.
func lzOf(t *Term) (z *Term, c *big.Int, ok bool) {
	if t.op == "lz" {
		return t.args[0], new(big.Int), true
	}
	if t.op == "lin" && len(t.ms) == 1 && t.ms[0].coef.Cmp(bigOne) == 0 && t.ms[0].atom.op == "lz" && t.sort.w > 7 {
		lo := t.c
		hi := new(big.Int).Add(lo, big.NewInt(int64(t.ms[0].atom.args[0].sort.w)))
		if lo.Cmp(t.sort.min()) >= 0 && hi.Cmp(t.sort.max()) <= 0 {
			return t.ms[0].atom.args[0], t.c, true
		}
	}
	return nil, nil, false
}

// lz(z) < k: not all of the top k bits are zero.
func (b *Bits) lzLess(z *Term, k *big.Int, want bool) ([]Aff, bool) {
	w := z.sort.w
	if k.Sign() <= 0 {
		if want {
			return []Aff{affOne}, true
		}
		return nil, true
	}
	if k.Cmp(big.NewInt(int64(w))) > 0 {
		if want {
			return nil, true
		}
		return []Aff{affOne}, true
	}
	v := b.vec(z)
	var eqs []Aff
	for i := w - int(k.Int64()); i < w; i++ {
		if v[i].Sign() != 0 {
			eqs = append(eqs, v[i])
		}
	}
	if !want {
		return eqs, true
	}
	if len(eqs) == 0 {
		return []Aff{affOne}, true
	}
	if len(eqs) == 1 {
		return []Aff{affNot(eqs[0])}, true
	}
	return nil, false
}

// System is a set of sums known to be zero, in echelon form by highest unknown.
type System struct {
	rows map[int]Aff
	bad  bool
}

func (s *System) reduce(e Aff) Aff {
	e = new(big.Int).Set(e)
	for i := e.BitLen() - 1; i > 0; i-- {
		if e.Bit(i) == 1 {
			if r, ok := s.rows[i]; ok {
				e.Xor(e, r)
			}
		}
	}
	return e
}

func (s *System) add(e Aff) {
	e = s.reduce(e)
	if e.Sign() == 0 {
		return
	}
	if affEq(e, affOne) {
		s.bad = true
		return
	}
	s.rows[e.BitLen()-1] = e
}

// bitsRefute reports that the literals of the state contradict each other bitwise. The
// top bit of a sum is tied to its value by cases.
func (e *Engine) bitsRefute(s *State, goal *Term, depth int) bool {
	bad, tops, known := bitsCheck(s, goal)
	if bad {
		return true
	}
	if len(known) > 0 && len(known) < 20 {
		// values of bit expressions the linear part does not know yet
		u := s.clone()
		for _, k := range known {
			ok := false
			c, v := k.cond()
			if !e.assumeSafe(u, c, v, &ok) && ok {
				return true
			}
		}
		if !u.relift() || e.refutes(u, 0) {
			return true
		}
		s = u
	}
	if depth == 0 {
		return false
	}
	for _, t := range tops {
		if t.sort.signed || len(tops) > 4 {
			continue
		}
		half := mkLt(t, mkBig(t.sort, pow2(t.sort.w-1)))
		done := true
		for _, v := range []bool{true, false} {
			u := s.clone()
			ok := false
			if !e.assumeSafe(u, half, v, &ok) && ok || e.refutes(u, 0) {
				continue
			}
			if !e.bitsRefute(u, goal, depth-1) {
				done = false
				break
			}
		}
		if done {
			return true
		}
	}
	return false
}

type bitVal struct {
	t   *Term
	v   *big.Int
	top int // 1, 2: only the top bit is known, clear or set
}

func (k bitVal) cond() (*Term, bool) {
	if k.top > 0 {
		return mkLt(k.t, mkBig(k.t.sort, pow2(k.t.sort.w-1))), k.top == 1
	}
	return mkEq(k.t, mkBig(k.t.sort, k.v)), true
}

// relift adds the integer conditions of the path again, with what is known now.
func (s *State) relift() bool {
	for _, l := range append([]*Term(nil), s.litOrd...) {
		v := s.lits.get(l)
		if l.op != "eq" && l.op != "lt" || l.args[0].sort.kind != 'i' {
			continue
		}
		x, y, ok := s.lift2(l.args[0], l.args[1])
		if !ok {
			continue
		}
		switch {
		case l.op == "lt" && v:
			ok = s.addGE(leAdd(y, 1, x, -1).addConst(-1))
		case l.op == "lt":
			ok = s.addGE(leAdd(x, 1, y, -1))
		case v:
			d := leAdd(x, 1, y, -1)
			ok = s.addGE(d) && s.addGE(d.neg())
		default:
			d := leAdd(x, 1, y, -1)
			if z, eq := s.isZeroLE(d); z && eq {
				return false
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func bitsCheck(s *State, goal *Term) (bool, []*Term, []bitVal) {
	rel := false
	look := func(x *Term) bool {
		switch x.op {
		case "and", "or", "xor", "shr", "shlk", "wrap", "lz":
			return true
		}
		return x.op == "lin" && len(x.ms) > 0 && x.sort.w <= 64 && new(big.Int).Abs(x.ms[0].coef).Cmp(bigOne) > 0
	}
	for _, l := range s.litOrd {
		if mentions(l, look) {
			rel = true
			break
		}
	}
	if !rel && mentions(goal, look) {
		rel = true
	}
	for _, c := range s.cons {
		for _, m := range c.ms {
			rel = rel || mentions(m.atom, look)
		}
	}
	if !rel {
		return false, nil, nil
	}
	b := newBits()
	sys := &System{rows: map[int]Aff{}}
	var negs [][]Aff
	var addLit func(l *Term, v bool)
	addLit = func(l *Term, v bool) {
		if l.op == "not" {
			addLit(l.args[0], !v)
			return
		}
		if (l.op == "band" && v) || (l.op == "bor" && !v) {
			for _, a := range l.args {
				addLit(a, v)
			}
			return
		}
		if eqs, ok := b.conj(l, v); ok {
			for _, e := range eqs {
				sys.add(e)
			}
			return
		}
		if eqs, ok := b.conj(l, !v); ok {
			negs = append(negs, eqs)
		}
	}
	for _, l := range s.litOrd {
		addLit(l, s.lits.get(l))
	}
	addLit(goal, false)
	// what the linear constraints fix
	pins, feasible := s.pinned()
	if !feasible {
		return true, nil, nil
	}
	for _, p := range pins {
		if a := p.t; a.sort.kind == 'i' && a.sort.w <= 64 {
			v, k := b.vec(a), constVec(p.v, a.sort.w)
			for i := range v {
				sys.add(affXor(v[i], k[i]))
			}
		}
	}
	for !sys.bad {
		changed := false
		for i, n := range negs {
			if n == nil {
				continue
			}
			var left []Aff
			sat := false
			t := &System{rows: map[int]Aff{}}
			for _, e := range n {
				e = t.reduce(sys.reduce(e))
				if affEq(e, affOne) {
					sat = true
					break
				}
				if e.Sign() != 0 {
					left = append(left, e)
					t.add(e)
				}
			}
			if sat || t.bad {
				negs[i] = nil
				continue
			}
			if len(left) == 0 {
				return true, nil, nil
			}
			if len(left) == 1 {
				sys.add(affNot(left[0]))
				negs[i] = nil
				changed = true
			}
		}
		for v, xy := range b.ands {
			if _, ok := sys.rows[v]; ok && affEq(sys.reduce(new(big.Int).SetBit(new(big.Int), v, 1)), affZero) {
				continue
			}
			x, y := sys.reduce(xy[0]), sys.reduce(xy[1])
			r := new(big.Int).SetBit(new(big.Int), v, 1)
			var is Aff
			switch {
			case x.Sign() == 0 || y.Sign() == 0 || affEq(x, affNot(y)):
				is = affZero
			case affEq(x, affOne):
				is = y
			case affEq(y, affOne), affEq(x, y):
				is = x
			case affEq(sys.reduce(r), affOne):
				// both
				for _, z := range []Aff{x, y} {
					if !affEq(z, affOne) {
						sys.add(affNot(z))
						changed = true
					}
				}
				continue
			default:
				continue
			}
			if d := sys.reduce(affXor(r, is)); d.Sign() != 0 {
				sys.add(d)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	if debug && !sys.bad {
		for _, n := range negs {
			for _, x := range n {
				var ss []string
				for i, nm := range b.names {
					if x.Bit(i+1) == 1 {
						ss = append(ss, nm)
					}
				}
				debugf("   bit left: %v %d", ss, x.Bit(0))
			}
		}
	}
	if sys.bad {
		return true, nil, nil
	}
	var known []bitVal
	for t, v := range b.memo {
		switch t.op {
		case "and", "or", "xor", "shr":
		default:
			// the half of its range the value is in
			if n := t.sort.w; n > 1 && n <= 64 && !t.sort.signed && !t.isConst() && len(v) == n {
				if x := sys.reduce(v[n-1]); x.Sign() == 0 || affEq(x, affOne) {
					known = append(known, bitVal{t: t, top: int(x.Bit(0)) + 1})
				}
			}
			continue
		}
		c := new(big.Int)
		for i, x := range v {
			x = sys.reduce(x)
			if x.Sign() != 0 && !affEq(x, affOne) {
				c = nil
				break
			}
			c.SetBit(c, i, x.Bit(0))
		}
		if c == nil {
			continue
		}
		if k := pinVal(pins, t); k != nil && k.Cmp(c) == 0 {
			continue
		}
		known = append(known, bitVal{t: t, v: c})
	}
	sort.Slice(known, func(i, j int) bool { return known[i].t.id < known[j].t.id })
	return false, b.tops, known
}

// pinned lists the atoms the constraints leave one value, by interval propagation.
func (s *State) pinned() (out []bitVal, feasible bool) {
	lo, hi := map[*Term]*big.Int{}, map[*Term]*big.Int{}
	var atoms []*Term
	for _, c := range s.cons {
		for _, m := range c.ms {
			if _, ok := lo[m.atom]; !ok {
				lo[m.atom], hi[m.atom] = atomRange(m.atom)
				atoms = append(atoms, m.atom)
			}
		}
	}
	for round := 0; round < 4; round++ {
		changed := false
		for _, c := range s.cons {
			mx := new(big.Int).Set(c.c)
			for _, m := range c.ms {
				if m.coef.Sign() > 0 {
					mx.Add(mx, new(big.Int).Mul(m.coef, hi[m.atom]))
				} else {
					mx.Add(mx, new(big.Int).Mul(m.coef, lo[m.atom]))
				}
			}
			if mx.Sign() < 0 {
				return nil, false
			}
			for _, m := range c.ms {
				a := m.atom
				if m.coef.CmpAbs(bigOne) != 0 {
					continue
				}
				if m.coef.Sign() > 0 { // a >= hi(a) - mx
					if v := new(big.Int).Sub(hi[a], mx); v.Cmp(lo[a]) > 0 {
						lo[a], changed = v, true
					}
				} else if v := new(big.Int).Add(lo[a], mx); v.Cmp(hi[a]) < 0 {
					hi[a], changed = v, true
				}
				if lo[a].Cmp(hi[a]) > 0 {
					return nil, false
				}
			}
		}
		if !changed {
			break
		}
	}
	for _, a := range atoms {
		if lo[a].Cmp(hi[a]) == 0 {
			out = append(out, bitVal{t: a, v: lo[a]})
		}
	}
	return out, true
}

func pinVal(pins []bitVal, t *Term) *big.Int {
	for _, p := range pins {
		if p.t == t {
			return p.v
		}
	}
	return nil
}
