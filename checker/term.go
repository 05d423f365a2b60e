package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Sort of a term: 'i' integer of w bits, 'b' bool, 'o' opaque.
type Sort struct {
	kind   byte
	w      int
	signed bool
}

var (
	sBool = Sort{kind: 'b'}
	sOpq  = Sort{kind: 'o'}
	sInt  = Sort{kind: 'i', w: 64, signed: true}
	sU64  = Sort{kind: 'i', w: 64}
	sU8   = Sort{kind: 'i', w: 8}
)

// Mono is one monomial of a linear term.
type Mono struct {
	coef *big.Int
	atom *Term
}

// Term is a hash-consed value expression. Integer terms are kept in linear
// normal form modulo 2^w over integer atoms.
type Term struct {
	id   int
	op   string
	str  string
	args []*Term
	sort Sort
	// op == "lin"
	c  *big.Int
	ms []Mono

	typ types.Type
}

type TermTab struct {
	tab  map[string]*Term
	next int
}

func newTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

var tt = newTermTab()

func (t *Term) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%q|%c%d%v|", t.op, t.str, t.sort.kind, t.sort.w, t.sort.signed)
	for _, a := range t.args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if t.op == "lin" {
		b.WriteString(t.c.String())
		for _, m := range t.ms {
			fmt.Fprintf(&b, "+%s*%d", m.coef, m.atom.id)
		}
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := t.key()
	if x, ok := tt.tab[k]; ok {
		return x
	}
	tt.next++
	t.id = tt.next
	tt.tab[k] = t
	return t
}

func app(sort Sort, op, str string, args ...*Term) *Term {
	return intern(&Term{op: op, str: str, args: append([]*Term(nil), args...), sort: sort})
}

func opq(op, str string, args ...*Term) *Term { return app(sOpq, op, str, args...) }

var tTrue, tFalse *Term

func init() {
	tTrue = app(sBool, "true", "")
	tFalse = app(sBool, "false", "")
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkNot(t *Term) *Term {
	switch t.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.args[0]
	}
	return app(sBool, "not", "", t)
}

var pow2tab []*big.Int

func pow2(n int) *big.Int {
	for len(pow2tab) <= n {
		pow2tab = append(pow2tab, new(big.Int).Lsh(big.NewInt(1), uint(len(pow2tab))))
	}
	return pow2tab[n]
}

func (s Sort) min() *big.Int {
	if s.signed {
		return new(big.Int).Neg(pow2(s.w - 1))
	}
	return big.NewInt(0)
}

func (s Sort) max() *big.Int {
	if s.signed {
		return new(big.Int).Sub(pow2(s.w-1), big.NewInt(1))
	}
	return new(big.Int).Sub(pow2(s.w), big.NewInt(1))
}

// symmetric residue modulo 2^w
func symMod(x *big.Int, w int) *big.Int {
	m := pow2(w)
	r := new(big.Int).Mod(x, m)
	if r.Cmp(pow2(w-1)) > 0 {
		r.Sub(r, m)
	}
	return r
}

// value residue in the range of the sort
func valMod(x *big.Int, s Sort) *big.Int {
	m := pow2(s.w)
	r := new(big.Int).Mod(x, m)
	if s.signed && r.Cmp(pow2(s.w-1)) >= 0 {
		r.Sub(r, m)
	}
	return r
}

func mkLin(s Sort, c *big.Int, ms []Mono) *Term {
	acc := map[int]*Mono{}
	var ids []int
	for _, m := range ms {
		if x, ok := acc[m.atom.id]; ok {
			x.coef = new(big.Int).Add(x.coef, m.coef)
		} else {
			acc[m.atom.id] = &Mono{new(big.Int).Set(m.coef), m.atom}
			ids = append(ids, m.atom.id)
		}
	}
	sort.Ints(ids)
	var out []Mono
	for _, id := range ids {
		m := acc[id]
		co := symMod(m.coef, s.w)
		if co.Sign() == 0 {
			continue
		}
		out = append(out, Mono{co, m.atom})
	}
	if len(out) == 0 {
		return intern(&Term{op: "lin", sort: s, c: valMod(c, s)})
	}
	cc := symMod(c, s.w)
	if len(out) == 1 && cc.Sign() == 0 && out[0].coef.Cmp(bigOne) == 0 && out[0].atom.sort == s {
		return out[0].atom
	}
	return intern(&Term{op: "lin", sort: s, c: cc, ms: out})
}

var bigOne = big.NewInt(1)

func mkInt(s Sort, v int64) *Term     { return mkLin(s, big.NewInt(v), nil) }
func mkBig(s Sort, v *big.Int) *Term  { return mkLin(s, v, nil) }
func (t *Term) isConst() bool         { return t.op == "lin" && len(t.ms) == 0 }
func (t *Term) isConstV(v int64) bool { return t.isConst() && t.c.IsInt64() && t.c.Int64() == v }
func (t *Term) monos() (*big.Int, []Mono) {
	if t.op == "lin" {
		return t.c, t.ms
	}
	return big.NewInt(0), []Mono{{bigOne, t}}
}

func linCombine(s Sort, parts ...interface{}) *Term {
	// parts: (int64 | *big.Int) coef, *Term ...
	c := new(big.Int)
	var ms []Mono
	for i := 0; i < len(parts); i += 2 {
		var co *big.Int
		switch x := parts[i].(type) {
		case int:
			co = big.NewInt(int64(x))
		case *big.Int:
			co = x
		}
		tc, tm := parts[i+1].(*Term).monos()
		c.Add(c, new(big.Int).Mul(co, tc))
		for _, m := range tm {
			ms = append(ms, Mono{new(big.Int).Mul(co, m.coef), m.atom})
		}
	}
	return mkLin(s, c, ms)
}

func mkAdd(a, b *Term) *Term { return linCombine(a.sort, 1, a, 1, b) }
func mkSub(a, b *Term) *Term { return linCombine(a.sort, 1, a, -1, b) }
func mkNeg(a *Term) *Term    { return linCombine(a.sort, -1, a) }
func mkCompl(a *Term) *Term  { return mkSub(mkNeg(a), mkInt(a.sort, 1)) }
func mkMul(a, b *Term) *Term {
	if a.isConst() {
		return linCombine(a.sort, a.c, b)
	}
	if b.isConst() {
		return linCombine(a.sort, b.c, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app(a.sort, "mul", "", a, b)
}

// static range of the exact (unwrapped) linear expression
func staticRange(t *Term) (lo, hi *big.Int) {
	c, ms := t.monos()
	lo, hi = new(big.Int).Set(c), new(big.Int).Set(c)
	for _, m := range ms {
		al, ah := atomRange(m.atom)
		if m.coef.Sign() > 0 {
			lo.Add(lo, new(big.Int).Mul(m.coef, al))
			hi.Add(hi, new(big.Int).Mul(m.coef, ah))
		} else {
			lo.Add(lo, new(big.Int).Mul(m.coef, ah))
			hi.Add(hi, new(big.Int).Mul(m.coef, al))
		}
	}
	return
}

func atomRange(a *Term) (lo, hi *big.Int) {
	switch a.op {
	case "len", "cap", "iter":
		return big.NewInt(0), new(big.Int).Sub(pow2(62), bigOne)
	case "addcarry", "subborrow":
		return big.NewInt(0), big.NewInt(1)
	case "be":
		return big.NewInt(0), new(big.Int).Sub(pow2(128), bigOne)
	case "lz":
		return big.NewInt(0), big.NewInt(int64(a.args[0].sort.w))
	case "shr":
		if k := a.args[1]; !a.sort.signed && k.isConst() && k.c.IsInt64() && k.c.Int64() >= 0 && k.c.Int64() <= int64(a.sort.w) {
			return big.NewInt(0), new(big.Int).Sub(pow2(a.sort.w-int(k.c.Int64())), bigOne)
		}
	case "and":
		if !a.sort.signed {
			hi := a.sort.max()
			for _, x := range a.args {
				if x.isConst() && x.c.Sign() >= 0 && x.c.Cmp(hi) < 0 {
					hi = x.c
				}
			}
			return big.NewInt(0), hi
		}
	}
	return a.sort.min(), a.sort.max()
}

// toSort converts an integer term to another integer sort (Go conversion).
// exact tells that the term is known not to wrap (its linear form is its value).
func toSort(t *Term, s Sort, exact bool) *Term {
	if t.sort == s {
		return t
	}
	c, ms := t.monos()
	if exact || s.w <= t.sort.w {
		return mkLin(s, c, ms)
	}
	lo, hi := staticRange(t)
	if lo.Cmp(t.sort.min()) >= 0 && hi.Cmp(t.sort.max()) <= 0 {
		return mkLin(s, c, ms)
	}
	w := app(t.sort, "wrap", "", t)
	return mkLin(s, big.NewInt(0), []Mono{{bigOne, w}})
}

func allOnes(s Sort) *big.Int { return new(big.Int).Sub(pow2(s.w), bigOne) }

func uval(t *Term) *big.Int { // unsigned value of a constant
	return new(big.Int).Mod(t.c, pow2(t.sort.w))
}

func mkBit(op string, a, b *Term) *Term {
	s := a.sort
	if a.isConst() && b.isConst() {
		x, y := uval(a), uval(b)
		r := new(big.Int)
		switch op {
		case "and":
			r.And(x, y)
		case "or":
			r.Or(x, y)
		case "xor":
			r.Xor(x, y)
		}
		return mkBig(s, r)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		v := uval(b)
		zero, ones := v.Sign() == 0, v.Cmp(allOnes(s)) == 0
		switch op {
		case "and":
			if zero {
				return mkInt(s, 0)
			}
			if ones {
				return a
			}
		case "or":
			if zero {
				return a
			}
			if ones {
				return mkBig(s, allOnes(s))
			}
		case "xor":
			if zero {
				return a
			}
			if ones {
				return mkCompl(a)
			}
		}
	}
	if a == b {
		if op == "xor" {
			return mkInt(s, 0)
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app(s, op, "", a, b)
}

// mkShlK is the shift by a constant, kept apart from arithmetic.
func mkShlK(a, n *Term) *Term {
	switch {
	case a.isConst() || n.c.Cmp(big.NewInt(int64(a.sort.w))) >= 0:
		return mkShl(a, n)
	case n.c.Sign() == 0:
		return a
	case a.op == "shlk":
		k := new(big.Int).Add(n.c, a.args[1].c)
		if k.Cmp(big.NewInt(int64(a.sort.w))) >= 0 {
			return mkInt(a.sort, 0)
		}
		return app(a.sort, "shlk", "", a.args[0], mkBig(n.sort, k))
	}
	return app(a.sort, "shlk", "", a, n)
}

func mkShl(a, n *Term) *Term {
	if n.isConst() {
		if !n.c.IsInt64() || n.c.Int64() >= int64(a.sort.w) {
			return mkInt(a.sort, 0)
		}
		return linCombine(a.sort, pow2(int(n.c.Int64())), a)
	}
	if a.isConstV(0) {
		return a
	}
	return app(a.sort, "shl", "", a, n)
}

func mkShr(a, n *Term) *Term {
	if n.isConst() {
		if n.c.Sign() == 0 {
			return a
		}
		if a.isConst() {
			if !n.c.IsInt64() || n.c.Int64() > 200 {
				if a.c.Sign() < 0 {
					return mkInt(a.sort, -1)
				}
				return mkInt(a.sort, 0)
			}
			return mkBig(a.sort, new(big.Int).Rsh(a.c, uint(n.c.Int64())))
		}
		if !a.sort.signed && (!n.c.IsInt64() || n.c.Int64() >= int64(a.sort.w)) {
			return mkInt(a.sort, 0)
		}
	}
	return app(a.sort, "shr", "", a, n)
}

// comparisons
func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c.Cmp(b.c) < 0)
	}
	return app(sBool, "lt", "", a, b)
}
func mkLe(a, b *Term) *Term { return mkNot(mkLt(b, a)) }
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort.kind == 'i' && a.isConst() && b.isConst() {
		return mkBool(a.c.Cmp(b.c) == 0)
	}
	if a.sort.kind == 'b' {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		}
	}
	if a.op == "str" && b.op == "str" {
		return mkBool(a.str == b.str)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app(sBool, "eq", "", a, b)
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	switch t.op {
	case "lin":
		var b strings.Builder
		for i, m := range t.ms {
			s := m.coef.String()
			if s == "1" {
				s = ""
			} else if s == "-1" {
				s = "-"
			} else {
				s += "*"
			}
			if i > 0 && m.coef.Sign() > 0 {
				b.WriteString("+")
			}
			b.WriteString(s + m.atom.show(d-1))
		}
		if len(t.ms) == 0 || t.c.Sign() != 0 {
			if t.c.Sign() > 0 && len(t.ms) > 0 {
				b.WriteString("+")
			}
			b.WriteString(t.c.String())
		}
		return b.String()
	case "true", "false":
		return t.op
	case "sym":
		return t.str
	case "str":
		return fmt.Sprintf("%q", t.str)
	case "lt":
		return t.args[0].show(d-1) + "<" + t.args[1].show(d-1)
	case "eq":
		return t.args[0].show(d-1) + "==" + t.args[1].show(d-1)
	case "not":
		return "!(" + t.args[0].show(d-1) + ")"
	case "cell":
		s := t.args[0].show(d - 1)
		return s + t.pathString(d)
	case "deref":
		return t.args[0].show(d - 1)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.show(d-1))
	}
	n := t.op
	if t.str != "" {
		n += ":" + t.str
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

func (t *Term) pathString(d int) string {
	// str holds field names and '#' placeholders for indices
	var b strings.Builder
	k := 1
	for _, p := range strings.Split(t.str, ".") {
		if p == "" {
			continue
		}
		if p == "#" {
			if k < len(t.args) {
				b.WriteString("[" + t.args[k].show(d-1) + "]")
			}
			k++
		} else {
			b.WriteString("." + p)
		}
	}
	return b.String()
}

// subst replaces atoms in a term.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if x, ok := m[t]; ok {
		return x
	}
	if x, ok := memo[t]; ok {
		return x
	}
	var r *Term
	if t.op == "lin" {
		if len(t.ms) == 0 {
			return t
		}
		c := new(big.Int).Set(t.c)
		var ms []Mono
		for _, mo := range t.ms {
			at := subst(mo.atom, m, memo)
			// the atom stands for its integer value
			ac, am := at.monos()
			if at.op == "lin" && len(at.ms) > 0 && at.sort.w < t.sort.w {
				lo, hi := staticRange(at)
				if lo.Cmp(at.sort.min()) < 0 || hi.Cmp(at.sort.max()) > 0 {
					w := app(at.sort, "wrap", "", at)
					ac, am = big.NewInt(0), []Mono{{bigOne, w}}
				}
			}
			c.Add(c, new(big.Int).Mul(mo.coef, ac))
			for _, x := range am {
				ms = append(ms, Mono{new(big.Int).Mul(mo.coef, x.coef), x.atom})
			}
		}
		r = mkLin(t.sort, c, ms)
	} else if len(t.args) == 0 {
		r = t
	} else {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = subst(a, m, memo)
			ch = ch || args[i] != a
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "lt":
		return mkLt(args[0], args[1])
	case "eq":
		return mkEq(args[0], args[1])
	case "and", "or", "xor":
		if t.sort.kind == 'i' {
			return mkBit(t.op, args[0], args[1])
		}
	case "shl":
		return mkShl(args[0], args[1])
	case "shlk":
		return mkShlK(args[0], args[1])
	case "shr":
		return mkShr(args[0], args[1])
	case "mul":
		return mkMul(args[0], args[1])
	}
	n := app(t.sort, t.op, t.str, args...)
	n.typ = t.typ
	return n
}

// mentions reports whether t contains a sub-term satisfying p.
func mentions(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.ms {
			if rec(m.atom) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
