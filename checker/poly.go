package main

import (
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// LinExpr is an exact integer linear expression (no modulus) over atoms.
type LinExpr struct {
	c  *big.Int
	ms []Mono // sorted by atom id, non-zero coefs
}

func leConst(c *big.Int) LinExpr { return LinExpr{c: c} }

func leAdd(a LinExpr, ka int64, b LinExpr, kb int64) LinExpr {
	return leAddB(a, big.NewInt(ka), b, big.NewInt(kb))
}

func leAddB(a LinExpr, ka *big.Int, b LinExpr, kb *big.Int) LinExpr {
	r := LinExpr{c: new(big.Int).Add(new(big.Int).Mul(ka, a.c), new(big.Int).Mul(kb, b.c))}
	i, j := 0, 0
	for i < len(a.ms) || j < len(b.ms) {
		switch {
		case j >= len(b.ms) || (i < len(a.ms) && a.ms[i].atom.id < b.ms[j].atom.id):
			co := new(big.Int).Mul(ka, a.ms[i].coef)
			if co.Sign() != 0 {
				r.ms = append(r.ms, Mono{co, a.ms[i].atom})
			}
			i++
		case i >= len(a.ms) || b.ms[j].atom.id < a.ms[i].atom.id:
			co := new(big.Int).Mul(kb, b.ms[j].coef)
			if co.Sign() != 0 {
				r.ms = append(r.ms, Mono{co, b.ms[j].atom})
			}
			j++
		default:
			co := new(big.Int).Add(new(big.Int).Mul(ka, a.ms[i].coef), new(big.Int).Mul(kb, b.ms[j].coef))
			if co.Sign() != 0 {
				r.ms = append(r.ms, Mono{co, a.ms[i].atom})
			}
			i++
			j++
		}
	}
	return r
}

func leTerm(t *Term) LinExpr { // exact linear form of the term, caller guarantees no wrap
	c, ms := t.monos()
	return LinExpr{c: new(big.Int).Set(c), ms: append([]Mono(nil), ms...)}
}

func (e LinExpr) addConst(k int64) LinExpr {
	return LinExpr{c: new(big.Int).Add(e.c, big.NewInt(k)), ms: e.ms}
}

func (e LinExpr) neg() LinExpr { return leAdd(e, -1, LinExpr{c: new(big.Int)}, 0) }

func (e LinExpr) vkey() string { return string(e.appendKey(make([]byte, 0, 24*len(e.ms)+24))) }

func (e LinExpr) appendKey(b []byte) []byte {
	for _, m := range e.ms {
		b = strconv.AppendInt(b, int64(m.atom.id), 36)
		b = append(b, ':')
		b = appendBig(b, m.coef)
		b = append(b, ',')
	}
	return b
}

func appendBig(b []byte, x *big.Int) []byte {
	if x.IsInt64() {
		return strconv.AppendInt(b, x.Int64(), 36)
	}
	return x.Append(b, 36)
}

func (e LinExpr) key() string {
	b := e.appendKey(make([]byte, 0, 24*len(e.ms)+48))
	return string(appendBig(append(b, '|'), e.c))
}

func (e LinExpr) String() string {
	s := intern(&Term{op: "lin", sort: Sort{'i', 4000, true}, c: e.c, ms: e.ms})
	return s.String()
}

// normalise divides by the gcd of the coefficients, tightening the constant.
func (e LinExpr) norm() LinExpr {
	if len(e.ms) == 0 {
		return e
	}
	g := new(big.Int)
	for _, m := range e.ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
	}
	if g.Cmp(bigOne) == 0 {
		return e
	}
	r := LinExpr{c: floorDiv(e.c, g)}
	for _, m := range e.ms {
		r.ms = append(r.ms, Mono{new(big.Int).Quo(m.coef, g), m.atom})
	}
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q // Euclidean division with b>0 is floor
}

func (e LinExpr) coefOf(a *Term) *big.Int {
	for _, m := range e.ms {
		if m.atom == a {
			return m.coef
		}
	}
	return nil
}

// atomFacts are inequalities that hold for an atom by construction.
func atomFacts(a *Term) []LinExpr {
	at := LinExpr{c: new(big.Int), ms: []Mono{{bigOne, a}}}
	lo, hi := atomRange(a)
	out := []LinExpr{
		leAddB(at, bigOne, leConst(new(big.Int).Neg(lo)), bigOne),
		leAddB(at, big.NewInt(-1), leConst(hi), bigOne),
	}
	exactArg := func(t *Term) (LinExpr, bool) {
		lo, hi := staticRange(t)
		if lo.Cmp(t.sort.min()) >= 0 && hi.Cmp(t.sort.max()) <= 0 {
			return leTerm(t), true
		}
		return LinExpr{}, false
	}
	switch a.op {
	case "wrap":
		out = append(out, wrapFacts(a)...)
	case "and":
		if !a.sort.signed {
			for _, x := range a.args {
				if e, ok := exactArg(x); ok {
					out = append(out, leAdd(e, 1, at, -1))
				}
			}
		}
	case "or":
		if !a.sort.signed {
			for _, x := range a.args {
				if e, ok := exactArg(x); ok {
					out = append(out, leAdd(at, 1, e, -1))
				}
			}
		}
	case "shr":
		if a.args[1].isConst() && a.args[1].c.IsInt64() && a.args[1].c.Int64() < 200 {
			if e, ok := exactArg(a.args[0]); ok {
				p := pow2(int(a.args[1].c.Int64()))
				out = append(out, leAddB(e, bigOne, at, new(big.Int).Neg(p)))
				x := leAddB(e, big.NewInt(-1), at, p)
				x.c = new(big.Int).Add(x.c, new(big.Int).Sub(p, bigOne))
				out = append(out, x)
			}
		}
	}
	return out
}

type polyCache map[string]bool

var feasCache = polyCache{}
var polyQueries, polySolved int

// infeasible reports that the integer constraints (each >= 0) have no solution;
// false means a solution may exist.
func infeasible(cons []LinExpr, seed LinExpr) bool {
	checkDeadline()
	polyQueries++
	// relevance closure from the seed
	rel := map[*Term]bool{}
	for _, m := range seed.ms {
		rel[m.atom] = true
	}
	used := make([]bool, len(cons))
	set := []LinExpr{seed}
	if k, ok := keyCut(seed); ok {
		set = append(set, k)
	}
	for {
		ch := false
		for i, c := range cons {
			if used[i] {
				continue
			}
			hit := false
			for _, m := range c.ms {
				if rel[m.atom] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				set = append(set, c)
				if k, ok := keyCut(c); ok {
					set = append(set, k)
				}
				for _, m := range c.ms {
					rel[m.atom] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	// atom facts (may bring further atoms)
	done := map[*Term]bool{}
	for {
		var todo []*Term
		for a := range rel {
			if !done[a] {
				todo = append(todo, a)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
		for _, a := range todo {
			done[a] = true
			for _, f := range atomFacts(a) {
				set = append(set, f)
				for _, m := range f.ms {
					rel[m.atom] = true
				}
			}
		}
	}
	keys := make([]string, len(set))
	for i, c := range set {
		keys[i] = c.key()
	}
	sort.Strings(keys)
	k := strings.Join(keys, ";")
	if v, ok := feasCache[k]; ok {
		return v
	}
	polySolved++
	v := fourierMotzkin(set)
	feasCache[k] = v
	return v
}

// fourierMotzkin returns true if the constraints are contradictory.
func fourierMotzkin(in []LinExpr) bool {
	cur := map[string]LinExpr{}
	contra := false
	add := func(e LinExpr) {
		e = e.norm()
		if len(e.ms) == 0 {
			if e.c.Sign() < 0 {
				contra = true
			}
			return
		}
		k := e.vkey()
		if o, ok := cur[k]; ok && o.c.Cmp(e.c) <= 0 {
			return
		}
		cur[k] = e
	}
	for _, e := range in {
		add(e)
		if contra {
			return true
		}
	}
	for steps := 0; steps < 400; steps++ {
		if contra {
			return true
		}
		if len(cur) == 0 {
			return false
		}
		if len(cur) > 1500 {
			return false
		}
		// equalities: e and -e with c sum 0 -> substitute if unit coefficient
		if eq, atom, ok := findEq(cur); ok {
			co := eq.coefOf(atom) // ±1
			old := cur
			cur = map[string]LinExpr{}
			for _, e := range old {
				x := e.coefOf(atom)
				if x == nil {
					add(e)
					continue
				}
				// e - (x/co)*eq
				f := new(big.Int).Mul(x, co) // co=±1 so x/co = x*co
				add(leAddB(e, bigOne, eq, new(big.Int).Neg(f)))
				if contra {
					return true
				}
			}
			continue
		}
		// choose the variable with the fewest combinations
		type pn struct{ p, n int }
		cnt := map[*Term]*pn{}
		for _, e := range cur {
			for _, m := range e.ms {
				x := cnt[m.atom]
				if x == nil {
					x = &pn{}
					cnt[m.atom] = x
				}
				if m.coef.Sign() > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		var best *Term
		bc := 0
		for a, x := range cnt {
			cost := x.p*x.n - x.p - x.n
			if best == nil || cost < bc || (cost == bc && a.id < best.id) {
				best, bc = a, cost
			}
		}
		var pos, neg []LinExpr
		old := cur
		cur = map[string]LinExpr{}
		for _, e := range old {
			x := e.coefOf(best)
			switch {
			case x == nil:
				cur[e.vkey()] = e
			case x.Sign() > 0:
				pos = append(pos, e)
			default:
				neg = append(neg, e)
			}
		}
		for _, p := range pos {
			cp := p.coefOf(best)
			for _, n := range neg {
				cn := new(big.Int).Neg(n.coefOf(best))
				add(leAddB(p, cn, n, cp))
				if contra {
					return true
				}
			}
		}
	}
	return false
}

func findEq(cur map[string]LinExpr) (LinExpr, *Term, bool) {
	var keys []string
	for k := range cur {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := cur[k]
		n := e.neg()
		o, ok := cur[n.vkey()]
		if !ok {
			continue
		}
		s := new(big.Int).Add(e.c, o.c)
		if s.Sign() != 0 {
			continue
		}
		for _, m := range e.ms {
			if m.coef.CmpAbs(bigOne) == 0 {
				return e, m.atom, true
			}
		}
	}
	return LinExpr{}, nil, false
}

// quotFacts links wrap(t) to the exact linear form of t.
func wrapFacts(a *Term) []LinExpr {
	t := a.args[0]
	q := app(Sort{'i', 130, true}, "quot", "", t)
	e := leTerm(t)
	d := leAdd(e, 1, LinExpr{c: new(big.Int), ms: []Mono{{bigOne, a}}}, -1)
	d = leAddB(d, bigOne, LinExpr{c: new(big.Int), ms: []Mono{{bigOne, q}}}, new(big.Int).Neg(pow2(t.sort.w)))
	lo, hi := staticRange(t)
	qa := LinExpr{c: new(big.Int), ms: []Mono{{bigOne, q}}}
	w := pow2(t.sort.w)
	qlo := floorDiv(new(big.Int).Sub(lo, t.sort.min()), w)
	qhi := floorDiv(new(big.Int).Sub(hi, t.sort.min()), w)
	return []LinExpr{d, d.neg(), leAddB(qa, bigOne, leConst(new(big.Int).Neg(qlo)), bigOne), leAddB(qa, big.NewInt(-1), leConst(qhi), bigOne)}
}

// deadline bounds one analysis; passing it makes the analysis undecided.
var deadline time.Time

// budget is what one analysis may take: less when the run as a whole takes long.
func budget() time.Duration {
	switch run := time.Since(started); {
	case run > 9*time.Minute:
		return time.Second / 2
	case run > 5*time.Minute:
		return 3 * time.Second
	case overruns > 0:
		return 40 * time.Second
	}
	return 240 * time.Second
}

// started is when the run began; a process that takes part in it is told.
var started = func() time.Time {
	if n, err := strconv.ParseInt(os.Getenv("CHECKER_START"), 10, 64); err == nil {
		return time.Unix(n, 0)
	}
	return time.Now()
}()

// overruns counts the analyses of this process that exceeded their budget.
var overruns int
var deadlineTick int

func checkDeadline() {
	deadlineTick++
	if deadlineTick%64 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		overruns++
		panic(Undecided{msg: "analysis budget exceeded"})
	}
}

var big256 = big.NewInt(256)

// keyCut: 256*a + r >= 0 and r <= 255 give a >= 0 (keys are compared part by part).
func keyCut(c LinExpr) (LinExpr, bool) {
	n := 0
	for _, m := range c.ms {
		if m.coef.IsInt64() && m.coef.Int64()&255 == 0 {
			n++
		}
	}
	if n == 0 {
		return c, false
	}
	a := LinExpr{c: new(big.Int)}
	r := LinExpr{c: new(big.Int)}
	q, rem := new(big.Int).DivMod(c.c, big256, new(big.Int))
	a.c, r.c = q, rem
	for _, m := range c.ms {
		q, rem := new(big.Int).DivMod(m.coef, big256, new(big.Int))
		if rem.Sign() == 0 {
			a.ms = append(a.ms, Mono{q, m.atom})
		} else {
			r.ms = append(r.ms, m)
		}
	}
	if len(r.ms) > 4 {
		return c, false
	}
	hi := new(big.Int).Set(r.c)
	for _, m := range r.ms {
		lo, up := staticRange(m.atom)
		if m.coef.Sign() > 0 {
			hi.Add(hi, new(big.Int).Mul(m.coef, up))
		} else {
			hi.Add(hi, new(big.Int).Mul(m.coef, lo))
		}
	}
	// a >= -hi/256
	a.c = new(big.Int).Add(a.c, new(big.Int).Div(hi, big256))
	if len(r.ms) == 0 {
		return c, false
	}
	return a, true
}
