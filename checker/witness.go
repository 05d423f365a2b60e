package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Confirmation of an alarm at a state whose integers wrap around: values of the unknowns
// that satisfy every constraint of the state, evaluated exactly, and contradict the goal.
// Without them the goal is left undecided.

type wit struct {
	cons  []LinExpr
	nes   []LinExpr
	atoms []*Term
	by    map[*Term][]int
	lo    map[*Term]*big.Int
	hi    map[*Term]*big.Int
	rnd   *rand.Rand
	vals  map[*Term]*big.Int // during evaluation
	lits  map[*Term]bool
}

func evalOps(op string) bool {
	switch op {
	case "wrap", "and", "or", "xor", "shl", "shlk", "shr", "mul", "lz", "quot", "last", "mask":
		return true
	}
	return false
}

// hasWitness reports that values were found with which the state is reached and the goal
// does not hold.
func (s *State) hasWitness(goal *Term) (found bool) {
	t := s.clone()
	ok := true
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(ForkOn); is {
					// assume it as a literal only
					t = s.clone()
					t.setLit(goal, false)
					return
				}
				panic(x)
			}
		}()
		ok = t.assume(goal, false)
	}()
	if !ok {
		return false
	}
	w := &wit{lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}, by: map[*Term][]int{}, rnd: rand.New(rand.NewSource(1)), lits: t.lits.all()}
	w.nes = t.nes
	seen := map[*Term]bool{}
	var addC func(c LinExpr)
	var addT func(x *Term)
	addT = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			addT(a)
		}
		for _, m := range x.ms {
			addT(m.atom)
		}
		if x.sort.kind == 'i' && x.op != "lin" {
			w.atoms = append(w.atoms, x)
			lo, hi := atomRange(x)
			w.lo[x], w.hi[x] = lo, hi
			for _, f := range atomFacts(x) {
				addC(f)
			}
		}
	}
	addC = func(c LinExpr) {
		if len(c.ms) > 1 || len(c.ms) == 1 {
			w.cons = append(w.cons, c)
		}
		for _, m := range c.ms {
			addT(m.atom)
		}
	}
	for _, c := range t.cons {
		addC(c)
	}
	for _, c := range t.nes {
		for _, m := range c.ms {
			addT(m.atom)
		}
	}
	for _, l := range t.litOrd {
		addT(l)
	}
	for i, c := range w.cons {
		for _, m := range c.ms {
			w.by[m.atom] = append(w.by[m.atom], i)
		}
	}
	if !w.propagate(nil) {
		return false
	}
	lo0, hi0 := w.save()
	end := time.Now().Add(1500 * time.Millisecond)
	for try := 0; try < 600 && time.Now().Before(end); try++ {
		w.restore(lo0, hi0)
		if !w.label(try) {
			continue
		}
		if why := w.verify(t); why == "" {
			if debug {
				debugf("witness: %s", w.String())
			}
			return true
		} else if debug && try < 3 {
			debugf("no witness: %s", why)
		}
	}
	return false
}

func (w *wit) String() string {
	var p []string
	for _, a := range w.atoms {
		p = append(p, shortSites(a.show(3))+"="+w.lo[a].String())
	}
	sort.Strings(p)
	return strings.Join(p, " ")
}

func (w *wit) save() (lo, hi map[*Term]*big.Int) {
	lo, hi = map[*Term]*big.Int{}, map[*Term]*big.Int{}
	for k, v := range w.lo {
		lo[k] = v
	}
	for k, v := range w.hi {
		hi[k] = v
	}
	return
}

func (w *wit) restore(lo, hi map[*Term]*big.Int) {
	for k, v := range lo {
		w.lo[k] = v
	}
	for k, v := range hi {
		w.hi[k] = v
	}
}

// propagate narrows the ranges by the constraints on the given atoms (all if nil).
func (w *wit) propagate(from []*Term) bool {
	var queue []int
	in := make([]bool, len(w.cons))
	push := func(i int) {
		if !in[i] {
			in[i] = true
			queue = append(queue, i)
		}
	}
	if from == nil {
		for i := range w.cons {
			push(i)
		}
	}
	for _, a := range from {
		for _, i := range w.by[a] {
			push(i)
		}
	}
	for steps := 0; len(queue) > 0 && steps < 4000; steps++ {
		i := queue[0]
		queue = queue[1:]
		in[i] = false
		c := w.cons[i]
		// c + sum co*x >= 0: the largest value of the rest bounds each x
		max := new(big.Int).Set(c.c)
		for _, m := range c.ms {
			if m.coef.Sign() > 0 {
				max.Add(max, new(big.Int).Mul(m.coef, w.hi[m.atom]))
			} else {
				max.Add(max, new(big.Int).Mul(m.coef, w.lo[m.atom]))
			}
		}
		if max.Sign() < 0 {
			return false
		}
		for _, m := range c.ms {
			a := m.atom
			if m.coef.Sign() > 0 {
				// co*x >= -(max - co*hi)
				r := new(big.Int).Sub(max, new(big.Int).Mul(m.coef, w.hi[a]))
				r.Neg(r)
				b := floorDiv(new(big.Int).Add(r, new(big.Int).Sub(m.coef, bigOne)), m.coef)
				if b.Cmp(w.lo[a]) > 0 {
					w.lo[a] = b
					for _, j := range w.by[a] {
						push(j)
					}
				}
			} else {
				co := new(big.Int).Neg(m.coef)
				r := new(big.Int).Add(max, new(big.Int).Mul(co, w.lo[a]))
				b := floorDiv(r, co)
				if b.Cmp(w.hi[a]) < 0 {
					w.hi[a] = b
					for _, j := range w.by[a] {
						push(j)
					}
				}
			}
			if w.lo[a].Cmp(w.hi[a]) > 0 {
				return false
			}
		}
	}
	return true
}

func (w *wit) fixed(t *Term) bool {
	if t.op != "lin" {
		if t.sort.kind != 'i' {
			return false
		}
		l, ok := w.lo[t]
		return ok && l.Cmp(w.hi[t]) == 0
	}
	for _, m := range t.ms {
		if !w.fixed(m.atom) {
			return false
		}
	}
	return true
}

func (w *wit) label(try int) bool {
	order := append([]*Term(nil), w.atoms...)
	w.rnd.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	// computed atoms last
	sort.SliceStable(order, func(i, j int) bool { return rank(order[i]) < rank(order[j]) })
	for _, a := range order {
		if w.lo[a].Cmp(w.hi[a]) == 0 {
			continue
		}
		var v *big.Int
		if evalOps(a.op) && a.op != "quot" {
			all := true
			for _, x := range a.args {
				all = all && w.fixed(x)
			}
			if all {
				v = w.compute(a)
				if v == nil || v.Cmp(w.lo[a]) < 0 || v.Cmp(w.hi[a]) > 0 {
					return false
				}
			}
		}
		if v == nil {
			v = w.pick(w.lo[a], w.hi[a], try)
		}
		w.lo[a], w.hi[a] = v, v
		if !w.propagate([]*Term{a}) {
			return false
		}
	}
	return true
}

func rank(a *Term) int {
	if !evalOps(a.op) {
		return 0
	}
	r := 1
	for _, x := range a.args {
		if k := rank(x) + 1; k > r && r < 6 {
			r = k
		}
		for _, m := range x.ms {
			if k := rank(m.atom) + 1; k > r && r < 6 {
				r = k
			}
		}
	}
	return r
}

func (w *wit) pick(lo, hi *big.Int, try int) *big.Int {
	span := new(big.Int).Sub(hi, lo)
	clamp := func(v *big.Int) *big.Int {
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			return new(big.Int).Set(lo)
		}
		return v
	}
	switch w.rnd.Intn(9) {
	case 0, 1:
		return new(big.Int).Set(lo)
	case 2:
		return new(big.Int).Set(hi)
	case 3:
		return clamp(new(big.Int).Add(lo, big.NewInt(int64(1+w.rnd.Intn(5)))))
	case 4:
		return clamp(new(big.Int).Sub(hi, big.NewInt(int64(1+w.rnd.Intn(5)))))
	case 5:
		return new(big.Int).Add(lo, new(big.Int).Rsh(span, 1))
	case 6:
		return clamp(new(big.Int).Add(pow2([]int{8, 16, 31, 32, 63, 64}[w.rnd.Intn(6)]), big.NewInt(int64(w.rnd.Intn(5)-2))))
	case 7:
		return clamp(big.NewInt(int64(w.rnd.Intn(300))))
	}
	if span.BitLen() == 0 {
		return new(big.Int).Set(lo)
	}
	r := new(big.Int).Rand(w.rnd, new(big.Int).Add(span, bigOne))
	return r.Add(r, lo)
}

// exact is the linear form's value without wrapping.
func (w *wit) exact(t *Term) *big.Int {
	c, ms := t.monos()
	v := new(big.Int).Set(c)
	for _, m := range ms {
		x, ok := w.lo[m.atom]
		if !ok {
			return nil
		}
		v.Add(v, new(big.Int).Mul(m.coef, x))
	}
	return v
}

func (w *wit) value(t *Term) *big.Int {
	v := w.exact(t)
	if v == nil {
		return nil
	}
	return valMod(v, t.sort)
}

func (w *wit) compute(a *Term) *big.Int {
	var xs []*big.Int
	for _, x := range a.args {
		v := w.value(x)
		if v == nil {
			return nil
		}
		xs = append(xs, v)
	}
	u := func(i int) *big.Int { return new(big.Int).Mod(xs[i], pow2(a.args[i].sort.w)) }
	switch a.op {
	case "wrap":
		return valMod(w.exact(a.args[0]), a.sort)
	case "quot":
		t := a.args[0]
		return floorDiv(new(big.Int).Sub(w.exact(t), t.sort.min()), pow2(t.sort.w))
	case "and":
		return valMod(new(big.Int).And(u(0), u(1)), a.sort)
	case "or":
		return valMod(new(big.Int).Or(u(0), u(1)), a.sort)
	case "xor":
		return valMod(new(big.Int).Xor(u(0), u(1)), a.sort)
	case "mul":
		return valMod(new(big.Int).Mul(xs[0], xs[1]), a.sort)
	case "shl", "shlk":
		if !xs[1].IsInt64() || xs[1].Int64() >= int64(a.sort.w) {
			return new(big.Int)
		}
		return valMod(new(big.Int).Lsh(xs[0], uint(xs[1].Int64())), a.sort)
	case "shr":
		if !xs[1].IsInt64() || xs[1].Int64() >= int64(a.sort.w) {
			if xs[0].Sign() < 0 {
				return big.NewInt(-1)
			}
			return new(big.Int)
		}
		return new(big.Int).Rsh(xs[0], uint(xs[1].Int64()))
	case "mask":
		w, _ := strconv.Atoi(a.str)
		if !xs[1].IsInt64() || xs[1].Int64() >= int64(w) {
			return u(0)
		}
		return new(big.Int).AndNot(u(0), new(big.Int).Sub(pow2(w-int(xs[1].Int64())), bigOne))
	case "last":
		w := int64(a.sort.w)
		if !xs[1].IsInt64() || xs[1].Int64() >= w {
			return u(0)
		}
		return new(big.Int).Or(u(0), new(big.Int).Sub(pow2(int(w-xs[1].Int64())), bigOne))
	case "lz":
		return big.NewInt(int64(a.args[0].sort.w - u(0).BitLen()))
	}
	return nil
}

// key names a term up to the values of its integers.
func (w *wit) key(t *Term, memo map[*Term]string) string {
	if k, ok := memo[t]; ok {
		return k
	}
	var k string
	if v := w.value(t); t.sort.kind == 'i' && v != nil {
		k = "#" + v.String()
	} else {
		k = w.shape(t, memo)
	}
	memo[t] = k
	return k
}

func (w *wit) shape(t *Term, memo map[*Term]string) string {
	if len(t.args) == 0 {
		return fmt.Sprint("t", t.id)
	}
	p := []string{t.op, t.str}
	for _, a := range t.args {
		p = append(p, w.key(a, memo))
	}
	return strings.Join(p, "(") + ")"
}

// eval is a boolean term's value: 1 true, -1 false, 0 not determined by the integers.
func (w *wit) eval(b *Term) int {
	neg := func(ok bool) int {
		if ok {
			return 1
		}
		return -1
	}
	switch b.op {
	case "true":
		return 1
	case "false":
		return -1
	case "overl":
		var xs [4]*big.Int
		for i, x := range b.args {
			if xs[i] = w.value(x); xs[i] == nil {
				return 0
			}
		}
		wd := int64(b.args[0].sort.w)
		l := xs[1].Int64()
		if xs[3].Int64() < l {
			l = xs[3].Int64()
		}
		if l > wd {
			l = wd
		}
		return neg(new(big.Int).Rsh(new(big.Int).Xor(xs[0], xs[2]), uint(wd-l)).Sign() == 0)
	case "not":
		return -w.eval(b.args[0])
	case "band", "bor":
		z := -1
		if b.op == "bor" {
			z = 1
		}
		r := -z
		for _, a := range b.args {
			switch v := w.eval(a); {
			case v == z:
				return z
			case v == 0:
				r = 0
			}
		}
		return r
	case "lt", "eq":
		if b.args[0].sort.kind == 'i' {
			x, y := w.value(b.args[0]), w.value(b.args[1])
			if x == nil || y == nil {
				return 0
			}
			if b.op == "lt" {
				return neg(x.Cmp(y) < 0)
			}
			return neg(x.Cmp(y) == 0)
		}
	}
	if v, ok := w.lits[b]; ok {
		return neg(v)
	}
	return 0
}

// verify checks the assignment exactly; it names what fails, "" if nothing does.
func (w *wit) verify(s *State) string {
	for _, c := range w.cons {
		v := new(big.Int).Set(c.c)
		for _, m := range c.ms {
			v.Add(v, new(big.Int).Mul(m.coef, w.lo[m.atom]))
		}
		if v.Sign() < 0 {
			return "constraint " + c.String()
		}
	}
	for _, c := range w.nes {
		v := new(big.Int).Set(c.c)
		for _, m := range c.ms {
			v.Add(v, new(big.Int).Mul(m.coef, w.lo[m.atom]))
		}
		if v.Sign() == 0 {
			return "disequality " + c.String()
		}
	}
	memo := map[*Term]string{}
	fn := map[string]*big.Int{}
	for _, a := range w.atoms {
		if evalOps(a.op) {
			if v := w.compute(a); v == nil || v.Cmp(w.lo[a]) != 0 {
				return "value of " + a.show(4)
			}
		}
		if len(a.args) > 0 {
			k := w.shape(a, memo)
			if v, ok := fn[k]; ok && v.Cmp(w.lo[a]) != 0 {
				return "congruence of " + a.show(4)
			}
			fn[k] = w.lo[a]
		}
	}
	bs := map[string]bool{}
	for _, l := range s.litOrd {
		v := s.lits.get(l)
		if x := w.eval(l); x != 0 && (x == 1) != v {
			return "condition " + l.show(4)
		}
		switch l.op {
		case "lt", "band", "bor", "not":
			continue
		case "eq":
			if l.args[0].sort.kind == 'i' {
				continue
			}
			if k0, k1 := w.key(l.args[0], memo), w.key(l.args[1], memo); k0 == k1 && !v {
				return "identity " + l.show(4)
			}
		}
		k := w.shape(l, memo)
		if o, ok := bs[k]; ok && o != v {
			return "congruence of " + l.show(4)
		}
		bs[k] = v
	}
	return ""
}
