package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- clients: functions over the public interface, run from an arbitrary history ----

// mutableFields are the fields of repository structs that are stored to other than while
// building a fresh value.
func (r *Repo) mutableFields() map[string]bool {
	if r.mutf != nil {
		return r.mutf
	}
	r.mutf = map[string]bool{}
	for fn := range r.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if !freshBase(fa.X) {
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if n, ok := types.Unalias(pt).(*types.Named); ok {
							sn := pt.Underlying().(*types.Struct)
							r.mutf[n.Origin().Obj().Pkg().Path()+"."+n.Origin().Obj().Name()+"."+sn.Field(fa.Field).Name()] = true
						}
					}
					a = fa.X
				}
			}
		}
	}
	return r.mutf
}

func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

// havoc replaces everything that operations may change, reachable from v, by unknown
// values; fields fixed at construction keep theirs.
func (e *Engine) havoc(s *State, v Val, name string, parent *Obj, cls string) Val {
	switch x := v.(type) {
	case IfaceV:
		return IfaceV{dyn: x.dyn, v: e.havoc(s, x.v, name, parent, cls)}
	case PtrV:
		if x.obj == nil || !x.obj.fresh || len(x.path) > 0 {
			return v
		}
		n, ok := types.Unalias(x.obj.typ).(*types.Named)
		if !ok {
			return v
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || e.isOpaqueStruct(n) {
			return v
		}
		x.obj.root = 1
		e.havocFields(s, x.obj, nil, n, st, name)
		return x
	case MapV:
		if x.obj == nil {
			return v
		}
		o := getObj(opq("any", name), func() *Obj {
			return &Obj{kind: "sym", typ: x.obj.typ, parent: parent, cls: cls}
		})
		return MapV{obj: o}
	case SliceV:
		var et types.Type
		if x.obj != nil {
			et = x.obj.typ
		}
		if et == nil {
			return v
		}
		return e.symVal(s, opq("any", name), types.NewSlice(et), parent, cls)
	}
	return v
}

func (e *Engine) havocFields(s *State, o *Obj, path []Sel, n *types.Named, st *types.Struct, name string) {
	mut := e.repo.mutableFields()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sub := append(append([]Sel(nil), path...), Sel{field: i, name: f.Name()})
		cls := typeName(n) + "." + f.Name()
		fname := name + "." + f.Name()
		if ft, ok := types.Unalias(f.Type()).(*types.Named); ok {
			if fs, ok := ft.Underlying().(*types.Struct); ok && !e.isOpaqueStruct(ft) {
				e.havocFields(s, o, sub, ft, fs, fname)
				continue
			}
		}
		if mut[n.Origin().Obj().Pkg().Path()+"."+n.Origin().Obj().Name()+"."+f.Name()] {
			so := e.sortOf(f.Type())
			s.write(o, sub, e.symVal(s, app(so, "any", fname), f.Type(), o, cls), false)
			continue
		}
		v := e.readNoFork(s, o, sub, f.Type())
		if v == nil {
			continue
		}
		nv := e.havoc(s, v, fname, o, cls)
		if _, isIf := nv.(IfaceV); isIf || e.valTerm(nv) != e.valTerm(v) {
			s.write(o, sub, nv, false)
		}
	}
}

// ---- clients ----

// spec runs every client function of a package that asserts something for the property.
// A client exercises the public interface from an arbitrary history and states what must
// hold by clientAssert(property, rule, condition); each assertion is proved on every
// abstract path that reaches it.
func (c *Ctx) spec(pkg string, cfg Config) {
	p := c.repo.pkgs[pkg]
	if p == nil {
		c.unknown("%s: package not found", pkg)
		return
	}
	var names []string
	for n, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && c.repo.isClient(f) && !strings.HasPrefix(n, "clientHelp") && !strings.HasPrefix(n, "clientFor") && c.asserts(f) {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		c.unknown("%s: no client for %s (the public interface changed?)", pkg, c.prop)
	}
	sort.Strings(names)
	for _, n := range names {
		if f := os.Getenv("CHECKER_CLIENT"); f != "" && !strings.Contains(pkg+"."+n, f) {
			continue // debugging
		}
		if !strings.HasPrefix(n, "clientEvery") && !take(pkg+"."+n) {
			continue
		}
		if cfg := cfg; strings.HasPrefix(n, "clientFew") {
			cfg.Unroll = 300
			c.runClient(p.Func(n), pkg, cfg)
			continue
		}
		c.runClient(p.Func(n), pkg, cfg)
	}
}

// asserts: the client (or a client helper it calls) asserts something for the property.
func (c *Ctx) asserts(f *ssa.Function) bool {
	if c.visited[f] {
		return false
	}
	if c.visited == nil {
		c.visited = map[*ssa.Function]bool{}
	}
	c.visited[f] = true
	defer delete(c.visited, f)
	for _, g := range f.AnonFuncs {
		if c.asserts(g) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil {
				continue
			}
			if g.Name() == "clientAssert" || c.repo.isClient(g) && len(call.Call.Args) > 0 {
				if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), c.prop) {
					return true
				}
			}
			if g.Name() == "clientAssert" {
			} else if g.Origin() != nil && c.repo.isClient(g.Origin()) && c.asserts(g.Origin()) || c.repo.isClient(g) && c.asserts(g) {
				return true
			}
		}
	}
	return false
}

// innerInv assumes of an index table inside a container what C05 establishes of every
// index table after any history.
func (e *Engine) innerInv(s *State, v Val, pos token.Pos) {
	var size Val
	n := 0
	for _, ev := range s.events {
		if ev.kind == "note" && ev.cls == "NewTable" && (n == 0 || ev.val != size) {
			size = ev.val
			n++
		}
	}
	p := e.repo.pkgs["pkg/idxtable"]
	if n != 1 || p == nil || p.Func("clientInv") == nil {
		return
	}
	var found []Val
	var walk func(v Val, d int)
	walk = func(v Val, d int) {
		if d > 4 {
			return
		}
		switch x := v.(type) {
		case IfaceV:
			if pt, ok := x.dyn.(*types.Pointer); ok {
				if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() == p.Pkg {
					found = append(found, x)
					return
				}
			}
			walk(x.v, d+1)
		case PtrV:
			if x.obj == nil || len(x.path) > 0 {
				return
			}
			n, ok := types.Unalias(x.obj.typ).(*types.Named)
			if !ok {
				return
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok || e.isOpaqueStruct(n) {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if fv := e.readNoFork(s, x.obj, []Sel{{field: i, name: st.Field(i).Name()}}, st.Field(i).Type()); fv != nil {
					walk(fv, d+1)
				}
			}
		}
	}
	walk(v, 0)
	if len(found) == 1 {
		e.addSchemasWith(s, FuncV{fn: p.Func("clientInv")}, []Val{found[0], size}, pos)
	}
}

// sameConfig: the plain fields of two objects are equal.
func (e *Engine) sameConfig(s *State, a, b Val) *Term {
	at := func(v Val) (PtrV, *types.Struct) {
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		p, ok := v.(PtrV)
		if !ok || p.obj == nil || len(p.path) > 0 {
			panic(Undecided{msg: "configuration of an unknown object"})
		}
		st, ok := p.obj.typ.Underlying().(*types.Struct)
		if !ok {
			panic(Undecided{msg: "configuration of an unknown object"})
		}
		return p, st
	}
	p, st := at(a)
	q, su := at(b)
	same := st.NumFields() == su.NumFields() // type parameters differ in generic code
	for i := 0; same && i < st.NumFields(); i++ {
		same = st.Field(i).Name() == su.Field(i).Name()
	}
	if !same {
		panic(Undecided{msg: "configuration of objects of different types"})
	}
	var ts []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if bt, ok := f.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean|types.IsString) == 0 {
			continue
		}
		sel := []Sel{{field: i, name: f.Name()}}
		x, y := e.readNoFork(s, p.obj, sel, f.Type()), e.readNoFork(s, q.obj, sel, f.Type())
		if x == nil || y == nil {
			panic(Undecided{msg: "configuration of an unknown object"})
		}
		ts = append(ts, e.eqVals(s, x, y))
	}
	return mkAnd(ts...)
}

func strOf(v Val) string {
	if t, ok := v.(*Term); ok && t.op == "str" {
		return t.str
	}
	return "?"
}

func (c *Ctx) runClient(fn *ssa.Function, pkg string, cfg Config) {
	t0 := time.Now()
	k := &Client{c: c, name: pkg + "." + strings.TrimPrefix(fn.Name(), "client")}
	inner := cfg.Hook
	if cfg.NoPanic {
		cfg.OnPanic = func(s *State, pos token.Pos, what string) {
			at := c.repo.prog.Fset.Position(pos)
			if strings.HasSuffix(at.Filename, clientFile) || strings.HasSuffix(at.Filename, modelFile) {
				return
			}
			k.noPanic(s, fmt.Sprintf("%s:%d", strings.TrimPrefix(at.Filename, c.repo.dir+"/"), at.Line), what)
		}
	}
	cfg.Hook = func(e *Engine, s *State, n string, f *ssa.Function, args []Val, res types.Type, pos token.Pos) ([]RetState, bool) {
		if strings.HasSuffix(n, "idxtable.NewTable") && len(args) == 1 {
			s.log(&Event{kind: "note", cls: "NewTable", val: args[0]})
			return nil, false
		}
		if i := strings.LastIndexByte(n, '.'); i >= 0 && c.repo.isClient(f) {
			if r, ok := e.modelCall(c, k, s, n[i+1:], args, res, pos); ok {
				return r, true
			}
			switch n[i+1:] {
			case "clientHavoc":
				e.havoc(s, args[0], "t", nil, "")
				if pkg != "pkg/idxtable" {
					e.innerInv(s, args[0], pos)
				}
				return one(s, TupleV{}), true
			case "clientAssume":
				if !s.assume(args[0].(*Term), true) || !e.saturate(s) || !feasible(s) {
					return nil, true
				}
				return one(s, TupleV{}), true
			case "clientAssert":
				if !strings.Contains(strOf(args[0]), c.prop) {
					return one(s, TupleV{}), true
				}
				t := args[2].(*Term)
				k.check(s, t, strOf(args[1]))
				if !s.assume(t, true) {
					return nil, true
				}
				return one(s, TupleV{}), true
			case "clientForall":
				fv := args[0]
				if iv, ok := fv.(IfaceV); ok {
					fv = iv.v
				}
				f, ok := fv.(FuncV)
				if !ok {
					panic(Undecided{pos, "clientForall of an unknown function"})
				}
				e.addSchemas(s, f, pos)
				return one(s, TupleV{}), true
			case "clientEach":
				// the body for each value, always from here
				f, ok := args[2].(FuncV)
				lo, ok1 := args[0].(*Term)
				hi, ok2 := args[1].(*Term)
				if !ok || !ok1 || !ok2 || !lo.isConst() || !hi.isConst() {
					panic(Undecided{pos, "clientEach of unknown bounds"})
				}
				each := strings.HasPrefix(fn.Name(), "clientEvery") && k.depth == 0
				k.depth++
				defer func() { k.depth-- }()
				for i := lo.c.Int64(); i <= hi.c.Int64(); i++ {
					if v := os.Getenv("CHECKER_CASE"); each && v != "" && v != fmt.Sprint(i) {
						continue
					}
					if each && !take(fmt.Sprintf("%s.%d.%d", k.name, c.repo.prog.Fset.Position(pos).Line, i)) {
						continue
					}
					so := e.sortOf(f.fn.Signature.Params().At(0).Type())
					e.withFork(s.clone(), func(t *State) []RetState {
						rs := e.call(f.fn, []Val{mkInt(so, i)}, f.binds, t, 1, pos, "each"+itoa(int(i)))
						if os.Getenv("CHECKER_LEAVES") != "" {
							debugf("each %d: %d paths", i, len(rs))
							for _, r := range rs {
								debugf("  leaf panic=%v %s", r.panic, strings.Join(pathDetail(r.st), "; "))
								for _, c := range r.st.cons {
									debugf("    con %s", shortSites(c.String()))
								}
							}
						}
						return nil
					})
				}
				return one(s, TupleV{}), true
			case "clientSameConfig":
				return one(s, e.sameConfig(s, args[0], args[1])), true
			case "clientEq":
				return one(s, e.eqVals(s, args[0], args[1])), true
			case "clientContains":
				sl, ok := ifaceSlice(args[0])
				if !ok {
					if v, is := args[0].(IfaceV); is {
						sl, ok = v.v.(SliceV)
					}
				}
				v := args[1]
				if iv, is := v.(IfaceV); is && sl.obj != nil && !types.IsInterface(sl.obj.typ) {
					v = iv.v
				}
				return one(s, mkBool(ok && e.contains(s, sl, v))), true
			}
		}
		if cfg.IDSpec {
			if r, ok := e.idSpec(s, n, f, args); ok {
				return r, true
			}
		}
		if inner != nil {
			return inner(e, s, n, f, args, res, pos)
		}
		return nil, false
	}
	if cfg.IDSpec {
		cfg.Concretize = c.repo.concreteIDs(pkg)
	}
	e := newEngine(c.repo, cfg)
	k.e = e
	st := e.start(fn)
	rs, err := e.analyse(fn, e.symArgs(st, fn), st)
	for f := range e.funcs {
		if !c.repo.isClient(f) {
			c.fn(f)
		}
	}
	if err != nil {
		c.unknown("%s: %v", k.name, err)
	}
	c.paths += len(rs)
	debugf("client %s: %d paths, %v", k.name, len(rs), time.Since(t0))
}

var curRule string // for debugging

type Client struct {
	c    *Ctx
	e    *Engine
	name string
	// clientEach in progress
	depth int
}

// eqVals: deep equality of two values as far as terms tell.
func (e *Engine) eqVals(s *State, a, b Val) *Term {
	if x, ok := a.(IfaceV); ok {
		if y, ok := b.(IfaceV); ok && types.Identical(x.dyn, y.dyn) {
			return e.eqVals(s, x.v, y.v)
		}
	}
	ta, tb := e.argTerm(s, a), e.argTerm(s, b)
	if ta == tb {
		return tTrue
	}
	if ta.sort != tb.sort {
		return tFalse
	}
	return mkEq(ta, tb)
}

// check decides an assertion at the state that reached it.
func (k *Client) check(s *State, goal *Term, rule string) {
	c := k.c
	if s.dead {
		return
	}
	curRule = rule
	if k.e.proveCases(s, goal) {
		c.ok("%s: %s", k.name, rule)
		return
	}
	if w, wraps := impreciseIn(s, goal); w != "" && !(wraps && s.hasWitness(goal)) {
		c.unknown("%s: %s: not decided (%s)", k.name, rule, w)
		c.obls++
		return
	}
	d := []string{"goal: " + goal.show(6)}
	c.viol(k.name+": "+rule, k.where(rule), k.name+": not guaranteed: "+rule, append(d, pathDetail(s)...)...)
}

// noPanic: a path to a panic is not a path of any input.
func (k *Client) noPanic(s *State, at, what string) {
	if s.dead {
		return
	}
	rule := "does not fail at run time"
	curRule = rule
	if k.e.proveCases(s, tFalse) {
		k.c.ok("%s: %s", k.name, rule)
		return
	}
	if !s.hasWitness(tFalse) {
		k.c.unknown("%s: %s: not decided (%s %s)", k.name, rule, at, what)
		k.c.obls++
		return
	}
	k.c.viol(k.name+": "+rule, at, k.name+": "+what, pathDetail(s)...)
}

// proveCases proves the goal, splitting cases the memory model asks for.
func (e *Engine) proveCases(s *State, goal *Term) bool { return e.proveCasesD(s, goal, 5) }

func (e *Engine) proveCasesD(s *State, goal *Term, depth int) (res bool) {
	if depth == 0 {
		return false
	}
	if goal.op == "eq" && goal.args[0].sort.kind == 'b' {
		for _, v := range []bool{true, false} {
			t := s.clone()
			ok := false
			if !e.assumeSafe(t, goal.args[0], v, &ok) && ok {
				continue
			}
			g := goal.args[1]
			if !v {
				g = mkNot(g)
			}
			if !e.proveCasesD(t, g, depth-1) {
				return false
			}
		}
		return true
	}
	var fk *ForkOn
	func() {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(ForkOn); ok {
					fk = &f
					return
				}
				panic(x)
			}
		}()
		res = e.provesL(s, goal)
	}()
	if fk == nil {
		return res
	}
	a, b := s.split(*fk)
	return (a == nil || e.proveCasesD(a, goal, depth-1)) && (b == nil || e.proveCasesD(b, goal, depth-1))
}

// assumeSafe assumes b==v; ok tells that no case split was asked for.
func (e *Engine) assumeSafe(s *State, b *Term, v bool, ok *bool) (res bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(ForkOn); is {
				s.setLit(b, v)
				res = true
				return
			}
			panic(x)
		}
	}()
	res = s.assume(b, v)
	*ok = true
	return
}

// where is the source position an assertion is about: the rule starts with the name of
// the operation.
func (k *Client) where(rule string) string {
	op := rule
	if i := strings.IndexByte(rule, ':'); i > 0 {
		op = rule[:i]
	}
	best := ""
	for f := range k.e.funcs {
		if !k.c.repo.isClient(f) && f.Name() == op {
			p := k.c.repo.fnPos(f)
			if best == "" || p < best {
				best = p
			}
		}
	}
	if best == "" {
		for f := range k.e.funcs {
			if p := k.c.repo.fnPos(f); !k.c.repo.isClient(f) && (best == "" || p < best) {
				best = p
			}
		}
	}
	return best
}

// wrapOps: the decision procedure for them is incomplete, their values are exact.
var wrapOps = map[string]bool{"wrap": true, "quot": true, "and": true, "or": true, "xor": true, "shl": true, "shlk": true, "shr": true, "lz": true, "mul": true, "last": true, "mask": true, "overl": true}

var impreciseOps = map[string]bool{"hv": true, "hvv": true, "chose": true, "callres": true}

// impreciseIn names an approximated value the state or goal depends on, "" if exact.
// wraps: nothing but integers that wrap around are.
func impreciseIn(s *State, goal *Term) (bad string, wraps bool) {
	wraps = true
	rel := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if rel[t] {
			return
		}
		rel[t] = true
		if impreciseOps[t.op] || wrapOps[t.op] || (t.op == "has" || t.op == "mapval") && len(t.args) > 0 && t.args[0].op == "epoch" {
			if bad == "" || wraps {
				bad = t.show(3)
			}
			wraps = wraps && wrapOps[t.op]
		}
		if t.op == "ins" || t.op == "iter" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.ms {
			walk(m.atom)
		}
	}
	if goal != nil {
		walk(goal)
	}
	for _, l := range s.litOrd {
		walk(l)
	}
	for _, c := range s.cons {
		for _, m := range c.ms {
			walk(m.atom)
		}
	}
	return bad, wraps
}
