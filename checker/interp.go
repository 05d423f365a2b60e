package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Config selects how calls are treated in one analysis.
type Config struct {
	// Opaque: treat the repo function as an API call instead of inlining it.
	Opaque func(fn *ssa.Function) bool
	// Invoke: resolve an interface method call on an opaque value.
	IDSpec     bool // IDs of unknown length: overlap and last ID by specification (C13)
	Concretize func(e *Engine, s *State, ct *Term, t types.Type) Val
	// API: interface types whose methods are events with fresh results.
	Unroll int
	// KeepShl: shifts of unknown values are not multiplications
	KeepShl bool
	// Subst: client functions that stand for functions of the package; Rec: for every
	// recursive call (the contract of the recursive function)
	Subst    map[string]string
	Rec      string
	MaxDepth int
	// OnPanic: a panic statement, or an index out of any range, on a path
	OnPanic func(s *State, pos token.Pos, what string)
	NoPanic bool
	Reads   bool // log reads
	Hook    func(e *Engine, s *State, name string, fn *ssa.Function, args []Val, res types.Type, pos token.Pos) ([]RetState, bool)
	MaxOut  int
}

type Engine struct {
	repo    *Repo
	cfg     Config
	uid     int
	loops   map[*ssa.Function]*loopInfo
	glob    map[*ssa.Package]*State
	tabs    map[string][]*big.Int
	nOut    int
	funcs   map[*ssa.Function]bool // analysed
	sites   int
	stepN   int
	inEpoch int
	// effect summaries of opaque functions, by name
	summaries map[string]effect
	rangeOf   map[*Term]MapIterV
}

func newEngine(r *Repo, cfg Config) *Engine {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	if cfg.MaxOut == 0 {
		cfg.MaxOut = 400000
	}
	return &Engine{repo: r, cfg: cfg, loops: map[*ssa.Function]*loopInfo{}, glob: map[*ssa.Package]*State{}, tabs: map[string][]*big.Int{}, funcs: map[*ssa.Function]bool{}, rangeOf: map[*Term]MapIterV{}}
}

type RetState struct {
	st    *State
	ret   Val
	panic bool
}

type Outcome struct {
	kind string // ret, panic, back
	st   *State
	ret  Val
	loop *activeLoop
	env  map[ssa.Value]Val
	from *ssa.BasicBlock
	pos  token.Pos
}

type activeLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	disc bool // discovery: paths leaving the loop are dropped
	rec  *LoopRec
}

type deferRec struct {
	d    *ssa.Defer
	args []Val
	fn   Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	defers []deferRec
	active []*activeLoop
	visits map[*ssa.BasicBlock]int
	call   string
	depth  int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.active = f.active[:len(f.active):len(f.active)]
	if f.visits != nil {
		n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			n.visits[k] = v
		}
	}
	return &n
}

func body(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if len(fn.Blocks) == 0 && fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn
}

// Run analyses fn from the given state and arguments.
func (e *Engine) Run(fn *ssa.Function, args []Val, st *State) []RetState {
	return e.call(fn, args, nil, st, 0, token.NoPos, "")
}

func (e *Engine) call(fn *ssa.Function, args []Val, binds []Val, st *State, depth int, pos token.Pos, cs string) []RetState {
	fn = body(fn)
	if len(fn.Blocks) == 0 {
		panic(Undecided{pos, "call of a function without body: " + fn.String()})
	}
	if depth > e.cfg.MaxDepth {
		panic(Undecided{pos, "call depth exceeded at " + fn.String()})
	}
	e.funcs[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, depth: depth, call: cs}
	if len(args) != len(fn.Params) {
		panic(Undecided{pos, fmt.Sprintf("argument count of %s", fn)})
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			fr.env[b] = binds[i]
		}
	}
	st = st.clone()
	st.stack = append(st.stack, fn)
	outs := e.enter(fr, nil, fn.Blocks[0], st)
	var rs []RetState
	for _, o := range outs {
		o.st.stack = o.st.stack[:len(o.st.stack)-1]
		switch o.kind {
		case "ret":
			rs = append(rs, RetState{st: o.st, ret: o.ret})
		case "panic":
			rs = append(rs, RetState{st: o.st, panic: true})
		}
	}
	e.nOut += len(outs)
	if e.nOut > e.cfg.MaxOut {
		panic(Undecided{pos, "too many paths in " + fn.String()})
	}
	return rs
}

// enter follows the edge from -> to.
func (e *Engine) enter(fr *Frame, from, to *ssa.BasicBlock, st *State) []Outcome {
	li := e.loopsOf(fr.fn)
	// leave loops
	for len(fr.active) > 0 {
		top := fr.active[len(fr.active)-1]
		if top.head == to {
			return []Outcome{{kind: "back", st: st, loop: top, env: fr.env, from: from}}
		}
		if top.body[to] {
			break
		}
		if top.disc {
			return nil
		}
		fr.active = fr.active[:len(fr.active)-1]
		if n := len(st.iters); n > 0 && top.rec != nil && top.rec.n == st.iters[n-1] {
			st.iters = st.iters[:n-1]
		}
	}
	if l := li.headers[to]; l != nil {
		if e.cfg.Unroll > 0 {
			if fr.visits == nil {
				fr.visits = map[*ssa.BasicBlock]int{}
			}
			fr.visits[to]++
			if fr.visits[to] > e.cfg.Unroll {
				panic(Undecided{to.Instrs[0].Pos(), "loop bound not constant in " + fr.fn.String()})
			}
		} else {
			return e.loop(fr, from, to, l, st)
		}
	}
	e.phis(fr, from, to)
	return e.exec(fr, to, len(phisOf(to)), st)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (e *Engine) phis(fr *Frame, from, to *ssa.BasicBlock) {
	ps := phisOf(to)
	if len(ps) == 0 {
		return
	}
	k := predIndex(from, to)
	vals := make([]Val, len(ps))
	for i, p := range ps {
		vals[i] = e.val(fr, p.Edges[k])
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

// exec runs the block from instruction i.
func (e *Engine) exec(fr *Frame, b *ssa.BasicBlock, i int, st *State) []Outcome {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		ins := b.Instrs[i]
		e.stepN++
		checkDeadline()
		switch in := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c, ok := e.val(fr, in.Cond).(*Term)
			if !ok {
				panic(Undecided{in.Pos(), "condition value"})
			}
			var res []Outcome
			e.forking(st, func(s *State) { s.decide(c) }, func(s *State) {
				f := fr.clone()
				to := b.Succs[0]
				if !s.decide(c) {
					to = b.Succs[1]
				}
				res = append(res, e.enter(f, b, to, s)...)
			})
			return res
		case *ssa.Jump:
			return e.enter(fr, b, b.Succs[0], st)
		case *ssa.Return:
			var ret Val
			if len(in.Results) == 1 {
				ret = e.val(fr, in.Results[0])
			} else {
				var tv TupleV
				for _, r := range in.Results {
					tv = append(tv, e.val(fr, r))
				}
				ret = tv
			}
			for _, a := range fr.active {
				if a.disc {
					return nil
				}
			}
			// leaving all loops of the frame
			for k := len(fr.active) - 1; k >= 0; k-- {
				a := fr.active[k]
				if n := len(st.iters); n > 0 && a.rec != nil && a.rec.n == st.iters[n-1] {
					st.iters = st.iters[:n-1]
				}
			}
			return []Outcome{{kind: "ret", st: st, ret: ret, pos: in.Pos()}}
		case *ssa.Panic:
			if e.cfg.OnPanic != nil {
				e.cfg.OnPanic(st, in.Pos(), "panics")
			}
			return []Outcome{{kind: "panic", st: st, pos: in.Pos()}}
		case *ssa.Call:
			rs := e.doCall(fr, in, in.Common(), st, in.Pos(), in.Type())
			return e.after(fr, b, i, in, rs)
		case *ssa.Defer:
			d := deferRec{d: in}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = e.val(fr, in.Call.Value)
				}
			} else {
				d.fn = e.val(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				rs := e.callCommon(fr, in, d.d.Common(), d.fn, d.args, st, d.d.Pos(), types.NewTuple())
				var res []Outcome
				for k, r := range rs {
					if r.panic {
						res = append(res, Outcome{kind: "panic", st: r.st})
						continue
					}
					f := fr
					if k < len(rs)-1 {
						f = fr.clone()
					}
					res = append(res, e.exec(f, b, i, r.st)...)
				}
				return res
			}
		case *ssa.Go:
			st.log(&Event{kind: "go", pos: in.Pos()})
		case *ssa.Phi:
			// handled on entry
		default:
			// single step, may fork
			single := true
			var states []*State
			e.forking(st, func(s *State) { e.step(fr, ins, s.clone(), true) }, func(s *State) { states = append(states, s) })
			if len(states) != 1 {
				single = false
			}
			if single {
				st = states[0]
				e.step(fr, ins, st, false)
				continue
			}
			var res []Outcome
			for _, s := range states {
				f := fr.clone()
				e.step(f, ins, s, false)
				res = append(res, e.exec(f, b, i+1, s)...)
			}
			return res
		}
	}
	return nil
}

func (e *Engine) after(fr *Frame, b *ssa.BasicBlock, i int, in ssa.Value, rs []RetState) []Outcome {
	var res []Outcome
	for k, r := range rs {
		if r.panic {
			res = append(res, Outcome{kind: "panic", st: r.st})
			continue
		}
		if r.st.dead {
			continue
		}
		f := fr
		if k < len(rs)-1 {
			f = fr.clone()
		}
		f.env[in] = r.ret
		res = append(res, e.exec(f, b, i+1, r.st)...)
	}
	return res
}

// forking evaluates try on st; whenever it needs a split, both refinements are
// tried; done is called for each refinement in which try succeeds.
func (e *Engine) forking(st *State, try func(*State), done func(*State)) {
	work := []*State{st}
	n := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 600 {
			panic(Undecided{msg: "too many splits"})
		}
		var fk *ForkOn
		func() {
			defer func() {
				if x := recover(); x != nil {
					if f, ok := x.(ForkOn); ok {
						fk = &f
						return
					}
					panic(x)
				}
			}()
			try(s)
		}()
		if fk == nil {
			done(s)
			continue
		}
		a, b := s.split(*fk)
		if e.cfg.Unroll > 0 && a != nil && b != nil {
			// cases that no bits satisfy
			if bad, _, _ := bitsCheck(a, tFalse); bad {
				a = nil
			} else if bad, _, _ := bitsCheck(b, tFalse); bad {
				b = nil
			}
		}
		if b != nil {
			work = append(work, b)
		}
		if a != nil {
			work = append(work, a)
		}
	}
}

func (e *Engine) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Global:
		return PtrV{obj: e.globalObj(x)}
	case *ssa.Builtin:
		return FuncV{name: x.Name()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(Undecided{v.Pos(), fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	return getObj(opq("global", g.Pkg.Pkg.Path()+"."+g.Name()), func() *Obj {
		return &Obj{kind: "global", typ: g.Type().Underlying().(*types.Pointer).Elem()}
	})
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	so := e.sortOf(t)
	switch so.kind {
	case 'b':
		return mkBool(constant.BoolVal(c.Value))
	case 'i':
		v, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return mkBig(so, v)
	}
	if c.Value.Kind() == constant.String {
		return opq("str", constant.StringVal(c.Value))
	}
	return opq("const", c.Value.ExactString())
}

func (e *Engine) fresh(st *State, so Sort, name string) *Term {
	e.uid++
	return app(so, "sym", fmt.Sprintf("%s#%d", name, e.uid), st.iters...)
}

// site gives a term naming an instruction in its calling context and iteration.
func (e *Engine) site(fr *Frame, st *State, op string, in ssa.Instruction) *Term {
	return opq(op, fr.call+"/"+instrName(in), st.iters...)
}

func instrName(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s.%d.%d", b.Parent().Name(), b.Index, i)
		}
	}
	return "?"
}

// step executes a non-control instruction. dry is the probing execution on a
// scratch state; it must not change fr.
func (e *Engine) step(fr *Frame, ins ssa.Instruction, st *State, dry bool) {
	set := func(v ssa.Value, x Val) {
		if !dry {
			fr.env[v] = x
		}
	}
	switch in := ins.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(fr, st, "alloc", in, et)
		if _, ok := et.Underlying().(*types.Array); ok {
			o.bounded = true
		}
		st.setMem(o, &ObjState{base: &Base{kind: "zero"}})
		set(in, PtrV{obj: o})
	case *ssa.Store:
		p := e.ptr(e.val(fr, in.Addr), in.Pos())
		v := e.val(fr, in.Val)
		e.store(st, p, v, in.Pos())
	case *ssa.UnOp:
		set(in, e.unop(fr, in, st))
	case *ssa.BinOp:
		set(in, e.binop(fr, in, st))
	case *ssa.FieldAddr:
		p := e.ptr(e.val(fr, in.X), in.Pos())
		sty := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		np := append(append([]Sel(nil), p.path...), Sel{field: in.Field, name: sty.Field(in.Field).Name()})
		set(in, PtrV{obj: p.obj, path: np})
	case *ssa.Field:
		v := e.val(fr, in.X)
		sty := in.X.Type().Underlying().(*types.Struct)
		switch x := v.(type) {
		case StructV:
			set(in, x.f[in.Field])
		case *Term:
			set(in, e.symVal(st, app(e.sortOf(in.Type()), "cell", sty.Field(in.Field).Name(), x), in.Type(), nil, ""))
		default:
			panic(Undecided{in.Pos(), "field of value"})
		}
	case *ssa.IndexAddr:
		idx := e.intIdx(st, e.val(fr, in.Index))
		switch x := e.val(fr, in.X).(type) {
		case SliceV:
			if x.obj == nil {
				st.dead = true
				set(in, PtrV{})
				return
			}
			e.boundsAssume(st, idx, x.len, in.Pos())
			np := append(append([]Sel(nil), x.path...), Sel{field: -1, idx: st.canon(mkAdd(idx, x.off))})
			set(in, PtrV{obj: x.obj, path: np})
		case PtrV:
			if x.obj == nil {
				st.dead = true
				set(in, PtrV{})
				return
			}
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.boundsAssume(st, idx, mkInt(sInt, at.Len()), in.Pos())
			np := append(append([]Sel(nil), x.path...), Sel{field: -1, idx: st.canon(idx)})
			set(in, PtrV{obj: x.obj, path: np})
		default:
			panic(Undecided{in.Pos(), "index address"})
		}
	case *ssa.Index:
		idx := e.intIdx(st, e.val(fr, in.Index))
		x := e.val(fr, in.X)
		switch xv := x.(type) {
		case *Term:
			set(in, e.symVal(st, app(e.sortOf(in.Type()), "index", "", xv, idx), in.Type(), nil, ""))
		case StructV:
			set(in, e.project(st, xv, []Sel{{field: -1, idx: idx}}))
		default:
			panic(Undecided{in.Pos(), "index of array value"})
		}
	case *ssa.Lookup:
		set(in, e.lookup(fr, in, st))
	case *ssa.MapUpdate:
		m, ok := e.val(fr, in.Map).(MapV)
		if !ok {
			panic(Undecided{in.Pos(), "map value"})
		}
		k := e.keyTerm(st, e.val(fr, in.Key), in.Pos())
		v := e.val(fr, in.Value)
		if m.obj == nil {
			st.dead = true
			return
		}
		e.mapset(st, m, k, v, in.Pos())
	case *ssa.MakeMap:
		o := e.newObj(fr, st, "alloc", in, in.Type())
		st.setMem(o, &ObjState{base: &Base{kind: "empty"}})
		set(in, MapV{obj: o})
	case *ssa.MakeSlice:
		o := e.newObj(fr, st, "alloc", in, in.Type().Underlying().(*types.Slice).Elem())
		st.setMem(o, &ObjState{base: &Base{kind: "zero"}})
		l := e.intIdx(st, e.val(fr, in.Len))
		c := e.intIdx(st, e.val(fr, in.Cap))
		st.assume(mkLe(mkInt(sInt, 0), l), true)
		st.assume(mkLe(l, c), true)
		set(in, SliceV{obj: o, off: mkInt(sInt, 0), len: l, cap: c})
	case *ssa.MakeInterface:
		set(in, IfaceV{dyn: in.X.Type(), v: e.val(fr, in.X)})
	case *ssa.ChangeInterface:
		set(in, e.val(fr, in.X))
	case *ssa.ChangeType:
		set(in, retype(e.val(fr, in.X), in.Type()))
	case *ssa.Convert:
		set(in, e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.MultiConvert:
		set(in, e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, e.val(fr, b))
		}
		set(in, f)
	case *ssa.Extract:
		tv, ok := e.val(fr, in.Tuple).(TupleV)
		if !ok {
			panic(Undecided{in.Pos(), "tuple"})
		}
		set(in, tv[in.Index])
	case *ssa.Slice:
		set(in, e.slice(fr, in, st))
	case *ssa.TypeAssert:
		set(in, e.typeAssert(fr, in, st))
	case *ssa.Range:
		switch x := e.val(fr, in.X).(type) {
		case MapV:
			if x.obj != nil && e.cfg.Reads && !x.obj.fresh {
				st.log(&Event{kind: "mapget", obj: x.obj, cls: x.obj.cls, pos: in.Pos()})
			}
			it := MapIterV{m: x, term: e.site(fr, st, "range", in)}
			if keys, ok := e.mapKeys(st, x); ok {
				e.uid++
				pos := opq("rangepos", fmt.Sprintf("%s@%d", instrName(in), e.uid))
				it.keys, it.pos, it.os = keys, getObj(pos, func() *Obj { return &Obj{kind: "rangepos", fresh: true} }), st.mem.get(x.obj)
				st.setMem(it.pos, &ObjState{})
				set(in, it)
				break
			}
			if x.obj != nil {
				it.len, it.os = e.mapLen(st, x), st.mem.get(x.obj)
			}
			e.rangeOf[it.term] = it
			set(in, it)
		default:
			panic(Undecided{in.Pos(), "range over string"})
		}
	case *ssa.Next:
		e.next(fr, in, st, set)
	default:
		panic(Undecided{ins.Pos(), fmt.Sprintf("unsupported instruction %T", ins)})
	}
}

func retype(v Val, t types.Type) Val {
	if sv, ok := v.(StructV); ok {
		sv.typ = t
		return sv
	}
	return v
}

func (e *Engine) newObj(fr *Frame, st *State, op string, in ssa.Instruction, t types.Type) *Obj {
	term := e.site(fr, st, op, in)
	if e.cfg.Unroll > 0 {
		e.uid++
		term = opq(op, fmt.Sprintf("%s@%d", instrName(in), e.uid))
	}
	return getObj(term, func() *Obj { return &Obj{kind: op, typ: t, fresh: true} })
}

func (e *Engine) boundsAssume(st *State, idx, n *Term, pos token.Pos) {
	// an out of range index panics; only the non-panicking continuation matters
	if idx.isConst() && n.isConst() && (idx.c.Sign() < 0 || idx.c.Cmp(n.c) >= 0) && e.cfg.OnPanic != nil {
		e.cfg.OnPanic(st, pos, "index out of range")
	}
	if !st.assume(mkLe(mkInt(sInt, 0), idx), true) || !st.assume(mkLt(idx, n), true) {
		st.dead = true
	}
}

func (e *Engine) intIdx(st *State, v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.sort.kind != 'i' {
		panic(Undecided{msg: "index value"})
	}
	if t.sort == sInt {
		return t
	}
	// the integer value of the index; values above MaxInt64 panic anyway
	return e.convInt(st, t, sInt)
}

// convInt converts between integer sorts, using the path facts to avoid wraps.
func (e *Engine) convInt(st *State, t *Term, s Sort) *Term {
	if t.sort == s {
		return t
	}
	if s.w < t.sort.w || (s.w == t.sort.w) {
		return toSort(t, s, false)
	}
	le := st.lift(t)
	return mkLin(s, le.c, le.ms)
}

func (e *Engine) ptr(v Val, pos token.Pos) PtrV {
	switch p := v.(type) {
	case PtrV:
		return p
	}
	panic(Undecided{pos, fmt.Sprintf("pointer value %T", v)})
}

func (e *Engine) keyTerm(st *State, v Val, pos token.Pos) *Term {
	switch k := v.(type) {
	case *Term:
		return st.canon(k)
	}
	panic(Undecided{pos, "map key"})
}

func (e *Engine) store(st *State, p PtrV, v Val, pos token.Pos) {
	if p.obj == nil {
		st.dead = true
		return
	}
	if len(p.path) == 0 {
		if _, isStruct := p.obj.typ.Underlying().(*types.Struct); !isStruct && p.obj.kind != "alloc" && p.obj.kind != "global" {
			// whole-object write through an unknown pointer
		}
	}
	st.write(p.obj, p.path, v, false)
	if !p.obj.fresh {
		st.log(&Event{kind: "write", obj: p.obj, path: p.path, cls: e.classOf(p.obj, p.path), val: v, pos: pos})
	}
}

func (e *Engine) load(st *State, p PtrV, t types.Type, pos token.Pos) Val {
	if p.obj == nil {
		st.dead = true
		return e.zero(t)
	}
	if v, ok := e.tableRead(st, p, t); ok {
		return v
	}
	v := e.read(st, p.obj, p.path, t)
	if e.cfg.Reads && !p.obj.fresh {
		st.log(&Event{kind: "read", obj: p.obj, path: p.path, cls: e.classOf(p.obj, p.path), pos: pos})
	}
	return v
}

// tableRead handles constant tables indexed by a symbolic index.
func (e *Engine) tableRead(st *State, p PtrV, t types.Type) (Val, bool) {
	if len(p.path) != 1 || p.path[0].idx == nil || p.path[0].idx.isConst() {
		return nil, false
	}
	so := e.sortOf(t)
	if so.kind != 'i' {
		return nil, false
	}
	os, ok := st.mem.find(p.obj)
	if !ok || os.base.kind != "zero" || len(os.writes) < 8 {
		return nil, false
	}
	n := 0
	for _, w := range os.writes {
		v, isT := w.val.(*Term)
		if len(w.path) != 1 || w.path[0].idx == nil || !w.path[0].idx.isConst() || !isT || !v.isConst() {
			return nil, false
		}
		if k := int(w.path[0].idx.c.Int64()) + 1; k > n {
			n = k
		}
	}
	tab := make([]*big.Int, n)
	for i := range tab {
		tab[i] = new(big.Int)
	}
	for _, w := range os.writes {
		tab[w.path[0].idx.c.Int64()] = uval(w.val.(*Term))
	}
	key := ""
	for _, v := range tab {
		key += v.Text(16) + ","
	}
	e.tabs[key] = tab
	allTabs[key] = tab
	return app(so, "tab", key, p.path[0].idx), true
}

var allTabs = map[string][]*big.Int{}

func (e *Engine) unop(fr *Frame, in *ssa.UnOp, st *State) Val {
	x := e.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		return e.load(st, e.ptr(x, in.Pos()), in.Type(), in.Pos())
	case token.NOT:
		return mkNot(x.(*Term))
	case token.SUB:
		if t, ok := x.(*Term); ok && t.sort.kind == 'i' {
			return mkNeg(t)
		}
	case token.XOR:
		if t, ok := x.(*Term); ok && t.sort.kind == 'i' {
			return mkCompl(t)
		}
	}
	panic(Undecided{in.Pos(), "unary " + in.Op.String()})
}

func (e *Engine) binop(fr *Frame, in *ssa.BinOp, st *State) Val {
	if (in.Op == token.EQL || in.Op == token.NEQ) && isAddr(in.X.Type()) {
		a, ok1 := e.val(fr, in.X).(*Term)
		b, ok2 := e.val(fr, in.Y).(*Term)
		if ok1 && ok2 {
			r := e.sameAddr(st, a, b)
			if in.Op == token.NEQ {
				r = mkNot(r)
			}
			return r
		}
	}
	x, y := e.val(fr, in.X), e.val(fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		b := e.equal(st, x, y, in.Pos())
		if in.Op == token.NEQ {
			return mkNot(b)
		}
		return b
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(Undecided{in.Pos(), "binary operand"})
	}
	if a.sort.kind != 'i' {
		if in.Op == token.ADD {
			return opq("concat", "", a, b)
		}
		if a.sort.kind == 'b' {
			switch in.Op {
			case token.AND:
				return mkAnd(a, b)
			case token.OR:
				return mkOr(a, b)
			}
		}
		switch in.Op {
		case token.LSS:
			return app(sBool, "strlt", "", a, b)
		case token.GTR:
			return app(sBool, "strlt", "", b, a)
		case token.LEQ:
			return mkNot(app(sBool, "strlt", "", b, a))
		case token.GEQ:
			return mkNot(app(sBool, "strlt", "", a, b))
		}
		panic(Undecided{in.Pos(), "binary on non-integers"})
	}
	switch in.Op {
	case token.ADD:
		return mkAdd(a, b)
	case token.SUB:
		return mkSub(a, b)
	case token.MUL:
		return mkMul(a, b)
	case token.AND:
		return mkBit("and", a, b)
	case token.OR:
		return mkBit("or", a, b)
	case token.XOR:
		return mkBit("xor", a, b)
	case token.AND_NOT:
		return mkBit("and", a, mkCompl(b))
	case token.SHL:
		if n := e.constShift(st, b); e.cfg.KeepShl && n.isConst() && !a.sort.signed {
			return mkShlK(a, n)
		} else {
			return mkShl(a, n)
		}
	case token.SHR:
		return mkShr(a, e.constShift(st, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkLe(a, b)
	case token.GEQ:
		return mkLe(b, a)
	case token.QUO, token.REM:
		if a.isConst() && b.isConst() && b.c.Sign() != 0 {
			if in.Op == token.QUO {
				return mkBig(a.sort, new(big.Int).Quo(a.c, b.c))
			}
			return mkBig(a.sort, new(big.Int).Rem(a.c, b.c))
		}
		if b.isConst() && b.c.Sign() > 0 && !a.sort.signed {
			if k := b.c.TrailingZeroBits(); new(big.Int).Lsh(bigOne, k).Cmp(b.c) == 0 {
				if in.Op == token.QUO {
					return mkShr(a, mkInt(a.sort, int64(k)))
				}
				return mkBit("and", a, mkBig(a.sort, new(big.Int).Sub(b.c, bigOne)))
			}
		}
		op := "quo"
		if in.Op == token.REM {
			op = "rem"
		}
		return app(a.sort, op, "", a, b)
	}
	panic(Undecided{in.Pos(), "binary " + in.Op.String()})
}

func (e *Engine) constShift(st *State, b *Term) *Term {
	c := st.canon(b)
	return c
}

func (e *Engine) isNil(v Val) *Term {
	switch x := v.(type) {
	case PtrV:
		if x.obj == nil {
			return tTrue
		}
		if x.obj.fresh || len(x.path) > 0 || x.obj.kind == "global" || x.obj.root > 0 {
			return tFalse
		}
		return app(sBool, "isnil", "", x.obj.term)
	case SliceV:
		if x.obj == nil {
			return tTrue
		}
		if x.obj.fresh {
			return tFalse
		}
		return app(sBool, "isnil", "", x.obj.term)
	case MapV:
		if x.obj == nil {
			return tTrue
		}
		if x.obj.fresh {
			return tFalse
		}
		return app(sBool, "isnil", "", x.obj.term)
	case IfaceV, FuncV:
		return tFalse
	case *Term:
		if x == nilTerm {
			return tTrue
		}
		if isFreshTerm(x) {
			return tFalse
		}
		return app(sBool, "isnil", "", x)
	}
	return nil
}

func isNilConst(v Val) bool {
	switch x := v.(type) {
	case PtrV:
		return x.obj == nil
	case SliceV:
		return x.obj == nil
	case MapV:
		return x.obj == nil
	case *Term:
		return x == nilTerm
	}
	return false
}

// equal builds the boolean term x == y.
func (e *Engine) equal(st *State, x, y Val, pos token.Pos) *Term {
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) {
		if t := e.isNil(x); t != nil {
			return t
		}
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok {
			if a.sort == b.sort {
				return mkEq(a, b)
			}
		}
		if b, ok := y.(IfaceV); ok {
			return mkEq(a, e.valTerm(b))
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			if a.obj == b.obj {
				if selKey(a.path) == selKey(b.path) {
					return tTrue
				}
				if len(a.path) == len(b.path) {
					var cs []*Term
					for i := range a.path {
						if a.path[i].idx != nil && b.path[i].idx != nil {
							cs = append(cs, mkEq(a.path[i].idx, b.path[i].idx))
						} else if a.path[i].field != b.path[i].field {
							return tFalse
						}
					}
					return mkAnd(cs...)
				}
				return tFalse
			}
			if a.obj.fresh || b.obj.fresh {
				return tFalse
			}
			return mkEq(a.obj.term, b.obj.term)
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			var cs []*Term
			for i := range a.f {
				cs = append(cs, e.equal(st, a.f[i], b.f[i], pos))
			}
			return mkAnd(cs...)
		}
	case IfaceV:
		switch b := y.(type) {
		case IfaceV:
			if !types.Identical(a.dyn, b.dyn) {
				return tFalse
			}
			return e.equal(st, a.v, b.v, pos)
		case *Term:
			return mkEq(e.valTerm(a), b)
		}
	}
	panic(Undecided{pos, fmt.Sprintf("comparison of %T and %T", x, y)})
}

// valTerm gives a term identifying a value.
func (e *Engine) valTerm(v Val) *Term {
	switch x := v.(type) {
	case nil:
		return opq("none", "")
	case *Term:
		return x
	case StructV:
		var as []*Term
		for _, f := range x.f {
			as = append(as, e.valTerm(f))
		}
		return opq("struct", typeName(x.typ), as...)
	case PtrV:
		if x.obj == nil {
			return nilTerm
		}
		var as []*Term
		as = append(as, x.obj.term)
		s := ""
		for _, p := range x.path {
			if p.idx != nil {
				s += ".#"
				as = append(as, p.idx)
			} else {
				s += "." + p.name
			}
		}
		return opq("ptr", s, as...)
	case SliceV:
		if x.obj == nil {
			return nilTerm
		}
		return opq("slice", "", x.obj.term, x.off, x.len)
	case MapV:
		if x.obj == nil {
			return nilTerm
		}
		return opq("map", "", x.obj.term)
	case IfaceV:
		return opq("iface", types.TypeString(x.dyn, nil), e.valTerm(x.v))
	case FuncV:
		n := x.name
		if x.fn != nil {
			n = x.fn.String()
		}
		var as []*Term
		for _, b := range x.binds {
			as = append(as, e.valTerm(b))
		}
		return opq("func", n, as...)
	case TupleV:
		var as []*Term
		for _, f := range x {
			as = append(as, e.valTerm(f))
		}
		return opq("tuple", "", as...)
	case MapIterV:
		return x.term
	}
	return opq("val", fmt.Sprintf("%T", v))
}

func (e *Engine) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fs, ts := e.sortOf(from), e.sortOf(to)
	if fs.kind == 'i' && ts.kind == 'i' {
		return e.convInt(st, v.(*Term), ts)
	}
	if t, ok := v.(*Term); ok {
		if _, isTP := types.Unalias(from).(*types.TypeParam); isTP {
			return t
		}
		return e.symVal(st, app(ts, "conv", types.TypeString(to, nil), t), to, nil, "")
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return e.symVal(st, app(ts, "conv", types.TypeString(to, nil), e.valTerm(v)), to, nil, "")
}

func (e *Engine) slice(fr *Frame, in *ssa.Slice, st *State) Val {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.intIdx(st, e.val(fr, v))
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	zero := mkInt(sInt, 0)
	if lo == nil {
		lo = zero
	}
	switch x := e.val(fr, in.X).(type) {
	case SliceV:
		if hi == nil {
			hi = x.len
		}
		c := x.cap
		if mx != nil {
			c = mx
		}
		if x.obj == nil {
			return x
		}
		if !st.assume(mkLe(zero, lo), true) || !st.assume(mkLe(lo, hi), true) || !st.assume(mkLe(hi, c), true) {
			st.dead = true
		}
		return SliceV{obj: x.obj, path: x.path, off: mkAdd(x.off, lo), len: mkSub(hi, lo), cap: mkSub(c, lo)}
	case PtrV:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || x.obj == nil {
			break
		}
		n := mkInt(sInt, at.Len())
		if hi == nil {
			hi = n
		}
		return SliceV{obj: x.obj, path: x.path, off: lo, len: mkSub(hi, lo), cap: mkSub(n, lo)}
	case *Term: // string
		hs := hi
		if hs == nil {
			hs = app(sInt, "len", "", x)
		}
		return opq("substr", "", x, lo, hs)
	}
	panic(Undecided{in.Pos(), "slice expression"})
}

func (e *Engine) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State) Val {
	x := e.val(fr, in.X)
	mk := func(ok *Term, v Val) Val {
		if in.CommaOk {
			return TupleV{v, ok}
		}
		if !st.assume(ok, true) {
			st.dead = true
		}
		return v
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	switch a := x.(type) {
	case IfaceV:
		if toIface {
			if types.AssignableTo(a.dyn, in.AssertedType) {
				return mk(tTrue, a)
			}
			return mk(tFalse, e.zero(in.AssertedType))
		}
		if types.Identical(a.dyn, in.AssertedType) {
			return mk(tTrue, a.v)
		}
		return mk(tFalse, e.zero(in.AssertedType))
	case *Term:
		if a == nilTerm {
			return mk(tFalse, e.zero(in.AssertedType))
		}
		ok := app(sBool, "hastype", types.TypeString(in.AssertedType, nil), a)
		if toIface {
			return mk(ok, a)
		}
		return mk(ok, e.symVal(st, app(e.sortOf(in.AssertedType), "dynval", types.TypeString(in.AssertedType, nil), a), in.AssertedType, nil, ""))
	}
	panic(Undecided{in.Pos(), "type assertion"})
}

// ---- maps ----

func (e *Engine) hasTerm(st *State, o *Obj, os *ObjState, k *Term) *Term {
	for i := len(os.writes) - 1; i >= 0; i-- {
		w := os.writes[i]
		if st.relate(w.path, []Sel{{field: -1, idx: k}}) == 1 {
			return mkBool(!w.del)
		}
	}
	switch os.base.kind {
	case "empty", "zero":
		return tFalse
	case "sym":
		if os.base.rec != nil && os.base.src == o {
			switch e.epochHas(st, o, os.base, k) {
			case 1:
				return tTrue
			case -1:
				return tFalse
			}
			if done, ins, _ := e.epochSome(st, o, os.base, k); done {
				if ins {
					return tTrue
				}
				return e.hasTerm(st, o, os.base.srcSt, k)
			}
		}
		return app(sBool, "has", "", os.base.term, st.canon(k))
	case "mapcompr":
		if so, ss, ok := e.mapCopyOf(st, o, os.base); ok {
			return e.hasTerm(st, so, ss, k)
		}
		return app(sBool, "has", "", os.base.term, st.canon(k))
	case "copy":
		return e.hasTerm(st, os.base.src, os.base.srcSt, k)
	}
	panic(Undecided{msg: "membership in map base " + os.base.kind})
}

func (e *Engine) mapget(st *State, o *Obj, os *ObjState, k *Term, t types.Type) (Val, *Term) {
	for i := len(os.writes) - 1; i >= 0; i-- {
		w := os.writes[i]
		if st.relate(w.path, []Sel{{field: -1, idx: k}}) == 1 {
			if w.del {
				return e.zero(t), tFalse
			}
			return w.val, tTrue
		}
	}
	switch os.base.kind {
	case "empty", "zero":
		return e.zero(t), tFalse
	case "sym":
		has := app(sBool, "has", "", os.base.term, st.canon(k))
		if os.base.rec != nil && os.base.src == o {
			if e.epochHas(st, o, os.base, k) == -1 {
				return e.zero(t), tFalse
			}
			if done, ins, v := e.epochSome(st, o, os.base, k); done {
				if ins {
					return v, tTrue
				}
				return e.mapget(st, o, os.base.srcSt, k, t)
			}
		}
		if st.decide(has) {
			cls := e.classOf(o, []Sel{{field: -1, idx: k}})
			return e.symVal(st, app(e.sortOf(t), "mapval", "", os.base.term, st.canon(k)), t, o, cls), tTrue
		}
		return e.zero(t), tFalse
	case "mapcompr":
		if so, ss, ok := e.mapCopyOf(st, o, os.base); ok {
			return e.mapget(st, so, ss, k, t)
		}
		has := app(sBool, "has", "", os.base.term, st.canon(k))
		if st.decide(has) {
			return e.symVal(st, app(e.sortOf(t), "mapval", "", os.base.term, st.canon(k)), t, o, ""), tTrue
		}
		return e.zero(t), tFalse
	case "copy":
		return e.mapget(st, os.base.src, os.base.srcSt, k, t)
	}
	panic(Undecided{msg: "lookup in map base " + os.base.kind})
}

func (e *Engine) lookup(fr *Frame, in *ssa.Lookup, st *State) Val {
	switch x := e.val(fr, in.X).(type) {
	case MapV:
		et := in.X.Type().Underlying().(*types.Map).Elem()
		k := e.keyTerm(st, e.val(fr, in.Index), in.Pos())
		if x.obj == nil {
			if in.CommaOk {
				return TupleV{e.zero(et), tFalse}
			}
			return e.zero(et)
		}
		var v Val
		var ok *Term
		if in.CommaOk && onlyOkUsed(in) {
			ok = e.hasTerm(st, x.obj, st.obj(x.obj), k)
			v = nil
		} else {
			v, ok = e.mapget(st, x.obj, st.obj(x.obj), k, et)
		}
		if !x.obj.fresh {
			st.log(&Event{kind: "mapget", obj: x.obj, cls: x.obj.cls, key: k, pos: in.Pos()})
		}
		if in.CommaOk {
			return TupleV{v, ok}
		}
		return v
	case *Term:
		idx := e.intIdx(st, e.val(fr, in.Index))
		return app(e.sortOf(in.Type()), "index", "", x, idx)
	}
	panic(Undecided{in.Pos(), "lookup"})
}

func onlyOkUsed(in *ssa.Lookup) bool {
	for _, r := range *in.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 && len(*ex.Referrers()) > 0 {
			return false
		}
	}
	return true
}

func (e *Engine) mapset(st *State, m MapV, k *Term, v Val, pos token.Pos) {
	// decide aliasing with earlier writes of other keys now, so that later reads agree
	before := st.obj(m.obj)
	st.write(m.obj, []Sel{{field: -1, idx: k}}, v, false)
	if !m.obj.fresh {
		st.log(&Event{kind: "mapset", before: before, obj: m.obj, cls: m.obj.cls, key: k, val: v, pos: pos})
	} else {
		st.log(&Event{kind: "lmapset", obj: m.obj, cls: m.obj.cls, key: k, val: v, pos: pos})
	}
}

func (e *Engine) mapdel(st *State, m MapV, k *Term, pos token.Pos) {
	if m.obj == nil {
		return
	}
	before := st.obj(m.obj)
	st.write(m.obj, []Sel{{field: -1, idx: k}}, nil, true)
	if !m.obj.fresh {
		st.log(&Event{kind: "mapdel", before: before, obj: m.obj, cls: m.obj.cls, key: k, pos: pos})
	}
}

// mapKeys returns the keys of a map that began empty, when they are all known apart.
// The order of a visit is the order of insertion: Go leaves it open, so what
// is decided this way holds for one order.
func (e *Engine) mapKeys(st *State, m MapV) ([]*Term, bool) {
	if e.cfg.Unroll == 0 || m.obj == nil {
		return nil, false
	}
	os := st.obj(m.obj)
	if os.base == nil || os.base.kind != "empty" && os.base.kind != "zero" {
		return nil, false
	}
	var keys []*Term
	for _, w := range os.writes {
		if len(w.path) != 1 || w.path[0].idx == nil {
			return nil, false
		}
		out := keys[:0:0]
		for _, k := range keys {
			switch st.relate(w.path, []Sel{{field: -1, idx: k}}) {
			case 1: // the same key again
			case 0:
				out = append(out, k)
			default:
				return nil, false
			}
		}
		if !w.del {
			out = append(out, w.path[0].idx)
		}
		keys = out
	}
	return keys, true
}

func (e *Engine) next(fr *Frame, in *ssa.Next, st *State, set func(ssa.Value, Val)) {
	it, ok := e.val(fr, in.Iter).(MapIterV)
	if !ok || in.IsString {
		panic(Undecided{in.Pos(), "range"})
	}
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if it.pos != nil {
		n := len(st.mem.get(it.pos).writes)
		if n == len(it.keys) {
			set(in, TupleV{tFalse, e.zero(mt.Key()), e.zero(mt.Elem())})
			return
		}
		if st.mem.get(it.m.obj) != it.os {
			panic(Undecided{in.Pos(), "the map changes while its keys are visited"})
		}
		st.setMem(it.pos, &ObjState{writes: make([]Write, n+1)})
		v, _ := e.mapget(st, it.m.obj, it.os, it.keys[n], mt.Elem())
		set(in, TupleV{tTrue, it.keys[n], v})
		return
	}
	if it.m.obj == nil {
		set(in, TupleV{tFalse, e.zero(mt.Key()), e.zero(mt.Elem())})
		return
	}
	var n *Term
	if len(st.iters) > 0 {
		n = st.iters[len(st.iters)-1]
	} else {
		n = mkInt(sInt, 0)
	}
	more := app(sBool, "more", "", it.term, n)
	if !st.decide(more) {
		// every key has been visited: n completed visits, if the map was not changed
		if ln := it.len; ln != nil && n.op == "iter" && st.mem.get(it.m.obj) == it.os {
			if !st.addGE(leAdd(leTerm(n), 1, leTerm(ln), -1)) || !st.addGE(leAdd(leTerm(ln), 1, leTerm(n), -1)) {
				st.dead = true
			}
		}
		set(in, TupleV{tFalse, e.zero(mt.Key()), e.zero(mt.Elem())})
		return
	}
	if ln := it.len; ln != nil && n.op == "iter" && st.mem.get(it.m.obj) == it.os {
		if !st.addGE(leAdd(leTerm(ln), 1, leTerm(n), -1).addConst(-1)) {
			st.dead = true
			return
		}
	}
	kt := app(e.sortOf(mt.Key()), "rangekey", "", it.term, it.m.obj.term, n)
	kv := e.symVal(st, kt, mt.Key(), nil, "")
	k := e.keyTerm(st, kv, in.Pos())
	os := st.obj(it.m.obj)
	if !st.assume(e.hasTerm(st, it.m.obj, os, k), true) {
		st.dead = true
		return
	}
	v, _ := e.mapget(st, it.m.obj, os, k, mt.Elem())
	set(in, TupleV{tTrue, kv, v})
}
