package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var sBig = Sort{kind: 'i', w: 600, signed: true}

// withFork runs a model that may request splits.
func (e *Engine) withFork(st *State, f func(s *State) []RetState) []RetState {
	var res []RetState
	e.forking(st, func(s *State) { f(s.clone()) }, func(s *State) { res = append(res, f(s)...) })
	return res
}

func one(s *State, v Val) []RetState { return []RetState{{st: s, ret: v}} }

func (e *Engine) doCall(fr *Frame, in *ssa.Call, c *ssa.CallCommon, st *State, pos token.Pos, res types.Type) []RetState {
	var fv Val
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		fv = FuncV{name: b.Name()}
	} else {
		fv = e.val(fr, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return e.callCommon(fr, in, c, fv, args, st, pos, res)
}

func (e *Engine) callCommon(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, st *State, pos token.Pos, res types.Type) []RetState {
	cx := &callCtx{e: e, fr: fr, in: in, c: c, pos: pos, res: resultType(c)}
	if c.IsInvoke() {
		return e.invoke(cx, fv, args, st)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.withFork(st, func(s *State) []RetState { return e.builtin(cx, b.Name(), args, s) })
	}
	return e.callFn(cx, fv, args, st)
}

type callCtx struct {
	e   *Engine
	fr  *Frame
	in  ssa.Instruction
	c   *ssa.CallCommon
	pos token.Pos
	res types.Type
}

func (cx *callCtx) site(st *State, op string) *Term {
	if cx.e.cfg.Unroll > 0 { // a call is reached more than once
		cx.e.uid++
		return opq(op, fmt.Sprintf("%s@%d", instrName(cx.in), cx.e.uid))
	}
	return cx.e.site(cx.fr, st, op, cx.in)
}
func (cx *callCtx) cs() string {
	return cx.fr.call + "/" + instrName(cx.in)
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// callFn calls a function value.
func (e *Engine) callFn(cx *callCtx, fv Val, args []Val, st *State) []RetState {
	switch f := fv.(type) {
	case FuncV:
		if f.fn != nil {
			return e.callStatic(cx, f.fn, f.binds, args, st)
		}
		if f.recv != nil {
			return e.withFork(st, func(s *State) []RetState {
				return one(s, e.pure(s, "m:"+f.name, append([]Val{f.recv}, args...), cx.res))
			})
		}
	case *Term:
		if f == nilTerm {
			st.dead = true
			return nil
		}
		// an unknown function value is a deterministic function of its arguments
		if h := e.cfg.Hook; h != nil {
			if r, ok := h(e, st, "func:"+f.show(3), nil, args, cx.res, cx.pos); ok {
				return r
			}
		}
		return e.withFork(st, func(s *State) []RetState {
			return one(s, e.pure(s, "callfn", append([]Val{f}, args...), cx.res))
		})
	}
	panic(Undecided{cx.pos, fmt.Sprintf("call of %T", fv)})
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if ob := fn.Object(); ob != nil {
		if f, ok := ob.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func (e *Engine) callStatic(cx *callCtx, fn *ssa.Function, binds []Val, args []Val, st *State) []RetState {
	name := fullName(fn)
	if h := e.cfg.Hook; h != nil {
		if r, ok := h(e, st, name, fn, args, cx.res, cx.pos); ok {
			return r
		}
	}
	if g, ga := e.substitute(cx, fn, args, st); g != nil {
		return e.call(g, ga, nil, st, cx.fr.depth+1, cx.pos, cx.cs())
	}
	b := body(fn)
	if len(b.Blocks) > 0 && (e.repo.inRepo(fn) || fn.Synthetic != "") {
		if fn.Name() == "init" && fn.Parent() == nil && e.repo.inRepo(fn) && fn.Signature.Recv() == nil && cx.fr.fn.Name() == "init" {
			return one(st, TupleV{})
		}
		if e.cfg.Opaque != nil && e.cfg.Opaque(b) {
			if e.summaries != nil {
				if _, ok := e.summaries[name]; !ok {
					e.summaries[name] = e.repo.effects(b)
				}
			}
			return e.apiCall(cx, name, args, st)
		}
		if e.cfg.Unroll == 0 {
			for _, s := range st.stack {
				if s != b {
					continue
				}
				if e.summaries != nil {
					return e.apiCall(cx, name, args, st)
				}
				panic(Undecided{cx.pos, "recursion of " + name})
			}
		}
		return e.call(fn, args, binds, st, cx.fr.depth+1, cx.pos, cx.cs())
	}
	if fn.Name() == "init" && len(args) == 0 {
		return one(st, TupleV{})
	}
	return e.withFork(st, func(s *State) []RetState { return e.external(cx, name, args, s) })
}

// substitute is the client function that stands for the function called, and its arguments.
func (e *Engine) substitute(cx *callCtx, fn *ssa.Function, args []Val, st *State) (*ssa.Function, []Val) {
	if e.cfg.Unroll == 0 {
		return nil, nil
	}
	pkg := cx.fr.fn.Pkg
	for f := cx.fr.fn; pkg == nil && f.Parent() != nil; {
		f = f.Parent()
		pkg = f.Pkg
	}
	if pkg == nil {
		return nil, nil
	}
	switch fullName(fn) {
	case "sort.Slice", "sort.SliceStable":
		if g := pkg.Func("clientForSort"); g != nil && len(args) == 2 {
			if iv, ok := args[0].(IfaceV); ok {
				if sl, ok := iv.v.(SliceV); ok && types.Identical(iv.dyn, g.Params[0].Type()) {
					return g, []Val{sl, args[1]}
				}
			}
		}
		return nil, nil
	case "slices.SortFunc", "slices.SortStableFunc":
		if g := pkg.Func("clientForSortFunc"); g != nil && len(args) == 2 {
			return g, args
		}
		return nil, nil
	}
	if !e.repo.inRepo(fn) || fn.Pkg != pkg {
		return nil, nil
	}
	if n := e.cfg.Subst[fn.Name()]; n != "" {
		if g := pkg.Func(n); g != nil && len(g.Params) == len(args) {
			ga := make([]Val, len(args))
			for i, a := range args {
				pt, at := g.Params[i].Type(), fn.Params[i].Type()
				switch {
				case types.Identical(pt, at):
					ga[i] = a
				case types.IsInterface(pt) && !types.IsInterface(at):
					ga[i] = IfaceV{dyn: at, v: a}
				default:
					return nil, nil
				}
			}
			return g, ga
		}
	}
	if e.cfg.Rec == "" {
		return nil, nil
	}
	for _, s := range st.stack {
		if s != body(fn) {
			continue
		}
		g := pkg.Func(e.cfg.Rec)
		if g == nil {
			break
		}
		// the parameters by type, in order; missing slices are nil
		var ga []Val
		i := 0
		for _, p := range g.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok {
				if i < len(args) && types.Identical(fn.Params[i].Type(), sl) {
					ga = append(ga, args[i])
					i++
				} else {
					ga = append(ga, e.zero(p.Type()))
				}
				continue
			}
			for i < len(args) && !types.Identical(fn.Params[i].Type().Underlying(), p.Type().Underlying()) {
				i++
			}
			if i == len(args) {
				panic(Undecided{cx.pos, "recursion of " + fullName(fn)})
			}
			ga = append(ga, args[i])
			i++
		}
		if !types.Identical(fn.Signature.Results(), g.Signature.Results()) {
			panic(Undecided{cx.pos, "recursion of " + fullName(fn)})
		}
		return g, ga
	}
	return nil, nil
}

// apiCall logs an opaque call with fresh results.
func (e *Engine) apiCall(cx *callCtx, name string, args []Val, st *State) []RetState {
	t := cx.site(st, "call")
	r := e.symVal(st, app(e.sortOf(cx.res), "callres", name, t), cx.res, nil, "")
	ev := &Event{kind: "call", name: name, args: args, pos: cx.pos}
	if e.summaries != nil {
		ev.reach = e.reach(st, args...)
	}
	if tv, ok := r.(TupleV); ok {
		for _, v := range tv {
			ev.rets = append(ev.rets, v)
		}
	} else {
		ev.rets = []Val{r}
	}
	st.log(ev)
	return one(st, r)
}

// argTerm identifies an argument by its content.
func (e *Engine) argTerm(s *State, v Val) *Term {
	switch x := v.(type) {
	case MapV:
		return e.mapContent(s, x)
	case *Term:
		return s.canon(x)
	case IfaceV:
		if m, ok := x.v.(MapV); ok {
			return e.mapContent(s, m)
		}
	case PtrV:
		if x.obj != nil && len(x.path) == 0 && isBig(x.obj.typ) {
			return e.bigOf(s, x)
		}
	}
	return e.valTerm(v)
}

func (e *Engine) mapContent(s *State, m MapV) *Term {
	if m.obj == nil {
		return opq("map", "nil")
	}
	os := s.obj(m.obj)
	for len(os.writes) == 0 && os.base.kind == "copy" && os.base.src != nil {
		m = MapV{obj: os.base.src}
		os = os.base.srcSt
	}
	if len(os.writes) == 0 && os.base.kind == "mapcompr" {
		if so, ss, ok := e.mapCopyOf(s, m.obj, os.base); ok && len(ss.writes) == 0 && ss.base.kind == "sym" {
			return opq("mapc", "", ss.base.term)
		} else if ok {
			return opq("mapc", "", so.term)
		}
	}
	if len(os.writes) == 0 && os.base.kind == "sym" {
		return opq("mapc", "", os.base.term)
	}
	if len(os.writes) == 0 && (os.base.kind == "empty" || os.base.kind == "zero") {
		return opq("map", "nil")
	}
	as := []*Term{m.obj.term}
	for _, w := range os.writes {
		as = append(as, w.path[0].idx, e.valTerm(w.val))
	}
	return opq("mapw", "", as...)
}

// pure is an uninterpreted deterministic function of the argument contents.
func (e *Engine) pure(s *State, name string, args []Val, res types.Type) Val {
	var as []*Term
	for _, a := range args {
		as = append(as, e.argTerm(s, a))
	}
	t := app(e.sortOf(res), "fn", name, as...)
	v := e.symVal(s, t, res, nil, "")
	return v
}

// ---- interface calls ----

func (e *Engine) invoke(cx *callCtx, recv Val, args []Val, st *State) []RetState {
	m := cx.c.Method
	switch x := recv.(type) {
	case IfaceV:
		fn, idx := e.method(x.dyn, m)
		if fn == nil {
			if sel := types.NewMethodSet(x.dyn).Lookup(m.Pkg(), m.Name()); sel != nil && len(sel.Index()) > 1 {
				if w := e.repo.prog.MethodValue(sel); w != nil && len(w.Blocks) > 0 {
					return e.callStatic(cx, w, nil, append([]Val{x.v}, args...), st) // promoted from an embedded field
				}
			}
			panic(Undecided{cx.pos, "no method " + m.Name() + " on " + x.dyn.String()})
		}
		r := x.v
		t := x.dyn
		_ = idx
		_, recvPtr := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
		if p, ok := r.(PtrV); ok && !recvPtr {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				et := t.Underlying().(*types.Pointer).Elem()
				var out []RetState
				e.forking(st, func(s *State) { e.load(s.clone(), p, et, cx.pos) }, func(s *State) {
					v := e.load(s, p, et, cx.pos)
					if s.dead {
						return
					}
					out = append(out, e.callStatic(cx, fn, nil, append([]Val{v}, args...), s)...)
				})
				return out
			}
		}
		return e.callStatic(cx, fn, nil, append([]Val{r}, args...), st)
	case *Term:
		if x == nilTerm {
			st.dead = true
			return nil
		}
		name := "m:" + m.Name()
		if h := e.cfg.Hook; h != nil {
			if r, ok := h(e, st, name, nil, append([]Val{x}, args...), cx.res, cx.pos); ok {
				return r
			}
		}
		if n, ok := types.Unalias(cx.c.Value.Type()).(*types.Named); ok {
			o := n.Origin().Obj()
			if o.Pkg() != nil && o.Pkg().Path() == modPath+"/pkg/idxtable" && o.Name() == "Table" {
				return e.apiCall(cx, "Table."+m.Name(), append([]Val{x}, args...), st)
			}
		}
		if !st.assume(app(sBool, "isnil", "", x), false) {
			st.dead = true
			return nil
		}
		return e.withFork(st, func(s *State) []RetState {
			return one(s, e.pure(s, name, append([]Val{x}, args...), cx.res))
		})
	}
	panic(Undecided{cx.pos, fmt.Sprintf("interface call on %T", recv)})
}

func (e *Engine) method(t types.Type, m *types.Func) (*ssa.Function, []int) {
	o, idx, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
	f, ok := o.(*types.Func)
	if !ok {
		return nil, nil
	}
	if len(idx) > 1 {
		return nil, nil
	}
	return e.repo.prog.FuncValue(f.Origin()), idx
}

// ---- builtins ----

func (e *Engine) lenOf(s *State, v Val) *Term {
	switch x := v.(type) {
	case SliceV:
		if x.obj == nil {
			return mkInt(sInt, 0)
		}
		return x.len
	case MapV:
		return e.mapLen(s, x)
	case *Term:
		if x.op == "str" {
			return mkInt(sInt, int64(len(x.str)))
		}
		return app(sInt, "len", "", x)
	}
	panic(Undecided{msg: fmt.Sprintf("len of %T", v)})
}

func (e *Engine) mapLen(s *State, m MapV) *Term {
	if m.obj == nil {
		return mkInt(sInt, 0)
	}
	os := s.obj(m.obj)
	if len(os.writes) == 0 {
		switch os.base.kind {
		case "empty", "zero":
			return mkInt(sInt, 0)
		case "sym":
			return app(sInt, "len", "", os.base.term)
		case "copy":
			if os.base.src != nil {
				return e.mapLenState(s, os.base.src, os.base.srcSt)
			}
		case "mapcompr":
			if so, ss, ok := e.mapCopyOf(s, m.obj, os.base); ok {
				return e.mapLenState(s, so, ss)
			}
		}
	}
	as := []*Term{m.obj.term}
	for _, w := range os.writes {
		as = append(as, w.path[0].idx, mkBool(w.del))
	}
	if os.base.term != nil {
		as = append(as, os.base.term)
	}
	return app(sInt, "len", "", opq("mapw", "", as...))
}

func (e *Engine) mapLenState(s *State, o *Obj, os *ObjState) *Term {
	if len(os.writes) == 0 {
		switch os.base.kind {
		case "empty", "zero":
			return mkInt(sInt, 0)
		case "sym":
			return app(sInt, "len", "", os.base.term)
		case "copy":
			if os.base.src != nil {
				return e.mapLenState(s, os.base.src, os.base.srcSt)
			}
		}
	}
	as := []*Term{o.term}
	for _, w := range os.writes {
		as = append(as, w.path[0].idx, mkBool(w.del))
	}
	return app(sInt, "len", "", opq("mapw", "", as...))
}

func (e *Engine) builtin(cx *callCtx, name string, args []Val, s *State) []RetState {
	switch name {
	case "len":
		if m, ok := args[0].(MapV); ok && m.obj != nil && !m.obj.fresh {
			s.log(&Event{kind: "mapget", obj: m.obj, cls: m.obj.cls, pos: cx.pos})
		}
		return one(s, e.lenOf(s, args[0]))
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			if x.obj == nil {
				return one(s, mkInt(sInt, 0))
			}
			return one(s, x.cap)
		}
		return one(s, e.pure(s, "cap", args, cx.res))
	case "append":
		return one(s, e.appendModel(cx, args, s))
	case "copy":
		return one(s, e.copyModel(cx, args, s))
	case "delete":
		m, ok := args[0].(MapV)
		if !ok {
			panic(Undecided{cx.pos, "delete from a non-map"})
		}
		e.mapdel(s, m, e.keyTerm(s, args[1], cx.pos), cx.pos)
		return one(s, TupleV{})
	case "clear":
		if m, ok := args[0].(MapV); ok && m.obj != nil {
			s.setMem(m.obj, &ObjState{base: &Base{kind: "empty"}})
			if !m.obj.fresh {
				s.log(&Event{kind: "mapdel", obj: m.obj, cls: m.obj.cls, name: "clear", pos: cx.pos})
			}
			return one(s, TupleV{})
		}
		panic(Undecided{cx.pos, "clear"})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			lt := s.decide(mkLt(b, r))
			if lt == (name == "min") {
				r = b
			}
		}
		return one(s, r)
	case "panic":
		return []RetState{{st: s, panic: true}}
	case "print", "println":
		return one(s, TupleV{})
	case "recover":
		return one(s, nilTerm)
	case "ssa:wrapnilchk":
		return one(s, args[0])
	}
	panic(Undecided{cx.pos, "builtin " + name})
}

func (e *Engine) elemType(v ssa.Value) types.Type {
	if sl, ok := v.Type().Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func (e *Engine) appendModel(cx *callCtx, args []Val, s *State) Val {
	dst, ok := args[0].(SliceV)
	if !ok {
		panic(Undecided{cx.pos, "append destination"})
	}
	if len(args) < 2 {
		return dst
	}
	et := e.elemType(cx.c.Args[0])
	src, ok := args[1].(SliceV)
	if !ok {
		if t, isT := args[1].(*Term); isT { // string
			_ = t
			panic(Undecided{cx.pos, "append of a string"})
		}
		panic(Undecided{cx.pos, "append source"})
	}
	if src.obj == nil || src.len.isConstV(0) {
		return dst
	}
	zero := mkInt(sInt, 0)
	if dst.obj == nil {
		dst.off, dst.len, dst.cap = zero, zero, zero
	}
	if e.cfg.Unroll > 0 && dst.obj != nil && dst.obj.fresh && src.len.isConst() && src.len.c.IsInt64() && src.len.c.Int64() <= 64 &&
		s.decide(mkLe(mkAdd(dst.len, src.len), dst.cap)) {
		// in place
		var vs []Val
		for i := int64(0); i < src.len.c.Int64(); i++ {
			sub := append(append([]Sel(nil), src.path...), Sel{field: -1, idx: mkAdd(src.off, mkInt(sInt, i))})
			vs = append(vs, e.readState(s, src.obj, s.obj(src.obj), sub, et))
		}
		for i, v := range vs {
			sub := append(append([]Sel(nil), dst.path...), Sel{field: -1, idx: mkAdd(mkAdd(dst.off, dst.len), mkInt(sInt, int64(i)))})
			s.write(dst.obj, sub, v, false)
		}
		return SliceV{obj: dst.obj, path: dst.path, off: dst.off, len: mkAdd(dst.len, src.len), cap: dst.cap}
	}
	o := getObj(cx.site(s, "append"), func() *Obj { return &Obj{kind: "append", typ: et, fresh: true} })
	if e.cfg.Unroll > 0 {
		e.uid++
		o = getObj(opq("append", fmt.Sprintf("%s@%d", instrName(cx.in), e.uid)), func() *Obj { return &Obj{kind: "append", typ: et, fresh: true} })
	}
	d := dst
	if dst.obj != nil && !dst.obj.fresh {
		s.log(&Event{kind: "append", obj: dst.obj, path: dst.path, cls: e.classOf(dst.obj, []Sel{{field: -1, idx: zero}}), pos: cx.pos})
	}
	var dstSt *ObjState
	if dst.obj != nil {
		dstSt = s.obj(dst.obj)
	}
	total := mkAdd(dst.len, src.len)
	ncap := app(sInt, "cap", "", o.term)
	s.addGE(leAdd(leTerm(ncap), 1, leTerm(total), -1))
	if src.len.isConst() && src.len.c.IsInt64() && src.len.c.Int64() <= 64 {
		os := &ObjState{base: &Base{kind: "copy", src: dst.obj, srcSt: dstSt, srcSl: &d}}
		n := int(src.len.c.Int64())
		for i := 0; i < n; i++ {
			idx := mkAdd(src.off, mkInt(sInt, int64(i)))
			sub := append(append([]Sel(nil), src.path...), Sel{field: -1, idx: idx})
			v := e.readState(s, src.obj, s.obj(src.obj), sub, et)
			os.writes = append(os.writes, Write{[]Sel{{field: -1, idx: mkAdd(dst.len, mkInt(sInt, int64(i)))}}, v, false})
		}
		s.setMem(o, os)
		return SliceV{obj: o, off: zero, len: total, cap: ncap}
	}
	srcC := src
	if dst.len.isConstV(0) {
		s.setMem(o, &ObjState{base: &Base{kind: "copy", src: src.obj, srcSt: s.obj(src.obj), srcSl: &srcC}})
		return SliceV{obj: o, off: zero, len: src.len, cap: ncap}
	}
	s.setMem(o, &ObjState{base: &Base{kind: "concat", src: dst.obj, srcSt: dstSt, srcSl: &d, tail: &srcC, tailSt: s.obj(src.obj)}})
	return SliceV{obj: o, off: zero, len: total, cap: ncap}
}

func (e *Engine) copyModel(cx *callCtx, args []Val, s *State) Val {
	dst, ok1 := args[0].(SliceV)
	src, ok2 := args[1].(SliceV)
	if !ok1 || !ok2 {
		panic(Undecided{cx.pos, "copy"})
	}
	zero := mkInt(sInt, 0)
	if dst.obj == nil || src.obj == nil {
		return zero
	}
	if !dst.obj.fresh {
		s.log(&Event{kind: "write", obj: dst.obj, path: []Sel{{field: -1, idx: dst.off}}, cls: e.classOf(dst.obj, []Sel{{field: -1, idx: zero}}), pos: cx.pos})
	}
	srcC := src
	// clamp
	var n *Term
	full := false
	if dst.len == src.len {
		n, full = dst.len, true
	} else if s.decide(mkLe(src.len, dst.len)) {
		n = src.len
		full = s.decide(mkLe(dst.len, src.len))
	} else {
		n, full = dst.len, true
		srcC.len = dst.len
	}
	if full && dst.off.isConstV(0) && len(dst.path) == 0 {
		s.setMem(dst.obj, &ObjState{base: &Base{kind: "copy", src: src.obj, srcSt: s.obj(src.obj), srcSl: &srcC}})
		return n
	}
	if n.isConst() && n.c.IsInt64() && n.c.Int64() <= 64 {
		et := e.elemType(cx.c.Args[0])
		var vs []Val
		for i := int64(0); i < n.c.Int64(); i++ {
			sub := append(append([]Sel(nil), src.path...), Sel{field: -1, idx: mkAdd(src.off, mkInt(sInt, i))})
			vs = append(vs, e.readState(s, src.obj, s.obj(src.obj), sub, et))
		}
		for i, v := range vs {
			sub := append(append([]Sel(nil), dst.path...), Sel{field: -1, idx: mkAdd(dst.off, mkInt(sInt, int64(i)))})
			s.write(dst.obj, sub, v, false)
		}
		return n
	}
	if len(dst.path) == 0 {
		ds := s.obj(dst.obj)
		if t := e.bytesTerm(s, src); t.op == "bigbytes" && n == src.len && len(ds.writes) == 0 && ds.base.kind == "zero" {
			if at, ok := arrayLen(dst, s); ok && s.provesSafe(mkEq(mkAdd(dst.off, n), mkInt(sInt, at))) {
				// right-aligned big-endian bytes in a zero array
				s.setMem(dst.obj, &ObjState{base: &Base{kind: "sym", term: opq("befill", "", t.args[0], mkInt(sInt, at))}})
				return n
			}
		}
		// contents unknown from here on
		s.setMem(dst.obj, &ObjState{base: &Base{kind: "sym", term: opq("hv", "copied", cx.site(s, "copied"))}})
		return n
	}
	panic(Undecided{cx.pos, "partial copy"})
}

// arrayLen is the length of the array or slice object a slice ends with.
func arrayLen(sl SliceV, s *State) (int64, bool) {
	if a, ok := sl.obj.typ.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	if c := mkAdd(sl.off, sl.cap); c.isConst() && c.c.IsInt64() {
		return c.c.Int64(), true
	}
	return 0, false
}

// ---- external functions ----

func (e *Engine) freshErr(cx *callCtx, s *State) *Term { return cx.site(s, "err") }

func isBig(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func (e *Engine) bigOf(s *State, v Val) *Term {
	p, ok := v.(PtrV)
	if !ok || p.obj == nil {
		panic(Undecided{msg: "big.Int operand"})
	}
	x := e.read(s, p.obj, p.path, p.obj.typ)
	if t, ok := x.(*Term); ok {
		if t.sort == sBig {
			return t
		}
		if t.op == "zero" {
			return mkInt(sBig, 0)
		}
		return app(sBig, "bigval", "", t)
	}
	return app(sBig, "bigval", "", e.valTerm(v))
}

func (e *Engine) setBig(s *State, v Val, t *Term) Val {
	p, ok := v.(PtrV)
	if !ok || p.obj == nil {
		panic(Undecided{msg: "big.Int destination"})
	}
	s.write(p.obj, p.path, t, false)
	if !p.obj.fresh {
		s.log(&Event{kind: "write", obj: p.obj, path: p.path, cls: "big.Int"})
	}
	return v
}

func (e *Engine) newBig(cx *callCtx, s *State, t *Term) Val {
	var bt types.Type
	if p, ok := cx.res.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	o := getObj(cx.site(s, "alloc"), func() *Obj { return &Obj{kind: "alloc", typ: bt, fresh: true} })
	s.setMem(o, &ObjState{base: &Base{kind: "zero"}})
	s.write(o, nil, t, false)
	return PtrV{obj: o}
}

// sortModel replaces the contents of a slice by a sorted permutation.
func (e *Engine) sortModel(cx *callCtx, s *State, sl SliceV, less func(s *State, a, b *Term) *Term, asc bool) {
	if sl.obj == nil {
		return
	}
	if !sl.obj.fresh {
		s.log(&Event{kind: "write", obj: sl.obj, path: []Sel{{field: -1, idx: sl.off}}, cls: e.classOf(sl.obj, []Sel{{field: -1, idx: sl.off}}), pos: cx.pos})
	}
	if !sl.off.isConstV(0) || len(sl.path) > 0 {
		s.setMem(sl.obj, &ObjState{base: &Base{kind: "sym", term: cx.site(s, "sorted")}})
		return
	}
	old := s.obj(sl.obj)
	b := &Base{kind: "sorted", src: sl.obj, srcSt: old, srcSl: &SliceV{obj: sl.obj, off: sl.off, len: sl.len, cap: sl.cap}, asc: asc, term: cx.site(s, "sorted")}
	if less != nil {
		i, j := app(sInt, "sym", "sort.i"), app(sInt, "sym", "sort.j")
		b.lessI, b.lessJ = i, j
		b.less = less(s.clone(), i, j)
		if b.less != nil && !asc {
			et := sl.obj.typ
			vi := e.readQuiet(s, sl.obj, old, i, et)
			vj := e.readQuiet(s, sl.obj, old, j, et)
			if vi != nil && vj != nil && b.less == mkLt(vi, vj) {
				b.asc = true
			}
			if vi != nil && vj != nil && b.less == mkLt(vj, vi) {
				b.desc = true
			}
		}
	}
	if b.asc && len(old.writes) == 0 && strictlyAscending(e, s, old.base) {
		return // already in this order
	}
	regBase(b.term, b)
	s.setMem(sl.obj, &ObjState{base: b})
}

func (e *Engine) readQuiet(s *State, o *Obj, os *ObjState, i *Term, et types.Type) (t *Term) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case ForkOn, Undecided:
				t = nil
				return
			}
			panic(x)
		}
	}()
	v := e.readState(s.clone(), o, os, []Sel{{field: -1, idx: i}}, et)
	t, _ = v.(*Term)
	if t != nil && t.sort.kind != 'i' {
		t = nil
	}
	return t
}

// lessTerm evaluates a comparison closure on symbolic positions.
func (e *Engine) lessTerm(cx *callCtx, s *State, f FuncV, args ...Val) (t *Term) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case ForkOn, Undecided:
				t = nil
				return
			}
			panic(x)
		}
	}()
	rs := e.call(f.fn, args, f.binds, s, cx.fr.depth+1, cx.pos, cx.cs()+"/less")
	if len(rs) == 1 && !rs[0].panic {
		t, _ = rs[0].ret.(*Term)
	}
	return t
}

func ifaceSlice(v Val) (SliceV, bool) {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	s, ok := v.(SliceV)
	return s, ok
}

func (e *Engine) external(cx *callCtx, name string, args []Val, s *State) []RetState {
	switch name {
	case "fmt.Errorf", "errors.New":
		return one(s, e.freshErr(cx, s))
	case "errors.Join":
		// nil only if all are nil
		if sl, ok := args[0].(SliceV); ok && sl.obj != nil && sl.len.isConst() {
			for i := int64(0); i < sl.len.c.Int64(); i++ {
				v := e.read(s, sl.obj, append(append([]Sel(nil), sl.path...), Sel{field: -1, idx: mkAdd(sl.off, mkInt(sInt, i))}), types.Universe.Lookup("error").Type())
				if !s.decide(e.isNil(v)) {
					return one(s, e.freshErr(cx, s))
				}
			}
			return one(s, nilTerm)
		}
		if sl, ok := args[0].(SliceV); ok && sl.obj == nil {
			return one(s, nilTerm)
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock",
		"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		mode := map[string]string{"Lock": "W", "RLock": "R", "Unlock": "UW", "RUnlock": "UR"}[name[strings.LastIndex(name, ".")+1:]]
		p, ok := args[0].(PtrV)
		if !ok {
			panic(Undecided{cx.pos, "mutex value"})
		}
		s.log(&Event{kind: "lock", mode: mode, obj: p.obj, val: e.valTerm(p), pos: cx.pos})
		return one(s, TupleV{})
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		p, ok := args[0].(PtrV)
		if !ok {
			panic(Undecided{cx.pos, "mutex value"})
		}
		got := app(sBool, "trylock", "", cx.site(s, "try"))
		if s.decide(got) {
			mode := "W"
			if strings.HasSuffix(name, "TryRLock") {
				mode = "R"
			}
			s.log(&Event{kind: "lock", mode: mode, obj: p.obj, val: e.valTerm(p), pos: cx.pos})
			return one(s, tTrue)
		}
		return one(s, tFalse)
	case "sort.Slice", "sort.SliceStable":
		sl, ok := ifaceSlice(args[0])
		f, ok2 := args[1].(FuncV)
		if ok && ok2 && f.fn != nil {
			e.sortModel(cx, s, sl, func(s *State, i, j *Term) *Term { return e.lessTerm(cx, s, f, i, j) }, false)
			return one(s, TupleV{})
		}
	case "slices.Sort":
		if sl, ok := args[0].(SliceV); ok {
			e.sortModel(cx, s, sl, nil, true)
			return one(s, TupleV{})
		}
	case "slices.SortFunc", "slices.SortStableFunc":
		sl, ok := args[0].(SliceV)
		f, ok2 := args[1].(FuncV)
		if ok && ok2 {
			asc := f.fn != nil && fullName(f.fn) == "cmp.Compare"
			e.sortModel(cx, s, sl, nil, asc)
			return one(s, TupleV{})
		}
	case "maps.Clone":
		m, ok := args[0].(MapV)
		if ok {
			if m.obj == nil {
				return one(s, m)
			}
			if !m.obj.fresh {
				s.log(&Event{kind: "mapget", obj: m.obj, cls: m.obj.cls, pos: cx.pos})
			}
			o := getObj(cx.site(s, "clone"), func() *Obj { return &Obj{kind: "clone", typ: m.obj.typ, fresh: true} })
			s.setMem(o, &ObjState{base: &Base{kind: "copy", src: m.obj, srcSt: s.obj(m.obj)}})
			return one(s, MapV{obj: o})
		}
	case "maps.Copy":
		d, ok1 := args[0].(MapV)
		m, ok2 := args[1].(MapV)
		if ok1 && ok2 && d.obj != nil {
			if m.obj == nil {
				return one(s, TupleV{})
			}
			if !m.obj.fresh {
				s.log(&Event{kind: "mapget", obj: m.obj, cls: m.obj.cls, pos: cx.pos})
			}
			ds := s.obj(d.obj)
			if len(ds.writes) == 0 && (ds.base.kind == "empty" || ds.base.kind == "zero") {
				s.setMem(d.obj, &ObjState{base: &Base{kind: "copy", src: m.obj, srcSt: s.obj(m.obj)}})
				return one(s, TupleV{})
			}
		}
	case "slices.Clone":
		if sl, ok := args[0].(SliceV); ok {
			if sl.obj == nil {
				return one(s, sl)
			}
			o := getObj(cx.site(s, "clone"), func() *Obj { return &Obj{kind: "clone", typ: sl.obj.typ, fresh: true} })
			c := sl
			s.setMem(o, &ObjState{base: &Base{kind: "copy", src: sl.obj, srcSt: s.obj(sl.obj), srcSl: &c}})
			return one(s, SliceV{obj: o, off: mkInt(sInt, 0), len: sl.len, cap: app(sInt, "cap", "", o.term)})
		}
	case "maps.Keys", "maps.Values":
		if m, ok := args[0].(MapV); ok {
			if m.obj != nil && !m.obj.fresh {
				s.log(&Event{kind: "mapget", obj: m.obj, cls: m.obj.cls, pos: cx.pos})
			}
			return one(s, seqV{kind: name, m: m, os: s.objOrNil(m.obj)})
		}
	case "slices.Collect", "slices.Sorted":
		if q, ok := args[0].(seqV); ok && q.kind == "maps.Keys" {
			if q.m.obj == nil {
				return one(s, e.zero(cx.res))
			}
			kt := q.m.obj.typ.Underlying().(*types.Map).Key()
			o := getObj(cx.site(s, "keys"), func() *Obj { return &Obj{kind: "keys", typ: kt, fresh: true} })
			s.setMem(o, &ObjState{base: &Base{kind: "keys", src: q.m.obj, srcSt: q.os, asc: name == "slices.Sorted"}})
			return one(s, SliceV{obj: o, off: mkInt(sInt, 0), len: e.mapLenState(s, q.m.obj, q.os), cap: app(sInt, "cap", "", o.term)})
		}
	case "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64", "math/bits.LeadingZeros8", "math/bits.LeadingZeros":
		x := args[0].(*Term)
		return one(s, mkLz(x))
	case "math/bits.Len16", "math/bits.Len32", "math/bits.Len64", "math/bits.Len8", "math/bits.Len":
		x := args[0].(*Term)
		return one(s, mkSub(mkInt(sInt, int64(x.sort.w)), mkLz(x)))
	case "math/bits.Add32", "math/bits.Add64", "math/bits.Add":
		x, y, c := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if c.isConstV(0) && y.isConst() {
			k := mkInt(x.sort, 0)
			if s.decide(mkLt(mkBig(x.sort, new(big.Int).Sub(x.sort.max(), uval(y))), x)) {
				k = mkInt(x.sort, 1)
			}
			return one(s, TupleV{mkAdd(x, y), k})
		}
		return one(s, TupleV{mkAdd(mkAdd(x, y), c), app(x.sort, "addcarry", "", x, y, c)})
	case "math/bits.Sub32", "math/bits.Sub64", "math/bits.Sub":
		x, y, c := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if c.isConstV(0) {
			k := mkInt(x.sort, 0)
			if s.decide(mkLt(x, y)) {
				k = mkInt(x.sort, 1)
			}
			return one(s, TupleV{mkSub(x, y), k})
		}
		return one(s, TupleV{mkSub(mkSub(x, y), c), app(x.sort, "subborrow", "", x, y, c)})
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		sl, ok := args[1].(SliceV)
		v, ok2 := args[2].(*Term)
		if ok && ok2 && sl.obj != nil {
			n := v.sort.w / 8
			for i := 0; i < n; i++ {
				bt := toSort(mkShr(v, mkInt(v.sort, int64(8*(n-1-i)))), sU8, false)
				s.write(sl.obj, append(append([]Sel(nil), sl.path...), Sel{field: -1, idx: mkAdd(sl.off, mkInt(sInt, int64(i)))}), bt, false)
			}
			return one(s, TupleV{})
		}
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		sl, ok := args[1].(SliceV)
		if ok && sl.obj != nil {
			so := e.sortOf(cx.res)
			n := so.w / 8
			acc := mkInt(so, 0)
			for i := 0; i < n; i++ {
				v := e.read(s, sl.obj, append(append([]Sel(nil), sl.path...), Sel{field: -1, idx: mkAdd(sl.off, mkInt(sInt, int64(i)))}), types.Typ[types.Uint8]).(*Term)
				acc = mkBit("or", acc, mkShl(toSort(v, so, false), mkInt(so, int64(8*(n-1-i)))))
			}
			return one(s, acc)
		}
	case "math/big.NewInt":
		return one(s, e.newBig(cx, s, toSort(args[0].(*Term), sBig, false)))
	case "(*math/big.Int).Add":
		return one(s, e.setBig(s, args[0], mkAdd(e.bigOf(s, args[1]), e.bigOf(s, args[2]))))
	case "(*math/big.Int).Sub":
		return one(s, e.setBig(s, args[0], mkSub(e.bigOf(s, args[1]), e.bigOf(s, args[2]))))
	case "(*math/big.Int).Mul":
		return one(s, e.setBig(s, args[0], mkMul(e.bigOf(s, args[1]), e.bigOf(s, args[2]))))
	case "(*math/big.Int).Neg":
		return one(s, e.setBig(s, args[0], mkNeg(e.bigOf(s, args[1]))))
	case "(*math/big.Int).Lsh":
		if n := args[2].(*Term); n.isConst() && n.c.IsInt64() && n.c.Int64() <= 256 {
			return one(s, e.setBig(s, args[0], mkMul(e.bigOf(s, args[1]), mkBig(sBig, pow2(int(n.c.Int64()))))))
		}
	case "(*math/big.Int).Set":
		return one(s, e.setBig(s, args[0], e.bigOf(s, args[1])))
	case "(*math/big.Int).SetUint64", "(*math/big.Int).SetInt64":
		return one(s, e.setBig(s, args[0], e.exactTo(s, args[1].(*Term), sBig)))
	case "(*math/big.Int).SetBytes":
		if sl, ok := args[1].(SliceV); ok {
			return one(s, e.setBig(s, args[0], mkBe(e.bytesTerm(s, sl))))
		}
	case "(*math/big.Int).IsUint64":
		v := e.bigOf(s, args[0])
		return one(s, mkAnd(mkLe(mkInt(sBig, 0), v), mkLe(v, mkBig(sBig, sU64.max()))))
	case "(*math/big.Int).IsInt64":
		v := e.bigOf(s, args[0])
		return one(s, mkAnd(mkLe(mkBig(sBig, sInt.min()), v), mkLe(v, mkBig(sBig, sInt.max()))))
	case "(*math/big.Int).Uint64":
		v := e.bigOf(s, args[0])
		if s.decide(mkAnd(mkLe(mkInt(sBig, 0), v), mkLe(v, mkBig(sBig, sU64.max())))) {
			return one(s, toSort(v, sU64, true))
		}
		return one(s, app(sU64, "trunc", "", v))
	case "(*math/big.Int).Sign":
		v := e.bigOf(s, args[0])
		return one(s, e.cmp3(s, v, mkInt(sBig, 0)))
	case "(*math/big.Int).Cmp":
		return one(s, e.cmp3(s, e.bigOf(s, args[0]), e.bigOf(s, args[1])))
	case "(*math/big.Int).BitLen":
		return one(s, app(sInt, "len", "", app(sOpq, "bitlen", "", e.bigOf(s, args[0]))))
	case "(*math/big.Int).Bytes":
		v := e.bigOf(s, args[0])
		t := opq("bigbytes", "", v)
		o := getObj(t, func() *Obj { return &Obj{kind: "sym", typ: types.Typ[types.Uint8], fresh: true} })
		s.setMem(o, &ObjState{base: &Base{kind: "sym", term: t}})
		if s.provesSafe(mkLe(mkInt(sBig, 0), v)) && s.provesSafe(mkLt(v, mkBig(sBig, pow2(128)))) {
			s.assume(mkLe(app(sInt, "len", "", t), mkInt(sInt, 16)), true)
		}
		return one(s, SliceV{obj: o, off: mkInt(sInt, 0), len: app(sInt, "len", "", t), cap: app(sInt, "cap", "", t)})
	case "(*math/big.Int).FillBytes":
		v := e.bigOf(s, args[0])
		if sl, ok := args[1].(SliceV); ok && sl.obj != nil && len(sl.path) == 0 && sl.off.isConstV(0) {
			t := opq("befill", "", v, sl.len)
			s.setMem(sl.obj, &ObjState{base: &Base{kind: "sym", term: t}})
			return one(s, sl)
		}
	case "strings.Cut":
		// before, after, found by the first separator
		if a, ok := args[0].(*Term); ok {
			if b, ok := args[1].(*Term); ok {
				h := app(sInt, "fn", "strings.Index", s.canon(a), s.canon(b))
				if s.decide(mkLt(h, mkInt(sInt, 0))) {
					return one(s, TupleV{a, opq("str", ""), tFalse})
				}
				sl := e.lenOf(s, b)
				return one(s, TupleV{opq("substr", "", a, mkInt(sInt, 0), h), opq("substr", "", a, mkAdd(h, sl), app(sInt, "len", "", a)), tTrue})
			}
		}
	case "strings.IndexByte", "strings.IndexRune":
		if a, ok := args[0].(*Term); ok {
			if b, ok := args[1].(*Term); ok && b.isConst() && b.c.IsInt64() && b.c.Int64() < 128 {
				h := app(sInt, "fn", "strings.Index", s.canon(a), opq("str", string(rune(b.c.Int64()))))
				s.assume(mkLe(mkInt(sInt, -1), h), true)
				return one(s, h)
			}
		}
	case "strconv.ParseUint":
		// the number the text denotes, if it does, rejected above the width asked for
		txt, base, w := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if w.isConstV(0) {
			w = mkInt(sInt, 64)
		}
		if base.isConst() && w.isConst() && w.c.Sign() > 0 && w.c.Cmp(big.NewInt(64)) <= 0 {
			ok := app(sBool, "fn", "strconv.isUint", s.canon(txt), base)
			if !s.decide(ok) {
				return one(s, TupleV{app(sU64, "fn", "strconv.badUint", s.canon(txt), base, w), e.freshErr(cx, s)})
			}
			v := app(sU64, "fn", "strconv.uint", s.canon(txt), base)
			max := mkBig(sU64, new(big.Int).Sub(pow2(int(w.c.Int64())), bigOne))
			if s.decide(mkLt(max, v)) {
				return one(s, TupleV{max, e.freshErr(cx, s)})
			}
			return one(s, TupleV{v, nilTerm})
		}
	case "cmp.Compare", "cmp.Less":
		a, ok1 := args[0].(*Term)
		b, ok2 := args[1].(*Term)
		if ok1 && ok2 && a.sort.kind == 'i' && b.sort.kind == 'i' {
			if name == "cmp.Less" {
				return one(s, mkLt(a, b))
			}
			return one(s, e.cmp3(s, a, b))
		}
	case "strings.Index":
		h := e.pure(s, name, args, cx.res).(*Term)
		s.assume(mkLe(mkInt(sInt, -1), h), true)
		return one(s, h)
	}
	if strings.Contains(name, "netip") {
		if r, ok := e.netip(cx, name, args, s); ok {
			return r
		}
	}
	if exactFn(name) {
		return one(s, e.pure(s, name, args, cx.res))
	}
	// not modelled: the result is an unknown value, what its arguments point to may change
	for _, a := range args {
		switch x := a.(type) {
		case PtrV:
			if x.obj != nil && len(x.path) == 0 && x.obj.fresh {
				s.setMem(x.obj, &ObjState{base: &Base{kind: "sym", term: opq("hv", name, cx.site(s, "ext"))}})
			}
		case SliceV:
			if x.obj != nil && x.obj.fresh {
				s.setMem(x.obj, &ObjState{base: &Base{kind: "sym", term: opq("hv", name, cx.site(s, "ext"))}})
			}
		}
	}
	v := e.pure(s, name, args, cx.res)
	s.setLit(app(sBool, "hv", name, e.valTerm(v)), true)
	return one(s, v)
}

// exactFn: deterministic functions of their arguments without effects, whose meaning no
// property depends on beyond that.
func exactFn(name string) bool {
	for _, p := range []string{"(net/netip.", "net/netip.", "go4.org/netipx.", "(go4.org/netipx.", "(*go4.org/netipx.", "(github.com/hansthienpondt/nipam", "(k8s.io/", "k8s.io/", "strings.Index", "fmt.Spr"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type seqV struct {
	kind string
	m    MapV
	os   *ObjState
}

func (s *State) objOrNil(o *Obj) *ObjState {
	if o == nil {
		return nil
	}
	return s.obj(o)
}

// lzConst counts the leading zeros of a value of which they and the next bit are known.
func lzConst(x *Term) (int, bool) {
	if x.sort.kind != 'i' || x.sort.w > 64 {
		return 0, false
	}
	v := newBits().vec(x)
	for i := len(v) - 1; i >= 0; i-- {
		if affEq(v[i], affOne) {
			return len(v) - 1 - i, true
		}
		if v[i].Sign() != 0 {
			return 0, false
		}
	}
	return len(v), true
}

func mkLz(x *Term) *Term {
	if n, ok := lzConst(x); ok {
		return mkInt(sInt, int64(n))
	}
	if x.isConst() {
		return mkInt(sInt, int64(x.sort.w-uval(x).BitLen()))
	}
	return app(sInt, "lz", "", x)
}

// exactTo converts to a wider sort keeping the value.
func (e *Engine) exactTo(s *State, t *Term, so Sort) *Term {
	le := s.lift(t)
	return mkLin(so, le.c, le.ms)
}

func (e *Engine) cmp3(s *State, a, b *Term) *Term {
	if s.decide(mkLt(a, b)) {
		return mkInt(sInt, -1)
	}
	if s.decide(mkLt(b, a)) {
		return mkInt(sInt, 1)
	}
	return mkInt(sInt, 0)
}

// bytesTerm identifies the contents of a byte slice.
func (e *Engine) bytesTerm(s *State, sl SliceV) *Term {
	if sl.obj == nil {
		return opq("bytes", "nil")
	}
	os := s.obj(sl.obj)
	if len(os.writes) == 1 && len(os.writes[0].path) == 0 && sl.off.isConstV(0) {
		if t, ok := os.writes[0].val.(*Term); ok {
			return t
		}
	}
	if len(os.writes) == 0 && os.base.kind == "sym" && sl.off.isConstV(0) {
		return os.base.term
	}
	if len(os.writes) == 0 && os.base.kind == "copy" && os.base.srcSl != nil && sl.off.isConstV(0) {
		src := *os.base.srcSl
		t := e.bytesTermState(s, src, os.base.srcSt)
		return t
	}
	return e.bytesTermState(s, sl, os)
}

func (e *Engine) bytesTermState(s *State, sl SliceV, os *ObjState) *Term {
	if len(os.writes) == 1 && len(os.writes[0].path) == 0 && sl.off.isConstV(0) {
		if t, ok := os.writes[0].val.(*Term); ok {
			return t
		}
	}
	if len(os.writes) == 0 && sl.off.isConstV(0) {
		b := os.base
		switch b.kind {
		case "sym":
			return b.term
		case "copy":
			if b.srcSl != nil && b.srcSt != nil {
				return e.bytesTermState(s, *b.srcSl, b.srcSt)
			}
		case "concat":
			// zero padding in front of the minimal big-endian bytes of a number
			if b.srcSt != nil && len(b.srcSt.writes) == 0 && b.srcSt.base.kind == "zero" && b.tailSt != nil {
				tt := e.bytesTermState(s, *b.tail, b.tailSt)
				if tt.op == "bigbytes" {
					return opq("befill", "", tt.args[0], mkAdd(b.srcSl.len, b.tail.len))
				}
			}
			return opq("concat", "", e.bytesOr(s, b.srcSl, b.srcSt), e.bytesTermState(s, *b.tail, b.tailSt))
		}
	}
	return opq("bytes", fmt.Sprintf("%p", os), sl.obj.term, sl.off, sl.len)
}

func (e *Engine) bytesOr(s *State, sl *SliceV, os *ObjState) *Term {
	if os == nil {
		return opq("bytes", "nil")
	}
	return e.bytesTermState(s, *sl, os)
}

var _ = big.NewInt
