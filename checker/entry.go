package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// funcByName finds a package level function or a method ("(T).m" / "T.m").
func (r *Repo) funcByName(pkg, name string) *ssa.Function {
	p := r.pkgs[pkg]
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		return r.methodOf(p, name[:i], name[i+1:])
	}
	if f, ok := p.Members[name].(*ssa.Function); ok {
		return f
	}
	return nil
}

func (r *Repo) methodOf(p *ssa.Package, tn, mn string) *ssa.Function {
	o, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName)
	if !ok {
		return nil
	}
	return r.methodOfType(o.Type(), p.Pkg, mn)
}

func (r *Repo) methodOfType(t types.Type, pkg *types.Package, mn string) *ssa.Function {
	m, idx, _ := types.LookupFieldOrMethod(t, true, pkg, mn)
	f, ok := m.(*types.Func)
	if !ok || len(idx) != 1 {
		return nil
	}
	return r.prog.FuncValue(f)
}

// symArgs builds symbolic parameters.
func (e *Engine) symArgs(s *State, fn *ssa.Function) []Val {
	var out []Val
	for i, p := range fn.Params {
		n := p.Name()
		if n == "_" || n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		if i == 0 && fn.Signature.Recv() != nil {
			n = "recv"
		}
		t := app(e.sortOf(p.Type()), "sym", n)
		v := e.symVal(s, t, p.Type(), nil, "")
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(PtrV); ok {
				pv.obj.root = 1
			}
		}
		out = append(out, v)
	}
	return out
}

// analyse runs fn on symbolic parameters; an Undecided becomes an error.
func (e *Engine) analyse(fn *ssa.Function, args []Val, st *State) (rs []RetState, err error) {
	defer func() {
		if x := recover(); x != nil {
			switch u := x.(type) {
			case Undecided:
				err = fmt.Errorf("%s: %s", e.repo.pos(u.pos), u.msg)
				return
			case ForkOn:
				err = fmt.Errorf("unexpected split in %s", fn)
				return
			}
			if debug {
				panic(x)
			}
			err = fmt.Errorf("%s: internal: %v", fn, x)
		}
	}()
	if st == nil {
		st = e.start(fn)
	}
	deadline = time.Now().Add(budget())
	defer func() { deadline = time.Time{} }()
	if args == nil {
		args = e.symArgs(st, fn)
	}
	for _, r := range e.Run(fn, args, st) {
		if !r.st.dead {
			rs = append(rs, r)
		}
	}
	return rs, nil
}

func (r *Repo) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := r.prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, r.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// start is the initial state of an entry point: constant tables are known.
func (e *Engine) start(fn *ssa.Function) *State {
	s := newState()
	for o, os := range e.repo.globals() {
		s.setMem(o, os)
	}
	return s
}

var globCache = map[*Repo]map[*Obj]*ObjState{}

// globals evaluates the package initialisers (constant propagation) and keeps the
// variables that nothing writes outside of initialisation.
func (r *Repo) globals() map[*Obj]*ObjState {
	if g, ok := globCache[r]; ok {
		return g
	}
	out := map[*Obj]*ObjState{}
	globCache[r] = out
	var names []string
	for n := range r.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := r.pkgs[n]
		init := p.Func("init")
		if init == nil || p.Pkg.Name() == "main" {
			continue
		}
		e := newEngine(r, Config{Unroll: 5000})
		s := newState()
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				s.setMem(e.globalObj(g), &ObjState{base: &Base{kind: "zero"}})
			}
		}
		rs, err := e.analyse(init, nil, s)
		debugf("globals %s: %v %d", n, err, len(rs))
		if err != nil || len(rs) != 1 {
			continue
		}
		st := rs[0].st
		var keep []*Obj
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Name() == "init$guard" || r.writtenLater(g) {
				continue
			}
			keep = append(keep, e.globalObj(g))
		}
		seen := map[*Obj]bool{}
		for len(keep) > 0 {
			o := keep[0]
			keep = keep[1:]
			if seen[o] {
				continue
			}
			seen[o] = true
			os, ok := st.mem.find(o)
			if !ok {
				continue
			}
			out[o] = os
			for _, w := range os.writes {
				switch v := w.val.(type) {
				case SliceV:
					if v.obj != nil {
						keep = append(keep, v.obj)
					}
				case PtrV:
					if v.obj != nil {
						keep = append(keep, v.obj)
					}
				}
			}
		}
	}
	return out
}

// writtenLater reports whether a global may be changed after initialisation.
func (r *Repo) writtenLater(g *ssa.Global) bool {
	initOnly := map[*ssa.Function]int{} // 1 yes, 2 no
	var isInit func(f *ssa.Function) bool
	isInit = func(f *ssa.Function) bool {
		if strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			return true
		}
		if v, ok := initOnly[f]; ok {
			return v == 1
		}
		initOnly[f] = 2
		callers := 0
		for c := range r.allFuncs() {
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(f) {
							call, ok := in.(*ssa.Call)
							if !ok || call.Call.StaticCallee() != f || !isInit(c) {
								return false
							}
							callers++
						}
					}
				}
			}
		}
		if callers > 0 && !token.IsExported(f.Name()) {
			initOnly[f] = 1
			return true
		}
		return false
	}
	for f := range r.allFuncs() {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if !readOnlyUse(in, g, 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

// readOnlyUse: the address is only used to load elements.
func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return true
		}
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return usesReadOnly(x, depth)
		}
		return true
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
		return usesReadOnly(x.(ssa.Value), depth)
	case *ssa.Index, *ssa.Lookup, *ssa.DebugRef, *ssa.BinOp:
		return true
	case *ssa.Range:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	}
	return false
}

func usesReadOnly(v ssa.Value, depth int) bool {
	for _, r := range *v.Referrers() {
		if !readOnlyUse(r, v, depth+1) {
			return false
		}
	}
	return true
}

func (r *Repo) allFuncs() map[*ssa.Function]bool {
	if r.all != nil {
		return r.all
	}
	r.all = allFunctions(r)
	return r.all
}

func (e *Engine) showVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *Term:
		return x.show(7)
	case StructV:
		var as []string
		st, _ := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			n := ""
			if st != nil {
				n = st.Field(i).Name() + ":"
			}
			as = append(as, n+e.showVal(f))
		}
		return typeName(x.typ) + "{" + strings.Join(as, ", ") + "}"
	case PtrV:
		if x.obj == nil {
			return "nil"
		}
		return "&" + x.obj.String() + pathStr(x.path)
	case SliceV:
		if x.obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s[%s:+%s]", x.obj, x.off.show(4), x.len.show(4))
	case MapV:
		return "map " + x.obj.String()
	case IfaceV:
		return "(" + e.showVal(x.v) + ")"
	case FuncV:
		return "func"
	case TupleV:
		var as []string
		for _, f := range x {
			as = append(as, e.showVal(f))
		}
		return "(" + strings.Join(as, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func (e *Engine) dump(rs []RetState) {
	for i, r := range rs {
		k := "ret " + e.showVal(r.ret)
		if r.panic {
			k = "panic"
		}
		fmt.Printf("--- outcome %d: %s\n", i, k)
		for _, l := range r.st.litOrd {
			fmt.Printf("     lit %v = %s\n", r.st.lits.get(l), l.show(7))
		}
		for _, ev := range r.st.events {
			e.dumpEvent(ev, "     ")
		}
	}
}

func (e *Engine) dumpEvent(ev *Event, ind string) {
	s := ind + "ev " + ev.kind
	if ev.name != "" {
		s += " " + ev.name
	}
	if ev.mode != "" {
		s += " " + ev.mode
	}
	if ev.obj != nil {
		s += " " + ev.obj.String() + pathStr(ev.path) + " <" + ev.cls + ">"
	}
	if ev.key != nil {
		s += " key=" + e.showVal(ev.key)
	}
	if ev.val != nil && ev.kind != "lock" {
		s += " val=" + e.showVal(ev.val)
	}
	for _, a := range ev.args {
		s += " arg=" + e.showVal(a)
	}
	fmt.Println(s)
	if ev.kind == "loop" {
		for bi, b := range ev.rec.backs {
			fmt.Printf("%s  back %d:", ind, bi)
			for _, l := range b.lits {
				fmt.Printf(" [%v %s]", b.st.lits.get(l), l.show(6))
			}
			fmt.Println()
			for _, x := range b.st.events[ev.rec.evStart+1:] {
				e.dumpEvent(x, ind+"    ")
			}
		}
	}
}
