package main

import (
	"fmt"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C04: results and stored arguments are detached from live state ----

// origin names the parameter an object was reached from: its number + 1, 0 for none.
func origin(o *Obj, params map[string]int) int {
	if r := rootOf(o); r > 0 {
		return r
	}
	if o == nil || o.fresh {
		return 0
	}
	for o.parent != nil {
		o = o.parent
	}
	t := o.term
	for t != nil && (t.op == "cell" || t.op == "deref" || t.op == "mapval") && len(t.args) > 0 {
		t = t.args[0]
	}
	if t != nil && t.op == "sym" {
		return params[t.str]
	}
	return 0
}

var escapeBase map[*Term]*Obj

// escapeMethod is what one analysed method does with references.
type escapeMethod struct {
	fn     *ssa.Function
	rs     []RetState
	params map[string]int
}

func isInternalTree(ct *container) bool {
	n := ct.named.Obj().Name()
	return ct.pkg.Pkg.Path() == treePkg && (n == "Tree" || n == "TreeIterator" || !ct.named.Obj().Exported() && hasMethod(ct, "MergeFromNodes"))
}

func hasMethod(ct *container, name string) bool {
	for i := 0; i < ct.named.NumMethods(); i++ {
		if ct.named.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func escapeCheck(c *Ctx) {
	c.rule("containers and values: every exported method of every named struct type of pkg/ (the radix tree and its iterator, whose results are documented to be live, excepted), and every exported function that takes a map")
	c.rule("no map, slice or object that a result hands out on any path is reached from the receiver, if a caller can change it or some method of the type does")
	c.rule("no map or slice reached from an argument is stored in the receiver, passed to a changing operation of what it holds, or (maps) handed out as part of a result")
	for _, ct := range c.repo.namedTypes("pkg/") {
		if isInternalTree(ct) || len(ct.meths) == 0 || c.repo.isClient(ct.meths[0]) {
			continue
		}
		inID := strings.HasPrefix(ct.pkg.Pkg.Path(), treePkg+"/id")
		e := newEngine(c.repo, Config{Reads: true, Opaque: func(f *ssa.Function) bool { return radixOpaque(f) && !handsOut(f) || !inID && idOpaque(f) }})
		e.summaries = map[string]effect{}
		li := &lockInfo{c: ct, mutable: map[string]bool{}, eng: e}
		var ms []*escapeMethod
		for _, m := range ct.meths {
			if em := c.escapeRun(e, m, true); em != nil {
				ms = append(ms, em)
				continue
			}
			// without what it calls
			e2 := newEngine(c.repo, Config{Reads: true, Opaque: func(f *ssa.Function) bool { return f != m && hasLoop(f) }})
			e2.summaries = e.summaries
			if em := c.escapeRun(e2, m, false); em != nil {
				ms = append(ms, em)
			}
		}
		for f := range e.funcs {
			c.fn(f)
		}
		for _, em := range ms {
			for _, r := range em.rs {
				walkEvents(r.st.events, func(ev *Event, depth int) {
					for _, a := range li.accesses(r.st, ev) {
						if a.write {
							li.mutable[a.cls] = true
						}
					}
				})
			}
		}
		for _, em := range ms {
			c.escapeJudge(li, em)
		}
		if len(ms) > 0 {
			c.counts["methods "+li.c.name()] = len(ms)
		}
	}
	var pkgs []string
	for n := range c.repo.pkgs {
		if strings.HasPrefix(n, "pkg/") {
			pkgs = append(pkgs, n)
		}
	}
	sort.Strings(pkgs)
	for _, n := range pkgs {
		p := c.repo.pkgs[n]
		for _, name := range p.Pkg.Scope().Names() {
			f, ok := p.Members[name].(*ssa.Function)
			if !ok || !f.Object().Exported() || !takesMap(f) || f.TypeParams().Len() > 0 {
				continue
			}
			e := newEngine(c.repo, Config{Reads: true, Opaque: radixOpaque})
			e.summaries = map[string]effect{}
			if em := c.escapeRun(e, f, false); em != nil {
				c.escapeJudge(&lockInfo{mutable: map[string]bool{}, eng: e}, em)
			}
			for f := range e.funcs {
				c.fn(f)
			}
		}
	}
}

// hasLoop: the function or one it calls directly has a loop.
func hasLoop(f *ssa.Function) bool {
	f = body(f)
	if f == nil {
		return false
	}
	loops := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return true
				}
			}
		}
		return false
	}
	if loops(f) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g != f && body(g) != nil && loops(body(g)) {
					return true
				}
			}
		}
	}
	return false
}

// handsOut: the radix tree method returns a tree or an iterator of it.
func handsOut(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	_, ok := res.At(0).Type().Underlying().(*types.Pointer)
	return ok
}

func takesMap(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Map); ok {
			return true
		}
	}
	return false
}

func (c *Ctx) escapeRun(e *Engine, m *ssa.Function, again bool) *escapeMethod {
	// objects are known by where they come from: those of one method only
	e.start(m)
	if escapeBase == nil {
		escapeBase = maps.Clone(objTab)
	}
	objTab = maps.Clone(escapeBase)
	em := &escapeMethod{fn: m, params: map[string]int{}}
	for i, p := range m.Params {
		n := p.Name()
		if n == "_" || n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		if i == 0 && m.Signature.Recv() != nil {
			n = "recv"
		}
		em.params[n] = i + 1
	}
	var err error
	em.rs, err = e.analyse(m, nil, nil)
	if err != nil {
		if !again {
			c.unknown("%s: %v", fnName(m), err)
		}
		return nil
	}
	c.fn(m)
	c.paths += len(em.rs)
	return em
}

func (c *Ctx) escapeJudge(li *lockInfo, em *escapeMethod) {
	isMethod := em.fn.Signature.Recv() != nil
	name := fnName(em.fn)
	at := c.repo.fnPos(em.fn)
	refArg := func(i int) (m, s bool) {
		if i <= 0 || isMethod && i == 1 {
			return false, false
		}
		switch em.fn.Params[i-1].Type().Underlying().(type) {
		case *types.Map:
			return true, false
		case *types.Slice:
			return false, true
		}
		return false, false
	}
	// a slice or map inside an object the caller passed
	inner := func(o *Obj, i int) bool {
		if i <= 0 || isMethod && i == 1 || o.parent == nil {
			return false
		}
		_, ptr := em.fn.Params[i-1].Type().Underlying().(*types.Pointer)
		return ptr && o.ref
	}
	for _, r := range em.rs {
		// what is stored
		stored := map[*Obj]bool{}
		walkEvents(r.st.events, func(ev *Event, depth int) {
			var vs []Val
			var objs []*Obj
			switch ev.kind {
			case "write", "append", "mapset":
				if origin(ev.obj, em.params) != 1 || !isMethod {
					return
				}
				vs = []Val{ev.val}
				for _, o := range li.eng.reach(r.st, ev.val) {
					stored[o] = true
				}
			case "call":
				if strings.HasPrefix(ev.name, "Table.") && mutatingOps[ev.name] {
					vs = ev.args
				} else if ef, ok := li.eng.summaries[ev.name]; ok && len(ef.writes) > 0 {
					objs = ev.reach
				} else {
					return
				}
			default:
				return
			}
			objs = append(objs, li.eng.reach(r.st, vs...)...)
			c.sites++
			for _, o := range objs {
				if m, s := refArg(origin(o, em.params)); m || s || inner(o, origin(o, em.params)) {
					c.viol(name+":stores-argument", c.repo.pos(ev.pos), fmt.Sprintf("%s stores the caller's own %s: the caller can change what is stored", name, em.fn.Params[origin(o, em.params)-1].Name()), pathDetail(r.st)...)
					return
				}
			}
			c.ok("%s stores no argument of the caller at %s", name, c.repo.pos(ev.pos))
		})
		if r.panic {
			continue
		}
		for k, v := range results(em.fn, r.ret) {
			acc := map[*Obj]bool{}
			li.eng.open(r.st, v, acc)
			bad := ""
			for _, o := range li.eng.reach(r.st, v) {
				i := origin(o, em.params)
				debugf("escape %s: result %d: %s op=%s,%s cls=%q typ=%v fresh=%v origin=%d changes=%v", name, k, o, o.term.op, o.term.str, o.cls, o.typ, o.fresh, i, li.changes(o))
				if m, _ := refArg(i); m {
					bad = fmt.Sprintf("result %d of %s holds the caller's own %s", k, name, em.fn.Params[i-1].Name())
				}
				if isMethod && (i == 1 || stored[o]) && (acc[o] || li.changes(o)) {
					bad = fmt.Sprintf("result %d of %s shares %s with the receiver", k, name, li.describe(o))
				}
			}
			if bad != "" {
				c.viol(fmt.Sprintf("%s:result%d", name, k), at, bad, pathDetail(r.st)...)
			} else {
				c.ok("result %d of %s is detached", k, name)
			}
		}
	}
}

func results(fn *ssa.Function, v Val) []Val {
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	if t, ok := v.(TupleV); ok {
		return t
	}
	return []Val{v}
}

func (li *lockInfo) describe(o *Obj) string {
	if o.cls != "" {
		return o.cls
	}
	if o.typ != nil {
		return typeName(o.typ)
	}
	return "memory"
}

// changes: some exported method of the type changes the object.
func (li *lockInfo) changes(o *Obj) bool {
	if o.cls != "" && li.mutable[ownCls(o.cls)] {
		return true
	}
	if o.typ == nil {
		return false
	}
	n := typeName(o.typ)
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	for cls := range li.mutable {
		if strings.HasPrefix(cls, n+".") {
			return true
		}
	}
	return false
}

// open lists the maps and slices a caller can change through a value: itself, or what
// exported fields and interfaces hold.
func (e *Engine) open(s *State, v Val, acc map[*Obj]bool) {
	switch x := v.(type) {
	case SliceV:
		if x.obj != nil {
			acc[x.obj] = true
		}
	case MapV:
		if x.obj != nil {
			acc[x.obj] = true
		}
	case IfaceV:
		e.open(s, x.v, acc)
	case StructV:
		if st, ok := x.typ.Underlying().(*types.Struct); ok {
			for i, f := range x.f {
				if i < st.NumFields() && st.Field(i).Exported() {
					e.open(s, f, acc)
				}
			}
		}
	}
}

func init() { checks["C04"] = escapeCheck }
