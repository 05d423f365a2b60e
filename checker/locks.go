package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- containers ----

// container is a type whose values are shared between goroutines.
type container struct {
	named *types.Named
	pkg   *ssa.Package
	meths []*ssa.Function // exported methods declared on the type
}

func (c *container) name() string { return c.pkg.Pkg.Name() + "." + c.named.Obj().Name() }

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// hasMutex: the type holds a mutex directly or through nested structs of its own package.
func hasMutex(t types.Type, pkg *types.Package, seen map[types.Type]bool) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if isMutex(t) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != pkg {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if hasMutex(st.Field(i).Type(), pkg, seen) {
			return true
		}
	}
	return false
}

func (r *Repo) methods(n *types.Named, exported bool) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if exported && !m.Exported() {
			continue
		}
		if f := r.prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (r *Repo) namedTypes(pkgPrefix string) []*container {
	var names []string
	for n := range r.pkgs {
		if strings.HasPrefix(n, pkgPrefix) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []*container
	for _, n := range names {
		p := r.pkgs[n]
		for _, tn := range p.Pkg.Scope().Names() {
			o, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}
			nt, ok := o.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			out = append(out, &container{named: nt, pkg: p, meths: r.methods(nt, true)})
		}
	}
	return out
}

// lockedTypes are the types that carry a mutex.
func (r *Repo) lockedTypes() []*container {
	var out []*container
	for _, c := range r.namedTypes("pkg/") {
		if hasMutex(c.named, c.pkg.Pkg, map[types.Type]bool{}) && len(c.meths) > 0 {
			out = append(out, c)
		}
	}
	return out
}

// ---- opaque radix tree methods ----

func recvTypeName(fn *ssa.Function) (pkg, typ string) {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	r := fn.Signature.Recv()
	if r == nil {
		if p := fnPkg(fn); p != nil {
			return p.Path(), ""
		}
		return "", ""
	}
	t := r.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

const treePkg = modPath + "/pkg/tree"

// radixOpaque: the methods of the radix tree and its iterator that are summarised
// instead of being inlined into the wrappers.
func radixOpaque(fn *ssa.Function) bool {
	p, t := recvTypeName(fn)
	if p != treePkg || (t != "Tree" && t != "TreeIterator") {
		return false
	}
	return !simpleCtor(fn)
}

// idOpaque: the functions of the ID packages.
func idOpaque(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), treePkg+"/id")
}

// simpleCtor: a loop-free function without calls whose body only builds a value
// (Tree.Iterate): it is inlined.
func simpleCtor(fn *ssa.Function) bool {
	fn = body(fn)
	if len(fn.Blocks) != 1 || fn.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if _, b := c.Call.Value.(*ssa.Builtin); !b {
				return false
			}
		}
	}
	return true
}

// effect of a radix method on the memory it reaches through its parameters.
type effect struct {
	reads, writes map[string]bool // by owning type name
}

// effects computes which struct types' memory a function and its repo callees may
// read or write, ignoring objects the function itself allocates.
func (r *Repo) effects(fn *ssa.Function) effect {
	ef := effect{map[string]bool{}, map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, freshParams map[ssa.Value]bool)
	visit = func(f *ssa.Function, freshParams map[ssa.Value]bool) {
		f = body(f)
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if o := owner(x.Addr, freshParams); o != "" {
						ef.writes[o] = true
					}
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						if o := owner(x.X, freshParams); o != "" {
							ef.reads[o] = true
						}
					}
				case *ssa.MapUpdate:
					if o := owner(x.Map, freshParams); o != "" {
						ef.writes[o] = true
					}
				case *ssa.Lookup:
					if o := owner(x.X, freshParams); o != "" {
						ef.reads[o] = true
					}
				case *ssa.Range:
					if o := owner(x.X, freshParams); o != "" {
						ef.reads[o] = true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy":
							if o := owner(x.Call.Args[0], freshParams); o != "" {
								ef.writes[o] = true
							}
						}
						for _, a := range x.Call.Args {
							switch a.Type().Underlying().(type) {
							case *types.Slice, *types.Map:
								if o := owner(a, freshParams); o != "" {
									ef.reads[o] = true
								}
							}
						}
						continue
					}
					if cf := x.Call.StaticCallee(); cf != nil && r.inRepo(cf) {
						visit(cf, nil)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a, nil)
		}
	}
	visit(fn, nil)
	return ef
}

// owner names the struct type that owns the memory behind an address; "" for memory
// allocated by the function itself.
func owner(v ssa.Value, fresh map[ssa.Value]bool) string {
	name := ""
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if n := structName(x.X.Type()); n != "" {
				name = n
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Phi:
			v = x.Edges[0]
			for _, e := range x.Edges {
				if o := owner1(e); o {
					v = e
				}
			}
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
			return ""
		case *ssa.Call:
			return ""
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			if name == "" {
				name = structName(v.Type())
			}
			return name
		default:
			return name
		}
	}
	return name
}

func owner1(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.Parameter, *ssa.UnOp:
		return true
	}
	return false
}

func structName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return n.Origin().Obj().Name()
		}
	}
	return ""
}

// ---- reachability in abstract memory ----

func rootOf(o *Obj) int {
	for o != nil {
		if o.root > 0 {
			return o.root
		}
		o = o.parent
	}
	return 0
}

// reach lists the objects reachable from values through the abstract memory of s.
func (e *Engine) reach(s *State, vs ...Val) []*Obj {
	seen := map[*Obj]bool{}
	var out []*Obj
	var val func(v Val)
	var obj func(o *Obj)
	var st func(os *ObjState)
	st = func(os *ObjState) {
		if os == nil {
			return
		}
		for _, w := range os.writes {
			val(w.val)
		}
		b := os.base
		switch b.kind {
		case "copy", "concat", "sorted", "perm", "keys":
			// contents are copies of elements of src, not src itself
		case "compr", "mapcompr":
			for _, el := range b.elems {
				val(el.val)
			}
		}
	}
	obj = func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		out = append(out, o)
		if os, ok := s.mem.find(o); ok {
			st(os)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			obj(x.obj)
		case SliceV:
			if obj(x.obj); x.obj != nil {
				x.obj.ref = true
			}
		case MapV:
			if obj(x.obj); x.obj != nil {
				x.obj.ref = true
			}
		case StructV:
			for _, f := range x.f {
				val(f)
			}
		case TupleV:
			for _, f := range x {
				val(f)
			}
		case IfaceV:
			val(x.v)
		case FuncV:
			for _, f := range x.binds {
				val(f)
			}
			if x.recv != nil {
				val(x.recv)
			}
		}
	}
	for _, v := range vs {
		val(v)
	}
	return out
}

// ---- lock machine ----

type lockMethod struct {
	fn    *ssa.Function
	rs    []RetState
	err   error
	known bool
}

type lockInfo struct {
	c       *container
	meths   []*lockMethod
	mutable map[string]bool
	eng     *Engine
}

func ownCls(cls string) string {
	if strings.HasSuffix(cls, "[]") || cls == "" {
		return cls
	}
	return cls + "[]"
}

// access is one use of shared memory.
type access struct {
	ev    *Event
	cls   string
	write bool
}

func (li *lockInfo) accesses(s *State, ev *Event) []access {
	var out []access
	switch ev.kind {
	case "read", "write", "append":
		if ev.obj != nil && rootOf(ev.obj) > 0 {
			out = append(out, access{ev, ev.cls, ev.kind != "read"})
		}
	case "mapget":
		if rootOf(ev.obj) > 0 {
			out = append(out, access{ev, ownCls(ev.cls), false})
		}
	case "mapset", "mapdel":
		if rootOf(ev.obj) > 0 {
			out = append(out, access{ev, ownCls(ev.cls), true})
		}
	case "call":
		ef, ok := li.eng.summaries[ev.name]
		if !ok {
			return nil
		}
		for _, o := range ev.reach {
			if rootOf(o) == 0 || o.typ == nil {
				continue
			}
			n := typeName(o.typ)
			if i := strings.IndexByte(n, '['); i >= 0 {
				n = n[:i]
			}
			if ef.writes[n] || (n == "Tree" && ef.writes["node"]) {
				out = append(out, access{ev, n + ".*", true})
			} else if ef.reads[n] || (n == "Tree" && ef.reads["node"]) {
				out = append(out, access{ev, n + ".*", false})
			}
		}
	}
	return out
}

// lockAnalysis interprets every exported method of every locked type.
func lockAnalysis(c *Ctx) []*lockInfo {
	var out []*lockInfo
	for _, ct := range c.repo.lockedTypes() {
		e := newEngine(c.repo, Config{Reads: true, Opaque: func(f *ssa.Function) bool { return radixOpaque(f) || idOpaque(f) }})
		e.summaries = map[string]effect{}
		li := &lockInfo{c: ct, mutable: map[string]bool{}, eng: e}
		for _, m := range ct.meths {
			lm := &lockMethod{fn: m}
			t0 := time.Now()
			lm.rs, lm.err = e.analyse(m, nil, nil)
			debugf("%s: %d paths, %v", fnName(m), len(lm.rs), time.Since(t0))
			if lm.err != nil {
				c.unknown("%s: %v", fnName(m), lm.err)
			}
			c.fn(m)
			c.paths += len(lm.rs)
			li.meths = append(li.meths, lm)
		}
		for f := range e.funcs {
			c.fn(f)
		}
		for _, lm := range li.meths {
			for _, r := range lm.rs {
				walkEvents(r.st.events, func(ev *Event, depth int) {
					for _, a := range li.accesses(r.st, ev) {
						if a.write {
							li.mutable[a.cls] = true
						}
					}
				})
			}
		}
		out = append(out, li)
	}
	return out
}

// walkEvents visits all events, including those of loop iterations.
func walkEvents(evs []*Event, f func(ev *Event, depth int)) { walkEventsD(evs, f, 0) }

func walkEventsD(evs []*Event, f func(ev *Event, depth int), d int) {
	for _, ev := range evs {
		f(ev, d)
		if ev.kind == "loop" {
			for _, b := range ev.rec.backs {
				if len(b.st.events) > ev.rec.evStart {
					walkEventsD(b.st.events[ev.rec.evStart+1:], f, d+1)
				}
			}
		}
	}
}

// lockState is the state of the automaton that runs over the events of a path.
type lockState struct {
	held  map[*Term]string // mutex -> R or W
	rootW int              // receiver locks held exclusively
	rootR int
	sect  int          // critical sections entered so far
	acc   map[int]bool // sections with accesses to mutable shared memory
	wr    map[int]bool // ... with writes
}

func newLockState() *lockState {
	return &lockState{held: map[*Term]string{}, acc: map[int]bool{}, wr: map[int]bool{}}
}

func (s *lockState) clone() *lockState {
	n := *s
	n.held = map[*Term]string{}
	for k, v := range s.held {
		n.held[k] = v
	}
	n.acc = map[int]bool{}
	for k := range s.acc {
		n.acc[k] = true
	}
	n.wr = map[int]bool{}
	for k := range s.wr {
		n.wr[k] = true
	}
	return &n
}

func (s *lockState) heldKey() string {
	var ks []string
	for k, v := range s.held {
		ks = append(ks, fmt.Sprintf("%d%s", k.id, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

type lockRule struct {
	c    *Ctx
	li   *lockInfo
	lm   *lockMethod
	mode string // "C01", "C02", "C03"
}

func (r *lockRule) where(ev *Event) string { return r.c.repo.pos(ev.pos) }

func (r *lockRule) key(rule string, ev *Event) string {
	f := ""
	if ev != nil && ev.fn != nil {
		f = "@" + ev.fn.Name()
	}
	return fnName(r.lm.fn) + f + ":" + rule
}

func (r *lockRule) run(st *State, evs []*Event, s *lockState, inLoop bool) {
	for _, ev := range evs {
		switch ev.kind {
		case "loop":
			h := s.heldKey()
			sect := s.sect
			for _, b := range ev.rec.backs {
				if len(b.st.events) <= ev.rec.evStart {
					continue
				}
				n := s.clone()
				r.run(b.st, b.st.events[ev.rec.evStart+1:], n, true)
				if r.mode == "C02" {
					if n.heldKey() != h {
						r.c.viol(r.key("loop-unbalanced", ev), r.where(ev), fmt.Sprintf("an iteration of a loop in %s ends with other locks held than it started with", fnName(ev.rec.fn)), pathDetail(b.st)...)
					} else {
						r.c.ok("")
					}
				}
				for k := range n.acc {
					s.acc[k] = true
				}
				for k := range n.wr {
					s.wr[k] = true
				}
				if n.sect > sect {
					// sections inside the loop: count them once, remember that they repeat
					if r.mode == "C03" {
						for k := sect + 1; k <= n.sect; k++ {
							if n.wr[k] {
								r.c.viol(r.key("section-per-iteration", ev), r.where(ev), fmt.Sprintf("%s changes shared state in a new critical section in every loop iteration", fnName(r.lm.fn)), pathDetail(b.st)...)
							}
						}
					}
					if n.sect > s.sect {
						s.sect = n.sect
					}
				}
			}
		case "lock":
			t := ev.val.(*Term)
			root := ev.obj != nil && rootOf(ev.obj) > 0
			switch ev.mode {
			case "W", "R":
				if m, dup := s.held[t]; dup && r.mode == "C02" {
					r.c.viol(r.key("re-acquire", ev), r.where(ev), fmt.Sprintf("%s acquires a lock (%s) that it already holds (%s)", fnName(r.lm.fn), ev.mode, m), pathDetail(st)...)
				} else if r.mode == "C02" {
					r.c.ok("%s: acquisition at %s finds the lock not held", fnName(r.lm.fn), r.where(ev))
				}
				s.held[t] = ev.mode
				if root {
					s.sect++
					if ev.mode == "W" {
						s.rootW++
					} else {
						s.rootR++
					}
				}
			case "UW", "UR":
				m, ok := s.held[t]
				if r.mode == "C02" {
					if !ok {
						r.c.viol(r.key("unlock-unheld", ev), r.where(ev), fmt.Sprintf("%s releases a lock it does not hold", fnName(r.lm.fn)), pathDetail(st)...)
					} else if "U"+m != ev.mode {
						r.c.viol(r.key("unlock-mode", ev), r.where(ev), fmt.Sprintf("%s releases a lock held in mode %s with the release of the other mode", fnName(r.lm.fn), m), pathDetail(st)...)
					} else {
						r.c.ok("")
					}
				}
				delete(s.held, t)
				if root {
					if m == "W" {
						s.rootW--
					} else if m == "R" {
						s.rootR--
					}
				}
			}
		case "go":
			r.c.unknown("%s starts a goroutine at %s", fnName(r.lm.fn), r.where(ev))
		default:
			for _, a := range r.li.accesses(st, ev) {
				if !r.li.mutable[a.cls] && !a.write {
					continue
				}
				r.c.sites++
				locked := s.rootW > 0 || (!a.write && s.rootR > 0)
				k := s.sect
				if !locked {
					k = -1 - s.sect
				}
				s.acc[k] = true
				if a.write {
					s.wr[k] = true
				}
				if r.mode != "C01" {
					continue
				}
				what := "reads"
				if a.write {
					what = "changes"
				}
				if !locked {
					msg := fmt.Sprintf("%s %s %s without holding the lock of the %s", fnName(r.lm.fn), what, a.cls, r.li.c.name())
					if a.write && s.rootR > 0 {
						msg += " exclusively (only a read lock is held)"
					}
					r.c.viol(r.key("unlocked-"+what+"-"+a.cls, ev), r.where(ev), msg, pathDetail(st)...)
				} else {
					r.c.ok("%s %s %s at %s under the lock", fnName(r.lm.fn), what, a.cls, r.where(ev))
				}
			}
		}
	}
}

func lockCheck(mode string) checkFn {
	return func(c *Ctx) {
		c.rule("containers: every named type of pkg/ that carries a sync.Mutex/RWMutex, plus the dynamic types returned by the table and tree constructors")
		switch mode {
		case "C01":
			c.rule("on every path of every exported method, each access to memory reachable from the receiver that some method changes happens while a mutex reachable from the receiver is held, exclusively for a change")
		case "C02":
			c.rule("on every path of every exported method: a lock is acquired only when not held, released only in the mode it is held in, every loop iteration is lock-neutral, and no lock is held at return")
		case "C03":
			c.rule("on every path of every exported method that changes shared memory, all accesses to mutable shared memory lie in one exclusive section which is not entered per loop iteration")
			c.rule("every exported method of a range or IP table performs at most one mutating operation of the index table per path, outside of loops, with arguments that do not depend on an earlier query of it")
		}
		infos := lockAnalysis(c)
		have := map[string]bool{}
		for _, li := range infos {
			have[li.c.pkg.Pkg.Path()+"."+li.c.named.Obj().Name()] = true
			c.counts["methods "+li.c.name()] = len(li.meths)
			nm := 0
			for _, lm := range li.meths {
				for _, rs := range lm.rs {
					r := &lockRule{c: c, li: li, lm: lm, mode: mode}
					s := newLockState()
					r.run(rs.st, rs.st.events, s, false)
					if mode == "C02" && !rs.panic {
						if len(s.held) > 0 {
							c.viol(r.key("leak", nil), c.repo.fnPos(lm.fn), fmt.Sprintf("%s returns with a lock still held", fnName(lm.fn)), pathDetail(rs.st)...)
						} else {
							c.ok("%s returns with no lock held", fnName(lm.fn))
						}
					}
					if mode == "C03" && len(s.wr) > 0 {
						nm++
						if len(s.acc) > 1 {
							c.viol(r.key("split-section", nil), c.repo.fnPos(lm.fn), fmt.Sprintf("%s checks and changes shared state of the %s in %d separate critical sections", fnName(lm.fn), li.c.name(), len(s.acc)), pathDetail(rs.st)...)
						} else {
							c.ok("%s decides and applies in one section", fnName(lm.fn))
						}
					}
				}
			}
			c.counts["mutable classes "+li.c.name()] = len(li.mutable)
		}
		for _, w := range containerCtors {
			for _, n := range ctorTypes(c, w[0], w[1]) {
				if mode == "C01" {
					if !have[n] {
						c.viol(n+":no-lock", w[0], fmt.Sprintf("the type %s returned by %s.%s has no lock", n, w[0], w[1]))
					} else {
						c.ok("%s carries a lock", n)
					}
				}
			}
		}
		if mode == "C03" {
			tableSections(c)
		}
	}
}

var containerCtors = [][2]string{{"pkg/idxtable", "NewTable"}, {"pkg/tree/tree16", "New"}, {"pkg/tree/tree32", "New"}, {"pkg/tree/tree64", "New"}}

// ctorTypes lists the struct types a constructor returns.
func ctorTypes(c *Ctx, pkg, name string) []string {
	fn := c.repo.funcByName(pkg, name)
	if fn == nil {
		c.unknown("no constructor %s.%s", pkg, name)
		return nil
	}
	set := map[string]bool{}
	var from func(v ssa.Value, d int)
	from = func(v ssa.Value, d int) {
		if d > 8 {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			t := x.X.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				set[n.Obj().Pkg().Path()+"."+n.Origin().Obj().Name()] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				from(e, d+1)
			}
		case *ssa.Call:
			if f := body(x.Call.StaticCallee()); f != nil {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						from(r.Results[0], d+1)
					}
				}
			}
		case *ssa.Extract:
			from(x.Tuple, d+1)
		}
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			from(r.Results[0], 0)
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ---- tables built on the index table ----

var mutatingOps = map[string]bool{"Table.Claim": true, "Table.ClaimDynamic": true, "Table.ClaimRange": true, "Table.ClaimSize": true, "Table.Release": true, "Table.Update": true}

// overTables are the types with a field of the index table interface.
func (r *Repo) overTables() []*container {
	var out []*container
	for _, c := range r.namedTypes("pkg/") {
		st := c.named.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			n, ok := types.Unalias(st.Field(i).Type()).(*types.Named)
			if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/pkg/idxtable" && n.Origin().Obj().Name() == "Table" && len(c.meths) > 0 {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

func tableSections(c *Ctx) {
	ts := c.repo.overTables()
	c.counts["tables over an index table"] = len(ts)
	for _, ct := range ts {
		for _, m := range ct.meths {
			e := newEngine(c.repo, Config{})
			rs, err := e.analyse(m, nil, nil)
			for f := range e.funcs {
				c.fn(f)
			}
			if err != nil {
				c.unknown("%s: %v", fnName(m), err)
				continue
			}
			for _, r := range rs {
				c.paths++
				n := 0
				queries := map[*Term]string{}
				walkEvents(r.st.events, func(ev *Event, d int) {
					if ev.kind != "call" || !strings.HasPrefix(ev.name, "Table.") {
						return
					}
					c.sites++
					if !mutatingOps[ev.name] {
						for _, v := range ev.rets {
							if t, ok := v.(*Term); ok {
								queries[t] = ev.name
							}
						}
						return
					}
					n++
					key := fnName(m) + ":" + ev.name
					if d > 0 {
						c.viol(key+":loop", c.repo.pos(ev.pos), fmt.Sprintf("%s performs %s once per loop iteration: the operation is not one step", fnName(m), ev.name), pathDetail(r.st)...)
					}
					if n > 1 {
						c.viol(key+":second", c.repo.pos(ev.pos), fmt.Sprintf("%s performs a second mutating operation (%s) of the index table on one path", fnName(m), ev.name), pathDetail(r.st)...)
					}
					dep := ""
					for _, a := range ev.args {
						valTerms(a, func(t *Term) {
							mentions(t, func(x *Term) bool {
								if q, ok := queries[x]; ok {
									dep = q
								}
								return false
							})
						})
					}
					if dep != "" {
						c.viol(key+":stale", c.repo.pos(ev.pos), fmt.Sprintf("%s passes the result of an earlier %s to %s: another operation can intervene", fnName(m), dep, ev.name), pathDetail(r.st)...)
					} else if n == 1 && d == 0 {
						c.ok("%s: one %s at %s", fnName(m), ev.name, c.repo.pos(ev.pos))
					}
				})
			}
		}
	}
}

// valTerms visits the terms inside a value.
func valTerms(v Val, f func(t *Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case StructV:
		for _, y := range x.f {
			valTerms(y, f)
		}
	case TupleV:
		for _, y := range x {
			valTerms(y, f)
		}
	case IfaceV:
		valTerms(x.v, f)
	case SliceV:
		if x.obj != nil {
			f(x.off)
			f(x.len)
			f(x.obj.term)
		}
	case PtrV:
		if x.obj != nil {
			f(x.obj.term)
		}
	case MapV:
		if x.obj != nil {
			f(x.obj.term)
		}
	}
}

func init() {
	for _, m := range []string{"C01", "C02", "C03"} {
		checks[m] = lockCheck(m)
	}
}
