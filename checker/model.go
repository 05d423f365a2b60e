package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the specification of pkg/tree and the IDs, for the layers above ----

// sKey holds an ID and a length: ID*256 + length, without wrapping.
var sKey = Sort{'i', 80, false}

func mkKey(s *State, id, l *Term) *Term {
	le := leAdd(s.lift(id), 256, s.lift(l), 1)
	return mkLin(sKey, le.c, le.ms)
}

// maskTerm is the leading l bits of an ID of w bits.
func maskTerm(s *State, w int64, v, l *Term) *Term {
	le := s.lift(v)
	v = mkLin(sU64, le.c, le.ms)
	if l.isConst() && l.c.Int64() >= w || v.isConst() && v.c.Sign() == 0 {
		return v
	}
	m := app(sU64, "mask", itoa(int(w)), v, l)
	s.addGE(leAdd(s.lift(v), 1, leTerm(m), -1))
	return m
}

// modelCall interprets the intrinsics of the models.
func (e *Engine) modelCall(c *Ctx, k *Client, s *State, name string, args []Val, res types.Type, pos token.Pos) ([]RetState, bool) {
	switch name {
	case "ClientKeyOf":
		w := args[0].(*Term)
		if !w.isConst() {
			panic(Undecided{pos, "a key of an unknown width"})
		}
		return one(s, mkKey(s, maskTerm(s, w.c.Int64(), args[1].(*Term), args[2].(*Term)), args[2].(*Term))), true
	case "ClientKeyRaw":
		return one(s, mkKey(s, args[0].(*Term), args[1].(*Term))), true
	case "ClientKeyID", "ClientKeyLen":
		kt := args[0].(*Term)
		le := s.lift(kt)
		if id, l, ok := splitKey(le); ok {
			if name == "ClientKeyID" {
				return one(s, leTerm2(Sort{'i', 64, false}, id)), true
			}
			return one(s, leTerm2(Sort{'i', 8, false}, l)), true
		}
		panic(Undecided{pos, "a key of unknown parts"})
	case "clientUndecided":
		c.unknown("%s: %s", k.name, strOf(args[0]))
		return nil, true
	case "clientChoose":
		e.uid++
		return one(s, app(Sort{'i', 64, false}, "sym", fmt.Sprintf("chosen#%d", e.uid))), true
	case "clientChooseBool":
		e.uid++
		return one(s, app(sBool, "sym", fmt.Sprintf("chosen#%d", e.uid))), true
	case "clientSkolem":
		return one(s, skolemOf(args[0])), true
	case "clientUnrolled":
		if e.cfg.Unroll > 0 {
			return one(s, tTrue), true
		}
		return one(s, tFalse), true
	case "clientTrigger":
		s.assume(app(sBool, "trig", "", skolemOf(args[0])), true)
		return one(s, TupleV{}), true
	case "ClientIDsOf":
		return one(s, e.pure(s, "idsof", args, res)), true
	}
	return nil, false
}

func skolemOf(v Val) *Term {
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	return app(sInt, "skolem", "", v.(*Term))
}

func leTerm2(so Sort, l LinExpr) *Term { return mkLin(so, l.c, l.ms) }

// splitKey takes 256*id + len apart, if the coefficients tell.
func splitKey(le LinExpr) (id, l LinExpr, ok bool) {
	k := big.NewInt(256)
	id, l = LinExpr{c: new(big.Int)}, LinExpr{c: new(big.Int)}
	q, r := new(big.Int).DivMod(le.c, k, new(big.Int))
	id.c, l.c = q, r
	nl := 0
	for _, m := range le.ms {
		q, r := new(big.Int).DivMod(m.coef, k, new(big.Int))
		if r.Sign() == 0 {
			id.ms = append(id.ms, Mono{q, m.atom})
			continue
		}
		if m.coef.Cmp(bigOne) != 0 || m.atom.sort.w != 8 || m.atom.sort.signed {
			return id, l, false
		}
		nl++
		l.ms = append(l.ms, m)
	}
	if nl > 1 || nl == 1 && l.c.Sign() != 0 {
		return id, l, false
	}
	return id, l, true
}

// idParts is the value and length of an ID known to be of one width.
func (e *Engine) idParts(s *State, v Val) (id, l *Term, typ types.Type) {
	if iv, ok := v.(IfaceV); ok {
		id, l, _ = e.idParts(s, iv.v)
		typ = iv.dyn
		return
	}
	if p, ok := v.(PtrV); ok && p.obj != nil && len(p.path) == 0 {
		r := e.readNoFork(s, p.obj, nil, p.obj.typ)
		if r == nil {
			return nil, nil, nil
		}
		return e.idParts(s, r)
	}
	sv, ok := v.(StructV)
	if !ok || len(sv.f) != 2 {
		return nil, nil, nil
	}
	for _, f := range sv.f {
		t, ok := f.(*Term)
		if !ok || t.sort.kind != 'i' {
			return nil, nil, nil
		}
		if t.sort.w == 8 {
			l = t
		} else {
			id = t
		}
	}
	if id == nil || l == nil {
		return nil, nil, nil
	}
	return id, l, sv.typ
}

// idSpec: what C13 establishes of IDs, for IDs whose length is not a constant.
func (e *Engine) idSpec(s *State, n string, f *ssa.Function, args []Val) ([]RetState, bool) {
	if f == nil || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "/pkg/tree/id") {
		return nil, false
	}
	switch f.Name() {
	case "Overlaps":
		if len(args) != 2 {
			return nil, false
		}
		v1, l1, _ := e.idParts(s, args[0])
		v2, l2, _ := e.idParts(s, args[1])
		if v1 == nil || v2 == nil || v1.sort != v2.sort || l1.isConst() && l2.isConst() {
			return nil, false
		}
		if v1.id > v2.id {
			v1, l1, v2, l2 = v2, l2, v1, l1
		}
		return one(s, app(sBool, "overl", "", v1, l1, v2, l2)), true
	case "LastID":
		if len(args) != 1 {
			return nil, false
		}
		v, l, t := e.idParts(s, args[0])
		if v == nil || t == nil || l.isConst() {
			return nil, false
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		last := app(v.sort, "last", "", v, l)
		s.addGE(leAdd(leTerm(last), 1, s.lift(v), -1))
		sv := StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			if e.sortOf(st.Field(i).Type()).w == 8 {
				sv.f = append(sv.f, mkInt(l.sort, int64(v.sort.w)))
			} else {
				sv.f = append(sv.f, last)
			}
		}
		return one(s, IfaceV{dyn: t, v: sv}), true
	}
	return nil, false
}

// idFacts: overlapping IDs of one length have the same leading bits; two prefixes of one
// ID overlap.
func (e *Engine) idFacts(s *State, atoms []*Term) bool {
	var ov []*Term
	for _, a := range atoms {
		if a.op == "overl" && len(a.args) == 4 {
			ov = append(ov, a)
		}
	}
	if len(ov) > 16 {
		return true
	}
	swap := func(a *Term) []*Term { return []*Term{a.args[2], a.args[3], a.args[0], a.args[1]} }
	for _, a := range ov {
		v, known := s.lits.find(a)
		if !known {
			continue
		}
		if s.provesSafe(mkEq(a.args[1], a.args[3])) {
			w := int64(a.args[0].sort.w)
			eq := mkEq(maskTerm(s, w, a.args[0], a.args[1]), maskTerm(s, w, a.args[2], a.args[3]))
			if s.triSafe(eq) == 0 && !s.assume(eq, v) || s.triSafe(eq) == 1 != v {
				return false
			}
		}
		for _, b := range ov {
			if a == b {
				continue
			}
			vb, kb := s.lits.find(b)
			if kb && vb == v {
				continue
			}
			same := true
			for i, x := range swap(a) {
				if !s.sameTerm(x, b.args[i], 4) {
					same = false
					break
				}
			}
			if same && (kb || !s.assume(b, v)) {
				return false
			}
			if same || kb && vb || !v {
				continue
			}
			// a: c overlaps the full-length x; b: c and a constant prefix of x
			for _, p := range [][]*Term{a.args, swap(a)} {
				for _, q := range [][]*Term{b.args, swap(b)} {
					w := int64(p[2].sort.w)
					if !q[2].isConst() || !q[3].isConst() || !p[3].isConst() || p[3].c.Int64() != w || q[3].c.Int64() > w {
						continue
					}
					if !s.sameTerm(p[0], q[0], 4) || !s.sameTerm(p[1], q[1], 4) || !s.provesSafe(mkLe(p[1], p[3])) {
						continue
					}
					lo := leAdd(s.lift(p[2]), 1, s.lift(q[2]), -1)
					hi := leAdd(s.lift(q[2]), 1, s.lift(p[2]), -1)
					hi.c = new(big.Int).Add(hi.c, new(big.Int).Lsh(bigOne, uint(w-q[3].c.Int64())))
					if s.entailsGE(lo) && s.entailsGE(hi.addConst(-1)) {
						if kb || !s.assume(b, true) {
							return false
						}
						kb, vb = true, true
					}
				}
			}
		}
	}
	return true
}

// made is the type of the value a constructor wraps in an interface.
func made(f *ssa.Function) types.Type {
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeInterface); ok && !types.Implements(m.X.Type(), errorIface) {
				return m.X.Type()
			}
		}
	}
	return nil
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// concreteIDs: stored entries and IDs are of the types the constructors make.
func (r *Repo) concreteIDs(pkg string) func(e *Engine, s *State, ct *Term, t types.Type) Val {
	w := strings.TrimLeft(pkg[strings.LastIndex(pkg, "/")+1:], "abcdefghijklmnopqrstuvwxyz")
	tp, ip := r.pkgs["pkg/tree"], r.pkgs["pkg/tree/id"+w]
	if tp == nil || ip == nil {
		return nil
	}
	entry, id := made(tp.Func("NewEntry")), made(ip.Func("NewID"))
	if entry == nil || id == nil {
		return nil
	}
	return func(e *Engine, s *State, ct *Term, t types.Type) Val {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() != tp.Pkg {
			return nil
		}
		switch n.Obj().Name() {
		case "ClientKey":
			if ct.op == "rangekey" {
				return nil
			}
			return mkKey(s, app(sU64, "keyid", "", ct), app(Sort{'i', 8, false}, "keylen", "", ct))
		case "Entry":
			return IfaceV{dyn: entry, v: e.symVal(s, ct, entry, nil, "")}
		case "ID":
			return IfaceV{dyn: id, v: e.symVal(s, ct, id, nil, "")}
		}
		return nil
	}
}
