package main

import (
	"go/types"
	"math/big"
	"strings"
)

// Model of net/netip and go4.org/netipx: an address is its bit length, its 128-bit number
// (As16 read big-endian) and its zone. Constructed addresses are addr(bitlen, number, zone),
// others opaque with the same three observations.

func mkBe(b *Term) *Term {
	if b.op == "befill" && len(b.args) == 2 {
		return b.args[0]
	}
	return app(sBig, "be", "", b)
}

// fullBytes: minimal big-endian bytes that fill the whole array are the padded bytes.
func fullBytes(s *State, b *Term, n int64) *Term {
	if b.op == "bigbytes" && s.provesSafe(mkEq(app(sInt, "len", "", b), mkInt(sInt, n))) {
		return opq("befill", "", b.args[0], mkInt(sInt, n))
	}
	return b
}

var in4Lo, in4Hi = new(big.Int).SetUint64(0xffff00000000), new(big.Int).SetUint64(0xffffffffffff)

func is4in6(n *Term) *Term {
	return mkAnd(mkLe(mkBig(sBig, in4Lo), n), mkLe(n, mkBig(sBig, in4Hi)))
}

func mkAddr(bl int64, num, zone *Term) *Term {
	return opq("addr", "", mkInt(sInt, bl), num, zone)
}

var noZone = opq("str", "")

func (e *Engine) addrBits(s *State, a *Term) *Term {
	if a.op == "addr" {
		return a.args[0]
	}
	t := app(sInt, "fn", "netip.BitLen", a)
	in := mkOr(mkEq(t, mkInt(sInt, 32)), mkEq(t, mkInt(sInt, 128)))
	s.assume(mkOr(mkEq(t, mkInt(sInt, 0)), in), true)
	return t
}

func (e *Engine) addrNum(s *State, a *Term) *Term {
	if a.op == "addr" {
		return a.args[1]
	}
	n := mkBe(opq("fn", "(net/netip.Addr).As16", a))
	is4 := mkEq(e.addrBits(s, a), mkInt(sInt, 32))
	switch s.triSafe(is4) {
	case 1:
		s.assume(mkLe(mkBig(sBig, in4Lo), n), true)
		s.assume(mkLe(n, mkBig(sBig, in4Hi)), true)
	case 0:
		s.assume(mkOr(mkNot(is4), is4in6(n)), true)
	}
	return n
}

func (e *Engine) addrZone(a *Term) *Term {
	if a.op == "addr" {
		return a.args[2]
	}
	return opq("fn", "netip.Zone", a)
}

// addrCmp orders addresses as netip does.
func (e *Engine) addrCmp(s *State, a, b *Term) *Term {
	if a == b {
		return mkInt(sInt, 0)
	}
	x, y := e.addrBits(s, a), e.addrBits(s, b)
	if !s.decide(mkEq(x, y)) {
		return e.cmp3(s, x, y)
	}
	c := e.cmp3(s, e.addrNum(s, a), e.addrNum(s, b))
	if !c.isConstV(0) {
		return c
	}
	za, zb := e.addrZone(a), e.addrZone(b)
	if s.decide(mkEq(za, zb)) {
		return mkInt(sInt, 0)
	}
	if zb == noZone || s.triSafe(mkEq(zb, noZone)) == 1 {
		return mkInt(sInt, 1)
	}
	if za == noZone || s.triSafe(mkEq(za, noZone)) == 1 {
		return mkInt(sInt, -1)
	}
	if s.decide(app(sBool, "strlt", "", za, zb)) {
		return mkInt(sInt, -1)
	}
	return mkInt(sInt, 1)
}

func (e *Engine) rangeEnds(r *Term) (from, to *Term) {
	if r.op == "iprange" {
		return r.args[0], r.args[1]
	}
	return opq("fn", "netipx.From", r), opq("fn", "netipx.To", r)
}

// sameAddr: equal observations.
func (e *Engine) sameAddr(s *State, a, b *Term) *Term {
	return mkAnd(mkEq(e.addrBits(s, a), e.addrBits(s, b)), mkEq(e.addrNum(s, a), e.addrNum(s, b)), mkEq(e.addrZone(a), e.addrZone(b)))
}

func isAddr(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/netip" && n.Obj().Name() == "Addr"
}

func (e *Engine) netip(cx *callCtx, name string, args []Val, s *State) ([]RetState, bool) {
	t := func(i int) *Term {
		if i < len(args) {
			if x, ok := args[i].(*Term); ok {
				return s.canon(x)
			}
		}
		return nil
	}
	ret := func(v Val) ([]RetState, bool) { return one(s, v), true }
	a, b := t(0), t(1)
	if a == nil {
		return nil, false
	}
	name = strings.ReplaceAll(name, "go4.org/", "")
	switch name {
	case "net/netip.ParseAddr":
		if a.op == "fn" && a.str == "(net/netip.Addr).String" {
			if s.decide(mkEq(e.addrBits(s, a.args[0]), mkInt(sInt, 0))) {
				break
			}
			return ret(TupleV{a.args[0], nilTerm})
		}
		er := opq("fn", "netip.ParseAddr.err", a)
		if s.decide(mkEq(er, nilTerm)) {
			p := opq("fn", "netip.ParseAddr", a)
			s.assume(mkEq(e.addrBits(s, p), mkInt(sInt, 0)), false)
			return ret(TupleV{p, nilTerm})
		}
		return ret(TupleV{mkAddr(0, mkInt(sBig, 0), noZone), er})
	case "(net/netip.Addr).BitLen":
		return ret(e.addrBits(s, a))
	case "(net/netip.Addr).IsValid":
		return ret(mkNot(mkEq(e.addrBits(s, a), mkInt(sInt, 0))))
	case "(net/netip.Addr).Is4":
		return ret(mkEq(e.addrBits(s, a), mkInt(sInt, 32)))
	case "(net/netip.Addr).Is6":
		return ret(mkEq(e.addrBits(s, a), mkInt(sInt, 128)))
	case "(net/netip.Addr).Is4In6":
		return ret(mkAnd(mkEq(e.addrBits(s, a), mkInt(sInt, 128)), is4in6(e.addrNum(s, a))))
	case "(net/netip.Addr).Zone":
		return ret(e.addrZone(a))
	case "(net/netip.Addr).WithZone":
		if b == nil {
			break
		}
		if !s.decide(mkEq(e.addrBits(s, a), mkInt(sInt, 128))) {
			return ret(a)
		}
		if s.decide(mkEq(e.addrZone(a), b)) {
			return ret(a)
		}
		return ret(mkAddr(128, e.addrNum(s, a), b))
	case "(net/netip.Addr).Unmap":
		if s.decide(mkAnd(mkEq(e.addrBits(s, a), mkInt(sInt, 128)), is4in6(e.addrNum(s, a)))) {
			return ret(mkAddr(32, e.addrNum(s, a), noZone))
		}
		return ret(a)
	case "(net/netip.Addr).As16":
		if a.op == "addr" {
			return ret(opq("befill", "", a.args[1], mkInt(sInt, 16)))
		}
		e.addrNum(s, a)
		return ret(opq("fn", "(net/netip.Addr).As16", a))
	case "(net/netip.Addr).As4":
		n := e.addrNum(s, a)
		if s.decide(mkEq(e.addrBits(s, a), mkInt(sInt, 0))) {
			s.dead = true // panics
			return nil, true
		}
		if !s.decide(is4in6(n)) && !s.decide(mkEq(e.addrBits(s, a), mkInt(sInt, 32))) {
			s.dead = true
			return nil, true
		}
		return ret(opq("as4", "", n))
	case "net/netip.AddrFrom4":
		if a.op == "as4" {
			return ret(mkAddr(32, a.args[0], noZone))
		}
		n := app(sBig, "be4", "", a)
		s.assume(mkLe(mkBig(sBig, in4Lo), n), true)
		s.assume(mkLe(n, mkBig(sBig, in4Hi)), true)
		return ret(mkAddr(32, n, noZone))
	case "net/netip.AddrFrom16":
		return ret(mkAddr(128, mkBe(a), noZone))
	case "(net/netip.Addr).Compare":
		if b != nil {
			return ret(e.addrCmp(s, a, b))
		}
	case "(net/netip.Addr).Less":
		if b != nil {
			if s.decide(mkEq(e.addrBits(s, a), e.addrBits(s, b))) && s.decide(mkEq(e.addrZone(a), e.addrZone(b))) {
				return ret(mkLt(e.addrNum(s, a), e.addrNum(s, b)))
			}
			return ret(mkLt(e.addrCmp(s, a, b), mkInt(sInt, 0)))
		}
	case "netipx.IPRangeFrom":
		if b != nil {
			// zones are dropped
			if s.decide(mkEq(e.addrZone(a), noZone)) && s.decide(mkEq(e.addrZone(b), noZone)) {
				return ret(opq("iprange", "", a, b))
			}
		}
	case "(netipx.IPRange).From":
		f, _ := e.rangeEnds(a)
		return ret(f)
	case "(netipx.IPRange).To":
		_, x := e.rangeEnds(a)
		return ret(x)
	case "(netipx.IPRange).IsValid", "(netipx.IPRange).Valid":
		return ret(e.rangeValid(s, a))
	case "(netipx.IPRange).Contains":
		if b == nil {
			break
		}
		f, x := e.rangeEnds(a)
		if !s.decide(e.rangeValid(s, a)) || !s.decide(mkEq(e.addrZone(b), noZone)) {
			return ret(tFalse)
		}
		if !s.decide(mkEq(e.addrBits(s, f), e.addrBits(s, b))) {
			return ret(tFalse) // both ends have the same bit length
		}
		n := e.addrNum(s, b)
		return ret(mkAnd(mkLe(e.addrNum(s, f), n), mkLe(n, e.addrNum(s, x))))
	}
	return nil, false
}

func (e *Engine) rangeValid(s *State, r *Term) *Term {
	f, x := e.rangeEnds(r)
	if s.decide(mkEq(e.addrBits(s, f), mkInt(sInt, 0))) || !s.decide(mkEq(e.addrBits(s, f), e.addrBits(s, x))) || !s.decide(mkEq(e.addrZone(f), e.addrZone(x))) {
		return tFalse
	}
	return mkLe(e.addrNum(s, f), e.addrNum(s, x))
}
