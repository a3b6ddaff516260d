package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C09", Rule: "abstract interpretation of Torrent.Next with the claimed set unknown whenever its lock is taken: the set is used only under the lock; at a return that hands out piece i, i is inside the torrent, was not claimed when the lock was taken, is set in the asking peer's set and exactly bit i was added to the claimed set; at a return without a piece the claimed set is unchanged and no piece (an arbitrary index k) was both unclaimed and available; nothing else changes the claimed set", Run: checkC09})
}

// isMethod tells if the call is the method of a bit set.
func bitsetOp(cc *ai.CallCtx) bool {
	return cc.HasPrefixName("(*github.com/bits-and-blooms/bitset.BitSet).")
}

func isLock(cc *ai.CallCtx) bool {
	return cc.Name == "(*sync.Mutex).Lock" || cc.Name == "(*sync.RWMutex).Lock" || cc.Name == "(sync.Locker).Lock"
}

func isUnlock(cc *ai.CallCtx) bool {
	return cc.Name == "(*sync.Mutex).Unlock" || cc.Name == "(*sync.RWMutex).Unlock" || cc.Name == "(sync.Locker).Unlock"
}

func checkC09(c *Ctx) {
	fn := c.fn("pkg/torrent.Torrent.Next")
	tor := c.typ("pkg/torrent", "Torrent")
	h := c.newHarness(fn)
	h.e.DisjExit = 8
	st := h.st
	t := h.torrent(st)
	have := h.e.Input("have", fn.Params[1].Type())
	k := h.e.Input("k", types.Typ[types.Uint])
	h.keep(have, k)
	n := st.Field(t, tor, "PiecesNum")
	st.Assume(ai.MkGE(n, ai.MkAdd(k, ai.MkInt(1))), true)
	hb := ai.BitsOf(have, st)
	h.keep(hb, ai.BitLen(have, st))
	reqAddr := func(st *ai.State) *ai.Term { return st.Field(t, tor, "requested") }
	h.keep(reqAddr(st))
	st.SetGhost("watch", k)
	for _, avail := range []bool{true, false} {
		s := st.Clone()
		s.Assume(ai.MkBit(hb, k, s), avail)
		if avail {
			s.Assume(ai.MkGE(ai.BitLen(have, s), ai.MkAdd(k, ai.MkInt(1))), true)
		}
		h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
			if isLock(cc) {
				// others may have changed the set up to now
				b := h.sym(x.St, "claimed", types.Typ[types.Uint64])
				ai.SetBits(reqAddr(x.St), b, x.St)
				x.St.SetGhost("claimed", b)
				x.St.SetMon("locked", "1")
				if avail && x.St.Mon("locks") == "" {
					x.St.Assume(ai.MkBit(b, k, x.St), false)
				}
				x.St.SetMon("locks", "1")
			}
			if isUnlock(cc) {
				x.St.SetMon("locked", "")
			}
		}
		h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
			if bitsetOp(cc) && cc.Args[0] == reqAddr(st) {
				e.Record(cc.Fr, site(cc), "claimed set is used under its lock", st.Mon("locked") != "" || cc.Method() == "Len", cc.Method()+" of the claimed set without holding its lock")
			}
			return nil, false
		}
		for _, x := range h.call(fn, []*ai.Term{t, have}, s) {
			i, found := x.Res[0], x.St.Truth(x.Res[1])
			old, now := x.St.Ghost("claimed"), ai.BitsOf(reqAddr(x.St), x.St)
			if old == nil {
				c.ObligeFn(false, "claimed set is used under its lock", fn, "a piece is selected without taking the lock of the claimed set")
				continue
			}
			c.ObligeFn(found != 0, "result is certain", fn, "it is not decided whether a piece was found")
			if found == 1 {
				c.ObligeFn(x.St.Truth(ai.MkBit(old, i, x.St)) == -1, "handed out piece was not claimed", fn, "piece "+i.String()+" is handed out although it may have been claimed already")
				c.ObligeFn(x.St.Truth(ai.MkBit(hb, i, x.St)) == 1, "handed out piece is available", fn, "piece "+i.String()+" is handed out although the peer may not have it")
				c.ObligeFn(x.St.LT(i, n), "handed out piece is inside the torrent", fn, "piece "+i.String()+" is handed out, which may be outside the torrent")
				c.ObligeFn(x.St.Truth(ai.MkBit(now, i, x.St)) == 1, "handed out piece is claimed", fn, "piece "+i.String()+" is handed out but not claimed")
				o := x.St.Clone()
				if o.Assume(ai.MkEq(k, i), false) {
					c.ObligeFn(ai.MkBit(now, k, o) == ai.MkBit(old, k, o), "no other piece is claimed", fn, "pieces are claimed that are not handed out")
				}
			} else {
				c.ObligeFn(now == old, "nothing is claimed without handing it out", fn, "the claimed set changes although no piece is handed out")
				c.ObligeFn(!avail, "available piece is not withheld", fn, "no piece is handed out although an unclaimed one is available")
			}
		}
	}
	c.Absorb(h.e)
	c.AtLeast("handed out piece was not claimed", 1, "returns that hand out a piece")
	c.AtLeast("nothing is claimed without handing it out", 1, "returns that hand out no piece")
	c.AtLeast("claimed set is used under its lock", 2, "uses of the claimed set")
	c.onlyIn("requested", "claimed set changes only in selection", fn, "pkg/torrent.New")
}

var bitsetReads = map[string]bool{"Test": true, "Len": true, "NextClear": true, "NextSet": true, "All": true, "None": true, "Any": true, "Count": true, "String": true, "Clone": true, "Bytes": true, "Words": true, "Equal": true, "DumpAsBits": true}

// onlyIn: the bit set in a field of Torrent is changed only by the functions
// reachable from the given ones.
func (c *Ctx) onlyIn(field, rule string, fns ...any) {
	ok := map[*ssa.Function]bool{}
	for _, f := range fns {
		fn, isFn := f.(*ssa.Function)
		if !isFn {
			fn = c.fn(f.(string))
		}
		for g := range c.P.reach(fn) {
			ok[g] = true
		}
	}
	for _, f := range c.P.AllFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if c.isField(x.Addr, "pkg/torrent", "Torrent", field) {
						c.Oblige(ok[f], rule, in, ai.Root(f), field+" is replaced in "+ai.ShortName(f))
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil || len(x.Common().Args) == 0 || g.Signature.Recv() == nil || !isBitset(g.Signature.Recv().Type()) || bitsetReads[g.Name()] {
						continue
					}
					if c.fromField(x.Common().Args[0], "pkg/torrent", "Torrent", field, map[ssa.Value]bool{}) {
						c.Oblige(ok[f], rule, in, ai.Root(f), g.Name()+" changes "+field+" in "+ai.ShortName(f))
					}
				}
			}
		}
	}
	c.AtLeast(rule, 1, "places that change "+field)
}

// isField tells if an address is the named field of a struct type.
func (c *Ctx) isField(v ssa.Value, path, typ, field string) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return types.Identical(t, c.typ(path, typ)) && t.Underlying().(*types.Struct).Field(fa.Field).Name() == field
}

// fromField tells if a value may be loaded from the field.
func (c *Ctx) fromField(v ssa.Value, path, typ, field string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		return c.isField(x.X, path, typ, field) || c.fromField(x.X, path, typ, field, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.fromField(e, path, typ, field, seen) {
				return true
			}
		}
	case *ssa.Field:
		t := x.X.Type()
		return types.Identical(t, c.typ(path, typ)) && t.Underlying().(*types.Struct).Field(x.Field).Name() == field
	case *ssa.Parameter:
		// a helper given the set: look at its callers
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		for _, f := range c.P.AllFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() && idx < len(ci.Common().Args) {
						if c.fromField(ci.Common().Args[idx], path, typ, field, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
