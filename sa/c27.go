package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// checkStats: the figures derived from the counters.
func (c *Ctx) checkStats() {
	nf := c.fn("pkg/stats.NewStats")
	typ := c.typ("pkg/stats", "Stats")
	su := typ.Underlying().(*types.Struct)
	h := c.newHarness(nf)
	h.e.DisjExit, h.e.Disj = 8, 4
	args := h.args(nf)
	h.keep(args...)
	size := args[0]
	xs := h.call(nf, args, h.st)
	if len(xs) != 1 {
		c.ObligeFn(false, "statistics are made", nf, "NewStats returns in several ways")
		return
	}
	st, p := xs[0].St, xs[0].Res[0]
	h.keep(p)
	// fields that change later
	locked := func(st *ai.State) bool { return len(st.Locks()) > 0 }
	method := ""
	type change struct {
		addr  string
		delta *ai.Term
	}
	var reads []*ai.Term
	var written map[string]bool
	all := map[string]bool{}
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if method != "" && addr.Op == "faddr" && addr.Args[0] == p {
			written[addr.Aux], all[addr.Aux] = true, true
			e.Record(fr, in, "counters change atomically", locked(st), "counter "+addr.Aux+" is changed without an atomic operation or a lock")
		}
	}
	counterOf := func(a *ai.Term) string {
		for a.Op == "faddr" && len(a.Args) > 0 {
			if a.Args[0] == p {
				return a.Aux
			}
			a = a.Args[0]
		}
		return ""
	}
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if method == "" || !strings.Contains(cc.Name, "sync/atomic.") || len(cc.Args) == 0 {
			return nil, false
		}
		f := counterOf(cc.Args[0])
		if f == "" {
			return nil, false
		}
		switch m := cc.Method(); {
		case strings.HasPrefix(m, "Add"):
			st.SetMon("add", st.Mon("add")+f+";")
			st.SetGhost("delta", cc.Args[1])
			st.SetGhost("new", nil)
			return nil, false
		case strings.HasPrefix(m, "Load"):
		default:
			e.Record(cc.Fr, site(cc), "counters change by additions", false, "counter "+f+" is changed by "+m)
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if method == "" || !strings.Contains(cc.Name, "sync/atomic.") || len(cc.Args) == 0 {
			return
		}
		if f := counterOf(cc.Args[0]); f != "" && strings.HasPrefix(cc.Method(), "Load") {
			x.St.SetMon("read", x.St.Mon("read")+f+";")
			reads = append(reads, x.Res[0])
		}
	}
	// plain counters are unknown at the start of every method
	start := func() *ai.State {
		s := st.Clone()
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				fa := ai.FieldAddr(p, su, i)
				if s.EqInt(s.Load(fa, ft), size) {
					continue // set once, see below
				}
				s.Store(fa, h.sym(s, su.Field(i).Name(), ft), ft)
			}
		}
		return s
	}
	run := func(name string) (*ssa.Function, []*ai.Term, []ai.Exit, *ai.State) {
		fn := c.fn("pkg/stats.Stats." + name)
		a := h.args(fn)
		h.keep(a...)
		a[0] = p
		s := start()
		before := s.Clone()
		method, reads, written = name, nil, map[string]bool{}
		xs := h.call(fn, a, s)
		method = ""
		return fn, a, xs, before
	}
	// changes by a method: the counter changed
	one := func(name string, want func(a []*ai.Term) *ai.Term) string {
		fn, a, xs, before := run(name)
		counter := ""
		for _, x := range xs {
			f := strings.TrimSuffix(x.St.Mon("add"), ";")
			d := x.St.Ghost("delta")
			if f == "" {
				for i := 0; i < su.NumFields(); i++ {
					if written[fmt.Sprintf("%d:%s", i, su.Field(i).Name())] {
						fa, ft := ai.FieldAddr(p, su, i), su.Field(i).Type()
						f += fmt.Sprintf("%d:%s", i, su.Field(i).Name())
						w := want(a)
						d = nil
						old, now := before.Load(fa, ft), x.St.Load(fa, ft)
						if x.St.EqInt(now, ai.MkAdd(old, w)) {
							d = w
						} else if now.Op == "wrap" && len(now.Args) == 2 && now.Args[0] == old {
							switch {
							case strings.HasPrefix(now.Aux, "+"):
								d = now.Args[1]
							case strings.HasPrefix(now.Aux, "-"):
								d = ai.MkSub(ai.MkInt(0), now.Args[1])
							}
						}
					}
				}
			}
			ok := f != "" && !strings.Contains(f, ";") && d != nil && sameMod(x.St, d, want(a))
			c.ObligeFn(ok, "each change counts exactly once", fn, fmt.Sprintf("%s changes %q by %v", name, f, d))
			if counter == "" {
				counter = f
			} else if f != counter {
				c.ObligeFn(false, "each change counts exactly once", fn, name+" changes different counters")
			}
		}
		return counter
	}
	arg := func(a []*ai.Term) *ai.Term { return a[1] }
	plus := func(a []*ai.Term) *ai.Term { return ai.MkInt(1) }
	minus := func(a []*ai.Term) *ai.Term { return ai.MkInt(-1) }
	dl, ul := one("AddDownload", arg), one("AddUpload", arg)
	pa, pr := one("AddPeer", plus), one("RemovePeer", minus)
	ta, tr := one("AddTracker", plus), one("RemoveTracker", minus)
	c.ObligeFn(dl != ul && dl != pa && dl != ta && ul != pa && ul != ta && pa != ta, "one counter per figure", nf, "two figures share a counter")
	c.ObligeFn(pa == pr, "one counter per figure", nf, "peers are added to "+pa+" and removed from "+pr)
	c.ObligeFn(ta == tr, "one counter per figure", nf, "trackers are added to "+ta+" and removed from "+tr)
	get := func(name, counter string) {
		fn, _, xs, before := run(name)
		for _, x := range xs {
			ok := false
			if f := strings.TrimSuffix(x.St.Mon("read"), ";"); f != "" {
				ok = f == counter && len(reads) == 1 && x.Res[0] == reads[0]
			} else {
				for i := 0; i < su.NumFields(); i++ {
					if fmt.Sprintf("%d:%s", i, su.Field(i).Name()) == counter {
						ok = x.St.EqInt(x.Res[0], before.Load(ai.FieldAddr(p, su, i), su.Field(i).Type()))
					}
				}
			}
			c.ObligeFn(ok, "figures are the counters", fn, fmt.Sprintf("%s returns %v", name, x.Res[0]))
		}
	}
	get("Download", dl)
	get("Upload", ul)
	get("PeerNum", pa)
	get("TrackerNum", ta)
	// the bytes left
	{
		fn, _, xs, before := run("Left")
		cands := append([]*ai.Term{}, reads...)
		for i := 0; i < su.NumFields(); i++ {
			if fmt.Sprintf("%d:%s", i, su.Field(i).Name()) == dl {
				cands = append(cands, before.Load(ai.FieldAddr(p, su, i), su.Field(i).Type()))
			}
		}
		for _, x := range xs {
			f := x.St.Mon("read")
			c.ObligeFn(strings.ReplaceAll(f, dl+";", "") == "", "left is computed from the downloaded bytes", fn, "the bytes left depend on "+f)
			c.ObligeFn(x.St.LE(x.Res[0], size) && x.St.LE(ai.MkInt(0), x.Res[0]), "left lies between zero and the size", fn, "the bytes left, "+x.Res[0].String()+", may exceed the size or wrap around")
			ok := false
			for _, d := range cands {
				if d.Typ == nil {
					continue
				}
				more, less := x.St.Clone(), x.St.Clone()
				if (!more.Assume(ai.MkGE(d, ai.MkAdd(size, ai.MkInt(1))), true) || more.EqInt(x.Res[0], ai.MkInt(0))) &&
					(!less.Assume(ai.MkGE(size, d), true) || less.EqInt(x.Res[0], ai.MkSub(size, d))) {
					ok = true
				}
			}
			c.ObligeFn(ok, "left is the size minus the downloaded bytes", fn, "the bytes left are "+x.Res[0].String())
		}
	}
	{
		fn, _, xs, _ := run("PercentCompleted")
		for _, x := range xs {
			c.ObligeFn(x.St.LE(ai.MkInt(0), x.Res[0]) && x.St.LE(x.Res[0], ai.MkInt(100)), "percentage lies between 0 and 100", fn, "the percentage "+x.Res[0].String()+" may be outside")
		}
	}
	c.Absorb(h.e)
	c.plainAccess(typ, all)
}

// sameMod: equal as 64-bit numbers.
func sameMod(st *ai.State, a, b *ai.Term) bool {
	if st.EqInt(a, b) {
		return true
	}
	x, ok1 := new(big.Int).SetString(a.Aux, 10)
	y, ok2 := new(big.Int).SetString(b.Aux, 10)
	if a.Op != "int" || b.Op != "int" || !ok1 || !ok2 {
		return false
	}
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	return new(big.Int).Mod(x, m).Cmp(new(big.Int).Mod(y, m)) == 0
}

// plainAccess: outside the constructor the fields of the structure are only
// read, or used in atomic operations, or changed by methods that lock.
func (c *Ctx) plainAccess(typ types.Type, lockedFields map[string]bool) {
	su := typ.Underlying().(*types.Struct)
	atomic, stores := map[int]bool{}, map[int][]ssa.Instruction{}
	loads := map[int][]ssa.Instruction{}
	for _, fn := range c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), typ) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						stores[fa.Field] = append(stores[fa.Field], r)
					case *ssa.UnOp:
						loads[fa.Field] = append(loads[fa.Field], r)
					case *ssa.Call:
						if g := r.Call.StaticCallee(); g != nil && strings.Contains(g.String(), "sync/atomic") {
							atomic[fa.Field] = true
						}
					}
				}
			}
		}
	}
	for i := 0; i < su.NumFields(); i++ {
		name := fmt.Sprintf("%d:%s", i, su.Field(i).Name())
		if lockedFields[name] {
			for _, in := range loads[i] {
				c.Oblige(locksBefore(in), "counters are read under the lock that guards them", in, nil, "counter "+su.Field(i).Name()+" is read without the lock")
			}
			continue
		}
		if atomic[i] {
			for _, in := range append(append([]ssa.Instruction{}, stores[i]...), loads[i]...) {
				c.Oblige(false, "counters change atomically", in, nil, "counter "+su.Field(i).Name()+" is accessed without an atomic operation")
			}
			c.ObligeFn(true, "counters change atomically", c.fn("pkg/stats.NewStats"), "")
			continue
		}
		for _, in := range stores[i] {
			c.Oblige(false, "other fields are set once", in, nil, "field "+su.Field(i).Name()+" is changed after the statistics were made")
		}
	}
}

// locksBefore: a lock is taken in the function before the instruction.
func locksBefore(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		if !b.Dominates(in.Block()) {
			continue
		}
		for _, x := range b.Instrs {
			if x == in {
				break
			}
			if cl, ok := x.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && (strings.HasSuffix(g.String(), "Mutex).Lock") || strings.HasSuffix(g.String(), "Mutex).RLock")) {
					return true
				}
			}
		}
	}
	return false
}
