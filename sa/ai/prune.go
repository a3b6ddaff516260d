package ai

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
)

var leafMemo = map[*Term][]*Term{}

// leaves are the symbols and allocations a term is made of.
func leaves(t *Term) []*Term {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	var r []*Term
	switch t.Op {
	case "sym", "isym", "alloc":
		r = []*Term{t}
	default:
		seen := map[*Term]bool{}
		for _, a := range t.Args {
			for _, l := range leaves(a) {
				if !seen[l] {
					seen[l] = true
					r = append(r, l)
				}
			}
		}
	}
	leafMemo[t] = r
	return r
}

// prune drops memory and facts nothing refers to anymore.
func (e *Engine) prune(s *State, extra ...*Term) map[*Term]bool {
	live := map[*Term]bool{}
	var queue []*Term
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range leaves(t) {
			if !live[l] {
				live[l] = true
				queue = append(queue, l)
			}
		}
	}
	for _, t := range extra {
		mark(t)
	}
	roots := func(st *State) {
		for _, t := range st.env {
			mark(t)
		}
		for _, d := range st.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	roots(s)
	for _, t := range s.ghost {
		mark(t)
	}
	for _, t := range s.locks {
		mark(t)
	}
	for _, st := range e.suspended {
		roots(st)
	}
	for _, t := range e.Keep {
		mark(t)
	}
	allLive := func(t *Term) bool {
		for _, l := range leaves(t) {
			if !live[l] {
				return false
			}
		}
		return true
	}
	// memory reachable from live objects; symbolic bases are always live
	for changed := true; changed; {
		changed = false
		n := len(live)
		for a, v := range s.heap {
			r := rootOf(a)
			if r.Op != "alloc" && !(r.Op == "sym" && !e.inputs[r]) || live[r] {
				if allLive(a) || r.Op != "alloc" {
					mark(a)
					mark(v)
				}
			}
		}
		for k, o := range s.objs {
			r := rootOf(k)
			if r.Op != "alloc" && !(r.Op == "sym" && !e.inputs[r]) || live[r] {
				mark(o.content)
				mark(o.def)
				mark(o.tail)
				mark(o.tailAt)
			}
		}
		changed = len(live) != n
	}
	for a := range s.heap {
		r := rootOf(a)
		if (r.Op == "alloc" || r.Op == "sym" && !e.inputs[r]) && !live[r] {
			delete(s.heap, a)
		}
	}
	for k := range s.objs {
		r := rootOf(k)
		if (r.Op == "alloc" || r.Op == "sym" && !e.inputs[r]) && !live[r] {
			delete(s.objs, k)
		}
	}
	for l := range s.lits {
		if !allLive(l) {
			delete(s.lits, l)
		}
	}
	dead := map[*Term]bool{}
	for _, c := range s.cons {
		for _, t := range c.l.ts {
			if !allLive(t.a) {
				dead[t.a] = true
			}
		}
	}
	if len(dead) > 0 {
		s.cons = project(s.cons, dead, e.Elim)
	}
	return live
}

// project eliminates the atoms from the constraints (an upper approximation).
func project(cons []Con, dead map[*Term]bool, limit int) []Con {
	list := make([]*Term, 0, len(dead))
	for t := range dead {
		list = append(list, t)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
	coef := func(c Con, x *Term) int64 {
		for _, t := range c.l.ts {
			if t.a == x {
				return t.c
			}
		}
		return 0
	}
	// cheapest first: the atoms an equation defines, then those with few bounds
	next := func() *Term {
		var best *Term
		cost := 0
		k := 0
		for _, x := range list {
			eq, up, down := false, 0, 0
			for _, c := range cons {
				m := coef(c, x)
				switch {
				case m == 0:
					continue
				case c.eq && abs64(m) == 1:
					eq = true
				case c.eq:
					up++
					down++
				case m > 0:
					down++
				default:
					up++
				}
			}
			if !eq && up+down == 0 {
				continue
			}
			list[k] = x
			k++
			n := up * down
			if eq {
				n = -1
			}
			if best == nil || n < cost {
				best, cost = x, n
			}
		}
		list = list[:k]
		return best
	}
	for x := next(); x != nil; x = next() {
		var rest, use []Con
		var eq *Con
		for _, c := range cons {
			if coef(c, x) == 0 {
				rest = append(rest, c)
				continue
			}
			use = append(use, c)
			if c.eq && abs64(coef(c, x)) == 1 && eq == nil {
				cc := c
				eq = &cc
			}
		}
		if len(use) == 0 {
			continue
		}
		if eq != nil {
			k := coef(*eq, x)
			for _, c := range use {
				if c.key() == eq.key() {
					continue
				}
				m := coef(c, x)
				l, ok := c.l.addMul(eq.l, -m*k)
				if ok {
					if t, ok := (Con{l: l, eq: c.eq}).tighten(); ok && !t.l.isConst() {
						rest = append(rest, t)
					}
				}
			}
			// range of x
			lo, hi := atomRange(x)
			sol, _ := eq.l.addMul(linAtom(x), -k)
			sol, _ = sol.scale(-k) // x == sol
			if lo != nil && !sol.isConst() {
				rest = append(rest, Con{l: sol.plusBig(new(big.Int).Neg(lo))})
			}
			if hi != nil && !sol.isConst() {
				rest = append(rest, Con{l: sol.neg().plusBig(hi)})
			}
			cons = reduce(rest)
			continue
		}
		var ups, downs []Con // x <= .., x >= ..
		for _, c := range use {
			var parts []Con
			if c.eq {
				parts = []Con{{l: c.l}, {l: c.l.neg()}}
			} else {
				parts = []Con{c}
			}
			for _, p := range parts {
				if coef(p, x) > 0 {
					downs = append(downs, p)
				} else {
					ups = append(ups, p)
				}
			}
		}
		if lo, hi := atomRange(x); true {
			if lo != nil {
				downs = append(downs, Con{l: linAtom(x).plusBig(new(big.Int).Neg(lo))})
			}
			if hi != nil {
				ups = append(ups, Con{l: linAtom(x).neg().plusBig(hi)})
			}
		}
		if len(ups)*len(downs) <= limit {
			for _, u := range ups {
				for _, d := range downs {
					cu, cd := -coef(u, x), coef(d, x)
					l, ok := d.l.scale(cu)
					if !ok {
						continue
					}
					l, ok = l.addMul(u.l, cd)
					if !ok || l.isConst() {
						continue
					}
					if lb := lowerBoundByRange(l); lb != nil && lb.Sign() >= 0 {
						continue
					}
					if t, ok := (Con{l: l}).tighten(); ok && !t.l.isConst() {
						rest = append(rest, t)
					}
				}
			}
		}
		cons = reduce(rest)
	}
	return cons
}

// Reuse makes a symbol for something new. Unlike MkSym it gives out the same
// symbols again once nothing in the state refers to them anymore, so that the
// rounds of a loop talk about the same symbols.
func (e *Engine) Reuse(st *State, name string, typ types.Type, nullable bool) *Term {
	live := e.prune(st)
	for i := 0; ; i++ {
		n := name + "~" + strconv.Itoa(i) + ":" + types.TypeString(typ, nil)
		if nullable {
			n += "?"
		}
		t := intern("sym", n, typ, nil, nil)
		t.Nullable = nullable
		if !live[t] {
			return t
		}
	}
}
