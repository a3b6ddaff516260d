package ai

import "go/types"

// Sum is the ghost function S(i) = f(0)+...+f(i-1) of an integer field f of the
// elements of an array; f is extended arbitrarily to other indices, S with it.
type Sum struct {
	Obj   *Term // array object
	Elem  types.Type
	Field int
	// NonNeg: no summed number is negative
	NonNeg bool
}

func (q *Sum) value(st *State, i *Term) *Term {
	u := q.Elem.Underlying().(*types.Struct)
	return st.Load(mkFaddr(mkIaddr(q.Obj, i, q.Elem), u, q.Field), u.Field(q.Field).Type())
}

// At is S(i).
func (q *Sum) At(st *State, i *Term) *Term {
	l := linOf(i)
	k, ok := mkBigInt(l.k).Int64()
	if !ok || k > 3 || k < -3 {
		return MkOp("fn", "sum", nil, q.Obj, i)
	}
	base := mkLin(l.plus(-k))
	r := MkInt(0)
	if len(l.ts) > 0 {
		r = MkOp("fn", "sum", intType, q.Obj, base)
	}
	for j := int64(0); j < k; j++ {
		r = MkAdd(r, q.value(st, MkAdd(base, MkInt(j))))
	}
	for j := k; j < 0; j++ {
		r = MkSub(r, q.value(st, MkAdd(base, MkInt(j))))
	}
	return r
}

// derived are the values of S to be generalized along with an index.
func (q *Sum) derived(n newSym, a, b *State) []newSym {
	var r []newSym
	for k := int64(0); k <= 1; k++ {
		fa, fb := q.At(a, MkAdd(n.ta, MkInt(k))), q.At(b, MkAdd(n.tb, MkInt(k)))
		r = append(r, newSym{q.At(a, MkAdd(n.s, MkInt(k))), fa, fb})
	}
	return append(r, newSym{q.value(a, n.s), q.value(a, n.ta), q.value(b, n.tb)})
}

// relate adds S(x) == S(n) for the x whose sum is talked about and that equal n.
func (q *Sum) relate(st *State, n *Term) {
	seen := map[*Term]bool{}
	var xs []*Term
	for _, c := range st.cons {
		for _, t := range c.l.ts {
			if t.a.Op == "fn" && t.a.Aux == "sum" && t.a.Args[0] == q.Obj && !seen[t.a] {
				seen[t.a] = true
				xs = append(xs, t.a.Args[1])
			}
		}
	}
	for _, x := range xs {
		if x == n {
			continue
		}
		for k := int64(-1); k <= 1; k++ {
			y := MkAdd(x, MkInt(k))
			if st.EqInt(y, n) {
				st.Assume(mkEQ0(linOf(MkSub(q.At(st, y), q.At(st, n)))), true)
				break
			}
		}
	}
}

// Relate adds S(x) == S(n) where x == n is known.
func (q *Sum) Relate(st *State, ns ...*Term) {
	for _, n := range ns {
		q.relate(st, n)
	}
}

// Known is the summed number at index i under the name the state uses for it.
func (q *Sum) Known(st *State, i *Term) []*Term {
	r := []*Term{q.value(st, i)}
	seen := map[*Term]bool{}
	for _, c := range st.cons {
		for _, t := range c.l.ts {
			if t.a.Op != "ld" || seen[t.a] {
				continue
			}
			seen[t.a] = true
			el, _, ok := elemOfPath(t.a.Args[0])
			if ok && el.Args[0] == q.Obj && t.a == q.value(st, el.Args[1]) && st.EqInt(el.Args[1], i) {
				r = append(r, t.a)
			}
		}
	}
	return r
}
