package main

import (
	"fmt"
	"go/types"
	"sort"

	"gotitsa/ai"
)

// quantity is a number that can be read off an object: an integer field, the
// length of a slice, string or bit set field.
type quantity struct {
	kind  string
	field int
}

// invariant is what a constructor guarantees about the object it returns.
type invariant struct {
	typ     types.Type // struct
	nonNil  []int
	equal   [][2]quantity
	atLeast map[quantity]int64
}

func isBitset(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "BitSet"
}

func quantitiesOf(u *types.Struct) []quantity {
	var r []quantity
	for i := 0; i < u.NumFields(); i++ {
		switch t := u.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				r = append(r, quantity{"int", i})
			} else if t.Info()&types.IsString != 0 {
				r = append(r, quantity{"len", i})
			}
		case *types.Slice:
			r = append(r, quantity{"len", i})
		case *types.Pointer:
			if isBitset(t) {
				r = append(r, quantity{"bits", i})
			}
		}
	}
	return r
}

func (q quantity) of(st *ai.State, p *ai.Term, u *types.Struct) *ai.Term {
	v := st.Load(ai.FieldAddr(p, u, q.field), u.Field(q.field).Type())
	switch q.kind {
	case "len":
		return ai.MkLen(v)
	case "bits":
		if v.Op == "nil" {
			return nil
		}
		return ai.BitLen(v, st)
	}
	return v
}

// inferInvariant generalizes over the objects returned at the exits.
func inferInvariant(typ types.Type, xs []ai.Exit) *invariant {
	u := typ.Underlying().(*types.Struct)
	inv := &invariant{typ: typ, atLeast: map[quantity]int64{}}
	if len(xs) == 0 {
		return inv
	}
	all := func(f func(x ai.Exit) bool) bool {
		for _, x := range xs {
			if !f(x) {
				return false
			}
		}
		return true
	}
	for i := 0; i < u.NumFields(); i++ {
		i := i
		switch u.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
			if all(func(x ai.Exit) bool {
				return x.St.Nilness(x.St.Load(ai.FieldAddr(x.Res[0], u, i), u.Field(i).Type())) == -1
			}) {
				inv.nonNil = append(inv.nonNil, i)
			}
		}
	}
	qs := quantitiesOf(u)
	for i, a := range qs {
		for _, k := range []int64{12, 8, 4, 1, 0} {
			if all(func(x ai.Exit) bool {
				v := a.of(x.St, x.Res[0], u)
				return v != nil && x.St.LE(ai.MkInt(k), v)
			}) {
				inv.atLeast[a] = k
				break
			}
		}
		for _, b := range qs[i+1:] {
			if all(func(x ai.Exit) bool {
				v, w := a.of(x.St, x.Res[0], u), b.of(x.St, x.Res[0], u)
				return v != nil && w != nil && x.St.EqInt(v, w)
			}) {
				inv.equal = append(inv.equal, [2]quantity{a, b})
			}
		}
	}
	return inv
}

// assume makes the invariant known about p.
func (inv *invariant) assume(st *ai.State, p *ai.Term) {
	u := inv.typ.Underlying().(*types.Struct)
	for _, i := range inv.nonNil {
		st.Assume(ai.MkIsNil(st.Load(ai.FieldAddr(p, u, i), u.Field(i).Type())), false)
	}
	for q, k := range inv.atLeast {
		st.Assume(ai.MkGE(q.of(st, p, u), ai.MkInt(k)), true)
	}
	for _, e := range inv.equal {
		st.Assume(ai.MkEq(e[0].of(st, p, u), e[1].of(st, p, u)), true)
	}
}

func (inv *invariant) describe() []string {
	u := inv.typ.Underlying().(*types.Struct)
	name := func(q quantity) string {
		n := u.Field(q.field).Name()
		if q.kind != "int" {
			return q.kind + "(" + n + ")"
		}
		return n
	}
	var r []string
	for _, i := range inv.nonNil {
		r = append(r, u.Field(i).Name()+" != nil")
	}
	for q, k := range inv.atLeast {
		if k >= 1 {
			r = append(r, fmt.Sprint(name(q), " >= ", k))
		}
	}
	for _, e := range inv.equal {
		r = append(r, name(e[0])+" == "+name(e[1]))
	}
	sort.Strings(r)
	return r
}

// torrent makes an unknown torrent as New returns them.
func (h *harness) torrent(st *ai.State) *ai.Term {
	t := h.e.Input("torrent", ptrTo(h.c.typ("pkg/torrent", "Torrent")))
	h.c.torrentInvariant().assume(st, t)
	h.keep(t)
	return t
}

func (c *Ctx) typ(path, name string) types.Type {
	t := c.P.Named(path, name)
	if t == nil {
		panic(missing(path + "." + name))
	}
	return t
}

func (c *Ctx) torrentInvariant() *invariant {
	if c.P.torrentInv == nil {
		h := c.newHarness(c.fn("pkg/torrent.New"))
		c.P.torrentInv = inferInvariant(c.typ("pkg/torrent", "Torrent"), h.torrents())
		c.Note("constructor invariant of torrent.Torrent: %v", c.P.torrentInv.describe())
	}
	return c.P.torrentInv
}
