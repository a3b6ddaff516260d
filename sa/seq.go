package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// sequence follows the construction of a slice whose element i must satisfy
// ok(i): ghost counts how many elements at its start do.
type sequence struct {
	rule, note string
	ghost      string
	elem       types.Type
	ok         func(st *ai.State, addr, i *ai.Term) bool
	active     func(fr *ai.Frame) bool
}

// track counts the good elements of slices with the given element type.
func (h *harness) track(q *sequence) {
	prev := h.e.H.Elem
	h.e.H.Elem = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, st *ai.State) {
		if prev != nil {
			prev(e, fr, in, addr, st)
		}
		pt, ok := addr.Typ.Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), q.elem) || q.active != nil && !q.active(fr) {
			return
		}
		i, n := ai.IndexOf(addr), st.Ghost(q.ghost)
		if n == nil {
			return
		}
		switch {
		case st.EqInt(i, n):
			if q.ok(st, addr, n) {
				st.SetGhost(q.ghost, ai.MkAdd(n, ai.MkInt(1)))
			}
		case st.LT(i, n):
			e.Record(fr, in, q.rule, q.ok(st, addr, i), q.note+" (element "+i.String()+")")
		default:
			e.Record(fr, in, q.rule, false, q.note+": element "+i.String()+" is set out of order ("+n.String()+" are complete)")
		}
	}
}

// fieldOfType is the only field of a struct with the type.
func fieldOfType(t types.Type, want string) string {
	u := t.Underlying().(*types.Struct)
	r := ""
	for i := 0; i < u.NumFields(); i++ {
		if types.TypeString(u.Field(i).Type(), nil) == want {
			if r != "" {
				return ""
			}
			r = u.Field(i).Name()
		}
	}
	return r
}
