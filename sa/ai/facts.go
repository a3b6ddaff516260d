package ai

import (
	"go/types"
	"strings"
)

// ElemFact is a predicate of slice elements and their index. The engine keeps
// track of the slices all of whose elements satisfy it.
type ElemFact struct {
	Name   string
	Elem   func(t types.Type) bool
	Holds  func(st *State, v, i *Term) bool
	Assume func(st *State, v, i *Term)
}

// The number of elements at the start of an array known to satisfy the fact is
// kept in a ghost field of the array.
func factCell(f *ElemFact, o *Term) *Term { return gfield("n:"+f.Name, o) }

func isFactCell(a *Term) bool { return a.Op == "gfield" && strings.HasPrefix(a.Aux, "n:") }

func (s *State) factCount(f *ElemFact, o *Term) *Term {
	if n, ok := s.heap[factCell(f, o)]; ok {
		return n
	}
	return MkInt(0)
}

// All tells if every element of a slice satisfies the fact.
func (s *State) All(f *ElemFact, slice *Term) bool {
	o, off, n, _ := sliceParts(slice)
	return s.EqInt(n, MkInt(0)) || s.LE(MkAdd(off, n), s.factCount(f, o))
}

// AssumeAll makes it known that every element of a slice satisfies the fact.
func (s *State) AssumeAll(f *ElemFact, slice *Term) {
	o, off, n, _ := sliceParts(slice)
	s.heap[factCell(f, o)] = MkAdd(off, n)
}

// appended: o holds the elements of s followed by n more.
func (e *Engine) appended(st *State, s, o, at *Term, el types.Type, n int64) {
	so, off, _, _ := sliceParts(s)
	for _, f := range e.Facts {
		if !f.Elem(el) {
			continue
		}
		c := MkInt(0)
		if off == MkInt(0) {
			c = st.factCount(f, so)
		}
		if st.LE(at, c) {
			c = at
			for i := int64(0); i < n; i++ {
				idx := MkAdd(at, MkInt(i))
				if !f.Holds(st, e.load(st, mkIaddr(o, idx, el), el), idx) {
					break
				}
				c = MkAdd(idx, MkInt(1))
			}
		} else if !st.LE(c, at) {
			c = MkInt(0)
		}
		st.heap[factCell(f, o)] = c
	}
}

// storedElem adjusts the facts about a slice of which an element was stored.
func (e *Engine) storedElem(st *State, addr *Term) {
	el := elemAddr(addr)
	if el == nil {
		return
	}
	t := el.Typ.Underlying().(*types.Pointer).Elem()
	for _, f := range e.Facts {
		if !f.Elem(t) {
			continue
		}
		o, i := el.Args[0], el.Args[1]
		n := st.factCount(f, o)
		holds := f.Holds(st, e.load(st, el, t), i)
		switch {
		case holds && st.EqInt(i, n):
			n = MkAdd(i, MkInt(1))
		case holds || st.LE(n, i):
			continue
		case st.LT(i, n):
			n = i
		default:
			n = MkInt(0)
		}
		st.heap[factCell(f, o)] = n
	}
}

func (e *Engine) loadedElem(st *State, addr, v *Term) {
	if addr.Op != "iaddr" || len(e.Facts) == 0 {
		return
	}
	for _, f := range e.Facts {
		if !f.Elem(addr.Typ.Underlying().(*types.Pointer).Elem()) {
			continue
		}
		n := st.factCount(f, addr.Args[0])
		if st.LE(MkInt(0), addr.Args[1]) && st.LT(addr.Args[1], n) {
			f.Assume(st, v, addr.Args[1])
		}
	}
}
