package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// findNullable collects the struct fields of the module that may hold nil:
// nil is stored to them somewhere, or an object is made without setting them.
// That a value stored to one of the other fields is never nil is an obligation
// of the checks that rely on it.
func (p *Program) findNullable() {
	p.nullable = map[string]bool{}
	key := func(t types.Type, name string) string { return types.TypeString(t, nil) + "#" + name }
	for _, fn := range p.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if k, ok := x.Val.(*ssa.Const); ok && k.IsNil() {
						t := fa.X.Type().Underlying().(*types.Pointer).Elem()
						p.nullable[key(t, t.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
					}
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					u, ok := t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					set := map[int]bool{}
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == x {
								// copied as a whole
								for i := 0; i < u.NumFields(); i++ {
									set[i] = true
								}
							}
						case *ssa.FieldAddr:
							for _, s := range *r.Referrers() {
								if st, ok := s.(*ssa.Store); ok && st.Addr == r {
									set[r.Field] = true
								}
							}
						}
					}
					for i := 0; i < u.NumFields(); i++ {
						if !set[i] {
							p.nullable[key(t, u.Field(i).Name())] = true
						}
					}
				}
			}
		}
	}
	ai.NonNilIn = isElement
	ai.NullableLoad = func(addr *ai.Term) bool {
		if addr.Op != "faddr" || len(addr.Args) == 0 || addr.Args[0].Typ == nil {
			return false
		}
		pt, ok := addr.Args[0].Typ.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_, name, _ := strings.Cut(addr.Aux, ":")
		return p.nullable[key(pt.Elem(), name)]
	}
}

// nonNilField tells if field i of a struct type is never nil.
func (c *Ctx) nonNilField(t types.Type, i int) bool {
	return !c.P.nullable[types.TypeString(t, nil)+"#"+t.Underlying().(*types.Struct).Field(i).Name()]
}

// guardNonNil makes it an obligation that fields that are assumed to be set are
// never overwritten with nil.
func (h *harness) guardNonNil() {
	prev := h.e.H.Store
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if prev != nil {
			prev(e, fr, in, addr, val, st)
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !nilable(s.Val.Type()) {
			return
		}
		t := fa.X.Type().Underlying().(*types.Pointer).Elem()
		if h.c.nonNilField(t, fa.Field) {
			e.Record(fr, in, "field is never set to nil", st.Nilness(val) == -1, "field "+t.Underlying().(*types.Struct).Field(fa.Field).Name()+", used without a check elsewhere, may be set to nil")
		}
	}
}

// isElement: the interface of decoded elements. That it never holds a nil
// pointer is an obligation of C03 (guardElements).
func isElement(t types.Type) bool {
	return types.TypeString(t, nil) == "github.com/anivanovic/gotit/pkg/bencode.Bencode"
}

// guardElements makes it an obligation that no element is a nil pointer: what
// is put into a container and what is returned without an error.
func (h *harness) guardElements(elem *types.Interface) {
	typedNil := func(v *ai.Term, st *ai.State) bool {
		if v.Op == "iface" {
			v = v.Args[0]
			return v.Typ != nil && nilable(v.Typ) && st.Nilness(v) != -1
		}
		return false
	}
	isElem := func(t types.Type) bool {
		return isElement(t) || nilable(t) && !types.IsInterface(t) && types.Implements(t, elem)
	}
	prev := h.e.H.Store
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if prev != nil {
			prev(e, fr, in, addr, val, st)
		}
		if s, ok := in.(*ssa.Store); ok && isElement(s.Val.Type()) {
			if _, local := s.Addr.(*ssa.Alloc); !local {
				e.Record(fr, in, "elements are not nil pointers", !typedNil(val, st), "a nil pointer may be stored as an element")
			}
		}
	}
	h.e.H.MapUpd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, m, k, v *ai.Term, st *ai.State) {
		if u, ok := in.(*ssa.MapUpdate); ok && isElement(u.Value.Type()) {
			e.Record(fr, in, "elements are not nil pointers", !typedNil(v, st) && st.Nilness(v) != 1, "a nil pointer may be stored as an element")
		}
	}
	h.e.H.Leave = func(e *ai.Engine, fr *ai.Frame, args []*ai.Term, x ai.Exit) {
		rs := fr.Fn.Signature.Results()
		if rs.Len() == 0 || !isElem(rs.At(0).Type()) || fr.Fn.Blocks == nil {
			return
		}
		if rs.Len() > 1 && x.St.Nilness(x.Res[rs.Len()-1]) == -1 {
			return
		}
		bad := typedNil(x.Res[0], x.St)
		if rs.Len() > 1 && !bad {
			bad = x.Res[0].Op != "iface" && x.St.Nilness(x.Res[0]) != -1
		}
		last := fr.Fn.Blocks[0].Instrs[0]
		e.Record(fr, last, "elements are not nil pointers", !bad, "a nil element may be returned without an error")
	}
}
