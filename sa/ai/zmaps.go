package ai

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Maps with known entries (Engine.ExactMaps): the entries are a tuple of keys
// and values; a range over one visits them in every order. Keys are compared
// with Engine.Order, which knows the order of some unknown strings.

func mapKey(m *Term) *Term { return gfield("mapx", m) }

// SetEntries makes the entries of a map known (keys and values alternating).
func (s *State) SetEntries(m *Term, kv []*Term) { s.heap[mapKey(m)] = MkTuple(kv...) }

func (s *State) entries(m *Term) ([]*Term, bool) {
	t := s.heap[mapKey(m)]
	if t == nil || t.Op != "tuple" {
		return nil, false
	}
	return t.Args, true
}

// order compares two strings: 0 unknown order, else ok.
func (e *Engine) order(a, b *Term) (int, bool) {
	if a == b {
		return 0, true
	}
	if a.Op == "str" && b.Op == "str" {
		return strings.Compare(a.Aux, b.Aux), true
	}
	if e.Order != nil {
		return e.Order(a, b)
	}
	return 0, false
}

func (s *State) keyTerm(k *Term) *Term {
	if isStringTerm(k) || k.Op == "slice" {
		return s.Content(k)
	}
	return k
}

func isStringTerm(t *Term) bool { return t.Typ != nil && isStringType(t.Typ) }

// entry finds a key: index, or -1 if it is surely absent; ok unless unknown.
func (e *Engine) entry(st *State, kv []*Term, k *Term) (int, bool) {
	k = st.keyTerm(k)
	for i := 0; i < len(kv); i += 2 {
		c, ok := e.order(kv[i], k)
		if !ok && isStringTerm(kv[i]) && isStringTerm(k) {
			// equality is enough here
			switch st.Truth(MkBEq(kv[i], k)) {
			case 1:
				return i, true
			case -1:
				continue
			}
		}
		if !ok {
			return 0, false
		}
		if c == 0 {
			return i, true
		}
	}
	return -1, true
}

func (e *Engine) exactUpdate(st *State, m, k, v *Term) {
	kv, ok := st.entries(m)
	if !ok {
		return
	}
	i, ok := e.entry(st, kv, k)
	if !ok {
		delete(st.heap, mapKey(m))
		return
	}
	kv = append([]*Term(nil), kv...)
	if i < 0 {
		kv = append(kv, st.keyTerm(k), v)
	} else {
		kv[i+1] = v
	}
	st.SetEntries(m, kv)
}

func iterKey(fr *Frame, rng ssa.Value) string { return fmt.Sprintf("iter%d:%p", fr.Depth, rng) }

// exactNext is one step of a range over a map with known entries.
func (e *Engine) exactNext(fr *Frame, x *ssa.Next, m *Term, st *State) ([]*State, bool) {
	kv, ok := st.entries(m)
	if !ok {
		return nil, false
	}
	tt := x.Type().(*types.Tuple)
	k := iterKey(fr, x.Iter)
	seen := st.Mon(k)
	var out []*State
	for i := 0; i < len(kv); i += 2 {
		id := strconv.Itoa(i) + ","
		if strings.Contains(","+seen, ","+id) {
			continue
		}
		s := st.clone()
		s.SetMon(k, seen+id)
		s.env[x] = MkTuple(True, kv[i], kv[i+1])
		out = append(out, s)
	}
	if len(out) == 0 {
		st.env[x] = MkTuple(False, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type()))
		out = one(st)
	}
	return out, true
}

// known elements of a slice of strings.
func (e *Engine) elems(st *State, s *Term, el types.Type) ([]*Term, bool) {
	o, off, ln, _ := sliceParts(s)
	n, ok := ln.Int64()
	if !ok || n > 12 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, st.keyTerm(e.load(st, mkIaddr(o, MkAdd(off, MkInt(i)), el), el)))
	}
	return r, true
}

func (e *Engine) setElems(st *State, s *Term, el types.Type, vs []*Term) {
	o, off, _, _ := sliceParts(s)
	for i, v := range vs {
		st.Store(mkIaddr(o, MkAdd(off, MkInt(int64(i))), el), v, el)
	}
}

func (e *Engine) newSlice(st *State, t types.Type, vs []*Term) *Term {
	n := MkInt(int64(len(vs)))
	s := MkSlice(st.Alloc(t, "slice"), MkInt(0), n, n, t)
	e.setElems(st, s, t.Underlying().(*types.Slice).Elem(), vs)
	return s
}

// NewSlice is a new slice with these elements.
func (e *Engine) NewSlice(st *State, t types.Type, vs []*Term) *Term { return e.newSlice(st, t, vs) }

// sortExact sorts a slice whose elements' order is known, in each state.
func (e *Engine) sortExact(st *State, s *Term, el types.Type) bool {
	vs, ok := e.elems(st, s, el)
	if !ok {
		return false
	}
	for i := range vs {
		for j := range vs[:i] {
			if _, ok := e.order(vs[i], vs[j]); !ok {
				return false
			}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { c, _ := e.order(vs[i], vs[j]); return c < 0 })
	e.setElems(st, s, el, vs)
	return true
}

// sortBy sorts by insertion, asking the given comparison.
func (e *Engine) sortBy(st *State, s *Term, el types.Type, less func(st *State, i int, vs []*Term) (*State, int)) (*State, bool) {
	vs, ok := e.elems(st, s, el)
	if !ok {
		return st, false
	}
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0; j-- {
			s2, r := less(st, j, vs)
			if s2 == nil || r == 0 {
				return st, false
			}
			st = s2
			if r < 0 {
				break
			}
			vs[j], vs[j-1] = vs[j-1], vs[j]
			e.setElems(st, s, el, vs)
		}
	}
	return st, true
}

// decide runs a function value that must have one outcome with a known truth.
func (e *Engine) decide(fr *Frame, f *Term, args []*Term, st *State, truth func(st *State, r *Term) int) (*State, int) {
	xs := e.CallValue(fr, f, args, nil, st.clone())
	if len(xs) != 1 || len(xs[0].Res) != 1 {
		return nil, 0
	}
	return xs[0].St, truth(xs[0].St, xs[0].Res[0])
}

// unsortable: the comparison does not decide the order of these elements.
func (e *Engine) unsortable(c *CallCtx, s *Term, el types.Type, st *State) []Exit {
	in, _ := c.Site.(ssa.Instruction)
	e.Record(c.Fr, in, "keys are sorted in byte order", false, "the comparison does not put them in byte order")
	return nil
}

func sliceElem(s *Term) types.Type {
	if s.Typ != nil {
		if u, ok := s.Typ.Underlying().(*types.Slice); ok {
			return u.Elem()
		}
	}
	return nil
}

func init() {
	prev := map[string]Model{}
	for _, n := range []string{"sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc"} {
		n := n
		prev[n] = models[n]
		if prev[n] == nil {
			prev[n] = models["sort.Slice"]
		}
		models[n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			if !e.ExactMaps {
				return prev[n](e, c, st)
			}
			a := c.Args[0]
			if a.Op == "iface" {
				a = a.Args[0]
			}
			el := sliceElem(a)
			if el == nil {
				return prev[n](e, c, st)
			}
			switch n {
			case "sort.Slice", "sort.SliceStable":
				s2, ok := e.sortBy(st, a, el, func(st *State, j int, vs []*Term) (*State, int) {
					return e.decide(c.Fr, c.Args[1], []*Term{MkInt(int64(j)), MkInt(int64(j - 1))}, st, func(st *State, r *Term) int { return st.Truth(r) })
				})
				if ok {
					return ret(s2)
				}
				return e.unsortable(c, a, el, st)
			case "slices.SortFunc", "slices.SortStableFunc":
				s2, ok := e.sortBy(st, a, el, func(st *State, j int, vs []*Term) (*State, int) {
					return e.decide(c.Fr, c.Args[1], []*Term{vs[j], vs[j-1]}, st, func(st *State, r *Term) int { return st.Truth(mkGE0(linOf(MkSub(MkInt(-1), r)))) })
				})
				if ok {
					return ret(s2)
				}
				return e.unsortable(c, a, el, st)
			default:
				if c.Args[0].Op == "iface" && !strings.HasSuffix(typeKey(c.Args[0].Ref.(types.Type)), "sort.StringSlice") {
					break
				}
				if e.sortExact(st, a, el) {
					return ret(st)
				}
			}
			return prev[n](e, c, st)
		}
	}
	mapsKeys := func(op string) Model {
		return func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, MkOp(op, "", c.Sig.Results().At(0).Type(), c.Args[0]))
		}
	}
	models["maps.Keys"] = mapsKeys("mapkeys")
	models["maps.Values"] = mapsKeys("mapvalues")
	for _, n := range []string{"slices.Sorted", "slices.Collect"} {
		n := n
		models[n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			t := c.Sig.Results().At(0).Type()
			u, isSlice := t.Underlying().(*types.Slice)
			a := c.Args[0]
			if a.Op != "mapkeys" && a.Op != "mapvalues" || !e.ExactMaps || !isSlice {
				return e.Default(c, st, false)
			}
			kv, ok := st.entries(a.Args[0])
			if !ok {
				return e.Default(c, st, false)
			}
			var vs []*Term
			for i := 0; i < len(kv); i += 2 {
				if a.Op == "mapvalues" {
					vs = append(vs, kv[i+1])
				} else {
					vs = append(vs, kv[i])
				}
			}
			if n == "slices.Sorted" {
				s := e.newSlice(st, t, vs)
				if !e.sortExact(st, s, u.Elem()) {
					return e.Default(c, st, false)
				}
				return ret(st, s)
			}
			var out []Exit
			permute(len(vs), func(p []int) {
				s := st.clone()
				w := make([]*Term, len(vs))
				id := ""
				for i, j := range p {
					w[i] = vs[j]
					id += strconv.Itoa(j) + ","
				}
				s.SetMon(fmt.Sprintf("iter%d:%p", c.Fr.Depth, c.Site), id)
				out = append(out, Exit{s, []*Term{e.newSlice(s, t, w)}})
			})
			return out
		}
	}
}

func permute(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p = append(p, i)
			rec()
			p = p[:len(p)-1]
			used[i] = false
		}
	}
	rec()
}
