package ai

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

// Concat is the concatenation of byte contents.
func Concat(ps ...*Term) *Term { return mkConcat(ps) }

// BE is x as w big-endian bytes.
func BE(x *Term, w int) *Term { return mkBES(x, w, 0, w) }

// BEInt is the number the w bytes of a content stand for.
func BEInt(c *Term, w int) *Term { return mkBEInt(c, w) }

// Clen is the length of a content.
func Clen(c *Term) *Term { return clen(c) }

// Sha1 is the digest of a content.
func Sha1(c *Term) *Term { return mkHash("sha1", c) }

// Elem is byte i of a content.
func (s *State) Elem(c, i *Term) *Term { return s.elemOf(c, i) }

// Same tells if two contents are known to be equal.
func (s *State) Same(a, b *Term) bool {
	return a == b || s.Truth(MkBEq(a, b)) == 1 || s.congruent(a, b)
}

// congruent: the same operation on equal operands.
func (s *State) congruent(a, b *Term) bool {
	if a == b {
		return true
	}
	if isIntTerm(a) && isIntTerm(b) {
		return s.EqInt(a, b)
	}
	if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	switch a.Op {
	case "csub", "concat", "bes", "hash", "zeros", "beint", "fn":
	default:
		return false
	}
	for i := range a.Args {
		if !s.congruent(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// Is tells if an integer is known to have the value.
func (s *State) Is(a *Term, k int64) bool { return s.EqInt(a, MkInt(k)) }

// Possible tells if a condition may hold.
func (s *State) Possible(t *Term, val bool) bool {
	if val {
		return s.Truth(t) != -1
	}
	return s.Truth(t) != 1
}

// Field reads a named field of the struct p points to.
func (s *State) Field(p *Term, t types.Type, name string) *Term {
	a, ft := FieldAddrOf(p, t, name)
	if a == nil {
		return nil
	}
	return s.Load(a, ft)
}

// FieldAddrOf is the address of a named field of the struct p points to.
func FieldAddrOf(p *Term, t types.Type, name string) (*Term, types.Type) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return mkFaddr(p, u, i), u.Field(i).Type()
		}
	}
	return nil, nil
}

// SliceParts are object, offset, length and capacity of a slice.
func SliceParts(s *Term) (obj, off, ln, cp *Term) { return sliceParts(s) }

// IndexAddr is the address of element i of a slice's object.
func IndexAddr(obj, i *Term, elem types.Type) *Term { return mkIaddr(obj, i, elem) }

// Method is the name of the method or function called.
func (c *CallCtx) Method() string { return shortOf(c.Name) }

// IsConnOp tells if the call is the method of a network connection.
func (c *CallCtx) IsConnOp(names ...string) bool {
	for _, t := range []string{"(net.Conn).", "(*net.TCPConn).", "(*net.UDPConn).", "(io.Writer).", "(io.Reader).", "(io.Closer)."} {
		for _, n := range names {
			if c.Name == t+n {
				return true
			}
		}
	}
	return false
}

// HasPrefixName tells if the called function's full name starts so.
func (c *CallCtx) HasPrefixName(p string) bool { return strings.HasPrefix(c.Name, p) }

// StreamContent is everything a reader will deliver.
func StreamContent(r *Term) *Term { return streamOf(ReaderOf(r)) }

// MkScale is k*x.
func MkScale(x *Term, k int64) *Term {
	l, ok := linOf(x).scale(k)
	if !ok {
		return MkSym("scaled", intType)
	}
	return mkLin(l)
}

// IndexOf is the element index of an address, nil if it is none.
func IndexOf(addr *Term) *Term {
	if addr.Op == "iaddr" && len(addr.Args) == 2 {
		return addr.Args[1]
	}
	return nil
}

// WordAt tells if an integer is the 8 bytes of a content at the position, with
// zeros behind its end.
func WordAt(s *State, v, want, at *Term) bool {
	if v.Op != "beint" || v.Aux != "8" {
		return false
	}
	x := v.Args[0]
	base, off := x, MkInt(0)
	if x.Op == "csub" {
		base, off = x.Args[0], x.Args[1]
	}
	// the wanted content starts at this place of base
	start := MkSub(off, at)
	if base == want || s.Same(s.Csub(base, start, clen(want)), want) {
		return behind(s, base, MkAdd(start, clen(want)))
	}
	if want.Op == "csub" && base == want.Args[0] && s.EqInt(off, MkAdd(want.Args[1], at)) {
		return s.LE(MkAdd(at, MkInt(8)), clen(want))
	}
	// the bytes themselves, of a whole word and of the last one
	full := mkGE0(linOf(MkSub(MkSub(clen(want), at), MkInt(8))))
	for _, whole := range []bool{true, false} {
		t := s.clone()
		t.Assume(full, whole)
		if t.dead {
			continue
		}
		n := MkInt(8)
		if !whole {
			n = MkSub(clen(want), at)
		}
		x := t.Csub(base, off, MkInt(8))
		if !t.Same(t.Csub(x, MkInt(0), n), t.Csub(want, at, n)) || !behind(t, x, n) {
			return false
		}
	}
	return true
}

// behind: only zeros from the position on.
func behind(s *State, c, at *Term) bool {
	rest := s.Csub(c, at, MkSub(clen(c), at))
	for _, p := range pieces(rest) {
		switch {
		case p.Op == "zeros":
		case p.Op == "str" && strings.Trim(p.Aux, "\x00") == "":
		default:
			return s.EqInt(clen(rest), MkInt(0))
		}
	}
	return true
}

func isIntTerm(t *Term) bool {
	return t.Op == "int" || t.Op == "lin" || t.lo != nil || t.Typ != nil && isIntType(t.Typ)
}

// SetBits replaces the value of a bit set.
func SetBits(p, v *Term, st *State) { st.heap[gfield("bits", p)] = v }

// MkDiv and MkMod are quotient and remainder as the engine represents them.
func MkDiv(a, b *Term) *Term { return MkOp("div", "", intType, a, b) }
func MkMod(a, b *Term) *Term { return MkOp("mod", "", intType, a, b) }

// Value is the number summed at index i.
func (q *Sum) Value(st *State, i *Term) *Term { return q.value(st, i) }

// ElemIndexOf is the index i when the term is the address of (or was loaded
// from) element i of the array, or a part of it.
func ElemIndexOf(t, obj *Term) *Term {
	if t.Op == "ld" {
		t = t.Args[0]
	}
	el, _, ok := elemOfPath(t)
	if !ok || el.Args[0] != obj {
		return nil
	}
	return el.Args[1]
}

// LoadedIndex is the index of the element a value was loaded from.
func LoadedIndex(t *Term) *Term {
	if t.Op != "ld" {
		return nil
	}
	if el, _, ok := elemOfPath(t.Args[0]); ok {
		return el.Args[1]
	}
	return nil
}

// IntCells are the memory cells with numbers in them.
func (s *State) IntCells() map[*Term]*Term {
	r := map[*Term]*Term{}
	for a, v := range s.heap {
		if v.IsInt() && !isFactCell(a) && a.Op != "gfield" {
			r[a] = v
		}
	}
	return r
}

// Value is the value of an SSA value, nil if it has none yet.
func (s *State) Value(v ssa.Value) *Term { return s.env[v] }

// Lens are the lengths the state talks about.
func (s *State) Lens() []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, c := range s.cons {
		for _, t := range c.l.ts {
			if t.a.Op == "len" && !seen[t.a] {
				seen[t.a] = true
				r = append(r, t.a)
			}
		}
	}
	return r
}

// FromInputs tells if a term is made of unchanging inputs only.
func (e *Engine) FromInputs(t *Term) bool {
	for _, l := range leaves(t) {
		if !e.inputs[l] {
			return false
		}
	}
	return true
}

// Mons are the names of the monitors that are set and start with the prefix.
func (s *State) Mons(prefix string) []string {
	var r []string
	for k, v := range s.mon {
		if v != "" && strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// IsCtxDone tells if a channel is the done channel of a context, and of which.
func IsCtxDone(ch *Term) *Term {
	if isDone(ch) {
		return ch.Args[0]
	}
	return nil
}

// CtxWithin tells if a context is cancelled together with root.
func CtxWithin(ctx, root *Term) bool {
	for {
		if ctx == root {
			return true
		}
		if ctx.Op != "ctxchild" {
			return false
		}
		ctx = ctx.Args[0]
	}
}

// CancelOf is the context a cancel function cancels.
func CancelOf(f *Term) *Term {
	if f != nil && f.Op == "cancelfn" {
		return f.Args[0]
	}
	return nil
}

// TimerOf is the duration of a timer channel, nil if it is none.
func TimerOf(ch *Term) *Term {
	if ch.Op == "timer" {
		return ch.Args[0]
	}
	return nil
}

// RetryOpts are the options passed to retry.Do by name.
func (s *State) RetryOpts(c *CallCtx, opts *Term, e *Engine) map[string]*Term {
	r := map[string]*Term{}
	o, off, ln, _ := sliceParts(opts)
	n, ok := ln.Int64()
	if !ok {
		return r
	}
	el := opts.Typ
	if c.Sig != nil {
		el = c.Sig.Params().At(c.Sig.Params().Len() - 1).Type().(*types.Slice).Elem()
	}
	for i := int64(0); i < n; i++ {
		v := e.load(s, mkIaddr(o, MkAdd(off, MkInt(i)), el), el)
		if v.Op == "retryopt" {
			r[v.Aux] = v
		}
	}
	return r
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term { return zeroOf(t) }

// ClearMons forgets all monitors and ghosts.
func (s *State) ClearMons() {
	s.mon = map[string]string{}
	s.ghost = map[string]*Term{}
}

// Decimal is the decimal text of a number.
func Decimal(x *Term) *Term { return decimal(x) }

// Pieces are the parts of a content.
func Pieces(c *Term) []*Term { return pieces(c) }

// DynType is the dynamic type of an interface value.
func DynType(v *Term) types.Type { t, _ := v.Ref.(types.Type); return t }

// EqualsConst: the string, or something computed from it, is known to be equal
// to a constant or to be one of the keys of a map.
func (s *State) EqualsConst(v *Term) bool {
	if v.Op == "str" {
		return true
	}
	for l, val := range s.lits {
		if val && mentions(l, v) && (l.Op != "beq" || l.Args[0].Op == "str" || l.Args[1].Op == "str") {
			return true
		}
	}
	for _, c := range s.cons {
		for _, t := range c.l.ts {
			if t.a.Op == "len" && mentions(t.a, v) && s.EqInt(t.a, MkInt(0)) {
				return true
			}
		}
	}
	return false
}

// EntryState is the state at the call.
func (f *Frame) EntryState() *State { return f.entry }

// LoadAt reads a value.
func (e *Engine) LoadAt(st *State, addr *Term, t types.Type) *Term { return e.load(st, addr, t) }

// HasSub: sub occurs in t.
func HasSub(t, sub *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == sub {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Model is what the library function called is known to do.
func (e *Engine) Model(c *CallCtx, st *State) []Exit {
	if m := models[c.Name]; m != nil {
		return m(e, c, st)
	}
	return e.Default(c, st, true)
}
