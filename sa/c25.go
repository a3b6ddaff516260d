package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C25", Rule: "abstract interpretation with maps whose entries are known up to their contents and visited in every order: for each shape of a family of values (strings, integers, lists and dictionaries of 0 to 3 entries, nested), whose keys, strings and integers are unknown, Encode gives exactly the canonical bytes at every return, and String gives the same text whatever the order in which a map is visited; values made with the package's constructors encode the same way", Run: checkC25})
}

// shape is a value's structure; its strings and integers are unknown.
type shape struct {
	kind string // str, int, list, dict
	kids []*shape
}

func (s *shape) String() string {
	if s.kind == "str" || s.kind == "int" {
		return s.kind
	}
	var k []string
	for _, x := range s.kids {
		k = append(k, x.String())
	}
	return s.kind + "(" + strings.Join(k, ",") + ")"
}

type encoding struct {
	c    *Ctx
	h    *harness
	be   types.Type // the interface
	typ  map[string]types.Type
	rank map[*ai.Term]int // the order of the keys of a dictionary
	fam  map[*ai.Term]int
	nfam int
	ptrs bool // containers are pointers
}

func (c *Ctx) newEncoding(fn *ssa.Function) *encoding {
	n := &encoding{c: c, h: c.newHarness(fn), be: c.typ("pkg/bencode", "Bencode"), typ: map[string]types.Type{}, rank: map[*ai.Term]int{}, fam: map[*ai.Term]int{}}
	for k, t := range map[string]string{"str": "StringElement", "int": "IntElement", "list": "ListElement", "dict": "DictElement"} {
		n.typ[k] = c.typ("pkg/bencode", t)
	}
	e := n.h.e
	e.Unroll, e.Unfold, e.ExactMaps = true, 14, true
	e.Order = func(a, b *ai.Term) (int, bool) {
		if n.fam[a] == 0 || n.fam[a] != n.fam[b] {
			return 0, false
		}
		return n.rank[a] - n.rank[b], true
	}
	n.h.guardNonNil()
	return n
}

// keys are k different unknown strings in ascending order.
func (n *encoding) keys(k int) []*ai.Term {
	n.nfam++
	var r []*ai.Term
	for i := 0; i < k; i++ {
		t := ai.MkSym(fmt.Sprintf("key%d", i), types.Typ[types.String])
		n.rank[t], n.fam[t] = i, n.nfam
		r = append(r, t)
	}
	return r
}

// build makes a value of a shape and its canonical encoding.
func (n *encoding) build(s *shape, st *ai.State) (v, enc *ai.Term) {
	str := ai.MkStr
	switch s.kind {
	case "str":
		x := ai.MkSym("text", types.Typ[types.String])
		x = st.Content(x)
		return ai.MkIface(n.typ["str"], x), encStr(x)
	case "int":
		x := ai.MkSym("number", types.Typ[types.Int])
		return ai.MkIface(n.typ["int"], x), ai.Concat(str("i"), ai.Decimal(x), str("e"))
	}
	t := n.typ[s.kind]
	u := t.Underlying().(*types.Struct)
	at := st.Alloc(t, s.kind)
	var parts []*ai.Term
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		switch w := ft.Underlying().(type) {
		case *types.Map:
			m := st.Alloc(ft, "map")
			var kv []*ai.Term
			for j, k := range n.keys(len(s.kids)) {
				v, enc := n.build(s.kids[j], st)
				kv = append(kv, k, v)
				parts = append(parts, encStr(k), enc)
			}
			st.SetEntries(m, kv)
			st.Store(ai.FieldAddr(at, u, i), m, ft)
		case *types.Slice:
			if isByteType(w.Elem()) {
				st.Store(ai.FieldAddr(at, u, i), n.h.e.Input("raw", ft), ft)
				break
			}
			var vs []*ai.Term
			for _, k := range s.kids {
				v, enc := n.build(k, st)
				vs = append(vs, v)
				parts = append(parts, enc)
			}
			st.Store(ai.FieldAddr(at, u, i), n.h.e.NewSlice(st, ft, vs), ft)
		default:
			st.Store(ai.FieldAddr(at, u, i), n.h.e.Input(u.Field(i).Name(), ft), ft)
		}
	}
	enc = ai.Concat(append(append([]*ai.Term{str(s.kind[:1])}, parts...), str("e"))...)
	if n.ptrs {
		return ai.MkIface(ptrTo(t), at), enc
	}
	return ai.MkIface(t, n.h.e.LoadAt(st, at, t)), enc
}

func encStr(x *ai.Term) *ai.Term {
	return ai.Concat(ai.Decimal(ai.Clen(x)), ai.MkStr(":"), x)
}

// method calls a method of the interface on a value.
func (n *encoding) method(v *ai.Term, it types.Type, name string, args []*ai.Term, st *ai.State) []ai.Exit {
	u := it.Underlying().(*types.Interface)
	for i := 0; i < u.NumMethods(); i++ {
		if m := u.Method(i); m.Name() == name {
			return n.h.e.InvokeMethod(n.h.fr, it, m, nil, v, args, st)
		}
	}
	panic(missing("method " + name + " of " + it.String()))
}

func shapes() []*shape {
	l := func(k ...*shape) *shape { return &shape{"list", k} }
	d := func(k ...*shape) *shape { return &shape{"dict", k} }
	s, i := &shape{kind: "str"}, &shape{kind: "int"}
	return []*shape{s, i, l(), l(s), l(i, s), l(s, i, s), l(i, i, i), l(l(), l(i)), l(d(s), s), d(), d(s), d(i, s), d(s, i, i), d(s, s, s), d(l(), d()), d(l(i), s, d(i)), d(d(i, s), i), d(s, s, i, s), l(s, s, s, s, i, i), l(l(l(l(s)))), d(d(d(s, i), s))}
}

func checkC25(c *Ctx) {
	owner := map[string]string{"str": "StringElement", "int": "IntElement", "list": "ListElement", "dict": "DictElement"}
	for _, ptrs := range []bool{false, true} {
		for _, s := range shapes() {
			if ptrs && len(s.kids) == 0 && s.kind != "list" && s.kind != "dict" {
				continue
			}
			fn := c.fn("pkg/bencode." + owner[s.kind] + ".Encode")
			n := c.newEncoding(fn)
			n.ptrs = ptrs
			st := n.h.st.Clone()
			v, want := n.build(s, st)
			n.h.keep(v)
			for _, x := range n.method(v, n.be, "Encode", nil, st) {
				got := x.St.Content(x.Res[0])
				c.ObligeFn(x.St.Same(got, want), "encoding is canonical", fn, "a "+s.String()+" is encoded as "+short(got)+" instead of "+short(want))
			}
			c.Absorb(n.h.e)

			// text
			n = c.newEncoding(fn)
			n.ptrs = ptrs
			st = n.h.st.Clone()
			v, _ = n.build(s, st)
			n.h.keep(v)
			sf := c.fn("pkg/bencode." + owner[s.kind] + ".String")
			var first *ai.Term
			for _, x := range n.method(v, n.be, "String", nil, st) {
				got := x.St.Content(x.Res[0])
				if first == nil {
					first = got
				}
				c.ObligeFn(x.St.Same(got, first), "text does not depend on the order of a map", sf, "a "+s.String()+" may print as "+short(first)+" and as "+short(got))
				switch s.kind {
				case "list", "dict":
					open := map[string]int64{"list": '[', "dict": '{'}[s.kind]
					c.ObligeFn(x.St.EqInt(x.St.Elem(got, ai.MkInt(0)), ai.MkInt(open)), "containers print as such", sf, "a "+s.String()+" prints as "+short(got))
				case "str":
					c.ObligeFn(x.St.Same(got, x.St.Content(v.Args[0])), "strings print as they are", sf, "prints as "+short(got))
				case "int":
					c.ObligeFn(x.St.Same(got, ai.Decimal(v.Args[0])), "integers print in decimal", sf, "prints as "+short(got))
				}
			}
			c.Absorb(n.h.e)
		}
	}
	c.AtLeast("encoding is canonical", 30, "shapes")
	c.AtLeast("text does not depend on the order of a map", 30, "shapes")
	c.builtValues()
}

// constructors: values made with the package's functions.
func (c *Ctx) builtValues() {
	nb := c.fn("pkg/bencode.NewDictBuilder")
	builder := c.typ("pkg/bencode", "Builder")
	for _, order := range [][]int{{}, {0}, {0, 1}, {1, 0}, {0, 1, 2}, {2, 0, 1}} {
		n := c.newEncoding(nb)
		st := n.h.st.Clone()
		ks := n.keys(len(order))
		parts := make([]*ai.Term, 2*len(order))
		xs := n.h.call(nb, nil, st)
		for i, j := range order {
			var next []ai.Exit
			for _, x := range xs {
				n.h.keep(x.Res...)
				text := ai.MkSym("text", types.Typ[types.String])
				num := ai.MkSym("number", types.Typ[types.Int])
				f, arg, enc := c.fn("pkg/bencode.String"), text, encStr(text)
				if i == 1 {
					f, arg, enc = c.fn("pkg/bencode.Integer"), num, ai.Concat(ai.MkStr("i"), ai.Decimal(num), ai.MkStr("e"))
				}
				for _, v := range n.h.call(f, []*ai.Term{arg}, x.St) {
					val := v.Res[0]
					if i == 2 {
						lf := c.fn("pkg/bencode.List")
						lt := lf.Params[0].Type()
						for _, l := range n.h.call(lf, []*ai.Term{n.h.e.NewSlice(v.St, lt, []*ai.Term{val, val})}, v.St) {
							val, v.St = l.Res[0], l.St
							enc = ai.Concat(ai.MkStr("l"), enc, enc, ai.MkStr("e"))
						}
					}
					n.h.keep(val)
					parts[2*j], parts[2*j+1] = encStr(ks[j]), enc
					next = append(next, n.method(x.Res[0], builder, "Add", []*ai.Term{ks[j], val}, v.St)...)
				}
			}
			xs = next
		}
		want := ai.Concat(append(append([]*ai.Term{ai.MkStr("d")}, parts...), ai.MkStr("e"))...)
		for _, x := range xs {
			n.h.keep(x.Res...)
			for _, g := range n.method(x.Res[0], builder, "Generate", nil, x.St) {
				n.h.keep(g.Res...)
				for _, y := range n.method(g.Res[0], n.be, "Encode", nil, g.St) {
					got := y.St.Content(y.Res[0])
					c.ObligeFn(y.St.Same(got, want), "built values encode canonically", nb, "a built dictionary is encoded as "+short(got)+" instead of "+short(want))
				}
			}
		}
		c.Absorb(n.h.e)
	}
	c.AtLeast("built values encode canonically", 6, "built values")
}

func short(t *ai.Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
