package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C33", Rule: "abstract interpretation of Parse over each of a family of encodings of known shape (integers with and without sign, strings, lists and dictionaries, nested), whose digits, keys and bytes are unknown: at every return the error is nil and the value is the number its digits and sign denote, the string of exactly the announced bytes, the list of its elements in order, the dictionary with each key's value; strings longer than the rest, and each of a family of malformed encodings, are errors at every return", Run: checkC33})
}

// bval is a bencoded value of known shape.
type bval struct {
	kind   string // int, str, list, dict
	neg    bool
	digits int // of an integer, or of the length of a string
	size   int // of a string whose length is known
	kids   []*bval
	keys   []int // lengths of the keys
}

func (b *bval) String() string {
	switch b.kind {
	case "int":
		s := "i"
		if b.neg {
			s += "-"
		}
		return s + strings.Repeat("#", b.digits) + "e"
	case "str":
		if b.digits > 0 {
			return strings.Repeat("#", b.digits) + ":..."
		}
		return fmt.Sprintf("%d:%s", b.size, strings.Repeat("?", b.size))
	}
	s := b.kind[:1]
	for i, k := range b.kids {
		if b.kind == "dict" {
			s += fmt.Sprintf("%d:%s", b.keys[i], strings.Repeat("k", b.keys[i]))
		}
		s += k.String()
	}
	return s + "e"
}

type parsing struct {
	c *Ctx
	h *harness
	n int
}

func (p *parsing) next() int { p.n++; return p.n }

func (c *Ctx) newParsing() *parsing {
	p := &parsing{c: c, h: c.newHarness(c.fn("pkg/bencode.Parse"))}
	p.h.e.Unroll, p.h.e.Unfold, p.h.e.ExactMaps = true, 14, true
	p.h.e.Disj, p.h.e.DisjExit = 4, 4
	p.h.guardNonNil()
	return p
}

// text is an unknown string of known length.
func (p *parsing) text(st *ai.State, name string, n int) *ai.Term {
	t := p.h.e.Input(name, types.Typ[types.String])
	st.Assume(ai.MkEq(ai.MkLen(t), ai.MkInt(int64(n))), true)
	p.h.keep(t)
	return st.Csub(t, ai.MkInt(0), ai.MkInt(int64(n)))
}

// number is a number of unknown digits.
func (p *parsing) number(st *ai.State, n int) (ct, val *ai.Term) {
	ct = p.text(st, fmt.Sprintf("digits%d", p.next()), n)
	val = ai.MkInt(0)
	for i := 0; i < n; i++ {
		d := st.Elem(ct, ai.MkInt(int64(i)))
		st.Assume(ai.MkGE(d, ai.MkInt('0')), true)
		st.Assume(ai.MkGE(ai.MkInt('9'), d), true)
		val = ai.MkAdd(ai.MkScale(val, 10), ai.MkSub(d, ai.MkInt('0')))
	}
	return ct, val
}

type verdict struct {
	must func(st *ai.State) bool               // the encoding is well-formed
	mayn func(st *ai.State) bool               // it is not
	same func(st *ai.State, v *ai.Term) string // "" or what is wrong with the value
}

func yes(*ai.State) bool { return true }
func no(*ai.State) bool  { return false }

// build makes the encoding of a shape and what it has to decode to.
func (p *parsing) build(b *bval, st *ai.State) (*ai.Term, verdict) {
	str := ai.MkStr
	dyn := func(v *ai.Term, name string) *ai.Term {
		if v.Op != "iface" {
			return nil
		}
		t := v.Ref.(types.Type)
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if !types.Identical(t, p.c.typ("pkg/bencode", name)) {
			return nil
		}
		return v.Args[0]
	}
	switch b.kind {
	case "int":
		ct, val := p.number(st, b.digits)
		sign := ""
		if b.neg {
			sign, val = "-", ai.MkScale(val, -1)
		}
		return ai.Concat(str("i"+sign), ct, str("e")), verdict{yes, no, func(st *ai.State, v *ai.Term) string {
			x := dyn(v, "IntElement")
			if x == nil {
				return "is not an integer"
			}
			if !st.EqInt(x, val) {
				return "is " + x.String() + ", not the number denoted"
			}
			return ""
		}}
	case "str":
		var ct, n, rest *ai.Term
		if b.digits > 0 {
			ct, n = p.number(st, b.digits)
			t := p.h.e.Input("rest", types.Typ[types.String])
			p.h.keep(t)
			rest = st.Content(t)
		} else {
			ct, n = str(fmt.Sprint(b.size)), ai.MkInt(int64(b.size))
			rest = p.text(st, fmt.Sprintf("bytes%d", p.next()), b.size)
		}
		return ai.Concat(ct, str(":"), rest), verdict{
			func(st *ai.State) bool { return st.LE(n, ai.Clen(rest)) },
			func(st *ai.State) bool { return st.LT(ai.Clen(rest), n) },
			func(st *ai.State, v *ai.Term) string {
				x := dyn(v, "StringElement")
				if x == nil {
					return "is not a string"
				}
				if !st.Same(st.Content(x), st.Csub(rest, ai.MkInt(0), n)) {
					return "is " + st.Content(x).String() + ", not the announced bytes"
				}
				return ""
			}}
	}
	var parts []*ai.Term
	var vs []verdict
	var keys []*ai.Term
	parts = append(parts, str(b.kind[:1]))
	for i, k := range b.kids {
		if b.kind == "dict" {
			key := p.text(st, fmt.Sprintf("key%d", p.next()), b.keys[i])
			for _, k := range keys {
				st.Assume(ai.MkBEq(k, key), false) // keys of a dictionary differ
			}
			keys = append(keys, key)
			parts = append(parts, str(fmt.Sprintf("%d:", b.keys[i])), key)
		}
		ct, v := p.build(k, st)
		parts, vs = append(parts, ct), append(vs, v)
	}
	ct := ai.Concat(append(parts, str("e"))...)
	if b.kind == "list" {
		t := p.c.typ("pkg/bencode", "ListElement")
		return ct, verdict{yes, no, func(st *ai.State, v *ai.Term) string {
			x := dyn(v, "ListElement")
			if x == nil {
				return "is not a list"
			}
			o, off, ln, _ := ai.SliceParts(p.field(st, v, x, t, "Value"))
			if !st.Is(ln, int64(len(vs))) {
				return "is a list of " + ln.String() + " elements"
			}
			el := p.c.typ("pkg/bencode", "Bencode")
			for i, w := range vs {
				if s := w.same(st, st.Load(ai.IndexAddr(o, ai.MkAdd(off, ai.MkInt(int64(i))), el), el)); s != "" {
					return fmt.Sprintf("element %d %s", i, s)
				}
			}
			return ""
		}}
	}
	get := p.c.fn("pkg/bencode.DictElement.Value")
	return ct, verdict{yes, no, func(st *ai.State, v *ai.Term) string {
		x := dyn(v, "DictElement")
		if x == nil {
			return "is not a dictionary"
		}
		if _, ok := get.Params[0].Type().Underlying().(*types.Pointer); !ok {
			if _, ok := v.Ref.(types.Type).Underlying().(*types.Pointer); ok {
				x = p.h.e.LoadAt(st, x, p.c.typ("pkg/bencode", "DictElement"))
			}
		}
		for i, w := range vs {
			for _, y := range p.h.call(get, []*ai.Term{x, keys[i]}, st.Clone()) {
				if s := w.same(y.St, y.Res[0]); s != "" {
					return fmt.Sprintf("value of key %d %s", i, s)
				}
			}
		}
		return ""
	}}
}

// field of a structure given by pointer or by value.
func (p *parsing) field(st *ai.State, v, x *ai.Term, t types.Type, name string) *ai.Term {
	if _, ok := v.Ref.(types.Type).Underlying().(*types.Pointer); ok {
		return st.Field(x, t, name)
	}
	at := st.Alloc(t, "copy")
	st.Store(at, x, t)
	return st.Field(at, t, name)
}

func bvals() []*bval {
	i := &bval{kind: "int", digits: 1}
	ng := &bval{kind: "int", digits: 2, neg: true}
	s := &bval{kind: "str", size: 3}
	em := &bval{kind: "str", size: 0}
	l := func(k ...*bval) *bval { return &bval{kind: "list", kids: k} }
	d := func(n []int, k ...*bval) *bval { return &bval{kind: "dict", kids: k, keys: n} }
	var r []*bval
	for n := 1; n <= 12; n++ {
		r = append(r, &bval{kind: "int", digits: n}, &bval{kind: "int", digits: n, neg: true})
	}
	for n := 1; n <= 8; n++ {
		r = append(r, &bval{kind: "str", digits: n})
	}
	for n := 0; n <= 12; n += 3 {
		r = append(r, &bval{kind: "str", size: n})
	}
	return append(r, l(), l(i), l(s), l(em), l(i, s), l(s, ng, i), l(l(), i), l(l(s, i), l()), d(nil), d([]int{1}, i), d([]int{0}, s), d([]int{2, 1}, i, s), d([]int{2, 2}, s, i), d([]int{1, 2, 3}, s, ng, em), d([]int{1, 2, 3}, i, em, i), d([]int{2, 2, 2, 2}, i, s, ng, i), l(i, i, i, s, s),
		d([]int{1}, l(i, s)), d([]int{3, 1}, d([]int{1}, s), i), l(d([]int{2}, i), s), l(l(l(l(i)))))
}

func checkC33(c *Ctx) {
	fn := c.fn("pkg/bencode.Parse")
	for _, b := range bvals() {
		if len(c.Findings) > 0 {
			return // a parser that is wrong on small shapes may explode on big ones
		}
		p := c.newParsing()
		st := p.h.st
		ct, want := p.build(b, st)
		p.parse(fn, ct, func(x ai.Exit) {
			what := "the encoding " + b.String()
			if x.St.Nilness(x.Res[1]) == 1 {
				c.ObligeFn(want.must(x.St), "malformed encoding is an error", fn, what+" is accepted although it is cut off")
				s := want.same(x.St, x.Res[0])
				c.ObligeFn(s == "", "decoded value is the one denoted", fn, what+": the value "+s)
				return
			}
			c.ObligeFn(want.mayn(x.St), "well-formed encoding is accepted", fn, what+" may be refused")
		})
		c.Absorb(p.h.e)
	}
	// d: digit, x: neither digit nor the start or end of a value
	for _, m := range []string{"", "e", "i", "ie", "i-", "i-e", "id", "ix", "ixe", "idd", "i-d", "idx", "i-dx", "id-e", "d", "dd", "ddx", "x", "xx", "l", "lide", "l1:", "l1:xid", "lxe", "lx", "D", "D1:x", "D1:xe", "D1:xid", "D0:", "Didedide", "Dlee", "D1:xl", "D1:xide", "D1:x2:xx", "D1:xle", "D1:xD", "D1:xDe", "lle", "ll", "llide", "9:xx", "2:x"} {
		c.malformed(fn, m)
	}
	c.AtLeast("decoded value is the one denoted", 30, "encodings decoded")
	c.AtLeast("malformed encoding is an error", 30, "malformed encodings")
}

// malformed: d stands for an unknown digit, x for an unknown byte that starts
// and ends nothing, D for the start of a dictionary.
func (c *Ctx) malformed(fn *ssa.Function, m string) {
	p := c.newParsing()
	st := p.h.st
	var parts []*ai.Term
	for _, r := range m {
		switch r {
		case 'd':
			ct, _ := p.number(st, 1)
			parts = append(parts, ct)
		case 'x':
			ct := p.text(st, fmt.Sprintf("other%d", p.next()), 1)
			b := st.Elem(ct, ai.MkInt(0))
			for _, no := range "0123456789-:ilde" {
				st.Assume(ai.MkEq(b, ai.MkInt(int64(no))), false)
			}
			parts = append(parts, ct)
		case 'D':
			parts = append(parts, ai.MkStr("d"))
		default:
			parts = append(parts, ai.MkStr(string(r)))
		}
	}
	p.parse(fn, ai.Concat(parts...), func(x ai.Exit) {
		c.ObligeFn(x.St.Nilness(x.Res[1]) == -1, "malformed encoding is an error", fn, "the malformed encoding "+m+" (d: a digit, x: another byte, D: a dictionary) may be accepted")
	})
	c.Absorb(p.h.e)
}

func (p *parsing) parse(fn *ssa.Function, ct *ai.Term, each func(ai.Exit)) {
	st := p.h.st
	data := st.NewBytes(ct, "data")
	p.h.keep(data)
	for _, x := range p.h.call(fn, []*ai.Term{data}, st) {
		each(x)
	}
}
