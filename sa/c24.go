package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C24", Rule: "abstract interpretation: of Parse, for every input: the raw bytes of each list and dictionary are the part of the input from the cursor at which its decoding started, a byte 'l' or 'd', to the cursor where it ended, just after an 'e', and the input is not changed; of Unmarshal into Metainfo: the raw bytes kept are those of the value of key info; of Hash: the SHA-1 of those bytes; of opening a torrent: its hash is that; of the program: what is decoded is what was read from the file and the metadata is not changed before the torrent is opened; no other store to the hash or the raw bytes", Run: checkC24})
}

func checkC24(c *Ctx) {
	c.rawSpans()
	meta := c.typ("pkg/bencode", "Metainfo")

	// decoding into Metainfo
	d := c.newDecoding(false)
	um := c.fn("pkg/bencode.Unmarshal")
	st := d.h.st.Clone()
	tgt := ai.MkSym("target", ptrTo(meta))
	st.Assume(ai.MkIsNil(tgt), false)
	d.h.keep(tgt)
	d.misfits = map[string]bool{}
	d.root = dnode{typ: meta, addr: tgt}
	n := 0
	for _, x := range d.h.call(um, d.h.bind(um, map[string]*ai.Term{"interface{}": ai.MkIface(ptrTo(meta), tgt), "any": ai.MkIface(ptrTo(meta), tgt)}), st) {
		if x.St.Nilness(x.Res[0]) == -1 {
			continue
		}
		n++
		raw := x.St.Field(tgt, meta, "InfoDictRaw")
		dv, ok := d.vals[".InfoDictRaw|dict"]
		same := ok && x.St.Same(x.St.Content(raw), x.St.Content(dv.raw))
		c.ObligeFn(same, "raw info bytes are those of the info value", um, "after decoding, the raw bytes kept are "+x.St.Content(raw).String())
	}
	if n == 0 {
		c.FailAt("raw info bytes are those of the info value", "?", "-", "decoding never succeeds")
	}
	c.Absorb(d.h.e)

	// the hash of metadata, and of a torrent
	hf := c.fn("pkg/bencode.Metainfo.Hash")
	h := c.newHarness(hf)
	args := h.args(hf)
	p := args[0]
	if _, ok := hf.Params[0].Type().Underlying().(*types.Pointer); ok {
		h.st.Assume(ai.MkIsNil(p), false)
	} else {
		p = h.st.Alloc(meta, "meta")
		h.st.Store(p, args[0], meta)
	}
	want := ai.Sha1(h.st.Content(h.st.Field(p, meta, "InfoDictRaw")))
	for _, x := range h.call(hf, args, h.st) {
		got := x.St.Content(x.Res[0])
		c.ObligeFn(x.St.Same(got, want), "hash is the SHA-1 of the raw info bytes", hf, "the hash is "+got.String())
	}
	c.Absorb(h.e)
	c.AtLeast("hash is the SHA-1 of the raw info bytes", 1, "returns of Hash")

	t := c.newHarness(c.fn("pkg/torrent.New"))
	nw := c.fn("pkg/torrent.New")
	tor := c.typ("pkg/torrent", "Torrent")
	as := t.args(nw)
	t.keep(as...)
	var m *ai.Term
	for i, q := range nw.Params {
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), meta) {
			m = as[i]
		}
	}
	if m == nil {
		panic(missing("metadata parameter of torrent.New"))
	}
	want = ai.Sha1(t.st.Content(t.st.Field(m, meta, "InfoDictRaw")))
	for _, x := range okExits(t.call(nw, as, t.st)) {
		got := x.St.Content(x.St.Field(x.Res[0], tor, "Hash"))
		c.ObligeFn(x.St.Same(got, want), "a torrent's hash is that of its metadata", nw, "the hash of the torrent is "+got.String())
	}
	c.Absorb(t.e)
	c.AtLeast("a torrent's hash is that of its metadata", 1, "torrents opened")

	c.program()
	c.AtLeast("what is decoded is what was read", 1, "uses of Unmarshal by the commands")
	c.AtLeast("metadata is opened as decoded", 1, "torrents opened by the commands")

	// nobody else changes them
	c.unchanged(tor, "Hash", func(f *ssa.Function) bool { return reaches(nw, f) })
	c.unchanged(meta, "InfoDictRaw", func(f *ssa.Function) bool { return false })
}

// reaches: f is called (only counting static calls) from fn, or is fn.
func reaches(fn, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == f {
			return true
		}
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && visit(s) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// unchanged: a field of bytes is not assigned outside the given functions, and its bytes are not changed.
func (c *Ctx) unchanged(owner types.Type, field string, may func(*ssa.Function) bool) {
	rule := "nothing else changes " + field
	idx := -1
	u := owner.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			idx = i
		}
	}
	if idx < 0 {
		panic(missing(field))
	}
	taint := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !taint[v] {
			taint[v] = true
			work = append(work, v)
		}
	}
	n := 0
	for _, fn := range c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if x.Field != idx || !types.Identical(x.X.Type().Underlying().(*types.Pointer).Elem(), owner) {
						continue
					}
					n++
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == x {
								c.Oblige(may(fn), rule, r, nil, field+" is assigned here")
							}
						case *ssa.UnOp:
							add(r)
						case *ssa.DebugRef:
						default:
							c.Oblige(false, rule, r.(ssa.Instruction), nil, "the address of "+field+" is taken")
						}
					}
				case *ssa.Field:
					if x.Field == idx && types.Identical(x.X.Type(), owner) {
						n++
						add(x)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				add(r)
			case *ssa.Slice:
				add(r)
			case *ssa.ChangeType:
				add(r)
			case *ssa.IndexAddr:
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == r {
						c.Oblige(false, rule, st, nil, "a byte of "+field+" is changed")
					}
				}
			case ssa.CallInstruction:
				cm := r.Common()
				if b, ok := cm.Value.(*ssa.Builtin); ok {
					switch {
					case b.Name() == "append" && cm.Args[0] == v:
						c.Oblige(false, rule, r, nil, "bytes are appended to "+field)
					case b.Name() == "copy" && cm.Args[0] == v, b.Name() == "clear":
						c.Oblige(false, rule, r, nil, "the bytes of "+field+" are overwritten")
					}
					continue
				}
				if f := cm.StaticCallee(); f != nil {
					if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/anivanovic/gotit") {
						for i, a := range cm.Args {
							if a == v && i < len(f.Params) {
								add(f.Params[i])
							}
						}
						continue
					}
					switch f.String() {
					case "slices.Reverse", "slices.Sort", "io.ReadFull", "crypto/rand.Read":
						c.Oblige(false, rule, r, nil, "the bytes of "+field+" are changed by "+f.String())
					}
				} else if cm.IsInvoke() && cm.Method.Name() == "Read" {
					c.Oblige(false, rule, r, nil, "the bytes of "+field+" are read into")
				}
			}
		}
	}
	if n == 0 {
		panic(missing(field))
	}
	c.ObligeFn(true, rule, c.fn("pkg/torrent.New"), "")
}

// rawSpans: the raw bytes of what Parse makes.
func (c *Ctx) rawSpans() {
	fn := c.fn("pkg/bencode.Parse")
	h := c.newHarness(fn)
	h.guardNonNil()
	h.e.DisjExit, h.e.Disj, h.e.Elim = 4, 4, 48
	args := h.args(fn)
	h.keep(args...)
	conts := map[string]byte{}
	for n, b := range map[string]byte{"DictElement": 'd', "ListElement": 'l'} {
		conts[c.typ("pkg/bencode", n).String()] = b
	}
	isRaw := func(t types.Type) bool { s, ok := t.(*types.Slice); return ok && isByteType(s.Elem()) }
	h.e.H.Leave = func(e *ai.Engine, fr *ai.Frame, fargs []*ai.Term, x ai.Exit) {
		rs := fr.Fn.Signature.Results()
		if rs.Len() == 0 || fr.Fn.Blocks == nil || len(fargs) == 0 {
			return
		}
		p, ok := rs.At(0).Type().Underlying().(*types.Pointer)
		ptr := ok
		var et types.Type
		if ok {
			et = p.Elem()
		} else {
			et = rs.At(0).Type()
		}
		open, ok := conts[et.String()]
		if !ok || rs.Len() > 1 && x.St.Nilness(x.Res[rs.Len()-1]) == -1 {
			return
		}
		rule := "raw bytes of a " + map[byte]string{'d': "dictionary", 'l': "list"}[open]
		at := x.Res[0]
		if !ptr {
			at = x.St.Alloc(et, "raw")
			x.St.Store(at, x.Res[0], et)
		}
		if x.St.Nilness(at) == 1 {
			return
		}
		u := et.Underlying().(*types.Struct)
		raw := x.St.Field(at, et, u.Field(fieldLike(et, isRaw)).Name())
		// the state of the decoder: the structure given
		sc := fargs[0]
		pt, ok := fr.Fn.Params[0].Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		su, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		var data *ai.Term
		var before, after []*ai.Term
		en := fr.EntryState()
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			if isRaw(f.Type().Underlying()) {
				data = x.St.Field(sc, pt.Elem(), f.Name())
			}
			if types.Identical(f.Type(), types.Typ[types.Int]) {
				before, after = append(before, en.Field(sc, pt.Elem(), f.Name())), append(after, x.St.Field(sc, pt.Elem(), f.Name()))
			}
		}
		if data == nil {
			return
		}
		st := x.St
		ro, roff, rn, _ := ai.SliceParts(raw)
		do, doff, _, _ := ai.SliceParts(data)
		if ro != do {
			e.Record(fr, nil, rule, false, "the raw bytes are not a part of the input")
			return
		}
		from, to := ai.MkSub(roff, doff), ai.MkSub(ai.MkAdd(roff, rn), doff)
		any := func(ts []*ai.Term, v *ai.Term) bool {
			for _, t := range ts {
				if st.EqInt(t, v) {
					return true
				}
			}
			return false
		}
		ct := st.Content(data)
		starts := false
		for _, b := range before {
			starts = starts || st.EqInt(b, from) && (st.EqInt(st.Elem(ct, b), ai.MkInt(int64(open))) || st.EqInt(st.Elem(ct, from), ai.MkInt(int64(open))))
		}
		e.Record(fr, nil, rule+" start at the cursor", starts, "they start at "+from.String())
		e.Record(fr, nil, rule+" end at the cursor", any(after, to) && st.EqInt(st.Elem(ct, ai.MkSub(to, ai.MkInt(1))), ai.MkInt('e')), "they end at "+to.String())
	}
	for _, x := range h.call(fn, args, h.st) {
		for _, a := range args {
			c.ObligeFn(x.St.Same(x.St.Content(a), h.st.Content(a)), "the input is not changed", fn, "the input is changed")
		}
	}
	c.Absorb(h.e)
	for _, k := range []string{"dictionary", "list"} {
		c.AtLeast("raw bytes of a "+k+" start at the cursor", 1, k+" decoding")
		c.AtLeast("raw bytes of a "+k+" end at the cursor", 1, k+" decoding")
	}
}
