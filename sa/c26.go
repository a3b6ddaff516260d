package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C26", Rule: "abstract interpretation of Unmarshal, with reflection modelled over the known target types, for every decoded value: each tagged field is looked up; a success is reached only if each value looked up had a kind that fits its field, numbers are in the field's range, and each present value was assigned to its own field; nothing is assigned for an absent value", Run: checkC26})
}

// decoding follows what Unmarshal does with the decoded value.
type decoding struct {
	c       *Ctx
	h       *harness
	quiet   bool // only panics matter
	kinds   map[string]types.Type
	dmap    int // fields of the containers
	draw    int
	lval    int
	lraw    int
	dicts   map[*ai.Term]dnode
	lists   map[*ai.Term]dnode
	vals    map[string]dval
	root    dnode
	misfits map[string]bool
	failed  bool
}

// dnode is a container of the decoded value that corresponds to a part of the target.
type dnode struct {
	path string
	typ  types.Type // struct type of a dictionary, else the type its elements have
	addr *ai.Term   // of the structure, if known
	elem bool
}

// dval is a value that has to be assigned.
type dval struct {
	typ  types.Type
	addr *ai.Term
	kind string
	v    *ai.Term // the int, content of the string, or pointer to the container
	raw  *ai.Term
}

func fieldLike(t types.Type, ok func(types.Type) bool) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if ok(u.Field(i).Type().Underlying()) {
			return i
		}
	}
	panic(missing("field of " + t.String()))
}

func (c *Ctx) newDecoding(quiet bool) *decoding {
	fn := c.fn("pkg/bencode.Unmarshal")
	d := &decoding{c: c, h: c.newHarness(fn), quiet: quiet, kinds: map[string]types.Type{}, dicts: map[*ai.Term]dnode{}, lists: map[*ai.Term]dnode{}, vals: map[string]dval{}}
	d.kinds["int"], d.kinds["string"] = c.typ("pkg/bencode", "IntElement"), c.typ("pkg/bencode", "StringElement")
	de, le := c.typ("pkg/bencode", "DictElement"), c.typ("pkg/bencode", "ListElement")
	d.kinds["list"], d.kinds["dict"] = ptrTo(le), ptrTo(de)
	isMap := func(t types.Type) bool { _, ok := t.(*types.Map); return ok }
	isRaw := func(t types.Type) bool { s, ok := t.(*types.Slice); return ok && isByteType(s.Elem()) }
	isList := func(t types.Type) bool { s, ok := t.(*types.Slice); return ok && !isByteType(s.Elem()) }
	d.dmap, d.draw = fieldLike(de, isMap), fieldLike(de, isRaw)
	d.lval, d.lraw = fieldLike(le, isList), fieldLike(le, isRaw)
	e := d.h.e
	e.Unroll, e.Unfold = true, 12
	d.h.guardNonNil()
	e.H.Call = d.call
	e.H.Value = d.value
	e.H.Set = d.set
	return d
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (d *decoding) rec(fr *ai.Frame, in ssa.Instruction, rule string, ok bool, note string) {
	if !d.quiet {
		d.h.e.Record(fr, in, rule, ok, note)
	}
	if !ok {
		d.failed = true
	}
}

// bail: a rule was just broken, nothing more is to be learned on this path.
func (d *decoding) bail() bool {
	f := d.failed && !d.quiet
	d.failed = false
	return f
}

// call: contracts of the parser (C03) and of the printing of containers.
func (d *decoding) call(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
	if cc.Fn != nil && e.InModule(cc.Fn) {
		for _, a := range cc.Args {
			if a.Typ != nil && a.Typ.String() == "reflect.Value" && ai.RVType(a) == nil && a.Op != "rvzero" {
				e.Record(cc.Fr, site(cc), "reflection follows the type", false, "a value of unknown type is passed on")
				return []ai.Exit{}, true
			}
		}
	}
	switch strings.TrimPrefix(cc.Name, "github.com/anivanovic/gotit/") {
	case "pkg/bencode.Parse":
		bad := st.Clone()
		root := ai.MkSym("decoded", cc.Sig.Results().At(0).Type())
		var out []ai.Exit
		node := d.root
		for _, x := range d.split(root, st, "", node.typ, node.addr, false, true) {
			out = append(out, ai.Exit{St: x.St, Res: []*ai.Term{x.Res[0], ai.MkNil(nil)}})
		}
		return append(out, ai.Exit{St: bad, Res: []*ai.Term{ai.MkNil(nil), ai.NewErr("parse")}}), true
	}
	if cc.Fn != nil && (cc.Fn.Name() == "String" || cc.Fn.Name() == "Encode") && cc.Fn.Signature.Recv() != nil && len(cc.Args) == 1 {
		t := cc.Fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if types.Identical(ptrTo(t), d.kinds["list"]) || types.Identical(ptrTo(t), d.kinds["dict"]) {
			op := "pretty"
			if cc.Fn.Name() == "Encode" {
				op = "encoded"
			}
			return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkOp(op, "", types.Typ[types.String], cc.Args[0])}}}, true
		}
	}
	return nil, false
}

func fits(t types.Type, kind string) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return fits(u.Elem(), kind)
	case *types.Basic:
		return kind == "int" || kind == "string"
	case *types.Slice:
		return kind == "list" || isByteType(u.Elem())
	case *types.Struct, *types.Map:
		return kind == "dict"
	}
	return false
}

// split tells the kinds of a value apart and notes what has to be done with it.
func (d *decoding) split(v *ai.Term, st *ai.State, path string, t types.Type, addr *ai.Term, mayMiss, required bool) []ai.Exit {
	var out []ai.Exit
	defer func() {
		// after a value that does not fit only the outcome matters
		for _, x := range out {
			if b := x.St.Mon("bad"); b != "" {
				for _, m := range append(x.St.Mons("set:"), x.St.Mons("need:")...) {
					x.St.SetMon(m, "")
				}
				x.St.SetMon("bad", "1")
				if b != "1" {
					d.misfits[b] = true
				}
			}
		}
	}()
	if mayMiss && st.Mon("bad") == "" {
		s := st.Clone()
		if s.Assume(ai.MkIsNil(v), true) {
			s.SetMon("kind", "")
			if required && !d.quiet {
				s.SetMon("bad", "no value for "+path)
			}
			out = append(out, ai.Exit{St: s, Res: []*ai.Term{ai.MkNil(nil)}})
		}
	}
	for _, k := range []string{"int", "string", "list", "dict"} {
		// one value that does not fit is enough: the others do
		if st.Mon("bad") != "" && (!fits(t, k) || len(out) > 0) {
			continue
		}
		s := st.Clone()
		if !s.Assume(ai.MkIsNil(v), false) {
			continue
		}
		w, x := ai.As(v, d.kinds[k])
		if !s.Assume(ai.MkTypeIs(v, d.kinds[k]), true) {
			continue
		}
		if k == "list" || k == "dict" {
			s.Assume(ai.MkIsNil(x), false)
		}
		s.SetMon("kind", "")
		if s.Mon("bad") != "" {
			d.expect(s, path, t, addr, k, x)
			out = append(out, ai.Exit{St: s, Res: []*ai.Term{w}})
			continue
		}
		if !fits(t, k) {
			s.SetMon("kind", k)
			if d.quiet {
				out = append(out, ai.Exit{St: s, Res: []*ai.Term{w}})
				continue
			}
			s.SetMon("bad", path+" takes a "+k)
			out = append(out, ai.Exit{St: s, Res: []*ai.Term{w}})
			continue
		}
		d.expect(s, path, t, addr, k, x)
		out = append(out, ai.Exit{St: s, Res: []*ai.Term{w}})
	}
	return out
}

// tagged are the fields of a structure that are decoded: key and options.
func tagged(u *types.Struct) (fs []int, keys []string, optional []bool) {
	for i := 0; i < u.NumFields(); i++ {
		tag := reflect.StructTag(u.Tag(i)).Get("ben")
		if tag == "" || !u.Field(i).Exported() {
			continue
		}
		p := strings.Split(tag, ",")
		opt := false
		for _, o := range p[1:] {
			opt = opt || o == "optional"
		}
		fs, keys, optional = append(fs, i), append(keys, p[0]), append(optional, opt)
	}
	return
}

// expect notes what has to happen to a value that fits.
func (d *decoding) expect(s *ai.State, path string, t types.Type, addr *ai.Term, kind string, x *ai.Term) {
	dv := dval{typ: t, addr: addr, kind: kind, v: x}
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t, addr = p.Elem(), nil
		dv.typ, dv.addr = t, nil
	}
	switch kind {
	case "list":
		le := d.kinds["list"].(*types.Pointer).Elem()
		u := le.Underlying().(*types.Struct)
		l := s.Field(x, le, u.Field(d.lval).Name())
		dv.v, dv.raw = l, s.Field(x, le, u.Field(d.lraw).Name())
		if sl, ok := t.Underlying().(*types.Slice); ok {
			d.lists[ai.SliceObj(l)] = dnode{path: path + "[]", typ: sl.Elem()}
		}
	case "dict":
		de := d.kinds["dict"].(*types.Pointer).Elem()
		u := de.Underlying().(*types.Struct)
		m := s.Field(x, de, u.Field(d.dmap).Name())
		dv.v, dv.raw = m, s.Field(x, de, u.Field(d.draw).Name())
		switch u := t.Underlying().(type) {
		case *types.Struct:
			d.dicts[m] = dnode{path: path, typ: t, addr: addr}
			if d.quiet {
				return
			}
			_, keys, _ := tagged(u)
			for i := range keys {
				s.SetMon(fmt.Sprintf("need:%s.%d", path, i), "1")
			}
			return
		case *types.Map:
			d.dicts[m] = dnode{path: path + "[]", typ: u.Elem(), elem: true}
		}
	}
	if d.quiet {
		return
	}
	d.vals[path+"|"+kind] = dv
	s.SetMon("set:"+path, kind)
}

// pending are the values looked up but not assigned (or looked at) yet.
func pending(st *ai.State, under string) string {
	for _, p := range []string{"set:" + under, "need:" + under} {
		if m := st.Mons(p); len(m) > 0 {
			return m[0]
		}
	}
	return ""
}

// value: an element of a container is taken.
func (d *decoding) value(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, v *ai.Term, st *ai.State) []ai.Exit {
	if v.Op == "iface" || v.Op == "nil" || !isElement(v.Typ) {
		return nil
	}
	if v.Op == "mapget" {
		n, ok := d.dicts[v.Args[0]]
		if !ok {
			return nil
		}
		if n.elem {
			d.rec(fr, in, "every element is converted", pending(st, n.path) == "", "an element is not converted before the next: "+pending(st, n.path))
			if d.bail() {
				return []ai.Exit{}
			}
			return d.split(v, st, n.path, n.typ, nil, false, true)
		}
		key := st.Content(v.Args[1])
		if key.Op != "str" {
			d.rec(fr, in, "keys are those of the fields", false, "a value is looked up under "+v.Args[1].String())
			return nil
		}
		u := n.typ.Underlying().(*types.Struct)
		fs, keys, opts := tagged(u)
		at := -1
		for i := range keys {
			if keys[i] == key.Aux && (at < 0 || st.Mon(fmt.Sprintf("need:%s.%d", n.path, at)) == "") {
				at = i
			}
		}
		d.rec(fr, in, "keys are those of the fields", at >= 0, "no field is named "+key.String())
		if at < 0 {
			return nil
		}
		if st.Mon("bad") != "" {
			return d.split(v, st, n.path+"."+u.Field(fs[at]).Name(), u.Field(fs[at]).Type(), nil, true, false)
		}
		d.rec(fr, in, "values are assigned before the next is looked up", len(st.Mons("set:"+n.path+".")) == 0, fmt.Sprint("not assigned: ", st.Mons("set:"+n.path+".")))
		if d.bail() {
			return []ai.Exit{}
		}
		// a key two fields share has one kind
		shared := 0
		for _, k := range keys {
			if k == key.Aux {
				shared++
			}
		}
		f := u.Field(fs[at])
		var addr *ai.Term
		if n.addr != nil {
			addr = ai.FieldAddr(n.addr, u, fs[at])
		}
		st.SetMon(fmt.Sprintf("need:%s.%d", n.path, at), "")
		xs := d.split(v, st, n.path+"."+f.Name(), f.Type(), addr, true, !opts[at])
		if shared < 2 || d.quiet {
			return xs
		}
		was := "was:" + n.path + "." + key.Aux
		out := []ai.Exit{}
		for _, x := range xs {
			k := "nil"
			if x.Res[0].Op == "iface" {
				k = types.TypeString(x.Res[0].Ref.(types.Type), nil)
			}
			if w := x.St.Mon(was); w != "" && w != k {
				continue
			}
			x.St.SetMon(was, k)
			out = append(out, x)
		}
		return out
	}
	if u, ok := in.(*ssa.UnOp); ok {
		a := st.Value(u.X)
		if a != nil && a.Op == "iaddr" {
			if n, ok := d.lists[a.Args[0]]; ok {
				d.rec(fr, in, "every element is converted", pending(st, n.path) == "", "an element is not converted before the next: "+pending(st, n.path))
				if d.bail() {
					return []ai.Exit{}
				}
				return d.split(v, st, n.path, n.typ, nil, false, true)
			}
		}
	}
	return nil
}

// set: something is assigned by reflection.
func (d *decoding) set(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, t types.Type, v *ai.Term, st *ai.State) {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return
	}
	if st.Mon("bad") != "" || d.quiet {
		return
	}
	why := "nothing was looked up for it"
	for _, m := range st.Mons("set:") {
		path := strings.TrimPrefix(m, "set:")
		dv, ok := d.vals[path+"|"+st.Mon(m)]
		if !ok || !types.Identical(dv.typ, t) {
			continue
		}
		if dv.addr != nil && dv.addr != addr {
			why = "the value belongs to " + path
			continue
		}
		if bad := d.value1(dv, v, st); bad != "" {
			why = bad
			continue
		}
		if u := pending(st, path+"[]"); u != "" {
			why = "an element was not converted"
			continue
		}
		d.rec(fr, in, "values are assigned to their own fields", true, "")
		st.SetMon(m, "")
		return
	}
	d.rec(fr, in, "values are assigned to their own fields", false, "a "+t.String()+" is assigned, but "+why)
	d.failed = false
	st.Kill()
}

// value1: v is the value to assign (or why not).
func (d *decoding) value1(dv dval, v *ai.Term, st *ai.State) string {
	switch u := dv.typ.Underlying().(type) {
	case *types.Basic:
		num := u.Info()&types.IsInteger != 0
		want := dv.v
		switch {
		case !num && dv.kind == "int":
			want = ai.Decimal(dv.v)
		case num && dv.kind == "string":
			if v.Op == "parsed" && st.Same(v.Args[0], st.Content(dv.v)) {
				return ""
			}
			return "it is " + v.String() + ", not the number in the string"
		}
		if num && st.EqInt(v, want) || !num && st.Same(st.Content(v), st.Content(want)) {
			return ""
		}
		return "it is " + v.String() + ", not " + want.String()
	case *types.Slice:
		if isByteType(u.Elem()) {
			var want *ai.Term
			switch dv.kind {
			case "int":
				want = ai.Decimal(dv.v)
			case "string":
				want = st.Content(dv.v)
			default:
				want = st.Content(dv.raw)
			}
			if st.Same(st.Content(v), want) {
				return ""
			}
			return "it is " + st.Content(v).String() + ", not the raw bytes " + want.String()
		}
		if !st.EqInt(ai.MkLen(v), ai.MkLen(dv.v)) {
			return "it has " + ai.MkLen(v).String() + " elements, not " + ai.MkLen(dv.v).String()
		}
	}
	return ""
}

// targets are the structures the module decodes into and one of every kind of field.
func (d *decoding) targets() []types.Type {
	var r []types.Type
	seen := map[string]bool{}
	for _, fn := range d.h.e.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != d.c.fn("pkg/bencode.Unmarshal") {
					continue
				}
				if mi, ok := call.Call.Args[1].(*ssa.MakeInterface); ok {
					if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok && !seen[p.String()] {
						seen[p.String()] = true
						r = append(r, p.Elem())
					}
				}
			}
		}
	}
	if len(r) < 2 {
		d.c.FailAt("targets of Unmarshal", "?", "-", fmt.Sprintf("only %d structures found", len(r)))
	}
	pkg := d.c.fn("pkg/bencode.Unmarshal").Pkg.Pkg
	mk := func(fs ...any) types.Type {
		var vs []*types.Var
		var tags []string
		for i := 0; i < len(fs); i += 2 {
			n := fmt.Sprintf("F%d", i/2)
			vs = append(vs, types.NewField(0, pkg, n, fs[i].(types.Type), false))
			tags = append(tags, `ben:"`+fs[i+1].(string)+`"`)
		}
		return types.NewStruct(vs, tags)
	}
	T := func(k types.BasicKind) types.Type { return types.Typ[k] }
	str := T(types.String)
	sub := mk(str, "s", T(types.Int), "n,optional")
	r = append(r,
		mk(T(types.Int), "a", T(types.Int8), "b", T(types.Int16), "c,optional", T(types.Int32), "d", T(types.Int64), "e"),
		mk(T(types.Uint), "a", T(types.Uint8), "b", T(types.Uint16), "c,optional", T(types.Uint32), "d", T(types.Uint64), "e"),
		mk(str, "a", types.NewPointer(str), "b", types.NewPointer(T(types.Int16)), "c,optional", types.NewPointer(sub), "d", sub, "e,optional"),
		mk(types.NewMap(str, T(types.Int)), "a", types.NewMap(str, sub), "b,optional", types.NewSlice(sub), "c", types.NewSlice(types.NewSlice(T(types.Int8))), "d,optional", types.NewSlice(types.Typ[types.Byte]), "e"),
	)
	return r
}

func (d *decoding) run(t types.Type) {
	c, h := d.c, d.h
	fn := c.fn("pkg/bencode.Unmarshal")
	st := h.st.Clone()
	tgt := ai.MkSym("target", ptrTo(t))
	st.Assume(ai.MkIsNil(tgt), false)
	h.keep(tgt)
	// pointers in the target may be nil
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok {
			st.Store(ai.FieldAddr(tgt, u, i), ai.MkNullable("old", u.Field(i).Type()), u.Field(i).Type())
		}
	}
	d.misfits = map[string]bool{}
	d.root = dnode{typ: t, addr: tgt}
	args := h.bind(fn, map[string]*ai.Term{"interface{}": ai.MkIface(ptrTo(t), tgt), "any": ai.MkIface(ptrTo(t), tgt)})
	for _, x := range h.call(fn, args, st) {
		if d.quiet || x.St.Nilness(x.Res[0]) == -1 {
			continue
		}
		bad := x.St.Mon("bad")
		if bad != "" {
			var l []string
			for m := range d.misfits {
				l = append(l, m)
			}
			sort.Strings(l)
			bad = "one of: " + strings.Join(l, "; ")
		}
		if bad == "" {
			bad = pending(x.St, "")
		}
		c.ObligeFn(bad == "", "success only if every value fits", fn, "decoding into "+t.String()+" may succeed although: "+bad)
	}
}

func checkC26(c *Ctx) {
	d := c.newDecoding(false)
	for _, t := range d.targets() {
		d.run(t)
	}
	c.Absorb(d.h.e)
	c.AtLeast("success only if every value fits", 4, "targets")
	c.AtLeast("values are assigned to their own fields", 4, "assignments")
	c.AtLeast("keys are those of the fields", 1, "lookups")
}
