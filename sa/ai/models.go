package ai

import (
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strType = types.Typ[types.String]
var byteSliceType = types.NewSlice(types.Typ[types.Byte])

func noop(e *Engine, c *CallCtx, st *State) []Exit { return ret(st, freshResults(c)...) }

// pure returns unknown results, no failure branch.
func freshResults(c *CallCtx) []*Term {
	var r []*Term
	for i := 0; i < c.Sig.Results().Len(); i++ {
		r = append(r, freshOf(shortOf(c.Name), c.Sig.Results().At(i).Type()))
	}
	return r
}

func shortOf(n string) string {
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// fresh forks on a trailing error but leaves the arguments alone.
func fresh(e *Engine, c *CallCtx, st *State) []Exit { return e.Fresh(c, st) }

// function is an uninterpreted function of the arguments.
func function(e *Engine, c *CallCtx, st *State) []Exit {
	var r []*Term
	args := canonArgs(c, st)
	for i := 0; i < c.Sig.Results().Len(); i++ {
		t := c.Sig.Results().At(i).Type()
		x := MkOp("fn", c.Name+"#"+strconv.Itoa(i), t, args...)
		r = append(r, x)
	}
	return ret(st, r...)
}

func canonArgs(c *CallCtx, st *State) []*Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, canonVal(a, st))
	}
	return args
}

func canonVal(a *Term, st *State) *Term {
	if a.Op == "slice" && (isByteSlice(a.Typ) || isBytesObj(a.Args[0], st)) {
		return st.Content(a)
	}
	if isByteSlice(a.Typ) {
		return st.Content(a)
	}
	return a
}

func isBytesObj(o *Term, st *State) bool {
	ob := st.objs[o]
	return ob != nil && ob.content != nil
}

// buffers

func bufContent(p *Term, st *State) *Term { return st.Load(gfield("buf", p), strType) }
func setBuf(p, c *Term, st *State)        { st.heap[gfield("buf", p)] = c }

func bufWrite(p, c *Term, st *State) {
	setBuf(p, mkConcat([]*Term{bufContent(p, st), c}), st)
}

// sizeOf is the encoded size of a fixed size integer type.
func sizeOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int64, types.Uint64:
		return 8
	}
	return 0
}

func mkLE(x *Term, w int) *Term {
	var ps []*Term
	for i := w - 1; i >= 0; i-- {
		ps = append(ps, mkBES(x, w, i, i+1))
	}
	return mkConcat(ps)
}

// encode is the content binary.Write produces, nil if it cannot.
func encode(data *Term, little bool, st *State) *Term {
	if data.Op != "iface" {
		return nil
	}
	t, v := data.Ref.(types.Type), data.Args[0]
	return encodeVal(t, v, little, st)
}

func encodeVal(t types.Type, v *Term, little bool, st *State) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return encodeVal(p.Elem(), st.Load(v, p.Elem()), little, st)
	}
	if n := sizeOf(t); n > 0 && isIntType(t) {
		if little {
			return mkLE(v, n)
		}
		return mkBES(v, n, 0, n)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return st.Content(v)
		}
		if sizeOf(u.Elem()) > 0 {
			obj, off, ln, _ := SliceParts(v)
			if n, ok := ln.Int64(); ok && n <= 64 {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					ps = append(ps, encodeVal(u.Elem(), st.Load(mkIaddr(obj, MkAdd(off, MkInt(i)), u.Elem()), u.Elem()), little, st))
				}
				return mkConcat(ps)
			}
			return MkSym("encoded", strType)
		}
	case *types.Array:
		if isByte(u.Elem()) && v.Op == "arrval" {
			return v.Args[0]
		}
		if sizeOf(u.Elem()) > 0 {
			if v.Op == "struct" && len(v.Args) == int(u.Len()) {
				var ps []*Term
				for _, x := range v.Args {
					ps = append(ps, encodeVal(u.Elem(), x, little, st))
				}
				return mkConcat(ps)
			}
			return MkSym("encoded", strType)
		}
	case *types.Struct:
		var ps []*Term
		for i := 0; i < u.NumFields(); i++ {
			c := encodeVal(u.Field(i).Type(), mkField(v, u, i), little, st)
			if c == nil {
				return nil
			}
			ps = append(ps, c)
		}
		return mkConcat(ps)
	}
	return nil
}

// WriteTo writes content to an io.Writer value.
func (e *Engine) WriteTo(c *CallCtx, w, content *Term, st *State) []Exit {
	if w.Op == "iface" {
		switch typeKey(w.Ref.(types.Type)) {
		case "*bytes.Buffer", "*strings.Builder":
			bufWrite(w.Args[0], content, st)
			return ret(st, clen(content), MkNil(errorType))
		}
		if m := lookupMethod(w.Ref.(types.Type), "Write"); m != nil {
			return e.InvokeMethod(c.Fr, types.NewInterfaceType(nil, nil), m, c.Site, w, []*Term{st.NewBytes(content, "write")}, st)
		}
	}
	m := ioWriter(e)
	if m == nil {
		return ret(st, clen(content), MkNil(errorType))
	}
	it := e.ioWriterType
	return e.InvokeMethod(c.Fr, it, m, c.Site, w, []*Term{st.NewBytes(content, "write")}, st)
}

func lookupMethod(t types.Type, name string) *types.Func {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, _ := o.(*types.Func)
	return f
}

func ioWriter(e *Engine) *types.Func {
	if e.ioWriterType == nil {
		if p := e.Prog.ImportedPackage("io"); p != nil {
			if t := p.Type("Writer"); t != nil {
				e.ioWriterType = t.Type()
			}
		}
	}
	if e.ioWriterType == nil {
		return nil
	}
	return e.ioWriterType.Underlying().(*types.Interface).Method(0)
}

// streams: what a reader delivers is the content stream(r) from position pos.

func streamOf(r *Term) *Term { return MkOp("stream", "", nil, r) }

func streamPos(r *Term, st *State) *Term {
	p := st.Load(gfield("pos", r), types.Typ[types.Int])
	return p
}

func setPos(r, p *Term, st *State) { st.heap[gfield("pos", r)] = p }

// StreamRead delivers n bytes of r.
func StreamRead(r, n *Term, st *State) *Term {
	p := streamPos(r, st)
	st.Assume(mkGE0(linOf(p)), true)
	st.Assume(mkGE0(linOf(MkSub(MkInt(1<<50), MkAdd(p, n)))), true)
	setPos(r, MkAdd(p, n), st)
	return mkSub(streamOf(r), p, n)
}

// StreamPos is the read position of a stream.
func StreamPos(r *Term, st *State) *Term { return streamPos(r, st) }

// ReaderOf unwraps the reader value.
func ReaderOf(r *Term) *Term {
	for r.Op == "iface" {
		r = r.Args[0]
	}
	return r
}

func readerLimit(r *Term) *Term {
	if r.Op == "limited" {
		return r.Args[1]
	}
	return nil
}

func newErr(name string) *Term { return MkSym("err."+name, errorType) }

func nilErr() *Term { return MkNil(errorType) }

func lenCheck(e *Engine, c *CallCtx, b *Term, n int64, st *State) bool {
	ge := mkGE0(linOf(MkLen(b)).plus(-n))
	ok := st.Entails(ge)
	note := ""
	if !ok {
		note = "cannot show len >= " + strconv.FormatInt(n, 10) + " of " + MkLen(b).String()
	}
	var in ssa.Instruction
	if c.Site != nil {
		in = c.Site.(ssa.Instruction)
	}
	e.Oblige(c.Fr, in, "index out of range", ok, st, note)
	return st.Assume(ge, true)
}

func init() {
	for _, w := range []int{2, 4, 8} {
		w := w
		bits := strconv.Itoa(w * 8)
		for _, en := range []string{"bigEndian", "littleEndian"} {
			little := en == "littleEndian"
			get := func(e *Engine, c *CallCtx, st *State) []Exit {
				b := c.Args[len(c.Args)-1]
				if !lenCheck(e, c, b, int64(w), st) {
					return nil
				}
				ct := st.Csub(st.Content(b), MkInt(0), MkInt(int64(w)))
				if little {
					return ret(st, MkOp("leint", bits, c.Sig.Results().At(0).Type(), ct))
				}
				return ret(st, mkBEInt(ct, w))
			}
			put := func(e *Engine, c *CallCtx, st *State) []Exit {
				b, v := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
				if !lenCheck(e, c, b, int64(w), st) {
					return nil
				}
				if little {
					st.WriteBytes(b, MkInt(0), mkLE(v, w))
				} else {
					st.WriteBytes(b, MkInt(0), mkBES(v, w, 0, w))
				}
				return ret(st)
			}
			app := func(e *Engine, c *CallCtx, st *State) []Exit {
				b, v := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
				x := mkBES(v, w, 0, w)
				if little {
					x = mkLE(v, w)
				}
				return ret(st, st.NewBytes(mkConcat([]*Term{st.Content(b), x}), "append"))
			}
			models["(encoding/binary."+en+").Uint"+bits] = get
			models["(encoding/binary."+en+").PutUint"+bits] = put
			models["(encoding/binary."+en+").AppendUint"+bits] = app
		}
	}
	isLittle := func(o *Term) bool {
		return o.Op == "iface" && strings.Contains(o.Aux, "littleEndian")
	}
	models["encoding/binary.Write"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		ct := encode(c.Args[2], isLittle(c.Args[1]), st)
		if ct == nil {
			// types without fixed size are refused, nothing is written
			return ret(st, newErr("binary.Write"))
		}
		var out []Exit
		for _, x := range e.WriteTo(c, c.Args[0], ct, st) {
			out = append(out, Exit{x.St, x.Res[1:]})
		}
		return out
	}
	models["encoding/binary.Append"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		ct := encode(c.Args[2], isLittle(c.Args[1]), st)
		if ct == nil {
			return ret(st, MkNil(nil), newErr("binary.Append"))
		}
		return ret(st, st.NewBytes(mkConcat([]*Term{st.Content(c.Args[0]), ct}), "append"), nilErr())
	}
	models["encoding/binary.Read"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		d := c.Args[2]
		if d.Op == "iface" {
			if p, ok := d.Ref.(types.Type).Underlying().(*types.Pointer); ok {
				if n := sizeOf(p.Elem()); n > 0 {
					bad := st.clone()
					r := ReaderOf(c.Args[0])
					ct := StreamRead(r, MkInt(int64(n)), st)
					if isLittle(c.Args[1]) {
						st.Store(d.Args[0], MkOp("leint", strconv.Itoa(n*8), p.Elem(), ct), p.Elem())
					} else {
						st.Store(d.Args[0], mkBEInt(ct, n), p.Elem())
					}
					return append(ret(st, nilErr()), readFail(r, bad, newErr("binary.Read"))...)
				}
			}
		}
		return e.Default(c, st, true)
	}

	// bytes.Buffer, strings.Builder
	for _, b := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		models[b+".Write"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			ct := st.Content(c.Args[1])
			bufWrite(c.Args[0], ct, st)
			return ret(st, clen(ct), nilErr())
		}
		models[b+".WriteString"] = models[b+".Write"]
		models[b+".WriteByte"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			bufWrite(c.Args[0], byteContent(c.Args[1]), st)
			return ret(st, nilErr())
		}
		models[b+".WriteRune"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			r := MkOp("runestr", "", strType, c.Args[1])
			if n, ok := c.Args[1].Int64(); ok {
				r = MkStr(string(rune(n)))
			}
			bufWrite(c.Args[0], r, st)
			return ret(st, clen(r), nilErr())
		}
		models[b+".String"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, bufContent(c.Args[0], st))
		}
		models[b+".Len"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, clen(bufContent(c.Args[0], st)))
		}
		models[b+".Reset"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			setBuf(c.Args[0], MkStr(""), st)
			return ret(st)
		}
		models[b+".Grow"] = noop
	}
	models["(*bytes.Buffer).Bytes"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, st.NewBytes(bufContent(c.Args[0], st), "buf"))
	}
	models["bytes.NewBuffer"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		p := st.Alloc(t, "buffer")
		setBuf(p, st.Content(c.Args[0]), st)
		return ret(st, p)
	}
	models["bytes.NewBufferString"] = models["bytes.NewBuffer"]
	beq := func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkBEq(st.Content(c.Args[0]), st.Content(c.Args[1])))
	}
	models["bytes.Equal"] = beq
	for _, n := range []string{"HasPrefix", "HasSuffix"} {
		suffix := n == "HasSuffix"
		fix := func(e *Engine, c *CallCtx, st *State) []Exit {
			a, b := st.Content(c.Args[0]), st.Content(c.Args[1])
			var out []Exit
			s2 := st.clone()
			if s2.Assume(mkGE0(linOf(MkSub(MkSub(clen(b), clen(a)), MkInt(1)))), true) {
				out = append(out, Exit{s2, []*Term{False}})
			}
			if st.Assume(mkGE0(linOf(MkSub(clen(a), clen(b)))), true) {
				off := MkInt(0)
				if suffix {
					off = MkSub(clen(a), clen(b))
				}
				out = append(out, Exit{st, []*Term{MkBEq(st.Csub(a, off, clen(b)), b)}})
			}
			return out
		}
		models["strings."+n], models["bytes."+n] = fix, fix
	}
	cmp := func(e *Engine, c *CallCtx, st *State) []Exit {
		if r, ok := e.order(st.Content(c.Args[0]), st.Content(c.Args[1])); ok {
			return ret(st, MkInt(int64(r)))
		}
		eq := MkBEq(st.Content(c.Args[0]), st.Content(c.Args[1]))
		s2 := st.clone()
		var out []Exit
		if st.Assume(eq, true) {
			out = append(out, Exit{st, []*Term{MkInt(0)}})
		}
		if s2.Assume(eq, false) {
			r := MkSym("cmp", intType)
			s2.Assume(mkEQ0(linOf(r)), false)
			out = append(out, Exit{s2, []*Term{r}})
		}
		return out
	}
	models["bytes.Compare"] = cmp
	models["strings.Compare"] = cmp
	models["cmp.Compare"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if len(c.Args) == 2 && c.Site != nil && isStringType(c.Site.Common().Args[0].Type()) {
			return cmp(e, c, st)
		}
		return e.Default(c, st, false)
	}
	models["cmp.Less"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if r, ok := e.order(st.Content(c.Args[0]), st.Content(c.Args[1])); ok {
			return ret(st, MkBool(r < 0))
		}
		return e.Default(c, st, false)
	}
	models["crypto/subtle.ConstantTimeCompare"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		eq := MkBEq(st.Content(c.Args[0]), st.Content(c.Args[1]))
		s2 := st.clone()
		var out []Exit
		if st.Assume(eq, true) {
			out = append(out, Exit{st, []*Term{MkInt(1)}})
		}
		if s2.Assume(eq, false) {
			out = append(out, Exit{s2, []*Term{MkInt(0)}})
		}
		return out
	}
	models["bytes.Clone"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, st.NewBytes(st.Content(c.Args[0]), "clone"))
	}
	models["slices.Clone"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if isByteSlice(c.Sig.Results().At(0).Type()) || isByteSlice(c.Args[0].Typ) {
			return ret(st, st.NewBytes(st.Content(c.Args[0]), "clone"))
		}
		return e.Default(c, st, false)
	}
	models["strings.Clone"] = func(e *Engine, c *CallCtx, st *State) []Exit { return ret(st, st.Content(c.Args[0])) }
	models["slices.Equal"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if isByteSlice(c.Args[0].Typ) || isByteSlice(c.Args[1].Typ) {
			return beq(e, c, st)
		}
		return function(e, c, st)
	}

	// hashes
	for _, h := range []string{"crypto/sha1", "crypto/md5", "crypto/sha256", "crypto/sha512"} {
		kind := strings.TrimPrefix(h, "crypto/")
		models[h+".New"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			allocCtr++
			t := intern("alloc", "hash@"+strconv.Itoa(allocCtr), c.Sig.Results().At(0).Type(), nil, nil)
			st.objs[t] = &obj{zero: true, kind: "hash:" + kind}
			return ret(st, t)
		}
		models[h+".Sum"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, mkArrVal(mkHash(kind, st.Content(c.Args[0]))))
		}
	}
	models["(hash.Hash).Write"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		ct := st.Content(c.Args[1])
		bufWrite(c.Args[0], ct, st)
		return ret(st, clen(ct), nilErr())
	}
	models["(hash.Hash).Reset"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		setBuf(c.Args[0], MkStr(""), st)
		return ret(st)
	}
	models["(hash.Hash).Sum"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		kind := strings.TrimPrefix(st.obj(c.Args[0]).kind, "hash:")
		h := mkHash(kind, bufContent(c.Args[0], st))
		return ret(st, st.NewBytes(mkConcat([]*Term{st.Content(c.Args[1]), h}), "sum"))
	}
	// writers
	models["(io.Writer).Write"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if strings.HasPrefix(st.obj(c.Args[0]).kind, "hash:") {
			return models["(hash.Hash).Write"](e, c, st)
		}
		return connWrite(e, c, st)
	}
	models["(net.Conn).Write"] = connWrite
	models["(*net.TCPConn).Write"] = connWrite
	models["(*net.UDPConn).Write"] = connWrite
	models["io.WriteString"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return e.WriteTo(c, c.Args[0], st.Content(c.Args[1]), st)
	}
	models["(net.Conn).Read"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		r := c.Args[0]
		bad := st.clone()
		n := MkSym("n", intType)
		st.Assume(mkGE0(linOf(n)), true)
		st.Assume(mkGE0(linOf(MkSub(MkLen(c.Args[1]), n))), true)
		st.WriteBytes(c.Args[1], MkInt(0), StreamRead(r, n, st))
		out := ret(st, n, nilErr())
		// an error may come with data
		m := MkSym("n", intType)
		bad.Assume(mkGE0(linOf(m)), true)
		bad.Assume(mkGE0(linOf(MkSub(MkLen(c.Args[1]), m))), true)
		bad.WriteBytes(c.Args[1], MkInt(0), StreamRead(r, m, bad))
		return append(out, Exit{bad, []*Term{m, newErr("Read")}})
	}
	models["(io.Reader).Read"] = models["(net.Conn).Read"]
	models["(*net.UDPConn).Read"] = models["(net.Conn).Read"]
	for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline", "Close"} {
		models["(net.Conn)."+n] = fresh
		models["(*net.UDPConn)."+n] = fresh
		models["(*net.TCPConn)."+n] = fresh
	}
	models["(io.Closer).Close"] = fresh
	models["(io.ReadCloser).Close"] = fresh
	models["(net.Conn).LocalAddr"] = noop
	models["(net.Conn).RemoteAddr"] = noop
	readFull := func(e *Engine, c *CallCtx, st *State, min *Term) []Exit {
		r, b := ReaderOf(c.Args[0]), c.Args[1]
		none, part := st.clone(), st.clone()
		var out []Exit
		n := MkLen(b)
		if min != nil && min != n {
			n = MkSym("n", intType)
			st.Assume(mkGE0(linOf(MkSub(n, min))), true)
			st.Assume(mkGE0(linOf(MkSub(MkLen(b), n))), true)
		} else {
			min = MkLen(b)
		}
		st.WriteBytes(b, MkInt(0), StreamRead(r, n, st))
		out = append(out, Exit{st, []*Term{n, nilErr()}})
		if none.Assume(mkGE0(linOf(min).plus(-1)), true) {
			out = append(out, Exit{none, []*Term{MkInt(0), newErr("ReadFull")}})
		}
		if part.Assume(mkGE0(linOf(min).plus(-2)), true) {
			m := MkSym("n", intType)
			part.Assume(mkGE0(linOf(m).plus(-1)), true)
			part.Assume(mkGE0(linOf(MkSub(min, m)).plus(-1)), true)
			part.WriteBytes(b, MkInt(0), StreamRead(r, m, part))
			out = append(out, Exit{part, []*Term{m, newErr("ReadFull")}})
		}
		return out
	}
	models["io.ReadFull"] = func(e *Engine, c *CallCtx, st *State) []Exit { return readFull(e, c, st, nil) }
	models["io.ReadAtLeast"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return readFull(e, c, st, c.Args[2])
	}
	models["io.LimitReader"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkOp("limited", "", c.Sig.Results().At(0).Type(), ReaderOf(c.Args[0]), c.Args[1]))
	}
	models["net/http.MaxBytesReader"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkOp("limited", "", c.Sig.Results().At(0).Type(), ReaderOf(c.Args[1]), c.Args[2]))
	}
	models["io.ReadAll"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		r := ReaderOf(c.Args[0])
		bad := st.clone()
		n := MkSym("n", intType)
		st.Assume(mkGE0(linOf(n)), true)
		st.Assume(mkGE0(linOf(MkSub(MkInt(maxLen), n))), true)
		inner := r
		if l := readerLimit(r); l != nil {
			st.Assume(mkGE0(linOf(MkSub(l, n))), true)
			inner = r.Args[0]
		}
		ct := StreamRead(inner, n, st)
		p := MkSym("n", intType)
		bad.Assume(mkGE0(linOf(p)), true)
		bad.Assume(mkGE0(linOf(MkSub(MkInt(maxLen), p))), true)
		pc := StreamRead(inner, p, bad)
		return []Exit{{st, []*Term{st.NewBytes(ct, "readall"), nilErr()}}, {bad, []*Term{bad.NewBytes(pc, "readall"), newErr("ReadAll")}}}
	}

	// errors
	models["errors.New"] = func(e *Engine, c *CallCtx, st *State) []Exit { return ret(st, newErr("new")) }
	models["fmt.Errorf"] = models["errors.New"]
	models["errors.Is"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if st.Nilness(c.Args[0]) == 1 {
			return ret(st, MkIsNil(c.Args[1]))
		}
		if c.Args[0] == c.Args[1] {
			return ret(st, True)
		}
		return ret(st, MkOp("erris", "", boolType, c.Args...))
	}
	models["errors.As"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		no := st.clone()
		if st.Nilness(c.Args[0]) == 1 {
			return ret(no, False)
		}
		if c.Args[1].Op == "iface" {
			if p, ok := c.Args[1].Ref.(types.Type).Underlying().(*types.Pointer); ok {
				as := MkOp("errAs", typeKey(p.Elem()), p.Elem(), c.Args[0])
				st.Store(c.Args[1].Args[0], as, p.Elem())
				if isNilable(p.Elem()) {
					st.Assume(MkIsNil(as), false)
				}
			}
		}
		is := MkOp("isAs", c.Args[1].Aux, boolType, c.Args[0])
		var out []Exit
		if st.Assume(is, true) {
			out = append(out, Exit{st, []*Term{True}})
		}
		if no.Assume(is, false) {
			out = append(out, Exit{no, []*Term{False}})
		}
		return out
	}
	models["errors.Unwrap"] = function
	models["(error).Error"] = function
	models["(net.Error).Timeout"] = function
	models["os.IsNotExist"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if st.Nilness(c.Args[0]) == 1 {
			return ret(st, False)
		}
		return function(e, c, st)
	}
	models["os.IsExist"] = models["os.IsNotExist"]
	models["os.IsTimeout"] = models["os.IsNotExist"]
	models["go.uber.org/multierr.Append"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		a, b := st.Nilness(c.Args[0]), st.Nilness(c.Args[1])
		if a == 1 {
			return ret(st, c.Args[1])
		}
		if b == 1 {
			return ret(st, c.Args[0])
		}
		if a == -1 || b == -1 {
			return ret(st, newErr("multi"))
		}
		return ret(st, MkNullable("multi", errorType))
	}
	models["errors.Join"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkNullable("join", errorType))
	}

	// strconv, strings, fmt
	models["strconv.Itoa"] = func(e *Engine, c *CallCtx, st *State) []Exit { return ret(st, decimal(c.Args[0])) }
	fi := func(e *Engine, c *CallCtx, st *State) []Exit {
		if c.Args[1] == MkInt(10) {
			return ret(st, decimal(c.Args[0]))
		}
		return ret(st, MkOp("digits", c.Args[1].String(), strType, c.Args[0]))
	}
	models["strconv.FormatInt"] = fi
	models["strconv.FormatUint"] = fi
	models["strconv.AppendInt"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		d := decimal(c.Args[1])
		if c.Args[2] != MkInt(10) {
			d = MkOp("digits", c.Args[2].String(), strType, c.Args[1])
		}
		return ret(st, st.NewBytes(mkConcat([]*Term{st.Content(c.Args[0]), d}), "append"))
	}
	models["strconv.AppendUint"] = models["strconv.AppendInt"]
	parse := func(e *Engine, c *CallCtx, st *State) []Exit {
		bad := st.clone()
		t := c.Sig.Results().At(0).Type()
		base := int64(10)
		if len(c.Args) == 3 {
			base, _ = c.Args[1].Int64()
		}
		if d := st.Content(c.Args[0]); d.Op == "pretty" {
			return []Exit{{st, []*Term{MkSym("badparse", t), newErr("parse")}}}
		} else if d.Op == "decimal" && (base == 0 || base == 10) {
			lo, hi := typeRange(t)
			if len(c.Args) == 3 {
				if b, ok := c.Args[2].Int64(); ok && b > 0 && b < 64 {
					hi = new(big.Int).Lsh(big.NewInt(1), uint(b))
					if lo.Sign() < 0 {
						hi.Rsh(hi, 1)
						lo = new(big.Int).Neg(hi)
					}
					hi.Sub(hi, big.NewInt(1))
				}
			}
			var out []Exit
			x := d.Args[0]
			ge, le := mkGE0(linOf(MkSub(x, mkBigInt(lo)))), mkGE0(linOf(MkSub(mkBigInt(hi), x)))
			low := bad.clone()
			if st.Assume(ge, true) && st.Assume(le, true) {
				out = append(out, Exit{st, []*Term{x, nilErr()}})
			}
			if bad.Assume(le, false) {
				out = append(out, Exit{bad, []*Term{MkSym("badparse", t), newErr("parse")}})
			}
			if low.Assume(ge, false) {
				out = append(out, Exit{low, []*Term{MkSym("badparse", t), newErr("parse")}})
			}
			return out
		}
		if n := st.decimalOf(st.Content(c.Args[0])); n != nil && len(c.Args) < 3 {
			return ret(st, n, nilErr())
		}
		r := MkOp("parsed", c.Name+constArgs(c.Args[1:]), t, st.Content(c.Args[0]))
		unsigned := false
		if lo, _ := typeRange(t); lo != nil && lo.Sign() == 0 {
			unsigned = true
		}
		if len(c.Args) == 3 {
			if b, ok := c.Args[2].Int64(); ok && b > 0 && b < 64 {
				if unsigned {
					st.Assume(mkGE0(linOf(MkSub(MkInt(1<<uint(b)-1), r))), true)
				} else {
					st.Assume(mkGE0(linOf(MkSub(MkInt(1<<uint(b-1)-1), r))), true)
					st.Assume(mkGE0(linOf(MkAdd(r, MkInt(1<<uint(b-1))))), true)
				}
			}
		}
		valid := MkOp("parses", c.Name+constArgs(c.Args[1:]), boolType, st.Content(c.Args[0]))
		var out []Exit
		if st.Assume(valid, true) {
			out = append(out, Exit{st, []*Term{r, nilErr()}})
		}
		if bad.Assume(valid, false) {
			out = append(out, Exit{bad, []*Term{MkSym("badparse", t), newErr("parse")}})
		}
		return out
	}
	models["strconv.ParseInt"] = parse
	models["strconv.ParseUint"] = parse
	models["strconv.Atoi"] = parse
	models["fmt.Sprintf"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if r := sprintf(e, c, st); r != nil {
			return ret(st, r)
		}
		return ret(st, MkSym("sprintf", strType))
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "fmt.Sprint", "fmt.Sprintln"} {
		models[n] = noop
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln"} {
		n := n
		models[n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			w := c.Args[0]
			if w.Op != "iface" {
				return noop(e, c, st)
			}
			if typeKey(w.Ref.(types.Type)) == "*os.File" {
				return noop(e, c, st)
			}
			var r *Term
			if n == "fmt.Fprintf" {
				r = sprintf(e, &CallCtx{Args: c.Args[1:]}, st)
			} else {
				r = sprint(c.Args[1], n == "fmt.Fprintln", st)
			}
			if r == nil {
				r = MkSym("sprint", strType)
			}
			return e.WriteTo(c, w, r, st)
		}
	}
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		n := n
		models[n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			if r := sprint(c.Args[0], n == "fmt.Sprintln", st); r != nil {
				return ret(st, r)
			}
			return ret(st, MkSym("sprint", strType))
		}
	}
	models["strings.Repeat"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		n := c.Args[1]
		ge := mkGE0(linOf(n))
		in, _ := c.Site.(ssa.Instruction)
		e.Oblige(c.Fr, in, "negative Repeat count", st.Entails(ge), st, "strings.Repeat with count "+n.String())
		if !st.Assume(ge, true) {
			return nil
		}
		if k, ok := n.Int64(); ok && k <= 16 {
			var ps []*Term
			for i := int64(0); i < k; i++ {
				ps = append(ps, st.Content(c.Args[0]))
			}
			return ret(st, mkConcat(ps))
		}
		return ret(st, MkSym("repeat", strType))
	}
	models["strings.Join"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		vs, ok := e.elems(st, c.Args[0], types.Typ[types.String])
		if !ok {
			return function(e, c, st)
		}
		var ps []*Term
		for i, v := range vs {
			if i > 0 {
				ps = append(ps, st.Content(c.Args[1]))
			}
			ps = append(ps, v)
		}
		return ret(st, mkConcat(ps))
	}
	for _, n := range []string{"strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.TrimSpace", "strings.ToLower",
		"strings.ToUpper", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.ReplaceAll", "strings.IndexByte", "strings.Index", "strings.LastIndex", "strings.EqualFold",
		"strings.Count", "bytes.Contains", "bytes.IndexByte", "bytes.Index",
		"path/filepath.Join", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Clean", "path/filepath.IsLocal", "path/filepath.IsAbs", "path/filepath.FromSlash", "path/filepath.Ext",
		"path.Join", "path.Dir", "path.Clean", "io/fs.ValidPath",
		"net/netip.AddrPortFrom", "net/netip.AddrFrom4", "net/netip.AddrFrom16", "(net/netip.AddrPort).String", "(net/netip.Addr).String",
		"(net/netip.Addr).Is4", "(net/netip.Addr).Is6", "(net/netip.Addr).IsUnspecified",
		"(net/url.Values).Encode", "(*net/url.URL).String", "net/url.QueryEscape", "math.Ceil", "math.Floor", "math.Round", "math.Trunc", "math.Min", "math.Max", "math.Abs",
		"(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Milliseconds", "(time.Duration).Hours", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).Add", "(time.Time).Sub", "(time.Time).Format", "(time.Time).Before", "(time.Time).After", "(time.Time).IsZero",
		"encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString",
		"code.cloudfoundry.org/bytefmt.ByteSize"} {
		models[n] = function
	}
	validAddr := func(a *Term, st *State) *Term {
		switch {
		case a.Op == "fn" && (a.Aux == "net/netip.AddrFrom4#0" || a.Aux == "net/netip.AddrFrom16#0"), a.Op == "parsed" && a.Aux == "net/netip.ParseAddr":
			return True
		}
		return MkOp("fn", "(net/netip.Addr).IsValid#0", boolType, canonVal(a, st))
	}
	partOf := func(i int) func(e *Engine, c *CallCtx, st *State) []Exit {
		return func(e *Engine, c *CallCtx, st *State) []Exit {
			if a := c.Args[0]; a.Op == "fn" && a.Aux == "net/netip.AddrPortFrom#0" {
				return ret(st, a.Args[i])
			}
			return function(e, c, st)
		}
	}
	models["(net/netip.AddrPort).Addr"] = partOf(0)
	models["(net/netip.AddrPort).Port"] = partOf(1)
	models["(net/netip.Addr).IsValid"] = func(e *Engine, c *CallCtx, st *State) []Exit { return ret(st, validAddr(c.Args[0], st)) }
	models["(net/netip.AddrPort).IsValid"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if a := c.Args[0]; a.Op == "fn" && a.Aux == "net/netip.AddrPortFrom#0" {
			return ret(st, validAddr(a.Args[0], st))
		}
		return function(e, c, st)
	}
	models["net/netip.ParseAddr"] = parse1
	models["net/netip.ParseAddrPort"] = parse1
	models["net/url.Parse"] = func(e *Engine, c *CallCtx, st *State) []Exit { return e.Fresh(c, st) }
	models["net/netip.AddrFromSlice"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		b := c.Args[0]
		bad := st.clone()
		ct := st.Content(b)
		four := mkEQ0(linOf(clen(ct)).plus(-4))
		var out []Exit
		if st.Assume(four, true) {
			out = append(out, Exit{st, []*Term{MkOp("fn", "net/netip.AddrFrom4#0", c.Sig.Results().At(0).Type(), mkArrVal(ct)), True}})
		}
		if bad.Assume(four, false) {
			ok := MkSym("ok", boolType)
			out = append(out, Exit{bad, []*Term{MkSym("addr", c.Sig.Results().At(0).Type()), ok}})
		}
		return out
	}
	models["time.Now"] = noop
	models["time.Since"] = noop
	models["time.Until"] = noop
	models["time.Unix"] = function
	models["time.Sleep"] = noop
	models["time.After"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		symCtr++
		return ret(st, MkOp("timer", strconv.Itoa(symCtr), c.Sig.Results().At(0).Type(), c.Args[0]))
	}
	models["time.Tick"] = models["time.After"]
	models["time.NewTimer"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		pt := c.Sig.Results().At(0).Type().(*types.Pointer)
		p := st.Alloc(pt.Elem(), "timer")
		u := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "C" {
				symCtr++
				st.Store(mkFaddr(p, u, i), MkOp("timer", strconv.Itoa(symCtr), u.Field(i).Type(), c.Args[0]), u.Field(i).Type())
			}
		}
		return ret(st, p)
	}
	models["time.NewTicker"] = models["time.NewTimer"]
	models["(*time.Timer).Stop"] = noop
	models["(*time.Timer).Reset"] = noop
	models["(*time.Ticker).Stop"] = noop
	models["(*time.Ticker).Reset"] = noop

	// context
	models["(context.Context).Err"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		ok := ctxErrNil(c.Args[0])
		bad := st.clone()
		var out []Exit
		if !e.Cancelled && st.Assume(ok, true) {
			// the context may be cancelled right after, do not keep the fact
			delete(st.lits, ok)
			out = append(out, Exit{st, []*Term{nilErr()}})
		}
		if bad.Assume(ok, false) {
			out = append(out, Exit{bad, []*Term{newErr("ctx")}})
		}
		return out
	}
	models["(context.Context).Done"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkOp("ctxdone", "", c.Sig.Results().At(0).Type(), c.Args[0]))
	}
	models["(context.Context).Value"] = noop
	models["context.Cause"] = models["(context.Context).Err"]
	mkCtx := func(e *Engine, c *CallCtx, st *State) []Exit {
		symCtr++
		rs := c.Sig.Results()
		child := MkOp("ctxchild", strconv.Itoa(symCtr), rs.At(0).Type(), c.Args[0])
		r := []*Term{child}
		if rs.Len() > 1 {
			r = append(r, MkOp("cancelfn", "", rs.At(1).Type(), child))
		}
		return ret(st, r...)
	}
	for _, n := range []string{"WithCancel", "WithTimeout", "WithDeadline", "WithCancelCause", "WithValue"} {
		models["context."+n] = mkCtx
	}
	models["os/signal.NotifyContext"] = mkCtx
	models["context.WithoutCancel"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		symCtr++
		return ret(st, MkOp("ctxfree", strconv.Itoa(symCtr), c.Sig.Results().At(0).Type()))
	}
	models["context.Background"] = models["context.WithoutCancel"]
	models["context.TODO"] = models["context.WithoutCancel"]

	// locks
	for _, m := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		models[m+".Lock"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			st.locks = append(st.locks[:len(st.locks):len(st.locks)], c.Args[0])
			e.lockEffect(c.Args[0], st)
			return ret(st)
		}
		models[m+".Unlock"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			st.unlock(c.Args[0])
			return ret(st)
		}
		models[m+".TryLock"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			no := st.clone()
			st.locks = append(st.locks[:len(st.locks):len(st.locks)], c.Args[0])
			return []Exit{{st, []*Term{True}}, {no, []*Term{False}}}
		}
	}
	models["(*sync.RWMutex).RLock"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		st.locks = append(st.locks[:len(st.locks):len(st.locks)], MkOp("rlock", "", nil, c.Args[0]))
		e.lockEffect(c.Args[0], st)
		return ret(st)
	}
	models["(*sync.RWMutex).RUnlock"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		st.unlock(MkOp("rlock", "", nil, c.Args[0]))
		return ret(st)
	}
	locker := func(op string) Model {
		return func(e *Engine, c *CallCtx, st *State) []Exit {
			if op == "Lock" {
				st.locks = append(st.locks[:len(st.locks):len(st.locks)], c.Args[0])
			} else {
				st.unlock(c.Args[0])
			}
			return ret(st)
		}
	}
	models["(sync.Locker).Lock"] = locker("Lock")
	models["(sync.Locker).Unlock"] = locker("Unlock")
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		models[n] = noop
	}
	models["(*sync.WaitGroup).Go"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		e.spawn(c.Fr, c.Site, st, func(nf *Frame, g *State) []Exit { return e.CallValue(nf, c.Args[1], nil, c.Site, g) })
		return ret(st)
	}
	models["(*sync.Once).Do"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		done := gfield("once", c.Args[0])
		if st.heap[done] == True {
			return ret(st)
		}
		no := st.clone()
		no.heap[done] = True
		out := e.CallValue(c.Fr, c.Args[1], nil, c.Site, st)
		for i := range out {
			out[i].Res = nil
			out[i].St.heap[done] = True
		}
		return append(out, Exit{no, nil})
	}
	// atomics
	for _, t := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		t := t
		models["sync/atomic.Load"+t] = func(e *Engine, c *CallCtx, st *State) []Exit {
			symCtr++
			return ret(st, MkOp("atomic", strconv.Itoa(symCtr), c.Sig.Results().At(0).Type(), c.Args[0]))
		}
		models["(*sync/atomic."+t+").Load"] = models["sync/atomic.Load"+t]
		models["sync/atomic.Add"+t] = noop
		models["sync/atomic.Store"+t] = noop
		models["sync/atomic.CompareAndSwap"+t] = noop
		models["sync/atomic.Swap"+t] = noop
		models["(*sync/atomic."+t+").Add"] = noop
		models["(*sync/atomic."+t+").Store"] = noop
		models["(*sync/atomic."+t+").CompareAndSwap"] = noop
		models["(*sync/atomic."+t+").Swap"] = noop
	}
	prefixModels = append(prefixModels,
		prefixModel{"(*github.com/tevino/abool/v2.AtomicBool)", noop},
		prefixModel{"github.com/tevino/abool", noop},
		prefixModel{"(*sync/atomic.Bool)", noop},
	)

	// logging never matters, except that Fatal and Panic do not return
	logm := func(e *Engine, c *CallCtx, st *State) []Exit {
		n := shortOf(c.Name)
		switch {
		case strings.HasPrefix(n, "Fatal"):
			return nil
		case strings.HasPrefix(n, "Panic") || strings.HasPrefix(n, "DPanic"):
			in, _ := c.Site.(ssa.Instruction)
			e.Oblige(c.Fr, in, "explicit panic", false, st, "logger panics")
			return nil
		}
		return ret(st, freshResults(c)...)
	}
	for _, p := range []string{"(*go.uber.org/zap", "go.uber.org/zap", "(go.uber.org/zap", "log.", "(*log.", "log/slog.", "(*log/slog."} {
		prefixModels = append(prefixModels, prefixModel{p, logm})
	}
	models["os.Exit"] = func(e *Engine, c *CallCtx, st *State) []Exit { return nil }
	models["runtime.Goexit"] = func(e *Engine, c *CallCtx, st *State) []Exit { return nil }

	// randomness
	for _, p := range []string{"math/rand.", "(*math/rand.", "math/rand/v2.", "(*math/rand/v2.", "crypto/rand."} {
		prefixModels = append(prefixModels, prefixModel{p, func(e *Engine, c *CallCtx, st *State) []Exit {
			if shortOf(c.Name) == "Read" {
				b := c.Args[len(c.Args)-1]
				// of a length that is known without constraints
				st.WriteBytes(b, MkInt(0), mkSub(MkSymLen("random", MkLen(b), st), MkInt(0), MkLen(b)))
				return ret(st, MkLen(b), nilErr())
			}
			return ret(st, randomResults(c)...)
		}})
	}
	models["github.com/google/uuid.NewString"] = noop

	// retry
	models["github.com/avast/retry-go.Do"] = retryDo
	models["github.com/avast/retry-go/v3.Do"] = retryDo
	models["github.com/avast/retry-go/v4.Do"] = retryDo
	prefixModels = append(prefixModels, prefixModel{"github.com/avast/retry-go", func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkOp("retryopt", shortOf(c.Name), c.Sig.Results().At(0).Type(), c.Args...))
	}})
	for _, p := range []string{"(*github.com/jpillora/backoff", "github.com/jpillora/backoff", "(*github.com/gosuri/uilive", "github.com/gosuri/uilive"} {
		prefixModels = append(prefixModels, prefixModel{p, noop})
	}

	// bitsets
	bs := "(*github.com/bits-and-blooms/bitset.BitSet)."
	models["github.com/bits-and-blooms/bitset.New"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if e.H.Alloc != nil {
			in, _ := c.Site.(ssa.Instruction)
			e.H.Alloc(e, c.Fr, in, "bitset.New", c.Args[0], st)
		}
		p := st.Alloc(c.Sig.Results().At(0).Type().(*types.Pointer).Elem(), "bitset")
		st.heap[gfield("bits", p)] = MkOp("nobits", "", nil)
		st.heap[gfield("blen", p)] = c.Args[0]
		return ret(st, p)
	}
	models["github.com/bits-and-blooms/bitset.From"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		p := st.Alloc(c.Sig.Results().At(0).Type().(*types.Pointer).Elem(), "bitset")
		st.heap[gfield("bits", p)] = MkOp("bitsof", "", nil, MkSym("words", nil))
		n := MkLen(c.Args[0])
		l, ok := linOf(n).scale(64)
		if ok {
			st.heap[gfield("blen", p)] = mkLin(l)
		}
		return ret(st, p)
	}
	models[bs+"Len"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, blen(c.Args[0], st))
	}
	models[bs+"Test"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := bitTest(c.Args[0], c.Args[1], st)
		// bits outside the range are never set
		no := st.clone()
		var out []Exit
		if st.Assume(t, true) && st.Assume(mkGE0(linOf(MkSub(blen(c.Args[0], st), c.Args[1])).plus(-1)), true) {
			out = append(out, Exit{st, []*Term{True}})
		}
		if no.Assume(t, false) {
			out = append(out, Exit{no, []*Term{False}})
		}
		for _, x := range out {
			apart(x.St, c.Args[0], c.Args[1], x.Res[0] == True)
		}
		return out
	}
	setBits := func(v int) Model {
		return func(e *Engine, c *CallCtx, st *State) []Exit {
			p, i := c.Args[0], c.Args[1]
			val := MkBool(v == 1)
			if v == 2 {
				val = c.Args[2]
			}
			in, _ := c.Site.(ssa.Instruction)
			n := blen(p, st)
			inside := mkGE0(linOf(MkSub(n, i)).plus(-1))
			switch st.Truth(inside) {
			case 1:
			default:
				// the set grows to hold the index
				if e.H.Alloc != nil {
					e.H.Alloc(e, c.Fr, in, "bitset.Set", MkAdd(i, MkInt(1)), st)
				}
				grown := MkSym("blen", types.Typ[types.Uint])
				st.Assume(mkGE0(linOf(MkSub(grown, i)).plus(-1)), true)
				st.Assume(mkGE0(linOf(MkSub(grown, n))), true)
				st.heap[gfield("blen", p)] = grown
			}
			st.heap[gfield("bits", p)] = MkOp("setbit", "", nil, bitsOf(p, st), i, val)
			return ret(st, p)
		}
	}
	models[bs+"Set"] = setBits(1)
	models[bs+"Clear"] = setBits(0)
	models[bs+"SetTo"] = setBits(2)
	models[bs+"NextClear"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		no := st.clone()
		i := MkSym("next", types.Typ[types.Uint])
		st.Assume(mkGE0(linOf(MkSub(i, c.Args[1]))), true)
		st.Assume(mkGE0(linOf(MkSub(blen(c.Args[0], st), i)).plus(-1)), true)
		st.Assume(bitTest(c.Args[0], i, st), false)
		if w := st.Ghost("watch"); w != nil && watched(st, c.Args[0], c.Args[1], w, false) {
			st.Assume(mkGE0(linOf(MkSub(w, i))), true)
			return []Exit{{st, []*Term{i, True}}}
		}
		no.lits[MkOp("noclear", "", boolType, bitsOf(c.Args[0], no), c.Args[1])] = true
		return []Exit{{st, []*Term{i, True}}, {no, []*Term{MkInt(0), False}}}
	}
	models[bs+"NextSet"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		no := st.clone()
		i := MkSym("next", types.Typ[types.Uint])
		st.Assume(mkGE0(linOf(MkSub(i, c.Args[1]))), true)
		st.Assume(mkGE0(linOf(MkSub(blen(c.Args[0], st), i)).plus(-1)), true)
		st.Assume(bitTest(c.Args[0], i, st), true)
		if w := st.Ghost("watch"); w != nil && watched(st, c.Args[0], c.Args[1], w, true) {
			st.Assume(mkGE0(linOf(MkSub(w, i))), true)
			return []Exit{{st, []*Term{i, True}}}
		}
		no.lits[MkOp("noset", "", boolType, bitsOf(c.Args[0], no), c.Args[1])] = true
		return []Exit{{st, []*Term{i, True}}, {no, []*Term{MkInt(0), False}}}
	}
	models[bs+"All"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkOp("allbits", "", boolType, bitsOf(c.Args[0], st), blen(c.Args[0], st)))
	}
	models[bs+"Count"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		n := MkOp("countbits", "", types.Typ[types.Uint], bitsOf(c.Args[0], st))
		// all bits are counted exactly when all are set
		all := MkOp("allbits", "", boolType, bitsOf(c.Args[0], st), blen(c.Args[0], st))
		some := st.clone()
		var out []Exit
		if st.Assume(all, true) && st.Assume(mkEQ0(linOf(MkSub(blen(c.Args[0], st), n))), true) {
			out = append(out, Exit{st, []*Term{n}})
		}
		if some.Assume(all, false) && some.Assume(mkGE0(linOf(MkSub(blen(c.Args[0], some), n)).plus(-1)), true) {
			out = append(out, Exit{some, []*Term{n}})
		}
		return out
	}
	models[bs+"Bytes"] = noop
	models[bs+"Words"] = noop
	models[bs+"String"] = noop
	for _, n := range []string{"None", "Any"} {
		n := n
		models[bs+n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, MkOp("bits"+n, "", boolType, bitsOf(c.Args[0], st)))
		}
	}
	models[bs+"Clone"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		p := st.Alloc(c.Sig.Results().At(0).Type().(*types.Pointer).Elem(), "bitset")
		st.heap[gfield("bits", p)] = bitsOf(c.Args[0], st)
		st.heap[gfield("blen", p)] = blen(c.Args[0], st)
		return ret(st, p)
	}

	// sorting: byte slices are not sorted here
	for _, n := range []string{"sort.Strings", "slices.Sort", "sort.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "sort.Ints"} {
		models[n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			a := c.Args[0]
			if a.Op == "iface" {
				a = a.Args[0]
			}
			o, _, _, _ := sliceParts(a)
			if o != nilArr {
				st.havocObj(o)
			}
			return ret(st)
		}
	}
	// files and network
	for _, n := range []string{"os.Create", "os.Open", "os.OpenFile", "os.Mkdir", "os.MkdirAll", "os.Stat", "os.Remove", "os.ReadFile", "os.WriteFile", "(*os.File).Close", "(*os.File).Stat", "(*os.File).Sync",
		"(*os.File).WriteAt", "(*os.File).Write", "(*os.File).Seek", "(*os.File).Truncate", "(*os.File).ReadAt",
		"net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net/http.NewRequestWithContext", "net/http.NewRequest", "(*net/http.Client).Do", "(*net/http.Client).Get",
		"net/http.Get"} {
		models[n] = fresh
	}
	models["(io/fs.FileInfo).IsDir"] = noop
	models["(io/fs.FileInfo).Size"] = noop
	models["(net/url.Values).Set"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		epochCtr++
		st.setObj(c.Args[0], func(o *obj) { o.epoch = epochCtr })
		return ret(st)
	}
	models["(net/url.Values).Add"] = models["(net/url.Values).Set"]
	models["(net/url.Values).Del"] = models["(net/url.Values).Set"]
	models["runtime.KeepAlive"] = noop
}

func mkHash(kind string, c *Term) *Term {
	if kind == "sha1" {
		return MkOp("sha1", "", nil, c)
	}
	return MkOp("hash", kind, strType, c)
}

func parse1(e *Engine, c *CallCtx, st *State) []Exit {
	bad := st.clone()
	t := c.Sig.Results().At(0).Type()
	valid := MkOp("parses", c.Name, boolType, st.Content(c.Args[0]))
	var out []Exit
	if st.Assume(valid, true) {
		out = append(out, Exit{st, []*Term{MkOp("parsed", c.Name, t, st.Content(c.Args[0])), nilErr()}})
	}
	if bad.Assume(valid, false) {
		out = append(out, Exit{bad, []*Term{MkSym("badparse", t), newErr("parse")}})
	}
	return out
}

func constArgs(as []*Term) string {
	s := ""
	for _, a := range as {
		s += "," + a.String()
	}
	return s
}

func decimal(n *Term) *Term {
	if n.Op == "int" {
		return MkStr(n.I.String())
	}
	return MkOp("decimal", "", strType, n)
}

func randomResults(c *CallCtx) []*Term {
	var r []*Term
	for i := 0; i < c.Sig.Results().Len(); i++ {
		t := c.Sig.Results().At(i).Type()
		r = append(r, MkSym("random", t))
	}
	return r
}

func connWrite(e *Engine, c *CallCtx, st *State) []Exit {
	bad := st.clone()
	n := MkSym("n", intType)
	bad.Assume(mkGE0(linOf(n)), true)
	bad.Assume(mkGE0(linOf(MkSub(MkLen(c.Args[1]), n))), true)
	return []Exit{{st, []*Term{MkLen(c.Args[1]), nilErr()}}, {bad, []*Term{n, newErr("Write")}}}
}

func readFail(r *Term, st *State, err *Term) []Exit {
	n := MkSym("n", intType)
	st.Assume(mkGE0(linOf(n)), true)
	st.Assume(mkGE0(linOf(MkSub(MkInt(8), n))), true)
	StreamRead(r, n, st)
	return []Exit{{st, []*Term{err}}}
}

func (s *State) unlock(m *Term) {
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i] == m {
			n := append([]*Term(nil), s.locks[:i]...)
			s.locks = append(n, s.locks[i+1:]...)
			return
		}
	}
	s.SetMonIf("badunlock", "1")
}

// Locks held.
func (s *State) Locks() []*Term { return s.locks }

func bitsOf(p *Term, st *State) *Term {
	if v, ok := st.heap[gfield("bits", p)]; ok {
		return v
	}
	return intern("ld", strconv.Itoa(st.innermost(p).epoch), nil, nil, []*Term{gfield("bits", p)})
}

func blen(p *Term, st *State) *Term {
	if v, ok := st.heap[gfield("blen", p)]; ok {
		return v
	}
	return intern("ld", strconv.Itoa(st.innermost(p).epoch), types.Typ[types.Uint], nil, []*Term{gfield("blen", p)})
}

// BitLen is the length of a bit set.
func BitLen(p *Term, st *State) *Term { return blen(p, st) }

// BitsOf is the value of a bit set.
func BitsOf(p *Term, st *State) *Term { return bitsOf(p, st) }

func bitTest(p, i *Term, st *State) *Term { return MkBit(bitsOf(p, st), i, st) }

// MkBit is the truth of bit i in a bit set value.
func MkBit(b, i *Term, st *State) *Term {
	for b.Op == "setbit" {
		switch st.Truth(mkEQ0(linOf(MkSub(b.Args[1], i)))) {
		case 1:
			return b.Args[2]
		case -1:
			b = b.Args[0]
			continue
		}
		break
	}
	if b.Op == "nobits" {
		return False
	}
	return MkOp("bit", "", boolType, b, i)
}

// lockEffect: what the lock guards may have been changed by others.
func (e *Engine) lockEffect(mu *Term, st *State) {
	if e.OnLock != nil {
		e.OnLock(e, mu, st)
	}
}

func retryDo(e *Engine, c *CallCtx, st *State) []Exit {
	fn := c.Args[0]
	var out []Exit
	cur := []*State{st}
	// cancelled before the first attempt
	none := st.clone()
	out = append(out, Exit{none, []*Term{newErr("retry")}})
	for round := 0; round < 2; round++ {
		var next []*State
		for _, s := range cur {
			for _, x := range e.CallValue(c.Fr, fn, nil, c.Site, s) {
				if len(x.Res) == 0 {
					continue
				}
				switch x.St.Nilness(x.Res[0]) {
				case 1:
					out = append(out, Exit{x.St, []*Term{nilErr()}})
				case -1:
					s2 := x.St.clone()
					next = append(next, s2)
					out = append(out, Exit{x.St, []*Term{x.Res[0]}})
				default:
					ok, bad := x.St.clone(), x.St
					if ok.Assume(MkIsNil(x.Res[0]), true) {
						out = append(out, Exit{ok, []*Term{nilErr()}})
					}
					if bad.Assume(MkIsNil(x.Res[0]), false) {
						next = append(next, bad.clone())
						out = append(out, Exit{bad, []*Term{x.Res[0]}})
					}
				}
			}
		}
		cur = next
	}
	// options with callbacks
	return out
}

// sprintf handles formats made of text, %s, %d and %v of known arguments.
func sprintf(e *Engine, c *CallCtx, st *State) *Term {
	f := c.Args[0]
	if f.Op != "str" {
		return nil
	}
	va := c.Args[1]
	o, off, ln, _ := sliceParts(va)
	n, ok := ln.Int64()
	if !ok {
		return nil
	}
	var ps []*Term
	k := int64(0)
	s := f.Aux
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			ps = append(ps, MkStr(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil
		}
		if s[i] == '%' {
			ps = append(ps, MkStr("%"))
			continue
		}
		if k >= n {
			return nil
		}
		it := types.Universe.Lookup("any").Type()
		v := st.Load(mkIaddr(o, MkAdd(off, MkInt(k)), it), it)
		k++
		if v.Op != "iface" {
			ps = append(ps, MkSym("fmt", strType))
			continue
		}
		t := v.Ref.(types.Type)
		switch {
		case (s[i] == 's' || s[i] == 'v') && isStringType(t) && plainType(t):
			ps = append(ps, st.Content(v.Args[0]))
		case s[i] == 's' && isByteSlice(t):
			ps = append(ps, st.Content(v.Args[0]))
		case (s[i] == 'd' || s[i] == 'v') && isIntType(t) && plainType(t):
			ps = append(ps, decimal(v.Args[0]))
		case s[i] == 'd' && isIntType(t):
			ps = append(ps, decimal(v.Args[0]))
		default:
			ps = append(ps, MkSym("fmt", strType))
		}
	}
	return mkConcat(ps)
}

// sprint is the text of known strings and numbers printed one after the other.
func sprint(va *Term, line bool, st *State) *Term {
	o, off, ln, _ := sliceParts(va)
	n, ok := ln.Int64()
	if !ok {
		return nil
	}
	it := types.Universe.Lookup("any").Type()
	var ps []*Term
	wasStr := true
	for k := int64(0); k < n; k++ {
		v := st.Load(mkIaddr(o, MkAdd(off, MkInt(k)), it), it)
		if v.Op != "iface" || !plainType(v.Ref.(types.Type)) {
			return nil
		}
		t := v.Ref.(types.Type)
		str := isStringType(t)
		if k > 0 && (line || !str && !wasStr) {
			ps = append(ps, MkStr(" "))
		}
		wasStr = str
		switch {
		case str:
			ps = append(ps, st.Content(v.Args[0]))
		case isIntType(t):
			ps = append(ps, decimal(v.Args[0]))
		default:
			return nil
		}
	}
	if line {
		ps = append(ps, MkStr("\n"))
	}
	return mkConcat(ps)
}

// plainType: no String or Error method.
func plainType(t types.Type) bool {
	return lookupMethod(t, "String") == nil && lookupMethod(t, "Error") == nil
}

// ConstVal reads the value of a package level constant.
func ConstVal(p *types.Package, name string) (int64, bool) {
	o, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(o.Val()))
}

// watched: the watched index has the value and is not before the start.
func watched(st *State, p, start, w *Term, val bool) bool {
	t := st.Truth(bitTest(p, w, st))
	return (t == 1 && val || t == -1 && !val) && st.LE(start, w) && st.LT(w, blen(p, st))
}

// apart: an index whose bit differs from the watched one's is another index.
func apart(st *State, p, i *Term, val bool) {
	w := st.Ghost("watch")
	if w == nil {
		return
	}
	t := st.Truth(bitTest(p, w, st))
	if t == 0 || (t == 1) == val {
		return
	}
	switch {
	case st.LE(i, w):
		st.Assume(mkGE0(linOf(MkSub(w, i)).plus(-1)), true)
	case st.LE(w, i):
		st.Assume(mkGE0(linOf(MkSub(i, w)).plus(-1)), true)
	}
}

// decimalOf is the number denoted by a content whose bytes are known to be
// few digits, nil when they are not known to be.
func (s *State) decimalOf(ct *Term) *Term {
	n, ok := clen(ct).Int64()
	if !ok || n < 1 || n > 18 {
		return nil
	}
	v := MkInt(0)
	for i := int64(0); i < n; i++ {
		b := s.elemOf(ct, MkInt(i))
		if i == 0 && n > 1 && b == MkInt('-') {
			if r := s.decimalOf(s.Csub(ct, MkInt(1), MkInt(n))); r != nil && !s.elemIs(ct, 1, '-') {
				return MkScale(r, -1)
			}
			return nil
		}
		if !s.LE(MkInt('0'), b) || !s.LE(b, MkInt('9')) {
			return nil
		}
		v = MkAdd(MkScale(v, 10), MkSub(b, MkInt('0')))
	}
	return v
}

func (s *State) elemIs(ct *Term, i int64, b byte) bool {
	return s.elemOf(ct, MkInt(i)) == MkInt(int64(b))
}
