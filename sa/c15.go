package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C15", Rule: "abstract interpretation: after ReadPeerMessage succeeds the stream position advanced by exactly 4 + the big-endian length at the old position and the result is exactly those bytes; after a failure that consumed bytes no later call succeeds or reads; per type byte the decoded fields are the big-endian numbers at their wire positions, and a message shorter than its type needs gets none of the protocol's types", Run: checkC15})
}

// conn makes a connection in any state a peer connection can be in.
func (h *harness) conn() []ai.Exit {
	fn := h.c.fn("pkg/gotitnet.NewTimeoutConn")
	typ := h.c.typ("pkg/gotitnet", "TimeoutConn")
	var out []ai.Exit
	for _, x := range okExits(h.call(fn, h.args(fn), h.st)) {
		h.keep(x.Res[0])
		for _, m := range []string{"ReadPeerMessage", "ReadPeerHandshake", "WriteMsg", "Write"} {
			h.forget(x.St, x.Res[0], typ, h.c.fn("pkg/gotitnet.TimeoutConn."+m))
		}
		out = append(out, x)
	}
	return out
}

// netConn is the network connection in a TimeoutConn.
func (h *harness) netConn(st *ai.State, tc *ai.Term) *ai.Term {
	typ := h.c.typ("pkg/gotitnet", "TimeoutConn")
	u := typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if types.TypeString(u.Field(i).Type(), nil) == "net.Conn" {
			return st.Load(ai.FieldAddr(tc, u, i), u.Field(i).Type())
		}
	}
	panic(missing("net.Conn in TimeoutConn"))
}

func checkC15(c *Ctx) {
	c.framing()
	c.decoding()
	c.bitfield()
}

func (c *Ctx) framing() {
	fn := c.fn("pkg/gotitnet.TimeoutConn.ReadPeerMessage")
	h := c.newHarness(fn)
	h.e.DisjExit = 8
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if isRead(cc) {
			st.SetMon("read", "1")
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if isRead(cc) && !(len(x.Res) > 1 && x.St.Is(x.Res[0], 0)) {
			x.St.SetMon("consumed", "1")
		}
	}
	for _, x := range h.conn() {
		r := h.netConn(x.St, x.Res[0])
		p0 := ai.StreamPos(r, x.St)
		h.keep(p0)
		stream := ai.StreamContent(r)
		for _, y := range h.call(fn, []*ai.Term{x.Res[0]}, x.St) {
			p1 := ai.StreamPos(r, y.St)
			if y.St.Nilness(y.Res[1]) != -1 {
				head := y.St.Csub(stream, p0, ai.MkInt(4))
				size := ai.BEInt(head, 4)
				body := y.St.Csub(stream, ai.MkAdd(p0, ai.MkInt(4)), size)
				c.ObligeFn(y.St.Nilness(y.Res[1]) == 1, "result is certain", fn, "the error result of a read is neither nil nor set")
				c.ObligeFn(y.St.EqInt(p1, ai.MkAdd(ai.MkAdd(p0, ai.MkInt(4)), size)), "message consumes length prefix and body", fn,
					"after a successful read the stream is not positioned behind the message: at "+p1.String())
				got := y.St.Content(y.Res[0])
				c.ObligeFn(y.St.Same(got, body) || y.St.EqInt(ai.Clen(got), ai.MkInt(0)) && y.St.EqInt(size, ai.MkInt(0)), "message is exactly the body", fn,
					fmt.Sprintf("a successful read returns %s, not the bytes behind the length prefix", got))
				continue
			}
			// failed: nothing consumed, or the connection is unusable
			if y.St.EqInt(p1, p0) {
				c.ObligeFn(true, "failed read keeps the message boundary", fn, "")
				continue
			}
			y.St.SetMon("read", "")
			for _, z := range h.call(fn, []*ai.Term{x.Res[0]}, y.St) {
				c.ObligeFn(z.St.Nilness(z.Res[1]) == -1 && z.St.Mon("read") == "", "no read after a partial message", fn,
					"after a read failed in the middle of a message the connection is read again as if at a message boundary")
			}
		}
	}
	c.AtLeast("message is exactly the body", 1, "successful read of a peer message")
	c.AtLeast("no read after a partial message", 1, "read that fails in the middle of a message")
	c.Absorb(h.e)
}

// isRead tells if a call takes bytes from a connection.
func isRead(cc *ai.CallCtx) bool {
	switch cc.Name {
	case "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "encoding/binary.Read", "io.Copy", "io.CopyN", "(*bufio.Reader).Read":
		return true
	}
	return cc.IsConnOp("Read")
}

// wireField is a number at a position in a message (type byte at 0).
type wireField struct {
	accessor string
	at       int64
}

var wireTypes = []struct {
	code   int64
	name   string
	min    int64
	fields []wireField
	data   int64 // position of the data, 0: none
}{
	{0, "choke", 1, nil, 0},
	{1, "unchoke", 1, nil, 0},
	{2, "interested", 1, nil, 0},
	{3, "not interested", 1, nil, 0},
	{4, "have", 5, []wireField{{"Index", 1}}, 0},
	{5, "bitfield", 1, nil, 0},
	{6, "request", 13, []wireField{{"Index", 1}, {"Offset", 5}, {"BlockLength", 9}}, 0},
	{7, "piece", 9, []wireField{{"Index", 1}, {"Offset", 5}}, 9},
	{8, "cancel", 13, []wireField{{"Index", 1}, {"Offset", 5}, {"BlockLength", 9}}, 0},
}

// deref is the struct a message pointer points to, as methods with value receivers take it.
func (h *harness) recv(fn *ssa.Function, st *ai.State, p *ai.Term) *ai.Term {
	t := fn.Signature.Recv().Type()
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return p
	}
	return st.Load(p, t)
}

// get calls an accessor without arguments; it must have one result.
func (h *harness) get(name string, st *ai.State, p *ai.Term) []ai.Exit {
	fn := h.c.fn(name)
	return h.call(fn, []*ai.Term{h.recv(fn, st, p)}, st)
}

func (c *Ctx) decoding() {
	fn := c.fn("pkg/util.NewPeerMessage")
	msg := c.typ("pkg/util", "PeerMessage")
	h := c.newHarness(fn)
	h.e.DisjExit = 8
	run := func(pre func(data, ct *ai.Term, st *ai.State) bool, post func(data, ct, m, typ *ai.Term, x ai.Exit)) {
		args := h.args(fn)
		h.keep(args...)
		st := h.st.Clone()
		ct := st.Content(args[0])
		if !pre(args[0], ct, st) {
			return
		}
		for _, x := range h.call(fn, args, st) {
			t := x.St.Field(x.Res[0], msg, "Type")
			if t == nil {
				panic(missing("PeerMessage.Type"))
			}
			post(args[0], ct, x.Res[0], t, x)
		}
	}
	_ = fmt.Sprint
	isType := func(st *ai.State, t *ai.Term) bool {
		// may be one of the protocol's types
		return st.Possible(ai.MkGE(ai.MkInt(8), t), true)
	}
	for _, w := range wireTypes {
		w := w
		run(func(data, ct *ai.Term, st *ai.State) bool {
			return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(w.min)), true) && st.Assume(ai.MkEq(st.Elem(ct, ai.MkInt(0)), ai.MkInt(w.code)), true)
		}, func(data, ct, m, t *ai.Term, x ai.Exit) {
			c.ObligeFn(x.St.Is(t, w.code), "type byte is the type", fn, "a complete "+w.name+" message is decoded as type "+t.String())
			for _, f := range w.fields {
				for _, y := range h.get("pkg/util.PeerMessage."+f.accessor, x.St, m) {
					want := ai.BEInt(y.St.Csub(ct, ai.MkInt(f.at), ai.MkInt(4)), 4)
					c.ObligeFn(y.St.EqInt(y.Res[0], want), "field at its wire position", fn,
						fmt.Sprintf("%s of a %s message is %s, not the big-endian number at byte %d", f.accessor, w.name, y.Res[0], f.at))
				}
			}
			if w.data > 0 {
				for _, y := range h.get("pkg/util.PeerMessage.Data", x.St, m) {
					want := y.St.Csub(ct, ai.MkInt(w.data), ai.MkSub(ai.MkLen(data), ai.MkInt(w.data)))
					got := y.St.Content(y.Res[0])
					c.ObligeFn(y.St.Same(got, want), "data at its wire position", fn,
						fmt.Sprintf("the data of a %s message is %s, not everything from byte %d on", w.name, got, w.data))
				}
			}
		})
		if w.min > 1 {
			run(func(data, ct *ai.Term, st *ai.State) bool {
				return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(1)), true) && st.Assume(ai.MkGE(ai.MkInt(w.min-1), ai.MkLen(data)), true) &&
					st.Assume(ai.MkEq(st.Elem(ct, ai.MkInt(0)), ai.MkInt(w.code)), true)
			}, func(data, ct, m, t *ai.Term, x ai.Exit) {
				c.ObligeFn(!isType(x.St, t), "short message has no type", fn, "a "+w.name+" message with too few bytes is decoded as type "+t.String())
			})
		}
	}
	run(func(data, ct *ai.Term, st *ai.State) bool {
		return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(1)), true) && st.Assume(ai.MkGE(st.Elem(ct, ai.MkInt(0)), ai.MkInt(9)), true)
	}, func(data, ct, m, t *ai.Term, x ai.Exit) {
		c.ObligeFn(!isType(x.St, t), "unknown type byte is no type", fn, "a message with an unknown type byte is decoded as type "+t.String())
	})
	run(func(data, ct *ai.Term, st *ai.State) bool {
		return st.Assume(ai.MkEq(ai.MkLen(data), ai.MkInt(0)), true)
	},
		func(data, ct, m, t *ai.Term, x ai.Exit) {
			c.ObligeFn(!isType(x.St, t), "empty message has no type", fn, "an empty message (keep-alive) is decoded as type "+t.String())
		})
	c.AtLeast("field at its wire position", 9, "decoded fields")
	c.AtLeast("data at its wire position", 1, "data of piece messages")
	c.Absorb(h.e)
}

// bitfield: bit i of the result stands for piece i.
func (c *Ctx) bitfield() {
	for r := int64(0); r < 8; r++ {
		c.bitfieldOf(r)
	}
	c.AtLeast("bitfield complete", 8, "bit sets made from bitfield messages")
	c.AtLeast("bitfield word is its eight bytes", 8, "words of bit sets made from bitfield messages")
}

// bitfieldOf decodes a bitfield of 8*k+r bytes.
func (c *Ctx) bitfieldOf(r int64) {
	fn := c.fn("pkg/util.PeerMessage.Bitfield")
	parse := c.fn("pkg/util.NewPeerMessage")
	h := c.newHarness(parse)
	h.e.DisjExit, h.e.Disj = 8, 4
	st := h.st
	k := h.e.Input("k", types.Typ[types.Uint32])
	n := ai.MkAdd(ai.MkScale(k, 8), ai.MkInt(r))
	if r == 0 {
		st.Assume(ai.MkGE(k, ai.MkInt(1)), true)
	}
	payload := h.e.Input("payload", types.Typ[types.String])
	st.Assume(ai.MkEq(ai.MkLen(payload), n), true)
	data := st.NewBytes(ai.Concat(ai.MkStr("\x05"), st.Csub(payload, ai.MkInt(0), n)), "message")
	want := st.Csub(payload, ai.MkInt(0), n)
	h.keep(k, payload, data)
	word := func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, i, val *ai.Term, st *ai.State) {
		done := st.Ghost("words")
		e.Record(fr, in, "bitfield words in order", done != nil && st.EqInt(i, done), "word "+i.String()+" of the bit set is written out of order")
		e.Record(fr, in, "bitfield word is its eight bytes", ai.WordAt(st, val, want, ai.MkScale(i, 8)), "word "+i.String()+" of the bit set is "+val.String()+", not made of the eight bytes at the same place")
		st.SetGhost("words", ai.MkAdd(i, ai.MkInt(1)))
	}
	isWord := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	}
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		s, ok := in.(*ssa.Store)
		if !ok || !isWord(s.Val.Type()) {
			return
		}
		i := ai.IndexOf(addr)
		if i == nil {
			return
		}
		if x, ok := s.Addr.(*ssa.IndexAddr); ok {
			if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				return // of append, see below
			}
		}
		word(e, fr, in, i, val, st)
	}
	h.e.H.Elem = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, st *ai.State) {
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && isWord(sl.Elem()) {
			if i := ai.IndexOf(addr); i != nil {
				word(e, fr, in, i, e.LoadAt(st, addr, sl.Elem()), st)
			}
		}
	}
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if cc.Name == "github.com/bits-and-blooms/bitset.From" && e.Recording() {
			w := ai.MkLen(cc.Args[0])
			in, _ := cc.Site.(ssa.Instruction)
			done := st.Ghost("words")
			c.Oblige(done != nil && st.EqInt(done, w), "bitfield complete", in, cc.Fr, "not all words of the bit set are filled")
			c.Oblige(st.LE(n, ai.MkScale(w, 8)) && st.LE(ai.MkScale(w, 8), ai.MkAdd(n, ai.MkInt(7))), "bitfield covers all bytes", in, cc.Fr,
				"the bit set of a bitfield of "+n.String()+" bytes has "+w.String()+" words")
			// bits of a word are counted from the least significant one, pieces from the most significant bit of the first byte
			c.Fail("bitfield bit order", cc.Pos(), "(util.PeerMessage).Bitfield", "the big-endian words of a bitfield are used as words of the bit set: piece i is looked up in bit 63-i of its word")
		}
		return nil, false
	}
	for _, m := range h.call(parse, []*ai.Term{data}, st) {
		m.St.SetGhost("words", ai.MkInt(0))
		for _, x := range h.call(fn, []*ai.Term{h.recv(fn, m.St, m.Res[0])}, m.St) {
			c.ObligeFn(x.St.Nilness(x.Res[0]) == -1, "bitfield is decoded", fn, "the bit set of a bitfield message may be nil")
		}
	}
	c.Absorb(h.e)
}
