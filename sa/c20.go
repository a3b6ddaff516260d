package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C20", Rule: "abstract interpretation of the trackers New makes, in any later state: bytes 12 to 16 of each packet sent are a number drawn in this announce; the announce is sent, and success returned, only in states where the answer is long enough, its first four bytes are the action expected and the next four are those of the request; the interval is unchanged at every failing return; an answer with action 3 and the request's id leads to an error made from its bytes", Run: checkC20})
	register(&Check{ID: "C04", Rule: "abstract interpretation of the trackers' construction, announce, wait and close, for every HTTP body and datagram (decoding of a body is replaced by the contract C03 decides): every slice and index expression, dereference, type assertion, division and explicit panic on the way is an obligation", Run: func(c *Ctx) { t := c.newTrk(); t.run(nil); c.Absorb(t.h.e) }})
}

// udpRequest: what is sent to a UDP tracker.
func (t *trk) udpRequest(fr *ai.Frame, in ssa.Instruction, st *ai.State, w *ai.Term) {
	at := func(c *ai.Term, off, n int64) *ai.Term { return st.Csub(c, ai.MkInt(off), ai.MkInt(n)) }
	tx := ai.BEInt(at(w, 12, 4), 4)
	fresh := false
	for d := range t.drawn {
		fresh = fresh || st.EqInt(tx, d)
	}
	switch st.Mon("writes") {
	case "":
		t.rec("C19", fr, in, "connect request is exact", st.Is(ai.Clen(w), 16) && st.Same(at(w, 0, 8), ai.MkStr("\x00\x00\x04\x17\x27\x10\x19\x80")) && st.Same(at(w, 8, 4), ai.BE(ai.MkInt(0), 4)), "the connect request is "+w.String())
		t.rec("C20", fr, in, "connect request's transaction id is freshly drawn", fresh, "the transaction id of the request is "+tx.String())
	case "1":
		w1, d1 := st.Ghost("w:1"), st.Ghost("d:1")
		t.rec("C20", fr, in, "announce's transaction id is freshly drawn", fresh && !st.EqInt(tx, ai.BEInt(at(w1, 12, 4), 4)), "the transaction id of the announce is "+tx.String())
		if st.Mon("reads") != "1" || d1 == nil {
			t.rec("C20", fr, in, "announce follows an accepted connect answer", false, "the announce is sent without a connect answer")
			return
		}
		t.answer(fr, in, st, "connect answer", d1, w1, 16, 0)
		data := t.c.typ("", "AnnounceData")
		f := func(n string) *ai.Term { return st.Field(t.data, data, n) }
		id := st.Content(t.h.clientID(st))
		for _, x := range []struct {
			name   string
			off, n int64
			want   *ai.Term
		}{
			{"connection id", 0, 8, at(d1, 8, 8)}, {"action", 8, 4, ai.BE(ai.MkInt(1), 4)}, {"info-hash", 16, 20, st.Content(t.hash)}, {"peer id", 36, 20, id},
			{"downloaded", 56, 8, ai.BE(f("Downloaded"), 8)}, {"left", 64, 8, ai.BE(f("Left"), 8)}, {"uploaded", 72, 8, ai.BE(f("Uploaded"), 8)}, {"port", 96, 2, ai.BE(f("Port"), 2)},
		} {
			got := at(w, x.off, x.n)
			t.rec("C19", fr, in, "announce packet: "+x.name, st.Same(got, x.want), fmt.Sprintf("%s at byte %d is %v, not %v", x.name, x.off, got, x.want))
		}
		t.rec("C19", fr, in, "announce packet has 98 bytes", st.Is(ai.Clen(w), 98), "the announce packet has "+ai.Clen(w).String()+" bytes")
	default:
		t.rec("C20", fr, in, "one announce per connect", false, "more than two packets are sent in one announce")
	}
}

// answer: a datagram that is accepted.
func (t *trk) answer(fr *ai.Frame, in ssa.Instruction, st *ai.State, what string, d, w *ai.Term, min, action int64) {
	at := func(c *ai.Term, off, n int64) *ai.Term { return st.Csub(c, ai.MkInt(off), ai.MkInt(n)) }
	t.rec("C20", fr, in, what+" is long enough", st.LE(ai.MkInt(min), ai.Clen(d)), "an answer of "+ai.Clen(d).String()+" bytes is used")
	t.rec("C20", fr, in, what+" has the expected action", hasInt(st, at(d, 0, 4), ai.MkInt(action)), "an answer with another action may be used: "+at(d, 0, 4).String())
	t.rec("C20", fr, in, what+" has the request's transaction id", hasInt(st, at(d, 4, 4), ai.BEInt(at(w, 12, 4), 4)), "an answer with another transaction id may be used")
}

func hasInt(st *ai.State, c, v *ai.Term) bool {
	return st.EqInt(ai.BEInt(c, 4), v) || st.Same(c, ai.BE(v, 4))
}

func checkC20(c *Ctx) {
	t := c.newTrk()
	t.errorAnswers()
	t.run(func(r trkRun, fn *ssa.Function, x ai.Exit) {
		if r.kind == "udp" && x.St.Mon("answer") != "other" && x.St.Mon("fail") == "" && lastAnswer(x.St) != nil {
			d := lastAnswer(x.St)
			ok := x.St.Mon("carried") != "" || mentions(x.St, x.Res[1], x.St.Csub(d, ai.MkInt(8), ai.MkSub(ai.Clen(d), ai.MkInt(8))), 4)
			c.ObligeFn(x.St.Nilness(x.Res[1]) == -1 && ok, "error answer is reported with its message", fn, "after an error answer (action 3) with the request's transaction id Announce returns "+x.Res[1].String()+", which is not known to carry the tracker's message")
		}
		if r.kind != "udp" || x.St.Nilness(x.Res[1]) == -1 {
			return
		}
		d, w := x.St.Ghost("d:2"), x.St.Ghost("w:2")
		if d == nil || w == nil {
			c.ObligeFn(false, "success needs an announce answer", fn, "Announce succeeds without an answer to its announce")
			return
		}
		c.ObligeFn(true, "success needs an announce answer", fn, "")
		at := func(c *ai.Term, off, n int64) *ai.Term { return x.St.Csub(c, ai.MkInt(off), ai.MkInt(n)) }
		c.ObligeFn(x.St.LE(ai.MkInt(20), ai.Clen(d)), "announce answer is long enough", fn, "an answer of "+ai.Clen(d).String()+" bytes is used")
		c.ObligeFn(hasInt(x.St, at(d, 0, 4), ai.MkInt(1)), "announce answer has the expected action", fn, "an answer with another action may be used")
		c.ObligeFn(hasInt(x.St, at(d, 4, 4), ai.BEInt(at(w, 12, 4), 4)), "announce answer has the request's transaction id", fn, "an answer with another transaction id may be used")
	})
	c.Absorb(t.h.e)
	c.AtLeast("connect answer has the request's transaction id", 1, "uses of connect answers")
	c.AtLeast("announce answer has the request's transaction id", 1, "uses of announce answers")
	c.AtLeast("connect request's transaction id is freshly drawn", 1, "connect requests")
	c.AtLeast("error answer is reported with its message", 1, "error answers (action 3)")
	c.AtLeast("announce's transaction id is freshly drawn", 1, "announces")
}

func lastAnswer(st *ai.State) *ai.Term { return st.Ghost("d:" + st.Mon("reads")) }

// errorAnswers keeps apart the states in which the last datagram is an error
// answer to the last request, and notes when an error with its message is made.
func (t *trk) errorAnswers() {
	h := t.h
	norm := h.e.H.Norm
	h.e.H.Norm = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
		if norm != nil {
			norm(e, fr, st)
		}
		d := lastAnswer(st)
		w := st.Ghost("w:" + st.Mon("writes"))
		if d == nil || w == nil || st.Dead() {
			return
		}
		cur := st.Mon("reads") + "/" + st.Mon("writes")
		if st.Mon("answerof") != cur {
			st.SetMon("answerof", cur)
			st.SetMon("answer", "")
			st.SetMon("carried", "")
		}
		if st.Mon("answer") != "" {
			return
		}
		at := func(c *ai.Term, off, n int64) *ai.Term { return st.Csub(c, ai.MkInt(off), ai.MkInt(n)) }
		if !st.LE(ai.MkInt(8), ai.Clen(d)) {
			if st.LT(ai.Clen(d), ai.MkInt(8)) {
				st.SetMon("answer", "other")
			}
			return
		}
		action := st.Truth(ai.MkEq(ai.BEInt(at(d, 0, 4), 4), ai.MkInt(3)))
		id := st.Truth(ai.MkEq(ai.BEInt(at(d, 4, 4), 4), ai.BEInt(at(w, 12, 4), 4)))
		switch {
		case action == -1 || id == -1:
			st.SetMon("answer", "other")
		case action == 1 && id == 1:
			st.SetMon("answer", "error")
		}
	}
	after := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if after != nil {
			after(e, cc, x)
		}
		if cc.Name != "errors.New" && cc.Name != "fmt.Errorf" {
			return
		}
		d := lastAnswer(x.St)
		if d == nil || !x.St.LE(ai.MkInt(8), ai.Clen(d)) {
			return
		}
		msg := x.St.Csub(d, ai.MkInt(8), ai.MkSub(ai.Clen(d), ai.MkInt(8)))
		for _, a := range cc.Args {
			if mentions(x.St, a, msg, 4) {
				x.St.SetMon("carried", "1")
			}
		}
	}
}

// mentions: the value, or something it refers to, is made of sub.
func mentions(st *ai.State, v, sub *ai.Term, depth int) bool {
	if v == nil || depth == 0 {
		return false
	}
	if ai.HasSub(v, sub) {
		return true
	}
	if v.Op == "iface" {
		return mentions(st, v.Args[0], sub, depth)
	}
	if v.Typ == nil && v.Op != "slice" {
		return false
	}
	if v.Op == "slice" || isSlice(v.Typ) {
		if ai.HasSub(st.Content(v), sub) {
			return true
		}
		var el types.Type
		if v.Typ != nil {
			el = v.Typ.Underlying().(*types.Slice).Elem()
		} else {
			el = types.NewInterfaceType(nil, nil)
		}
		o, off, ln, _ := ai.SliceParts(v)
		if n, ok := ln.Int64(); ok && n < 16 {
			for i := int64(0); i < n; i++ {
				if mentions(st, st.Load(ai.IndexAddr(o, ai.MkAdd(off, ai.MkInt(i)), el), el), sub, depth-1) {
					return true
				}
			}
		}
		return false
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 && ai.HasSub(st.Content(v), sub)
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if mentions(st, st.Load(ai.FieldAddr(v, s, i), s.Field(i).Type()), sub, depth-1) {
					return true
				}
			}
		}
	}
	return false
}
