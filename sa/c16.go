package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C16", Rule: "abstract interpretation of every exported method of TimeoutConn: each read and write on the connection is preceded, in that call, by a successful setting of the matching deadline to now plus the connection's timeout; dial, connection and HTTP timeouts are proved positive and at most a minute; nothing outside TimeoutConn operates on a network connection", Run: checkC16})
}

const minute = 60_000_000_000

func withinMinute(st *ai.State, d *ai.Term) bool {
	return d != nil && st.LE(ai.MkInt(1), d) && st.LE(d, ai.MkInt(minute))
}

// deadlines follows the deadlines set on connections.
func (h *harness) deadlines(limit func(st *ai.State, d *ai.Term) bool) {
	prev, prevAfter := h.e.H.Call, h.e.H.After
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		in := site(cc)
		op := ""
		switch {
		case isRead(cc):
			op = "read"
		case cc.IsConnOp("Write") || cc.Name == "io.WriteString" || cc.Name == "io.Copy":
			op = "write"
		case cc.IsConnOp("SetDeadline", "SetReadDeadline", "SetWriteDeadline"):
			d := cc.Args[1]
			dur := durationFromNow(d)
			e.Record(cc.Fr, in, "deadline is now plus the timeout", dur != nil && limit(st, dur), fmt.Sprintf("the deadline is set to %v", d))
		}
		if op != "" {
			e.Record(cc.Fr, in, "deadline before each "+op, st.Mon("dl:"+op) == "set", "a "+op+" on the connection without a deadline set successfully for it: "+st.Mon("dl:"+op))
		}
		if prev != nil {
			return prev(e, cc, st)
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prevAfter != nil {
			prevAfter(e, cc, x)
		}
		if cc.IsConnOp("SetDeadline", "SetReadDeadline", "SetWriteDeadline") {
			v := "set"
			if x.St.Nilness(x.Res[0]) != 1 {
				v = "setting it failed"
			}
			if !strings.HasSuffix(cc.Name, "SetWriteDeadline") {
				x.St.SetMon("dl:read", v)
			}
			if !strings.HasSuffix(cc.Name, "SetReadDeadline") {
				x.St.SetMon("dl:write", v)
			}
		}
	}
}

// durationFromNow is d when the time is now plus d.
func durationFromNow(t *ai.Term) *ai.Term {
	if t.Op == "fn" && strings.HasPrefix(t.Aux, "(time.Time).Add") && len(t.Args) == 2 && t.Args[0].Op == "sym" && strings.HasPrefix(t.Args[0].Aux, "Now") {
		return t.Args[1]
	}
	return nil
}

// dials checks the timeouts connections are made with.
func (h *harness) dials() {
	prev := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		in := site(cc)
		if isDial(cc) {
			ok := false
			switch cc.Name {
			case "net.DialTimeout":
				ok = withinMinute(st, cc.Args[2])
			case "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
				if pt, isP := cc.Sig.Recv().Type().(*types.Pointer); isP {
					ok = withinMinute(st, st.Field(cc.Args[0], pt.Elem(), "Timeout"))
				}
			}
			e.Record(cc.Fr, in, "connecting has a timeout of at most a minute", ok, "a connection is made without a timeout, or one that is not positive and at most a minute")
		}
		if cc.Fn != nil && cc.Fn == h.c.P.Func("pkg/gotitnet.NewTimeoutConn") {
			var d *ai.Term
			for i, p := range cc.Fn.Params {
				if types.TypeString(p.Type(), nil) == "time.Duration" {
					d = cc.Args[i]
				}
			}
			e.Record(cc.Fr, in, "connection timeout is at most a minute", withinMinute(st, d), fmt.Sprintf("the timeout of the connection is %v", d))
		}
		if prev != nil {
			return prev(e, cc, st)
		}
		return nil, false
	}
}

func checkC16(c *Ctx) {
	typ := c.typ("pkg/gotitnet", "TimeoutConn")
	// operations
	n := 0
	for _, fn := range c.methods(typ) {
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		n++
		h := c.newHarness(fn)
		h.e.DisjExit = 8
		var tc *ai.Term
		h.deadlines(func(st *ai.State, d *ai.Term) bool {
			return tc != nil && st.EqInt(d, st.Field(tc, typ, "timeout")) || withinMinute(st, d)
		})
		for _, x := range h.conn() {
			x.St.ClearMons()
			tc = x.Res[0]
			args := h.bind(fn, map[string]*ai.Term{types.TypeString(ptrTo(typ), nil): tc})
			if fn.Signature.Recv() != nil && len(args) > 0 {
				args[0] = h.recv(fn, x.St, tc)
			}
			h.call(fn, args, x.St)
			// the timeout stays the one it was made with
		}
		c.Absorb(h.e)
	}
	c.AtLeast("deadline before each read", 3, "reads on connections")
	c.AtLeast("deadline before each write", 2, "writes on connections")
	// the timeout is set by the constructor only, to the value given
	{
		fn := c.fn("pkg/gotitnet.NewTimeoutConn")
		h := c.newHarness(fn)
		args := h.args(fn)
		h.keep(args...)
		for _, x := range okExits(h.call(fn, args, h.st)) {
			var d *ai.Term
			for i, p := range fn.Params {
				if types.TypeString(p.Type(), nil) == "time.Duration" {
					d = args[i]
				}
			}
			got := x.St.Field(x.Res[0], typ, "timeout")
			c.ObligeFn(d != nil && got != nil && x.St.EqInt(got, d), "connection keeps its timeout", fn, fmt.Sprintf("the connection's timeout is %v", got))
		}
		c.Absorb(h.e)
		u := typ.Underlying().(*types.Struct)
		for _, f := range c.P.AllFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa).owner == types.TypeString(typ, nil) && u.Field(fa.Field).Name() == "timeout" {
						_, fresh := fa.X.(*ssa.Alloc)
						c.Oblige(fresh, "connection keeps its timeout", in, ai.Root(f), "the timeout of a connection is changed")
					}
				}
			}
		}
	}
	// connecting: peers
	{
		h := c.newHarness(c.fn("pkg/peer.NewPeer"))
		h.dials()
		h.connected()
		c.Absorb(h.e)
	}
	// trackers
	{
		t := c.newTrk()
		t.h.dials()
		t.run(nil)
		c.Absorb(t.h.e)
	}
	c.AtLeast("connection timeout is at most a minute", 2, "connections to peers and trackers")
	c.AtLeast("HTTP requests have a timeout of at most a minute", 1, "HTTP requests")
	c.onlyTimeoutConn()
}

// methods of a type, receivers by value or pointer.
func (c *Ctx) methods(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if o, ok := ms.At(i).Obj().(*types.Func); ok {
			if f := c.P.SSA.FuncValue(o); f != nil && c.P.inModule(f) {
				r = append(r, f)
			}
		}
	}
	return r
}

// onlyTimeoutConn: network connections are operated on by TimeoutConn only.
func (c *Ctx) onlyTimeoutConn() {
	n := 0
	for _, f := range c.P.AllFns {
		if f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), "/gotitnet") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				cc := ci.Common()
				bad := ""
				if cc.IsInvoke() {
					if strings.HasPrefix(types.TypeString(cc.Value.Type(), nil), "net.") && (cc.Method.Name() == "Read" || cc.Method.Name() == "Write") {
						bad = "operates on a " + types.TypeString(cc.Value.Type(), nil) + " directly, without the deadlines of TimeoutConn"
					}
				} else if fn := cc.StaticCallee(); fn != nil {
					name := ai.FnName(fn)
					switch {
					case name == "net.Dial" || name == "net.DialTimeout" || strings.HasPrefix(name, "(*net.Dialer).Dial"):
						bad = "makes a connection directly, without the deadlines of TimeoutConn"
					case strings.HasPrefix(name, "(*net.") && (fn.Name() == "Read" || fn.Name() == "Write"):
						bad = "operates on a network connection directly"
					case name == "net/http.Get" || name == "net/http.Post" || name == "net/http.Head" || name == "net/http.PostForm":
						bad = "uses the default HTTP client, which has no timeout"
					}
				}
				c.Oblige(bad == "", "network connections are used through TimeoutConn", in, ai.Root(f), bad)
			}
		}
	}
}
