package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C32", Rule: "abstract interpretation of every exported reading and writing method of TimeoutConn on any connection, and of Peer.Run with every operation on the connection succeeding, timing out without effect, being cut off, or failing for good: a cut off message or a failure for good comes out as an error that is no timeout, a timeout without effect as one that is; no path of Run operates on the connection after it was cut off or failed for good; a read that only timed out leads to the end of Run only if the context or the torrent is seen to be done, or a later operation failed", Run: checkC32})
}

// connErrs are the errors an operation on a connection may return: only their
// kind matters here, so there is one of each.
type connErrs struct{ timeout, other *ai.Term }

// kinds replaces the functions on errors by what they do to the kind.
func (h *harness) kinds() *connErrs {
	errT := types.Universe.Lookup("error").Type()
	k := &connErrs{ai.NewErr("timeout"), ai.NewErr("other")}
	boolT := types.Typ[types.Bool]
	inner := func(t *ai.Term) *ai.Term {
		for t.Op == "errAs" || t.Op == "as" {
			t = t.Args[0]
		}
		return t
	}
	give := func(st *ai.State, r ...*ai.Term) ([]ai.Exit, bool) { return []ai.Exit{{St: st, Res: r}}, true }
	h.e.Timeouts = map[*ai.Term]bool{k.timeout: true, k.other: false}
	prev := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		switch cc.Name {
		case "errors.New":
			return give(st, k.other)
		case "fmt.Errorf":
			f := cc.Args[0].Aux
			if cc.Args[0].Op != "str" {
				return give(st, h.sym(st, "wrapped", errT))
			}
			if strings.Count(f, "%w") == 1 {
				n := int64(strings.Count(strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", ""), "%"))
				o, off, _, _ := ai.SliceParts(cc.Args[1])
				el := types.NewInterfaceType(nil, nil)
				return give(st, inner(st.Load(ai.IndexAddr(o, ai.MkAdd(off, ai.MkInt(n)), el), el)))
			}
			return give(st, k.other)
		case "errors.As":
			x := inner(cc.Args[0])
			if x == k.other {
				return give(st, ai.MkBool(false))
			}
			if x == k.timeout {
				var out []ai.Exit
				for _, y := range e.Model(cc, st) {
					if len(y.Res) == 1 && y.Res[0] == ai.MkBool(true) {
						out = append(out, y)
					}
				}
				return out, true
			}
		case "errors.Is":
			x := inner(cc.Args[0])
			if x == k.other {
				return give(st, ai.MkBool(false))
			}
			if x == k.timeout {
				return give(st, ai.MkBool(strings.Contains(cc.Args[1].String(), "DeadlineExceeded")))
			}
		case "os.IsTimeout":
			if cc.Args[0] == k.timeout {
				return give(st, ai.MkBool(true))
			}
			return give(st, h.sym(st, "timeout", boolT))
		}
		if strings.HasSuffix(cc.Name, ".Timeout") && len(cc.Args) == 1 {
			switch inner(cc.Args[0]) {
			case k.other:
				return give(st, ai.MkBool(false))
			case k.timeout:
				return give(st, ai.MkBool(true))
			}
			return give(st, h.sym(st, "timeout", boolT))
		}
		if prev != nil {
			return prev(e, cc, st)
		}
		return nil, false
	}
	return k
}

// fail splits a failed operation that moved n bytes: it may have timed out or
// failed for good.
func (k *connErrs) fail(x ai.Exit, at int, then func(y ai.Exit, lost bool)) {
	for _, lost := range []bool{false, true} {
		y := ai.Exit{St: x.St.Clone(), Res: append([]*ai.Term(nil), x.Res...)}
		y.Res[at] = k.timeout
		if lost {
			y.Res[at] = k.other
		}
		then(y, lost)
	}
}

func checkC32(c *Ctx) {
	c.connKinds()
	c.lostPeers()
	c.AtLeast("failure for good is no timeout", 2, "failing returns of methods that read or write a connection")
	c.AtLeast("cut off message is no timeout", 2, "failing returns after a part of a message")
	c.AtLeast("timeout is reported as one", 2, "failing returns of methods that read or write a connection")
	c.AtLeast("lost connection is left alone", 2, "operations on a connection")
	c.AtLeast("slow peer is kept", 1, "ends of a connection after a timeout")
}

// connKinds: what the methods of TimeoutConn make of failures.
func (c *Ctx) connKinds() {
	for _, name := range []string{"ReadPeerMessage", "WriteMsg", "Write"} {
		fn := c.fn("pkg/gotitnet.TimeoutConn." + name)
		h := c.newHarness(fn)
		h.e.DisjExit = 8
		k := h.kinds()
		prev := h.e.H.Call
		running := false
		h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
			if !running || !isRead(cc) && !cc.IsConnOp("Write") {
				return prev(e, cc, st)
			}
			before := st.Mon("conn")
			if before != "" && before != "mid" {
				e.Record(cc.Fr, site(cc), "no operation after a failed one", false, "the connection is used again after an operation on it failed")
			}
			var out []ai.Exit
			for _, x := range e.Model(cc, st) {
				at := len(x.Res) - 1
				if x.St.Nilness(x.Res[at]) == 1 {
					x.St.SetMon("conn", "mid")
					out = append(out, x)
					continue
				}
				k.fail(x, at, func(y ai.Exit, lost bool) {
					zero := ai.MkEq(y.Res[0], ai.MkInt(0))
					for _, none := range []bool{true, false} {
						z := ai.Exit{St: y.St.Clone(), Res: y.Res}
						if !z.St.Assume(zero, none) {
							continue
						}
						switch {
						case lost:
							z.St.SetMon("conn", "lost")
						case !none || before == "mid":
							z.St.SetMon("conn", "cut")
						default:
							z.St.SetMon("conn", "slow")
						}
						out = append(out, z)
					}
				})
			}
			return out, true
		}
		for _, x := range h.conn() {
			args := h.args(fn)
			args[0] = x.Res[0]
			running = true
			for _, y := range h.call(fn, args, x.St) {
				err := y.Res[len(y.Res)-1]
				s := y.St.Mon("conn")
				if s == "mid" && y.St.Nilness(err) != 1 && name == "ReadPeerMessage" {
					s = "cut"
				}
				switch s {
				case "lost":
					c.ObligeFn(err == k.other, "failure for good is no timeout", fn, "the connection failed for good, but the error returned is "+err.String())
				case "cut":
					c.ObligeFn(err == k.other, "cut off message is no timeout", fn, "a message was cut off, after which nothing on the connection has a meaning, but the error returned ("+err.String()+") may say that it only timed out")
				case "slow":
					c.ObligeFn(err == k.timeout, "timeout is reported as one", fn, "an operation timed out without effect, but the error returned ("+err.String()+") does not say so")
				}
			}
			running = false
		}
		c.Absorb(h.e)
	}
}

// lostPeers: what a connected peer does after failures.
func (c *Ctx) lostPeers() {
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	h.e.DisjExit = 8
	k := h.kinds()
	p := &mgr{h: h, c: c}
	p.waits()
	running := false
	use := func(cc *ai.CallCtx, st *ai.State) {
		s := st.Mon("conn")
		h.e.Record(cc.Fr, site(cc), "lost connection is left alone", s != "lost", "the connection is used although it was cut off or failed for good before")
		if s == "slow" {
			st.SetMon("conn", "")
		}
	}
	prev := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if running && cc.IsConnOp("SetDeadline", "SetReadDeadline", "SetWriteDeadline") && st.Mon("conn") == "slow" {
			st.SetMon("conn", "")
		}
		if !running || !cc.IsConnOp("Write") {
			return prev(e, cc, st)
		}
		use(cc, st)
		var out []ai.Exit
		for _, x := range e.Model(cc, st) {
			if x.St.Nilness(x.Res[1]) == 1 {
				out = append(out, x)
				continue
			}
			k.fail(x, 1, func(y ai.Exit, lost bool) {
				zero := ai.MkEq(y.Res[0], ai.MkInt(0))
				for _, none := range []bool{true, false} {
					z := ai.Exit{St: y.St.Clone(), Res: y.Res}
					if z.St.Assume(zero, none) {
						if lost || !none {
							z.St.SetMon("conn", "lost")
						}
						out = append(out, z)
					}
				}
			})
		}
		return out, true
	}
	prevAfter := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prevAfter != nil {
			prevAfter(e, cc, x)
		}
		switch {
		case cc.Name == "(context.Context).Err" || cc.Name == "context.Cause":
			if x.St.Nilness(x.Res[0]) != 1 {
				saw(x.St, true)
			}
		case cc.Fn == c.fn("pkg/torrent.Torrent.Done"):
			if x.St.Truth(x.Res[0]) == 1 {
				x.St.SetMon("done", "1")
			}
		}
	}
	h.run(&runHooks{
		read: func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
			use(cc, st)
			h.forget(st, cc.Args[0], c.typ("pkg/gotitnet", "TimeoutConn"), cc.Fn)
			slow, lost := st.Clone(), st.Clone()
			slow.SetMon("conn", "slow")
			lost.SetMon("conn", "lost")
			rs := cc.Sig.Results()
			return []ai.Exit{{St: st, Res: []*ai.Term{h.sym(st, "body", rs.At(0).Type()), ai.MkNil(nil)}},
				{St: slow, Res: []*ai.Term{ai.MkNil(nil), k.timeout}}, {St: lost, Res: []*ai.Term{ai.MkNil(nil), k.other}}}
		},
		args: func(fn *ssa.Function, args []*ai.Term) {
			for i, a := range fn.Params {
				if types.TypeString(a.Type(), nil) == "context.Context" {
					p.root = args[i]
				}
			}
			running = true
		},
		exit: func(fn *ssa.Function, st *ai.State, _, _ *ai.Term) {
			if st.Mon("conn") == "slow" {
				c.ObligeFn(st.Mon("cancelled") != "" || st.Mon("done") != "", "slow peer is kept", fn,
					"the connection is given up after a read that only timed out, although neither the context nor the torrent was seen to be done")
			}
			running = false
		},
	})
	c.Absorb(h.e)
}
