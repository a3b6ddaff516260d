package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C14", Rule: "abstract interpretation with exact byte contents: what every message constructor (any field values) followed by Send hands to the writer, what the keep-alive message sends, what a connecting peer writes as handshake, and what the peer's signals write, equals the wire format byte by byte", Run: checkC14})
	register(&Check{ID: "C12", Rule: "abstract interpretation of Peer.Announce over arbitrary answers: on success exactly one handshake was written, 68 bytes were read and the protocol string and info-hash in them equal the expected ones; on failure the connection was closed; nothing else is written; the download loop is reached only behind a successful Announce", Run: checkC12})
}

const protocol = "\x13BitTorrent protocol"

// countSent accumulates what is written to connections in the ghost "sent".
func (h *harness) countSent() {
	prev := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prev != nil {
			prev(e, cc, x)
		}
		if !cc.IsConnOp("Write") {
			return
		}
		if x.St.Nilness(x.Res[1]) == -1 {
			x.St.SetMon("senderr", "1")
		}
		ct := x.St.Content(cc.Args[1])
		if s := x.St.Ghost("sent"); s != nil {
			ct = ai.Concat(s, ct)
		}
		x.St.SetGhost("sent", ct)
	}
}

// constructors are the functions of a package that make a message from numbers.
func (c *Ctx) constructors() []*ssa.Function {
	var r []*ssa.Function
	for _, m := range c.P.ByPath["pkg/util"].Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Signature.Results().Len() != 1 || types.TypeString(fn.Signature.Results().At(0).Type(), nil) != tMessage {
			continue
		}
		plain := true
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			b, ok := fn.Signature.Params().At(i).Type().(*types.Basic)
			plain = plain && ok && b.Info()&types.IsInteger != 0
		}
		if plain {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

var constructorTypes = map[string]int64{
	"CreateChokeMessage": 0, "CreateUnchokeMessage": 1, "CreateInterestedMessage": 2, "createNotInterestedMessage": 3, "CreateNotInterestedMessage": 3,
	"createHaveMessage": 4, "CreateHaveMessage": 4, "CreatePieceMessage": 6, "createCancelMessage": 8, "CreateCancelMessage": 8,
}

func checkC14(c *Ctx) {
	msg := c.typ("pkg/util", "PeerMessage")
	send := c.fn("pkg/util.PeerMessage.Send")
	c.fn("pkg/util.CreatePieceMessage")
	c.fn("pkg/util.CreateInterestedMessage")
	// signals and messages with fields
	for _, fn := range c.constructors() {
		h := c.newHarness(send)
		h.countSent()
		args := h.args(fn)
		h.keep(args...)
		for _, m := range h.call(fn, args, h.st) {
			typ := m.St.Field(m.Res[0], msg, "Type")
			code, known := constructorTypes[fn.Name()]
			if !known {
				v, ok := typ.Int64()
				if !ok {
					continue // a helper without a type of its own
				}
				code = v
			}
			var w int64 = -1
			for _, x := range wireTypes {
				if x.code == code {
					w = int64(len(x.fields)) * 4
					if w != int64(len(args))*4 {
						c.ObligeFn(false, "message has the fields of its type", fn, fmt.Sprintf("a %s message is made of %d numbers", x.name, len(args)))
					}
				}
			}
			want := []*ai.Term{ai.BE(ai.MkInt(w+1), 4), ai.BE(ai.MkInt(code), 1)}
			if code == 99 {
				want = []*ai.Term{ai.MkStr("\x00\x00\x00\x00")}
			} else if w < 0 {
				continue
			}
			for _, a := range args {
				want = append(want, ai.BE(a, 4))
			}
			wc := ai.Concat(want...)
			n := 0
			for _, x := range h.call(send, append([]*ai.Term{h.recv(send, m.St, m.Res[0])}, h.args(send)[1:]...), m.St) {
				if x.St.Mon("senderr") != "" {
					c.ObligeFn(x.St.Nilness(x.Res[1]) == -1, "a failed send is reported", send, "Send returns no error although the write failed")
					continue
				}
				n++
				got := x.St.Ghost("sent")
				c.ObligeFn(got != nil && x.St.Same(got, wc), "message bytes are exact", fn, fmt.Sprintf("the message is sent as %v, the wire format is %v", got, wc))
			}
			c.ObligeFn(n > 0, "message is sent", fn, "the message is never written")
			for i, acc := range []string{"Index", "Offset", "BlockLength"} {
				if i < len(args) && w == 12 {
					for _, y := range h.get("pkg/util.PeerMessage."+acc, m.St, m.Res[0]) {
						c.ObligeFn(y.St.EqInt(y.Res[0], args[i]), "message remembers its fields", fn, fmt.Sprintf("%s of the message is %s", acc, y.Res[0]))
					}
				}
			}
		}
		c.Absorb(h.e)
	}
	c.AtLeast("message bytes are exact", 3, "message constructors")
	// keep-alive
	{
		h := c.newHarness(send)
		h.countSent()
		g := c.P.ByPath["pkg/util"].Var("KeepalivePeerMessage")
		if g == nil {
			panic(missing("util.KeepalivePeerMessage"))
		}
		m := h.st.Load(ai.GlobalAddr(g), ptrTo(msg))
		for _, x := range h.call(send, append([]*ai.Term{h.recv(send, h.st, m)}, h.args(send)[1:]...), h.st) {
			if x.St.Mon("senderr") != "" {
				continue
			}
			got := x.St.Ghost("sent")
			c.ObligeFn(got != nil && x.St.Same(got, ai.MkStr("\x00\x00\x00\x00")), "keep-alive is four zero bytes", send, fmt.Sprintf("a keep-alive is sent as %v", got))
		}
		c.Absorb(h.e)
	}
	c.AtLeast("keep-alive is four zero bytes", 1, "keep-alive messages")
	// client id
	{
		ci := c.fn("pkg/peer.createClientId")
		h := c.newHarness(ci)
		for _, x := range h.call(ci, nil, h.st) {
			ct := x.St.Content(x.Res[0])
			c.ObligeFn(x.St.Is(ai.Clen(ct), 20), "client id has 20 bytes", ci, "the client id has "+ai.Clen(ct).String()+" bytes")
			c.ObligeFn(x.St.Same(x.St.Csub(ct, ai.MkInt(0), ai.MkInt(8)), ai.MkStr("-GO0100-")), "client id has its prefix", ci, "the client id starts with "+x.St.Csub(ct, ai.MkInt(0), ai.MkInt(8)).String())
		}
		c.Absorb(h.e)
	}
	// handshake
	{
		ch := c.fn("pkg/peer.createHandshake")
		h := c.newHarness(ch)
		args := h.args(ch)
		h.keep(args...)
		id := h.clientID(h.st)
		idc := h.st.Content(id)
		c.ObligeFn(h.st.Is(ai.Clen(idc), 20), "client id has 20 bytes", ch, "the client id of this run has "+ai.Clen(idc).String()+" bytes")
		c.ObligeFn(h.st.Same(h.st.Csub(idc, ai.MkInt(0), ai.MkInt(8)), ai.MkStr("-GO0100-")), "client id has its prefix", ch, "the client id of this run is "+idc.String())
		for _, x := range h.call(ch, args, h.st) {
			want := ai.Concat(ai.MkStr(protocol+"\x00\x00\x00\x00\x00\x00\x00\x00"), x.St.Content(args[0]), x.St.Content(id))
			got := x.St.Content(x.Res[0])
			c.ObligeFn(x.St.Same(got, want), "handshake bytes are exact", ch, fmt.Sprintf("the handshake is %v", got))
		}
		c.Absorb(h.e)
	}
	c.AtLeast("handshake bytes are exact", 1, "handshakes")
	c.onlyInit("pkg/peer", "ClientId")
	// the peer's own signals
	for name, code := range map[string]int64{"SendInterested": 2, "SendUnchoke": 1} {
		fn := c.P.Func("pkg/peer.Peer." + name)
		if fn == nil {
			continue
		}
		h := c.newHarness(c.fn("pkg/peer.NewPeer"))
		h.countSent()
		for _, p := range h.connected() {
			h.forget(p.St, p.Res[0], c.typ("pkg/peer", "Peer"), c.fn("pkg/peer.Peer.handlePeerMessage"))
			p.St.SetGhost("sent", nil)
			for _, x := range okExits(h.call(fn, []*ai.Term{p.Res[0]}, p.St)) {
				if got := x.St.Ghost("sent"); got != nil {
					c.ObligeFn(x.St.Same(got, ai.Concat(ai.MkStr("\x00\x00\x00\x01"), ai.BE(ai.MkInt(code), 1))), "signal bytes are exact", fn, fmt.Sprintf("%s writes %v", name, got))
				}
			}
		}
		c.Absorb(h.e)
	}
	c.AtLeast("signal bytes are exact", 1, "signals of a peer")
}

// clientID is this client's id.
func (h *harness) clientID(st *ai.State) *ai.Term {
	g := h.c.P.ByPath["pkg/peer"].Var("ClientId")
	if g == nil {
		panic(missing("peer.ClientId"))
	}
	return st.Load(ai.GlobalAddr(g), g.Type().Underlying().(*types.Pointer).Elem())
}

// onlyInit: the package variable is set by the initialiser only.
func (c *Ctx) onlyInit(path, name string) {
	g := c.P.ByPath[path].Var(name)
	for _, fn := range c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					c.Oblige(fn.Name() == "init" && fn.Synthetic != "", name+" is fixed", in, ai.Root(fn), name+" is changed after initialisation")
				}
			}
		}
	}
}

func checkC12(c *Ctx) {
	tor, peer := c.typ("pkg/torrent", "Torrent"), c.typ("pkg/peer", "Peer")
	fn := c.fn("pkg/peer.Peer.Announce")
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	h.e.DisjExit = 8
	h.countSent()
	prev := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		prev(e, cc, x)
		switch {
		case isDial(cc) && x.St.Nilness(x.Res[1]) != -1:
			x.St.SetMon("conn", "open")
			x.St.SetGhost("conn", ai.ReaderOf(x.Res[0]))
		case cc.IsConnOp("Close"):
			if g := x.St.Ghost("conn"); g != nil && ai.ReaderOf(cc.Args[0]) == g {
				x.St.SetMon("conn", "closed")
			}
		}
	}
	hooks := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if cc.IsConnOp("Write") {
			e.Record(cc.Fr, site(cc), "only the handshake is sent", st.Ghost("sent") == nil, "something is sent after the handshake before the answer was checked")
		}
		if hooks != nil {
			return hooks(e, cc, st)
		}
		return nil, false
	}
	for _, p := range h.peers() {
		// a peer that was not connected or whose handshake failed before
		t := p.Res[1]
		hash := p.St.Content(p.St.Field(t, tor, "Hash"))
		p.St.Assume(ai.MkEq(ai.Clen(hash), ai.MkInt(20)), true)
		id := p.St.Content(h.clientID(p.St))
		h.keep(hash, t)
		args := h.bind(fn, map[string]*ai.Term{tPeer: p.Res[0], tTorrent: t})
		for _, x := range h.call(fn, args, p.St) {
			er := x.St.Nilness(x.Res[0])
			c.ObligeFn(er != 0, "result is certain", fn, "the result of the handshake is neither an error nor success: "+x.Res[0].String())
			if er == -1 {
				c.ObligeFn(x.St.Mon("conn") != "open", "failed handshake closes the connection", fn, "an error is returned but the connection stays open")
				continue
			}
			want := ai.Concat(ai.MkStr(protocol+"\x00\x00\x00\x00\x00\x00\x00\x00"), hash, id)
			got := x.St.Ghost("sent")
			c.ObligeFn(got != nil && x.St.Same(got, want) && x.St.Mon("senderr") == "", "handshake was sent", fn, fmt.Sprintf("success although the bytes sent are %v", got))
			cn := x.St.Ghost("conn")
			c.ObligeFn(x.St.Mon("conn") == "open" && cn != nil, "success keeps the connection", fn, "success without an open connection")
			if cn == nil {
				continue
			}
			s := ai.StreamContent(cn)
			c.ObligeFn(x.St.Is(ai.StreamPos(cn, x.St), 68) || isAdvanced(x.St, cn, 68), "answer has 68 bytes", fn, "the handshake answer consumed is "+ai.StreamPos(cn, x.St).String()+" bytes")
			p0 := startPos(x.St, cn, 68)
			c.ObligeFn(hasPrefix(x.St, s, p0, protocol), "answer has the protocol string", fn, "success although the answer does not start with the protocol string: "+x.St.Csub(s, p0, ai.MkInt(20)).String())
			c.ObligeFn(x.St.Same(x.St.Csub(s, ai.MkAdd(p0, ai.MkInt(28)), ai.MkInt(20)), hash), "answer has the info-hash", fn, "success although the answer is not known to contain this torrent's info-hash")
			cf := x.St.Field(p.Res[0], peer, "conn")
			c.ObligeFn(x.St.Nilness(cf) == -1, "success keeps the connection", fn, "success but the peer has no connection")
		}
	}
	c.Absorb(h.e)
	c.AtLeast("answer has the info-hash", 1, "successful handshakes")
	c.AtLeast("failed handshake closes the connection", 4, "failing handshakes")
	c.validHandshake()
	c.runGate()
}

// validHandshake: a correct answer is accepted, a wrong one is not.
func (c *Ctx) validHandshake() {
	fn := c.fn("pkg/peer.isHandshakeValid")
	h := c.newHarness(fn)
	args := h.args(fn)
	h.keep(args...)
	st := h.st
	a, hash := st.Content(args[0]), st.Content(args[1])
	st.Assume(ai.MkEq(ai.Clen(hash), ai.MkInt(20)), true)
	good := st.Clone()
	if !good.Assume(ai.MkEq(ai.Clen(a), ai.MkInt(68)), true) || !good.Assume(ai.MkBEq(good.Csub(a, ai.MkInt(0), ai.MkInt(20)), ai.MkStr(protocol)), true) ||
		!good.Assume(ai.MkBEq(good.Csub(a, ai.MkInt(28), ai.MkInt(20)), hash), true) {
		return
	}
	for _, x := range h.call(fn, args, good) {
		c.Note("valid answer gives %s", x.Res[0])
	}
	bad := st.Clone()
	bad.Assume(ai.MkGE(ai.MkInt(67), ai.Clen(a)), true)
	for _, x := range h.call(fn, args, bad) {
		c.ObligeFn(x.St.Truth(x.Res[0]) == -1, "short answer is refused", fn, "a handshake answer of fewer than 68 bytes may be accepted")
	}
	c.Absorb(h.e)
}

func isDial(cc *ai.CallCtx) bool {
	switch cc.Name {
	case "net.DialTimeout", "net.Dial", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.DialTCP", "net.DialUDP":
		return true
	}
	return false
}

func startPos(st *ai.State, r *ai.Term, n int64) *ai.Term {
	return ai.MkSub(ai.StreamPos(r, st), ai.MkInt(n))
}

func isAdvanced(st *ai.State, r *ai.Term, n int64) bool {
	// the position of a fresh connection is unknown but fixed
	p := startPos(st, r, n)
	return p.Op == "ld" || p.Op == "sym" || st.Is(p, 0)
}

// hasPrefix: the content has the text at the place, as a whole or split once.
func hasPrefix(st *ai.State, s, at *ai.Term, text string) bool {
	part := func(i, j int) bool {
		sub := st.Csub(s, ai.MkAdd(at, ai.MkInt(int64(i))), ai.MkInt(int64(j-i)))
		if st.Same(sub, ai.MkStr(text[i:j])) {
			return true
		}
		return j == i+1 && st.EqInt(ai.BEInt(sub, 1), ai.MkInt(int64(text[i])))
	}
	if part(0, len(text)) {
		return true
	}
	for i := 1; i < len(text); i++ {
		if part(0, i) && part(i, len(text)) {
			return true
		}
	}
	for i := range text {
		if !part(i, i+1) {
			return false
		}
	}
	return true
}
