package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C01", Rule: "abstract interpretation of handlePeerMessage over every message of a connected peer: at each send on the channel to the writer the SHA-1 term of the sent message's data equals the hash stored for the sent message's index and its offset is 0; the handler reports a message as stored exactly when it was sent; element k of NewPieces is bytes 20k..20k+20 of its argument for all k, and New keeps that list; no other function sends messages to a writer or writes to an output file", Run: checkC01})
}

// hashField is the name of the hash of a Piece.
func (c *Ctx) hashField() (types.Type, string) {
	pt := c.typ("pkg/torrent", "Piece")
	f := fieldOfType(pt, "[]byte")
	if f == "" {
		panic(missing("hash in torrent.Piece"))
	}
	return pt, f
}

func isMessageChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && types.TypeString(ch.Elem(), nil) == tMessage
}

func checkC01(c *Ctx) {
	tor := c.typ("pkg/torrent", "Torrent")
	piece, hash := c.hashField()
	np := c.fn("pkg/peer.NewPeer")
	handle := c.fn("pkg/peer.Peer.handlePeerMessage")
	for _, mc := range messageCases() {
		mc := mc
		h := c.newHarness(np)
		var torrent *ai.Term
		h.e.H.Send = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, m *ai.Term, st *ai.State) {
			sn, ok := in.(*ssa.Send)
			if !ok || !isMessageChan(sn.Chan.Type()) {
				return
			}
			st.SetMon("sent", "yes")
			for _, d := range h.get("pkg/util.PeerMessage.Data", st, m) {
				idx, off := h.number("Index", d.St, m), h.number("Offset", d.St, m)
				obj, so, n, _ := ai.SliceParts(d.St.Field(torrent, tor, "Pieces"))
				inside := d.St.LT(idx, n)
				e.Record(fr, in, "index of written data is inside the torrent", inside, "data is passed on for piece "+idx.String()+", which may be outside the torrent")
				el := ai.IndexAddr(obj, ai.MkAdd(so, idx), piece)
				want := d.St.Content(d.St.Field(el, piece, hash))
				got := ai.Sha1(d.St.Content(d.Res[0]))
				e.Record(fr, in, "only data with the listed hash is passed on", d.St.Same(got, want), "data is passed on although its SHA-1 is not known to equal the hash listed for its piece")
				e.Record(fr, in, "checked data is the start of its piece", d.St.Is(off, 0), "data is passed on at offset "+off.String()+" of its piece, but the check covers the piece from its start")
			}
		}
		h.handled(mc, func(st *ai.State, p, t, ct *ai.Term) bool { torrent = t; return true },
			func(p, t, m *ai.Term, before *ai.State, x ai.Exit) {
				sent := x.St.Mon("sent") != ""
				for i := range x.Res {
					if types.TypeString(handle.Signature.Results().At(i).Type(), nil) != "bool" {
						continue
					}
					tr := x.St.Truth(x.Res[i])
					if sent {
						c.ObligeFn(tr == 1, "passed on data is reported as stored", handle, "a "+mc.name+" message was passed on for writing but reported as not stored")
					} else {
						c.ObligeFn(tr == -1, "rejected data is not reported as stored", handle, "a "+mc.name+" message was not passed on for writing but reported as stored")
					}
				}
			})
		c.Absorb(h.e)
	}
	c.AtLeast("only data with the listed hash is passed on", 1, "sends of messages to the writer")
	c.newPieces()
	c.whoWrites()
	// New keeps the list
	h := c.newHarness(c.fn("pkg/torrent.New"))
	nw := c.fn("pkg/torrent.New")
	meta := c.typ("pkg/bencode", "Metainfo")
	h.contract("pkg/torrent.NewPieces", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		bad := st.Clone()
		l := ai.MkSym("pieces", cc.Sig.Results().At(0).Type())
		st.SetGhost("pieces", l)
		st.SetGhost("src", st.Content(cc.Args[0]))
		return []ai.Exit{{St: st, Res: []*ai.Term{l, ai.MkNil(nil)}},
			{St: bad, Res: []*ai.Term{ai.MkNil(nil), ai.MkSym("err", cc.Sig.Results().At(1).Type())}}}
	})
	args := h.args(nw)
	h.keep(args...)
	want := h.st.Content(h.st.Field(metaInfo(h.st, args[0], meta), infoType(meta), "Pieces"))
	h.keep(want)
	for _, x := range okExits(h.call(nw, args, h.st)) {
		got := x.St.Field(x.Res[0], tor, "Pieces")
		c.ObligeFn(got == x.St.Ghost("pieces"), "torrent checks against the listed hashes", nw, "the hashes of the torrent are "+got.String()+", not the ones split from the metadata")
		c.ObligeFn(x.St.Ghost("src") != nil && x.St.Same(x.St.Ghost("src"), want), "hashes come from the metadata", nw, "the hashes are not split from the pieces string of the metadata")
	}
	c.AtLeast("torrent checks against the listed hashes", 1, "torrents opened successfully")
	c.Absorb(h.e)
}

// metaInfo is the address of the info dictionary of the metadata.
func metaInfo(st *ai.State, m *ai.Term, meta types.Type) *ai.Term {
	a, _ := ai.FieldAddrOf(m, meta, "Info")
	if a == nil {
		panic(missing("Metainfo.Info"))
	}
	return a
}

func infoType(meta types.Type) types.Type {
	u := meta.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Info" {
			return u.Field(i).Type()
		}
	}
	panic(missing("Metainfo.Info"))
}

// newPieces: element k is the k-th 20 bytes.
func (c *Ctx) newPieces() {
	fn := c.fn("pkg/torrent.NewPieces")
	piece, hash := c.hashField()
	h := c.newHarness(fn)
	args := h.args(fn)
	h.keep(args...)
	ct := h.st.Content(args[0])
	h.keep(ct)
	h.track(&sequence{rule: "hashes are consecutive 20 bytes", note: "an element of the list of hashes is not its 20 bytes", ghost: "pieces", elem: piece,
		ok: func(st *ai.State, addr, i *ai.Term) bool {
			got := st.Content(st.Field(addr, piece, hash))
			return st.Same(got, st.Csub(ct, ai.MkScale(i, 20), ai.MkInt(20))) && st.EqInt(ai.Clen(got), ai.MkInt(20))
		}})
	h.st.SetGhost("pieces", ai.MkInt(0))
	for _, x := range okExits(h.call(fn, args, h.st)) {
		n := ai.MkLen(x.Res[0])
		done := x.St.Ghost("pieces")
		c.ObligeFn(done != nil && x.St.EqInt(done, n), "every hash is its 20 bytes", fn, "only "+str(done)+" of the "+n.String()+" hashes are known to be the 20 bytes at their place")
		c.ObligeFn(x.St.EqInt(ai.MkScale(n, 20), ai.MkLen(args[0])), "all hashes are listed", fn, "the list has "+n.String()+" hashes for a string of "+ai.MkLen(args[0]).String()+" bytes")
	}
	c.AtLeast("every hash is its 20 bytes", 1, "hash lists split successfully")
	c.Absorb(h.e)
}

func str(t *ai.Term) string {
	if t == nil {
		return "unknown"
	}
	return t.String()
}

// whoWrites: messages reach a writer only from the handler, output files are
// written only by the writer.
func (c *Ctx) whoWrites() {
	inHandler := c.P.reach(c.fn("pkg/peer.Peer.handlePeerMessage"))
	inWriter := c.P.reach(c.fn("pkg/torrent.Torrent.WritePiece"))
	writes := map[*ssa.Function]bool{}
	for f := range inWriter {
		for g := range c.P.reach(f) {
			for _, n := range calls(g) {
				writes[f] = writes[f] || fileWrites[n]
			}
		}
	}
	entry := c.fn("pkg/torrent.Torrent.WritePiece")
	for _, f := range c.P.AllFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if isMessageChan(x.Chan.Type()) {
						c.Oblige(inHandler[f], "only the handler passes data on", in, ai.Root(f), "a message is sent to the writer outside of the message handler")
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && isMessageChan(s.Chan.Type()) {
							c.Oblige(inHandler[f], "only the handler passes data on", in, ai.Root(f), "a message is sent to the writer outside of the message handler")
						}
					}
				case ssa.CallInstruction:
					if n := calleeName(x); fileWrites[n] {
						c.Oblige(inWriter[f], "only the writer writes files", in, ai.Root(f), n+" is called outside of the piece writer")
					}
					if g := x.Common().StaticCallee(); g != nil && g != entry && writes[g] {
						c.Oblige(inWriter[f], "only the writer writes files", in, ai.Root(f), ai.ShortName(g)+", which writes to files, is called outside of the piece writer")
					}
				}
			}
		}
	}
	c.AtLeast("only the handler passes data on", 1, "sends of messages to the writer")
	c.AtLeast("only the writer writes files", 1, "file writes")
}

var fileWrites = map[string]bool{
	"(*os.File).Write": true, "(*os.File).WriteAt": true, "(*os.File).WriteString": true, "(*os.File).ReadFrom": true, "(*os.File).Truncate": true,
	"os.WriteFile": true, "os.Truncate": true,
}

func calleeName(ci ssa.CallInstruction) string {
	cm := ci.Common()
	if cm.IsInvoke() {
		return "(" + types.TypeString(cm.Value.Type(), nil) + ")." + cm.Method.Name()
	}
	if f := cm.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// calls are the names of the functions f calls.
func calls(f *ssa.Function) []string {
	var r []string
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				r = append(r, calleeName(ci))
			}
		}
	}
	return r
}
