package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// torrentCase is one form of torrents: one file or several.
type torrentCase struct {
	name string
	dir  bool
	inv  *invariant
}

func fnBool(name string, args ...*ai.Term) *ai.Term {
	return ai.MkOp("fn", name, types.Typ[types.Bool], args...)
}
func fnInt(name string, args ...*ai.Term) *ai.Term {
	return ai.MkOp("fn", name, types.Typ[types.Int], args...)
}

// outFile is the fact that the i-th file handle belongs to the i-th file of the
// metadata.
func outFile() *ai.ElemFact {
	return &ai.ElemFact{Name: "outfile",
		Elem: func(t types.Type) bool { return types.TypeString(t, nil) == "*os.File" },
		Holds: func(st *ai.State, v, i *ai.Term) bool {
			return st.Truth(fnBool("isout", v)) == 1 && st.EqInt(fnInt("outidx", v), i)
		},
		Assume: func(st *ai.State, v, i *ai.Term) {
			st.Assume(fnBool("isout", v), true)
			st.Assume(ai.MkEq(fnInt("outidx", v), i), true)
		}}
}

// opened runs New for each form of torrents, following which file is created
// for which path of the metadata; at sees the successful exits.
func (c *Ctx) opened(at func(cs *torrentCase, h *harness, x ai.Exit, files *ai.Term, fact *ai.ElemFact)) []*torrentCase {
	fn := c.fn("pkg/torrent.New")
	tor, meta := c.typ("pkg/torrent", "Torrent"), c.typ("pkg/bencode", "Metainfo")
	tf := c.typ("pkg/bencode", "TorrentFile")
	info := infoType(meta)
	var out []*torrentCase
	for _, d := range dirCases() {
		cs := &torrentCase{name: d.name, dir: d.dir}
		h := c.newHarness(fn)
		args := h.args(fn)
		h.keep(args...)
		ia := metaInfo(h.st, args[0], meta)
		h.st.Assume(d.cond(h.st.Field(ia, info, "Length")), true)
		files := h.st.Field(ia, info, "Files")
		fo, _, _, _ := ai.SliceParts(files)
		name := h.st.Content(h.st.Field(ia, info, "Name"))
		var root *ai.Term
		for i, p := range fn.Params {
			if isStr(p.Type()) {
				root = h.st.Content(args[i])
			}
		}
		h.keep(root, name)
		// pathAt is the index of the metadata's file a path belongs to
		pathAt := func(st *ai.State, p *ai.Term) *ai.Term {
			if st.Truth(fnBool("ispath", p)) == 1 {
				return fnInt("pathidx", p)
			}
			if p.Op != "fn" || p.Aux != "filepath.Join" || len(p.Args) < 2 || p.Args[0] != root || p.Args[1] != name {
				return nil
			}
			if !cs.dir {
				if len(p.Args) == 2 {
					return ai.MkInt(0)
				}
				return nil
			}
			if len(p.Args) != 3 || p.Args[2].Op != "elems" {
				return nil
			}
			// the whole path of element k
			k := ai.ElemIndexOf(p.Args[2].Args[0], fo)
			if k == nil || st.Field(ai.IndexAddr(fo, k, tf), tf, "Path") != p.Args[2].Args[0] {
				return nil
			}
			return k
		}
		fact := outFile()
		h.e.Facts = []*ai.ElemFact{fact, {Name: "path", Elem: isStr,
			Holds: func(st *ai.State, v, i *ai.Term) bool {
				k := pathAt(st, st.Content(v))
				return k != nil && st.EqInt(k, i)
			},
			Assume: func(st *ai.State, v, i *ai.Term) {
				st.Assume(fnBool("ispath", st.Content(v)), true)
				st.Assume(ai.MkEq(fnInt("pathidx", st.Content(v)), i), true)
			}}}
		h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
			if (cc.Name == "os.Create" || cc.Name == "os.OpenFile") && x.St.Nilness(x.Res[1]) != -1 {
				if k := pathAt(x.St, x.St.Content(cc.Args[0])); k != nil {
					x.St.Assume(fnBool("isout", x.Res[0]), true)
					x.St.Assume(ai.MkEq(fnInt("outidx", x.Res[0]), k), true)
				}
			}
		}
		xs := okExits(h.call(fn, args, h.st))
		for _, x := range xs {
			if at != nil {
				at(cs, h, x, files, fact)
			}
		}
		cs.inv = inferInvariant(tor, xs)
		c.Note("constructor invariant of torrent.Torrent (%s): %v", cs.name, cs.inv.describe())
		if at != nil {
			c.Absorb(h.e)
		}
		out = append(out, cs)
	}
	return out
}

// writerHooks observe the piece writer. The monitor "blk" tells how far the
// current block is: "open", "complete", "failed" (a write failed), "nofit".
type writerHooks struct {
	write func(cc *ai.CallCtx, st *ai.State, w *block) // a file write
	count func(cc *ai.CallCtx, st *ai.State, w *block) // bytes are added to the total
	mark  func(cc *ai.CallCtx, st *ai.State, w *block) // piece is marked
	next  func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, st *ai.State)
	exit  func(fn *ssa.Function, st *ai.State)
	norm  func(st *ai.State, w *block)
	call  func(e *ai.Engine, cc *ai.CallCtx, st *ai.State)
}

// block is the block being written.
type block struct {
	h              *harness
	cs             *torrentCase
	tor            *ai.Term
	sum            *ai.Sum
	index, offset  *ai.Term
	data, pos      *ai.Term
	total, written *ai.Term
	files, length  *ai.Term
	pieceLen       *ai.Term
}

func (b *block) of(st *ai.State) *block {
	r := *b
	r.index, r.offset, r.data, r.pos, r.written = st.Ghost("idx"), st.Ghost("off"), st.Ghost("data"), st.Ghost("pos"), st.Ghost("written")
	if r.data == nil || r.pos == nil || r.written == nil || r.index == nil || r.offset == nil {
		return nil
	}
	r.total = ai.Clen(r.data)
	return &r
}

var blockGhosts = []string{"idx", "off", "data", "pos", "written"}

// loopsWith are the heads of the loops in which (or in what they call) an
// instruction occurs.
func (p *Program) loopsWith(f *ssa.Function, is func(in ssa.Instruction) bool) []*ssa.BasicBlock {
	has := func(g *ssa.Function) bool {
		for x := range p.reach(g) {
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					if is(in) {
						return true
					}
				}
			}
		}
		return false
	}
	var r []*ssa.BasicBlock
	for _, b := range f.Blocks {
		in := false
		for _, x := range b.Instrs {
			in = in || is(x)
			if ci, ok := x.(ssa.CallInstruction); ok && !in {
				if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) {
					in = has(g)
				}
			}
		}
		if !in {
			continue
		}
		// blocks b leads to
		seen := map[*ssa.BasicBlock]bool{}
		var visit func(x *ssa.BasicBlock)
		visit = func(x *ssa.BasicBlock) {
			for _, s := range x.Succs {
				if !seen[s] {
					seen[s] = true
					visit(s)
				}
			}
		}
		visit(b)
		for _, h := range f.Blocks {
			if seen[h] && h.Dominates(b) {
				for _, q := range h.Preds {
					if h.Dominates(q) && (seen[q] || q == b) {
						r = append(r, h)
						break
					}
				}
			}
		}
	}
	return r
}

// writer runs the piece writer over arbitrary blocks.
func (h *harness) writer(cs *torrentCase, o *writerHooks) {
	c := h.c
	fn := c.fn("pkg/torrent.Torrent.WritePiece")
	tor, msgT := c.typ("pkg/torrent", "Torrent"), c.typ("pkg/util", "PeerMessage")
	st := h.st
	t := h.e.Input("torrent", ptrTo(tor))
	cs.inv.assume(st, t)
	h.keep(t)
	isDir := st.Field(t, tor, "IsDirectory")
	if isDir == nil {
		panic(missing("Torrent.IsDirectory"))
	}
	st.Assume(isDir, cs.dir)
	files, osf := st.Field(t, tor, "TorrentFiles"), st.Field(t, tor, "OsFiles")
	sum := c.fileSum(files)
	fact := outFile()
	h.e.Facts = []*ai.ElemFact{fact}
	st.AssumeAll(fact, osf)
	b := &block{h: h, cs: cs, tor: t, sum: sum, files: files, length: st.Field(t, tor, "Length"), pieceLen: st.Field(t, tor, "PieceLength")}
	h.keep(osf, files, b.length, b.pieceLen)
	n := ai.MkLen(files)
	if cs.dir {
		sum.NonNeg = true // C05
		h.e.Sums = []*ai.Sum{sum}
		st.Assume(ai.MkEq(b.length, sum.At(st, n)), true)
	}
	mi := c.messageInvariant()
	h.e.H.Load = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, st *ai.State) {
		// file lengths are not negative (C05)
		if i := ai.ElemIndexOf(addr, sum.Obj); i != nil {
			st.Assume(ai.MkGE(sum.Value(st, i), ai.MkInt(0)), true)
		}
	}
	prevRecv := h.e.H.Recv
	h.e.H.Recv = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch *ai.Term, st *ai.State) {
		if prevRecv != nil {
			prevRecv(e, fr, in, ch, st)
		}
		if u, ok := in.(*ssa.UnOp); ok && isMessageChan(u.X.Type()) && o.next != nil {
			o.next(e, fr, in, st)
		}
	}
	h.e.H.Received = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, m *ai.Term, ok bool, st *ai.State) {
		u, isU := in.(*ssa.UnOp)
		if !isU || !isMessageChan(u.X.Type()) {
			return
		}
		for _, g := range blockGhosts {
			st.SetGhost(g, nil)
		}
		for _, g := range []string{"blk", "counted", "end"} {
			st.SetMon(g, "")
		}
		if !ok {
			st.SetMon("closed", "1")
			return
		}
		// a piece message as the handler passes them on
		st.Assume(ai.MkIsNil(m), false)
		if a, ft := ai.FieldAddrOf(m, msgT, "Type"); a != nil {
			st.Store(a, ai.MkInt(7), ft)
		}
		mi.assume(st, m)
		d := h.get("pkg/util.PeerMessage.Data", st, m)
		if len(d) != 1 {
			return
		}
		idx, off := h.number("Index", st, m), h.number("Offset", st, m)
		start := ai.MkMul(st, e, idx, b.pieceLen, types.Typ[types.Int])
		st.Assume(ai.MkGE(start, ai.MkInt(0)), true)
		st.Assume(ai.MkGE(ai.MkInt(1<<62), start), true)
		st.SetGhost("idx", idx)
		st.SetGhost("off", off)
		st.SetGhost("data", d[0].St.Content(d[0].Res[0]))
		st.SetGhost("pos", ai.MkAdd(start, off))
		st.SetGhost("written", ai.MkInt(0))
		st.SetMon("blk", "open")
	}
	norm := func(st *ai.State) {
		w := b.of(st)
		if w == nil {
			return
		}
		if st.Mon("blk") == "open" && !st.Dead() {
			end := ai.MkAdd(w.pos, w.total)
			switch {
			case st.EqInt(w.total, w.written):
				st.SetMon("blk", "complete")
			case cs.dir:
				sum.Relate(st, n)
				if st.LT(sum.At(st, n), end) || st.LE(sum.At(st, n), w.pos) {
					st.SetMon("blk", "nofit")
				}
			case st.LT(b.length, end) || st.LE(b.length, w.pos):
				st.SetMon("blk", "nofit")
			}
		}
		if o.norm != nil {
			o.norm(st, w)
		}
	}
	rounds := map[*ssa.BasicBlock]bool{}
	for f := range c.P.reach(fn) {
		for _, b := range c.P.loopsWith(f, func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			return ok && u.Op == token.ARROW && isMessageChan(u.X.Type())
		}) {
			rounds[b] = true
		}
	}
	h.e.H.Norm = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
		norm(st)
		if rounds[e.MergeAt()] {
			for _, g := range blockGhosts {
				st.SetGhost(g, nil)
			}
		}
	}
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if o.call != nil {
			o.call(e, cc, st)
		}
		w := b.of(st)
		switch {
		case cc.Name == "(*os.File).WriteAt" && w != nil:
			if o.write != nil {
				o.write(cc, st, w)
			}
			// all that is left, or less
			rest := ai.MkSub(w.total, w.written)
			sz := ai.MkLen(cc.Args[1])
			var out []ai.Exit
			bad := st.Clone()
			for _, all := range []bool{true, false} {
				s := st.Clone()
				if s.Assume(ai.MkEq(sz, rest), all) {
					s.SetGhost("written", ai.MkAdd(w.written, sz))
					if all {
						s.SetMon("blk", "complete")
					}
					out = append(out, ai.Exit{St: s, Res: []*ai.Term{sz, ai.MkNil(nil)}})
				}
			}
			bad.SetMon("blk", "failed")
			return append(out, ai.Exit{St: bad, Res: []*ai.Term{h.sym(bad, "short", types.Typ[types.Int]), h.sym(bad, "writeerr", cc.Sig.Results().At(1).Type())}}), true
		case cc.Name == "(*os.File).Write" || cc.Name == "(*os.File).WriteString":
			e.Record(cc.Fr, site(cc), "data is written at a position", false, cc.Name+" writes at the current position of the file, which is not tracked")
		case cc.Fn != nil && cc.Fn == c.fn("pkg/stats.Stats.AddDownload"):
			norm(st)
			if o.count != nil {
				o.count(cc, st, w)
			}
			st.SetMon("counted", st.Mon("counted")+"1")
			return []ai.Exit{{St: st}}, true
		case bitsetOp(cc) && !bitsetReads[cc.Method()] && cc.Args[0] == st.Field(t, tor, "downloaded"):
			norm(st)
			if o.mark != nil {
				o.mark(cc, st, w)
			}
			st.SetMon("end", "marked")
			// the set itself is not looked at here
			x := ai.Exit{St: st}
			for i := 0; i < cc.Sig.Results().Len(); i++ {
				x.Res = append(x.Res, cc.Args[0])
			}
			if cc.Sig.Results().Len() < 2 {
				return []ai.Exit{x}, true
			}
		}
		return nil, false
	}
	args := h.bind(fn, map[string]*ai.Term{tTorrent: t})
	for i, p := range fn.Params {
		if isNilable(p.Type()) {
			st.Assume(ai.MkIsNil(args[i]), false)
		}
	}
	for _, x := range h.call(fn, args, st) {
		if o.exit != nil {
			o.exit(fn, x.St)
		}
	}
}

func isNilable(t types.Type) bool { return nilable(t) }

// messageInvariant is what decoding guarantees about piece messages.
func (c *Ctx) messageInvariant() *invariant {
	fn := c.fn("pkg/util.NewPeerMessage")
	msgT := c.typ("pkg/util", "PeerMessage")
	h := c.newHarness(fn)
	h.e.DisjExit = 8
	args := h.args(fn)
	h.keep(args...)
	var xs []ai.Exit
	for _, x := range h.call(fn, args, h.st) {
		if x.St.Assume(ai.MkEq(x.St.Field(x.Res[0], msgT, "Type"), ai.MkInt(7)), true) && !x.St.Dead() {
			xs = append(xs, x)
		}
	}
	inv := inferInvariant(msgT, xs)
	c.Note("decoding invariant of piece messages: %v", inv.describe())
	return inv
}
