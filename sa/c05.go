package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C05", Rule: "abstract interpretation of torrent.New over unknown metadata: no instruction can panic; at every return without error the piece length is positive and the metadata's, 20 times the number of hashes is the length of the pieces string, every file length was compared with zero, the total length is the metadata's length or (as an integer equation, loop invariant over prefix sums) the sum of the file lengths, and the number of pieces is that total divided by the piece length, rounded up, and equals the number of hashes", Run: checkC05})
}

// fileSum is the sum of the lengths of the first i files of a slice.
func (c *Ctx) fileSum(files *ai.Term) *ai.Sum {
	tf := c.typ("pkg/bencode", "TorrentFile")
	u := tf.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Length" {
			o, _, _, _ := ai.SliceParts(files)
			return &ai.Sum{Obj: o, Elem: tf, Field: i}
		}
	}
	panic(missing("TorrentFile.Length"))
}

// isCeil: n is l divided by p, rounded up.
func isCeil(st *ai.State, n, l, p *ai.Term) bool {
	for _, x := range []*ai.Term{ai.MkDiv(ai.MkSub(ai.MkAdd(l, p), ai.MkInt(1)), p), ai.MkAdd(ai.MkDiv(ai.MkSub(l, ai.MkInt(1)), p), ai.MkInt(1))} {
		if st.EqInt(n, x) && st.LE(ai.MkInt(1), l) {
			return true
		}
	}
	q, r := ai.MkDiv(l, p), ai.MkMod(l, p)
	ok := true
	for _, whole := range []bool{true, false} {
		s := st.Clone()
		if !s.Assume(ai.MkEq(r, ai.MkInt(0)), whole) || s.Dead() {
			continue
		}
		want := q
		if !whole {
			want = ai.MkAdd(q, ai.MkInt(1))
		}
		if s.Is(l, 0) {
			want = ai.MkInt(0)
		}
		ok = ok && s.EqInt(n, want)
	}
	return ok
}

func checkC05(c *Ctx) {
	fn := c.fn("pkg/torrent.New")
	tor, meta := c.typ("pkg/torrent", "Torrent"), c.typ("pkg/bencode", "Metainfo")
	info := infoType(meta)
	cases := []struct {
		name string
		cond func(l *ai.Term) *ai.Term
	}{
		{"length > 0", func(l *ai.Term) *ai.Term { return ai.MkGE(l, ai.MkInt(1)) }},
		{"length < 0", func(l *ai.Term) *ai.Term { return ai.MkGE(ai.MkInt(-1), l) }},
		{"length 0 or absent", func(l *ai.Term) *ai.Term { return ai.MkEq(l, ai.MkInt(0)) }},
	}
	for _, cs := range cases {
		h := c.newHarness(fn)
		h.e.CheckPanics = true
		h.guardNonNil()
		h.e.Disj, h.e.DisjExit = 3, 6
		args := h.args(fn)
		h.keep(args...)
		ia := metaInfo(h.st, args[0], meta)
		h.st.Assume(cs.cond(h.st.Field(ia, info, "Length")), true)
		files := h.st.Field(ia, info, "Files")
		n := ai.MkLen(files)
		sum := c.fileSum(files)
		h.e.Sums = []*ai.Sum{sum}
		h.st.SetGhost("checked", ai.MkInt(0))
		h.e.H.Assumed = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
			sum.Relate(st, n)
			if g := st.Ghost("checked"); g != nil {
				for _, v := range sum.Known(st, g) {
					if st.LE(ai.MkInt(0), v) {
						st.SetGhost("checked", ai.MkAdd(g, ai.MkInt(1)))
						break
					}
				}
			}
		}
		// what is created is the business of C06
		h.contract("pkg/torrent.Torrent.initDownloadDir", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
			h.forget(st, cc.Args[0], tor, cc.Fn)
			bad := st.Clone()
			return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkNil(nil)}}, {St: bad, Res: []*ai.Term{ai.MkSym("direrr", cc.Sig.Results().At(0).Type())}}}
		})
		for _, x := range okExits(h.call(fn, args, h.st)) {
			st := x.St
			sum.Relate(st, n)
			t := x.Res[0]
			get := func(f string) *ai.Term { return st.Field(t, tor, f) }
			inf := func(f string) *ai.Term { return st.Field(ia, info, f) }
			pl, l, pn, ps := get("PieceLength"), get("Length"), get("PiecesNum"), get("Pieces")
			c.ObligeFn(st.LE(ai.MkInt(1), pl), "piece length is positive", fn, "a torrent with piece length "+pl.String()+" is accepted, which may be zero or negative")
			c.ObligeFn(st.EqInt(pl, inf("PieceLength")), "piece length is the metadata's", fn, "the piece length is "+pl.String())
			c.ObligeFn(st.EqInt(ai.MkScale(ai.MkLen(ps), 20), ai.MkLen(inf("Pieces"))), "hashes are the whole pieces string", fn, "the torrent has "+ai.MkLen(ps).String()+" hashes for a pieces string of "+ai.MkLen(inf("Pieces")).String()+" bytes")
			c.ObligeFn(st.LE(ai.MkInt(0), l), "total length is not negative", fn, "a torrent of length "+l.String()+" is accepted, which may be negative")
			c.ObligeFn(st.EqInt(pn, ai.MkLen(ps)), "one hash per piece", fn, "a torrent with "+pn.String()+" pieces and "+ai.MkLen(ps).String()+" hashes is accepted")
			c.ObligeFn(isCeil(st, pn, l, pl), "number of pieces is what the length needs", fn, "the number of pieces "+pn.String()+" is not known to be "+l.String()+" divided by "+pl.String()+", rounded up")
			if single := st.Truth(ai.MkEq(inf("Length"), ai.MkInt(0))); single != 1 {
				c.ObligeFn(single == -1, "form of the torrent is decided", fn, "it is not decided whether the torrent has one or several files")
				c.ObligeFn(st.EqInt(l, inf("Length")), "length of a single file is the metadata's", fn, "the length is "+l.String())
				c.ObligeFn(st.Truth(get("IsDirectory")) == -1, "single file torrent is recognized", fn, "a torrent with one file is treated as a directory")
			} else {
				c.ObligeFn(st.EqInt(l, sum.At(st, n)), "length is the sum of all files", fn, "the length "+l.String()+" is not known to be the sum of all file lengths")
				g := st.Ghost("checked")
				c.ObligeFn(g != nil && st.LE(n, g), "every file length is checked", fn, "only "+str(g)+" of the file lengths are known not to be negative")
				c.ObligeFn(get("TorrentFiles") == files, "files are the metadata's", fn, "the files of the torrent are "+get("TorrentFiles").String())
				c.ObligeFn(st.Truth(get("IsDirectory")) == 1, "several file torrent is recognized", fn, "a torrent with several files is treated as a single file")
			}
		}
		c.Absorb(h.e)
	}
	c.AtLeast("length of a single file is the metadata's", 1, "single file torrents opened")
	c.AtLeast("length is the sum of all files", 1, "several file torrents opened")
	// the constants of a torrent stay as checked
	for _, f := range c.P.AllFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for _, n := range []string{"PieceLength", "Length", "PiecesNum", "Pieces", "TorrentFiles", "IsDirectory"} {
					if c.isField(s.Addr, "pkg/torrent", "Torrent", n) {
						c.Oblige(c.P.reach(fn)[f], "checked values are not changed", in, ai.Root(f), n+" of a torrent is changed in "+ai.ShortName(f))
					}
				}
			}
		}
	}
}
