package main

import (
	"fmt"
	"go/types"

	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C23", Rule: "abstract interpretation of the trackers' announces (decoding of the HTTP answer by its contract): element i of a compact result is the address and port made of bytes 6i to 6i+6 of the answer's list, for all i below the list's length divided by 6, which is the result's length; entry i of a dictionary list is appended exactly once, in order, made of its own address and port, unless parsing one of them failed", Run: checkC23})
}

func isAddrPort(t types.Type) bool { return types.TypeString(t, nil) == "net/netip.AddrPort" }

// compact is the compact list of an answer.
func (t *trk) compact(kind string, st *ai.State) *ai.Term {
	if kind == "udp" {
		d := st.Ghost("d:2")
		if d == nil {
			return nil
		}
		return st.Csub(d, ai.MkInt(20), ai.MkSub(ai.Clen(d), ai.MkInt(20)))
	}
	v := st.Ghost("u:PeersCompact")
	if v == nil {
		return nil
	}
	return st.Content(v)
}

func isFn(v *ai.Term, name string, n int) bool {
	return v != nil && v.Op == "fn" && v.Aux == name+"#0" && len(v.Args) == n
}

// compactEntry: v is entry i of the list.
func compactEntry(st *ai.State, list, v, i *ai.Term) bool {
	if list == nil || !isFn(v, "net/netip.AddrPortFrom", 2) || !isFn(v.Args[0], "net/netip.AddrFrom4", 1) {
		return false
	}
	at := ai.MkScale(i, 6)
	a := v.Args[0].Args[0]
	if a.Op == "arrval" {
		a = a.Args[0]
	}
	return st.Same(a, st.Csub(list, at, ai.MkInt(4))) && st.EqInt(v.Args[1], ai.BEInt(st.Csub(list, ai.MkAdd(at, ai.MkInt(4)), ai.MkInt(2)), 2))
}

// listEntry is the index of the dictionary entry the parsed text belongs to.
func (t *trk) listEntry(st *ai.State, text *ai.Term, field string) *ai.Term {
	l := st.Ghost("u:Peers")
	if l == nil || text == nil || text.Op != "ld" || !strings.HasSuffix(text.Args[0].Aux, ":"+field) {
		return nil
	}
	o, _, _, _ := ai.SliceParts(l)
	return ai.ElemIndexOf(text, o)
}

func checkC23(c *Ctx) {
	t := c.newTrk()
	h := t.h
	kind := ""
	fact := &ai.ElemFact{Name: "compact", Elem: isAddrPort,
		Holds:  func(st *ai.State, v, i *ai.Term) bool { return compactEntry(st, t.compact(kind, st), v, i) },
		Assume: func(st *ai.State, v, i *ai.Term) {}}
	h.e.Facts = append(h.e.Facts, fact)

	// dictionary lists: ghost done counts the entries dealt with, ghost put the
	// entries of the result
	handled := func(st *ai.State, i *ai.Term) bool {
		n := st.Ghost("done")
		switch {
		case i == nil || n == nil:
			return false
		case st.EqInt(i, n):
			st.SetGhost("done", ai.MkAdd(n, ai.MkInt(1)))
		case st.EqInt(ai.MkAdd(i, ai.MkInt(1)), n):
			return false
		default:
			st.SetGhost("done", nil)
			return false
		}
		return true
	}
	before := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if t.running && strings.HasSuffix(cc.Name, "gotit/pkg/bencode.DictElement).Value") && st.Content(cc.Args[1]) == ai.MkStr("peers") {
			// what the answer's list is
			if m := st.Mon("peers"); m == "" {
				el := h.elements(cc)
				if el != nil {
					out := []ai.Exit{}
					for _, k := range []string{"list", "other", "none"} {
						s := st.Clone()
						s.SetMon("peers", k)
						v := ai.MkNil(nil)
						switch k {
						case "list":
							v = ai.MkIface(el[0], h.sym(s, "peerslist", el[0]))
						case "other":
							v = ai.MkIface(el[1], h.sym(s, "peersother", el[1]))
						}
						out = append(out, ai.Exit{St: s, Res: []*ai.Term{v}})
					}
					return out, true
				}
			}
		}
		xs, ok := before(e, cc, st)
		if ok && cc.Method() == "Unmarshal" {
			for _, x := range xs {
				if x.St.Ghost("u:Peers") != nil && x.St.Ghost("done") == nil {
					x.St.SetGhost("done", ai.MkInt(0))
					x.St.SetGhost("put", ai.MkInt(0))
				}
			}
		}
		return xs, ok
	}
	after := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		after(e, cc, x)
		if !t.running || kind != "http" || len(x.Res) != 2 || x.St.Nilness(x.Res[1]) != -1 {
			return
		}
		st := x.St
		switch {
		case cc.Name == "net/netip.ParseAddr":
			handled(st, t.listEntry(st, st.Content(cc.Args[0]), "Ip"))
		case strings.HasPrefix(cc.Name, "strconv."):
			handled(st, t.listEntry(st, st.Content(cc.Args[0]), "Port"))
		}
	}
	h.e.H.Elem = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, st *ai.State) {
		pt, ok := addr.Typ.Underlying().(*types.Pointer)
		if !ok || !isAddrPort(pt.Elem()) || !t.running || st.Ghost("u:Peers") == nil {
			return
		}
		v := st.Load(addr, pt.Elem())
		ok = false
		var i *ai.Term
		if isFn(v, "net/netip.AddrPortFrom", 2) && v.Args[0].Op == "parsed" && v.Args[0].Aux == "net/netip.ParseAddr" && v.Args[1].Op == "parsed" && strings.HasPrefix(v.Args[1].Aux, "strconv.ParseUint,10,") {
			i = t.listEntry(st, v.Args[0].Args[0], "Ip")
			j := t.listEntry(st, v.Args[1].Args[0], "Port")
			ok = i != nil && j != nil && st.EqInt(i, j)
		}
		e.Record(fr, in, "entry has the address and port of one list entry", ok, "the entry is "+v.String())
		p := st.Ghost("put")
		e.Record(fr, in, "entries are placed one after another", p != nil && st.EqInt(ai.IndexOf(addr), p), fmt.Sprintf("the entry goes to position %v, %v are placed", ai.IndexOf(addr), p))
		if p != nil {
			st.SetGhost("put", ai.MkAdd(p, ai.MkInt(1)))
		}
		e.Record(fr, in, "each list entry is used once and in order", handled(st, i), fmt.Sprintf("entry %v is used after %v entries were dealt with", i, st.Ghost("done")))
	}
	n := map[string]int{}
	t.start = func(r trkRun) { kind = r.kind }
	t.run(func(r trkRun, fn *ssa.Function, x ai.Exit) {
		st := x.St
		if st.Nilness(x.Res[1]) == -1 {
			return
		}
		_, off, ln, _ := ai.SliceParts(x.Res[0])
		if r.kind == "http" && (st.Mon("peers") == "list" || st.Mon("peers") == "" && st.Ghost("u:Peers") != nil) {
			n["list"]++
			l := st.Ghost("u:Peers")
			if l == nil {
				c.ObligeFn(false, "dictionary list is decoded", fn, "the answer has a list of peers, which is not decoded")
				return
			}
			_, _, total, _ := ai.SliceParts(l)
			done, put := st.Ghost("done"), st.Ghost("put")
			c.ObligeFn(done != nil && st.EqInt(done, total), "every list entry is used or invalid", fn, fmt.Sprintf("of %v entries %v are used or found invalid", total, done))
			c.ObligeFn(put != nil && st.EqInt(ln, put) && st.EqInt(off, ai.MkInt(0)), "result consists of the valid entries", fn, fmt.Sprintf("%v entries were placed, %v are returned", put, ln))
			return
		}
		n[r.kind]++
		list := t.compact(r.kind, st)
		if list == nil {
			c.ObligeFn(false, "compact list is decoded", fn, "Announce succeeds without a peer list")
			return
		}
		want := ai.MkDiv(ai.Clen(list), ai.MkInt(6))
		c.ObligeFn(st.EqInt(ln, want), "compact list has one entry per six bytes ("+r.kind+")", fn, fmt.Sprintf("%v entries are returned, not %v", ln, want))
		c.ObligeFn(st.All(fact, x.Res[0]), "entries are the list's ("+r.kind+")", fn, "not every entry is the one at its place of the list")
	})
	c.Absorb(h.e)
	fn := c.fn("pkg/tracker.New")
	c.ObligeFn(n["udp"] > 0 && n["http"] > 0 && n["list"] > 0, "all kinds of lists are covered", fn, fmt.Sprint("successful announces: ", n))
}

// elements are the list and string element types of the decoder.
func (h *harness) elements(cc *ai.CallCtx) []types.Type {
	var r []types.Type
	for i, n := range []string{"ListElement", "StringElement"} {
		t := h.c.typ("pkg/bencode", n)
		it, ok := cc.Sig.Results().At(0).Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		if _, str := t.Underlying().(*types.Struct); !types.Implements(t, it) || i == 0 && str {
			t = types.NewPointer(t)
		}
		r = append(r, t)
	}
	return r
}
