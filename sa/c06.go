package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C06", Rule: "abstract interpretation of torrent.New over unknown metadata with file paths as terms: at every call that creates a file or directory the path is the output directory, or the output directory joined with parts for which filepath.IsLocal was true on this path (or the parent of such a path); lists of paths are tracked with an all-elements fact; no other function of the module creates files", Run: checkC06})
}

// creators are the functions that make something appear in the file system; the
// value is the index of the argument naming it.
var creators = map[string]int{
	"os.Create": 0, "os.OpenFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.WriteFile": 0, "os.Rename": 1, "os.Symlink": 1, "os.Link": 1, "os.MkdirTemp": 0, "os.CreateTemp": 0, "os.CopyFS": 0, "os.NewFile": 1,
	"io/ioutil.WriteFile": 0, "syscall.Open": 0, "syscall.Mkdir": 0,
}

func isCreator(n string) bool { _, ok := creators[n]; return ok }

func mkInside(v *ai.Term) *ai.Term { return ai.MkOp("fn", "inside", types.Typ[types.Bool], v) }

// inside: the path lies in the directory root.
func inside(st *ai.State, root, p *ai.Term) bool {
	if p == root || st.Truth(mkInside(p)) == 1 {
		return true
	}
	if p.Op != "fn" {
		return false
	}
	switch p.Aux {
	case "filepath.Clean":
		return inside(st, root, p.Args[0])
	case "filepath.Dir":
		// of something below root
		q := p.Args[0]
		return q != root && inside(st, root, q)
	case "filepath.Join":
		ps := p.Args
		if len(ps) == 0 || !inside(st, root, ps[0]) {
			return false
		}
		ps = ps[1:]
		ok := make([]bool, len(ps)+1)
		ok[0] = true
		for j := 1; j <= len(ps); j++ {
			for i := 0; i < j; i++ {
				if !ok[i] {
					continue
				}
				if st.Truth(ai.MkIsLocal(ai.MkJoin(ps[i:j]...))) == 1 || j == i+1 && (st.Truth(ai.MkIsLocal(ps[i])) == 1 || plain(ps[i])) {
					ok[j] = true
				}
			}
		}
		return ok[len(ps)]
	}
	return false
}

// plain: a constant file name.
func plain(t *ai.Term) bool {
	return t.Op == "str" && t.Aux != "" && !strings.ContainsAny(t.Aux, "/\\") && t.Aux != ".."
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// dirCases are the forms of metadata: one file, several files.
func dirCases() []struct {
	name string
	dir  bool
	cond func(l *ai.Term) *ai.Term
} {
	return []struct {
		name string
		dir  bool
		cond func(l *ai.Term) *ai.Term
	}{
		{"single file", false, func(l *ai.Term) *ai.Term { return ai.MkGE(l, ai.MkInt(1)) }},
		{"several files", true, func(l *ai.Term) *ai.Term { return ai.MkEq(l, ai.MkInt(0)) }},
	}
}

func checkC06(c *Ctx) {
	fn := c.fn("pkg/torrent.New")
	meta := c.typ("pkg/bencode", "Metainfo")
	info := infoType(meta)
	covered := map[ssa.Instruction]bool{}
	for _, cs := range dirCases() {
		h := c.newHarness(fn)
		args := h.args(fn)
		h.keep(args...)
		ia := metaInfo(h.st, args[0], meta)
		h.st.Assume(cs.cond(h.st.Field(ia, info, "Length")), true)
		var root *ai.Term
		for i, p := range fn.Params {
			if isStr(p.Type()) {
				root = h.st.Content(args[i])
			}
		}
		if root == nil {
			panic(missing("output directory parameter of torrent.New"))
		}
		h.keep(root)
		h.e.Facts = []*ai.ElemFact{{Name: "inside", Elem: isStr,
			Holds:  func(st *ai.State, v, i *ai.Term) bool { return inside(st, root, st.Content(v)) },
			Assume: func(st *ai.State, v, i *ai.Term) { st.Assume(mkInside(st.Content(v)), true) }}}
		h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
			if k, ok := creators[cc.Name]; ok && k < len(cc.Args) {
				p := st.Content(cc.Args[k])
				covered[site(cc)] = true
				e.Record(cc.Fr, site(cc), "created path is inside the output directory", inside(st, root, p), cc.Name+" of "+p.String()+", which is not known to be inside the output directory")
			}
			return nil, false
		}
		h.call(fn, args, h.st)
		c.Absorb(h.e)
	}
	c.AtLeast("created path is inside the output directory", 3, "calls that create files or directories")
	for _, f := range c.P.AllFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isCreator(calleeName(ci)) {
					c.Oblige(covered[in], "files are created only while opening a torrent", in, ai.Root(f), calleeName(ci)+" is not called while opening a torrent, so its path is not checked")
				}
			}
		}
	}
}
