package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// progress makes it an obligation that every loop analysed ends: one quantity
// (a number in a variable or in memory, or the length of a slice variable)
// grows in every round and stays below a length or a constant, or shrinks and
// stays above zero. Loops over maps and strings end by themselves.
type progress struct {
	h     *harness
	local bool // lengths known when the round starts are bounds, too
	loops map[loopAt]*loopProgress
}

type loopAt struct {
	fr   *ai.Frame
	head *ssa.BasicBlock
}

type loopProgress struct {
	fr     *ai.Frame
	ok     map[string]bool // quantities that made progress in all rounds
	rounds int
}

func (h *harness) trackProgress() *progress {
	p := &progress{h: h, loops: map[loopAt]*loopProgress{}}
	skipped := map[*ssa.BasicBlock]bool{}
	quantities := func(head *ssa.BasicBlock, st *ai.State) map[string]*ai.Term {
		r := map[string]*ai.Term{}
		for _, in := range head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := st.Value(ph)
			if v == nil {
				continue
			}
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r["v:"+ph.Name()] = v
			} else if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				r["l:"+ph.Name()] = ai.MkLen(v)
			}
		}
		if p.local {
			s, ok := skipped[head]
			if !ok {
				s = loopUsesCtx(head)
				skipped[head] = s
			}
			if s {
				return r
			}
		}
		for a, v := range st.IntCells() {
			r["c:"+a.String()] = v
		}
		return r
	}
	name := func(head *ssa.BasicBlock, q string) string {
		return fmt.Sprintf("pg:%s:%d:%s", head.Parent(), head.Index, q)
	}
	h.e.H.Head = func(e *ai.Engine, fr *ai.Frame, head *ssa.BasicBlock, st *ai.State) {
		for q, v := range quantities(head, st) {
			st.SetGhost(name(head, q), v)
		}
		if p.local {
			if ls := st.Lens(); len(ls) > 0 {
				st.SetGhost(name(head, "lens"), ai.MkTuple(ls...))
			}
		}
	}
	h.e.H.Back = func(e *ai.Engine, fr *ai.Frame, head *ssa.BasicBlock, st *ai.State) {
		if !e.Recording() || st.Dead() {
			return
		}
		l := p.loops[loopAt{fr, head}]
		first := l == nil
		if first {
			l = &loopProgress{fr: fr, ok: map[string]bool{}}
			p.loops[loopAt{fr, head}] = l
		}
		l.rounds++
		now := map[string]bool{}
		pre := name(head, "")
		fixed := map[*ai.Term]bool{}
		if ls := st.Ghost(pre + "lens"); p.local && ls != nil {
			for _, b := range ls.Args {
				fixed[b] = true
			}
		}
		qs := quantities(head, st)
		for q, v := range qs {
			if p.local && st.Ghost(pre+q) == v {
				fixed[v] = true // the same at the end of the round
			}
		}
		for q, v := range qs {
			old := st.Ghost(pre + q)
			if old == nil {
				continue
			}
			if st.LT(old, v) {
				bounds := append(st.Lens(), ai.MkInt(1<<31))
				for b := range fixed {
					bounds = append(bounds, b)
				}
				for _, b := range bounds {
					if (e.FromInputs(b) || fixed[b]) && st.LE(v, b) {
						now[q] = true
						break
					}
				}
			} else if st.LT(v, old) && st.LE(ai.MkInt(0), v) {
				now[q] = true
			}
		}
		for q := range l.ok {
			if !now[q] {
				delete(l.ok, q)
			}
		}
		if first {
			l.ok = now
		}
	}
	return p
}

// finish records an obligation per loop met; all loops of the reached functions
// that were not met are loops over maps or strings or dead.
func (p *progress) finish(rule string) {
	c := p.h.c
	var heads []loopAt
	for b := range p.loops {
		heads = append(heads, b)
	}
	sort.Slice(heads, func(i, j int) bool {
		return heads[i].head.Parent().String()+fmt.Sprint(heads[i].head.Index) < heads[j].head.Parent().String()+fmt.Sprint(heads[j].head.Index)
	})
	for _, at := range heads {
		l, b := p.loops[at], at.head
		ok := len(l.ok) > 0 || rangesOver(b)
		var qs []string
		for q := range l.ok {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		in := b.Instrs[len(b.Instrs)-1]
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				in = x
			}
		}
		c.Oblige(ok, rule, in, l.fr, "no quantity is known to grow towards a bound in every round of this loop")
		if ok {
			c.Note("loop %s block %d ends: %s", ai.ShortName(b.Parent()), b.Index, strings.Join(qs, ", "))
		}
	}
}

// rangesOver: the loop steps through a map or a string.
func rangesOver(head *ssa.BasicBlock) bool {
	for _, in := range head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// loopUsesCtx: something in the loop deals with a context.
func loopUsesCtx(head *ssa.BasicBlock) bool {
	// the blocks that lead back to the head
	in := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	for b := range in {
		for _, x := range b.Instrs {
			for _, o := range x.Operands(nil) {
				if *o != nil && types.TypeString((*o).Type(), nil) == "context.Context" {
					return true
				}
			}
		}
	}
	return false
}
