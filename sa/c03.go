package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C03", Rule: "abstract interpretation of Parse over arbitrary bytes (recursion by inferred contracts): no instruction can panic or reach outside the input, no sum or product of integers overflows, in every round of every loop a quantity grows towards a bound, and every recursion has a counter bounded by a constant; the same for Unmarshal into every target structure of the module and of the kinds of fields it supports, with reflection modelled over the known types", Run: checkC03})
}

func checkC03(c *Ctx) {
	fn := c.fn("pkg/bencode.Parse")
	h := c.newHarness(fn)
	h.e.CheckPanics = true
	h.guardNonNil()
	h.guardElements(c.typ("pkg/bencode", "Bencode").Underlying().(*types.Interface))
	h.e.DisjExit, h.e.Disj, h.e.Elim = 4, 4, 48
	args := h.args(fn)
	h.keep(args...)
	pg := h.trackProgress()
	h.e.H.Arith = func(e *ai.Engine, fr *ai.Frame, x *ssa.BinOp, exact bool, st *ai.State) {
		e.Record(fr, x, "numbers do not overflow", exact, "the result of "+x.String()+" may not fit its type")
	}
	for _, x := range h.call(fn, args, h.st) {
		er := x.St.Nilness(x.Res[1])
		c.ObligeFn(er == -1 || er == 1 && x.St.Nilness(x.Res[0]) == -1, "a value or an error is returned", fn, "neither a value nor an error may be returned")
	}
	c.Absorb(h.e)
	pg.finish("loops end")
	c.AtLeast("loops end", 2, "loops")
	for _, r := range h.e.Recursions() {
		c.Note("recursion %v pre %v post %v bounded %v", r.Fn, r.Pre, r.Post, r.Bounded)
		ok := false
		for _, b := range r.Bounded {
			var q string
			var n int64
			if _, err := fmt.Sscanf(b, "%s < %d", &q, &n); err == nil && n <= 100000 {
				ok = true
			}
		}
		c.ObligeFn(ok, "recursion is bounded", r.Fn, "no counter that grows with every nested call is bounded by a constant (at most 100000)")
	}
	// into target structures, and things that are no target structure
	d := c.newDecoding(true)
	d.h.e.CheckPanics = true
	for _, t := range d.targets() {
		d.run(t)
	}
	um := c.fn("pkg/bencode.Unmarshal")
	for _, v := range []*ai.Term{ai.MkNil(nil), ai.MkIface(types.Typ[types.Int], ai.MkSym("n", types.Typ[types.Int])), ai.MkIface(types.NewPointer(types.Typ[types.Int]), ai.MkSym("p", types.NewPointer(types.Typ[types.Int]))),
		ai.MkIface(types.NewPointer(c.typ("pkg/bencode", "Metainfo")), ai.MkNil(nil))} {
		as := d.h.bind(um, map[string]*ai.Term{"interface{}": v, "any": v})
		d.h.call(um, as, d.h.st)
	}
	c.Absorb(d.h.e)
	c.AtLeast("reflection panic", 5, "uses of reflection")
	c.AtLeast("numbers do not overflow", 2, "additions and multiplications")
}
