package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule applied, in one sentence or two
	Run  func(c *Ctx)
}

var checks []*Check

func register(c *Check) {
	checks = append(checks, c)
	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
}

// Finding is one violated obligation.
type Finding struct {
	Rule string `json:"rule"`
	Pos  string `json:"pos"`
	Fn   string `json:"function"`
	Note string `json:"note"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Fn }

// Ctx collects what one check found.
type Ctx struct {
	ID       string
	P        *Program
	Findings []Finding
	seen     map[string]bool
	oblig    map[string]int // obligations discharged per rule
	funcs    map[string]bool
	sites    map[string]bool
	notes    []string
	Verbose  bool
	steps    int
	unknown  map[string]int
}

// Fail reports a violation.
func (c *Ctx) Fail(rule string, pos token.Pos, fn, note string) {
	c.FailAt(rule, c.posStr(pos), fn, note)
}

func (c *Ctx) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := c.P.SSA.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", c.P.rel(ps.Filename), ps.Line)
}

func (c *Ctx) FailAt(rule, pos, fn, note string) {
	f := Finding{rule, pos, fn, note}
	k := f.Rule + f.Pos + f.Fn
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Findings = append(c.Findings, f)
}

// Pass counts a discharged obligation.
func (c *Ctx) Pass(rule string) { c.oblig[rule]++ }

// Oblige passes or fails.
func (c *Ctx) Oblige(ok bool, rule string, in ssa.Instruction, fr *ai.Frame, note string) {
	fn, pos := "?", token.NoPos
	if fr != nil {
		fn = ai.ShortName(fr.Fn)
		pos = fr.Fn.Pos()
		if fr.Parent != nil {
			note += " [via " + fr.Stack() + "]"
		}
	}
	if in != nil {
		if p := ai.InstrPos(in); p.IsValid() {
			pos = p
		}
		c.sites[c.posStr(pos)] = true
	}
	if ok {
		c.Pass(rule)
		return
	}
	c.Fail(rule, pos, fn, note)
}

// ObligeFn is Oblige at a function.
func (c *Ctx) ObligeFn(ok bool, rule string, fn *ssa.Function, note string) {
	if fn == nil {
		c.FailAt(rule, "?", "?", note)
		return
	}
	c.funcs[ai.ShortName(fn)] = true
	if ok {
		c.Pass(rule)
		return
	}
	c.Fail(rule, fn.Pos(), ai.ShortName(fn), note)
}

// Count is the number of discharged obligations of a rule.
func (c *Ctx) Count(rule string) int { return c.oblig[rule] }

// AtLeast fails when fewer instances than expected were met: the construct a
// rule is about has disappeared.
func (c *Ctx) AtLeast(rule string, n int, what string) {
	have := c.oblig[rule]
	for _, f := range c.Findings {
		if f.Rule == rule {
			have++
		}
	}
	if have < n {
		c.FailAt(rule, "?", "-", fmt.Sprintf("only %d of at least %d instances found: %s", have, n, what))
	}
}

// Note adds text to the evidence.
func (c *Ctx) Note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// Absorb takes over the engine's obligations and statistics.
func (c *Ctx) Absorb(e *ai.Engine) {
	for _, o := range e.Obligations() {
		pos := fmt.Sprintf("%s:%d", c.P.rel(o.Pos.Filename), o.Pos.Line)
		c.sites[pos] = true
		if o.OK {
			c.oblig[o.Kind]++
		} else {
			c.FailAt(o.Kind, pos, o.Fn, o.Note)
		}
	}
	for f := range e.Funcs {
		c.funcs[ai.ShortName(f)] = true
	}
	c.steps += e.Steps
	for k, v := range e.Unknown {
		c.unknown[k] += v
	}
}

type known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Fn       string `json:"function"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit"`
}

func readKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "open" {
			r = append(r, k)
		}
	}
	return r
}

func runCheck(p *Program, chk *Check, out string, verbose bool) (rc int) {
	start := time.Now()
	c := &Ctx{ID: chk.ID, P: p, seen: map[string]bool{}, oblig: map[string]int{}, funcs: map[string]bool{}, sites: map[string]bool{}, Verbose: verbose, unknown: map[string]int{}}
	var internal string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(missing); ok {
					c.FailAt("anchor", "?", "-", m.Error())
					return
				}
				internal = fmt.Sprint(r)
				if verbose {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		chk.Run(c)
	}()
	kn := readKnown(out)
	var fresh []Finding
	hit := map[int]bool{}
	for _, f := range c.Findings {
		ok := false
		for i, k := range kn {
			if k.Property == chk.ID && k.Rule == f.Rule && (k.Fn == "*" || k.Fn == f.Fn) {
				ok = true
				hit[i] = true
			}
		}
		if !ok {
			fresh = append(fresh, f)
		}
	}
	for i, k := range kn {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k.What)
		}
	}
	total := 0
	var rules []string
	for r, n := range c.oblig {
		total += n
		rules = append(rules, r)
	}
	sort.Strings(rules)
	writeEvidence(chk, c, out, rules, total, len(fresh), time.Since(start), internal)
	if verbose {
		for _, r := range rules {
			fmt.Printf("  %-60s %d\n", r, c.oblig[r])
		}
		for _, n := range c.notes {
			fmt.Println("  note:", n)
		}
		var us []string
		for u, n := range c.unknown {
			us = append(us, fmt.Sprintf("%s x%d", u, n))
		}
		sort.Strings(us)
		for _, u := range us {
			fmt.Println("  unmodelled:", u)
		}
		fmt.Printf("  %d functions, %d steps, %.1fs\n", len(c.funcs), c.steps, time.Since(start).Seconds())
	}
	if internal != "" {
		// what cannot be decided is not claimed to hold
		f := Finding{"undecided", "?", "-", "the analysis gave up: " + internal}
		c.Findings = append(c.Findings, f)
		fresh = append(fresh, f)
	}
	if len(fresh) > 0 {
		rp := filepath.Join(out, "evidence", chk.ID+".violation.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nrule: %s\n\n", chk.ID, chk.Rule)
		for _, f := range fresh {
			fmt.Fprintf(&b, "%s: %s: [%s] %s\n", f.Pos, f.Fn, f.Rule, f.Note)
		}
		fmt.Fprintf(&b, "\nreplay: /verif/check.sh %s -v\n", chk.ID)
		_ = os.MkdirAll(filepath.Dir(rp), 0o755)
		_ = os.WriteFile(rp, []byte(b.String()), 0o644)
		for _, f := range fresh {
			fmt.Printf("%s: %s: [%s] %s\n", f.Pos, f.Fn, f.Rule, f.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d\n", chk.ID, total, len(c.funcs))
	return 0
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func writeEvidence(chk *Check, c *Ctx, out string, rules []string, total, viol int, wall time.Duration, internal string) {
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	per := map[string]int{}
	for _, r := range rules {
		per[r] = c.oblig[r]
	}
	seed := 1
	fmt.Sscan(envOr("VERIF_SEED", "1"), &seed)
	cov := map[string]any{
		"functions_analysed":     len(fns),
		"functions":              fns,
		"sites":                  len(c.sites),
		"obligations_discharged": total,
		"obligations_per_rule":   per,
		"abstract_steps":         c.steps,
		"rule":                   chk.Rule,
		"explanation": fmt.Sprintf("Static analysis of /repo's current source: %d obligations of %d rules discharged over %d functions and %d program points. Rule: %s",
			total, len(rules), len(fns), len(c.sites), chk.Rule),
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if internal != "" {
		cov["incomplete"] = internal
	}
	ev := map[string]any{
		"property":   chk.ID,
		"tier":       envOr("VERIF_TIER", "quick"),
		"seed":       seed,
		"level":      "other",
		"coverage":   cov,
		"wall_s":     wall.Seconds(),
		"violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(out, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, chk.ID+".json"), append(b, '\n'), 0o644)
}
