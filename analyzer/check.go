package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one decided obligation: a rule applied to a construct.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Check decides one property.
type Check struct {
	prop   string
	p      *Prog
	in     *Interp
	obls   []Obl
	known  []string
	fns    map[string]bool
	extra  map[string]any
	tier   string
	bounds bool
}

type stopCheck struct{}

type rule struct {
	title string
	level string
	tech  string
	run   func(c *Check)
	base  []string
	note  string
	// noMaps: the rule itself covers both map orders, or none matters
	noMaps bool
}

var rules = map[string]*rule{}

func (c *Check) ok(cond bool, ruleName, construct, detail string) bool {
	o := Obl{Rule: ruleName, Construct: construct, OK: cond}
	if !cond {
		o.Detail = detail
	}
	c.obls = append(c.obls, o)
	return cond
}

func (c *Check) stop(ruleName, construct, detail string) {
	c.ok(false, ruleName, construct, detail)
	panic(stopCheck{})
}

// fn resolves an anchor.
func (c *Check) fn(name string) *ssa.Function {
	f := findFn(c.p, name)
	if f == nil || f.Blocks == nil {
		c.stop("anchor", name, "the function the property is about does not exist")
	}
	return f
}

func (c *Check) at(f *ssa.Function) string {
	return fnName(f) + " (" + c.p.Pos(f.Pos()) + ")"
}

// interp starts a fresh analysis.
func (c *Check) interp() *Interp {
	if c.in == nil {
		c.in = NewInterp(c.p)
		c.in.bounds = c.bounds
	}
	return c.in
}

func newState(pc *Term) *State {
	return &State{pc: pc, env: map[ssa.Value]*Term{}, mem: map[int]*Term{}}
}

// Result of the value-flow analysis of one function under an assumption.
type Result struct {
	fn     *ssa.Function
	val    *Term
	st     *State
	assume *Term
	events []Event
	in     *Interp
}

func (c *Check) run(in *Interp, f *ssa.Function, st *State, args ...*Term) *Result {
	in.ensureInit(f.Pkg)
	ev := len(in.events)
	assume := st.pc
	curPC = assume
	v, out := in.Call(f, args, nil, st)
	r := &Result{fn: f, val: v, st: out, assume: assume, in: in}
	r.events = append(r.events, in.events[ev:]...)
	if out == nil {
		r.st = newState(tFalse)
		r.val = tPoison
	}
	for g := range in.fnsSeen {
		c.fns[fnName(g)] = true
	}
	c.fns[fnName(f)] = true
	curPC = tTrue
	return r
}

func (r *Result) part(i int) *Term {
	return lift1(r.val, func(x *Term) *Term {
		if x.op == OTuple && i < len(x.args) {
			return x.args[i]
		}
		return x
	})
}

// flat turns references into the values they denote.
func (in *Interp) flat(st *State, t *Term) *Term { return in.flatN(st, t, 0) }

func (in *Interp) flatN(st *State, t *Term, d int) *Term {
	if d > 12 {
		return t
	}
	switch t.op {
	case OIte:
		// leaves may be references
		return lift1(t, func(x *Term) *Term { return in.flatN(st, x, d+1) })
	case OSl:
		return in.flatN(st, in.View(st, t), d+1)
	case OPtr:
		return in.flatN(st, in.Load(st, t), d+1)
	case OStruct, OTuple:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = in.flatN(st, a, d+1)
		}
		return intern(&Term{op: t.op, str: t.str, args: xs})
	case OSeq:
		xs := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			xs[i] = a
			switch a.op {
			case OSl, OPtr, OStruct, ONil:
				xs[i] = in.flatN(st, a, d+1)
			case OIte:
				xs[i] = in.flatN(st, a, d+1)
			}
			ch = ch || xs[i] != a
		}
		if ch {
			return Seq(xs...)
		}
	}
	return t
}

// bytesOf is the sequence a slice result denotes (nil is empty).
func (r *Result) bytesOf(t *Term) *Term { return r.in.View(r.st, t) }

// unshared: no write may land in memory of the caller through spare capacity,
// in memory two slices share, or in a place the analysis cannot name.
func (c *Check) unshared(r *Result, what string) bool {
	d := ""
	for _, e := range r.events {
		switch e.Kind {
		case "append-alias", "append-twice", "unknown-store":
			d += e.What + " at " + e.Pos + "; "
		}
	}
	return c.ok(d == "", "writes no memory it does not own", c.at(r.fn)+" "+what, d)
}

// returns: the function returns on every path of the assumption.
func (c *Check) returns(r *Result, what string) bool {
	ok := implies(r.assume, r.st.pc)
	d := ""
	if !ok {
		d = "does not return when " + pathTo(And(r.assume, Not(r.st.pc)))
		for _, e := range r.events {
			if e.Kind == "panic" || e.Kind == "bounds" {
				d += "; " + e.What + " at " + e.Pos
			}
		}
	}
	return c.ok(ok, "returns on every path", c.at(r.fn)+" "+what, d)
}

// iff: two conditions coincide under care.
func (c *Check) iff(care, got, want *Term, ruleName, construct string) bool {
	x := And(care, Not(Iff(got, want)))
	x = feasible(x)
	d := ""
	if x.op != OFalse {
		if y := feasible(And(care, got, Not(want))); y.op != OFalse {
			d = "holds but should not when " + pathTo(y)
		} else {
			d = "should hold but does not when " + pathTo(feasible(And(care, Not(got), want)))
		}
	}
	return c.ok(x.op == OFalse, ruleName, construct, d)
}

// same: two values coincide under care.
func (c *Check) same(care, got, want *Term, ruleName, construct string) bool {
	if care.op == OFalse {
		return c.ok(true, ruleName, construct, "")
	}
	g, w := Restrict(got, care), Restrict(want, care)
	if g == w {
		return c.ok(true, ruleName, construct, "")
	}
	// restrict is not canonical for arbitrary care sets: compare on the graph
	d := Ite(care, got, tPoisonMark)
	e := Ite(care, want, tPoisonMark)
	if d == e {
		return c.ok(true, ruleName, construct, "")
	}
	if agree(d, e) {
		return c.ok(true, ruleName, construct, "")
	}
	g2, w2 := deepNorm(g, care), deepNorm(w, care)
	if g2 == w2 || g2 != nil && w2 != nil && agree(Ite(care, g2, tPoisonMark), Ite(care, w2, tPoisonMark)) {
		return c.ok(true, ruleName, construct, "")
	}
	if g2 != nil && w2 != nil {
		g, w = g2, w2
	}
	return c.ok(false, ruleName, construct, explainDiff(g, w))
}

// feasible drops the paths of a condition that linear facts exclude.
func feasible(x *Term) *Term {
	budget := 2000
	var walk func(x *Term, facts []lfact) *Term
	walk = func(x *Term, facts []lfact) *Term {
		if budget--; budget < 0 || x.op == OFalse {
			return x
		}
		if x.op != OIte {
			f := append([]lfact{}, facts...)
			if x.op != OTrue {
				f = append(f, lfacts([]literal{{x, true}})...)
			}
			if len(f) > 0 && infeasible(f) {
				return tFalse
			}
			return x
		}
		ft := append(append([]lfact{}, facts...), lfacts([]literal{{x.args[0], true}})...)
		ff := append(append([]lfact{}, facts...), lfacts([]literal{{x.args[0], false}})...)
		return mkNode(x.args[0], walk(x.args[1], ft), walk(x.args[2], ff))
	}
	return walk(x, nil)
}

// agree: two gated values coincide on every path that is linearly feasible.
func agree(x, y *Term) bool {
	budget := 400
	var walk func(x, y *Term, facts []lfact) bool
	walk = func(x, y *Term, facts []lfact) bool {
		if x == y {
			return true
		}
		if budget--; budget < 0 {
			return false
		}
		if x.op != OIte && y.op != OIte {
			return len(facts) > 0 && infeasible(append([]lfact{}, facts...))
		}
		a := gateTop(x, y)
		for _, v := range []bool{true, false} {
			if !walk(cofTop(x, a, v), cofTop(y, a, v), append(append([]lfact{}, facts...), lfacts([]literal{{a, v}})...)) {
				return false
			}
		}
		return true
	}
	return walk(x, y, nil)
}

// modParts recognises x mod m.
func modParts(t *Term) (x *Term, m *big.Int) {
	switch {
	case t.op == OApp && t.str == "mod" && t.args[1].isConst():
		return t.args[0], t.args[1].num
	case t.op == OSlice && t.a == 0 && t.b <= 64:
		return t.args[0], pow2(t.b)
	}
	return nil, nil
}

// deepNorm rebuilds a term with each part normalised under the conditions
// that hold where it is used (gates, ranges of repetition indexes).
func deepNorm(t, pc *Term) *Term {
	save := curPC
	defer func() { curPC = save }()
	budget := 20000
	type key struct{ t, pc *Term }
	memo := map[key]*Term{}
	var rec func(t, pc *Term) *Term
	rec = func(t, pc *Term) *Term {
		if len(t.args) == 0 || budget < 0 {
			return t
		}
		if r, ok := memo[key{t, pc}]; ok {
			return r
		}
		budget--
		var r *Term
		switch t.op {
		case OIte:
			a := mkNode(t.args[0], tTrue, tFalse)
			x, y := rec(t.args[1], And(pc, a)), rec(t.args[2], And(pc, Not(a)))
			curPC = pc
			r = Ite(a, x, y)
		case ORep:
			n := rec(t.args[0], pc)
			B := Bound(t.a)
			inside := And(pc, Ge(B, big0), Ge(Sub(Sub(n, B), C(1)), big0))
			// what holds for every index holds for this one
			curPC = inside
			for _, l := range literals(pc) {
				a := l.atom
				if l.val || a.op != OBAtom || a.str != "exists" || !entails(Ge(Sub(Sub(a.args[0], B), C(1)), big0)) {
					continue
				}
				lam := a.args[1]
				inside = And(inside, Not(Subst(lam.args[0], map[*Term]*Term{Bound(lam.a): B}, fBound)))
			}
			x := rec(t.args[1], inside)
			curPC = pc
			r = mkRep(n, t.a, x, t.str)
		case OBAtom, OGe:
			r = t
		default:
			xs := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				xs[i] = rec(a, pc)
				same = same && xs[i] == a
			}
			curPC = pc
			r = t
			if !same {
				r = remake(t, xs)
			}
			if x, m := modParts(r); x != nil {
				switch {
				case entails(And(Ge(x, big0), Not(Ge(x, m)))):
					r = x
				case entails(And(Ge(x, m), Not(Ge(x, new(big.Int).Lsh(m, 1))))):
					r = Sub(x, CB(m))
				}
			}
		}
		memo[key{t, pc}] = r
		return r
	}
	r := rec(t, pc)
	if budget < 0 {
		return nil
	}
	return r
}

// knownFinding reports a listed defect; an unlisted one is a violation.
func (c *Check) knownFinding(construct, what, should, at string) {
	b, _ := os.ReadFile(knownFile)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+c.prop+" "+construct) {
			c.known = append(c.known, "KNOWN-FINDING: property="+c.prop+" "+construct+" "+what)
			return
		}
	}
	c.ok(false, should, at, what)
}

var knownFile string

var tPoisonMark = rawApp("don't care", sortObj)

// pathTo names one path on which a condition holds.
func pathTo(c *Term) string {
	var ls []string
	for c.op == OIte {
		a := c.args[0]
		s := short(a.String(), 160)
		if c.args[1].op != OFalse && (c.args[2].op == OFalse || depthOf(c.args[1]) <= depthOf(c.args[2])) {
			ls = append(ls, s)
			c = c.args[1]
		} else {
			ls = append(ls, "not "+s)
			c = c.args[2]
		}
		if len(ls) > 40 {
			break
		}
	}
	if len(ls) == 0 {
		return "always"
	}
	if len(ls) > 8 {
		ls = append(ls[:8], fmt.Sprintf("... (%d more)", len(ls)-8))
	}
	return strings.Join(ls, " and ")
}

func depthOf(t *Term) int {
	n := 0
	for t.op == OIte {
		n++
		if t.args[1].op == OFalse {
			t = t.args[2]
		} else {
			t = t.args[1]
		}
	}
	return n
}

func short(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n*2/3]+" ... "+s[len(s)-n/3:], "")
	}
	return s
}

func explainDiff(g, w *Term) string {
	var conds []string
	path := ""
	for i := 0; i < 60; i++ {
		if g.op == OIte || w.op == OIte {
			a := gateTop(g, w)
			g1, w1 := cofTop(g, a, true), cofTop(w, a, true)
			if g1 != w1 {
				g, w = g1, w1
				conds = append(conds, short(a.String(), 120))
			} else {
				g, w = cofTop(g, a, false), cofTop(w, a, false)
				conds = append(conds, "not "+short(a.String(), 120))
			}
			continue
		}
		if g.op == w.op && (g.op == OStruct || g.op == OTuple) && len(g.args) == len(w.args) {
			for k := range g.args {
				if g.args[k] != w.args[k] {
					path += fmt.Sprintf(".%d", k)
					g, w = g.args[k], w.args[k]
					break
				}
			}
			continue
		}
		if g.op == OSeq && w.op == OSeq {
			n, ok1 := constLen(g)
			m, ok2 := constLen(w)
			if ok1 && ok2 && n == m && n > 0 && n < 4000 {
				eg, ew := elems(g), elems(w)
				done := false
				for k := range eg {
					if eg[k] != ew[k] {
						path += fmt.Sprintf("[%d]", k)
						g, w = eg[k], ew[k]
						done = true
						break
					}
				}
				if done {
					continue
				}
			}
		}
		break
	}
	s := "value" + path + " is " + short(g.String(), 500) + ", expected " + short(w.String(), 500)
	if len(conds) > 0 {
		if len(conds) > 6 {
			conds = append(conds[:3], conds[len(conds)-3:]...)
		}
		s += " when " + strings.Join(conds, " and ")
	}
	return s
}

// ---- running and reporting

// cancelled ends the analysis goroutine at the next term it makes
var cancelled atomic.Bool

func runProp(p *Prog, prop, tier, outDir string, seed int) int {
	r := rules[prop]
	if r == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	t0 := time.Now()
	resetTerms()
	c := &Check{prop: prop, p: p, fns: map[string]bool{}, extra: map[string]any{}, tier: tier}
	done := make(chan bool)
	fin := make(chan int, 1)
	go func() {
		// an analysis that does not converge is undecided, which fails
		defer close(done)
		fin <- c.decide(r, outDir, seed, t0)
	}()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			select {
			case rc := <-fin:
				return rc
			default:
				fmt.Println("the analysis ended early")
				return 2
			}
		case <-tick.C:
			what := ""
			var ms [1]metrics.Sample
			ms[0].Name = "/memory/classes/heap/objects:bytes"
			metrics.Read(ms[:])
			if ms[0].Value.Uint64() > 6<<30 {
				what = "the analysis does not converge (memory)"
			} else if time.Since(t0) > 600*time.Second {
				what = "the analysis does not converge (time)"
			}
			if what != "" {
				// end the worker at its next term, then report alone
				cancelled.Store(true)
				select {
				case <-done:
				case <-time.After(20 * time.Second):
				}
				cancelled.Store(false)
				d := &Check{prop: prop, p: p, fns: map[string]bool{}, extra: map[string]any{}, tier: tier}
				d.ok(false, "analysis", prop, what)
				return d.report(r, outDir, seed, t0)
			}
		}
	}
}

func (c *Check) decide(r *rule, outDir string, seed int, t0 time.Time) int {
	prop := c.prop
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopCheck); ok {
					return
				}
				c.ok(false, "analysis", prop, fmt.Sprint("the analysis failed: ", e))
				if os.Getenv("BIPS_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		r.run(c)
		if c.tier == "thorough" && !r.noMaps {
			// once more with every constant map iterated backwards
			n := len(c.obls)
			defaultReverse = true
			defer func() {
				defaultReverse = false
				for i := n; i < len(c.obls); i++ {
					c.obls[i].Rule += " (maps iterated backwards)"
				}
			}()
			known := len(c.known)
			r.run(c)
			c.known = c.known[:known]
		}
	}()
	return c.report(r, outDir, seed, t0)
}

func (c *Check) report(r *rule, outDir string, seed int, t0 time.Time) int {
	prop, tier := c.prop, c.tier
	if len(c.obls) == 0 {
		c.ok(false, "coverage", prop, "no obligation was generated")
	}
	bad := []Obl{}
	perRule := map[string]int{}
	for _, o := range c.obls {
		perRule[o.Rule]++
		if !o.OK {
			bad = append(bad, o)
		}
	}
	fns := []string{}
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"obligations": len(c.obls), "discharged": len(c.obls) - len(bad),
		"checker_cmd":           "bin/bipscheck -prop " + prop,
		"trusted_base":          append([]string{"go/types and go/ssa (x/tools v0.52.0) for the resolved program", "the term normaliser and loop summariser in analyzer/", "the models of standard-library and secp256k1 functions in analyzer/models*.go"}, r.base...),
		"explanation":           r.tech,
		"obligations_per_rule":  perRule,
		"functions_analysed":    fns,
		"functions_analysed_n":  len(fns),
		"obligation_list_first": firstObls(c.obls, 40),
	}
	if c.in != nil {
		cov["blocks_interpreted"] = c.in.blocks
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": r.level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds() + loadTime.Seconds(), "violations": len(bad),
		"assumptions": []string{"library calls behave as their documented models", "the build is the one of Go 1.23.12 on linux/amd64 (64-bit int)"},
	}
	os.MkdirAll(outDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, k := range c.known {
		fmt.Println(k)
	}
	rep := filepath.Join(outDir, prop+".violation.txt")
	if len(bad) == 0 {
		os.Remove(rep)
		fmt.Printf("ok %s: %d obligations discharged over %d functions (%.2fs)\n", prop, len(c.obls), len(fns), time.Since(t0).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: rule %q at %s: %s\n", prop, o.Rule, o.Construct, o.Detail)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	out := sb.String()
	if len(out) > 12000 {
		out = out[:12000] + "...\n"
	}
	fmt.Print(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
	return 1
}

func firstObls(o []Obl, n int) []string {
	var out []string
	for i, x := range o {
		if i >= n {
			break
		}
		out = append(out, x.Rule+": "+x.Construct)
	}
	return out
}

var loadTime time.Duration
