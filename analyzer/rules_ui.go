package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: the demo UI recomputes its key list after every change of its inputs.
//
// A state says how far the displayed list is behind the root key and path:
// 2 stale, 1 keys derived again but not yet shown, 0 current; and whether the
// path value is behind the text it is computed from.

type uiState struct {
	stale   int
	pathOld bool
	origin  string // the change that made the list stale
}

type uiSet map[uiState]bool

type uiCheck struct {
	c       *Check
	p       *Prog
	path    map[*ssa.Global]bool // what the derivation path is read from
	text    map[*ssa.Global]bool // what those are computed from
	funcs   map[*ssa.Global][]*ssa.Function
	memo    map[*ssa.Function]map[uiState]uiSet
	active  map[*ssa.Function]bool
	atFrame map[uiState]string // states in which an event handler ends
	events  int
	frames  int
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

func isMethodOf(f *ssa.Function, pkg, recv, name string) bool {
	if f == nil || f.Name() != name || f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == recv && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isDerive(f *ssa.Function) bool {
	return isMethodOf(f, modPath+"/util", "Generator", "DeriveBIP32Result")
}

// showsKeys: a slice of values that carry derived keys.
func showsKeys(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if d > 4 {
			return false
		}
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/util" && n.Obj().Name() == "KeyPath" {
			return true
		}
		if st, ok := under(t).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if has(st.Field(i).Type(), d+1) {
					return true
				}
			}
		}
		return false
	}
	return has(s.Elem(), 0)
}

// textGlobals are the package variables of string kind a function reads.
func textGlobals(f *ssa.Function) map[*ssa.Global]bool {
	m := map[*ssa.Global]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok {
					if bt, ok := under(u.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						m[g] = true
					}
				}
			}
		}
	}
	return m
}

// computedFrom lists the string variables a value is computed from; other is
// true when it also depends on anything else that can change.
func computedFrom(v ssa.Value, seen map[ssa.Value]bool, out map[*ssa.Global]bool) (other bool) {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return false
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			out[g] = true
			return false
		}
		return true
	case *ssa.ChangeType:
		return computedFrom(x.X, seen, out)
	case *ssa.Convert:
		return computedFrom(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			other = computedFrom(e, seen, out) || other
		}
		return other
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Pkg.Pkg.Path() != "strings" {
			return true
		}
		for _, a := range x.Call.Args {
			other = computedFrom(a, seen, out) || other
		}
		return other
	}
	return true
}

// emptyValue: the zero value of a composite literal without fields.
func emptyValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *a.Referrers() {
				if r != ssa.Instruction(x) {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func (u *uiCheck) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if l, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := l.X.(*ssa.Global); ok {
			return u.funcs[g]
		}
	}
	return nil
}

func (u *uiCheck) inUI(f *ssa.Function) bool {
	p := f.Package()
	if p == nil && f.Parent() != nil {
		p = f.Parent().Package()
	}
	return p != nil && u.p.by[p.Pkg.Path()] != nil
}

// step is the effect of one instruction on a state.
func (u *uiCheck) step(f *ssa.Function, ins ssa.Instruction, s uiState) uiSet {
	one := uiSet{s: true}
	switch x := ins.(type) {
	case *ssa.Store:
		g := globalOf(x.Addr)
		if g == nil {
			return one
		}
		whole := ssa.Value(g) == x.Addr
		switch {
		case whole && u.path[g]:
			u.events++
			from := map[*ssa.Global]bool{}
			other := computedFrom(x.Val, map[ssa.Value]bool{}, from)
			sync := !other && len(from) > 0
			for q := range from {
				sync = sync && u.text[q]
			}
			if sync {
				s.pathOld = false
			} else {
				s.stale, s.origin = 2, "change of the path at "+u.where(f, x.Pos())
			}
		case whole && u.text[g]:
			u.events++
			s.pathOld, s.stale, s.origin = true, 2, "change of the path text at "+u.where(f, x.Pos())
		case showsKeys(x.Val.Type()):
			u.events++
			if s.stale == 1 {
				s.stale, s.origin = 0, ""
			}
		}
		return uiSet{s: true}
	case ssa.CallInstruction:
		if _, ok := ins.(*ssa.Defer); ok {
			return one
		}
		c := x.Common()
		cs := u.callees(c)
		if len(cs) == 0 {
			return one
		}
		out := uiSet{}
		for _, g := range cs {
			switch {
			case isMethodOf(g, modPath+"/util", "Generator", "SetRootKey"):
				u.events++
				to := ""
				if emptyValue(c.Args[len(c.Args)-1]) {
					to = " to the empty key"
				}
				out[uiState{2, s.pathOld, "change of the root key" + to + " at " + u.where(f, ins.Pos())}] = true
			case isDerive(g):
				u.events++
				n := s
				if n.stale == 2 && !n.pathOld {
					n.stale = 1
				}
				out[n] = true
			case g.Name() == "NextEvent" && g.Signature.Recv() != nil:
				u.frames++
				if s.stale != 0 {
					u.atFrame[s] = u.where(f, ins.Pos())
				}
				// report each change once
				out[uiState{}] = true
			case u.inUI(g) && g.Blocks != nil:
				for n := range u.summary(g, s) {
					out[n] = true
				}
			default:
				out[s] = true
			}
		}
		return out
	case *ssa.MakeClosure:
		// a callback may run or not
		if g, ok := x.Fn.(*ssa.Function); ok {
			out := uiSet{s: true}
			for n := range u.summary(g, s) {
				out[n] = true
			}
			return out
		}
	}
	return one
}

func (u *uiCheck) where(f *ssa.Function, pos token.Pos) string {
	name := fnName(f)
	for g, fs := range u.funcs {
		for _, h := range fs {
			if h == f {
				name = g.Name()
			}
		}
	}
	return name + " (" + u.p.Pos(pos) + ")"
}

// summary is the set of states a call of f can end in.
func (u *uiCheck) summary(f *ssa.Function, s uiState) uiSet {
	if u.memo[f] == nil {
		u.memo[f] = map[uiState]uiSet{}
	}
	if r, ok := u.memo[f][s]; ok {
		return r
	}
	if u.active[f] || len(f.Blocks) == 0 {
		return uiSet{s: true}
	}
	u.active[f] = true
	defer func() { u.active[f] = false }()
	ends := uiSet{}
	in := map[*ssa.BasicBlock]uiSet{f.Blocks[0]: {s: true}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		cur := uiSet{}
		for k := range in[b] {
			cur[k] = true
		}
		for _, ins := range b.Instrs {
			next := uiSet{}
			for k := range cur {
				for n := range u.step(f, ins, k) {
					next[n] = true
				}
			}
			cur = next
			if _, ok := ins.(*ssa.Return); ok {
				for k := range cur {
					ends[k] = true
				}
			}
		}
		for _, t := range b.Succs {
			if in[t] == nil {
				in[t] = uiSet{}
			}
			grew := false
			for k := range cur {
				if !in[t][k] {
					in[t][k] = true
					grew = true
				}
			}
			if grew {
				work = append(work, t)
			}
		}
	}
	u.memo[f][s] = ends
	return ends
}

func init() {
	rules["C33"] = &rule{noMaps: true, level: "proof", tech: "interprocedural typestate analysis of the demo UI's event handlers: from every change of the root key or of the derivation path, on every path to the next event, the keys are derived again and stored in the displayed list", note: "Decides the rebuild discipline on every path; does not decide what the rebuild displays beyond its use of DeriveBIP32Result (C25). Trusts go/types and go/ssa.", run: func(c *Check) {
		p, err := Load(c.p.dir, "./examples/ui/one")
		if err != nil {
			c.stop("load", "examples/ui/one", "the program cannot be type-checked: "+err.Error())
		}
		u := &uiCheck{c: c, p: p, path: map[*ssa.Global]bool{}, text: map[*ssa.Global]bool{}, funcs: map[*ssa.Global][]*ssa.Function{},
			memo: map[*ssa.Function]map[uiState]uiSet{}, active: map[*ssa.Function]bool{}, atFrame: map[uiState]string{}}
		fns := p.moduleFns()
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							switch h := s.Val.(type) {
							case *ssa.Function:
								u.funcs[g] = append(u.funcs[g], h)
							case *ssa.MakeClosure:
								u.funcs[g] = append(u.funcs[g], h.Fn.(*ssa.Function))
							}
						}
					}
				}
			}
		}
		var entry []*ssa.Function
		for _, f := range fns {
			derives, frames := false, false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if x, ok := ins.(ssa.CallInstruction); ok {
						for _, g := range u.callees(x.Common()) {
							derives = derives || isDerive(g)
							frames = frames || g.Name() == "NextEvent" && g.Signature.Recv() != nil
						}
					}
				}
			}
			if derives {
				for g := range textGlobals(f) {
					u.path[g] = true
				}
			}
			if frames {
				entry = append(entry, f)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && u.path[g] && f.Name() != "init" {
							from := map[*ssa.Global]bool{}
							computedFrom(s.Val, map[ssa.Value]bool{}, from)
							for q := range from {
								if !u.path[q] {
									u.text[q] = true
								}
							}
						}
					}
				}
			}
		}
		if len(entry) == 0 || len(u.path) == 0 {
			c.stop("anchor", "examples/ui/one", "no event loop or no derivation found")
		}
		for _, f := range entry {
			c.fns[fnName(f)] = true
			u.summary(f, uiState{})
		}
		for f := range u.memo {
			c.fns[fnName(f)] = true
		}
		var bad []uiState
		for s := range u.atFrame {
			bad = append(bad, s)
		}
		sort.Slice(bad, func(i, j int) bool { return bad[i].origin < bad[j].origin })
		seen := map[string]bool{}
		for _, s := range bad {
			if seen[s.origin] {
				continue
			}
			seen[s.origin] = true
			what := s.origin
			if i := strings.Index(what, " ("); i > 0 {
				what = what[:i]
			}
			c.knownFinding(what, "is not followed by a rebuild of the displayed keys on some path to the next event "+s.origin[len(what):], "keys shown belong to the current root key and path", s.origin)
		}
		for i := 0; i < u.events-len(seen); i++ {
			c.ok(true, "keys shown belong to the current root key and path", "event", "")
		}
		c.extra["state_changes_analysed"] = u.events
		c.extra["event_loops"] = len(entry)
		c.extra["functions_and_entry_states"] = fmt.Sprint(len(u.memo))
	}}
}
