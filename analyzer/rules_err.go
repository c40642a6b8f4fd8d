package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: failing steps are reported.

// infallible: the callee's error is documented to be nil always.
func infallible(c *ssa.CallCommon) bool {
	writer := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		switch v.Type().String() {
		case "hash.Hash", "hash.Hash32", "hash.Hash64", "*strings.Builder", "*bytes.Buffer", "*crypto/sha3.SHA3", "golang.org/x/crypto/sha3.ShakeHash":
			return true
		}
		return false
	}
	if c.IsInvoke() {
		return strings.HasPrefix(c.Method.Name(), "Write") && writer(c.Value)
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Signature.Recv() != nil {
		return strings.HasPrefix(f.Name(), "Write") && len(c.Args) > 0 && writer(c.Args[0])
	}
	switch f.String() {
	case "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "encoding/binary.Write":
		return len(c.Args) > 0 && writer(c.Args[0])
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return true
	}
	// parsing and formatting of text: what the caller accepts is decided by
	// the properties about its results
	if p := f.Package(); p != nil {
		switch p.Pkg.Path() {
		case "strconv", "fmt", "errors", "regexp", "strings":
			return true
		}
	}
	return false
}

// errWalk follows the paths from a failing call to the exits of its function.
type errWalk struct {
	p     *Prog
	call  *ssa.Call
	fn    *ssa.Function
	ei    int
	seen  map[string]bool
	fails []string
	n     int
}

type errState struct {
	alias    map[any]bool            // values and cells holding an error that is not nil
	val      map[ssa.Value]ssa.Value // what a phi is on this path
	observed bool
}

func (s *errState) clone() *errState {
	n := &errState{alias: map[any]bool{}, val: map[ssa.Value]ssa.Value{}, observed: s.observed}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	for k, v := range s.val {
		n.val[k] = v
	}
	return n
}

func (s *errState) key(b *ssa.BasicBlock, i int, pred *ssa.BasicBlock) string {
	var ks []string
	for k, v := range s.alias {
		if v {
			ks = append(ks, fmt.Sprintf("%p", k))
		}
	}
	for k, v := range s.val {
		ks = append(ks, fmt.Sprintf("%p=%p", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprint(b.Index, i, s.observed, ks)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// fresh: the value is an error that is not nil by construction.
func (w *errWalk) fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return isErrorType(g.Type().(*types.Pointer).Elem())
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	}
	return false
}

func (s *errState) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		if r, ok := s.val[v]; ok && r != v {
			v = r
			continue
		}
		if c, ok := v.(*ssa.ChangeInterface); ok {
			v = c.X
			continue
		}
		break
	}
	return v
}

func (w *errWalk) fail(what string, pos token.Pos) {
	w.fails = append(w.fails, what+" at "+w.p.Pos(pos))
}

func (w *errWalk) walk(b *ssa.BasicBlock, i int, pred *ssa.BasicBlock, s *errState) {
	if w.n++; w.n > 20000 {
		w.fail("too many paths", w.call.Pos())
		return
	}
	if i == 0 {
		// all phis of a block read their operands at once
		np := map[ssa.Value]ssa.Value{}
		na := map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range b.Preds {
				if p == pred {
					v := s.resolve(phi.Edges[k])
					np[phi] = v
					na[phi] = s.alias[v]
					break
				}
			}
		}
		for k, v := range np {
			delete(s.val, k)
			switch v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Parameter:
				s.val[k] = v
			default:
				if w.fresh(v) {
					s.alias[k] = true
					continue
				}
			}
			if na[k] {
				s.alias[k] = true
			} else {
				delete(s.alias, k)
			}
		}
		k := s.key(b, i, pred)
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(a.Type().(*types.Pointer).Elem()) {
				v := s.resolve(x.Val)
				s.alias[a] = s.alias[v] || w.fresh(v)
				if !s.alias[a] {
					delete(s.alias, a)
				}
			}
			if s.alias[s.resolve(x.Val)] {
				s.observed = true
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && s.alias[a] {
				s.alias[x] = true
			}
		case *ssa.ChangeInterface:
			if s.alias[s.resolve(x.X)] {
				s.alias[x] = true
			}
		case *ssa.BinOp:
			if s.alias[s.resolve(x.X)] || s.alias[s.resolve(x.Y)] {
				s.observed = true
			}
		case *ssa.MakeInterface, *ssa.TypeAssert, *ssa.MakeClosure:
			for _, op := range x.Operands(nil) {
				if *op != nil && s.alias[s.resolve(*op)] {
					s.observed = true
				}
			}
		case *ssa.Call:
			if x == w.call {
				w.fail("the step runs again after failing", x.Pos())
				return
			}
			used := false
			for _, a := range x.Call.Args {
				used = used || s.alias[s.resolve(a)]
				if mi, ok := a.(*ssa.MakeInterface); ok {
					used = used || s.alias[s.resolve(mi.X)]
				}
			}
			if used {
				s.observed = true
				if isErrorType(x.Type()) {
					s.alias[x] = true // wrapped
				}
			} else {
				delete(s.alias, x)
			}
		case *ssa.Panic:
			return
		case *ssa.If:
			take := -1
			switch c := s.resolve(x.Cond).(type) {
			case *ssa.BinOp:
				a, n := s.resolve(c.X), s.resolve(c.Y)
				if isNilConst(a) {
					a, n = n, a
				}
				if isNilConst(n) && s.alias[a] {
					if c.Op == token.EQL {
						take = 1
					} else if c.Op == token.NEQ {
						take = 0
					}
				} else if isNilConst(n) && isNilConst(a) && isErrorType(a.Type()) {
					if c.Op == token.EQL {
						take = 0
					} else if c.Op == token.NEQ {
						take = 1
					}
				}
			case *ssa.Const:
				if c.Value != nil {
					if c.Value.String() == "true" {
						take = 0
					} else {
						take = 1
					}
				}
			}
			for k, t := range b.Succs {
				if take < 0 || take == k {
					w.walk(t, 0, b, s.clone())
				}
			}
			return
		case *ssa.Jump:
			w.walk(b.Succs[0], 0, b, s)
			return
		case *ssa.Return:
			if w.ei < 0 {
				ok := s.observed
				for _, v := range x.Results {
					ok = ok || s.alias[s.resolve(v)]
				}
				if !ok {
					w.fail("the error is not looked at before the return", x.Pos())
				}
				return
			}
			v := s.resolve(x.Results[w.ei])
			if s.alias[v] || w.fresh(v) {
				return
			}
			if mi, ok := v.(*ssa.MakeInterface); ok && mi != nil {
				return
			}
			if isNilConst(v) {
				w.fail("returns a nil error", x.Pos())
			} else {
				w.fail("returns another step's error", x.Pos())
			}
			return
		}
	}
}

// checkStep walks the failure of one call.
func checkStep(p *Prog, f *ssa.Function, x *ssa.Call) []string {
	rs := x.Call.Signature().Results()
	ei := -1
	for j := rs.Len() - 1; j >= 0; j-- {
		if isErrorType(rs.At(j).Type()) {
			ei = j
			break
		}
	}
	if ei < 0 {
		return nil
	}
	w := &errWalk{p: p, call: x, fn: f, ei: errResult(f), seen: map[string]bool{}}
	s := &errState{alias: map[any]bool{}, val: map[ssa.Value]ssa.Value{}}
	if rs.Len() == 1 {
		s.alias[x] = true
	} else if x.Referrers() != nil {
		for _, r := range *x.Referrers() {
			switch e := r.(type) {
			case *ssa.Extract:
				if e.Index == ei {
					s.alias[e] = true
				}
			case *ssa.Return:
				return nil // passes all results on
			}
		}
	}
	b := x.Block()
	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(x) {
			w.walk(b, i+1, nil, s)
		}
	}
	return w.fails
}

func init() {
	rules["C32"] = &rule{level: "proof", tech: "path-sensitive typestate analysis of every call with an error result in the library, from the failing call to the exits of its function; calls it cannot discharge are decided by gated value-flow analysis of the exported functions for arbitrary arguments", run: func(c *Check) {
		type site struct {
			f     *ssa.Function
			x     *ssa.Call
			fails []string
		}
		var open []site
		exempt, deferred := 0, 0
		mod := map[*ssa.Function]bool{}
		for _, f := range c.p.moduleFns() {
			mod[f] = true
		}
		reach := calledFrom(c.api(), mod)
		for _, f := range c.p.moduleFns() {
			if !reach[f] {
				continue // initialisation runs on constants only, and what no user can call
			}
			if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Call:
						has := false
						rs := x.Call.Signature().Results()
						for j := 0; j < rs.Len(); j++ {
							has = has || isErrorType(rs.At(j).Type())
						}
						if !has {
							continue
						}
						if infallible(&x.Call) {
							exempt++
							continue
						}
						c.fns[fnName(f)] = true
						fails := checkStep(c.p, f, x)
						if len(fails) == 0 {
							c.ok(true, "a failing step is reported", c.stepAt(f, x), "")
							continue
						}
						open = append(open, site{f, x, fails})
					case *ssa.Defer, *ssa.Go:
						deferred++
					}
				}
			}
		}
		c.extra["exempt_calls"] = exempt
		if len(open) > 0 {
			// decide these by value flow
			w := c.wordState("list")
			in := w.in
			in.bounds = false
			in.stepSeen, in.stepBad = map[ssa.Instruction]int{}, map[ssa.Instruction]string{}
			want := map[*ssa.Function]bool{}
			for _, s := range open {
				want[s.f] = true
			}
			for _, f := range c.api() {
				need := false
				for g := range calledFrom([]*ssa.Function{f}, mod) {
					need = need || want[g]
				}
				if need {
					c.apiRuns(w, f)
				}
			}
			for _, s := range open {
				bad := in.stepBad[s.x]
				ok := bad == "" && in.stepSeen[s.x] > 0
				c.ok(ok, "a failing step is reported", c.stepAt(s.f, s.x), strings.Join(s.fails, "; ")+" "+bad)
			}
			c.extra["decided_by_value_flow"] = len(open)
		}
	}}
}

func (c *Check) stepAt(f *ssa.Function, x *ssa.Call) string {
	name := "a function value"
	if g := x.Call.StaticCallee(); g != nil {
		name = fnName(g)
	} else if x.Call.IsInvoke() {
		name = x.Call.Method.FullName()
	}
	return fmt.Sprintf("call of %s at %s in %s", name, c.p.Pos(x.Pos()), fnName(f))
}
