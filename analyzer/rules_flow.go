package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: where private bytes can go.

// forbiddenPkgs are packages whose functions reach outside the process.
func forbiddenCall(pkg, name string) bool {
	switch pkg {
	case "os", "log", "syscall", "net", "plugin", "expvar", "testing":
		return true
	case "runtime/debug":
		return strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Write")
	case "fmt":
		return strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Scan")
	case "time":
		return true
	case "io/ioutil":
		return strings.HasPrefix(name, "Read") && name != "ReadAll" || strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Temp")
	}
	return strings.HasPrefix(pkg, "os/") || strings.HasPrefix(pkg, "net/") || strings.HasPrefix(pkg, "log/") || strings.HasPrefix(pkg, "golang.org/x/sys")
}

// calledFrom lists the module functions the roots can reach by calls or by
// taking a function's value.
func calledFrom(roots []*ssa.Function, inModule map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !inModule[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

func secretPkg(f *ssa.Function) bool {
	p := f.Package()
	if p == nil && f.Parent() != nil {
		p = f.Parent().Package()
	}
	if p == nil && f.Origin() != nil {
		p = f.Origin().Package()
	}
	if p == nil {
		return true
	}
	switch strings.TrimPrefix(p.Pkg.Path(), modPath+"/") {
	case "bip44":
		return false
	}
	return true
}

// notSecret: a type whose values carry no key material.
func notSecret(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch n.Obj().Name() {
		case "Path", "HDVersion", "HDVersionBytes", "Version", "VersionBytes", "Depth", "FingerPrint", "ChildNumber", "Coin", "CoinType":
			return true
		}
		if n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/bip44") {
			return true
		}
	}
	if b, ok := under(t).(*types.Basic); ok {
		return b.Info()&(types.IsString) == 0
	}
	return false
}

// secretAtoms collects the atoms the bytes of a value of type t are made of.
func (in *Interp) secretAtoms(t types.Type, v *Term, st *State, out map[*Term]bool, depth int) {
	if depth > 8 || notSecret(t) {
		return
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if v.op == OPtr {
			in.secretAtoms(u.Elem(), in.Load(st, v), st, out, depth+1)
		}
		return
	case *types.Struct:
		if v.op == OStruct {
			for i := 0; i < u.NumFields() && i < len(v.args); i++ {
				in.secretAtoms(u.Field(i).Type(), v.args[i], st, out, depth+1)
			}
		}
		return
	}
	sources(in.flat(st, v), func(x *Term) { out[x] = true })
}

// sources visits the atoms a value is built from, not those that only
// determine its length.
func sources(t *Term, visit func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(y *Term)
	rec = func(y *Term) {
		if y == nil || seen[y] {
			return
		}
		seen[y] = true
		switch {
		case y.op == OApp && (y.str == "len" || y.str == "cap" || y.str == "blen" || y.str == "nwords"):
			return
		case y.op == OApp && y.str == "word" && len(y.args) == 2 && y.args[1].op == OApp && y.args[1].str == "first":
			// the first word that is in no list
			return
		case y.op == OApp && len(y.args) == 0 || y.op == OApp && y.str == "random":
			visit(y)
			return
		case y.op == OIte:
			rec(y.args[1])
			rec(y.args[2])
			return
		case y.op == OSlice && y.a >= 8*(78-13) && y.b <= 8*78 && y.args[0].hi != nil && y.args[0].hi.BitLen() == 8*78:
			// version, depth, fingerprint and child number of a key
			return
		case y.op == OSub:
			rec(y.args[0])
			return
		case y.op == OFill:
			rec(y.args[0])
			return
		case y.op == ORep:
			rec(y.args[1])
			return
		}
		for _, a := range y.args {
			rec(a)
		}
	}
	rec(t)
}

// exposed reports an atom of private bytes that t depends on other than
// through scalar multiplication.
func exposed(t, k *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(y *Term) *Term
	rec = func(y *Term) *Term {
		if seen[y] {
			return nil
		}
		seen[y] = true
		if y == k {
			return y
		}
		if y.op == OApp && (y.str == "smx" || y.str == "smy") {
			return nil
		}
		for _, a := range y.args {
			if r := rec(a); r != nil {
				return y
			}
		}
		return nil
	}
	return rec(t)
}

func errResult(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func init() {
	rules["C30"] = &rule{level: "proof", tech: "reachability over the call graph for calls that leave the process, and gated value-flow analysis: the error term of every exported function may not be built from the bytes of its secret arguments or of the random source, and public outputs of private keys may depend on the scalar only under scalar multiplication", run: func(c *Check) {
		w := c.wordState("list")
		in := w.in
		in.bounds = false
		// no output, environment, clock, goroutine or channel
		mod := map[*ssa.Function]bool{}
		for _, f := range c.p.moduleFns() {
			mod[f] = true
		}
		var roots []*ssa.Function
		for _, f := range c.api() {
			if secretPkg(f) {
				roots = append(roots, f)
			}
		}
		reach := calledFrom(roots, mod)
		var fns []*ssa.Function
		for f := range reach {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		calls := 0
		for _, f := range fns {
			d := ""
			note := func(ins ssa.Instruction, what string) { d += what + " at " + c.p.Pos(ins.Pos()) + "; " }
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Go:
						note(ins, "starts a goroutine")
					case *ssa.Send, *ssa.Select, *ssa.MakeChan:
						note(ins, "uses a channel")
					case ssa.CallInstruction:
						calls++
						if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
							note(ins, "prints")
						}
					}
					for _, op := range ins.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						switch g := (*op).(type) {
						case *ssa.Function:
							if g.Pkg != nil && !mod[g] && forbiddenCall(g.Pkg.Pkg.Path(), g.Name()) {
								note(ins, "uses "+g.String())
							}
						case *ssa.Global:
							if g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" && (strings.HasPrefix(g.Name(), "Std") || g.Name() == "Args")) {
								note(ins, "uses "+g.String())
							}
						}
					}
				}
			}
			c.ok(d == "", "no output, environment, clock or goroutine", fnName(f), d)
		}
		c.extra["functions_reachable"] = len(fns)
		c.extra["calls"] = calls
		// errors
		leaves := 0
		for _, f := range roots {
			ei := errResult(f)
			if ei < 0 {
				continue
			}
			for _, a := range c.apiRuns(w, f) {
				secret := map[*Term]bool{}
				for i, q := range f.Params {
					in.secretAtoms(q.Type(), a.args[i], a.before, secret, 0)
				}
				e := a.val
				if e.op == OTuple || f.Signature.Results().Len() > 1 {
					e = a.part(ei)
				}
				leaves++
				d := ""
				sources(in.boxed(a.st, e), func(x *Term) {
					if secret[x] || x.str == "random" {
						d += "the error is built from " + short(x.String(), 60) + "; "
					}
				})
				for _, ev := range a.events {
					if ev.Kind == "output" || ev.Kind == "concurrency" {
						d += ev.What + " at " + ev.Pos + "; "
					}
				}
				c.ok(d == "", "errors carry no secret bytes", c.at(f)+" "+a.what, d)
			}
		}
		c.extra["error_results"] = leaves
		// public outputs of private keys
		in2 := c.interp()
		pub := func(name string, ver *Term, assume *Term, what string, call func(s *symKey, st *State) (*Result, []*Term)) {
			s := xkey(true, ver)
			st := newState(And(s.assume, assume))
			r, outs := call(s, st)
			if r == nil {
				return
			}
			d := ""
			for _, o := range outs {
				if x := exposed(live(newState(r.assume), o), s.k); x != nil {
					d = "the output contains " + short(x.String(), 120)
				}
			}
			c.ok(d == "", "public output depends on the scalar only through its public key", name+" "+what, d)
		}
		for _, vc := range verCases(true) {
			vc := vc
			for _, name := range []string{"(*bip32.Key).PublicKeyExtended", "(*bip32.Key).PublicKeyHex"} {
				f := c.fn(name)
				in2.ensureInit(f.Pkg)
				pub(c.at(f), vc.ver, vc.assume, vc.name, func(s *symKey, st *State) (*Result, []*Term) {
					r := c.run(in2, f, st, in2.put(st, "key", s.cells))
					return r, []*Term{in2.flat(r.st, r.val)}
				})
			}
		}
		for _, name := range []string{"(util.KeyPath).AddrHex", "(util.KeyPath).AddrP2SH"} {
			f := c.fn(name)
			in2.ensureInit(f.Pkg)
			pub(c.at(f), nil, tTrue, "any version", func(s *symKey, st *State) (*Result, []*Term) {
				kp := c.structOf(f.Params[0].Type(), name, map[string]*Term{"Key": s.cells, "Path": symBytes("path")})
				args := []*Term{kp}
				for _, q := range f.Params[1:] {
					args = append(args, in2.symValue(q.Type(), st, q.Name()))
				}
				r := c.run(in2, f, st, args...)
				return r, []*Term{in2.flat(r.st, r.val)}
			})
		}
		g := c.fn("(*bip32.Key).NewChildKey")
		for _, vc := range verCases(true) {
			vc := vc
			pub(c.at(g), vc.ver, vc.assume, "header of the child, "+vc.name, func(s *symKey, st *State) (*Result, []*Term) {
				r := c.run(in2, g, st, in2.put(st, "key", s.cells), rawApp("i", sortBits(32)))
				ok := IsNil(r.part(1))
				ch := Restrict(in2.flat(r.st, r.part(0)), And(r.assume, ok))
				return r, []*Term{cell(ch, 0, 13)}
			})
		}
		c.extra["exported_functions"] = len(roots)
	}}
}

var _ = fmt.Sprint
