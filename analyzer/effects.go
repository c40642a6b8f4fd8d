package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Effect analysis: which package-level variables can change after start-up.
// A variable is state if a function that can run after initialisation stores
// through an address rooted at it (directly, through a loaded reference, or by
// passing such a reference to something that stores through it).

type retRoot struct {
	i int
	r any
}

type effects struct {
	p     *Prog
	fns   []*ssa.Function
	wr    map[*ssa.Function]map[int]bool     // parameters written through
	ret   map[*ssa.Function]map[retRoot]bool // roots of results
	sites map[*ssa.Global][]ssa.Instruction
	state map[*ssa.Global]bool
}

func (p *Prog) moduleFns() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.ssa) {
		if f.Blocks == nil {
			continue
		}
		pk := f.Package()
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Package()
		}
		if pk == nil && f.Parent() != nil {
			pk = f.Parent().Package()
		}
		if pk != nil && p.by[pk.Pkg.Path()] != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func effectsOf(p *Prog) *effects {
	if p.eff != nil {
		return p.eff
	}
	e := &effects{p: p, wr: map[*ssa.Function]map[int]bool{}, ret: map[*ssa.Function]map[retRoot]bool{}, sites: map[*ssa.Global][]ssa.Instruction{}, state: map[*ssa.Global]bool{}}
	e.fns = p.moduleFns()
	for _, f := range e.fns {
		e.wr[f] = map[int]bool{}
		e.ret[f] = map[retRoot]bool{}
	}
	initOnly := e.initOnly()
	for changed := true; changed; {
		changed = false
		for _, f := range e.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					note := func(v ssa.Value) {
						for r := range e.roots(v, map[ssa.Value]bool{}) {
							switch x := r.(type) {
							case *ssa.Parameter:
								for i, q := range f.Params {
									if q == x && !e.wr[f][i] {
										e.wr[f][i] = true
										changed = true
									}
								}
							case *ssa.Global:
								if !initOnly[f] || otherPkg(f, x) {
									if !e.state[x] {
										e.state[x] = true
										changed = true
									}
									e.addSite(x, ins)
								}
							}
						}
					}
					switch x := ins.(type) {
					case *ssa.Store:
						note(x.Addr)
					case *ssa.MapUpdate:
						note(x.Map)
					case *ssa.Send:
						note(x.Chan)
					case *ssa.Return:
						for i, v := range x.Results {
							if !refType(v.Type()) {
								continue
							}
							for r := range e.roots(v, map[ssa.Value]bool{}) {
								if !e.ret[f][retRoot{i, r}] {
									e.ret[f][retRoot{i, r}] = true
									changed = true
								}
							}
						}
					}
					if c, ok := ins.(ssa.CallInstruction); ok {
						for _, v := range e.writtenArgs(c.Common()) {
							note(v)
						}
					}
				}
			}
		}
	}
	p.eff = e
	return e
}

func (e *effects) addSite(g *ssa.Global, ins ssa.Instruction) {
	for _, x := range e.sites[g] {
		if x == ins {
			return
		}
	}
	e.sites[g] = append(e.sites[g], ins)
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if p := g.Package(); p != nil {
			return p
		}
		if o := g.Origin(); o != nil && o.Package() != nil {
			return o.Package()
		}
	}
	return nil
}

// otherPkg: f belongs to a library package other than the variable's.
func otherPkg(f *ssa.Function, g *ssa.Global) bool {
	p := pkgOf(f)
	return p != nil && p != g.Pkg && p.Pkg.Name() != "main"
}

// startups lists, for each package variable, the places where the
// initialisation of another package writes it.
func (e *effects) startups() map[*ssa.Global][]string {
	out := map[*ssa.Global][]string{}
	for _, f := range e.fns {
		if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") || pkgOf(f) == nil || pkgOf(f).Pkg.Name() == "main" || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] || e.wr[g] == nil {
				return
			}
			if (g.Name() == "init" || strings.HasPrefix(g.Name(), "init#")) && pkgOf(g) != pkgOf(f) {
				return // an imported package's own initialisation
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok {
							walk(h)
						}
					}
				}
			}
		}
		walk(f)
		for g, sites := range e.sites {
			if g.Pkg == pkgOf(f) {
				continue
			}
			for _, s := range sites {
				if !seen[s.Parent()] {
					continue
				}
				if e.p.by[g.Pkg.Pkg.Path()] == nil && !direct(s) {
					continue
				}
				out[g] = append(out[g], fnName(f)+" writes "+g.Name()+" at "+e.p.Pos(s.Pos()))
			}
		}
	}
	return out
}

// direct: an assignment, not a call.
func direct(ins ssa.Instruction) bool {
	switch ins.(type) {
	case *ssa.Store, *ssa.MapUpdate:
		return true
	}
	return false
}

// initOnly: package initialisers and what only they call.
func (e *effects) initOnly() map[*ssa.Function]bool {
	is := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for _, f := range e.fns {
		is[f] = true
	}
	// remove everything that can be reached otherwise
	for _, f := range e.fns {
		if isInit(f) {
			continue
		}
		if o, ok := f.Object().(*types.Func); ok && o.Exported() {
			is[f] = false
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	taken := map[*ssa.Function]*ssa.Function{}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
						taken[g] = f
					}
				}
			}
		}
		if f.Parent() != nil {
			callers[f] = append(callers[f], f.Parent())
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range e.fns {
			if !is[f] || isInit(f) {
				continue
			}
			cs := callers[f]
			keep := len(cs) > 0
			for _, c := range cs {
				if !is[c] {
					keep = false
				}
			}
			if f.Signature.Recv() != nil {
				// methods may be called through interfaces
				keep = false
			}
			if !keep {
				is[f] = false
				changed = true
			}
		}
	}
	return is
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// roots of an address or reference: parameters, globals, free variables.
func (e *effects) roots(v ssa.Value, seen map[ssa.Value]bool) map[any]bool {
	out := map[any]bool{}
	var walk func(v ssa.Value)
	var call func(x *ssa.Call, comp int)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global, *ssa.Parameter:
			out[v] = true
		case *ssa.FreeVar:
			// bound where the closure is made
			f := x.Parent()
			idx := -1
			for i, y := range f.FreeVars {
				if y == x {
					idx = i
				}
			}
			if par := f.Parent(); par != nil {
				for _, b := range par.Blocks {
					for _, ins := range b.Instrs {
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f && idx >= 0 {
							walk(mc.Bindings[idx])
						}
					}
				}
			}
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Field:
			walk(x.X)
		case *ssa.Index:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Lookup:
			if refType(x.Type()) {
				walk(x.X)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if refType(x.Type()) {
					walk(x.X)
				}
				// what was stored in a local variable
				if a, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							walk(s.Val)
						}
					}
				}
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Convert:
			if refType(x.X.Type()) && refType(x.Type()) {
				walk(x.X)
			}
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.MakeInterface:
			if refType(x.X.Type()) {
				walk(x.X)
			}
		case *ssa.SliceToArrayPointer:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				call(c, x.Index)
			} else {
				walk(x.Tuple)
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y)
			}
		case *ssa.Next:
			walk(x.Iter)
		case *ssa.Range:
			walk(x.X)
		case *ssa.Call:
			call(x, -1)
		}
	}
	call = func(x *ssa.Call, comp int) {
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				walk(cc.Args[0])
			}
			return
		}
		f := cc.StaticCallee()
		if f == nil {
			return
		}
		if rs, ok := e.ret[f]; ok {
			for r := range rs {
				if comp >= 0 && r.i != comp {
					continue
				}
				switch y := r.r.(type) {
				case *ssa.Parameter:
					for i, q := range f.Params {
						if q == y && i < len(cc.Args) {
							walk(cc.Args[i])
						}
					}
				case *ssa.Global:
					out[r.r] = true
				}
			}
			return
		}
		// library calls returning their argument (big.Int chaining, Params)
		if refType(x.Type()) {
			switch {
			case strings.HasPrefix(f.String(), "(*math/big.Int)."):
				walk(cc.Args[0])
			case strings.HasSuffix(f.Name(), "Params"), strings.Contains(f.String(), "secp256k1"):
				for _, a := range cc.Args {
					walk(a)
				}
			}
		}
	}
	walk(v)
	return out
}

var bigReaders = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "Bit": true, "BitLen": true, "String": true, "Text": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true, "FillBytes": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Append": true, "Format": true, "Float64": true}

// writtenArgs lists the arguments a call may store through.
func (e *effects) writtenArgs(c *ssa.CallCommon) []ssa.Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			return c.Args[:1]
		}
		return nil
	}
	f := c.StaticCallee()
	if f == nil {
		if c.IsInvoke() {
			// an interface method may change its receiver (hash.Hash, io.Writer)
			switch c.Method.Name() {
			case "Error", "Params", "Size", "BlockSize", "Sum", "String":
				return nil
			}
			if strings.Contains(c.Value.Type().String(), "elliptic.Curve") || strings.Contains(c.Value.Type().String(), "KoblitzCurve") {
				return nil
			}
			return []ssa.Value{c.Value}
		}
		return nil
	}
	if w, ok := e.wr[f]; ok {
		var out []ssa.Value
		for i := range w {
			if i < len(c.Args) {
				out = append(out, c.Args[i])
			}
		}
		return out
	}
	name := f.String()
	switch {
	case strings.HasPrefix(name, "(*math/big.Int)."):
		if !bigReaders[f.Name()] {
			return c.Args[:1]
		}
		if f.Name() == "FillBytes" {
			return c.Args[1:2]
		}
	case strings.HasPrefix(name, "(*"+secpPkg+".ModNScalar)."), strings.HasPrefix(name, "(*"+secpPkg+".FieldVal)."):
		switch {
		case strings.HasPrefix(f.Name(), "Put"):
			return c.Args[1:2]
		case strings.HasPrefix(f.Name(), "Is"), f.Name() == "Equals", f.Name() == "Bytes", f.Name() == "String":
			return nil
		}
		return c.Args[:1]
	case strings.HasPrefix(name, "(*"+secpPkg+".JacobianPoint)."), strings.HasPrefix(name, "(*"+secpPkg+".PrivateKey).Zero"):
		return c.Args[:1]
	case strings.HasPrefix(name, secpPkg+".") && (strings.HasSuffix(name, "NonConst") || strings.HasSuffix(name, ".DecompressY")), strings.HasSuffix(name, "PublicKey).AsJacobian"):
		return c.Args[len(c.Args)-1:]
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."):
		// locking is no change of a value
	case name == "(*bytes.Buffer).WriteTo":
		return c.Args
	case strings.HasPrefix(name, "(*sync"), strings.HasPrefix(name, "(*bytes."), strings.HasPrefix(name, "(*strings.Builder"), strings.HasPrefix(name, "(*bufio."), strings.HasPrefix(name, "(*container/"), strings.HasPrefix(name, "(*math/rand"):
		if len(c.Args) > 0 {
			return c.Args[:1]
		}
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"), strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "maps.Copy"), strings.HasPrefix(name, "maps.DeleteFunc"):
		if len(c.Args) > 0 {
			return c.Args[:1]
		}
	case strings.HasPrefix(name, "(encoding/binary.") && strings.HasPrefix(f.Name(), "Put"):
		return c.Args[1:2]
	case name == "crypto/rand.Read", name == "encoding/hex.Encode", name == "encoding/hex.Decode", name == "crypto/subtle.ConstantTimeCopy", name == "crypto/subtle.XORBytes":
		for _, a := range c.Args {
			if refType(a.Type()) {
				return []ssa.Value{a}
			}
		}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return c.Args[1:2]
	case strings.HasPrefix(name, "fmt.Fprint"), name == "encoding/binary.Write", name == "io.WriteString", name == "io.Copy", strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Insert"), strings.HasPrefix(name, "slices.Replace"), strings.HasPrefix(name, "slices.Compact"):
		return c.Args[:1]
	}
	return nil
}
