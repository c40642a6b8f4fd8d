package main

// Interprocedural value-flow analysis over go/ssa: computes, for every value
// and memory cell, its term as a gated function of the entry values. States of
// all paths reaching a block are merged (gates), nothing is enumerated.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc     *Term
	env    map[ssa.Value]*Term
	mem    map[int]*Term
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  ssa.Instruction
}

func (s *State) fork() *State {
	n := &State{pc: s.pc, env: make(map[ssa.Value]*Term, len(s.env)+4), mem: make(map[int]*Term, len(s.mem)+4)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

type Obj struct {
	elem types.Type // of the elements of a made slice
	view *Term      // the slice an array pointer obtained by conversion looks into
	id   int
	kind string // alloc, global, param, sym
	name string
	typ  types.Type
	from int // object this one may alias (append with spare capacity)
}

type edge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}
type retState struct {
	st  *State
	val *Term
}

type frame struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// Event is something the interpretation recorded about a construct.
type Event struct {
	Kind string
	What string
	Pos  string
	Fn   string
	PC   *Term
	Obj  int // the object written
}

type Boundary func(in *Interp, fn *ssa.Function, args []*Term, st *State, pos ssa.Instruction) (*Term, bool)

type Interp struct {
	live       map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool // see liveIn
	prog       *Prog
	objs       []*Obj
	globals    map[*ssa.Global]int
	constMem   map[int]*Term             // contents of package-level state after init
	keepState  bool                      // package state as initialised, not arbitrary
	stateVal   func(g *ssa.Global) *Sort // element sorts of arbitrary state
	boundary   map[string]Boundary
	events     []Event
	bounds     bool // record bounds obligations
	oblTotal   int
	stepLog    []step
	stepSeen   map[ssa.Instruction]int
	stepBad    map[ssa.Instruction]string // calls whose failure is not reported
	depth      int
	level      int
	stack      []*ssa.Function
	frames     map[*ssa.Function]*frame
	inInit     bool
	calls      map[string]int
	appendPC   map[string]*Term
	asOrder    map[*ssa.BinOp]token.Token // equality tests of loops that decide as order tests
	steps      int
	reverse    bool  // iterate constant maps backwards
	wordsOf    *Term // a list whose words are distinct, not empty and free of white space
	usesFields bool  // strings.Fields was analysed
	fieldsLen  int   // number of words assumed in strings.Fields results (-1 symbolic)
	blocks     int
	writes     map[int]bool // objects written (any)
	initRun    map[string]bool
	fnsSeen    map[*ssa.Function]bool
	sortOfMap  map[string]*Sort
	curInstr   ssa.Instruction
}

// defaultReverse is the map order of new interpreters.
var defaultReverse bool

func NewInterp(p *Prog) *Interp {
	in := &Interp{prog: p, reverse: defaultReverse, globals: map[*ssa.Global]int{}, constMem: map[int]*Term{}, boundary: map[string]Boundary{},
		frames: map[*ssa.Function]*frame{}, calls: map[string]int{}, appendPC: map[string]*Term{}, fieldsLen: -1, asOrder: map[*ssa.BinOp]token.Token{},
		writes: map[int]bool{}, initRun: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}, sortOfMap: map[string]*Sort{}}
	in.objs = append(in.objs, &Obj{kind: "none"})
	return in
}

func (in *Interp) newObj(kind, name string, t types.Type) int {
	o := &Obj{id: len(in.objs), kind: kind, name: name, typ: t}
	in.objs = append(in.objs, o)
	return o.id
}

func ptrTo(obj int, path ...*Term) *Term {
	return intern(&Term{op: OPtr, a: obj, args: path})
}

// ---- type-directed values

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), nil)
}

const secpPkg = "github.com/decred/dcrd/dcrec/secp256k1/v4"

// cellType reports library types whose content is one term.
func cellType(t types.Type) string {
	switch typeName(t) {
	case "math/big.Int", secpPkg + ".ModNScalar", secpPkg + ".FieldVal":
		return "int"
	case "bytes.Buffer", "strings.Builder":
		return "seq"
	}
	return ""
}

func zeroValue(t types.Type) *Term {
	switch cellType(t) {
	case "int":
		return C(0)
	case "seq":
		return tEmpty
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return C(0)
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return tNil
		}
		return rawApp("zero", sortObj)
	case *types.Array:
		z := zeroValue(u.Elem())
		if isSeq(z) || u.Len() > 4096 {
			return Seq(repeatT(z, int(u.Len()))...)
		}
		return Seq(segFill(z, C(u.Len())))
	case *types.Struct:
		xs := make([]*Term, u.NumFields())
		for i := range xs {
			xs[i] = zeroValue(u.Field(i).Type())
		}
		return Struct(xs...)
	case *types.Tuple:
		xs := make([]*Term, u.Len())
		for i := range xs {
			xs[i] = zeroValue(u.At(i).Type())
		}
		return Tuple(xs...)
	}
	return tNil
}

func repeatT(t *Term, n int) []*Term {
	xs := make([]*Term, n)
	for i := range xs {
		xs[i] = t
	}
	return xs
}

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return
}

func typeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	w, signed, ok := intWidth(t)
	if !ok {
		return nil, nil, false
	}
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1), true
	}
	return big0, new(big.Int).Sub(pow2(w), big1), true
}

func intSort(t types.Type) *Sort {
	lo, hi, ok := typeRange(t)
	if !ok {
		return sortAny
	}
	return &Sort{kind: 'i', lo: lo, hi: hi, bits: lo.Sign() == 0}
}

func isByteArray(t types.Type) (int, bool) {
	a, ok := under(t).(*types.Array)
	if !ok {
		return 0, false
	}
	w, s, ok := intWidth(a.Elem())
	return int(a.Len()), ok && w == 8 && !s
}

// elemSort is the sort of elements of a sequence of T.
func elemSort(t types.Type) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return sortStr
		}
		if u.Info()&types.IsInteger != 0 {
			return intSort(t)
		}
		if u.Info()&types.IsBoolean != 0 {
			return sortBool
		}
	}
	return sortObj
}

// symValue makes an unconstrained value of a type, named by an application.
// Memory for pointers and slices is allocated in st.
func (in *Interp) symValue(t types.Type, st *State, name string, args ...*Term) *Term {
	return liftN(args, func(xs []*Term) *Term { return in.symVal(t, st, name, 0, xs) })
}

func (in *Interp) symVal(t types.Type, st *State, name string, depth int, args []*Term) *Term {
	switch cellType(t) {
	case "int":
		return rawApp(name, sortAny, args...)
	case "seq":
		return wholeSeq(rawApp(name, sortStr, args...))
	}
	if depth > 6 {
		return rawApp(name, sortObj, args...)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bAtom(name, args...)
		case u.Info()&types.IsInteger != 0:
			return rawApp(name, intSort(t), args...)
		case u.Info()&types.IsString != 0:
			return wholeSeq(rawApp(name, sortStr, args...))
		}
		return rawApp(name, sortObj, args...)
	case *types.Array:
		if n, ok := isByteArray(t); ok {
			return Cells(rawApp(name, sortBits(8*n), args...), n)
		}
		xs := make([]*Term, 0, u.Len())
		for i := int64(0); i < u.Len() && i < 512; i++ {
			xs = append(xs, in.symVal(u.Elem(), st, fmt.Sprintf("%s[%d]", name, i), depth+1, args))
		}
		return Seq(xs...)
	case *types.Slice:
		base := rawApp(name, &Sort{kind: 's', elem: elemSort(u.Elem())}, args...)
		return in.symSlice(u.Elem(), st, name, base)
	case *types.Struct:
		xs := make([]*Term, u.NumFields())
		for i := range xs {
			xs[i] = in.symVal(u.Field(i).Type(), st, name+"."+u.Field(i).Name(), depth+1, args)
		}
		return Struct(xs...)
	case *types.Pointer:
		o := in.newObj("sym", name, u.Elem())
		st.mem[o] = in.symVal(u.Elem(), st, "*"+name, depth+1, args)
		return ptrTo(o)
	case *types.Map:
		o := in.newObj("sym", name, t)
		st.mem[o] = wholeSeq(rawApp(name, &Sort{kind: 's', elem: sortObj}, args...))
		return ptrTo(o)
	case *types.Tuple:
		xs := make([]*Term, u.Len())
		for i := range xs {
			xs[i] = in.symVal(u.At(i).Type(), st, fmt.Sprintf("%s#%d", name, i), depth+1, args)
		}
		return Tuple(xs...)
	}
	return rawApp(name, sortObj, args...)
}

func (in *Interp) symSlice(et types.Type, st *State, name string, base *Term) *Term {
	o := in.newObj("sym", name, nil)
	st.mem[o] = wholeSeq(base)
	n := Len(st.mem[o])
	return mkSl(ptrTo(o), C(0), n, rawApp("cap", sortLen, base))
}

// newSlice allocates a slice holding a sequence.
func (in *Interp) newSlice(st *State, content *Term, exact bool) *Term {
	o := in.newObj("alloc", "", nil)
	st.mem[o] = content
	n := Len(content)
	cp := n
	if !exact {
		cp = App("cap", sortLen, C(int64(o)))
	}
	return mkSl(ptrTo(o), C(0), n, cp)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return CB(n)
		}
	}
	if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
		if _, _, ok := intWidth(c.Type()); ok {
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return CB(n)
		}
	}
	return rawApp("const:"+c.Value.ExactString(), sortObj)
}

// ---- memory

func (in *Interp) loadContent(st *State, obj int) *Term {
	if v := in.objs[obj].view; v != nil {
		return in.View(st, v)
	}
	if v, ok := st.mem[obj]; ok {
		return v
	}
	if v, ok := in.constMem[obj]; ok {
		return v
	}
	return opaque("memory of "+in.objs[obj].name, sortObj)
}

func navigate(c *Term, path []*Term) *Term {
	for _, p := range path {
		c = navStep(c, p)
	}
	return c
}

func navStep(c, p *Term) *Term {
	if c.op == OIte {
		return lift1(c, func(x *Term) *Term { return navStep(x, p) })
	}
	switch c.op {
	case OStruct, OTuple:
		if k, ok := p.constInt(); ok && k < len(c.args) {
			return c.args[k]
		}
	case OSeq:
		return At(c, p)
	case OApp:
		if k, ok := p.constInt(); ok {
			return App(fmt.Sprintf("field%d", k), sortObj, c)
		}
	case OPoison:
		return c
	}
	return opaque("field of unknown", sortObj)
}

func updatePath(c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	if c.op == OIte {
		return lift1(c, func(x *Term) *Term { return updatePath(x, path, v) })
	}
	switch c.op {
	case OStruct, OTuple:
		if k, ok := path[0].constInt(); ok && k < len(c.args) {
			xs := append([]*Term(nil), c.args...)
			xs[k] = updatePath(xs[k], path[1:], v)
			n := &Term{op: c.op, str: c.str, args: xs}
			return intern(n)
		}
	case OSeq:
		if len(path) == 1 {
			return Update(c, path[0], v)
		}
		return Update(c, path[0], updatePath(At(c, path[0]), path[1:], v))
	}
	return opaque("store into unknown", sortObj)
}

// Load reads through a pointer value.
func (in *Interp) Load(st *State, p *Term) *Term {
	switch p.op {
	case OIte:
		return lift1(p, func(x *Term) *Term { return in.Load(st, x) })
	case OPtr:
		return live(st, navigate(in.loadContent(st, p.a), p.args))
	case OTab:
		return tabMap(p, func(x *Term) *Term { return in.Load(st, x) })
	case ONil, OPoison:
		return tPoison
	}
	return opaque("load through unknown pointer", sortObj)
}

// Store writes through a pointer value.
func (in *Interp) Store(st *State, p, v *Term, pos ssa.Instruction) {
	switch p.op {
	case OIte:
		c := mkNode(p.args[0], tTrue, tFalse)
		a, b := st, st
		// write both alternatives, each gated
		in.storeGated(a, p.args[1], v, c, pos)
		in.storeGated(b, p.args[2], v, Not(c), pos)
	case OPtr:
		if w := in.objs[p.a].view; w != nil {
			in.writeSlice(st, w, updatePath(in.View(st, w), p.args, v), pos)
			return
		}
		in.noteWrite(st, p, pos)
		st.mem[p.a] = updatePath(in.loadContent(st, p.a), p.args, v)
	case ONil, OPoison:
	default:
		in.event("unknown-store", "store through a pointer the analysis cannot resolve", pos, st)
	}
}

func (in *Interp) storeGated(st *State, p, v, c *Term, pos ssa.Instruction) {
	if p.op == OIte {
		d := mkNode(p.args[0], tTrue, tFalse)
		in.storeGated(st, p.args[1], v, And(c, d), pos)
		in.storeGated(st, p.args[2], v, And(c, Not(d)), pos)
		return
	}
	if p.op != OPtr {
		return
	}
	if And(c, st.pc).op == OFalse {
		return
	}
	if w := in.objs[p.a].view; w != nil {
		old := in.View(st, w)
		in.writeSlice(st, w, Ite(c, updatePath(old, p.args, v), old), pos)
		return
	}
	in.noteWrite(st, p, pos)
	old := in.loadContent(st, p.a)
	st.mem[p.a] = Ite(c, updatePath(old, p.args, v), old)
}

func (in *Interp) noteWrite(st *State, p *Term, pos ssa.Instruction) {
	in.writes[p.a] = true
	if in.inInit {
		return
	}
	o := in.objs[p.a]
	switch o.kind {
	case "global", "pkgstate":
		in.event("global-write", "writes package-level "+o.name, pos, st)
	case "lib":
		in.event("global-write", "writes the shared constant "+o.name, pos, st)
	case "sym", "param":
		in.event("arg-write", "writes memory of "+o.name, pos, st)
	default:
		return
	}
	in.events[len(in.events)-1].Obj = p.a
}

func (in *Interp) event(kind, what string, pos ssa.Instruction, st *State) {
	e := Event{Kind: kind, What: what}
	if pos != nil {
		e.Pos = in.prog.Pos(pos.Pos())
		if pos.Pos() == token.NoPos && pos.Parent() != nil {
			e.Pos = in.prog.Pos(pos.Parent().Pos())
		}
		if pos.Parent() != nil {
			e.Fn = fnName(pos.Parent())
		}
	}
	if st != nil {
		e.PC = st.pc
	}
	in.events = append(in.events, e)
}

func fnName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// need records a bounds obligation: cond has to hold whenever pos executes.
func (in *Interp) need(cond *Term, what string, pos ssa.Instruction, st *State) {
	if !in.bounds || in.inInit {
		return
	}
	in.oblTotal++
	if !entails(cond) {
		in.event("bounds", what, pos, st)
	}
}

// View is the sequence a slice value denotes.
func (in *Interp) View(st *State, s *Term) *Term {
	switch s.op {
	case OIte:
		return lift1(s, func(x *Term) *Term { return in.View(st, x) })
	case ONil:
		return tEmpty
	case OSl:
		return SubSeq(in.Load(st, s.args[0]), s.args[1], Add(s.args[1], s.args[2]))
	case OSeq:
		return s
	case OTab:
		return tabMap(s, func(x *Term) *Term { return in.View(st, x) })
	case OPoison:
		return tEmpty
	}
	return opaque("view of unknown slice", sortStr)
}

// SliceLen of a slice, string, map or array value.
func (in *Interp) SliceLen(st *State, s *Term) *Term {
	return lift1(s, func(x *Term) *Term {
		switch x.op {
		case ONil, OPoison:
			return C(0)
		case OSl:
			return x.args[2]
		case OSeq:
			return Len(x)
		case OTab:
			return tabMap(x, func(y *Term) *Term { return in.SliceLen(st, y) })
		}
		return opaque("length of unknown", sortLen)
	})
}

// writeSlice stores a sequence at the start of a slice.
func (in *Interp) writeSlice(st *State, s, content *Term, pos ssa.Instruction) {
	switch s.op {
	case OIte:
		c := mkNode(s.args[0], tTrue, tFalse)
		t1, t2 := st.fork(), st.fork()
		in.writeSlice(t1, s.args[1], content, pos)
		in.writeSlice(t2, s.args[2], content, pos)
		for o := range t1.mem {
			if v2, ok := t2.mem[o]; ok {
				st.mem[o] = Ite(c, t1.mem[o], v2)
			}
		}
	case OSl:
		p := s.args[0]
		if p.op != OPtr {
			in.event("unknown-store", "write to unknown slice", pos, st)
			return
		}
		in.noteWrite(st, p, pos)
		old := in.loadContent(st, p.a)
		arr := navigate(old, p.args)
		st.mem[p.a] = updatePath(old, p.args, Splice(arr, s.args[1], content))
	}
}

// ---- control flow

func (in *Interp) frameOf(fn *ssa.Function) *frame {
	if f, ok := in.frames[fn]; ok {
		return f
	}
	f := &frame{fn: fn, loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, u := range f.rpo {
		for _, h := range u.Succs {
			if h.Dominates(u) {
				l := f.loops[h]
				if l == nil {
					l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					f.loops[h] = l
				}
				work := []*ssa.BasicBlock{u}
				for len(work) > 0 {
					b := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[b] {
						continue
					}
					l.body[b] = true
					work = append(work, b.Preds...)
				}
			}
		}
	}
	in.frames[fn] = f
	return f
}

// exec runs the blocks of region starting with the given edges into entry.
// The loop whose header is self (if any) is executed for one iteration only.
func (in *Interp) exec(f *frame, region map[*ssa.BasicBlock]bool, self *ssa.BasicBlock, start []edge) (back, exits []edge, rets []retState) {
	pending := map[*ssa.BasicBlock][]edge{}
	for _, e := range start {
		pending[e.to] = append(pending[e.to], e)
	}
	done := map[*ssa.BasicBlock]bool{}
	route := func(es []edge) {
		for _, e := range es {
			if e.st.pc.op == OFalse {
				continue
			}
			switch {
			case e.to == self:
				back = append(back, e)
			case region != nil && !region[e.to]:
				exits = append(exits, e)
			default:
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range f.rpo {
		es := pending[b]
		if len(es) == 0 || done[b] {
			continue
		}
		done[b] = true
		if l := f.loops[b]; l != nil && b != self {
			_, ex, rs := in.execLoop(f, l, es)
			route(ex)
			rets = append(rets, rs...)
			continue
		}
		st := in.mergeEdges(b, es)
		if st == nil {
			continue
		}
		out, rs := in.execBlock(f, b, st)
		route(out)
		rets = append(rets, rs...)
	}
	return
}

// mergeEdges joins all states entering b and evaluates its phis.
func (in *Interp) mergeEdges(b *ssa.BasicBlock, es []edge) *State {
	var live []edge
	for _, e := range es {
		if e.st.pc.op != OFalse {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	phiVals := make([]map[ssa.Value]*Term, len(live))
	for i, e := range live {
		phiVals[i] = map[ssa.Value]*Term{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for j, p := range b.Preds {
				if p == e.from {
					phiVals[i][phi] = in.val(e.st, phi.Edges[j])
				}
			}
		}
	}
	st := live[0].st
	if len(live) > 1 {
		sts := make([]*State, len(live))
		needed := in.liveIn(b.Parent())[b]
		for i := range live {
			sts[i] = live[i].st
			sts[i] = sts[i].withEnv(phiVals[i])
			// What nothing reads any more need not be joined.
			for v := range sts[i].env {
				if _, phi := phiVals[i][v]; !phi && !needed[v] {
					delete(sts[i].env, v)
				}
			}
		}
		return in.mergeStates(sts)
	}
	st = st.fork()
	for k, v := range phiVals[0] {
		st.env[k] = v
	}
	return st
}

func (s *State) withEnv(m map[ssa.Value]*Term) *State {
	n := s.fork()
	for k, v := range m {
		n.env[k] = v
	}
	return n
}

// mergeStates gates the values of several states by their path conditions.
func (in *Interp) mergeStates(sts []*State) *State {
	for len(sts) > 1 {
		var next []*State
		for i := 0; i < len(sts); i += 2 {
			if i+1 == len(sts) {
				next = append(next, sts[i])
			} else {
				next = append(next, in.merge2(sts[i], sts[i+1]))
			}
		}
		sts = next
	}
	return sts[0]
}

func (in *Interp) merge2(x, y *State) *State {
	pc := Or(x.pc, y.pc)
	c := Restrict(x.pc, pc)
	n := &State{pc: pc, env: make(map[ssa.Value]*Term, len(x.env)), mem: make(map[int]*Term, len(x.mem))}
	for k, v := range x.env {
		if w, ok := y.env[k]; ok {
			if v == w {
				n.env[k] = v
			} else {
				n.env[k] = Ite(c, v, w)
			}
		} else {
			n.env[k] = v
		}
	}
	for k, w := range y.env {
		if _, ok := x.env[k]; !ok {
			n.env[k] = w
		}
	}
	for k, v := range x.mem {
		w, ok := y.mem[k]
		if !ok {
			w, ok = in.constMem[k]
		}
		if ok {
			if v == w {
				n.mem[k] = v
			} else {
				n.mem[k] = Ite(c, v, w)
			}
		} else {
			n.mem[k] = v
		}
	}
	for k, w := range y.mem {
		if _, ok := x.mem[k]; !ok {
			if v, ok := in.constMem[k]; ok && v != w {
				n.mem[k] = Ite(c, v, w)
			} else {
				n.mem[k] = w
			}
		}
	}
	if len(x.defers) >= len(y.defers) {
		n.defers = x.defers
	} else {
		n.defers = y.defers
	}
	return n
}

func (in *Interp) execBlock(f *frame, b *ssa.BasicBlock, st *State) (out []edge, rets []retState) {
	in.blocks++
	for _, ins := range b.Instrs {
		curPC = st.pc
		in.curInstr = ins
		in.steps++
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := in.val(st, x.Cond)
			t, e := in.decide(st, c)
			if t.op != OFalse {
				s := st
				if e.op != OFalse {
					s = st.fork()
				}
				s.pc = t
				out = append(out, edge{b, b.Succs[0], s})
			}
			if e.op != OFalse {
				st.pc = e
				out = append(out, edge{b, b.Succs[1], st})
			}
			return
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}, nil
		case *ssa.Return:
			var v *Term
			switch len(x.Results) {
			case 0:
				v = tNil
			case 1:
				v = in.val(st, x.Results[0])
			default:
				xs := make([]*Term, len(x.Results))
				for i, r := range x.Results {
					xs[i] = in.val(st, r)
				}
				v = Tuple(xs...)
			}
			return nil, []retState{{st, v}}
		case *ssa.Panic:
			in.event("panic", "explicit panic reachable", ins, st)
			return nil, nil
		default:
			in.instr(f, st, ins)
			if st.pc.op == OFalse {
				return nil, nil
			}
			if in.stepBad != nil {
				if x, ok := ins.(*ssa.Call); ok {
					in.noteStep(st, x)
				}
			}
		}
	}
	return
}

// decide splits the path condition on c.
func (in *Interp) decide(st *State, c *Term) (t, e *Term) {
	curPC = st.pc
	t = And(st.pc, c)
	if t.op == OFalse {
		return tFalse, st.pc
	}
	e = And(st.pc, Not(c))
	if e.op == OFalse {
		return st.pc, tFalse
	}
	if needsLinear(c) {
		if entails(c) {
			return st.pc, tFalse
		}
		if entails(Not(c)) {
			return tFalse, st.pc
		}
	}
	return
}

// needsLinear: the condition compares lengths or sums, where facts combine.
func needsLinear(c *Term) bool {
	sup := support(c)
	if len(sup) > 12 {
		return false
	}
	for _, a := range sup {
		if a.op == OGe {
			return true
		}
	}
	return false
}

// ---- loops

const unrollLimit = 6000

func (in *Interp) execLoop(f *frame, l *loopInfo, start []edge) (back, exits []edge, rets []retState) {
	saveEv, saveObl := len(in.events), in.oblTotal
	saveApp := in.appendPC
	in.appendPC = map[string]*Term{}
	for k, v := range saveApp {
		in.appendPC[k] = v
	}
	exits, rets, ok := in.unroll(f, l, start)
	if ok {
		return nil, exits, rets
	}
	in.events, in.oblTotal = in.events[:saveEv], saveObl
	in.appendPC = saveApp
	exits, rets = in.summarise(f, l, start)
	return nil, exits, rets
}

func copyEdges(es []edge) []edge {
	out := make([]edge, len(es))
	for i, e := range es {
		out[i] = edge{e.from, e.to, e.st.fork()}
	}
	return out
}

// unroll executes a loop whose trip count the entry state determines.
func (in *Interp) unroll(f *frame, l *loopInfo, start []edge) (exits []edge, rets []retState, ok bool) {
	cur := copyEdges(start)
	for it := 0; it < unrollLimit; it++ {
		// join everything entering the header
		st := in.mergeEdges(l.header, cur)
		if st == nil {
			return exits, rets, true
		}
		entry := st.pc
		back, ex, rs := in.execMerged(f, l, st)
		exits = append(exits, ex...)
		rets = append(rets, rs...)
		if len(back) == 0 {
			return exits, rets, true
		}
		// some exit test must have been decided, otherwise the trip count is symbolic
		if !in.exitDecided(f, l, back, ex, entry) {
			return nil, nil, false
		}
		cur = back
	}
	return nil, nil, false
}

// exitDecided: in this iteration at least one exit branch of the loop was
// decided to stay (its exit edge is absent although the branch was reached),
// and it is a counting test rather than an always-false one.
func (in *Interp) exitDecided(f *frame, l *loopInfo, back, ex []edge, entry *Term) bool {
	taken := map[*ssa.BasicBlock]bool{}
	for _, e := range ex {
		taken[e.from] = true
	}
	for b := range l.body {
		n := len(b.Instrs)
		if n == 0 {
			continue
		}
		if _, ok := b.Instrs[n-1].(*ssa.If); !ok {
			continue
		}
		leaves := false
		for _, s := range b.Succs {
			if !l.body[s] {
				leaves = true
			}
		}
		if leaves && !taken[b] && in.executed(b) && in.variant(l, b) {
			return true
		}
	}
	return false
}

func (in *Interp) executed(b *ssa.BasicBlock) bool { return true }

// variant: the exit condition of b depends on something that changes in l.
func (in *Interp) variant(l *loopInfo, b *ssa.BasicBlock) bool {
	iff := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.header {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if ins.Block() == nil || !l.body[ins.Block()] {
			return false
		}
		switch x := ins.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return true
			}
		case *ssa.Call, *ssa.Next, *ssa.Lookup:
			return true
		}
		var ops []*ssa.Value
		for _, o := range ins.Operands(ops) {
			if *o != nil && dep(*o) {
				return true
			}
		}
		return false
	}
	return dep(iff.Cond)
}

// execMerged runs one iteration from a merged header state.
func (in *Interp) execMerged(f *frame, l *loopInfo, st *State) (back, exits []edge, rets []retState) {
	out, rs := in.execBlock(f, l.header, st)
	rets = append(rets, rs...)
	var start []edge
	for _, e := range out {
		if e.st.pc.op == OFalse {
			continue
		}
		switch {
		case e.to == l.header:
			back = append(back, e)
		case !l.body[e.to]:
			exits = append(exits, e)
		default:
			start = append(start, e)
		}
	}
	if len(start) > 0 {
		b2, e2, r2 := in.exec(f, l.body, l.header, start)
		back = append(back, b2...)
		exits = append(exits, e2...)
		rets = append(rets, r2...)
	}
	return
}

// ---- calls

// Call runs fn on args from st; st is consumed. The returned state is nil if
// no path returns.
func (in *Interp) Call(fn *ssa.Function, args []*Term, free []*Term, st *State) (*Term, *State) {
	if fn.Blocks == nil {
		return opaque("no body: "+fn.String(), sortObj), st
	}
	for _, s := range in.stack {
		if s == fn {
			return in.symVal(fn.Signature.Results(), st, fmt.Sprintf("?recursive %s", fn), 0, args), st
		}
	}
	if len(in.stack) > 40 {
		return opaque("call depth", sortObj), st
	}
	in.fnsSeen[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	f := in.frameOf(fn)
	callerEnv, callerDefers := st.env, st.defers
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			st.env[v] = free[i]
		}
	}
	outer := in.stepLog
	in.stepLog = nil
	_, _, rets := in.exec(f, nil, nil, []edge{{nil, fn.Blocks[0], st}})
	if in.stepBad != nil {
		in.endFrame(fn, in.stepLog, rets)
	}
	in.stepLog = outer
	if len(rets) == 0 {
		return tPoison, nil
	}
	val, out := in.mergeRets(rets)
	out.env = callerEnv
	out.defers = callerDefers
	curPC = out.pc
	return val, out
}

func (in *Interp) mergeRets(rets []retState) (*Term, *State) {
	if len(rets) == 1 {
		return rets[0].val, rets[0].st
	}
	key := retKey
	sts := make([]*State, len(rets))
	for i, r := range rets {
		s := r.st
		s.env = map[ssa.Value]*Term{key: r.val}
		sts[i] = s
	}
	m := in.mergeStates(sts)
	return m.env[key], m
}

// step is a call with an error result, made by a frame.
type step struct {
	call ssa.Instruction
	pc   *Term
	fail *Term // its error is not nil
}

// noteStep records the outcome of a call that can fail.
func (in *Interp) noteStep(st *State, x *ssa.Call) {
	i := -1
	rs := x.Call.Signature().Results()
	for j := rs.Len() - 1; j >= 0; j-- {
		if isErrorType(rs.At(j).Type()) {
			i = j
			break
		}
	}
	if i < 0 || st.env[x] == nil {
		return
	}
	e := st.env[x]
	if rs.Len() > 1 {
		e = in.extract(e, i)
	}
	in.stepLog = append(in.stepLog, step{x, st.pc, Not(IsNil(e))})
}

// endFrame decides for each call a frame made whether the frame can report
// success although the call failed.
func (in *Interp) endFrame(fn *ssa.Function, steps []step, rets []retState) {
	ei := errResult(fn)
	for _, s := range steps {
		in.stepSeen[s.call]++
		for _, r := range rets {
			bad := And(r.st.pc, s.pc, s.fail)
			if ei >= 0 {
				e := r.val
				if fn.Signature.Results().Len() > 1 {
					e = in.extract(e, ei)
				}
				bad = And(bad, IsNil(e))
			}
			if bad.op != OFalse && feasible(bad).op != OFalse {
				in.stepBad[s.call] = "reports success when " + pathTo(bad)
			}
		}
	}
}

// retKey is an environment slot for return values.
var retKey = ssa.Value(&ssa.Const{})

// val is the term of an operand.
func (in *Interp) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return ptrTo(in.globalObj(x, st))
	case *ssa.Function:
		return intern(&Term{op: OClosure, str: x.String(), aux: x, args: nil})
	case *ssa.Builtin:
		return intern(&Term{op: OClosure, str: "builtin " + x.Name()})
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return opaque(fmt.Sprintf("value %s of %s", v.Name(), v.Parent()), sortObj)
}

func (in *Interp) globalObj(g *ssa.Global, st *State) int {
	if o, ok := in.globals[g]; ok {
		return o
	}
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	t := g.Type().(*types.Pointer).Elem()
	o := in.newObj("global", strings.TrimPrefix(name, modPath+"/"), t)
	in.globals[g] = o
	if g.Pkg != nil && in.prog.by[g.Pkg.Pkg.Path()] != nil {
		if in.inInit {
			in.constMem[o] = zeroValue(t)
			return o
		}
		in.ensureInit(g.Pkg)
		if _, ok := in.constMem[o]; ok {
			return o
		}
		in.constMem[o] = zeroValue(t)
		return o
	}
	in.constMem[o] = in.libGlobal(name, t, st)
	return o
}

// ensureInit evaluates a package's initialisation once.
func (in *Interp) ensureInit(p *ssa.Package) {
	path := p.Pkg.Path()
	if in.initRun[path] {
		return
	}
	in.initRun[path] = true
	for _, imp := range p.Pkg.Imports() {
		if q := in.prog.by[imp.Path()]; q != nil {
			in.ensureInit(q)
		}
	}
	initFn := p.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	saveInit, savePC, saveStack, saveEv := in.inInit, curPC, in.stack, in.events
	saveWrites := in.writes
	in.inInit, curPC, in.stack = true, tTrue, nil
	in.writes = map[int]bool{}
	st := &State{pc: tTrue, env: map[ssa.Value]*Term{}, mem: map[int]*Term{}}
	_, out := in.Call(initFn, nil, nil, st)
	if out == nil {
		in.events = saveEv
		in.event("init", "initialisation of "+path+" does not return", nil, nil)
		saveEv = in.events
	} else {
		if out.pc.op != OTrue {
			saveEv = append(saveEv, Event{Kind: "init", What: "initialisation of " + path + " may panic: returns only if " + out.pc.String()})
		}
		for o, v := range out.mem {
			in.constMem[o] = v
		}
	}
	if !in.keepState {
		in.havocState(p)
	}
	in.inInit, curPC, in.stack, in.events = saveInit, savePC, saveStack, saveEv
	in.writes = saveWrites
}

func (in *Interp) sortedMem(m map[int]*Term) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// havocState makes every variable that can change after start-up arbitrary.
func (in *Interp) havocState(p *ssa.Package) {
	e := effectsOf(in.prog)
	for g := range e.state {
		if g.Pkg != p {
			continue
		}
		in.inInit = false
		o := in.globalObj(g, nil)
		in.inInit = true
		st := &State{pc: tTrue, env: map[ssa.Value]*Term{}, mem: map[int]*Term{}}
		v := in.symValue(g.Type().(*types.Pointer).Elem(), st, "state:"+in.objs[o].name)
		for k, x := range st.mem {
			in.constMem[k] = x
			in.objs[k].kind = "pkgstate"
		}
		in.constMem[o] = v
	}
}
