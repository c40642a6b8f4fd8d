package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops whose trip count is symbolic are summarised: loop-carried leaves are
// classified (invariant, induction, accumulation, last value, recurrence) and
// given closed forms in the iteration index; exits become exists/first terms.

type leaf struct {
	id   int
	kind string // int bool cells seq
	v    *Term  // the leaf's variable
	init *Term
	u    *Term // value after one iteration
	at   *Term // closed form at iteration Bound(level)

	grows bool // appended to by every iteration
}

type lvar struct {
	kind  string // inv, leaf, struct, slice
	init  *Term
	kids  []*lvar
	leaf  *leaf
	inv   bool
	typ   types.Type
	phi   ssa.Value
	obj   int
	isTup bool

	bad   bool  // and not in order
	split *Term // a list filled one by one whose latest element is carried separately: the first place written
	last  *lvar // that element; leaf is what precedes it
	lastU *Term // that element after one iteration
	whole *Term // the whole list in closed form
	cells int   // the object of the list in the closed run
	lastQ *Term // and its content there
}

type loopSum struct {
	in     *Interp
	leaves []*leaf
	vars   []*lvar
	level  int
	fail   string
	counts map[ssa.Value]*Term // closed forms of counters, from an earlier run
}

func (ls *loopSum) newLeaf(kind string, init *Term, s *Sort, n int) *leaf {
	l := &leaf{id: len(ls.leaves), kind: kind, init: init}
	key := []*Term{C(int64(ls.level)), C(int64(l.id))}
	switch kind {
	case "bool":
		l.v = bAtom("$rv", key...)
	case "cells":
		l.v = sortedVar("$rv", sortBits(8*n), key...)
	default:
		l.v = sortedVar("$rv", s, key...)
	}
	ls.leaves = append(ls.leaves, l)
	return l
}

// sortedVar is a variable whose identity includes its sort.
func sortedVar(name string, s *Sort, key ...*Term) *Term {
	tag := string(rune(s.kind))
	if s.lo != nil {
		tag += s.lo.String()
	}
	tag += ":"
	if s.hi != nil {
		if h := new(big.Int).Add(s.hi, big1); int(h.TrailingZeroBits()) == h.BitLen()-1 {
			tag += "^" + strconv.Itoa(h.BitLen()-1)
		} else {
			tag += s.hi.Text(62)
		}
	}
	if s.bits {
		tag += "b"
	}
	if e := s.elem; e != nil {
		tag += "/" + string(rune(e.kind))
		if e.hi != nil {
			tag += e.hi.Text(62)
		}
	}
	return rawApp(name+"<"+tag+">", s, key...)
}

func loopIntSort(t types.Type) *Sort {
	if t == nil {
		return sortAny
	}
	w, signed, ok := intWidth(t)
	if !ok {
		return sortAny
	}
	if w == 64 {
		// optimistic, checked when the closed form is known
		s := &Sort{kind: 'i', lo: new(big.Int).Neg(pow2(62)), hi: pow2(62)}
		if !signed {
			s.lo = big0
		}
		return s
	}
	lo, hi, _ := typeRange(t)
	return &Sort{kind: 'i', lo: lo, hi: hi}
}

// build makes the variable tree for an entry value.
func (ls *loopSum) build(st *State, init *Term, t types.Type) *lvar {
	v := &lvar{init: init, inv: true, typ: t, kind: "inv"}
	if t != nil {
		if cellType(t) == "" {
			switch u := under(t).(type) {
			case *types.Slice:
				v.kind = "slice"
				return v
			case *types.Struct:
				if init.op == OStruct && len(init.args) == u.NumFields() {
					v.kind = "struct"
					for i, a := range init.args {
						v.kids = append(v.kids, ls.build(st, a, u.Field(i).Type()))
					}
					return v
				}
			case *types.Map:
				if firstSeq(init).op != OSeq {
					return v
				}
				// the contents of a map object
				v.kind = "leaf"
				return v
			case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
				return v
			}
		}
	}
	if init.op == OStruct || init.op == OTuple {
		v.kind = "struct"
		v.isTup = init.op == OTuple
		for _, a := range init.args {
			v.kids = append(v.kids, ls.build(st, a, nil))
		}
		return v
	}
	v.kind = "leaf"
	return v
}

// value of the variable at the header.
func (ls *loopSum) value(st *State, v *lvar, closed bool) *Term {
	if v.inv && v.kind != "struct" {
		return v.init
	}
	switch v.kind {
	case "struct":
		xs := make([]*Term, len(v.kids))
		for i, k := range v.kids {
			xs[i] = ls.value(st, k, closed)
		}
		if v.isTup {
			return Tuple(xs...)
		}
		return Struct(xs...)
	case "slice":
		c := ls.leafVal(v.leaf, closed)
		if v.last != nil {
			c = Concat(c, Seq(ls.value(st, v.last, closed)))
		}
		s := ls.in.newSlice(st, c, false)
		if v.last != nil && closed {
			v.cells, v.lastQ = s.args[0].a, c
		}
		return s
	case "leaf":
		if v.last != nil {
			c := Concat(ls.leafVal(v.leaf, closed), Seq(ls.value(st, v.last, closed)), v.rest(v.init, 0, ls.level))
			if closed {
				v.cells, v.lastQ = v.obj, c
			}
			return c
		}
	}
	return ls.leafVal(v.leaf, closed)
}

func (ls *loopSum) leafVal(l *leaf, closed bool) *Term {
	if closed {
		switch l.kind {
		case "cells":
			n, _ := constLen(firstSeq(l.init))
			return Cells(l.at, n)
		}
		return l.at
	}
	return l.term()
}

func firstSeq(t *Term) *Term {
	for t.op == OIte {
		t = t.args[1]
	}
	return t
}

// preclose gives induction variables with a constant step their closed form.
func (ls *loopSum) preclose() bool {
	B := Bound(ls.level)
	any := false
	for _, x := range ls.leaves {
		if x.kind != "int" || x.at != nil || x.u == nil {
			continue
		}
		if d := Sub(x.u, x.v); d.isConst() {
			x.at = Add(x.init, MulInt(d, B))
			any = true
		}
	}
	return any
}

// term is the Go-level value of the leaf variable.
func (l *leaf) term() *Term {
	if l.at != nil {
		return l.at
	}
	switch l.kind {
	case "cells":
		n, _ := constLen(firstSeq(l.init))
		return Cells(l.v, n)
	case "seq":
		return wholeSeq(l.v)
	}
	return l.v
}

// demote turns an invariant into a loop-carried leaf.
func (ls *loopSum) demote(st *State, v *lvar) {
	v.inv = false
	switch v.kind {
	case "slice":
		c := ls.in.View(st, v.init)
		et := v.typ.Underlying().(*types.Slice).Elem()
		if v.split != nil {
			ls.splitLeaf(st, v, c, et)
			return
		}
		v.leaf = ls.newLeaf("seq", c, &Sort{kind: 's', elem: elemSort(et)}, 0)
	case "leaf":
		t := v.init
		if v.split != nil {
			ls.splitLeaf(st, v, t, ls.in.objs[v.obj].elem)
			return
		}
		switch {
		case t.isBool():
			v.leaf = ls.newLeaf("bool", t, nil, 0)
		case t.isInt() || t.op == OApp && v.typ != nil && isIntType(v.typ):
			v.leaf = ls.newLeaf("int", t, loopIntSort(v.typ), 0)
			if v.phi != nil {
				v.leaf.at = ls.counts[v.phi]
			}
		case isSeq(t):
			if n, ok := constLen(firstSeq(t)); ok && n > 0 && byteCells(t) && v.typ != nil && isArr(v.typ) {
				v.leaf = ls.newLeaf("cells", t, nil, n)
			} else {
				es := byteSort
				if v.typ != nil {
					switch u := under(v.typ).(type) {
					case *types.Array:
						es = elemSort(u.Elem())
					case *types.Map:
						es = sortObj
					}
				} else if e := seqElem(t); e != nil {
					es = e
				}
				v.leaf = ls.newLeaf("seq", t, &Sort{kind: 's', elem: es}, 0)
			}
		default:
			ls.fail = "loop-carried value of unsupported kind"
		}
	default:
		ls.fail = "loop-carried reference"
	}
}

func (ls *loopSum) splitLeaf(st *State, v *lvar, c *Term, et types.Type) {
	n := Sub(v.split, C(1))
	es := sortObj
	if et != nil {
		es = elemSort(et)
	}
	v.leaf = ls.newLeaf("seq", SubSeq(c, C(0), n), &Sort{kind: 's', elem: es}, 0)
	l := v.leaf.v
	v.leaf.v = rawApp("$rvl"+strings.TrimPrefix(l.str, "$rv"), l.aux.(*Sort), append(append([]*Term{}, l.args...), Add(n, Bound(ls.level)))...)
	v.last = ls.build(st, At(c, n), et)
}

// rest is what a split list holds after the elements written so far.
func (v *lvar) rest(c *Term, k int64, level int) *Term {
	if v.kind == "slice" {
		return tEmpty
	}
	// every place counted so far has been written, so the list is that long
	from := Add(Add(v.split, Bound(level)), C(k))
	save := curPC
	defer func() { curPC = save }()
	curPC = And(curPC, Ge(Sub(Len(c), from), big0))
	return SubSeq(c, from, Len(c))
}

func seqElem(t *Term) *Sort {
	t = firstSeq(t)
	for _, g := range t.args {
		switch {
		case g.op == OTuple || g.op == OStruct:
			return sortObj
		case g.op == OSeq:
			return sortStr
		case g.op == OFill && isSeq(g.args[0]):
			return sortStr
		case g.op == OFill && !g.args[0].isInt():
			return sortObj
		case g.op == OSub && g.args[0].elem != nil:
			return g.args[0].elem
		}
	}
	return byteSort
}

func isIntType(t types.Type) bool { _, _, ok := intWidth(t); return ok || cellType(t) == "int" }
func isArr(t types.Type) bool     { _, ok := under(t).(*types.Array); return ok }

func byteCells(t *Term) bool {
	ok := true
	lift1(t, func(x *Term) *Term {
		if x.op != OSeq {
			ok = false
			return C(0)
		}
		for _, e := range x.args {
			if e.op == OLit {
				continue
			}
			if !e.isInt() || e.hi == nil || e.hi.Cmp(big.NewInt(255)) > 0 {
				ok = false
			}
		}
		return C(0)
	})
	return ok
}

// compare reports whether back value t equals the header value hv, demoting
// what differs.
func (ls *loopSum) compare(hst, bst *State, v *lvar, hv, t *Term) (changed bool) {
	t = Restrict(t, bst.pc)
	if v.kind == "struct" {
		for i, k := range v.kids {
			if ls.compare(hst, bst, k, navStep(hv, C(int64(i))), navStep(t, C(int64(i)))) {
				changed = true
			}
		}
		return
	}
	if v.inv {
		if t == v.init || t.op == OPoison || Restrict(v.init, bst.pc) == t {
			return false
		}
		if v.kind == "inv" && v.init.op == OPoison {
			v.init = t
			return true
		}
		ls.demote(hst, v)
		return true
	}
	if v.leaf.at != nil {
		return false
	}
	switch v.kind {
	case "slice":
		u := Restrict(ls.in.View(bst, t), bst.pc)
		if v.last != nil {
			n := Sub(Len(u), C(1))
			e := At(u, n)
			v.lastU = e
			u = SubSeq(u, C(0), n)
			if ls.compare(hst, bst, v.last, ls.value(hst, v.last, false), e) {
				changed = true
			}
		}
		v.leaf.u = u
	default:
		if v.last != nil {
			n := Add(v.split, Bound(ls.level))
			v.lastU = At(t, n)
			v.bad = false
			if SubSeq(t, Add(n, C(1)), Len(t)) != Restrict(v.rest(v.init, 1, ls.level), bst.pc) {
				v.bad = true
			}
			v.leaf.u = SubSeq(t, C(0), n)
			return ls.compare(hst, bst, v.last, ls.value(hst, v.last, false), v.lastU)
		}
		v.leaf.u = t
		if v.leaf.kind == "cells" {
			v.leaf.u = BE(t)
		}
	}
	return
}

type neLoop struct {
	cond *ssa.BinOp
	op   token.Token
	// a bound that is read again for every test has to keep its value
	reread ssa.Value
	bound  *Term
}

// headerVal is the value v has in the header when it is entered in st, if the
// header does nothing but read memory and compute.
func (in *Interp) headerVal(f *frame, l *loopInfo, st *State, v ssa.Value) *Term {
	for _, i := range l.header.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.FieldAddr, *ssa.BinOp, *ssa.If, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return nil
			}
		default:
			return nil
		}
	}
	saveEv, saveObl, sb, pc := len(in.events), in.oblTotal, in.bounds, curPC
	in.bounds = false
	out, _ := in.execBlock(f, l.header, st.fork())
	in.events, in.oblTotal, in.bounds, curPC = in.events[:saveEv], saveObl, sb, pc
	for _, e := range out {
		if t := e.st.env[v]; t != nil {
			return t
		}
	}
	return nil
}

// neBound recognises a loop that stops when a variable stepping by one meets
// an invariant bound it starts on the right side of: i never passes the bound,
// so i != n decides as i < n (or i > n when it steps down).
func (in *Interp) neBound(f *frame, l *loopInfo, st0 *State) *neLoop {
	n := len(l.header.Instrs)
	br, ok := l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != l.header || cond.Op != token.NEQ && cond.Op != token.EQL {
		return nil
	}
	stay := 0
	if cond.Op == token.EQL {
		stay = 1
	}
	if !l.body[l.header.Succs[stay]] || l.body[l.header.Succs[1-stay]] {
		return nil
	}
	for _, flip := range []bool{false, true} {
		x, y := cond.X, cond.Y
		if flip {
			x, y = y, x
		}
		phi, ok := x.(*ssa.Phi)
		if !ok || phi.Block() != l.header {
			continue
		}
		if _, _, isInt := intWidth(phi.Type()); !isInt {
			continue
		}
		var reread ssa.Value
		if i, ok := y.(ssa.Instruction); ok && l.body[i.Block()] {
			if _, isPhi := y.(*ssa.Phi); isPhi || i.Block() != l.header {
				continue
			}
			reread = y
		}
		step := int64(0)
		for i, p := range l.header.Preds {
			if !l.body[p] {
				continue
			}
			b, ok := phi.Edges[i].(*ssa.BinOp)
			d := int64(0)
			if ok && (b.Op == token.ADD || b.Op == token.SUB) {
				k, o := b.Y, b.X
				if _, isC := k.(*ssa.Const); !isC && b.Op == token.ADD {
					k, o = o, k
				}
				if c, isC := k.(*ssa.Const); isC && o == ssa.Value(phi) && c.Value != nil {
					if v := c.Int64(); v == 1 || v == -1 {
						d = v
						if b.Op == token.SUB {
							d = -v
						}
					}
				}
			}
			if d == 0 || step != 0 && step != d {
				step = 0
				break
			}
			step = d
		}
		if step == 0 {
			continue
		}
		init := st0.env[phi]
		var bound *Term
		if reread != nil {
			bound = in.headerVal(f, l, st0, y)
		} else {
			bound = in.val(st0, y)
		}
		if init == nil || bound == nil || !init.isInt() || !bound.isInt() {
			continue
		}
		save := curPC
		curPC = st0.pc
		up, down := step > 0 && entails(Le(init, bound)), step < 0 && entails(Le(bound, init))
		curPC = save
		switch {
		case !up && !down:
			continue
		case up != flip:
			// i < n, or n > i written the other way round
			if cond.Op == token.NEQ {
				return &neLoop{cond, token.LSS, reread, bound}
			}
			return &neLoop{cond, token.GEQ, reread, bound}
		}
		if cond.Op == token.NEQ {
			return &neLoop{cond, token.GTR, reread, bound}
		}
		return &neLoop{cond, token.LEQ, reread, bound}
	}
	return nil
}

func (in *Interp) summarise(f *frame, l *loopInfo, start []edge) (exits []edge, rets []retState) {
	st0 := in.mergeEdges(l.header, start)
	if st0 == nil {
		return nil, nil
	}
	split, counts := map[any]*Term{}, map[ssa.Value]*Term{}
	for {
		n := len(split)
		ex, rs, again := in.summariseFrom(f, l, st0, split, counts)
		if !again || len(split) == n {
			return ex, rs
		}
	}
}

// wantSplit lists the growing lists whose next element depends on the list.
func (ls *loopSum) wantSplit(split map[any]*Term) bool {
	any := false
	for _, v := range ls.vars {
		if v.inv || v.leaf == nil || v.leaf.u == nil || v.split != nil {
			continue
		}
		if v.kind == "leaf" && v.leaf.kind == "seq" && v.phi == nil {
			idx, val := writeAt(v.leaf.u, v.leaf.v)
			if idx == nil || !containsLeaf(val, v.leaf) && !hasOpaque(val) {
				continue
			}
			k0 := Sub(idx, Bound(ls.level))
			if !contains(k0, Bound(ls.level)) && entails(Ge(k0, big1)) && entails(Le(k0, Len(v.leaf.init))) {
				split[v.key()] = k0
				any = true
			}
			continue
		}
		if v.kind != "slice" {
			continue
		}
		T := stripPrefix(v.leaf.u, v.leaf.v)
		if T == nil || !containsLeaf(T, v.leaf) && !hasOpaque(T) {
			continue
		}
		one := true
		lift1(T, func(x *Term) *Term {
			if n, ok := constLen(x); !ok || n != 1 {
				one = false
			}
			return C(0)
		})
		if one && entails(Ge(Len(v.leaf.init), big1)) {
			split[v.key()] = Len(v.leaf.init)
			any = true
		}
	}
	return any
}

func hasOpaque(t *Term) bool {
	return anyTerm(t, func(x *Term) bool { return x.op == OApp && strings.HasPrefix(x.str, "?") }) != nil
}

// writeAt splits u = x[idx] := val.
func writeAt(u, x *Term) (idx, val *Term) {
	same := true
	val = lift1(u, func(u *Term) *Term {
		if u.op != OSeq || len(u.args) != 1 || u.args[0].op != OSub {
			same = false
			return C(0)
		}
		b := u.args[0].args[0]
		if b.op != OApp || b.str != "upd" || b.args[0] != wholeSeq(x) || idx != nil && idx != b.args[1] {
			same = false
			return C(0)
		}
		idx = b.args[1]
		return b.args[2]
	})
	if !same {
		return nil, nil
	}
	return idx, val
}

func (v *lvar) key() any {
	if v.phi != nil {
		return v.phi
	}
	return v.obj
}

// rejoin gives the split lists their ordinary closed form on leaving.
func (ls *loopSum) rejoin(st *State) {
	for _, v := range ls.vars {
		if v.last == nil || v.lastQ == nil || st.mem[v.cells] != v.lastQ {
			continue
		}
		st.mem[v.cells] = v.whole
	}
}

func (in *Interp) summariseFrom(f *frame, l *loopInfo, st0 *State, split map[any]*Term, counts map[ssa.Value]*Term) (exits []edge, rets []retState, again bool) {
	saveLevel := in.level
	in.level++
	defer func() { in.level = saveLevel }()
	ls := &loopSum{in: in, level: in.level, counts: counts}
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := ls.build(st0, st0.env[phi], phi.Type())
		v.phi = phi
		v.split = split[any(phi)]
		ls.vars = append(ls.vars, v)
	}
	ne := in.neBound(f, l, st0)
	if b := ne; b != nil {
		if _, set := in.asOrder[b.cond]; !set {
			in.asOrder[b.cond] = b.op
			defer delete(in.asOrder, b.cond)
		}
	}
	known := map[int]bool{}
	saveEv, saveObl := len(in.events), in.oblTotal
	saveLoopBounds := in.bounds
	in.bounds = false
	saveApp := copyPC(in.appendPC)
	header := func(closed bool) *State {
		st := st0.fork()
		for _, v := range ls.vars {
			t := ls.value(st, v, closed)
			if v.phi != nil {
				st.env[v.phi] = t
			} else {
				st.mem[v.obj] = t
			}
		}
		return st
	}
	var hst *State
	pre := false
	nobj := len(in.objs)
	for pass := 0; pass < 12; pass++ {
		in.events, in.oblTotal = in.events[:saveEv], saveObl
		in.appendPC = copyPC(saveApp)
		hst = header(false)
		hv := map[*lvar]*Term{}
		for _, v := range ls.vars {
			if v.phi != nil {
				hv[v] = hst.env[v.phi]
			} else {
				hv[v] = hst.mem[v.obj]
			}
		}
		back, _, _ := in.execMerged(f, l, hst.fork())
		bst := in.mergeEdges(l.header, back)
		if bst == nil {
			// never repeats: plain acyclic code
			in.bounds = saveLoopBounds
			_, ex, rs := in.execMerged(f, l, st0)
			return ex, rs, false
		}
		curPC = bst.pc
		changed := false
		for _, v := range ls.vars {
			var bv *Term
			if v.phi != nil {
				bv = bst.env[v.phi]
			} else {
				bv = bst.mem[v.obj]
			}
			if ls.compare(hst, bst, v, hv[v], bv) {
				changed = true
			}
		}
		for o, t := range bst.mem {
			if known[o] || o >= nobj {
				continue
			}
			init, ok := st0.mem[o]
			if !ok {
				init, ok = in.constMem[o]
			}
			isVar := false
			for _, v := range ls.vars {
				if v.phi == nil && v.obj == o {
					isVar = true
				}
			}
			if !ok || isVar || Restrict(t, bst.pc) == Restrict(init, bst.pc) {
				continue
			}
			known[o] = true
			v := ls.build(st0, init, in.objs[o].typ)
			v.obj = o
			v.split = split[any(o)]
			ls.vars = append(ls.vars, v)
			changed = true
		}
		if ls.fail != "" {
			break
		}
		if !changed && ne != nil && ne.reread != nil && in.headerVal(f, l, hst, ne.reread) != ne.bound {
			delete(in.asOrder, ne.cond)
			if ne = nil; pass == 11 {
				ls.fail = "loop analysis does not converge"
			}
			continue
		}
		if !changed {
			if !pre && ls.preclose() {
				// once more with the induction variables in closed form
				pre = true
				continue
			}
			break
		}
		if pass == 11 {
			ls.fail = "loop analysis does not converge"
		}
	}
	fallback := func(why string) ([]edge, []retState, bool) {
		in.events, in.oblTotal = in.events[:saveEv], saveObl
		in.bounds = saveLoopBounds
		ex, rs := in.havocLoop(f, l, st0, ls, why)
		return ex, rs, false
	}
	if ls.fail != "" {
		return fallback(ls.fail)
	}
	if ls.wantSplit(split) {
		for _, v := range ls.vars {
			if v.phi != nil && v.leaf != nil && v.leaf.kind == "int" && v.leaf.at != nil {
				counts[v.phi] = v.leaf.at
			}
		}
		in.events, in.oblTotal = in.events[:saveEv], saveObl
		in.appendPC = copyPC(saveApp)
		in.bounds = saveLoopBounds
		return nil, nil, true
	}
	for _, v := range ls.vars {
		if v.bad {
			return fallback("list written out of order")
		}
	}
	ls.close(l)
	if ls.fail != "" {
		return fallback(ls.fail)
	}
	// final run with closed forms at iteration B
	ls.appendAlias(st0, l, func() { saveEv = len(in.events) }, saveEv)
	in.events, in.oblTotal = in.events[:saveEv], saveObl
	in.appendPC = copyPC(saveApp)
	in.bounds = saveLoopBounds
	B := Bound(ls.level)
	fst := header(true)
	pc0 := st0.pc
	curPC = pc0
	out, hrets := in.execBlock(f, l.header, fst)
	var inner, hexit []edge
	for _, e := range out {
		if l.body[e.to] && e.to != l.header {
			inner = append(inner, e)
		} else if !l.body[e.to] {
			hexit = append(hexit, e)
		} else {
			return fallback("single block loop")
		}
	}
	if len(hrets) > 0 || len(hexit) != 1 || len(inner) != 1 {
		// self loops: the body is the header block
		return fallback("loop without a counting exit in its header")
	}
	N := tripCount(Restrict(inner[0].st.pc, pc0), B)
	if N == nil || contains(N, B) {
		return fallback("loop exit is not a count: " + short(Restrict(inner[0].st.pc, pc0).String(), 400))
	}
	curPC = pc0
	if !entails(Ge(N, big0)) {
		N = Ite(Ge(N, big0), N, C(0))
	}
	// inside: B < N
	stay := inner[0].st.pc
	back, early, brets := in.exec(f, l.body, l.header, inner)
	// induction step of integer leaves
	if bst := in.mergeEdges(l.header, back); bst != nil {
		curPC = bst.pc
		for _, v := range ls.vars {
			if !ls.stepOK(bst, v, B) {
				return fallback("induction not preserved")
			}
		}
	}
	X := tFalse
	for _, e := range early {
		X = Or(X, e.st.pc)
	}
	for _, r := range brets {
		X = Or(X, r.st.pc)
	}
	backPC := tFalse
	for _, e := range back {
		backPC = Or(backPC, e.st.pc)
	}
	for k, pc := range in.appendPC {
		var o int
		if fmt.Sscanf(k, "%d@", &o); o < nobj && saveApp[k] != pc && And(pc, backPC).op != OFalse {
			in.event("append-twice", "several iterations append to one prefix, which may share memory", l.header.Instrs[len(l.header.Instrs)-1], st0)
		}
	}
	// paths that panic leave neither way
	gone := And(stay, Not(Or(X, backPC)))
	xr := Restrict(Or(X, gone), stay)
	if len(back) == 0 {
		xr = tTrue
	}
	ex := tFalse
	var F *Term
	if xr.op != OFalse {
		lam := mkLam(xr, ls.level)
		ex = existsAtom(N, lam)
		F = firstOf(N, lam)
	}
	// one count per case, so that counts never sit inside terms as choices
	at := func(v, to *Term) *Term {
		return lift1(to, func(x *Term) *Term { return Subst(v, map[*Term]*Term{B: x}, fBound) })
	}
	substState := func(s *State, to *Term, pc *Term) *State {
		n := s.fork()
		n.pc = pc
		for k, v := range n.env {
			if v.flags&fBound != 0 {
				n.env[k] = at(Restrict(v, s.pc), to)
			}
		}
		for k, v := range n.mem {
			if v.flags&fBound != 0 {
				n.mem[k] = at(Restrict(v, s.pc), to)
			}
		}
		return n
	}
	// normal exit
	npc := And(pc0, Not(ex))
	curPC = npc
	if npc.op != OFalse {
		e := hexit[0]
		ls.rejoin(e.st)
		exits = append(exits, edge{e.from, e.to, substState(e.st, N, npc)})
	}
	// the case of each exit, given that the iteration is left
	var cases []*Term
	all := tFalse
	exitCase := func(pc *Term) {
		c := Restrict(Restrict(pc, stay), Or(X, gone))
		cases = append(cases, c)
		all = Or(all, c)
	}
	for _, e := range early {
		exitCase(e.st.pc)
	}
	for _, r := range brets {
		exitCase(r.st.pc)
	}
	if n := len(cases); n > 1 && all != tTrue && gone.op == OFalse {
		// the last one is what the others leave
		rest := tFalse
		for _, c := range cases[:n-1] {
			rest = Or(rest, c)
		}
		cases[n-1] = Not(rest)
	}
	for i, e := range early {
		pc := And(pc0, ex, at(cases[i], F))
		curPC = pc
		if pc.op != OFalse {
			ls.rejoin(e.st)
			exits = append(exits, edge{e.from, e.to, substState(e.st, F, pc)})
		}
	}
	for i, r := range brets {
		pc := And(pc0, ex, at(cases[len(early)+i], F))
		curPC = pc
		if pc.op == OFalse {
			continue
		}
		s := substState(r.st, F, pc)
		v := r.val
		if v.flags&fBound != 0 {
			v = at(Restrict(v, r.st.pc), F)
		}
		rets = append(rets, retState{s, v})
	}
	return exits, rets, false
}

// appendAlias reports loops that append to a slice of somebody else's memory.
func (ls *loopSum) appendAlias(st0 *State, l *loopInfo, keep func(), ev int) {
	in := ls.in
	for _, v := range ls.vars {
		if v.kind != "slice" || v.inv || v.leaf == nil {
			continue
		}
		u := v.leaf.u
		if u == nil || v.leaf.at == wholeSeq(v.leaf.v) {
			continue
		}
		lift1(v.init, func(x *Term) *Term {
			if x.op != OSl || x.args[0].op != OPtr {
				return C(0)
			}
			o := in.objs[x.args[0].a]
			shared := o.kind == "sym" || o.kind == "param" || (o.kind == "global" || o.kind == "pkgstate") && !in.inInit
			full := x.args[3] == x.args[2] // no spare capacity
			if shared && !full && v.leaf.grows {
				in.events = in.events[:ev]
				in.event("append-alias", "append may write into spare capacity of "+o.name, l.header.Instrs[len(l.header.Instrs)-1], st0)
				keep()
				ev = len(in.events)
			}
			return C(0)
		})
	}
}

func copyPC(m map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// stepOK checks the closed form of integer leaves after one more iteration.
func (ls *loopSum) stepOK(bst *State, v *lvar, B *Term) bool {
	if v.kind == "struct" {
		return true
	}
	if v.inv || v.leaf == nil || v.leaf.kind != "int" {
		return true
	}
	if v.phi == nil {
		return true
	}
	if a := v.leaf.at; a.flags&fRec == 0 && !anyRec(a) && a.op != OIte {
		want := Subst(a, map[*Term]*Term{B: Add(B, C(1))}, fBound)
		got := bst.env[v.phi]
		return Restrict(got, bst.pc) == Restrict(want, bst.pc) || entails(Eq(got, want))
	}
	return true
}

func anyRec(t *Term) bool {
	return anyTerm(t, func(x *Term) bool { return x.op == OApp && x.str == "rec" }) != nil
}

// tripCount solves "iteration B is executed" for a count.
func tripCount(c, B *Term) *Term {
	if c.op == OFalse {
		return C(0)
	}
	if c.op != OIte {
		return nil
	}
	atom := c.args[0]
	if !contains(atom, B) {
		x, y := tripCount(c.args[1], B), tripCount(c.args[2], B)
		if x == nil || y == nil {
			return nil
		}
		return Ite(mkNode(atom, tTrue, tFalse), x, y)
	}
	if atom.op != OGe {
		return nil
	}
	pos := c.args[1].op == OTrue && c.args[2].op == OFalse
	neg := c.args[1].op == OFalse && c.args[2].op == OTrue
	if !pos && !neg {
		return nil
	}
	x := atom.args[0]
	k, ps := linParts(x)
	var a *big.Int
	r := CB(k)
	for _, p := range ps {
		if p.t == B {
			a = p.c
		} else {
			r = Add(r, mkLin(big0, []linTerm{p}))
		}
	}
	if a == nil {
		return nil
	}
	num := CB(atom.num)
	switch {
	case neg && a.Sign() > 0: // a*B + r < num
		d := Sub(num, r)
		return ceilT(d, a)
	case pos && a.Sign() < 0: // r - |a|B >= num  <=>  |a|B < r-num+1
		d := Add(Sub(r, num), C(1))
		return ceilT(d, new(big.Int).Neg(a))
	}
	return nil
}

func ceilT(d *Term, a *big.Int) *Term {
	if a.Cmp(big1) == 0 {
		return d
	}
	return FloorDiv(Add(d, CB(new(big.Int).Sub(a, big1))), CB(a))
}

// binderLevel is the level above every binder inside t.
func binderLevel(t *Term) int {
	n := 50
	anyTerm(t, func(x *Term) bool {
		if (x.op == ORep || x.op == OLam) && x.a > n && x.a < 80 {
			n = x.a
		}
		return false
	})
	return n + 1
}

func mkLam(body *Term, level int) *Term {
	lv := binderLevel(body)
	b := Subst(body, map[*Term]*Term{Bound(level): Bound(lv)}, fBound)
	return intern(&Term{op: OLam, a: lv, args: []*Term{b}})
}

// peel splits a body over i < n that tests for the first element (i >= 1):
// its value for i = 0 and the body of the remaining n-1.
func peel(n, body *Term, level int) (head, rest *Term) {
	if lo, _ := rangeOf(n); lo == nil || lo.Sign() <= 0 || n.isConst() {
		return nil, nil
	}
	b := Bound(level)
	g := Ge(b, big1)
	if g.op == OIte {
		g = g.args[0]
	}
	if body.flags&fBound == 0 || anyTerm(body, func(x *Term) bool { return x == g }) == nil {
		return nil, nil
	}
	return Subst(body, map[*Term]*Term{b: C(0)}, fBound), Subst(body, map[*Term]*Term{b: Add(b, C(1))}, fBound)
}

// firstOf: the least i < n that satisfies the lambda, or n.
func firstOf(n, lam *Term) *Term {
	return lift1(n, func(m *Term) *Term {
		if h, r := peel(m, lam.args[0], lam.a); h != nil {
			return Ite(h, C(0), Add(C(1), firstOf(Sub(m, C(1)), mkLam(r, lam.a))))
		}
		return rawApp("first", sortLen, m, lam)
	})
}

// existsAtom: some i < n satisfies the lambda.
func existsAtom(n, lam *Term) *Term {
	return lift1(n, func(m *Term) *Term {
		b := lam.args[0]
		if h, r := peel(m, b, lam.a); h != nil {
			return Or(h, existsAtom(Sub(m, C(1)), mkLam(r, lam.a)))
		}
		if b.op == OFalse || m.isConst() && m.num.Sign() <= 0 {
			return tFalse
		}
		if b.op == OTrue {
			return Ge(m, big1)
		}
		if k, ok := m.constInt(); ok && k <= 64 {
			r := tFalse
			for i := k - 1; i >= 0; i-- {
				r = Or(Subst(b, map[*Term]*Term{Bound(lam.a): C(int64(i))}, fBound), r)
			}
			return r
		}
		return bAtom("exists", m, lam)
	})
}

func closeRep(n, T *Term, level int, mode string) *Term {
	lv := binderLevel(T)
	b := Subst(T, map[*Term]*Term{Bound(level): Bound(lv)}, fBound)
	return mkRep(n, lv, b, mode)
}

// stripPrefix returns T with u = leaf ++ T.
func stripPrefix(u, v *Term) *Term {
	if u.op == OIte {
		a, b := stripPrefix(u.args[1], v), stripPrefix(u.args[2], v)
		if a == nil || b == nil {
			return nil
		}
		return Ite(mkNode(u.args[0], tTrue, tFalse), a, b)
	}
	if u.op != OSeq || len(u.args) == 0 {
		return nil
	}
	g := u.args[0]
	if g.op == OSub && g.args[0] == v && g.args[1].isConst() && g.args[1].num.Sign() == 0 && g.args[2] == lenOfBase(v) {
		return Seq(u.args[1:]...)
	}
	return nil
}

// stripSuffix returns T with u = T ++ leaf.
func stripSuffix(u, v *Term) *Term {
	if u.op == OIte {
		a, b := stripSuffix(u.args[1], v), stripSuffix(u.args[2], v)
		if a == nil || b == nil {
			return nil
		}
		return Ite(mkNode(u.args[0], tTrue, tFalse), a, b)
	}
	if u.op != OSeq || len(u.args) == 0 {
		return nil
	}
	n := len(u.args) - 1
	g := u.args[n]
	if g.op == OSub && g.args[0] == v && g.args[1].isConst() && g.args[1].num.Sign() == 0 && g.args[2] == lenOfBase(v) {
		return Seq(u.args[:n]...)
	}
	return nil
}

// dropStrips uses that a text without white space stays without: the first
// value and every next one are free of it when the current one is.
func (ls *loopSum) dropStrips() {
	for _, x := range ls.leaves {
		if x.kind != "seq" || x.at != nil || x.u == nil {
			continue
		}
		w := rawApp("stripws", sortStr, x.v)
		used := false
		for _, y := range ls.leaves {
			used = used || y.u != nil && contains(y.u, w)
		}
		if !used {
			continue
		}
		m := map[*Term]*Term{w: x.v, wholeSeq(w): wholeSeq(x.v)}
		u := Subst(x.u, m, 0)
		if stripWS(x.init) != x.init || Subst(stripWS(u), m, 0) != u {
			continue
		}
		for _, y := range ls.leaves {
			if y.u != nil && y.at == nil {
				y.u = Subst(y.u, m, 0)
			}
		}
	}
}

// close finds closed forms at iteration Bound(level) for all leaves.
func (ls *loopSum) close(l *loopInfo) {
	B := Bound(ls.level)
	resolved := map[*Term]*Term{}
	for _, x := range ls.leaves {
		if x.at != nil {
			resolved[x.v] = x.at
		}
	}
	unresolved := func(t *Term, self *leaf) bool {
		for _, x := range ls.leaves {
			if x.at == nil && x != self && containsLeaf(t, x) {
				return true
			}
		}
		return false
	}
	setAt := func(x *leaf, at *Term) {
		x.at = at
		resolved[x.v] = at
		if x.kind == "seq" {
			resolved[wholeSeq(x.v)] = at
			resolved[x.v] = at
		}
		if x.kind == "bool" {
			delete(resolved, x.v)
			resolved[x.v.args[0]] = at
		}
	}
	ls.dropStrips()
	cur := func(x *leaf) *Term { return substLeaves(x.u, resolved) }
	for round := 0; round < 20; round++ {
		progress := false
		for _, x := range ls.leaves {
			if x.at != nil || x.u == nil {
				continue
			}
			u := cur(x)
			self := containsLeaf(u, x)
			if !self {
				if !unresolved(u, x) {
					// last value
					prev := Subst(u, map[*Term]*Term{B: Sub(B, C(1))}, fBound)
					init := x.init
					if x.kind == "cells" {
						init = BE(init)
					}
					if prev == init {
						setAt(x, init)
					} else {
						setAt(x, Ite(Ge(B, big1), prev, init))
					}
					progress = true
				}
				continue
			}
			switch x.kind {
			case "int":
				d := Sub(u, x.v)
				if d.op != OIte && !containsLeaf(d, x) && !unresolved(d, x) && !contains(d, B) {
					setAt(x, Add(x.init, MulInt(d, B)))
					progress = true
				}
			case "seq":
				if T := stripPrefix(u, x.v); T != nil && !containsLeaf(T, x) && !unresolved(T, x) {
					x.grows = true
					setAt(x, Concat(x.init, closeRep(B, T, ls.level, "flat")))
					progress = true
				} else if T := stripSuffix(u, x.v); T != nil && !containsLeaf(T, x) && !unresolved(T, x) {
					x.grows = true
					lv := binderLevel(T)
					b := Subst(T, map[*Term]*Term{B: Sub(Sub(B, C(1)), Bound(lv))}, fBound)
					setAt(x, Concat(mkRep(B, lv, b, "flat"), x.init))
					progress = true
				} else if at := ls.mapPattern(x, u, B); at != nil && !unresolved(u, x) {
					setAt(x, at)
					progress = true
				}
			case "bool":
				atom := x.v.args[0]
				hi, lo := cofactor(u, atom, true), cofactor(u, atom, false)
				if containsLeaf(hi, x) || containsLeaf(lo, x) || unresolved(u, x) {
					break
				}
				if hi.op == OTrue {
					setAt(x, Or(x.init, existsAtom(B, mkLam(lo, ls.level))))
					progress = true
				} else if lo.op == OFalse {
					setAt(x, And(x.init, Not(existsAtom(B, mkLam(Not(hi), ls.level)))))
					progress = true
				}
			}
		}
		if progress {
			continue
		}
		// recurrences: smallest dependency closure first
		var best []*leaf
		for _, x := range ls.leaves {
			if x.at != nil || x.u == nil {
				continue
			}
			cl := ls.closure(x, cur)
			if best == nil || len(cl) < len(best) {
				best = cl
			}
		}
		if best == nil {
			break
		}
		ls.makeRec(best, cur, setAt, B)
	}
	for _, x := range ls.leaves {
		if x.at == nil {
			ls.fail = "loop-carried value without closed form"
			return
		}
	}
	for _, v := range ls.vars {
		if v.last != nil {
			t := substLeaves(v.lastU, resolved)
			v.whole = Concat(v.leaf.init, Seq(v.last.init), closeRep(B, Seq(t), ls.level, "flat"), v.rest(v.init, 0, ls.level))
		}
	}
}

func substLeaves(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return Subst(t, m, 0)
}

func containsLeaf(t *Term, x *leaf) bool {
	v := x.v
	if x.kind == "bool" {
		v = x.v.args[0]
	}
	return contains(t, v)
}

func (ls *loopSum) closure(x *leaf, cur func(*leaf) *Term) []*leaf {
	var out []*leaf
	seen := map[*leaf]bool{}
	var visit func(y *leaf)
	visit = func(y *leaf) {
		if seen[y] {
			return
		}
		seen[y] = true
		out = append(out, y)
		u := cur(y)
		for _, z := range ls.leaves {
			if z.at == nil && z.u != nil && containsLeaf(u, z) {
				visit(z)
			}
		}
	}
	visit(x)
	return out
}

// makeRec names a mutually dependent group by its step function.
func (ls *loopSum) makeRec(g []*leaf, cur func(*leaf) *Term, setAt func(*leaf, *Term), B *Term) {
	ren := map[*Term]*Term{}
	for i, x := range g {
		switch x.kind {
		case "bool":
			ren[x.v.args[0]] = bAtom("$rvar", C(int64(i)))
		case "seq":
			r := sortedVar("$rvar", x.v.aux.(*Sort), C(int64(i)))
			ren[wholeSeq(x.v)] = wholeSeq(r)
			ren[x.v] = r
		default:
			ren[x.v] = sortedVar("$rvar", x.v.aux.(*Sort), C(int64(i)))
		}
	}
	var us, inits []*Term
	for _, x := range g {
		us = append(us, Subst(cur(x), ren, 0))
		i := x.init
		if x.kind == "cells" {
			i = BE(i)
		}
		inits = append(inits, i)
	}
	lam := mkLam(Struct(us...), ls.level)
	ini := intern(&Term{op: OLam, a: 99, args: []*Term{Struct(inits...)}})
	for i, x := range g {
		args := []*Term{C(int64(i)), lam, ini, B}
		switch x.kind {
		case "bool":
			setAt(x, bAtom("rec", args...))
		case "seq":
			setAt(x, wholeSeq(rawApp("rec", x.v.aux.(*Sort), args...)))
		case "int":
			setAt(x, rawApp("rec", &Sort{kind: 'i', lo: x.v.lo, hi: x.v.hi}, args...))
		default:
			setAt(x, rawApp("rec", x.v.aux.(*Sort), args...))
		}
	}
}

// mapPattern: x[k(B)] = v(B) with k stepping by one.
func (ls *loopSum) mapPattern(x *leaf, u, B *Term) *Term {
	idx, val := writeAt(u, x.v)
	if idx == nil {
		return nil
	}
	if containsLeaf(val, x) || containsLeaf(idx, x) {
		return nil
	}
	if k0 := Sub(idx, B); !contains(k0, B) {
		return Splice(x.init, k0, closeRep(B, val, ls.level, ""))
	}
	if k0 := Add(idx, B); !contains(k0, B) {
		n := Sub(Sub(B, C(1)), Bound(98))
		v := Subst(val, map[*Term]*Term{B: n}, fBound)
		lv := binderLevel(v)
		v = Subst(v, map[*Term]*Term{Bound(98): Bound(lv)}, fBound)
		return Splice(x.init, Add(Sub(k0, B), C(1)), mkRep(B, lv, v, ""))
	}
	return nil
}

// havocLoop gives up: everything the loop may change is unknown afterwards.
func (in *Interp) havocLoop(f *frame, l *loopInfo, st0 *State, ls *loopSum, why string) (exits []edge, rets []retState) {
	if os.Getenv("BIPS_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "loop given up:", why, in.prog.Pos(l.header.Instrs[len(l.header.Instrs)-1].Pos()))
	}
	in.event("loop", why, l.header.Instrs[len(l.header.Instrs)-1], st0)
	st := st0.fork()
	nobj := len(in.objs)
	for pass := 0; pass < 6; pass++ {
		changed := false
		for _, ins := range l.header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if pass == 0 {
				st.env[phi] = in.symValue(phi.Type(), st, freshName("loop "+phi.Comment))
			}
		}
		saveEv, saveObl, sb := len(in.events), in.oblTotal, in.bounds
		in.bounds = false
		back, _, _ := in.execMerged(f, l, st.fork())
		in.events, in.oblTotal, in.bounds = in.events[:saveEv], saveObl, sb
		if b := in.mergeEdges(l.header, back); b != nil {
			for o, t := range b.mem {
				if o < nobj && t != st.mem[o] {
					if old, ok := st.mem[o]; ok || in.constMem[o] != nil {
						if !ok {
							old = in.constMem[o]
						}
						st.mem[o] = havocLike(old, fmt.Sprintf("loop memory %d", pass))
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// leaving after an unknown number of iterations
	back, exits, rets := in.execMerged(f, l, st)
	_ = back
	for i := range exits {
		exits[i].st.pc = And(exits[i].st.pc, opaque("loop exit", sortBool))
	}
	for i := range rets {
		rets[i].st.pc = And(rets[i].st.pc, opaque("loop exit", sortBool))
	}
	return exits, rets
}
