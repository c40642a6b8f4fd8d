package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// dropTop writes x - 2^k, for x of k+1 bits whose top bit the path sets, as the
// low k bits of x.
func dropTop(x *Term) *Term {
	k, ps := linParts(x)
	if len(ps) != 1 || k.Sign() >= 0 || ps[0].c.Cmp(big1) != 0 {
		return x
	}
	n := new(big.Int).Neg(k)
	w := n.BitLen() - 1
	a := ps[0].t
	if n.Cmp(pow2(w)) != 0 || a.lo == nil || a.lo.Sign() < 0 || a.hi == nil || a.hi.BitLen() > w+1 {
		return x
	}
	return Slice(a, 0, w)
}

// wrapInt reduces an exact integer to the machine type t.
func wrapInt(v *Term, t types.Type) *Term {
	w, signed, ok := intWidth(t)
	if !ok {
		return v
	}
	wrap := func(x *Term, exact bool) *Term {
		lo, hi, _ := typeRange(t)
		if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
			return x
		}
		if inRange(x, lo, hi) {
			return dropTop(x)
		}
		if exact {
			return nil
		}
		m := CB(pow2(w))
		if !signed {
			if x.lo != nil && x.lo.Sign() >= 0 {
				return Slice(x, 0, w)
			}
			return ModInt(x, m)
		}
		h := CB(pow2(w - 1))
		return Sub(ModInt(Add(x, h), m), h)
	}
	var rec func(x, pc *Term) *Term
	rec = func(x, pc *Term) *Term {
		if x.op == OIte {
			a := x.args[0]
			return Ite(a, rec(x.args[1], And(pc, a)), rec(x.args[2], And(pc, Not(a))))
		}
		if x.op == OTab {
			return tabMap(x, func(y *Term) *Term { return wrapInt(y, t) })
		}
		if r := wrap(x, true); r != nil {
			return r
		}
		if pc != tTrue {
			// the facts of the branch the value is on
			if here := And(curPC, pc); here.op != OFalse && here != curPC {
				save := curPC
				curPC = here
				r := wrap(x, false)
				curPC = save
				return r
			}
		}
		return wrap(x, false)
	}
	return rec(v, tTrue)
}

func (in *Interp) set(st *State, v ssa.Value, t *Term) { st.env[v] = t }

func (in *Interp) instr(f *frame, st *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := in.newObj("alloc", x.Comment, x.Type().(*types.Pointer).Elem())
		st.mem[o] = zeroValue(in.objs[o].typ)
		in.set(st, x, ptrTo(o))
	case *ssa.BinOp:
		op := x.Op
		if o, ok := in.asOrder[x]; ok {
			op = o
		}
		in.set(st, x, in.binop(st, op, in.val(st, x.X), in.val(st, x.Y), x.X.Type(), x))
	case *ssa.UnOp:
		in.unop(st, x)
	case *ssa.Call:
		v := in.call(st, &x.Call, x, x.Type())
		if st.pc.op != OFalse {
			in.set(st, x, v)
		}
	case *ssa.ChangeType:
		in.set(st, x, in.val(st, x.X))
	case *ssa.ChangeInterface:
		in.set(st, x, in.val(st, x.X))
	case *ssa.Convert:
		in.set(st, x, in.convert(st, in.val(st, x.X), x.X.Type(), x.Type(), x))
	case *ssa.MultiConvert:
		in.set(st, x, in.convert(st, in.val(st, x.X), x.X.Type(), x.Type(), x))
	case *ssa.Extract:
		in.set(st, x, in.extract(in.val(st, x.Tuple), x.Index))
	case *ssa.Field:
		in.set(st, x, navStep(in.val(st, x.X), C(int64(x.Field))))
	case *ssa.FieldAddr:
		p := in.val(st, x.X)
		in.need(Not(IsNilPtr(p)), "nil pointer dereference", x, st)
		in.set(st, x, extendPtr(p, C(int64(x.Field))))
	case *ssa.Index:
		s, i := in.val(st, x.X), in.val(st, x.Index)
		if s.op == OSl || s.op == ONil {
			s = in.View(st, s)
		}
		in.need(inBounds(i, Len(s)), "index out of range", x, st)
		in.set(st, x, At(s, i))
	case *ssa.IndexAddr:
		in.set(st, x, in.indexAddr(st, in.val(st, x.X), in.val(st, x.Index), x.X.Type(), x))
	case *ssa.Lookup:
		in.lookup(st, x)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		bs := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = in.val(st, b)
		}
		in.set(st, x, intern(&Term{op: OClosure, str: fn.String(), aux: fn, args: bs}))
	case *ssa.MakeInterface:
		in.set(st, x, mkIface(typeName(x.X.Type()), in.val(st, x.X), x.X.Type()))
	case *ssa.MakeMap:
		o := in.newObj("alloc", "map", x.Type())
		st.mem[o] = tEmpty
		in.set(st, x, ptrTo(o))
	case *ssa.MakeSlice:
		n, c := in.val(st, x.Len), in.val(st, x.Cap)
		in.need(And(Ge(n, big0), Le(n, c)), "make with negative or oversized length", x, st)
		o := in.newObj("alloc", "make", nil)
		in.objs[o].elem = x.Type().Underlying().(*types.Slice).Elem()
		st.mem[o] = lift1(c, func(k *Term) *Term {
			z := zeroValue(x.Type().Underlying().(*types.Slice).Elem())
			return Seq(segFill(z, k))
		})
		in.set(st, x, mkSl(ptrTo(o), C(0), n, c))
	case *ssa.MapUpdate:
		in.mapUpdate(st, in.val(st, x.Map), in.val(st, x.Key), in.val(st, x.Value), x)
	case *ssa.Range:
		in.rangeInit(st, x)
	case *ssa.Next:
		in.next(st, x)
	case *ssa.Slice:
		in.sliceInstr(st, x)
	case *ssa.SliceToArrayPointer:
		s := in.val(st, x.X)
		at := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		in.need(Ge(in.SliceLen(st, s), big.NewInt(at.Len())), "slice too short for array conversion", x, st)
		o := in.newObj("snapshot", "array view", at)
		if !onlyLoaded(x) {
			in.objs[o].view = lift1(live(st, s), func(y *Term) *Term { return in.sliceOf(st, y, C(0), C(at.Len()), C(at.Len()), -1) })
			in.set(st, x, ptrTo(o))
			break
		}
		st.mem[o] = SubSeq(in.View(st, s), C(0), C(at.Len()))
		in.set(st, x, ptrTo(o))
	case *ssa.Store:
		p := in.val(st, x.Addr)
		in.need(Not(IsNilPtr(p)), "nil pointer store", x, st)
		in.Store(st, p, in.val(st, x.Val), x)
	case *ssa.TypeAssert:
		in.typeAssert(st, x)
	case *ssa.Defer:
		in.doDefer(st, x)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			in.callDeferred(st, ds[i])
			if st.pc.op == OFalse {
				return
			}
		}
	case *ssa.Go:
		in.event("concurrency", "starts a goroutine", x, st)
	case *ssa.Send:
		in.event("concurrency", "channel send", x, st)
	case *ssa.Select:
		in.event("concurrency", "select", x, st)
		in.set(st, x, in.symValue(x.Type(), st, freshName("select")))
	default:
		if v, ok := ins.(ssa.Value); ok {
			in.event("unhandled", fmt.Sprintf("instruction %T", ins), ins, st)
			in.set(st, v, in.symValue(v.Type(), st, freshName(fmt.Sprintf("%T", ins))))
		}
	}
}

func freshName(why string) string {
	opaqueCount++
	return fmt.Sprintf("?%d:%s", opaqueCount, why)
}

func mkIface(name string, v *Term, t types.Type) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	return intern(&Term{op: OIface, str: name, args: []*Term{v}, aux: t})
}

func IsNilPtr(p *Term) *Term {
	switch p.op {
	case OIte:
		return lift1(p, IsNilPtr)
	case ONil:
		return tTrue
	}
	return tFalse
}

func inBounds(i, n *Term) *Term { return And(Ge(i, big0), Lt(i, n)) }

func extendPtr(p, step *Term) *Term {
	return lift1(p, func(x *Term) *Term {
		switch x.op {
		case OPtr:
			return ptrTo(x.a, append(append([]*Term(nil), x.args...), step)...)
		case ONil, OPoison:
			return x
		case OTab:
			return tabMap(x, func(y *Term) *Term { return extendPtr(y, step) })
		}
		return opaque("address in unknown", sortObj)
	})
}

func (in *Interp) extract(t *Term, i int) *Term {
	return lift1(t, func(x *Term) *Term {
		if x.op == OTuple && i < len(x.args) {
			return x.args[i]
		}
		if x.op == OPoison {
			return x
		}
		return opaque("component of unknown result", sortObj)
	})
}

func (in *Interp) unop(st *State, x *ssa.UnOp) {
	v := in.val(st, x.X)
	switch x.Op {
	case token.MUL:
		v = live(st, v)
		in.need(Not(IsNilPtr(v)), "nil pointer dereference", x, st)
		r := in.Load(st, v)
		if b, ok := under(x.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r = structured(r)
		}
		in.set(st, x, r)
	case token.NOT:
		in.set(st, x, Not(v))
	case token.SUB:
		in.set(st, x, wrapInt(Neg(v), x.Type()))
	case token.XOR:
		_, hi, ok := typeRange(x.Type())
		_, signed, _ := intWidth(x.Type())
		switch {
		case ok && !signed:
			in.set(st, x, Sub(CB(hi), v))
		case ok:
			in.set(st, x, Sub(C(-1), v))
		default:
			in.set(st, x, opaque("complement", sortAny))
		}
	default:
		in.event("concurrency", "channel receive", x, st)
		in.set(st, x, in.symValue(x.Type(), st, freshName("receive")))
	}
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, t types.Type, pos ssa.Instruction) *Term {
	bt, _ := under(t).(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch op {
	case token.EQL, token.NEQ:
		r := in.equal(st, a, b, t)
		if op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			c := CompareSeq(a, b)
			if sa, ok := litOf(a); ok {
				if sb, ok := litOf(b); ok {
					c = C(int64(strings.Compare(sa, sb)))
				}
			}
			a, b = c, C(0)
		} else if !isInt {
			return opaque("comparison", sortBool)
		}
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		}
		return Le(b, a)
	}
	if isStr && op == token.ADD {
		return Concat(a, b)
	}
	if bt != nil && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	if !isInt {
		return opaque("operation "+op.String(), sortObj)
	}
	w, signed, _ := intWidth(t)
	switch op {
	case token.ADD:
		return wrapInt(Add(a, b), t)
	case token.SUB:
		return wrapInt(Sub(a, b), t)
	case token.MUL:
		return wrapInt(MulInt(a, b), t)
	case token.QUO, token.REM:
		in.need(Not(Eq(b, C(0))), "division by zero", pos, st)
		return lift2(a, b, func(x, y *Term) *Term { return divRem(op, x, y) })
	case token.AND:
		if signed && !(nonNeg(a) || nonNeg(b)) {
			break
		}
		return bitLift(a, b, AndInt)
	case token.OR:
		if signed && !(nonNeg(a) && nonNeg(b)) {
			break
		}
		return bitLift(a, b, OrInt)
	case token.XOR:
		if signed && !(nonNeg(a) && nonNeg(b)) {
			break
		}
		return bitLift(a, b, XorInt)
	case token.AND_NOT:
		if signed && !(nonNeg(a) && nonNeg(b)) {
			break
		}
		if w, _, ok := intWidth(t); ok && b.isConst() && b.num.Sign() >= 0 && b.num.BitLen() <= w {
			m := new(big.Int).Sub(pow2(w), big1)
			return bitLift(a, CB(m.AndNot(m, b.num)), AndInt)
		}
		return Sub(a, bitLift(a, b, AndInt))
	case token.SHL, token.SHR:
		in.need(Ge(b, big0), "negative shift", pos, st)
		return lift2(a, b, func(x, y *Term) *Term {
			k, ok := y.constInt()
			if y.op == OTab {
				return tabMap(y, func(z *Term) *Term { return in.binop(st, op, x, z, t, pos) })
			}
			if !ok {
				return App(op.String(), intSort(t), x, y)
			}
			if k >= w {
				if op == token.SHR && signed && !nonNeg(x) {
					return Ite(Ge(x, big0), C(0), C(-1))
				}
				return C(0)
			}
			if op == token.SHL {
				if !signed || nonNeg(x) {
					return wrapInt(Shl(x, k), t)
				}
				return wrapInt(MulCB(x, pow2(k)), t)
			}
			if nonNeg(x) {
				return Shr(x, k)
			}
			return FloorDiv(x, CB(pow2(k)))
		})
	}
	return App("op"+op.String(), intSort(t), a, b)
}

func bitLift(a, b *Term, f func(x, y *Term) *Term) *Term { return f(a, b) }

func nonNeg(x *Term) bool { return inRange(x, big0, nil) }

func divRem(op token.Token, x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.num.Sign() != 0 {
		q, r := new(big.Int).QuoRem(x.num, y.num, new(big.Int))
		if op == token.QUO {
			return CB(q)
		}
		return CB(r)
	}
	if nonNeg(x) && y.isConst() && y.num.Sign() > 0 {
		if op == token.QUO {
			return FloorDiv(x, y)
		}
		return ModInt(x, y)
	}
	if y.isConst() && y.num.Sign() > 0 {
		// truncated division of a possibly negative value: sign cases
		n := Neg(x)
		if op == token.QUO {
			return Ite(Ge(x, big0), FloorDiv(x, y), Neg(FloorDiv(n, y)))
		}
		return Ite(Ge(x, big0), ModInt(x, y), Neg(ModInt(n, y)))
	}
	if op == token.QUO {
		return App("quo", sortAny, x, y)
	}
	return App("rem", sortAny, x, y)
}

func (in *Interp) equal(st *State, a, b *Term, t types.Type) *Term {
	return EqVal(a, b)
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type, pos ssa.Instruction) *Term {
	uf, ut := under(from), under(to)
	bf, okF := uf.(*types.Basic)
	bt, okT := ut.(*types.Basic)
	switch {
	case okF && okT && bt.Info()&types.IsInteger != 0 && bf.Info()&types.IsInteger != 0:
		return wrapInt(v, to)
	case okF && okT && bt.Info()&types.IsString != 0 && bf.Info()&types.IsString != 0:
		return v
	case okF && okT && bt.Info()&types.IsString != 0 && bf.Info()&types.IsInteger != 0:
		return lift1(v, func(x *Term) *Term {
			if k, ok := x.constInt(); ok {
				return Str(string(rune(k)))
			}
			if lo, hi := rangeOf(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(128)) < 0 {
				return Seq(x)
			}
			return appVal("utf8", sortStr, x)
		})
	case okT && bt.Info()&types.IsString != 0:
		if s, ok := uf.(*types.Slice); ok {
			if w, _, ok := intWidth(s.Elem()); ok && w == 8 {
				return in.View(st, v)
			}
			// runes: ascii only
			c := in.View(st, v)
			if isSeq(c) && c.op == OSeq {
				ok := true
				for _, e := range c.args {
					if e.op == OLit {
						continue
					}
					if isSeg(e) || e.hi == nil || e.hi.Cmp(big.NewInt(128)) >= 0 {
						ok = false
					}
				}
				if ok {
					return c
				}
			}
			return appVal("runes2str", sortStr, c)
		}
	case okF && bf.Info()&types.IsString != 0:
		if s, ok := ut.(*types.Slice); ok {
			if w, _, ok := intWidth(s.Elem()); ok && w == 8 {
				return in.newSlice(st, v, false)
			}
			if l, ok := litOf(v); ok {
				var xs []*Term
				for _, r := range l {
					xs = append(xs, C(int64(r)))
				}
				return in.newSlice(st, Seq(xs...), false)
			}
			return in.newSlice(st, wholeSeq(rawApp("runes", &Sort{kind: 's', elem: intSort(types.Typ[types.Int32])}, v)), false)
		}
	}
	if types.Identical(uf, ut) {
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	if okT && bt.Info()&types.IsInteger != 0 {
		return rawApp(freshName("conversion"), intSort(to))
	}
	return opaque("conversion", sortObj)
}

// live drops the alternatives of a gated reference that the path excludes.
func live(st *State, v *Term) *Term {
	if v.op == OIte {
		return Restrict(v, st.pc)
	}
	return v
}

func (in *Interp) indexAddr(st *State, p, i *Term, t types.Type, pos ssa.Instruction) *Term {
	p = live(st, p)
	n := int64(-1)
	if pt, ok := under(t).(*types.Pointer); ok {
		if a, ok := under(pt.Elem()).(*types.Array); ok {
			n = a.Len()
		}
	}
	cond := lift1(p, func(x *Term) *Term {
		switch x.op {
		case OSl:
			return inBounds(i, x.args[2])
		case OPtr:
			if n >= 0 {
				return inBounds(i, C(n))
			}
		case ONil, OPoison:
			return tFalse
		case OTab:
			return inBounds(i, in.SliceLen(st, x))
		}
		return tTrue
	})
	in.need(cond, "index out of range", pos, st)
	return in.elemAddr(st, p, i)
}

func (in *Interp) elemAddr(st *State, p, i *Term) *Term {
	return lift1(p, func(x *Term) *Term {
		switch x.op {
		case OSl:
			return extendPtr(x.args[0], Add(x.args[1], i))
		case OPtr:
			return extendPtr(x, i)
		case ONil, OPoison:
			return tPoison
		case OTab:
			return tabMap(x, func(y *Term) *Term { return in.elemAddr(st, y, i) })
		}
		return opaque("index of unknown", sortObj)
	})
}

// onlyLoaded reports whether a pointer value is used for whole loads only.
func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		default:
			_ = u
			return false
		}
	}
	return true
}

func (in *Interp) sliceInstr(st *State, x *ssa.Slice) {
	v := in.val(st, x.X)
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return in.val(st, y)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = C(0)
	}
	arr := int64(-1)
	if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
		arr = under(pt.Elem()).(*types.Array).Len()
	}
	v = live(st, v)
	if isSeq(v) {
		v = structured(v)
	}
	cond := lift1(v, func(s *Term) *Term { return in.sliceCond(s, lo, hi, mx, arr) })
	in.need(cond, "slice bounds out of range", x, st)
	r := lift1(v, func(s *Term) *Term { return in.sliceOf(st, s, lo, hi, mx, arr) })
	in.set(st, x, r)
}

func (in *Interp) sliceCond(s, lo, hi, mx *Term, arr int64) *Term {
	switch s.op {
	case OSeq: // string
		if hi == nil {
			hi = Len(s)
		}
		return And(Ge(lo, big0), Le(lo, hi), Le(hi, Len(s)))
	case OSl:
		if hi == nil {
			hi = s.args[2]
		}
		c := s.args[3]
		if mx == nil {
			mx = c
		}
		ok := And(Ge(lo, big0), Le(lo, hi))
		// within the capacity; within the length is enough
		n := s.args[2]
		if mx == c {
			return And(ok, Or(Le(hi, n), Le(hi, c)))
		}
		return And(ok, Le(hi, mx), Or(Le(mx, n), Le(mx, c)))
	case OPtr:
		n := C(arr)
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		return And(Ge(lo, big0), Le(lo, hi), Le(hi, mx), Le(mx, n))
	case ONil:
		if hi == nil {
			hi = C(0)
		}
		return And(Eq(lo, C(0)), Eq(hi, C(0)))
	case OTab:
		return tabMap(s, func(y *Term) *Term { return in.sliceCond(y, lo, hi, mx, arr) })
	}
	return tTrue
}

func (in *Interp) sliceOf(st *State, s, lo, hi, mx *Term, arr int64) *Term {
	switch s.op {
	case OSeq: // string
		if hi == nil {
			hi = Len(s)
		}
		return SubSeq(s, lo, hi)
	case OSl:
		if hi == nil {
			hi = s.args[2]
		}
		if mx == nil {
			mx = s.args[3]
		}
		return mkSl(s.args[0], Add(s.args[1], lo), Sub(hi, lo), Sub(mx, lo))
	case OPtr:
		n := C(arr)
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if w := in.objs[s.a].view; w != nil && len(s.args) == 0 {
			return lift1(w, func(y *Term) *Term { return in.sliceOf(st, y, lo, hi, mx, -1) })
		}
		return mkSl(s, lo, Sub(hi, lo), Sub(mx, lo))
	case OTab:
		return tabMap(s, func(y *Term) *Term { return in.sliceOf(st, y, lo, hi, mx, arr) })
	case ONil, OPoison:
		return s
	}
	return opaque("slice of unknown", sortObj)
}

// ---- maps

// mapEntries returns the entries of a constant map in insertion order.
func mapEntries(log *Term) (ks, vs []*Term, ok bool) {
	if log.op != OSeq {
		return nil, nil, false
	}
	idx := map[*Term]int{}
	for _, e := range log.args {
		if e.op != OTuple {
			return nil, nil, false
		}
		k := e.args[0]
		if _, lit := litOf(k); !lit && k.op != OConst {
			return nil, nil, false
		}
		if j, dup := idx[k]; dup {
			vs[j] = e.args[1]
			continue
		}
		idx[k] = len(ks)
		ks = append(ks, k)
		vs = append(vs, e.args[1])
	}
	return ks, vs, true
}

func (in *Interp) mapGet(st *State, m, k *Term, vt types.Type) (v, found *Term) {
	if m.op == OIte || k.op == OIte {
		pair := lift2(m, k, func(a, b *Term) *Term {
			v, f := in.mapGet(st, a, b, vt)
			return Tuple(v, f)
		})
		return in.extract(pair, 0), in.extract(pair, 1)
	}
	switch m.op {
	case ONil, OPoison:
		return zeroValue(vt), tFalse
	case OPtr:
	default:
		return in.symValue(vt, st, freshName("map value")), opaque("map lookup", sortBool)
	}
	log := in.Load(st, m)
	return in.logGet(st, log, k, vt)
}

func (in *Interp) logGet(st *State, log, k *Term, vt types.Type) (v, found *Term) {
	if log.op == OIte {
		pair := lift1(log, func(a *Term) *Term {
			v, f := in.logGet(st, a, k, vt)
			return Tuple(v, f)
		})
		return in.extract(pair, 0), in.extract(pair, 1)
	}
	if log.op != OSeq {
		return in.symValue(vt, st, freshName("map value")), opaque("map lookup", sortBool)
	}
	if len(log.args) == 0 {
		return zeroValue(vt), tFalse
	}
	// reverse lookup of a word of a list of distinct words
	if in.wordsOf != nil && isSeq(k) && log == indexLog(in.wordsOf) {
		if i := in.wordIndex(k); i != nil {
			return i, tTrue
		}
	}
	// constant contents
	if ks, vs, ok := mapEntries(log); ok {
		if _, lit := litOf(k); lit || k.op == OConst {
			for i := range ks {
				if ks[i] == k {
					return vs[i], tTrue
				}
			}
			return zeroValue(vt), tFalse
		}
		if k.isInt() && len(ks) > 0 && ks[0].op == OConst {
			ord := make([]int, len(ks))
			for i := range ord {
				ord[i] = i
			}
			sort.Slice(ord, func(a, b int) bool { return ks[ord[a]].num.Cmp(ks[ord[b]].num) < 0 })
			keys := make([]*big.Int, len(ks))
			kt := make([]*Term, len(ks)+1)
			vals := make([]*Term, len(ks))
			kt[0] = k
			for i, j := range ord {
				keys[i], kt[i+1], vals[i] = ks[j].num, ks[j], vs[j]
			}
			if len(ks) <= 6 && k.op != OTab {
				// few keys: plain gates
				v, found = zeroValue(vt), tFalse
				for i := len(keys) - 1; i >= 0; i-- {
					e := Eq(k, CB(keys[i]))
					v = Ite(e, vals[i], v)
					found = Or(e, found)
				}
				return v, found
			}
			found = bAtomN("inset", kt...)
			return Ite(found, mkTab(k, keys, vals), zeroValue(vt)), found
		}
		if isSeq(k) && len(ks) <= 40 {
			v, found = zeroValue(vt), tFalse
			for i := len(ks) - 1; i >= 0; i-- {
				e := EqSeq(k, ks[i])
				v = Ite(e, vs[i], v)
				found = Or(e, found)
			}
			return v, found
		}
		base := seqBase(log)
		return in.symMapVal(st, vt, base, k), bAtomN("mapin", base, k)
	}
	// symbolic log: newest entries first while they are single tuples
	last := log.args[len(log.args)-1]
	if last.op == OTuple {
		e := EqVal(k, last.args[0])
		rv, rf := in.logGet(st, Seq(log.args[:len(log.args)-1]...), k, vt)
		return Ite(e, last.args[1], rv), Or(e, rf)
	}
	base := seqBase(log)
	return in.symMapVal(st, vt, base, k), bAtomN("mapin", base, k)
}

func (in *Interp) symMapVal(st *State, vt types.Type, base, k *Term) *Term {
	found := bAtomN("mapin", base, k)
	var v *Term
	if s := in.sortOfMap[base.str]; s != nil {
		v = appVal("mapget", s, base, k)
	} else {
		v = in.symValue(vt, st, "mapget", base, k)
	}
	return Ite(found, v, zeroValue(vt))
}

func (in *Interp) lookup(st *State, x *ssa.Lookup) {
	m, k := in.val(st, x.X), in.val(st, x.Index)
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok { // string indexing
		m = structured(m)
		in.need(inBounds(k, Len(m)), "index out of range", x, st)
		in.set(st, x, At(m, k))
		return
	}
	v, f := in.mapGet(st, m, k, mt.Elem())
	if x.CommaOk {
		in.set(st, x, Tuple(v, f))
	} else {
		in.set(st, x, v)
	}
}

func (in *Interp) mapUpdate(st *State, m, k, v *Term, pos ssa.Instruction) {
	if m.op == ONil {
		in.need(tFalse, "assignment to entry in nil map", pos, st)
		return
	}
	if m.op != OPtr {
		in.event("unknown-store", "update of a map the analysis cannot resolve", pos, st)
		return
	}
	in.noteWrite(st, m, pos)
	log := in.Load(st, m)
	in.Store(st, m, Concat(log, Seq(Tuple(k, v))), pos)
}

// ---- iteration over maps and strings

func (in *Interp) rangeInit(st *State, x *ssa.Range) {
	o := in.newObj("alloc", "iterator", nil)
	v := in.val(st, x.X)
	var items *Term
	if _, ok := under(x.X.Type()).(*types.Map); ok {
		log := tEmpty
		if v.op == OPtr {
			log = in.Load(st, v)
		}
		if ks, vs, ok := mapEntries(log); ok {
			xs := make([]*Term, len(ks))
			for i := range ks {
				j := i
				if in.reverse {
					j = len(ks) - 1 - i
				}
				xs[i] = Tuple(ks[j], vs[j])
			}
			items = Seq(xs...)
		}
	} else if s, ok := litOf(v); ok {
		var xs []*Term
		for i := 0; i < len(s); {
			r, n := utf8.DecodeRuneInString(s[i:])
			xs = append(xs, Tuple(C(int64(i)), C(int64(r))))
			i += n
		}
		items = Seq(xs...)
	} else if v.op == OSeq && asciiOnly(v) {
		// one element per byte
		if n, ok := constLen(v); ok {
			var xs []*Term
			for i, e := range elems(v) {
				xs = append(xs, Tuple(C(int64(i)), e))
			}
			_ = n
			items = Seq(xs...)
		}
	}
	if items == nil {
		items = wholeSeq(rawApp(freshName("iteration"), &Sort{kind: 's', elem: sortObj}))
	}
	st.mem[o] = Struct(items, C(0))
	in.set(st, x, ptrTo(o))
}

// asciiOnly: every element is below 128.
func asciiOnly(s *Term) bool {
	for _, e := range s.args {
		switch e.op {
		case OLit:
			for i := 0; i < len(e.str); i++ {
				if e.str[i] >= 128 {
					return false
				}
			}
		case OSub:
			if e.args[0].op == OApp && (e.args[0].str == "hex" || e.args[0].str == "dec") {
				continue
			}
			return false
		case OFill:
			if h := e.args[0].hi; h == nil || h.Cmp(big.NewInt(128)) >= 0 {
				return false
			}
		default:
			if e.hi == nil || e.hi.Cmp(big.NewInt(128)) >= 0 || isSeg(e) {
				return false
			}
		}
	}
	return true
}

func (in *Interp) next(st *State, x *ssa.Next) {
	it := in.val(st, x.Iter)
	var kt, vt types.Type
	tup := x.Type().(*types.Tuple)
	kt, vt = tup.At(1).Type(), tup.At(2).Type()
	if it.op != OPtr {
		in.set(st, x, in.symValue(x.Type(), st, freshName("next")))
		return
	}
	c := in.Load(st, it)
	items, pos := navStep(c, C(0)), navStep(c, C(1))
	more := Lt(pos, Len(items))
	zero := func(t types.Type) *Term {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return tNil
		}
		return zeroValue(t)
	}
	e := tPoison
	if more.op != OFalse {
		e = At(items, pos)
	}
	var k, v *Term
	switch e.op {
	case OTuple:
		k, v = e.args[0], e.args[1]
	case OPoison:
		k, v = zero(kt), zero(vt)
	default:
		k = in.symValue(kt, st, freshName("iteration key"))
		v = in.symValue(vt, st, freshName("iteration value"))
	}
	st.mem[it.a] = Struct(items, Ite(more, Add(pos, C(1)), pos))
	in.set(st, x, Tuple(more, Ite(more, k, zero(kt)), Ite(more, v, zero(vt))))
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) {
	v := in.val(st, x.X)
	r := lift1(v, func(y *Term) *Term {
		if y.op == OIface {
			if types.IsInterface(x.AssertedType) {
				return Tuple(y, opaqueIface(y, x.AssertedType))
			}
			if y.str == typeName(x.AssertedType) {
				return Tuple(y.args[0], tTrue)
			}
			return Tuple(zeroValue(x.AssertedType), tFalse)
		}
		if y.op == ONil {
			return Tuple(zeroValue(x.AssertedType), tFalse)
		}
		return Tuple(in.symValue(x.AssertedType, st, freshName("type assertion")), opaque("type assertion", sortBool))
	})
	if x.CommaOk {
		in.set(st, x, r)
		return
	}
	in.need(in.extract(r, 1), "type assertion", x, st)
	in.set(st, x, in.extract(r, 0))
}

func opaqueIface(y *Term, t types.Type) *Term {
	if ct, ok := y.aux.(types.Type); ok {
		if it, ok := under(t).(*types.Interface); ok {
			return boolT(types.Implements(ct, it))
		}
	}
	return opaque("interface assertion", sortBool)
}

// ---- defers

func (in *Interp) doDefer(st *State, x *ssa.Defer) {
	d := deferred{call: &x.Call, pos: x}
	if x.Call.IsInvoke() {
		d.fn = in.val(st, x.Call.Value)
	} else if x.Call.StaticCallee() == nil {
		d.fn = in.val(st, x.Call.Value)
	} else if _, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		d.fn = in.val(st, x.Call.Value)
	}
	for _, a := range x.Call.Args {
		d.args = append(d.args, in.val(st, a))
	}
	st.defers = append(append([]deferred(nil), st.defers...), d)
}

func (in *Interp) callDeferred(st *State, d deferred) {
	in.callWith(st, d.call, d.fn, d.args, d.pos, d.call.Signature().Results())
}

// ---- calls

func (in *Interp) call(st *State, c *ssa.CallCommon, pos ssa.Instruction, rt types.Type) *Term {
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.val(st, a)
	}
	var fv *Term
	if c.IsInvoke() || c.StaticCallee() == nil {
		fv = in.val(st, c.Value)
	} else if _, ok := c.Value.(*ssa.MakeClosure); ok {
		fv = in.val(st, c.Value)
	}
	return in.callWith(st, c, fv, args, pos, rt)
}

func (in *Interp) callWith(st *State, c *ssa.CallCommon, fv *Term, args []*Term, pos ssa.Instruction, rt types.Type) *Term {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, b.Name(), c, args, pos, rt)
	}
	if c.IsInvoke() {
		return in.invoke(st, fv, c.Method, args, pos, rt)
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []*Term
		if fv != nil && fv.op == OClosure {
			free = fv.args
		}
		return in.callFn(st, fn, args, free, pos, rt)
	}
	return in.callValue(st, fv, args, pos, rt)
}

func (in *Interp) callValue(st *State, fv *Term, args []*Term, pos ssa.Instruction, rt types.Type) *Term {
	switch fv.op {
	case OClosure:
		if fn, ok := fv.aux.(*ssa.Function); ok {
			return in.callFn(st, fn, args, fv.args, pos, rt)
		}
	case OIte:
		// both callees, gated
		c := mkNode(fv.args[0], tTrue, tFalse)
		s1, s2 := st.fork(), st.fork()
		s1.pc, s2.pc = And(st.pc, c), And(st.pc, Not(c))
		var rs []retState
		for i, s := range []*State{s1, s2} {
			if s.pc.op == OFalse {
				continue
			}
			curPC = s.pc
			v := in.callValue(s, fv.args[1+i], args, pos, rt)
			if s.pc.op != OFalse {
				rs = append(rs, retState{s, v})
			}
		}
		env, defs := st.env, st.defers
		if len(rs) == 0 {
			st.pc = tFalse
			return tPoison
		}
		v, out := in.mergeRets(rs)
		*st = *out
		st.env, st.defers = env, defs
		curPC = st.pc
		return v
	case ONil:
		in.need(tFalse, "call of nil function", pos, st)
		st.pc = tFalse
		return tPoison
	}
	return in.unknownCall(st, "a function value", args, pos, rt)
}

type callCtx struct {
	in   *Interp
	st   *State
	args []*Term
	pos  ssa.Instruction
	rt   types.Type
	fn   *ssa.Function
}

type model func(c *callCtx) *Term

func (in *Interp) callFn(st *State, fn *ssa.Function, args, free []*Term, pos ssa.Instruction, rt types.Type) *Term {
	name := fn.String()
	short := strings.ReplaceAll(name, modPath+"/", "")
	in.calls[short]++
	if b, ok := in.boundary[short]; ok {
		if v, done := b(in, fn, args, st, pos); done {
			return v
		}
	}
	key := name
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	if m, ok := models[key]; ok {
		return m(&callCtx{in, st, args, pos, rt, fn})
	}
	if fn.Blocks != nil && (fn.Pkg == nil || in.prog.by[fn.Pkg.Pkg.Path()] != nil) {
		v, out := in.Call(fn, args, free, st)
		if out == nil {
			st.pc = tFalse
			return tPoison
		}
		*st = *out
		curPC = st.pc
		return v
	}
	return in.unknownCall(st, name, args, pos, rt)
}

// readerCalls are library functions known to write nothing they are given.
var readerCalls = []string{"strings.", "strconv.", "unicode", "bytes.", "errors.", "fmt.Sprint", "fmt.Errorf", "math.", "math/bits.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.Compare", "slices.Concat", "slices.Max", "slices.Min", "maps.Keys", "maps.Values", "maps.Clone", "encoding/hex.EncodeToString", "encoding/hex.DecodeString", "crypto/sha", "crypto/subtle.ConstantTime", "path.", "regexp.", "(*regexp.Regexp)."}

// unknownCall: nothing is known about the result; memory reachable from the
// arguments is unknown afterwards.
func (in *Interp) unknownCall(st *State, name string, args []*Term, pos ssa.Instruction, rt types.Type) *Term {
	in.event("unmodelled", "call of "+name, pos, st)
	reads := false
	for _, p := range readerCalls {
		reads = reads || strings.HasPrefix(name, p)
	}
	seen := map[int]bool{}
	var havoc func(t *Term)
	havoc = func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if x.op == OPtr && !seen[x.a] {
				seen[x.a] = true
				old := in.loadContent(st, x.a)
				havoc(old)
				if reads {
					return false
				}
				in.noteWrite(st, x, pos)
				if in.objs[x.a].kind == "pkgstate" || in.objs[x.a].kind == "global" {
					return false
				}
				st.mem[x.a] = havocLike(old, name)
			}
			return false
		})
	}
	for _, a := range args {
		havoc(a)
	}
	return in.symValue(rt, st, freshName(name))
}

func havocLike(old *Term, why string) *Term {
	switch {
	case old.isInt():
		return opaque(why, sortAny)
	case isSeq(old):
		if n, ok := constLen(old); ok && n > 0 && n <= 4096 {
			xs := make([]*Term, n)
			for i := range xs {
				xs[i] = rawApp(freshName(why), byteSort)
			}
			return Seq(xs...)
		}
		return opaque(why, sortStr)
	case old.op == OStruct:
		xs := make([]*Term, len(old.args))
		for i := range xs {
			xs[i] = havocLike(old.args[i], why)
		}
		return Struct(xs...)
	}
	return opaque(why, sortObj)
}

func (in *Interp) invoke(st *State, recv *Term, m *types.Func, args []*Term, pos ssa.Instruction, rt types.Type) *Term {
	if recv.op == OIte {
		return in.gatedCall(st, recv, func(s *State, r *Term) *Term { return in.invoke(s, r, m, args, pos, rt) })
	}
	switch recv.op {
	case OIface:
		if mod, ok := ifaceModels[recv.str+"."+m.Name()]; ok {
			return mod(&callCtx{in, st, append([]*Term{recv.args[0]}, args...), pos, rt, nil})
		}
		if t, ok := recv.aux.(types.Type); ok {
			if fn := in.prog.ssa.LookupMethod(t, m.Pkg(), m.Name()); fn != nil {
				return in.callFn(st, fn, append([]*Term{recv.args[0]}, args...), nil, pos, rt)
			}
		}
	case OApp:
		if m.Name() == "Error" {
			return appVal("errtext", sortStr, recv)
		}
	case ONil:
		in.need(tFalse, "method call on nil interface", pos, st)
		st.pc = tFalse
		return tPoison
	}
	return in.unknownCall(st, "method "+m.Name(), append([]*Term{recv}, args...), pos, rt)
}

// gatedCall performs a call under each alternative of a gated callee.
func (in *Interp) gatedCall(st *State, g *Term, f func(s *State, r *Term) *Term) *Term {
	c := mkNode(g.args[0], tTrue, tFalse)
	s1, s2 := st.fork(), st.fork()
	s1.pc, s2.pc = And(st.pc, c), And(st.pc, Not(c))
	var rs []retState
	for i, s := range []*State{s1, s2} {
		if s.pc.op == OFalse {
			continue
		}
		curPC = s.pc
		v := f(s, g.args[1+i])
		if s.pc.op != OFalse {
			rs = append(rs, retState{s, v})
		}
	}
	env, defs := st.env, st.defers
	if len(rs) == 0 {
		st.pc = tFalse
		return tPoison
	}
	v, out := in.mergeRets(rs)
	*st = *out
	st.env, st.defers = env, defs
	curPC = st.pc
	return v
}

func (in *Interp) builtin(st *State, name string, c *ssa.CallCommon, args []*Term, pos ssa.Instruction, rt types.Type) *Term {
	switch name {
	case "len":
		if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
			return in.mapLen(st, args[0])
		}
		if pt, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
			return C(under(pt.Elem()).(*types.Array).Len())
		}
		if a, ok := under(c.Args[0].Type()).(*types.Array); ok {
			return C(a.Len())
		}
		if isSeq(args[0]) && isStringT(c.Args[0].Type()) {
			return Len(structured(args[0]))
		}
		return in.SliceLen(st, args[0])
	case "cap":
		return lift1(args[0], func(x *Term) *Term {
			switch x.op {
			case OSl:
				return x.args[3]
			case ONil:
				return C(0)
			}
			return opaque("cap", sortLen)
		})
	case "append":
		if len(args) < 2 {
			return args[0]
		}
		add := args[1]
		if !isSeq(add) {
			add = in.View(st, add)
		}
		return in.appendTo(st, args[0], add, pos)
	case "copy":
		src := args[1]
		if !isSeq(src) {
			src = in.View(st, src)
		}
		n := minLen(in.SliceLen(st, args[0]), Len(src))
		in.writeSlice(st, args[0], SubSeqL(src, n), pos)
		return n
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := Le(r, a)
			if name == "max" {
				c = Le(a, r)
			}
			r = Ite(c, r, a)
		}
		return r
	case "delete":
		in.event("unhandled", "delete", pos, st)
		if args[0].op == OPtr {
			in.noteWrite(st, args[0], pos)
			st.mem[args[0].a] = opaque("map after delete", sortStr)
		}
		return tNil
	case "clear":
		if args[0].op == OPtr {
			in.noteWrite(st, args[0], pos)
			st.mem[args[0].a] = tEmpty
		} else if n := in.SliceLen(st, args[0]); true {
			in.writeSlice(st, args[0], lift1(n, func(k *Term) *Term { return Seq(segFill(C(0), k)) }), pos)
		}
		return tNil
	case "print", "println":
		in.event("output", "writes to standard error", pos, st)
		return tNil
	case "recover":
		return tNil
	case "panic":
		in.event("panic", "explicit panic reachable", pos, st)
		st.pc = tFalse
		return tPoison
	case "ssa:wrapnilchk":
		return args[0]
	}
	return in.unknownCall(st, "builtin "+name, args, pos, rt)
}

// SubSeqL is the first n elements.
func SubSeqL(s, n *Term) *Term {
	return lift2(s, n, func(a, b *Term) *Term { return SubSeq(a, C(0), b) })
}

// minLen is the smaller of two lengths, decided by the path if possible.
func minLen(a, b *Term) *Term {
	return lift2(a, b, func(x, y *Term) *Term {
		c := Le(x, y)
		if c.op == OIte {
			if entails(c) {
				return x
			}
			if entails(Not(c)) || entails(Le(y, x)) {
				return y
			}
		}
		return Ite(c, x, y)
	})
}

func (in *Interp) mapLen(st *State, m *Term) *Term {
	return lift1(m, func(x *Term) *Term {
		if x.op == ONil {
			return C(0)
		}
		if x.op == OPtr {
			log := in.Load(st, x)
			if ks, _, ok := mapEntries(log); ok {
				return C(int64(len(ks)))
			}
			if log.op == OSeq {
				return rawApp("maplen", sortLen, seqBase(log))
			}
		}
		return opaque("map length", sortLen)
	})
}

// appendTo is the append builtin.
func (in *Interp) appendTo(st *State, s, add *Term, pos ssa.Instruction) *Term {
	if s.op == OIte {
		return lift1(s, func(x *Term) *Term { return in.appendTo(st, x, add, pos) })
	}
	if add.op == OIte && !isSeq(add) {
		return opaque("append of unknown", sortObj)
	}
	m := Len(add)
	if m.isConst() && m.num.Sign() == 0 {
		return s
	}
	switch s.op {
	case ONil, OPoison:
		if e := Eq(m, C(0)); e.op == OIte {
			// append of an empty sequence to nil stays nil: same contents
			return in.newSlice(st, add, false)
		}
		return in.newSlice(st, add, false)
	case OSl:
		n, cp, p := s.args[2], s.args[3], s.args[0]
		tot := Add(n, m)
		fits := Le(tot, cp)
		known := func(c *Term) bool {
			return c.op == OTrue || c.op == OIte && entails(c)
		}
		if cp.op != OApp || cp.str != "cap" {
			if known(fits) {
				r := mkSl(p, s.args[1], tot, cp)
				in.writeSlice(st, mkSl(p, Add(s.args[1], n), m, m), add, pos)
				return r
			}
			if known(Not(fits)) {
				return in.newSlice(st, Concat(in.View(st, s), add), false)
			}
		}
		// may or may not be in place
		if p.op == OPtr {
			o := in.objs[p.a]
			switch o.kind {
			case "sym", "param":
				in.event("append-alias", "append may write into spare capacity of "+o.name, pos, st)
			case "global", "pkgstate":
				if !in.inInit {
					in.event("append-alias", "append may write into spare capacity of "+o.name, pos, st)
				}
			case "alloc":
				end := Add(s.args[1], n)
				k := fmt.Sprintf("%d@%d", p.a, end.id)
				if prev, ok := in.appendPC[k]; ok && And(prev, st.pc).op != OFalse {
					in.event("append-twice", "two appends to one prefix may share memory", pos, st)
					in.appendPC[k] = Or(prev, st.pc)
				} else if ok {
					in.appendPC[k] = Or(prev, st.pc)
				} else {
					in.appendPC[k] = st.pc
				}
			}
		}
		return in.newSlice(st, Concat(in.View(st, s), add), false)
	}
	return opaque("append to unknown", sortObj)
}

// wordIndex: k is the word at index i of the list of distinct words, i being
// in range.
func (in *Interp) wordIndex(k *Term) *Term {
	if k.op != OSeq || len(k.args) != 1 {
		return nil
	}
	b := baseOf(k)
	if b == nil || b.op != OApp || b.str != "at" || b.args[0] != seqBase(in.wordsOf) {
		return nil
	}
	i := b.args[1]
	if lo, hi := rangeOf(i); lo == nil || lo.Sign() < 0 || hi == nil || !entails(Ge(Sub(Len(in.wordsOf), CB(hi)), big1)) {
		return nil
	}
	return i
}
