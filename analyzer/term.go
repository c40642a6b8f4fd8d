package main

// Canonical value terms. Every value the analysed code computes is one
// hash-consed term; two values are provably equal when their terms are the
// same pointer. Integers are linear forms over atoms and bit slices of atoms,
// byte strings are sequences of cells and symbolic segments, conditions are
// ordered decision graphs (gates) over atomic comparisons.

import (
	"fmt"
	"maps"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer num
	OLin             // num + sum coefs[i]*args[i]
	OSlice           // bits [a, a+b) of args[0]
	OApp             // uninterpreted: str(args...)
	OBound           // bound iteration index, level a
	OIte             // args: atom, then, else
	OTrue
	OFalse
	OGe    // linear form args[0] >= num
	OBAtom // boolean atom str(args...)
	OSeq   // sequence of segments and elements
	OLit   // segment: constant bytes str
	OFill  // segment: args[0] repeated args[1] times
	OSub   // segment: args[2] elements of args[0] from args[1]
	OMin   // segment: minimal big-endian bytes of args[0]
	ORep   // segment: args[1][bound level a := i] for i < args[0]
	OStruct
	OTuple
	ONil
	OPtr // object a, path args
	OSl  // slice: args: base ptr, off, len, cap
	OClosure
	OIface // str type name, args[0] value
	OLam   // args[0] as a function of bound level a
	OTab   // finite function of args[0]: nums of str keys -> args[1:]
	OPoison
)

type Term struct {
	op    Op
	str   string
	num   *big.Int
	coefs []*big.Int
	args  []*Term
	a, b  int
	id    int
	lo    *big.Int // integer range, nil = unbounded
	hi    *big.Int
	bits  bool // integer atom whose equality is decided byte by byte
	elem  *Sort
	flags uint8
	aux   any
}

const (
	fIte    uint8 = 1 << iota // contains a gate
	fBound                    // contains a bound variable
	fMin                      // contains OMin or a blen term
	fOpaque                   // contains a value the analysis could not interpret
	fRec                      // contains a recurrence variable
)

// Sort describes what an uninterpreted result is.
type Sort struct {
	kind   byte // 'i' int, 'b' bool, 's' sequence, 'o' other
	lo, hi *big.Int
	bits   bool
	elem   *Sort // for sequences: sort of elements
	n      int   // fixed length (0 = symbolic)
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func sortBits(w int) *Sort {
	return &Sort{kind: 'i', lo: big0, hi: new(big.Int).Sub(pow2(w), big1), bits: true}
}

var (
	maxLen   = pow2(48)
	sortLen  = &Sort{kind: 'i', lo: big0, hi: maxLen}
	sortAny  = &Sort{kind: 'i'}
	sortNat  = &Sort{kind: 'i', lo: big0}
	sortBool = &Sort{kind: 'b'}
	sortObj  = &Sort{kind: 'o'}
	byteSort = sortBits(8)
	sortStr  = &Sort{kind: 's', elem: byteSort}
)

// ---- interning

var (
	internTab = map[string]*Term{}
	termCount int
)

var keyBuf []byte

// keyOf fills keyBuf with the identity of a term.
func keyOf(t *Term) []byte {
	k := append(keyBuf[:0], byte(t.op)+1)
	if t.str != "" {
		k = strconv.AppendInt(k, int64(len(t.str)), 10)
		k = append(k, ':')
		k = append(k, t.str...)
	}
	if t.num != nil {
		k = append(k, '#')
		k = t.num.Append(k, 62)
	}
	if t.a != 0 || t.b != 0 {
		k = append(k, '@')
		k = strconv.AppendInt(k, int64(t.a), 10)
		k = append(k, ',')
		k = strconv.AppendInt(k, int64(t.b), 10)
	}
	for _, c := range t.coefs {
		k = append(k, '*')
		k = c.Append(k, 62)
	}
	for _, x := range t.args {
		k = append(k, '.', byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
	}
	keyBuf = k
	return k
}

func intern(t *Term) *Term {
	if cancelled.Load() {
		runtime.Goexit()
	}
	key := keyOf(t)
	if o, ok := internTab[string(key)]; ok {
		return o
	}
	k := string(key)
	termCount++
	t.id = termCount
	var f uint8
	for _, x := range t.args {
		f |= x.flags
	}
	switch t.op {
	case OIte:
		f |= fIte
	case OBound:
		f |= fBound
	case OMin:
		f |= fMin
	case OApp:
		if t.str == "blen" {
			f |= fMin
		}
		if strings.HasPrefix(t.str, "?") {
			f |= fOpaque
		}
		if strings.HasPrefix(t.str, "$rv") {
			f |= fRec
		}
	case OBAtom:
		if strings.HasPrefix(t.str, "?") {
			f |= fOpaque
		}
	case OPoison:
		f |= fOpaque
	case ORep, OLam:
		f &^= fIte // gates under a binder stay there
	}
	t.flags |= f
	internTab[k] = t
	return t
}

var (
	tTrue   = intern(&Term{op: OTrue})
	tFalse  = intern(&Term{op: OFalse})
	tNil    = intern(&Term{op: ONil})
	tEmpty  = intern(&Term{op: OSeq})
	tPoison = intern(&Term{op: OPoison, str: "undefined"})
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// smallConst finds the constants that fit a word.
var smallConst = map[int64]*Term{}

func CB(n *big.Int) *Term {
	if n.IsInt64() {
		return C(n.Int64())
	}
	n = new(big.Int).Set(n)
	return intern(&Term{op: OConst, num: n, lo: n, hi: n})
}

func C(i int64) *Term {
	if t, ok := smallConst[i]; ok {
		return t
	}
	n := big.NewInt(i)
	t := intern(&Term{op: OConst, num: n, lo: n, hi: n})
	smallConst[i] = t
	return t
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt() bool {
	switch t.op {
	case OConst, OLin, OSlice, OBound, OTab:
		return true
	case OApp:
		return t.aux != nil && t.aux.(*Sort).kind == 'i'
	case OIte:
		return t.args[1].isInt()
	}
	return false
}
func (t *Term) isBool() bool {
	switch t.op {
	case OTrue, OFalse, OGe, OBAtom:
		return true
	case OIte:
		return t.args[1].isBool()
	}
	return false
}

// constInt returns the value of a small constant.
func (t *Term) constInt() (int, bool) {
	if t.op == OConst && t.num.IsInt64() {
		return int(t.num.Int64()), true
	}
	return 0, false
}

// App makes an uninterpreted application, lifting gates out of its arguments.
func App(name string, s *Sort, args ...*Term) *Term {
	if s.kind == 'b' {
		return liftN(args, func(xs []*Term) *Term { return bAtom(name, xs...) })
	}
	return liftN(args, func(xs []*Term) *Term { return rawApp(name, s, xs...) })
}

func rawApp(name string, s *Sort, args ...*Term) *Term {
	t := &Term{op: OApp, str: name, args: args, aux: s}
	if s.kind == 'i' {
		t.lo, t.hi, t.bits = s.lo, s.hi, s.bits
	}
	t.elem = s.elem
	return intern(t)
}

func bAtom(name string, args ...*Term) *Term {
	return mkNode(intern(&Term{op: OBAtom, str: name, args: args}), tTrue, tFalse)
}

func Struct(xs ...*Term) *Term { return intern(&Term{op: OStruct, args: xs}) }
func Tuple(xs ...*Term) *Term  { return intern(&Term{op: OTuple, args: xs}) }
func Bound(level int) *Term {
	return intern(&Term{op: OBound, a: level, lo: big0, hi: maxLen})
}

// ---- lifting over gates

// atomLess orders decision atoms; thresholds of one linear form are adjacent.
func atomLess(x, y *Term) bool {
	kx, ky := x.id, y.id
	if x.op == OGe {
		kx = x.args[0].id
	}
	if y.op == OGe {
		ky = y.args[0].id
	}
	if kx != ky {
		return kx < ky
	}
	if x.op != y.op {
		return x.op < y.op
	}
	if x.op == OGe {
		return x.num.Cmp(y.num) < 0
	}
	return x.id < y.id
}

// topAtom finds the least atom gating t (looking into containers).
func topAtom(t *Term, best *Term) *Term {
	if t.flags&fIte == 0 {
		return best
	}
	switch t.op {
	case OIte:
		if best == nil || atomLess(t.args[0], best) {
			return t.args[0]
		}
		return best
	case OApp, OBAtom, OGe, OLin, OSlice:
		return best
	}
	for _, x := range t.args {
		best = topAtom(x, best)
	}
	return best
}

var liftBudget = 4096

// liftN applies f to args with all gates moved outside.
func liftN(args []*Term, f func([]*Term) *Term) *Term {
	var top *Term
	for _, a := range args {
		top = topAtom(a, top)
	}
	if top == nil {
		return f(args)
	}
	if liftBudget <= 0 {
		return opaque("gate budget exhausted", sortObj)
	}
	liftBudget--
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i] = cofactor(a, top, true)
		lo[i] = cofactor(a, top, false)
	}
	r := Ite(mkNode(top, tTrue, tFalse), liftN(hi, f), liftN(lo, f))
	liftBudget++
	return r
}

// lift1/lift2 lift only outermost gates.
func lift1(x *Term, f func(*Term) *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], lift1(x.args[1], f), lift1(x.args[2], f))
	}
	return f(x)
}
func lift2(x, y *Term, f func(a, b *Term) *Term) *Term {
	if x.op == OIte && (y.op != OIte || !atomLess(y.args[0], x.args[0])) {
		c := x.args[0]
		return Ite(c, lift2(x.args[1], cofTop(y, c, true), f), lift2(x.args[2], cofTop(y, c, false), f))
	}
	if y.op == OIte {
		c := y.args[0]
		return Ite(c, lift2(cofTop(x, c, true), y.args[1], f), lift2(cofTop(x, c, false), y.args[2], f))
	}
	return f(x, y)
}

// implied by atom c having value v: 1 true, 0 false, -1 unknown.
func atomGiven(x, c *Term, v bool) int {
	if x == c {
		if v {
			return 1
		}
		return 0
	}
	if x.op == OGe && c.op == OGe && x.args[0] == c.args[0] {
		if v && x.num.Cmp(c.num) <= 0 {
			return 1
		}
		if !v && x.num.Cmp(c.num) >= 0 {
			return 0
		}
	}
	return -1
}

// cofTop strips outermost gates decided by c=v.
func cofTop(t, c *Term, v bool) *Term {
	for t.op == OIte {
		switch atomGiven(t.args[0], c, v) {
		case 1:
			t = t.args[1]
			continue
		case 0:
			t = t.args[2]
			continue
		}
		break
	}
	return t
}

// cofactor decides c=v everywhere in t.
func cofactor(t, c *Term, v bool) *Term {
	if t.flags&fIte == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return cofRec(t, c, v, memo)
}

func cofRec(t, c *Term, v bool, memo map[*Term]*Term) *Term {
	if t.flags&fIte == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OIte {
		switch atomGiven(t.args[0], c, v) {
		case 1:
			r = cofRec(t.args[1], c, v, memo)
		case 0:
			r = cofRec(t.args[2], c, v, memo)
		default:
			if t.isBool() && atomLess(c, t.args[0]) && !sameForm(c, t.args[0]) {
				r = t // ordered: c cannot occur below
			} else {
				r = Ite(mkNode(t.args[0], tTrue, tFalse), cofRec(t.args[1], c, v, memo), cofRec(t.args[2], c, v, memo))
			}
		}
	} else {
		r = rebuild(t, func(x *Term) *Term { return cofRec(x, c, v, memo) })
	}
	memo[t] = r
	return r
}

func sameForm(x, y *Term) bool {
	return x.op == OGe && y.op == OGe && x.args[0] == y.args[0]
}

// rebuild maps f over the arguments and re-normalises.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	xs := make([]*Term, len(t.args))
	same := true
	for i, x := range t.args {
		xs[i] = f(x)
		if xs[i] != x {
			same = false
		}
	}
	if same {
		return t
	}
	return remake(t, xs)
}

func remake(t *Term, xs []*Term) *Term {
	switch t.op {
	case OLin:
		r := CB(t.num)
		for i, x := range xs {
			r = Add(r, MulC(x, t.coefs[i]))
		}
		return r
	case OSlice:
		return Slice(xs[0], t.a, t.b)
	case OApp:
		return reApp(t, xs)
	case OBAtom:
		return liftN(xs, func(ys []*Term) *Term { return bAtomN(t.str, ys...) })
	case OGe:
		return Ge(xs[0], t.num)
	case OIte:
		return Ite(xs[0], xs[1], xs[2])
	case OSeq:
		return remakeSeq(t, xs)
	case OFill:
		return Seq(segFill(xs[0], xs[1]))
	case OMin:
		return MinBytes(xs[0])
	case ORep:
		return mkRep(xs[0], t.a, xs[1], t.str)
	case OSl:
		return mkSl(xs[0], xs[1], xs[2], xs[3])
	case OTab:
		return mkTab(xs[0], t.coefs, xs[1:])
	case OSub:
		return mkSubSeq(xs[0], xs[1], xs[2])
	}
	n := *t
	n.args = xs
	n.flags = 0
	n.id = 0
	return intern(&n)
}

// remakeSeq rebuilds a sequence: rebuilt segments are spliced, elements stay.
func remakeSeq(t *Term, xs []*Term) *Term {
	plain := true
	for i, g := range t.args {
		if isSeg(g) && xs[i] != g {
			plain = false
		}
	}
	if plain {
		return Seq(xs...)
	}
	var parts []*Term
	var run []*Term
	for i, g := range t.args {
		if isSeg(g) && xs[i] != g {
			if len(run) > 0 {
				parts = append(parts, Seq(run...))
				run = nil
			}
			parts = append(parts, xs[i])
			continue
		}
		run = append(run, xs[i])
	}
	if len(run) > 0 {
		parts = append(parts, Seq(run...))
	}
	return Concat(parts...)
}

// ---- decision graphs

func mkNode(atom, a, b *Term) *Term {
	if a == b {
		return a
	}
	n := &Term{op: OIte, args: []*Term{atom, a, b}}
	return intern(n)
}

// mkIte gates a and b on an atom, applying the value-level normal forms.
func mkIte(atom, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OPoison {
		return b
	}
	if b.op == OPoison {
		return a
	}
	if (a.flags|b.flags)&fMin != 0 && atom.op == OGe && atom.args[0].op == OApp && atom.args[0].str == "blen" {
		a2, b2 := substBlen(atom, true, a), substBlen(atom, false, b)
		if a2 != a || b2 != b {
			return Ite(mkNode(atom, tTrue, tFalse), a2, b2)
		}
	}
	if a.op == OSeq && b.op == OSeq && atom.op == OGe && atom.args[0].op == OApp && atom.args[0].str == "blen" && zeroPadded(atom, a, b) {
		return a
	}
	if a.isInt() && b.isInt() {
		if r := iteInt(atom, a, b); r != nil {
			return r
		}
	}
	return mkNode(atom, a, b)
}

// zeroPadded: when the value has fewer bytes than the comparison asks for, a
// reads as b because its high byte cells are zero.
func zeroPadded(atom, a, b *Term) bool {
	na, ok1 := constLen(a)
	nb, ok2 := constLen(b)
	x := atom.args[0].args[0]
	if !ok1 || !ok2 || na != nb || na > 128 || x.hi == nil || !atom.num.IsInt64() {
		return false
	}
	n, k := (x.hi.BitLen()+7)/8, int(atom.num.Int64())
	if n > 128 || k < 1 || k > n {
		return false
	}
	zero := map[*Term]bool{}
	for j := k - 1; j < n; j++ {
		zero[Slice(x, 8*j, 8)] = true
	}
	ea, eb := elems(a), elems(b)
	for i := range ea {
		if ea[i] != eb[i] && !(zero[ea[i]] && eb[i] == C(0)) {
			return false
		}
	}
	return true
}

type iteKey struct{ c, a, b *Term }

var iteMemo = map[iteKey]*Term{}

// Ite is the general gate: c is a boolean decision graph (or atom).
func Ite(c, a, b *Term) *Term {
	switch {
	case c.op == OTrue:
		return a
	case c.op == OFalse:
		return b
	case a == b:
		return a
	case a.op == OTrue && b.op == OFalse:
		if c.op != OIte {
			return mkNode(c, tTrue, tFalse)
		}
		return c
	case a.op == OPoison:
		return b
	case b.op == OPoison:
		return a
	}
	if c.op != OIte {
		c = mkNode(c, tTrue, tFalse)
	}
	k := iteKey{c, a, b}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	var r *Term
	// push into same-shaped containers first
	if pushable(a, b) {
		r = pushIte(c, a, b)
	}
	if r == nil {
		if top := gateTop(c, a, b); top != nil {
			r = mkIte(top,
				Ite(cofTop(c, top, true), cofTop(a, top, true), cofTop(b, top, true)),
				Ite(cofTop(c, top, false), cofTop(a, top, false), cofTop(b, top, false)))
		}
	}
	iteMemo[k] = r
	return r
}

func pushable(a, b *Term) bool {
	if a.op != b.op {
		return false
	}
	switch a.op {
	case OStruct, OTuple:
		return len(a.args) == len(b.args)
	case OIface:
		return a.str == b.str
	case OSl:
		return a.args[0] == b.args[0]
	case OSeq:
		return seqShapesMatch(a, b)
	}
	return false
}

func pushIte(c, a, b *Term) *Term {
	if a.op == OSeq {
		return pushIteSeq(c, a, b)
	}
	xs := make([]*Term, len(a.args))
	for i := range xs {
		xs[i] = Ite(c, a.args[i], b.args[i])
	}
	if a.op == OSl {
		return mkSl(xs[0], xs[1], xs[2], xs[3])
	}
	n := *a
	n.args, n.flags, n.id = xs, 0, 0
	return intern(&n)
}

func gateTop(ts ...*Term) *Term {
	var top *Term
	for _, t := range ts {
		if t.op == OIte && (top == nil || atomLess(t.args[0], top)) {
			top = t.args[0]
		}
	}
	return top
}

func Not(c *Term) *Term { return Ite(c, tFalse, tTrue) }
func And(xs ...*Term) *Term {
	r := tTrue
	for i := len(xs) - 1; i >= 0; i-- {
		r = Ite(xs[i], r, tFalse)
	}
	return r
}
func Or(xs ...*Term) *Term {
	r := tFalse
	for i := len(xs) - 1; i >= 0; i-- {
		r = Ite(xs[i], tTrue, r)
	}
	return r
}
func Implies(a, b *Term) *Term { return Ite(a, b, tTrue) }
func Iff(a, b *Term) *Term     { return Ite(a, b, Not(b)) }

// Restrict simplifies f using that care holds (Coudert-Madre restrict),
// everywhere gates occur in f.
func Restrict(f, care *Term) *Term {
	if care.op == OTrue || care.op == OFalse || f.flags&(fIte|fMin) == 0 {
		return f
	}
	return restrictRec(f, care, map[iteKey]*Term{})
}

func restrictRec(f, c *Term, memo map[iteKey]*Term) *Term {
	if c.op == OTrue || c.op == OFalse || f.flags&fIte == 0 {
		return f
	}
	k := iteKey{f, c, nil}
	if r, ok := memo[k]; ok {
		return r
	}
	var r *Term
	if f.op == OIte {
		fv, cv := f.args[0], c.args[0]
		switch {
		case fv != cv && atomLess(cv, fv):
			c1, c0 := c.args[1], c.args[2]
			switch {
			case c1.op == OFalse:
				r = restrictRec(cofTop(f, cv, false), c0, memo)
			case c0.op == OFalse:
				r = restrictRec(cofTop(f, cv, true), c1, memo)
			case sameForm(cv, fv):
				// threshold chain: keep the distinction
				r = Ite(mkNode(cv, tTrue, tFalse), restrictRec(cofTop(f, cv, true), c1, memo), restrictRec(cofTop(f, cv, false), c0, memo))
			default:
				r = restrictRec(f, Or(c1, c0), memo)
			}
		default:
			c1, c0 := cofTop(c, fv, true), cofTop(c, fv, false)
			switch {
			case c1.op == OFalse:
				r = restrictRec(cofTop(f, fv, false), c0, memo)
			case c0.op == OFalse:
				r = restrictRec(cofTop(f, fv, true), c1, memo)
			default:
				r = Ite(mkNode(fv, tTrue, tFalse), restrictRec(f.args[1], c1, memo), restrictRec(f.args[2], c0, memo))
			}
		}
	} else {
		r = rebuild(f, func(x *Term) *Term { return restrictRec(x, c, memo) })
	}
	memo[k] = r
	return r
}

// implies reports whether a => b is a tautology of the decision graphs.
func implies(a, b *Term) bool { return Implies(a, b).op == OTrue }

// support lists the atoms of a decision graph.
func support(t *Term) []*Term {
	seen := map[*Term]bool{}
	atoms := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x.op != OIte || seen[x] {
			return
		}
		seen[x] = true
		atoms[x.args[0]] = true
		walk(x.args[1])
		walk(x.args[2])
	}
	walk(t)
	out := make([]*Term, 0, len(atoms))
	for a := range atoms {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return atomLess(out[i], out[j]) })
	return out
}

type literal struct {
	atom *Term
	val  bool
}

var litMemo = map[*Term][]literal{}

// satisfiable reports whether pc can hold when c has the value v.
func satisfiable(pc, c *Term, v bool) bool {
	memo := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t.op != OIte {
			return t.op != OFalse
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r bool
		switch atomGiven(t.args[0], c, v) {
		case 1:
			r = rec(t.args[1])
		case 0:
			r = rec(t.args[2])
		default:
			r = atomLess(c, t.args[0]) && !sameForm(c, t.args[0]) || rec(t.args[1]) || rec(t.args[2])
		}
		memo[t] = r
		return r
	}
	return rec(pc)
}

// literals lists the atoms whose value is forced by pc.
func literals(pc *Term) []literal {
	if pc.op != OIte {
		return nil
	}
	if r, ok := litMemo[pc]; ok {
		return r
	}
	out := []literal{}
	for _, a := range support(pc) {
		if !satisfiable(pc, a, false) {
			out = append(out, literal{a, true})
		} else if !satisfiable(pc, a, true) {
			out = append(out, literal{a, false})
		}
	}
	litMemo[pc] = out
	return out
}

// ---- substitution

// Subst replaces terms by terms, re-normalising.
func Subst(t *Term, m map[*Term]*Term, flag uint8) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if flag != 0 && x.flags&flag == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := rebuild(x, rec)
		memo[x] = r
		return r
	}
	return rec(t)
}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if y == x {
			return true
		}
		if seen[y] {
			return false
		}
		seen[y] = true
		for _, z := range y.args {
			if rec(z) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// anyTerm reports whether some subterm satisfies p.
func anyTerm(t *Term, p func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var rec func(*Term) *Term
	rec = func(y *Term) *Term {
		if seen[y] {
			return nil
		}
		seen[y] = true
		if p(y) {
			return y
		}
		for _, z := range y.args {
			if r := rec(z); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

var opaqueCount int

// opaque makes a fresh value the analysis cannot interpret.
func opaque(why string, s *Sort) *Term {
	opaqueCount++
	name := fmt.Sprintf("?%d:%s", opaqueCount, why)
	switch s.kind {
	case 'b':
		return bAtom(name)
	case 's':
		return wholeSeq(rawApp(name, s))
	}
	return rawApp(name, s)
}

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}

func printArgs(sb *strings.Builder, xs []*Term, d int) {
	for i, x := range xs {
		if i > 0 {
			sb.WriteString(", ")
		}
		printTerm(sb, x, d)
	}
}

func printTerm(sb *strings.Builder, t *Term, d int) {
	if sb.Len() > 5000 || d > 40 {
		sb.WriteString("…")
		return
	}
	d++
	switch t.op {
	case OConst:
		if t.num.BitLen() > 40 {
			fmt.Fprintf(sb, "0x%x", t.num)
		} else {
			sb.WriteString(t.num.String())
		}
	case OLin:
		sb.WriteString("(")
		for i, x := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			c := t.coefs[i]
			if c.Cmp(big1) != 0 {
				if c.Sign() > 0 && c.BitLen() > 8 && int(c.TrailingZeroBits()) == c.BitLen()-1 {
					fmt.Fprintf(sb, "2^%d*", c.BitLen()-1)
				} else {
					fmt.Fprintf(sb, "%s*", c)
				}
			}
			printTerm(sb, x, d)
		}
		if t.num.Sign() != 0 {
			fmt.Fprintf(sb, " + %s", CB(t.num))
		}
		sb.WriteString(")")
	case OSlice:
		printTerm(sb, t.args[0], d)
		fmt.Fprintf(sb, "<%d:%d>", t.a, t.a+t.b)
	case OApp, OBAtom:
		sb.WriteString(t.str)
		if len(t.args) > 0 {
			sb.WriteString("(")
			printArgs(sb, t.args, d)
			sb.WriteString(")")
		}
	case OBound:
		fmt.Fprintf(sb, "#%d", t.a)
	case OIte:
		if t.args[1].op == OTrue && t.args[2].op == OFalse {
			printTerm(sb, t.args[0], d)
			return
		}
		if t.args[1].op == OFalse && t.args[2].op == OTrue {
			sb.WriteString("!")
			printTerm(sb, t.args[0], d)
			return
		}
		sb.WriteString("{")
		printTerm(sb, t.args[0], d)
		sb.WriteString(" ? ")
		printTerm(sb, t.args[1], d)
		sb.WriteString(" : ")
		printTerm(sb, t.args[2], d)
		sb.WriteString("}")
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OGe:
		printTerm(sb, t.args[0], d)
		fmt.Fprintf(sb, ">=%s", CB(t.num))
	case OSeq:
		sb.WriteString("[")
		printCells(sb, t.args, d)
		sb.WriteString("]")
	case OLit:
		if len(t.str) > 60 {
			fmt.Fprintf(sb, "%q…%d", t.str[:50], len(t.str))
		} else {
			fmt.Fprintf(sb, "%q", t.str)
		}
	case OFill:
		printTerm(sb, t.args[0], d)
		sb.WriteString("×")
		printTerm(sb, t.args[1], d)
	case OSub:
		printTerm(sb, t.args[0], d)
		if l := t.args[0]; t.args[1].isConst() && t.args[1].num.Sign() == 0 && t.args[2] == lenOfBase(l) {
			sb.WriteString("…")
			return
		}
		sb.WriteString("[")
		printTerm(sb, t.args[1], d)
		sb.WriteString(" len ")
		printTerm(sb, t.args[2], d)
		sb.WriteString("]")
	case OMin:
		sb.WriteString("minbytes(")
		printTerm(sb, t.args[0], d)
		sb.WriteString(")")
	case ORep:
		fmt.Fprintf(sb, "<#%d<", t.a)
		printTerm(sb, t.args[0], d)
		sb.WriteString(": ")
		printTerm(sb, t.args[1], d)
		sb.WriteString(">")
	case OStruct, OTuple:
		sb.WriteString("(")
		printArgs(sb, t.args, d)
		sb.WriteString(")")
	case ONil:
		sb.WriteString("nil")
	case OPtr:
		fmt.Fprintf(sb, "&o%d", t.a)
		for _, p := range t.args {
			sb.WriteString(".")
			printTerm(sb, p, d)
		}
	case OSl:
		printTerm(sb, t.args[0], d)
		sb.WriteString("[off ")
		printTerm(sb, t.args[1], d)
		sb.WriteString(" len ")
		printTerm(sb, t.args[2], d)
		sb.WriteString("]")
	case OClosure:
		sb.WriteString("func " + t.str)
	case OIface:
		sb.WriteString(t.str + "(")
		printArgs(sb, t.args, d)
		sb.WriteString(")")
	case OLam:
		fmt.Fprintf(sb, "\\#%d.", t.a)
		printTerm(sb, t.args[0], d)
	case OTab:
		sb.WriteString("table@")
		printTerm(sb, t.args[0], d)
	case OPoison:
		sb.WriteString("<undefined>")
	}
}

// printCells compresses runs of byte slices of one integer.
func printCells(sb *strings.Builder, xs []*Term, d int) {
	for i := 0; i < len(xs); {
		if i > 0 {
			sb.WriteString(" ")
		}
		j := i + 1
		if xs[i].op == OSlice && xs[i].b == 8 {
			for j < len(xs) && xs[j].op == OSlice && xs[j].b == 8 && xs[j].args[0] == xs[i].args[0] && xs[j].a == xs[j-1].a-8 {
				j++
			}
		}
		if j-i > 1 {
			printTerm(sb, xs[i].args[0], d)
			fmt.Fprintf(sb, "<%d:%d>/%d", xs[j-1].a, xs[i].a+8, j-i)
		} else {
			printTerm(sb, xs[i], d)
		}
		i = j
	}
}

var baseTab map[string]*Term
var baseConst map[int64]*Term

// resetTerms forgets the terms of the property decided before.
func resetTerms() {
	if baseTab == nil {
		baseTab, baseConst = maps.Clone(internTab), maps.Clone(smallConst)
		return
	}
	internTab, smallConst = maps.Clone(baseTab), maps.Clone(baseConst)
	clear(iteMemo)
	clear(litMemo)
	runtime.GC()
}
