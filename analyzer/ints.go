package main

import (
	"math/big"
	"sort"
	"strings"
)

// ---- linear forms

type linTerm struct {
	t *Term
	c *big.Int
}

func linParts(x *Term) (*big.Int, []linTerm) {
	switch x.op {
	case OConst:
		return x.num, nil
	case OLin:
		ps := make([]linTerm, len(x.args))
		for i := range x.args {
			ps[i] = linTerm{x.args[i], x.coefs[i]}
		}
		return x.num, ps
	}
	return big0, []linTerm{{x, big1}}
}

func Add(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, Add)
	}
	if x.isConst() && x.num.Sign() == 0 {
		return y
	}
	if y.isConst() && y.num.Sign() == 0 {
		return x
	}
	cx, px := linParts(x)
	cy, py := linParts(y)
	return mkLin(new(big.Int).Add(cx, cy), append(append([]linTerm{}, px...), py...))
}
func MulCB(x *Term, c *big.Int) *Term {
	if c.Cmp(big1) == 0 {
		return x
	}
	if x.op == OIte {
		return lift1(x, func(a *Term) *Term { return MulCB(a, c) })
	}
	k, ps := linParts(x)
	out := make([]linTerm, len(ps))
	for i, p := range ps {
		out[i] = linTerm{p.t, new(big.Int).Mul(p.c, c)}
	}
	return mkLin(new(big.Int).Mul(k, c), out)
}
func MulC(x *Term, c *big.Int) *Term { return MulCB(x, c) }
func Neg(x *Term) *Term              { return MulCB(x, big.NewInt(-1)) }
func Sub(x, y *Term) *Term {
	if x == y {
		return C(0)
	}
	return Add(x, Neg(y))
}

// width of a non-negative bounded integer in bits, -1 if unknown.
func width(t *Term) int {
	if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
		return -1
	}
	return t.hi.BitLen()
}

func mkLin(k *big.Int, ps []linTerm) *Term {
	// flatten nested linear atoms
	coef := map[*Term]*big.Int{}
	k = new(big.Int).Set(k)
	var order []*Term
	addT := func(t *Term, c *big.Int) {
		if o, ok := coef[t]; ok {
			o.Add(o, c)
		} else {
			coef[t] = new(big.Int).Set(c)
			order = append(order, t)
		}
	}
	for _, p := range ps {
		if p.t.op == OConst {
			k.Add(k, new(big.Int).Mul(p.t.num, p.c))
			continue
		}
		if p.t.op == OLin {
			k.Add(k, new(big.Int).Mul(p.t.num, p.c))
			for i, a := range p.t.args {
				addT(a, new(big.Int).Mul(p.t.coefs[i], p.c))
			}
			continue
		}
		addT(p.t, p.c)
	}
	// group slices by base and merge
	groups := map[*Term][]*Term{}
	sliceSeen := false
	for _, t := range order {
		if coef[t].Sign() == 0 {
			continue
		}
		b := t
		if t.op == OSlice {
			b = t.args[0]
			sliceSeen = true
		}
		groups[b] = append(groups[b], t)
	}
	var out []linTerm
	if !sliceSeen {
		for _, t := range order {
			if coef[t].Sign() != 0 {
				out = append(out, linTerm{t, coef[t]})
			}
		}
	} else {
		done := map[*Term]bool{}
		for _, t := range order {
			if coef[t].Sign() == 0 {
				continue
			}
			b := t
			if t.op == OSlice {
				b = t.args[0]
			}
			if done[b] {
				continue
			}
			done[b] = true
			g := groups[b]
			if len(g) == 1 {
				out = append(out, linTerm{g[0], coef[g[0]]})
				continue
			}
			out = append(out, mergeSlices(b, g, coef)...)
		}
		// a merge may have produced a linear base
		for _, p := range out {
			if p.t.op == OLin || p.t.op == OConst {
				return mkLin(k, out)
			}
		}
	}
	if len(out) == 0 {
		return CB(k)
	}
	if len(out) == 1 && k.Sign() == 0 && out[0].c.Cmp(big1) == 0 {
		return out[0].t
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	t := &Term{op: OLin, num: k}
	lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
	for _, p := range out {
		t.args = append(t.args, p.t)
		t.coefs = append(t.coefs, p.c)
		l, h := p.t.lo, p.t.hi
		if p.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil && l != nil {
			lo.Add(lo, new(big.Int).Mul(l, p.c))
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi.Add(hi, new(big.Int).Mul(h, p.c))
		} else {
			hi = nil
		}
	}
	t.lo, t.hi = lo, hi
	return intern(t)
}

// mergeSlices re-normalises several slices of one base: splits overlaps at
// all boundaries, then joins adjacent slices with matching coefficients.
func mergeSlices(b *Term, g []*Term, coef map[*Term]*big.Int) []linTerm {
	w := width(b)
	type iv struct {
		lo, hi int
		c      *big.Int
	}
	var ivs []iv
	cuts := map[int]bool{}
	for _, t := range g {
		lo, hi := 0, w
		if t != b {
			lo, hi = t.a, t.a+t.b
		} else if w < 0 {
			// unbounded base next to its slices: keep as they are
			var out []linTerm
			for _, t := range g {
				out = append(out, linTerm{t, coef[t]})
			}
			return out
		}
		cuts[lo], cuts[hi] = true, true
		ivs = append(ivs, iv{lo, hi, coef[t]})
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	var pieces []iv
	for i := 0; i+1 < len(cs); i++ {
		sum := new(big.Int)
		for _, v := range ivs {
			if v.lo <= cs[i] && cs[i+1] <= v.hi {
				sum.Add(sum, new(big.Int).Mul(v.c, pow2(cs[i]-v.lo)))
			}
		}
		if sum.Sign() == 0 {
			continue
		}
		if n := len(pieces); n > 0 && pieces[n-1].hi == cs[i] &&
			new(big.Int).Mul(pieces[n-1].c, pow2(pieces[n-1].hi-pieces[n-1].lo)).Cmp(sum) == 0 {
			pieces[n-1].hi = cs[i+1]
			continue
		}
		pieces = append(pieces, iv{cs[i], cs[i+1], sum})
	}
	var out []linTerm
	for _, p := range pieces {
		out = append(out, linTerm{rawSlice(b, p.lo, p.hi-p.lo), p.c})
	}
	return out
}

func rawSlice(b *Term, lo, w int) *Term {
	if bw := width(b); bw >= 0 {
		if lo >= bw {
			return C(0)
		}
		if lo+w > bw {
			w = bw - lo
		}
		if lo == 0 && w == bw {
			return b
		}
	}
	if b.op == OSlice {
		return rawSlice(b.args[0], b.a+lo, w)
	}
	hi := new(big.Int).Sub(pow2(w), big1)
	if b.hi != nil {
		h := new(big.Int).Rsh(b.hi, uint(lo))
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	bits := b.bits
	if b.op == OLin {
		bits = true
	}
	return intern(&Term{op: OSlice, args: []*Term{b}, a: lo, b: w, lo: big0, hi: hi, bits: bits})
}

// field is one non-overlapping piece of a bit layout.
type field struct {
	shift, w int
	t        *Term // nil: constant num
	num      *big.Int
}

// layout decomposes a non-negative integer into disjoint bit fields.
func layout(x *Term) ([]field, bool) {
	k, ps := linParts(x)
	if k.Sign() < 0 {
		return nil, false
	}
	fs := make([]field, 0, len(ps)+2)
	for _, p := range ps {
		w := width(p.t)
		if w < 0 || p.c.Sign() <= 0 {
			return nil, false
		}
		s := int(p.c.TrailingZeroBits())
		if s != p.c.BitLen()-1 {
			return nil, false
		}
		fs = append(fs, field{shift: s, w: w, t: p.t})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].shift < fs[j].shift })
	for i := 0; i+1 < len(fs); i++ {
		if fs[i].shift+fs[i].w > fs[i+1].shift {
			return nil, false
		}
	}
	if k.Sign() > 0 {
		// the constant's bits have to lie outside every field
		for _, f := range fs {
			if extractBits(k, f.shift, f.w).Sign() != 0 {
				return nil, false
			}
		}
		pos := 0
		kw := k.BitLen()
		var cfs []field
		for _, f := range append(append([]field{}, fs...), field{shift: kw}) {
			if f.shift > pos {
				if c := extractBits(k, pos, f.shift-pos); c.Sign() > 0 {
					cfs = append(cfs, field{shift: pos, w: f.shift - pos, num: c})
				}
			}
			if f.shift+f.w > pos {
				pos = f.shift + f.w
			}
		}
		fs = append(fs, cfs...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].shift < fs[j].shift })
	}
	return fs, true
}

func extractBits(k *big.Int, lo, w int) *big.Int {
	r := new(big.Int).Rsh(k, uint(lo))
	return r.And(r, new(big.Int).Sub(pow2(w), big1))
}

const inf = 1 << 30

func inRange32(x *Term) bool {
	return entails(Ge(x, big0)) && entails(Not(Ge(x, pow2(32))))
}

// Slice is bits [lo, lo+w) of x >= 0 (w may be inf: shift right).
func Slice(x *Term, lo, w int) *Term {
	if x.op == OIte {
		return lift1(x, func(a *Term) *Term { return Slice(a, lo, w) })
	}
	if w <= 0 {
		return C(0)
	}
	if x.isConst() {
		if x.num.Sign() < 0 {
			return App("bits", sortAny, x, C(int64(lo)), C(int64(w)))
		}
		if w >= inf {
			return CB(new(big.Int).Rsh(x.num, uint(lo)))
		}
		return CB(extractBits(x.num, lo, w))
	}
	xw := width(x)
	if x.op == OLin && (lo == 31 && (w == 1 || w >= inf) || lo == 0 && w == 31) && (xw < 0 || xw > 32) && inRange32(x) {
		// the halves of a sum that is known to be a 32-bit word
		high := Ge(x, pow2(31))
		if lo == 31 {
			return Ite(high, C(1), C(0))
		}
		return Ite(high, Sub(x, CB(pow2(31))), x)
	}
	if xw < 0 {
		if w >= inf {
			if lo == 0 {
				return x
			}
			if x.lo != nil && x.lo.Sign() >= 0 {
				return FloorDiv(x, CB(pow2(lo)))
			}
			return App("shr", sortAny, x, C(int64(lo)))
		}
		if x.lo != nil && x.lo.Sign() >= 0 && x.op != OLin {
			return rawSlice(x, lo, w)
		}
		if x.op == OLin {
			// low bits only depend on low bits: drop multiples of 2^(lo+w)
			return intern(&Term{op: OSlice, args: []*Term{lowPart(x, lo+w)}, a: lo, b: w, lo: big0, hi: new(big.Int).Sub(pow2(w), big1), bits: true})
		}
		return intern(&Term{op: OSlice, args: []*Term{x}, a: lo, b: w, lo: big0, hi: new(big.Int).Sub(pow2(w), big1), bits: true})
	}
	if lo >= xw {
		return C(0)
	}
	if lo+w > xw || w >= inf {
		w = xw - lo
	}
	if lo == 0 && w == xw {
		return x
	}
	if lo == 0 && w == 31 && xw == 32 && x.op != OLin {
		// dropping the top bit of a 32-bit word that is known to be clear
		if entails(Not(Ge(x, pow2(31)))) {
			return x
		}
	}
	fs, ok := layout(x)
	if !ok {
		// low bits do not depend on higher terms
		if x.op == OLin {
			l := lowPart(x, lo+w)
			if l != x && width(l) >= 0 {
				return Slice(l, lo, w)
			}
		}
		return rawSlice(x, lo, w)
	}
	out := []linTerm{}
	k := new(big.Int)
	for _, f := range fs {
		a, b := f.shift, f.shift+f.w
		if a < lo {
			a = lo
		}
		if b > lo+w {
			b = lo + w
		}
		if a >= b {
			continue
		}
		sc := pow2(a - lo)
		if f.t == nil {
			c := extractBits(f.num, a-f.shift, b-a)
			k.Add(k, c.Mul(c, sc))
			continue
		}
		out = append(out, linTerm{rawSlice(f.t, a-f.shift, b-a), sc})
	}
	return mkLin(k, out)
}

// lowPart drops parts of a linear form that are multiples of 2^n.
func lowPart(x *Term, n int) *Term {
	k, ps := linParts(x)
	m := pow2(n)
	var out []linTerm
	for _, p := range ps {
		c := new(big.Int).Mod(p.c, m)
		if c.Sign() != 0 {
			if p.c.Sign() < 0 {
				c = p.c
				if new(big.Int).Mod(p.c, m).Sign() == 0 {
					continue
				}
			}
			out = append(out, linTerm{p.t, c})
		}
	}
	kk := k
	if k.Sign() >= 0 {
		kk = new(big.Int).Mod(k, m)
	}
	return mkLin(kk, out)
}

func Shl(x *Term, n int) *Term { return MulCB(x, pow2(n)) }
func Shr(x *Term, n int) *Term { return Slice(x, n, inf) }

// AndInt is bitwise and.
func AndInt(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, AndInt)
	}
	if x == y {
		return x
	}
	if x.isConst() && y.isConst() && x.num.Sign() >= 0 && y.num.Sign() >= 0 {
		return CB(new(big.Int).And(x.num, y.num))
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && y.num.Sign() >= 0 {
		r := C(0)
		m := y.num
		if ones := new(big.Int).Add(m, big1); m.Sign() > 0 && new(big.Int).And(m, ones).Sign() == 0 && inRange(x, big0, m) {
			return x
		}
		if low := m.TrailingZeroBits(); m.Sign() > 0 && low > 0 && !x.isConst() && inRange(x, big0, new(big.Int).Sub(pow2(int(low)), big1)) {
			return r
		}
		for i := 0; i < m.BitLen(); {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			r = Add(r, Shl(Slice(x, i, j-i), i))
			i = j
		}
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	s := &Sort{kind: 'i', lo: big0}
	if x.hi != nil && y.hi != nil {
		s.hi = x.hi
		if y.hi.Cmp(s.hi) < 0 {
			s.hi = y.hi
		}
	}
	return App("and", s, x, y)
}

// OrInt is bitwise or.
func OrInt(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, OrInt)
	}
	if x == y {
		return x
	}
	if x.isConst() && y.isConst() && x.num.Sign() >= 0 && y.num.Sign() >= 0 {
		return CB(new(big.Int).Or(x.num, y.num))
	}
	s := Add(x, y)
	if _, ok := layout(x); ok {
		if _, ok := layout(y); ok && disjointBits(x, y) {
			return s
		}
	}
	if disjointRange(x, y) {
		return s
	}
	// or with a constant: set bits
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && y.num.Sign() >= 0 && width(x) >= 0 {
		rest := new(big.Int).Sub(pow2(maxInt(width(x), y.num.BitLen())), big1)
		rest.AndNot(rest, y.num)
		return Add(AndInt(x, CB(rest)), y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	so := &Sort{kind: 'i', lo: big0}
	if wx, wy := width(x), width(y); wx >= 0 && wy >= 0 {
		so.hi = new(big.Int).Sub(pow2(maxInt(wx, wy)), big1)
	}
	return App("or", so, x, y)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func disjointBits(x, y *Term) bool {
	fx, ok1 := layout(x)
	fy, ok2 := layout(y)
	if !ok1 || !ok2 {
		return false
	}
	for _, a := range fx {
		for _, b := range fy {
			if a.shift < b.shift+b.w && b.shift < a.shift+a.w {
				if a.t == nil && b.t == nil {
					ca := new(big.Int).Lsh(a.num, uint(a.shift))
					cb := new(big.Int).Lsh(b.num, uint(b.shift))
					if ca.And(ca, cb).Sign() == 0 {
						continue
					}
				}
				// constants inside a field still may be disjoint from it
				return false
			}
		}
	}
	return true
}

// disjointRange: one operand is a multiple of a power of two above the other.
func disjointRange(x, y *Term) bool {
	if x.isConst() {
		x, y = y, x
	}
	if !y.isConst() || y.num.Sign() <= 0 {
		return false
	}
	tz := int(y.num.TrailingZeroBits())
	return tz > 0 && inRange(x, big0, new(big.Int).Sub(pow2(tz), big1))
}

// XorInt is bitwise exclusive or.
func XorInt(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, XorInt)
	}
	if x == y {
		return C(0)
	}
	if x.isConst() && y.isConst() && x.num.Sign() >= 0 && y.num.Sign() >= 0 {
		return CB(new(big.Int).Xor(x.num, y.num))
	}
	if disjointBits(x, y) || disjointRange(x, y) {
		return Add(x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && y.num.Sign() >= 0 && width(x) >= 0 {
		// x ^ c = (x with c's bits removed) + (c - x's bits under c)
		rest := new(big.Int).Sub(pow2(maxInt(width(x), y.num.BitLen())), big1)
		rest.AndNot(rest, y.num)
		return Add(AndInt(x, CB(rest)), Sub(y, AndInt(x, y)))
	}
	if x.id > y.id {
		x, y = y, x
	}
	so := &Sort{kind: 'i', lo: big0}
	if wx, wy := width(x), width(y); wx >= 0 && wy >= 0 {
		so.hi = new(big.Int).Sub(pow2(maxInt(wx, wy)), big1)
	}
	return App("xor", so, x, y)
}

// MulInt multiplies; products of atoms become sorted monomials.
func MulInt(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, MulInt)
	}
	if x.isConst() {
		return MulCB(y, x.num)
	}
	if y.isConst() {
		return MulCB(x, y.num)
	}
	kx, px := linParts(x)
	ky, py := linParts(y)
	r := CB(new(big.Int).Mul(kx, ky))
	for _, p := range px {
		r = Add(r, mkLin(big0, []linTerm{{p.t, new(big.Int).Mul(p.c, ky)}}))
	}
	for _, p := range py {
		r = Add(r, mkLin(big0, []linTerm{{p.t, new(big.Int).Mul(p.c, kx)}}))
	}
	for _, p := range px {
		for _, q := range py {
			r = Add(r, MulCB(monomial(p.t, q.t), new(big.Int).Mul(p.c, q.c)))
		}
	}
	return r
}

func monomial(x, y *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{x, y} {
		if t.op == OApp && t.str == "mono" {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	s := &Sort{kind: 'i'}
	if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
		s.lo = new(big.Int).Mul(x.lo, y.lo)
		if x.hi != nil && y.hi != nil {
			s.hi = new(big.Int).Mul(x.hi, y.hi)
		}
	}
	return rawApp("mono", s, fs...)
}

// FloorDiv is floor(x/c) for a positive constant c.
func FloorDiv(x, c *Term) *Term {
	if x.op == OIte || c.op == OIte {
		return lift2(x, c, FloorDiv)
	}
	if !c.isConst() || c.num.Sign() <= 0 {
		return App("div", sortAny, x, c)
	}
	n := c.num
	if n.Cmp(big1) == 0 {
		return x
	}
	if x.isConst() {
		return CB(floorDiv(x.num, n))
	}
	x = narrowed(x)
	if x.lo != nil && x.hi != nil {
		a, b := floorDiv(x.lo, n), floorDiv(x.hi, n)
		if a.Cmp(b) == 0 {
			return CB(a)
		}
	}
	if x.lo != nil && x.lo.Sign() >= 0 && int(n.TrailingZeroBits()) == n.BitLen()-1 && width(x) >= 0 {
		if _, ok := layout(x); ok && x.bitsy() {
			return Shr(x, n.BitLen()-1)
		}
	}
	// split off the multiples of n
	k, ps := linParts(x)
	q := CB(floorDiv(k, n))
	var rest []linTerm
	for _, p := range ps {
		d, m := new(big.Int).QuoRem(p.c, n, new(big.Int))
		if d.Sign() != 0 {
			q = Add(q, mkLin(big0, []linTerm{{p.t, d}}))
		}
		if m.Sign() != 0 {
			rest = append(rest, linTerm{p.t, m})
		}
	}
	r := mkLin(new(big.Int).Mod(k, n), rest)
	if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(n) < 0 {
		return q
	}
	// reduce by the gcd
	g := new(big.Int).Set(n)
	_, rp := linParts(r)
	for _, p := range rp {
		g.GCD(nil, nil, g, new(big.Int).Abs(p.c))
	}
	if g.Cmp(big1) > 0 {
		kr, _ := linParts(r)
		var ps2 []linTerm
		for _, p := range rp {
			ps2 = append(ps2, linTerm{p.t, new(big.Int).Quo(p.c, g)})
		}
		return Add(q, FloorDiv(mkLin(floorDiv(kr, g), ps2), CB(new(big.Int).Quo(n, g))))
	}
	s := &Sort{kind: 'i'}
	if r.lo != nil {
		s.lo = floorDiv(r.lo, n)
	}
	if r.hi != nil {
		s.hi = floorDiv(r.hi, n)
	}
	return Add(q, rawApp("div", s, r, c))
}

func floorDiv(a, n *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, n, new(big.Int)) // Euclidean = floor for n>0
	_ = m
	return q
}

// bitsy: every atom is a bit-pattern atom.
func (t *Term) bitsy() bool {
	_, ps := linParts(t)
	for _, p := range ps {
		if !p.t.bits {
			return false
		}
	}
	return true
}

// ModInt is x mod c (non-negative result) for a positive constant c.
func ModInt(x, c *Term) *Term {
	if x.op == OIte || c.op == OIte {
		return lift2(x, c, ModInt)
	}
	if !c.isConst() || c.num.Sign() <= 0 {
		return App("mod", sortNat, x, c)
	}
	n := c.num
	if x.isConst() {
		return CB(new(big.Int).Mod(x.num, n))
	}
	x = narrowed(x)
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(n) < 0 {
		return x
	}
	if int(n.TrailingZeroBits()) == n.BitLen()-1 {
		if x.lo != nil && x.lo.Sign() >= 0 && x.bitsy() {
			return Slice(x, 0, n.BitLen()-1)
		}
	}
	k, ps := linParts(x)
	var out []linTerm
	changed := false
	for _, p := range ps {
		t := p.t
		if t.op == OApp && t.str == "mod" && t.args[1] == c {
			// (a mod n) contributes like a
			ka, pa := linParts(t.args[0])
			k = new(big.Int).Add(k, new(big.Int).Mul(ka, p.c))
			for _, q := range pa {
				out = append(out, linTerm{q.t, new(big.Int).Mul(q.c, p.c)})
			}
			changed = true
			continue
		}
		out = append(out, p)
	}
	if changed {
		return ModInt(mkLin(k, out), c)
	}
	var red []linTerm
	for _, p := range out {
		m := new(big.Int).Mod(p.c, n)
		if m.Cmp(p.c) != 0 {
			changed = true
		}
		if m.Sign() != 0 {
			red = append(red, linTerm{p.t, m})
		}
	}
	km := new(big.Int).Mod(k, n)
	if km.Cmp(k) != 0 {
		changed = true
	}
	if changed {
		return ModInt(mkLin(km, red), c)
	}
	s := &Sort{kind: 'i', lo: big0, hi: new(big.Int).Sub(n, big1), bits: x.bitsy()}
	return rawApp("mod", s, x, c)
}

// ---- ranges under the current path condition

var curPC = tTrue

// rangeOf returns bounds of x using the facts of the current path.
func rangeOf(x *Term) (lo, hi *big.Int) {
	lo, hi = x.lo, x.hi
	if curPC.op != OIte || x.isConst() {
		return
	}
	k, ps := linParts(x)
	if len(ps) == 0 {
		return
	}
	// direct facts about the same linear form up to scaling by +-1
	base, neg := linBase(ps)
	for _, l := range literals(curPC) {
		if l.atom.op != OGe || l.atom.args[0] != base {
			continue
		}
		var bl, bh *big.Int
		if l.val {
			bl = l.atom.num
		} else {
			bh = new(big.Int).Sub(l.atom.num, big1)
		}
		if neg {
			bl, bh = negB(bh), negB(bl)
		}
		if bl != nil {
			v := new(big.Int).Add(bl, k)
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if bh != nil {
			v := new(big.Int).Add(bh, k)
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	if len(ps) > 1 {
		// interval sum of refined parts
		sl, sh := new(big.Int).Set(k), new(big.Int).Set(k)
		for _, p := range ps {
			l, h := rangeOf(p.t)
			if p.c.Sign() < 0 {
				l, h = h, l
			}
			if sl != nil && l != nil {
				sl.Add(sl, new(big.Int).Mul(l, p.c))
			} else {
				sl = nil
			}
			if sh != nil && h != nil {
				sh.Add(sh, new(big.Int).Mul(h, p.c))
			} else {
				sh = nil
			}
		}
		if sl != nil && (lo == nil || sl.Cmp(lo) > 0) {
			lo = sl
		}
		if sh != nil && (hi == nil || sh.Cmp(hi) < 0) {
			hi = sh
		}
	} else if ps[0].c.Cmp(big1) != 0 {
		l, h := rangeOf(ps[0].t)
		c := ps[0].c
		if c.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			v := new(big.Int).Add(new(big.Int).Mul(l, c), k)
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if h != nil {
			v := new(big.Int).Add(new(big.Int).Mul(h, c), k)
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	return
}

func negB(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Neg(x)
}

// linBase returns the normalised primitive form used by comparison atoms.
func linBase(ps []linTerm) (*Term, bool) {
	first := ps[0]
	for _, p := range ps {
		if p.t.id < first.t.id {
			first = p
		}
	}
	neg := first.c.Sign() < 0
	out := make([]linTerm, len(ps))
	for i, p := range ps {
		c := p.c
		if neg {
			c = new(big.Int).Neg(c)
		}
		out[i] = linTerm{p.t, c}
	}
	return mkLin(big0, out), neg
}

// narrowed is a hook for range facts; values stay the same.
func narrowed(x *Term) *Term { return x }

// inRange reports lo <= x <= hi on the current path.
func inRange(x *Term, lo, hi *big.Int) bool {
	ok := true
	lift1(x, func(y *Term) *Term {
		l, h := rangeOf(y)
		if lo != nil && (l == nil || l.Cmp(lo) < 0) || hi != nil && (h == nil || h.Cmp(hi) > 0) {
			// try linear facts
			if lo != nil && !entails(Ge(y, lo)) || hi != nil && !entails(Not(Ge(y, new(big.Int).Add(hi, big1)))) {
				ok = false
			}
		}
		return C(0)
	})
	return ok
}

// ---- comparisons

// Ge is x >= c.
func Ge(x *Term, c *big.Int) *Term {
	if x.op == OIte {
		return liftBool1(x, func(a *Term) *Term { return Ge(a, c) })
	}
	if x.op == OTab {
		return tabBool(x, func(a *Term) *Term { return Ge(a, c) })
	}
	k, ps := linParts(x)
	if len(ps) == 0 {
		return boolT(k.Cmp(c) >= 0)
	}
	if x.lo != nil && x.lo.Cmp(c) >= 0 {
		return tTrue
	}
	if x.hi != nil && x.hi.Cmp(c) < 0 {
		return tFalse
	}
	c = new(big.Int).Sub(c, k)
	g := new(big.Int)
	for _, p := range ps {
		g.GCD(nil, nil, g, new(big.Int).Abs(p.c))
	}
	if g.Cmp(big1) > 0 {
		ps2 := make([]linTerm, len(ps))
		for i, p := range ps {
			ps2[i] = linTerm{p.t, new(big.Int).Quo(p.c, g)}
		}
		ps = ps2
		c = ceilDiv(c, g)
	}
	base, neg := linBase(ps)
	if neg {
		// sum >= c  <=>  !(-sum >= 1-c)
		return Not(geBase(base, new(big.Int).Sub(big1, c)))
	}
	return geBase(base, c)
}

func ceilDiv(a, g *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), g))
}

func geBase(x *Term, c *big.Int) *Term {
	if x.lo != nil && x.lo.Cmp(c) >= 0 {
		return tTrue
	}
	if x.hi != nil && x.hi.Cmp(c) < 0 {
		return tFalse
	}
	if x.op == OTab || x.op == OIte {
		return Ge(x, c)
	}
	if d := cmpArg(x); d != nil {
		// c is 0 or 1 here
		return Ge(d, c)
	}
	if c.Cmp(big1) == 0 {
		if z := bitZero(x); z != nil {
			return Not(z)
		}
	}
	if c.Cmp(big1) == 0 && x.lo != nil && x.lo.Sign() >= 0 && width(x) > 8 && x.bitsy() {
		return Not(zeroTest(x))
	}
	if x.op == OSlice {
		// top slices compare like their base
		b := x.args[0]
		if bw := width(b); bw >= 0 && x.a+x.b == bw && x.a > 0 {
			return Ge(b, new(big.Int).Mul(c, pow2(x.a)))
		}
	}
	return mkNode(intern(&Term{op: OGe, args: []*Term{x}, num: new(big.Int).Set(c)}), tTrue, tFalse)
}

// zeroTest is x == 0 for a wide bit pattern.
func zeroTest(x *Term) *Term {
	if r := zeroHook(x); r != nil {
		return r
	}
	if r := bitZero(x); r != nil {
		return r
	}
	if x.hi != nil && x.hi.Cmp(big1) == 0 || width(x) <= 8 && width(x) >= 0 {
		return Not(Ge(x, big1))
	}
	fs, ok := layout(x)
	if !ok {
		fs = []field{{0, width(x), x, nil}}
	}
	r := tTrue
	for i := len(fs) - 1; i >= 0; i-- {
		f := fs[i]
		if f.t == nil {
			return tFalse
		}
		if h := zeroHook(f.t); h != nil {
			r = And(h, r)
			continue
		}
		// byte chunks of the underlying atom
		base, lo, w := f.t, 0, f.w
		if f.t.op == OSlice {
			base, lo, w = f.t.args[0], f.t.a, f.t.b
		}
		for p := lo; p < lo+w; {
			q := (p/8 + 1) * 8
			if q > lo+w {
				q = lo + w
			}
			s := rawSlice(base, p, q-p)
			if bw := width(s); bw > 8 {
				r = And(Not(mkNode(intern(&Term{op: OGe, args: []*Term{s}, num: big1}), tTrue, tFalse)), r)
			} else {
				r = And(Not(Ge(s, big1)), r)
			}
			p = q
		}
	}
	return r
}

// bitZero is x == 0 for a bitwise or or exclusive or: both operands are zero, or they are equal.
func bitZero(x *Term) *Term {
	if x.op != OApp {
		return nil
	}
	switch x.str {
	case "or":
		return And(Eq(x.args[0], C(0)), Eq(x.args[1], C(0)))
	case "xor":
		return Eq(x.args[0], x.args[1])
	}
	return nil
}

// Eq is integer equality.
func Eq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.op == OIte || y.op == OIte {
		return lift2(x, y, Eq)
	}
	if x.op == OTab && y.isConst() {
		return tabBool(x, func(a *Term) *Term { return Eq(a, y) })
	}
	if y.op == OTab && x.isConst() {
		return Eq(y, x)
	}
	if y.isConst() {
		if d := cmpArg(x); d != nil {
			switch k, _ := y.constInt(); k {
			case 0:
				return Eq(d, C(0))
			case 1:
				return Ge(d, big1)
			case -1:
				return Not(Ge(d, big0))
			}
			return tFalse
		}
		if x.op == OApp && x.str == "hexdigit" {
			k, _ := y.constInt()
			if v := strings.IndexByte("0123456789abcdef", byte(k)); v >= 0 && k < 128 {
				return Eq(x.args[0], C(int64(v)))
			}
			return tFalse
		}
	} else if x.isConst() {
		return Eq(y, x)
	}
	d := Sub(x, y)
	if d.isConst() {
		return boolT(d.num.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return tFalse
	}
	k, ps := linParts(d)
	var up, dn []linTerm
	for _, p := range ps {
		if p.c.Sign() > 0 {
			up = append(up, p)
		} else {
			dn = append(dn, linTerm{p.t, new(big.Int).Neg(p.c)})
		}
	}
	ku, kd := big0, big0
	if k.Sign() > 0 {
		ku = k
	} else {
		kd = new(big.Int).Neg(k)
	}
	// gcd-infeasible equalities
	g := new(big.Int)
	for _, p := range ps {
		g.GCD(nil, nil, g, new(big.Int).Abs(p.c))
	}
	if new(big.Int).Mod(k, g).Sign() != 0 {
		return tFalse
	}
	u, v := mkLin(ku, up), mkLin(kd, dn)
	wu, wv := width(u), width(v)
	if wu >= 0 && wv >= 0 && u.bitsy() && v.bitsy() {
		if v.isConst() && v.num.Sign() == 0 && wu > 8 {
			return zeroTest(u)
		}
		if u.isConst() && u.num.Sign() == 0 && wv > 8 {
			return zeroTest(v)
		}
		if w := maxInt(wu, wv); w > 64 && (u.isConst() || v.isConst()) {
			return eqSmall(u, v)
		}
		_, ok1 := layout(u)
		_, ok2 := layout(v)
		w := maxInt(wu, wv)
		if ok1 && ok2 && w > 8 {
			r := tTrue
			for p := (w - 1) / 8 * 8; p >= 0; p -= 8 {
				r = And(eqSmall(Slice(u, p, 8), Slice(v, p, 8)), r)
			}
			return r
		}
	}
	return eqSmall(u, v)
}

func eqSmall(u, v *Term) *Term {
	if u == v {
		return tTrue
	}
	d := Sub(u, v)
	if d.isConst() {
		return boolT(d.num.Sign() == 0)
	}
	if isBit(u) && isBit(v) {
		return Iff(Ge(u, big1), Ge(v, big1))
	}
	return And(Ge(d, big0), Not(Ge(d, big1)))
}

func isBit(x *Term) bool {
	return x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(big1) <= 0
}

func Lt(x, y *Term) *Term { return Not(Ge(Sub(x, y), big0)) }
func Le(x, y *Term) *Term { return Ge(Sub(y, x), big0) }

// CmpInt is -1, 0 or 1.
func CmpInt(x, y *Term) *Term {
	return lift1(Sub(x, y), func(d *Term) *Term {
		switch {
		case d.isConst():
			return C(int64(d.num.Sign()))
		case d.lo != nil && d.lo.Sign() > 0:
			return C(1)
		case d.hi != nil && d.hi.Sign() < 0:
			return C(-1)
		}
		return rawApp("cmp", &Sort{kind: 'i', lo: big.NewInt(-1), hi: big1}, d)
	})
}

// cmpArg views x as cmp(d).
func cmpArg(x *Term) *Term {
	if x.op == OApp && x.str == "cmp" {
		return x.args[0]
	}
	return nil
}

func liftBool1(x *Term, f func(*Term) *Term) *Term { return lift1(x, f) }

// b01 turns a condition into 0 or 1.
func b01(c *Term) *Term {
	switch c.op {
	case OTrue:
		return C(1)
	case OFalse:
		return C(0)
	}
	return Ite(c, C(1), C(0))
}

// bitOfAtom returns the 0/1 integer equal to the atom, if it is a bit test.
func bitOfAtom(atom *Term) *Term {
	if atom.op != OGe {
		return nil
	}
	x := atom.args[0]
	if atom.num.Cmp(big1) == 0 && isBit(x) {
		return x
	}
	if w := width(x); w > 0 && atom.num.Cmp(pow2(w-1)) == 0 && x.op != OLin {
		return rawSlice(x, w-1, 1)
	}
	return nil
}

// iteInt applies the integer normal forms of a gate; nil if none applies.
func iteInt(atom, a, b *Term) *Term {
	if r := decyHook(atom, a, b); r != nil {
		return r
	}
	if a.op == OIte || b.op == OIte {
		// cofactored gates: same decision below
		return nil
	}
	bit := bitOfAtom(atom)
	if bit == nil {
		return nil
	}
	a2, b2 := setLinear(a, bit, big1), setLinear(b, bit, big0)
	d := Sub(a2, b2)
	if d.isConst() {
		return Add(b2, MulCB(bit, d.num))
	}
	if a2 != a || b2 != b {
		return mkNode(atom, a2, b2)
	}
	return nil
}

// setLinear fixes the value of an atom occurring as a linear term of x.
func setLinear(x, atom *Term, v *big.Int) *Term {
	k, ps := linParts(x)
	for _, p := range ps {
		if p.t == atom {
			return Add(x, mkLin(new(big.Int).Mul(p.c, v), []linTerm{{atom, new(big.Int).Neg(p.c)}}))
		}
	}
	_ = k
	return x
}

// substBlen uses a decided byte-length comparison inside t.
func substBlen(atom *Term, v bool, t *Term) *Term {
	if t.flags&fMin == 0 || atom.op != OGe {
		return t
	}
	x := atom.args[0]
	if x.op != OApp || x.str != "blen" {
		return t
	}
	var val *big.Int
	if v && x.hi != nil && x.hi.Cmp(atom.num) == 0 {
		val = x.hi
	}
	if !v && x.lo != nil && new(big.Int).Sub(atom.num, big1).Cmp(x.lo) == 0 {
		val = x.lo
	}
	if val == nil {
		return t
	}
	return substMin(t, x, val)
}

// substMin replaces blen(x)=n, so the minimal bytes of x become n cells.
func substMin(t, bl *Term, n *big.Int) *Term {
	x := bl.args[0]
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(y *Term) *Term {
		if y.flags&fMin == 0 {
			return y
		}
		if y == bl {
			return CB(n)
		}
		if r, ok := memo[y]; ok {
			return r
		}
		var r *Term
		if y.op == OMin && y.args[0] == x {
			r = Cells(x, int(n.Int64()))
		} else {
			r = rebuild(y, rec)
		}
		memo[y] = r
		return r
	}
	return rec(t)
}

// ---- linear entailment from the facts of the current path

// entails reports whether the path condition implies c.
func entails(c *Term) bool {
	if c.op == OTrue {
		return true
	}
	if curPC.op == OFalse {
		return true
	}
	if implies(curPC, c) {
		return true
	}
	c = Restrict(c, curPC)
	if c.op == OTrue {
		return true
	}
	if c.op != OIte {
		return false
	}
	// every path of the decision graph to false has to be refuted linearly
	budget := 200
	var walk func(n *Term, facts []lfact) bool
	base := lfacts(literals(curPC))
	walk = func(n *Term, facts []lfact) bool {
		budget--
		if budget < 0 {
			return false
		}
		switch n.op {
		case OTrue:
			return true
		case OFalse:
			return infeasible(append(append([]lfact{}, base...), facts...))
		}
		if n.op != OIte {
			return infeasible(append(append(append([]lfact{}, base...), facts...), lfacts([]literal{{n, false}})...))
		}
		ft := append(append([]lfact{}, facts...), lfacts([]literal{{n.args[0], true}})...)
		ff := append(append([]lfact{}, facts...), lfacts([]literal{{n.args[0], false}})...)
		return walk(n.args[1], ft) && walk(n.args[2], ff)
	}
	if walk(c, nil) {
		return true
	}
	// the alternatives of the path condition one by one
	budget = 100
	var both func(p, n *Term, facts []lfact) bool
	both = func(p, n *Term, facts []lfact) bool {
		if budget--; budget < 0 {
			return false
		}
		if p.op == OFalse || n.op == OTrue {
			return true
		}
		if p.op != OIte && n.op != OIte {
			return len(facts) > 0 && infeasible(append([]lfact{}, facts...))
		}
		a := gateTop(p, n)
		for _, v := range []bool{true, false} {
			if !both(cofTop(p, a, v), cofTop(n, a, v), append(append([]lfact{}, facts...), lfacts([]literal{{a, v}})...)) {
				return false
			}
		}
		return true
	}
	return both(curPC, c, nil)
}

// lfact: t >= 0.
type lfact = *Term

func lfacts(ls []literal) []lfact {
	var out []lfact
	for _, l := range ls {
		if l.atom.op != OGe {
			// a text is at least as long as what it contains
			if l.val && l.atom.op == OBAtom && len(l.atom.args) == 2 {
				switch l.atom.str {
				case "hasprefix", "hassuffix", "contains":
					if d := Sub(Len(l.atom.args[0]), Len(l.atom.args[1])); d.op != OIte {
						out = append(out, d)
					}
				}
			}
			continue
		}
		if l.val {
			out = append(out, Add(l.atom.args[0], CB(new(big.Int).Neg(l.atom.num))))
		} else {
			out = append(out, Sub(CB(new(big.Int).Sub(l.atom.num, big1)), l.atom.args[0]))
		}
	}
	return out
}

// infeasible looks for a non-negative combination (up to a few facts) that is
// negative everywhere.
func infeasible(fs []lfact) bool {
	neg := func(t *Term) bool { return t.hi != nil && t.hi.Sign() < 0 }
	// add division facts: q = div(r,c): c*q <= r, r <= c*q + c-1
	extra := divFacts(fs)
	fs = append(fs, extra...)
	seen := map[*Term]bool{}
	work := []*Term{}
	for _, f := range fs {
		if neg(f) {
			return true
		}
		if !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	cur := work
	for depth := 0; depth < 4; depth++ {
		var next []*Term
		for _, s := range cur {
			for _, f := range work {
				r, ok := eliminate(s, f)
				if !ok || seen[r] {
					continue
				}
				seen[r] = true
				if neg(r) {
					return true
				}
				next = append(next, r)
				if len(seen) > 3000 {
					return false
				}
			}
		}
		cur = next
	}
	return false
}

// eliminate combines two facts so that one common atom cancels.
func eliminate(x, y *Term) (*Term, bool) {
	_, px := linParts(x)
	_, py := linParts(y)
	for _, p := range px {
		for _, q := range py {
			if p.t == q.t && p.c.Sign()*q.c.Sign() < 0 {
				a := new(big.Int).Abs(q.c)
				b := new(big.Int).Abs(p.c)
				return Add(MulCB(x, a), MulCB(y, b)), true
			}
		}
	}
	return nil, false
}

func divFacts(fs []lfact) []lfact {
	var out []lfact
	seen := map[*Term]bool{}
	for _, f := range fs {
		anyTerm(f, func(t *Term) bool {
			if t.op == OApp && (t.str == "div") && t.args[1].isConst() && !seen[t] {
				seen[t] = true
				m := MulCB(t, t.args[1].num)
				d := Sub(t.args[0], m)
				out = append(out, d, Sub(CB(new(big.Int).Sub(t.args[1].num, big1)), d))
			}
			return false
		})
	}
	return out
}
