package main

import (
	"math/big"
	"strings"
)

// ---- segments

func isSeg(t *Term) bool {
	switch t.op {
	case OLit, OFill, OSub, OMin, ORep:
		return true
	}
	return false
}

func lit(s string) *Term { return intern(&Term{op: OLit, str: s}) }

// Str is a constant string.
func Str(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return intern(&Term{op: OSeq, args: []*Term{lit(s)}})
}

// lenOfBase is the length of an uninterpreted sequence.
func lenOfBase(b *Term) *Term {
	if s, ok := b.aux.(*Sort); ok && s.n > 0 {
		return C(int64(s.n))
	}
	s := sortLen
	if so, ok := b.aux.(*Sort); ok && so.kind == 's' && (so.lo != nil || so.hi != nil) {
		s = &Sort{kind: 'i', lo: big0, hi: maxLen}
		if so.lo != nil {
			s.lo = so.lo
		}
		if so.hi != nil {
			s.hi = so.hi
		}
	}
	if strings.HasPrefix(b.str, "$rvl") {
		return b.args[2]
	}
	switch b.str {
	case "hex":
		return MulCB(Len(b.args[0]), big.NewInt(2))
	case "upd":
		return Len(b.args[0])
	case "unhex": // used for hex text only
		return FloorDiv(Len(b.args[0]), C(2))
	}
	return rawApp("len", s, b)
}

// wholeSeq is the sequence of all elements of an uninterpreted base.
func wholeSeq(b *Term) *Term {
	if b.op == OIte {
		return lift1(b, wholeSeq)
	}
	if b.op != OApp {
		return b
	}
	return mkSubSeq(b, C(0), lenOfBase(b))
}

func segFill(v, n *Term) *Term { return intern(&Term{op: OFill, args: []*Term{v, n}}) }

// mkSubSeq is n elements of base from lo, as a sequence.
func mkSubSeq(base, lo, n *Term) *Term {
	if base.op == OIte || lo.op == OIte || n.op == OIte {
		return liftTop([]*Term{base, lo, n}, func(x []*Term) *Term { return mkSubSeq(x[0], x[1], x[2]) })
	}
	if base.op == OSeq {
		return SubSeq(base, lo, Add(lo, n))
	}
	if n.isConst() {
		if n.num.Sign() <= 0 {
			return tEmpty
		}
		if k, ok := n.constInt(); ok && k <= 512 && lo.isConst() {
			xs := make([]*Term, k)
			for i := range xs {
				xs[i] = elemOf(base, Add(lo, C(int64(i))))
			}
			return Seq(xs...)
		}
	}
	return intern(&Term{op: OSeq, args: []*Term{intern(&Term{op: OSub, args: []*Term{base, lo, n}})}})
}

// elemOf is one element of an uninterpreted base.
func elemOf(base, i *Term) *Term {
	if i.op == OIte {
		return lift1(i, func(j *Term) *Term { return elemOf(base, j) })
	}
	if base.str == "hex" {
		// one hex digit of a byte
		if k, ok := i.constInt(); ok {
			b := At(base.args[0], C(int64(k/2)))
			if k%2 == 0 {
				return hexDigit(Slice(b, 4, 4))
			}
			return hexDigit(Slice(b, 0, 4))
		}
	}
	if base.str == "upd" {
		return Ite(Eq(i, base.args[1]), base.args[2], At(base.args[0], i))
	}
	s := base.elem
	if s == nil {
		s = sortObj
	}
	switch s.kind {
	case 's':
		return wholeSeq(rawApp("at", s, base, i))
	case 'b':
		return bAtom("at", base, i)
	}
	return rawApp("at", s, base, i)
}

func hexDigit(n *Term) *Term {
	if n.isConst() {
		return C(int64("0123456789abcdef"[n.num.Int64()]))
	}
	return App("hexdigit", &Sort{kind: 'i', lo: big.NewInt(48), hi: big.NewInt(102)}, n)
}

// segLen is the number of elements of a segment.
func segLen(t *Term) *Term {
	switch t.op {
	case OLit:
		return C(int64(len(t.str)))
	case OFill:
		return t.args[1]
	case OSub:
		return t.args[2]
	case OMin:
		return blen(t.args[0])
	case ORep:
		if t.str == "flat" {
			if n := Len(t.args[1]); n.isConst() {
				return MulCB(t.args[0], n.num)
			}
			return rawApp("sumlen", sortLen, intern(&Term{op: OSeq, args: []*Term{t}}))
		}
		return t.args[0]
	}
	return C(1)
}

func blen(x *Term) *Term {
	if x.isConst() {
		return C(int64((x.num.BitLen() + 7) / 8))
	}
	s := &Sort{kind: 'i', lo: big0, hi: maxLen}
	if x.hi != nil {
		s.hi = big.NewInt(int64((x.hi.BitLen() + 7) / 8))
	}
	if x.lo != nil && x.lo.Sign() > 0 {
		s.lo = big.NewInt(int64((x.lo.BitLen() + 7) / 8))
	}
	if s.lo.Cmp(s.hi) == 0 {
		return CB(s.lo)
	}
	return rawApp("blen", s, x)
}

// MinBytes is the minimal big-endian encoding.
func MinBytes(x *Term) *Term {
	if x.op == OIte {
		return lift1(x, MinBytes)
	}
	if x.isConst() {
		return Str(string(new(big.Int).Abs(x.num).Bytes()))
	}
	if n := blen(x); n.isConst() {
		return Seq(Cells(x, int(n.num.Int64())))
	}
	return intern(&Term{op: OSeq, args: []*Term{intern(&Term{op: OMin, args: []*Term{x}})}})
}

// Cells is the n-byte big-endian encoding of 0 <= x < 256^n (truncating).
func Cells(x *Term, n int) *Term {
	if x.op == OIte {
		return lift1(x, func(a *Term) *Term { return Cells(a, n) })
	}
	xs := make([]*Term, n)
	for i := range xs {
		xs[i] = Slice(x, 8*(n-1-i), 8)
	}
	return Seq(xs...)
}

// Seq builds a normal-form sequence from elements, segments and, spliced
// nowhere: nested sequences stay elements.  Use Concat to join sequences.
func Seq(in ...*Term) *Term {
	var out []*Term
	simple := true
	for _, t := range in {
		switch t.op {
		case OSeq, OIte:
		case OFill, OMin, ORep, OSub, OLit, OConst:
			simple = false
		}
	}
	if simple {
		return intern(&Term{op: OSeq, args: in})
	}
	push := func(t *Term) {
		if t.op == OConst && t.num.Sign() >= 0 && t.num.BitLen() <= 8 {
			t = lit(string([]byte{byte(t.num.Int64())}))
		}
		n := len(out)
		if t.op == OLit {
			if t.str == "" {
				return
			}
			if n > 0 && out[n-1].op == OLit {
				out[n-1] = &Term{op: OLit, str: out[n-1].str + t.str} // interned below
				return
			}
		}
		if n > 0 {
			p := out[n-1]
			// adjacent subsequences of one base
			if t.op == OSub && p.op == OSub && t.args[0] == p.args[0] && Add(p.args[1], p.args[2]) == t.args[1] {
				out[n-1] = intern(&Term{op: OSub, args: []*Term{p.args[0], p.args[1], Add(p.args[2], t.args[2])}})
				return
			}
			if t.op == OFill && p.op == OFill && t.args[0] == p.args[0] {
				out[n-1] = segFill(t.args[0], Add(p.args[1], t.args[1]))
				return
			}
			// fill then minimal bytes with constant total: fixed width
			if t.op == OMin && p.op == OFill && p.args[0].isConst() && p.args[0].num.Sign() == 0 {
				if tot := Add(p.args[1], blen(t.args[0])); tot.isConst() {
					k, _ := tot.constInt()
					x := t.args[0]
					if x.hi != nil && k*8 >= x.hi.BitLen() {
						out = out[:n-1]
						for _, c := range Cells(x, k).args {
							out = append(out, c)
						}
						return
					}
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range in {
		switch t.op {
		case OFill:
			n := t.args[1]
			if k, ok := n.constInt(); ok {
				if k <= 0 {
					continue
				}
				if k <= 1<<16 {
					v := t.args[0]
					if v.op == OConst && v.num.Sign() >= 0 && v.num.BitLen() <= 8 {
						push(lit(strings.Repeat(string([]byte{byte(v.num.Int64())}), k)))
						continue
					}
					for i := 0; i < k; i++ {
						push(v)
					}
					continue
				}
			}
		case OSub:
			if t.args[2].isConst() && t.args[2].num.Sign() <= 0 {
				continue
			}
			if k, ok := t.args[2].constInt(); ok && k <= 512 && t.args[1].isConst() {
				for i := 0; i < k; i++ {
					push(elemOf(t.args[0], Add(t.args[1], C(int64(i)))))
				}
				continue
			}
			if t.args[0].op == OSeq {
				for _, s := range SubSeq(t.args[0], t.args[1], Add(t.args[1], t.args[2])).args {
					push(s)
				}
				continue
			}
		case OMin:
			if n := blen(t.args[0]); n.isConst() {
				for _, s := range Cells(t.args[0], int(n.num.Int64())).args {
					push(s)
				}
				continue
			}
		case ORep:
			if k, ok := t.args[0].constInt(); ok && k <= 4096 && t.str == "" {
				for i := 0; i < k; i++ {
					push(Subst(t.args[1], map[*Term]*Term{Bound(t.a): C(int64(i))}, fBound))
				}
				continue
			}
			if !contains(t.args[1], Bound(t.a)) && t.str == "" {
				push(segFill(t.args[1], t.args[0]))
				continue
			}
		}
		push(t)
	}
	for i, t := range out {
		if t.op == OLit && t.id == 0 {
			out[i] = lit(t.str)
		}
	}
	return intern(&Term{op: OSeq, args: out})
}

// Rep is body[level := 0..n-1] as a sequence of elements.
func Rep(n *Term, level int, body *Term) *Term { return mkRep(n, level, body, "") }

// mkRep: mode "flat" splices the body sequences instead of nesting them.
func mkRep(n *Term, level int, body *Term, mode string) *Term {
	if n.op == OIte {
		return lift1(n, func(m *Term) *Term { return mkRep(m, level, body, mode) })
	}
	if n.isConst() && n.num.Sign() <= 0 {
		return tEmpty
	}
	if mode == "flat" {
		if k, ok := n.constInt(); ok && k <= 4096 {
			r := tEmpty
			for i := 0; i < k; i++ {
				r = Concat(r, Subst(body, map[*Term]*Term{Bound(level): C(int64(i))}, fBound))
			}
			return r
		}
		if body.op == OSeq && len(body.args) == 0 {
			return tEmpty
		}
		if body.op == OSeq && len(body.args) == 1 && !isSeg(body.args[0]) {
			return mkRep(n, level, body.args[0], "")
		}
		if body.op == OSeq && len(body.args) == 1 && body.args[0].op == OLit && len(body.args[0].str) == 1 {
			return mkRep(n, level, C(int64(body.args[0].str[0])), "")
		}
	}
	if h, r := peel(n, body, level); h != nil {
		if mode != "flat" {
			h = Seq(h)
		}
		return Concat(h, mkRep(Sub(n, C(1)), level, r, mode))
	}
	// the elements of a sequence one by one
	if mode == "" && (body.op == OApp && body.str == "at" || body.op == OSeq) {
		e := body
		if b := baseOf(e); b != nil {
			e = b
		}
		if e.op == OApp && e.str == "at" && e.args[1] == Bound(level) && e.args[0].op == OApp && n == lenOfBase(e.args[0]) && elemOf(e.args[0], Bound(level)) == body {
			return wholeSeq(e.args[0])
		}
	}
	if body.op == OApp && body.str == "minbyte" && mode == "" && body.args[1] == Bound(level) && n == blen(body.args[0]) {
		return MinBytes(body.args[0])
	}
	return Seq(intern(&Term{op: ORep, a: level, str: mode, args: []*Term{n, body}}))
}

func isSeq(t *Term) bool {
	if t.op == OIte {
		return isSeq(t.args[1])
	}
	return t.op == OSeq
}

// Concat joins sequences.
func Concat(xs ...*Term) *Term {
	r := tEmpty
	for _, x := range xs {
		r = lift2(r, x, func(a, b *Term) *Term {
			if a.op != OSeq || b.op != OSeq {
				return opaque("concat", sortStr)
			}
			if len(a.args) == 0 {
				return b
			}
			if len(b.args) == 0 {
				return a
			}
			all := make([]*Term, 0, len(a.args)+len(b.args))
			all = append(append(all, a.args...), b.args...)
			// hex(a) ++ hex(b) = hex(a ++ b)
			return mergeHex(Seq(all...))
		})
	}
	return r
}

func hexBase(t *Term) *Term {
	if t.op == OSub && t.args[0].op == OApp && t.args[0].str == "hex" &&
		t.args[1].isConst() && t.args[1].num.Sign() == 0 && t.args[2] == lenOfBase(t.args[0]) {
		return t.args[0].args[0]
	}
	return nil
}

func mergeHex(s *Term) *Term { return s }

// Len is the number of elements.
func Len(s *Term) *Term {
	return lift1(s, func(x *Term) *Term {
		if x.op == OTab {
			return tabMap(x, Len)
		}
		if x.op != OSeq {
			return opaque("len of unknown", sortLen)
		}
		r := C(0)
		for _, g := range x.args {
			r = Add(r, segLen(g))
		}
		return r
	})
}

// constLen returns the length if it is a constant.
func constLen(s *Term) (int, bool) {
	if s.op != OSeq {
		return 0, false
	}
	n := 0
	for _, g := range s.args {
		switch g.op {
		case OLit:
			n += len(g.str)
		case OFill, OSub, OMin, ORep:
			return 0, false
		default:
			n++
		}
	}
	return n, true
}

// elems expands a constant-length sequence into its elements.
func elems(s *Term) []*Term {
	var out []*Term
	for _, g := range s.args {
		if g.op == OLit {
			for i := 0; i < len(g.str); i++ {
				out = append(out, C(int64(g.str[i])))
			}
		} else {
			out = append(out, g)
		}
	}
	return out
}

// litOf returns the constant string, if s is one.
func litOf(s *Term) (string, bool) {
	if s.op != OSeq {
		return "", false
	}
	if len(s.args) == 0 {
		return "", true
	}
	if len(s.args) == 1 && s.args[0].op == OLit {
		return s.args[0].str, true
	}
	return "", false
}

func seqShapesMatch(a, b *Term) bool {
	if a.op != OSeq || b.op != OSeq {
		return false
	}
	n, ok := constLen(a)
	if !ok || n > 4096 {
		return false
	}
	m, ok := constLen(b)
	if !ok || n != m || n == 0 {
		return false
	}
	// only element-wise for byte/int cells
	for _, s := range []*Term{a, b} {
		for _, g := range s.args {
			if g.op != OLit && !g.isInt() && g.op != OStruct && g.op != OSeq {
				return false
			}
			if g.op == OSeq || g.op == OStruct {
				if n > 64 {
					return false
				}
			}
		}
	}
	return true
}

func pushIteSeq(c, a, b *Term) *Term {
	xs, ys := elems(a), elems(b)
	out := make([]*Term, len(xs))
	for i := range xs {
		out[i] = Ite(c, xs[i], ys[i])
	}
	return Seq(out...)
}

// At is the element at index i (assumed in range).
func At(s, i *Term) *Term {
	if s.op == OIte || i.op == OIte {
		return lift2(s, i, At)
	}
	if s.op != OSeq {
		return opaque("index of unknown", sortAny)
	}
	if i.op == OTab {
		return tabMap(i, func(k *Term) *Term { return At(s, k) })
	}
	if i.isConst() {
		k := i
		for _, g := range s.args {
			n := segLen(g)
			if !n.isConst() {
				// index inside a symbolic segment?
				if !entails(Ge(Sub(n, k), big1)) {
					return symAt(s, i)
				}
				return segAt(g, k)
			}
			if k.num.Cmp(n.num) < 0 {
				return segAt(g, k)
			}
			k = Sub(k, n)
		}
		return tPoison
	}
	return symAt(s, i)
}

func segAt(g, k *Term) *Term {
	switch g.op {
	case OLit:
		j, ok := k.constInt()
		if !ok || j < 0 || j >= len(g.str) {
			if strings.Trim(g.str, g.str[:1]) == "" {
				return C(int64(g.str[0]))
			}
			return rawLitAt(g, k)
		}
		return C(int64(g.str[j]))
	case OFill:
		return g.args[0]
	case OSub:
		return elemOf(g.args[0], Add(g.args[1], k))
	case ORep:
		if g.str == "flat" {
			return App("at", byteSort, seqBase(Seq(g)), k)
		}
		return Subst(g.args[1], map[*Term]*Term{Bound(g.a): k}, fBound)
	case OMin:
		// i-th byte of a minimal encoding of unknown length
		return App("minbyte", byteSort, g.args[0], k)
	}
	return g
}

func rawLitAt(g, k *Term) *Term { return App("litat", byteSort, Seq(g), k) }

// symAt reads at a symbolic index: gate over the segments.
func symAt(s, i *Term) *Term {
	off := C(0)
	type piece struct {
		off, n, g *Term
	}
	var ps []piece
	for _, g := range s.args {
		n := segLen(g)
		ps = append(ps, piece{off, n, g})
		off = Add(off, n)
	}
	if len(ps) == 0 {
		return tPoison
	}
	if len(ps) > 16 {
		// many cells: uninterpreted table lookup
		so := sortAny
		if e, ok := constLen(s); ok && e > 0 {
			es := elems(s)
			if es[0].isInt() {
				so = unionSort(es)
			} else if isSeq(es[0]) {
				so = sortStr
			}
		}
		return appVal("index", so, s, i)
	}
	r := segAt(ps[len(ps)-1].g, Sub(i, ps[len(ps)-1].off))
	for j := len(ps) - 2; j >= 0; j-- {
		p := ps[j]
		in := Restrict(Lt(i, Add(p.off, p.n)), curPC)
		if in.op == OIte {
			if entails(in) {
				in = tTrue
			} else if entails(Not(in)) {
				in = tFalse
			}
		}
		if in.op == OFalse {
			continue
		}
		r = Ite(in, segAt(p.g, Sub(i, p.off)), r)
	}
	return r
}

func unionSort(es []*Term) *Sort {
	s := &Sort{kind: 'i', bits: true}
	for k, e := range es {
		if e.lo == nil || e.hi == nil {
			return sortAny
		}
		if k == 0 || e.lo.Cmp(s.lo) < 0 {
			s.lo = e.lo
		}
		if k == 0 || e.hi.Cmp(s.hi) > 0 {
			s.hi = e.hi
		}
	}
	return s
}

// appVal is App for any sort; sequences come back as whole sequences.
func appVal(name string, s *Sort, args ...*Term) *Term {
	return liftN(args, func(xs []*Term) *Term {
		switch s.kind {
		case 'b':
			return bAtomN(name, xs...)
		case 's':
			return wholeSeq(rawApp(name, s, xs...))
		}
		if s.n > 0 && s.kind == 'a' {
			return Cells(rawApp(name, sortBits(8*s.n), xs...), s.n)
		}
		return rawApp(name, s, xs...)
	})
}

// SubSeq is s[lo:hi].
func SubSeq(s, lo, hi *Term) *Term {
	if s.op == OIte || lo.op == OIte || hi.op == OIte {
		return liftTop([]*Term{s, lo, hi}, func(x []*Term) *Term { return SubSeq(x[0], x[1], x[2]) })
	}
	if lo == hi {
		return tEmpty
	}
	if s.op != OSeq {
		return opaque("slice of unknown", sortStr)
	}
	if lo.isConst() && lo.num.Sign() == 0 && hi == Len(s) {
		return s
	}
	if n, ok := constLen(s); ok && lo.isConst() && hi.isConst() {
		a, _ := lo.constInt()
		b, _ := hi.constInt()
		if a >= 0 && a <= b && b <= n {
			return cutConst(s, a, b)
		}
		return tPoison
	}
	rest, ok := dropSeq(s, lo)
	if ok {
		if r, ok := takeSeq(rest, Sub(hi, lo)); ok {
			return r
		}
	}
	return Seq(intern(&Term{op: OSub, args: []*Term{seqBase(s), lo, Sub(hi, lo)}}))
}

// seqBase names a whole sequence as an uninterpreted base.
func seqBase(s *Term) *Term {
	if len(s.args) == 1 && s.args[0].op == OSub && s.args[0].args[1].isConst() && s.args[0].args[1].num.Sign() == 0 && s.args[0].args[2] == lenOfBase(s.args[0].args[0]) {
		return s.args[0].args[0]
	}
	so := &Sort{kind: 's', elem: byteSort}
	for _, g := range s.args {
		if isSeg(g) {
			if g.op == OSub && g.args[0].elem != nil {
				so = &Sort{kind: 's', elem: g.args[0].elem}
			}
			if g.op == ORep {
				so = &Sort{kind: 's', elem: sortObj}
				if isSeq(g.args[1]) {
					so.elem = sortStr
				}
			}
		} else if g.op == OSeq {
			so = &Sort{kind: 's', elem: sortStr}
		}
	}
	return rawApp("seq", so, s)
}

func cutConst(s *Term, a, b int) *Term {
	var out []*Term
	pos := 0
	for _, g := range s.args {
		n := 1
		if g.op == OLit {
			n = len(g.str)
		}
		l, h := maxInt(a-pos, 0), b-pos
		if h > n {
			h = n
		}
		if l < h {
			if g.op == OLit {
				out = append(out, lit(g.str[l:h]))
			} else {
				out = append(out, g)
			}
		}
		pos += n
	}
	return Seq(out...)
}

// dropSeq removes the first n elements.
func dropSeq(s, n *Term) (*Term, bool) {
	segs := s.args
	for len(segs) > 0 {
		if n.isConst() && n.num.Sign() == 0 {
			return Seq(segs...), true
		}
		g := segs[0]
		l := segLen(g)
		d := Sub(n, l) // still to drop after this segment
		if d.isConst() && d.num.Sign() >= 0 || !d.isConst() && entails(Ge(d, big0)) {
			n = d
			segs = segs[1:]
			continue
		}
		// cut inside g
		if d.isConst() || entails(Ge(Neg(d), big0)) {
			c, ok := cutSeg(g, n, l)
			if !ok {
				return nil, false
			}
			return Seq(append(append([]*Term{}, c), segs[1:]...)...), true
		}
		return nil, false
	}
	if n.isConst() && n.num.Sign() == 0 {
		return tEmpty, true
	}
	return nil, false
}

// takeSeq keeps the first n elements.
func takeSeq(s, n *Term) (*Term, bool) {
	var out []*Term
	for _, g := range s.args {
		if n.isConst() && n.num.Sign() == 0 {
			return Seq(out...), true
		}
		l := segLen(g)
		d := Sub(n, l)
		if d.isConst() && d.num.Sign() >= 0 || !d.isConst() && entails(Ge(d, big0)) {
			out = append(out, g)
			n = d
			continue
		}
		if d.isConst() || entails(Ge(Neg(d), big0)) {
			c, ok := cutSeg(g, C(0), n)
			if !ok {
				return nil, false
			}
			return Seq(append(out, c)...), true
		}
		return nil, false
	}
	if n.isConst() && n.num.Sign() == 0 {
		return Seq(out...), true
	}
	return nil, false
}

// cutSeg is elements [lo,hi) of one segment.
func cutSeg(g, lo, hi *Term) (*Term, bool) {
	n := Sub(hi, lo)
	switch g.op {
	case OLit:
		a, ok1 := lo.constInt()
		b, ok2 := hi.constInt()
		if ok1 && ok2 && a >= 0 && b <= len(g.str) && a <= b {
			return lit(g.str[a:b]), true
		}
		if g.str != "" && strings.Trim(g.str, g.str[:1]) == "" {
			// equal bytes: only the length matters
			return segFill(C(int64(g.str[0])), n), true
		}
		return nil, false
	case OFill:
		return segFill(g.args[0], n), true
	case OSub:
		if b := g.args[0]; b.str == "hex" {
			// even cuts of a hex string are hex strings
		}
		return intern(&Term{op: OSub, args: []*Term{g.args[0], Add(g.args[1], lo), n}}), true
	case ORep:
		if g.str == "flat" {
			return nil, false
		}
		body := Subst(g.args[1], map[*Term]*Term{Bound(g.a): Add(Bound(g.a), lo)}, fBound)
		return intern(&Term{op: ORep, a: g.a, args: []*Term{n, body}}), true
	}
	return nil, false
}

// Update is s with element i replaced by v.
func Update(s, i, v *Term) *Term {
	if s.op == OIte || i.op == OIte {
		return lift2(s, i, func(a, b *Term) *Term { return Update(a, b, v) })
	}
	if s.op != OSeq {
		return opaque("store to unknown", sortStr)
	}
	if k, ok := i.constInt(); ok {
		if n, ok := constLen(s); ok {
			if k < 0 || k >= n {
				return tPoison
			}
			return Concat(cutConst(s, 0, k), Seq(v), cutConst(s, k+1, n))
		}
		if a, ok := takeSeq(s, i); ok {
			if b, ok := dropSeq(s, Add(i, C(1))); ok {
				return Concat(a, Seq(v), b)
			}
		}
	}
	if a, ok := takeSeq(s, i); ok {
		if b, ok := dropSeq(s, Add(i, C(1))); ok {
			return Concat(a, Seq(v), b)
		}
	}
	// symbolic position
	if n, ok := constLen(s); ok && n <= 16 {
		xs := elems(s)
		out := make([]*Term, n)
		for j := range xs {
			out[j] = Ite(Eq(i, C(int64(j))), v, xs[j])
		}
		return Seq(out...)
	}
	so := &Sort{kind: 's', elem: seqBase(s).elem}
	return liftN([]*Term{v}, func(x []*Term) *Term {
		return wholeSeq(rawApp("upd", so, s, i, x[0]))
	})
}

// Splice is dst with dst[off:off+len(src)] replaced by src.
func Splice(dst, off, src *Term) *Term {
	if dst.op == OIte || off.op == OIte || src.op == OIte {
		return liftTop([]*Term{dst, off, src}, func(x []*Term) *Term { return Splice(x[0], x[1], x[2]) })
	}
	if dst.op != OSeq || src.op != OSeq {
		return opaque("copy to unknown", sortStr)
	}
	n := Len(src)
	if n.isConst() && n.num.Sign() == 0 {
		return dst
	}
	a, ok1 := takeSeq(dst, off)
	b, ok2 := dropSeq(dst, Add(off, n))
	if ok1 && ok2 {
		return Concat(a, src, b)
	}
	return wholeSeq(rawApp("splice", &Sort{kind: 's', elem: byteSort}, dst, off, src))
}

// liftTop lifts outermost gates of several arguments.
func liftTop(args []*Term, f func([]*Term) *Term) *Term {
	top := gateTop(args...)
	if top == nil {
		return f(args)
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i], lo[i] = cofTop(a, top, true), cofTop(a, top, false)
	}
	return Ite(mkNode(top, tTrue, tFalse), liftTop(hi, f), liftTop(lo, f))
}

// BE is the big-endian integer of a byte sequence.
func BE(s *Term) *Term {
	if s.op == OIte {
		return lift1(s, BE)
	}
	if s.op != OSeq {
		return opaque("integer of unknown bytes", sortNat)
	}
	// element gates: lift as a whole only if present
	r := C(0)
	tail := C(0) // bytes already accumulated from the right
	for k := len(s.args) - 1; k >= 0; k-- {
		g := s.args[k]
		sh, ok := tail.constInt()
		if !ok {
			// everything further left must be zero
			if g.op == OFill && g.args[0].isConst() && g.args[0].num.Sign() == 0 ||
				g.op == OLit && strings.Trim(g.str, "\x00") == "" {
				continue
			}
			return App("be", sortNat, s)
		}
		switch g.op {
		case OLit:
			r = Add(r, CB(new(big.Int).Lsh(new(big.Int).SetBytes([]byte(g.str)), uint(8*sh))))
			tail = Add(tail, segLen(g))
		case OMin:
			r = Add(r, Shl(g.args[0], 8*sh))
			tail = Add(tail, segLen(g))
		case OFill:
			if g.args[0].isConst() && g.args[0].num.Sign() == 0 {
				tail = Add(tail, segLen(g))
				continue
			}
			return App("be", sortNat, s)
		case OSub, ORep:
			if g.op == OSub && g.args[0].str == "seq" || true {
				return App("be", sortNat, s)
			}
		default:
			r = Add(r, Shl(g, 8*sh))
			tail = Add(tail, C(1))
		}
	}
	return r
}

// EqSeq is element-wise equality.
func EqSeq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OIte || b.op == OIte {
		return lift2(a, b, EqSeq)
	}
	if a.op != OSeq || b.op != OSeq {
		return opaque("comparison of unknown", sortBool)
	}
	// strip common ends
	xs, ys := a.args, b.args
	for len(xs) > 0 && len(ys) > 0 && xs[0] == ys[0] {
		xs, ys = xs[1:], ys[1:]
	}
	for len(xs) > 0 && len(ys) > 0 && xs[len(xs)-1] == ys[len(ys)-1] {
		xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
	}
	a, b = Seq(xs...), Seq(ys...)
	la, lb := Len(a), Len(b)
	le := Eq(la, lb)
	if le.op == OFalse {
		return tFalse
	}
	if n, ok := constLen(b); ok && n == 0 {
		return le
	}
	if n, ok := constLen(a); ok {
		if n == 0 {
			return le
		}
		if _, ok := constLen(b); ok {
			ex, ey := elems(a), elems(b)
			if gatedHex(ex) || gatedHex(ey) {
				return liftN([]*Term{a, b}, func(x []*Term) *Term { return EqSeq(x[0], x[1]) })
			}
			if n%2 == 0 && (hexCells(ex) || hexCells(ey)) {
				if x, o1, d1 := unhex(a); d1 && o1.op == OTrue {
					if y, o2, d2 := unhex(b); d2 {
						// both lower-case hex of bytes
						if o2.op == OTrue && lowerHex(ex) && lowerHex(ey) {
							return EqSeq(x, y)
						}
						if o2.op != OTrue {
							return tFalse
						}
					}
				}
			}
			r := tTrue
			for i := n - 1; i >= 0; i-- {
				r = And(EqVal(ex[i], ey[i]), r)
			}
			return r
		}
	}
	// hex strings against hex literals
	if r := eqHex(a, b); r != nil {
		return r
	}
	if r := eqHex(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return liftN([]*Term{a, b}, func(x []*Term) *Term {
		if x[0].id > x[1].id {
			x[0], x[1] = x[1], x[0]
		}
		return And(Restrict(le, tTrue), bAtomN("eqseq", x...))
	})
}

func eqHex(a, b *Term) *Term {
	if len(a.args) != 1 {
		return nil
	}
	h := hexBase(a.args[0])
	if h == nil {
		return nil
	}
	if s, ok := litOf(b); ok {
		if len(s)%2 != 0 {
			return tFalse
		}
		out := make([]byte, len(s)/2)
		for i := range out {
			x := strings.IndexByte("0123456789abcdef", s[2*i])
			y := strings.IndexByte("0123456789abcdef", s[2*i+1])
			if x < 0 || y < 0 {
				return tFalse
			}
			out[i] = byte(x<<4 | y)
		}
		return EqSeq(h, Str(string(out)))
	}
	if len(b.args) == 1 {
		if h2 := hexBase(b.args[0]); h2 != nil {
			return EqSeq(h, h2)
		}
	}
	return nil
}

// CompareSeq is bytes.Compare for equal constant lengths.
func CompareSeq(a, b *Term) *Term {
	if a.op == OIte || b.op == OIte {
		return lift2(a, b, CompareSeq)
	}
	if a == b {
		return C(0)
	}
	na, ok1 := constLen(a)
	nb, ok2 := constLen(b)
	if ok1 && ok2 && na == nb {
		return CmpInt(BE(a), BE(b))
	}
	return App("compare", &Sort{kind: 'i', lo: big.NewInt(-1), hi: big1}, a, b)
}

// HexStr is the lower-case hex text of bytes.
func HexStr(s *Term) *Term {
	return lift1(s, func(x *Term) *Term {
		if l, ok := litOf(x); ok {
			const d = "0123456789abcdef"
			var sb strings.Builder
			for i := 0; i < len(l); i++ {
				sb.WriteByte(d[l[i]>>4])
				sb.WriteByte(d[l[i]&15])
			}
			return Str(sb.String())
		}
		return appHex(x)
	})
}

func appHex(x *Term) *Term {
	// gates on single cells are kept inside: lift them
	return liftN([]*Term{x}, func(y []*Term) *Term {
		b := rawApp("hex", sortStr, y[0])
		return Seq(intern(&Term{op: OSub, args: []*Term{b, C(0), lenOfBase(b)}}))
	})
}

// EqVal is equality of arbitrary values.
func EqVal(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OIte || b.op == OIte {
		if a.isBool() && b.isBool() {
			return Iff(a, b)
		}
		return lift2(a, b, EqVal)
	}
	switch {
	case a.isInt() && b.isInt():
		return Eq(a, b)
	case a.isBool() && b.isBool():
		return Iff(a, b)
	case a.op == OSeq && b.op == OSeq:
		return EqSeq(a, b)
	case a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args),
		a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args):
		r := tTrue
		for i := len(a.args) - 1; i >= 0; i-- {
			r = And(EqVal(a.args[i], b.args[i]), r)
		}
		return r
	case a.op == ONil:
		return IsNil(b)
	case b.op == ONil:
		return IsNil(a)
	case a.op == OPtr && b.op == OPtr:
		return boolT(a == b)
	case a.op == OIface && b.op == OIface:
		if a.str != b.str {
			return tFalse
		}
		return EqVal(a.args[0], b.args[0])
	}
	if isErrConst(a) && isErrConst(b) && !openErr(a, b) && !openErr(b, a) {
		return tFalse // different error variables
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bAtomN("eq", a, b)
}

func isErrConst(t *Term) bool { return t.op == OApp && t.str == "error" }

// IsNil is the nil test of pointers, slices, maps, interfaces and functions.
func IsNil(t *Term) *Term {
	switch t.op {
	case OIte:
		return lift1(t, IsNil)
	case ONil:
		return tTrue
	case OPtr, OIface, OClosure, OSl, OStruct, OSeq:
		return tFalse
	case OApp:
		if t.str == "error" || t.str == "errorf" || t.str == "nonnil" {
			return tFalse
		}
		return bAtomN("isnil", t)
	}
	return opaque("nil test", sortBool)
}

// bAtomN makes a boolean atom with its normal forms.
func bAtomN(name string, args ...*Term) *Term {
	if r := boolHook(name, args); r != nil {
		return r
	}
	return bAtom(name, args...)
}

// mkSl is a Go slice value.
func mkSl(base, off, n, cp *Term) *Term {
	if base.op == OIte {
		return lift1(base, func(b *Term) *Term { return mkSl(b, off, n, cp) })
	}
	return intern(&Term{op: OSl, args: []*Term{base, off, n, cp}})
}

// ---- finite tables

// mkTab is the function key -> vals[i] when key == keys[i] (no default: only
// meaningful where the key is known to be one of them).
func mkTab(key *Term, keys []*big.Int, vals []*Term) *Term {
	if key.op == OIte {
		return lift1(key, func(k *Term) *Term { return mkTab(k, keys, vals) })
	}
	if key.isConst() {
		for i, k := range keys {
			if k.Cmp(key.num) == 0 {
				return vals[i]
			}
		}
		return tPoison
	}
	same, ident := true, true
	for i, v := range vals {
		if v != vals[0] {
			same = false
		}
		if !(v.op == OConst && v.num.Cmp(keys[i]) == 0) {
			ident = false
		}
	}
	if len(vals) > 0 && same {
		return vals[0]
	}
	if ident {
		return key
	}
	// containers: push in
	v0 := vals[0]
	uniform := true
	for _, v := range vals {
		if v.op != v0.op || len(v.args) != len(v0.args) {
			uniform = false
		}
	}
	if uniform && (v0.op == OStruct || v0.op == OTuple) {
		xs := make([]*Term, len(v0.args))
		for j := range xs {
			col := make([]*Term, len(vals))
			for i := range vals {
				col[i] = vals[i].args[j]
			}
			xs[j] = mkTab(key, keys, col)
		}
		return intern(&Term{op: v0.op, str: v0.str, args: xs})
	}
	allInt, allBool := true, true
	for _, v := range vals {
		if !v.isInt() || v.op == OIte {
			allInt = false
		}
		if !v.isBool() {
			allBool = false
		}
	}
	if allBool {
		var in []*Term
		for i, v := range vals {
			if v.op == OTrue {
				in = append(in, CB(keys[i]))
			} else if v.op != OFalse {
				return opaque("table of conditions", sortBool)
			}
		}
		return bAtomN("inset", append([]*Term{key}, in...)...)
	}
	t := &Term{op: OTab, coefs: keys, args: append([]*Term{key}, vals...)}
	if allInt {
		u := unionSort(vals)
		t.lo, t.hi, t.bits = u.lo, u.hi, u.bits
	}
	return intern(t)
}

// tabMap maps f over the entries of a table.
func tabMap(t *Term, f func(*Term) *Term) *Term {
	vals := make([]*Term, len(t.args)-1)
	for i := range vals {
		vals[i] = f(t.args[i+1])
	}
	return mkTab(t.args[0], t.coefs, vals)
}

func tabBool(t *Term, f func(*Term) *Term) *Term { return tabMap(t, f) }

// hexCells: the elements contain hex digits of values.
func hexCells(es []*Term) bool {
	for _, e := range es {
		if e.op == OApp && e.str == "hexdigit" {
			return true
		}
	}
	return false
}

func lowerHex(es []*Term) bool {
	for _, e := range es {
		if k, ok := e.constInt(); ok {
			if strings.IndexByte("0123456789abcdef", byte(k)) < 0 {
				return false
			}
		} else if !(e.op == OApp && e.str == "hexdigit") {
			return false
		}
	}
	return true
}

// gatedHex: some element is a gate over hex digits.
func gatedHex(es []*Term) bool {
	for _, e := range es {
		if e.op == OIte && anyTerm(e, func(x *Term) bool { return x.op == OApp && x.str == "hexdigit" }) != nil {
			return true
		}
	}
	return false
}
