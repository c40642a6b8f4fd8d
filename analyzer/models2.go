package main

import (
	"errors"
	"go/types"
	"math/big"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libGlobal is the value of a library package variable.
func (in *Interp) libGlobal(name string, t types.Type, st *State) *Term {
	switch name {
	case "crypto/rand.Reader":
		return newIface("rand.Reader", tNil)
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian":
		return Struct()
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return libErr(name)
	}
	return in.symVal(t, st, "lib:"+name, 0, nil)
}

// joinSeq is strings.Join.
func (c *callCtx) joinSeq(sl, sep *Term) *Term {
	v := sl
	if !isSeq(v) {
		v = c.in.View(c.st, sl)
	}
	return lift2(v, sep, func(s, p *Term) *Term {
		if s.op != OSeq {
			return opaque("join", sortStr)
		}
		if _, ok := constLen(s); ok {
			r := tEmpty
			for i, e := range elems(s) {
				if i > 0 {
					r = Concat(r, p)
				}
				if !isSeq(e) {
					e = c.in.View(c.st, e)
				}
				r = Concat(r, e)
			}
			return r
		}
		return joinText(s, p)
	})
}

func joinText(s, p *Term) *Term {
	return lift2(s, p, func(s, p *Term) *Term { return wholeSeq(rawApp("join", sortStr, s, p)) })
}

// ---- text structure

// pathFact returns a language the text is known to belong to here.
func langOf(base *Term) *dfa {
	for _, l := range literals(curPC) {
		if l.val && l.atom.op == OBAtom && strings.HasPrefix(l.atom.str, "match:") {
			s := l.atom.args[0]
			if s == base || s.op == OSeq && len(s.args) == 1 && s == wholeOf(base) {
				return langs[strings.TrimPrefix(l.atom.str, "match:")]
			}
		}
	}
	return nil
}

func wholeOf(base *Term) *Term {
	if base.op == OApp {
		return wholeSeq(base)
	}
	return base
}

// baseOf returns the single base a text consists of.
func baseOf(s *Term) *Term {
	if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OSub && wholeSeq(s.args[0].args[0]) == s {
		return s.args[0].args[0]
	}
	return nil
}

// structured rewrites a path component into its digits and its mark, when a
// known language of the text it was split from guarantees that form.
func structured(s *Term) *Term {
	return lift1(s, func(x *Term) *Term {
		b := baseOf(x)
		if b == nil || b.op != OApp || b.str != "at" || len(b.args) != 2 {
			return x
		}
		sp := b.args[0]
		if sp.op != OApp || sp.str != "split" {
			return x
		}
		sep, ok := litOf(sp.args[1])
		if !ok || len(sep) != 1 {
			return x
		}
		d := langOf(sp.args[0])
		if d == nil {
			return x
		}
		lo, _ := rangeOf(b.args[1])
		if lo == nil || !lo.IsInt64() {
			return x
		}
		if lo.Sign() == 0 && entails(Ge(b.args[1], big1)) {
			lo = big1
		}
		_, isC := b.args[1].constInt()
		sh := d.shape(d.compStates(sep[0], int(lo.Int64()), !isC), sep[0], '\'')
		if !sh.ok {
			return x
		}
		so := &Sort{kind: 's', elem: byteSort, lo: big.NewInt(int64(sh.minDigit))}
		if sh.maxDigit >= 0 {
			so.hi = big.NewInt(int64(sh.maxDigit))
		}
		dg := wholeSeq(rawApp("digits", so, b))
		if !sh.tailCan {
			return dg
		}
		if sh.tailMust {
			return Concat(dg, Str("'"))
		}
		return Ite(bAtom("marked", b), Concat(dg, Str("'")), dg)
	})
}

// decVal is the number a run of decimal digits denotes.
func decVal(digits *Term) *Term {
	srt := &Sort{kind: 'i', lo: big0}
	if s := digits.aux.(*Sort); s.hi != nil {
		srt.hi = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), s.hi, nil), big1)
	}
	return rawApp("decval", srt, digits)
}

// pathComponent is part i of a text split at a separator, in a language that
// makes it digits with or without a mark (asserted by curPC).
func pathComponent(path *Term, sep string, i *Term) (digits, marked *Term) {
	x := structured(At(splitText(path, Str(sep)), i))
	marked = tFalse
	pick := func(y *Term) *Term {
		if y.op == OSeq && len(y.args) > 0 {
			if b := y.args[0]; b.op == OSub && b.args[0].op == OApp && b.args[0].str == "digits" {
				return b.args[0]
			}
		}
		return nil
	}
	if x.op == OIte {
		marked = Ite(x.args[0], tTrue, tFalse)
		x = x.args[1]
	} else if n := len(x.args); n > 0 && x.args[n-1].op == OLit {
		marked = tTrue
	}
	return pick(x), marked
}

// inLang: the text is in the language of a pattern.
func inLang(pat string, s *Term) *Term {
	d := compileLang(pat)
	return bAtomN("match:"+d.key, s)
}

// mayContain: can the text contain the byte? 1 yes for sure, 0 no, -1 unknown.
func hasByte(s *Term, b byte) int {
	if s.op != OSeq {
		return -1
	}
	res := 0
	for _, g := range s.args {
		if g.op == OLit {
			if strings.IndexByte(g.str, b) >= 0 {
				return 1
			}
			continue
		}
		if !allElems(Seq(g), func(x byte) bool { return x != b }) {
			res = -1
		}
	}
	return res
}

func (c *callCtx) textPred(name string, f func(x, y *Term) *Term) *Term {
	return lift2(structured(c.seq(0)), c.seq(1), func(x, y *Term) *Term {
		if r := f(x, y); r != nil {
			return r
		}
		return bAtomN(name, x, y)
	})
}

// segFirst/segLast: the text's first or last segment, with a flag when the
// segment surely is not empty.
func nonEmptySeg(g *Term) bool {
	if g.op == OLit {
		return g.str != ""
	}
	lo, _ := rangeOf(segLen(g))
	return lo != nil && lo.Sign() > 0
}

func prefixOf(x, y *Term) *Term {
	p, ok := litOf(y)
	if !ok {
		return nil
	}
	if p == "" {
		return tTrue
	}
	if l, ok := litOf(x); ok {
		return boolT(strings.HasPrefix(l, p))
	}
	if x.op == OSeq && len(x.args) > 0 {
		g := x.args[0]
		if g.op == OLit {
			if len(g.str) >= len(p) {
				return boolT(strings.HasPrefix(g.str, p))
			}
			if !strings.HasPrefix(p, g.str) {
				return tFalse
			}
			return nil
		}
		if nonEmptySeg(g) && allElems(Seq(g), func(b byte) bool { return b != p[0] }) {
			return tFalse
		}
	}
	return nil
}

func suffixOf(x, y *Term) *Term {
	p, ok := litOf(y)
	if !ok {
		return nil
	}
	if p == "" {
		return tTrue
	}
	if l, ok := litOf(x); ok {
		return boolT(strings.HasSuffix(l, p))
	}
	if x.op == OSeq && len(x.args) > 0 {
		g := x.args[len(x.args)-1]
		if g.op == OLit {
			if len(g.str) >= len(p) {
				return boolT(strings.HasSuffix(g.str, p))
			}
			if !strings.HasSuffix(p, g.str) {
				return tFalse
			}
			return nil
		}
		if allElems(x, func(b byte) bool { return b != p[len(p)-1] }) {
			return tFalse
		}
		if nonEmptySeg(g) && allElems(Seq(g), func(b byte) bool { return b != p[len(p)-1] }) {
			return tFalse
		}
	}
	return nil
}

func containsOf(x, y *Term) *Term {
	p, ok := litOf(y)
	if !ok {
		return nil
	}
	if p == "" {
		return tTrue
	}
	if l, ok := litOf(x); ok {
		return boolT(strings.Contains(l, p))
	}
	if x.op != OSeq {
		return nil
	}
	for _, g := range x.args {
		if g.op == OLit && strings.Contains(g.str, p) {
			return tTrue
		}
	}
	for i := 0; i < len(p); i++ {
		if hasByte(x, p[i]) == 0 {
			return tFalse
		}
	}
	return nil
}

// replaceAll replaces a one-byte pattern.
func replaceAll(x, old, nw *Term) *Term {
	o, ok := litOf(old)
	if ok && x.op == OSeq {
		if l, isLit := litOf(x); isLit {
			if n, ok2 := litOf(nw); ok2 {
				return Str(strings.ReplaceAll(l, o, n))
			}
		}
		if len(o) == 1 {
			r := tEmpty
			done := true
			for _, g := range x.args {
				switch {
				case g.op == OLit:
					for i, part := range strings.Split(g.str, o) {
						if i > 0 {
							r = Concat(r, nw)
						}
						r = Concat(r, Str(part))
					}
				case hasByte(Seq(g), o[0]) == 0:
					r = Concat(r, Seq(g))
				default:
					done = false
				}
			}
			if done {
				return r
			}
		}
	}
	if n, ok2 := litOf(nw); ok && ok2 && n == "" && len(o) == 1 && o[0] < 128 && x.op == OSeq {
		return delSet(x, o)
	}
	return appVal("replace", sortStr, x, old, nw)
}

// delSet removes every byte of an ASCII set from a text.
func delSet(s *Term, set string) *Term {
	var in [128]bool
	for i := 0; i < len(set); i++ {
		in[set[i]] = true
	}
	return lift1(s, func(x *Term) *Term {
		if x.op != OSeq {
			return opaque("text", sortStr)
		}
		if b := baseOf(x); b != nil && b.op == OApp && b.str == "delset" {
			l, _ := litOf(b.args[1])
			for i := 0; i < len(l); i++ {
				in[l[i]] = true
			}
			x = b.args[0]
		}
		all, ws := "", 0
		for i := range in {
			if in[i] {
				all += string(rune(i))
				if isWS(byte(i)) {
					ws++
				}
			}
		}
		if len(all) == 5 && ws == 5 {
			return stripWS(x)
		}
		if l, ok := litOf(x); ok {
			return Str(strings.Map(func(r rune) rune {
				if r < 128 && in[r] {
					return -1
				}
				return r
			}, l))
		}
		if allElems(x, func(b byte) bool { return b >= 128 || !in[b] }) {
			return x
		}
		return appVal("delset", sortStr, x, Str(all))
	})
}

func trimSpace(x *Term) *Term {
	if b := baseOf(x); b != nil && b.op == OApp && b.str == "trimspace" {
		return x
	}
	return appVal("trimspace", sortStr, x)
}

func trimSet(x *Term, set string, left, right bool) *Term {
	if l, ok := litOf(x); ok {
		if left {
			l = strings.TrimLeft(l, set)
		}
		if right {
			l = strings.TrimRight(l, set)
		}
		return Str(l)
	}
	in := func(b byte) bool { return strings.IndexByte(set, b) < 0 }
	gs := append([]*Term(nil), x.args...)
	if left {
		for len(gs) > 0 && gs[0].op == OLit {
			t := strings.TrimLeft(gs[0].str, set)
			if t != "" {
				gs[0] = lit(t)
				break
			}
			gs = gs[1:]
		}
		if len(gs) > 0 && gs[0].op != OLit && !(allElems(Seq(gs[0]), in) && (nonEmptySeg(gs[0]) || len(gs) == 1)) {
			return nil
		}
	}
	if right {
		for len(gs) > 0 && gs[len(gs)-1].op == OLit {
			t := strings.TrimRight(gs[len(gs)-1].str, set)
			if t != "" {
				gs[len(gs)-1] = lit(t)
				break
			}
			gs = gs[:len(gs)-1]
		}
		if n := len(gs); n > 0 && gs[n-1].op != OLit && !(allElems(Seq(gs[n-1]), in) && (nonEmptySeg(gs[n-1]) || n == 1)) {
			return nil
		}
	}
	return Seq(gs...)
}

// splitText splits on a separator.
func splitText(s, sep *Term) *Term {
	return lift2(s, sep, func(x, p *Term) *Term {
		ps, ok := litOf(p)
		if l, isLit := litOf(x); isLit && ok {
			var out []*Term
			for _, w := range strings.Split(l, ps) {
				out = append(out, Str(w))
			}
			return Seq(out...)
		}
		if ok && len(ps) == 1 && x.op == OSeq {
			// text made of literals and pieces free of the separator
			var out []*Term
			cur := tEmpty
			done := true
			for _, g := range x.args {
				if g.op == OLit {
					for i, part := range strings.Split(g.str, ps) {
						if i > 0 {
							out = append(out, cur)
							cur = tEmpty
						}
						cur = Concat(cur, Str(part))
					}
					continue
				}
				if hasByte(Seq(g), ps[0]) != 0 {
					done = false
					break
				}
				cur = Concat(cur, Seq(g))
			}
			if done {
				return Seq(append(out, cur)...)
			}
		}
		base := x
		if b := baseOf(x); b != nil {
			base = b
		}
		so := &Sort{kind: 's', elem: sortStr, lo: big1}
		b := rawApp("split", so, base, p)
		if ok && len(ps) == 1 {
			if d := langOf(base); d != nil {
				if lo, hi := d.sepCount(ps[0]); lo == hi && lo >= 0 {
					out := make([]*Term, lo+1)
					for i := range out {
						out[i] = elemOf(b, C(int64(i)))
					}
					return Seq(out...)
				}
			}
		}
		return wholeSeq(b)
	})
}

func init() {
	reg(func(c *callCtx) *Term { return c.joinSeq(c.args[0], c.args[1]) }, "strings.Join")
	reg(func(c *callCtx) *Term { return c.textPred("hasprefix", prefixOf) }, "strings.HasPrefix", "bytes.HasPrefix")
	reg(func(c *callCtx) *Term { return c.textPred("hassuffix", suffixOf) }, "strings.HasSuffix", "bytes.HasSuffix")
	reg(func(c *callCtx) *Term { return c.textPred("contains", containsOf) }, "strings.Contains", "bytes.Contains")
	reg(func(c *callCtx) *Term {
		s, b := structured(c.seq(0)), c.args[1]
		if k, ok := b.constInt(); ok && k > 0 && k < 128 {
			return lift1(s, func(x *Term) *Term {
				if r := containsOf(x, Str(string(rune(k)))); r != nil {
					return r
				}
				return bAtomN("contains", x, Str(string(rune(k))))
			})
		}
		return App("containsrune", sortBool, s, b)
	}, "strings.ContainsRune")
	reg(func(c *callCtx) *Term { return App("containsany", sortBool, c.seq(0), c.seq(1)) }, "strings.ContainsAny")
	reg(func(c *callCtx) *Term {
		return lift1(structured(c.seq(0)), func(x *Term) *Term {
			if x.op != OSeq {
				return opaque("replace", sortStr)
			}
			return liftN([]*Term{c.args[1], c.args[2]}, func(a []*Term) *Term { return replaceAll(x, a[0], a[1]) })
		})
	}, "strings.ReplaceAll")
	reg(func(c *callCtx) *Term {
		return lift1(structured(c.seq(0)), func(x *Term) *Term {
			n, ok := c.args[3].constInt()
			o, ok2 := litOf(c.args[1])
			if ok && n < 0 {
				return replaceAll(x, c.args[1], c.args[2])
			}
			if ok && ok2 && n >= 1 && x.op == OSeq && len(o) == 1 {
				// at most one occurrence is possible
				cnt := 0
				for _, g := range x.args {
					if g.op == OLit {
						cnt += strings.Count(g.str, o)
					} else if hasByte(Seq(g), o[0]) != 0 {
						cnt = 99
					}
				}
				if cnt <= n {
					return replaceAll(x, c.args[1], c.args[2])
				}
			}
			return appVal("replacen", sortStr, x, c.args[1], c.args[2], c.args[3])
		})
	}, "strings.Replace")
	trim := func(left, right bool) model {
		return func(c *callCtx) *Term {
			set, ok := litOf(c.seq(1))
			return lift1(structured(c.seq(0)), func(x *Term) *Term {
				if ok && x.op == OSeq {
					if r := trimSet(x, set, left, right); r != nil {
						return r
					}
				}
				return appVal("trim"+strconv.FormatBool(left)+strconv.FormatBool(right), sortStr, x, c.seq(1))
			})
		}
	}
	reg(trim(true, true), "strings.Trim")
	reg(trim(true, false), "strings.TrimLeft")
	reg(trim(false, true), "strings.TrimRight")
	reg(func(c *callCtx) *Term {
		return lift1(structured(c.seq(0)), func(x *Term) *Term {
			if l, ok := litOf(x); ok {
				return Str(strings.TrimSpace(l))
			}
			const ws = "\t\n\v\f\r "
			if x.op == OSeq && allElems(x, func(b byte) bool { return b < 128 }) {
				if r := trimSet(x, ws, true, true); r != nil {
					return r
				}
			}
			return trimSpace(x)
		})
	}, "strings.TrimSpace")
	reg(func(c *callCtx) *Term {
		return lift2(structured(c.seq(0)), c.seq(1), func(x, y *Term) *Term {
			p, ok := litOf(y)
			r := suffixOf(x, y)
			if ok && r != nil && r.op == OFalse {
				return x
			}
			if ok && r != nil && r.op == OTrue {
				if l, isLit := litOf(x); isLit {
					return Str(strings.TrimSuffix(l, p))
				}
				if n := len(x.args); n > 0 && x.args[n-1].op == OLit {
					gs := append([]*Term(nil), x.args...)
					gs[n-1] = lit(strings.TrimSuffix(gs[n-1].str, p))
					return Seq(gs...)
				}
			}
			return appVal("trimsuffix", sortStr, x, y)
		})
	}, "strings.TrimSuffix")
	reg(func(c *callCtx) *Term {
		return lift2(structured(c.seq(0)), c.seq(1), func(x, y *Term) *Term {
			p, ok := litOf(y)
			r := prefixOf(x, y)
			if ok && r != nil && r.op == OFalse {
				return x
			}
			if ok && r != nil && r.op == OTrue && x.op == OSeq && len(x.args) > 0 && x.args[0].op == OLit {
				gs := append([]*Term(nil), x.args...)
				gs[0] = lit(strings.TrimPrefix(gs[0].str, p))
				return Seq(gs...)
			}
			return appVal("trimprefix", sortStr, x, y)
		})
	}, "strings.TrimPrefix")
	caseMap := func(name string, f func(string) string) model {
		return func(c *callCtx) *Term {
			return lift1(c.seq(0), func(x *Term) *Term {
				if l, ok := litOf(x); ok {
					return Str(f(l))
				}
				if x.op == OSeq && allElems(x, func(b byte) bool { return b < 128 && f(string(rune(b))) == string(rune(b)) }) {
					return x
				}
				return appVal(name, sortStr, x)
			})
		}
	}
	reg(caseMap("tolower", strings.ToLower), "strings.ToLower")
	reg(caseMap("toupper", strings.ToUpper), "strings.ToUpper")
	reg(func(c *callCtx) *Term {
		l, ok1 := litOf(c.seq(0))
		p, ok2 := litOf(c.seq(1))
		if ok1 && ok2 {
			return C(int64(strings.Index(l, p)))
		}
		return App("index", &Sort{kind: 'i', lo: big.NewInt(-1), hi: maxLen}, c.seq(0), c.seq(1))
	}, "strings.Index")
	reg(func(c *callCtx) *Term {
		x := structured(c.seq(0))
		return lift1(x, func(x *Term) *Term {
			p, ok := litOf(c.seq(1))
			if ok && len(p) == 1 && x.op == OSeq {
				n := 0
				for _, g := range x.args {
					if g.op == OLit {
						n += strings.Count(g.str, p)
					} else if hasByte(Seq(g), p[0]) != 0 {
						n = -1
						break
					}
				}
				if n >= 0 {
					return C(int64(n))
				}
				// separators are one fewer than the split parts
				return Sub(Len(splitText(x, c.seq(1))), C(1))
			}
			return App("count", sortLen, x, c.seq(1))
		})
	}, "strings.Count")
	reg(func(c *callCtx) *Term { return App("equalfold", sortBool, c.seq(0), c.seq(1)) }, "strings.EqualFold")
	reg(func(c *callCtx) *Term { return c.bytes(splitText(structured(c.seq(0)), c.seq(1))) }, "strings.Split")
	reg(func(c *callCtx) *Term {
		n, ok := c.args[2].constInt()
		if ok && n < 0 {
			return c.bytes(splitText(structured(c.seq(0)), c.seq(1)))
		}
		return c.bytes(wholeSeq(rawApp("splitn", &Sort{kind: 's', elem: sortStr}, c.seq(0), c.seq(1), c.args[2])))
	}, "strings.SplitN")
	reg(func(c *callCtx) *Term {
		return c.bytes(lift1(c.seq(0), func(x *Term) *Term {
			if l, ok := litOf(x); ok {
				var out []*Term
				for _, w := range strings.Fields(l) {
					out = append(out, Str(w))
				}
				return Seq(out...)
			}
			if ws := c.in.listedWords(x); ws != nil {
				return Seq(ws...)
			}
			// surrounding space does not matter
			if b := baseOf(x); b != nil && b.op == OApp && b.str == "trimspace" {
				x = b.args[0]
			}
			base := x
			if b := baseOf(x); b != nil {
				base = b
			}
			c.in.usesFields = true
			word := func(i *Term) *Term {
				return wholeSeq(rawApp("word", &Sort{kind: 's', elem: byteSort, lo: big1}, base, i))
			}
			if c.in.fieldsLen >= 0 {
				out := make([]*Term, c.in.fieldsLen)
				for i := range out {
					out[i] = word(C(int64(i)))
				}
				return Seq(out...)
			}
			return mkRep(rawApp("nwords", sortLen, base), 50, word(Bound(50)), "")
		}))
	}, "strings.Fields")
	reg(func(c *callCtx) *Term {
		x := structured(c.seq(0))
		return liftN([]*Term{x, c.seq(1)}, func(a []*Term) *Term {
			x, p := a[0], a[1]
			// one occurrence at the end: before and after are known
			if l, ok := litOf(p); ok && len(l) == 1 {
				if n := len(x.args); n > 0 && x.args[n-1].op == OLit && x.args[n-1].str == l && hasByte(Seq(x.args[:n-1]...), l[0]) == 0 {
					return Tuple(Seq(x.args[:n-1]...), tEmpty, tTrue)
				}
				if hasByte(x, l[0]) == 0 {
					return Tuple(x, tEmpty, tFalse)
				}
			}
			return Tuple(appVal("cutbefore", sortStr, x, p), appVal("cutafter", sortStr, x, p), bAtomN("contains", x, p))
		})
	}, "strings.Cut")

	// ---- strconv
	var num func(signed bool, atoi bool) model
	num = func(signed bool, atoi bool) model {
		return func(c *callCtx) *Term {
			if !atoi && c.args[2].op == OIte {
				return lift1(c.args[2], func(x *Term) *Term {
					d := *c
					d.args = []*Term{c.args[0], c.args[1], x}
					return num(signed, atoi)(&d)
				})
			}
			base, bits := 10, 64
			okc := true
			if !atoi {
				var o1, o2 bool
				base, o1 = c.args[1].constInt()
				bits, o2 = c.args[2].constInt()
				okc = o1 && o2
				if bits == 0 {
					bits = 64
				}
			}
			if !okc {
				return c.in.unknownCall(c.st, "strconv parse", c.args, c.pos, c.rt)
			}
			fn := "strconv.ParseUint"
			if atoi {
				fn = "strconv.Atoi"
			} else if signed {
				fn = "strconv.ParseInt"
			}
			syntax, rng := errT(fn, libErr("strconv.ErrSyntax")), errT(fn, libErr("strconv.ErrRange"))
			litErr := func(err error) *Term {
				if errors.Is(err, strconv.ErrRange) {
					return rng
				}
				return syntax
			}
			max := new(big.Int).Sub(pow2(bits), big1)
			if signed {
				max = new(big.Int).Sub(pow2(bits-1), big1)
			}
			return lift1(structured(c.seq(0)), func(x *Term) *Term {
				if l, ok := litOf(x); ok {
					if signed {
						v, err := strconv.ParseInt(l, base, bits)
						if err != nil {
							return Tuple(C(v), litErr(err))
						}
						return Tuple(C(v), tNil)
					}
					v, err := strconv.ParseUint(l, base, bits)
					if err != nil {
						return Tuple(CB(new(big.Int).SetUint64(v)), litErr(err))
					}
					return Tuple(CB(new(big.Int).SetUint64(v)), tNil)
				}
				if b := baseOf(x); b != nil && b.op == OApp && base == 10 {
					switch b.str {
					case "digits":
						s := b.aux.(*Sort)
						v := decVal(b)
						fits := Le(v, CB(max))
						val := Ite(fits, v, CB(max))
						empty := tFalse
						if s.lo == nil || s.lo.Sign() == 0 {
							empty = Eq(Len(x), C(0))
						}
						return Tuple(Ite(empty, C(0), val), Ite(empty, syntax, Ite(fits, tNil, rng)))
					case "dec":
						v := b.args[0]
						if lo, _ := rangeOf(v); lo != nil && lo.Sign() >= 0 {
							fits := Le(v, CB(max))
							return Tuple(Ite(fits, v, CB(max)), Ite(fits, tNil, rng))
						}
					}
				}
				tag := "isnum"
				if signed {
					tag = "isint"
				}
				ok := bAtomN(tag, x, C(int64(base)))
				srt := sortNat
				if signed {
					srt = sortAny
				}
				v := rawApp("numval", srt, x, C(int64(base)))
				fits := Le(v, CB(max))
				lowok := tTrue
				vv := Ite(fits, v, CB(max))
				if signed {
					min := new(big.Int).Neg(pow2(bits - 1))
					lowok = Ge(v, min)
					vv = Ite(fits, Ite(lowok, v, CB(min)), CB(max))
				}
				return Tuple(Ite(ok, vv, C(0)), Ite(ok, Ite(And(fits, lowok), tNil, rng), syntax))
			})
		}
	}
	reg(num(false, false), "strconv.ParseUint")
	reg(num(true, false), "strconv.ParseInt")
	reg(num(true, true), "strconv.Atoi")
	reg(func(c *callCtx) *Term { return DecStr(c.args[0]) }, "strconv.Itoa")
	reg(func(c *callCtx) *Term {
		if b, ok := c.args[1].constInt(); ok && b == 10 {
			return DecStr(c.args[0])
		} else if ok && b == 16 {
			return hexInt(c.args[0])
		}
		return appVal("formatint", sortStr, c.args...)
	}, "strconv.FormatUint", "strconv.FormatInt")

	// ---- regexp
	mk := func(c *callCtx) *Term {
		return newIface("regexp", c.seq(0))
	}
	reg(mk, "regexp.MustCompile")
	reg(func(c *callCtx) *Term { return Tuple(newIface("regexp", c.seq(0)), tNil) }, "regexp.Compile")
	match := func(c *callCtx, pat, s *Term) *Term {
		p, ok := litOf(pat)
		if !ok {
			return opaque("pattern", sortBool)
		}
		d := compileLang(p)
		return lift1(s, func(x *Term) *Term {
			if d == nil {
				return bAtomN("matchre", pat, x)
			}
			if l, ok := litOf(x); ok {
				return boolT(d.match(l))
			}
			return bAtomN("match:"+d.key, x)
		})
	}
	reOf := func(c *callCtx, f func(pat *Term) *Term) *Term {
		return lift1(c.args[0], func(r *Term) *Term {
			if r.op == OIface && r.str == "regexp" {
				return f(r.args[0])
			}
			return c.in.unknownCall(c.st, "regexp", c.args, c.pos, c.rt)
		})
	}
	reg(func(c *callCtx) *Term {
		return reOf(c, func(p *Term) *Term { return match(c, p, c.seq(1)) })
	}, "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match")
	reg(func(c *callCtx) *Term { return Tuple(match(c, c.seq(0), c.seq(1)), tNil) }, "regexp.MatchString")
	reg(func(c *callCtx) *Term {
		return reOf(c, func(p *Term) *Term {
			pat, ok := litOf(p)
			rep, ok2 := litOf(c.args[2])
			if ok && ok2 && rep == "" {
				if stripsSpaces(pat) {
					return stripWS(c.seq(1))
				}
			}
			return appVal("rereplace", sortStr, p, c.seq(1), c.args[2])
		})
	}, "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString")
	reg(func(c *callCtx) *Term { return reOf(c, func(p *Term) *Term { return p }) }, "(*regexp.Regexp).String")

	// deleting characters: a replacer of single ASCII characters by nothing, or
	// a mapping that keeps or drops every rune
	reg(func(c *callCtx) *Term {
		v := c.in.View(c.st, c.args[0])
		return newIface("replacer", v)
	}, "strings.NewReplacer")
	reg(func(c *callCtx) *Term {
		return lift2(c.args[0], c.seq(1), func(r, s *Term) *Term {
			if r.op != OIface || r.str != "replacer" {
				return c.in.unknownCall(c.st, "replacer", c.args, c.pos, c.rt)
			}
			pairs, ok := []string{}, true
			if r.args[0].op == OSeq {
				for _, e := range r.args[0].args {
					l, isLit := litOf(e)
					ok = ok && isLit
					pairs = append(pairs, l)
				}
			}
			if ok && len(pairs)%2 == 0 && len(pairs) > 0 {
				if l, isLit := litOf(s); isLit {
					return Str(strings.NewReplacer(pairs...).Replace(l))
				}
				set := ""
				for i := 0; i < len(pairs); i += 2 {
					if len(pairs[i]) != 1 || pairs[i][0] >= 128 || pairs[i+1] != "" {
						ok = false
						break
					}
					set += pairs[i]
				}
				if ok {
					return delSet(s, set)
				}
			}
			return appVal("replacer", sortStr, s, Str(strings.Join(pairs, "\x00")))
		})
	}, "(*strings.Replacer).Replace")
	reg(func(c *callCtx) *Term {
		fv := c.args[0]
		fn, ok := (*ssa.Function)(nil), false
		if fv.op == OClosure {
			fn, ok = fv.aux.(*ssa.Function)
		}
		if !ok {
			return c.in.unknownCall(c.st, "strings.Map", c.args, c.pos, c.rt)
		}
		// a run in a scratch state: the mapping must be pure
		apply := func(r *Term) *Term {
			st := c.st.fork()
			v, out := c.in.Call(fn, []*Term{r}, fv.args, st)
			if out == nil || out.pc != c.st.pc {
				return opaque("mapping", sortAny)
			}
			for k, v := range c.st.mem {
				if out.mem[k] != v {
					return opaque("mapping", sortAny)
				}
			}
			return v
		}
		save := c.in.bounds
		c.in.bounds = false
		defer func() { c.in.bounds = save; curPC = c.st.pc }()
		high := rawApp("rune", &Sort{kind: 'i', lo: big.NewInt(128), hi: big.NewInt(0x10ffff)}, Str(freshName("rune")))
		if apply(high) == high {
			set := ""
			for i := int64(0); i < 128 && ok; i++ {
				switch v, isC := apply(C(i)).constInt(); {
				case isC && v < 0:
					set += string(rune(i))
				case isC && v == int(i):
				default:
					ok = false
				}
			}
			if ok {
				return delSet(c.seq(1), set)
			}
		}
		return appVal("map", sortStr, c.seq(1), Str(fn.String()))
	}, "strings.Map")

	// unicode.IsSpace on ASCII runes
	reg(func(c *callCtx) *Term {
		return lift1(c.args[0], func(x *Term) *Term {
			if k, ok := x.constInt(); ok {
				return boolT(isUnicodeSpace(rune(k)))
			}
			return bAtomN("isspace", x)
		})
	}, "unicode.IsSpace")

	// ---- randomness
	rd := func(c *callCtx, buf *Term) *Term {
		k := c.in.calls["$rand"]
		c.in.calls["$rand"]++
		c.event("rand", "reads the system generator")
		id := C(int64(k))
		n := c.in.SliceLen(c.st, buf)
		src := rawApp("random", &Sort{kind: 's', elem: byteSort}, id)
		var cells *Term
		if m, ok := n.constInt(); ok && m <= 4096 {
			xs := make([]*Term, m)
			for i := range xs {
				xs[i] = elemOf(src, C(int64(i)))
			}
			cells = Seq(xs...)
		} else {
			cells = lift1(n, func(m *Term) *Term { return Seq(mkSubSeq(src, C(0), m)) })
		}
		c.in.writeSlice(c.st, buf, cells, c.pos)
		fail := bAtom("randfail", id)
		return Tuple(Ite(fail, C(0), n), Ite(fail, errT("crypto/rand"), tNil))
	}
	reg(func(c *callCtx) *Term { return rd(c, c.args[0]) }, "crypto/rand.Read")
	ifaceModels["rand.Reader.Read"] = func(c *callCtx) *Term {
		// one read may deliver fewer bytes than the buffer holds
		n := c.in.SliceLen(c.st, c.args[1])
		before := c.in.View(c.st, c.args[1])
		r := rd(c, c.args[1])
		k := C(int64(c.in.calls["$rand"]))
		short := bAtom("randshort", k)
		if before.op == OSeq {
			after := c.in.View(c.st, c.args[1])
			c.in.writeSlice(c.st, c.args[1], Ite(short, before, after), c.pos)
		}
		got := rawApp("shortread", sortLen, k)
		got = Ite(Lt(got, n), got, C(0))
		return lift1(r, func(t *Term) *Term {
			return Tuple(Ite(IsNil(t.args[1]), Ite(short, got, t.args[0]), C(0)), t.args[1])
		})
	}
	reg(func(c *callCtx) *Term {
		if c.args[0].op == OIface && c.args[0].str == "rand.Reader" {
			return rd(c, c.args[1])
		}
		return c.in.unknownCall(c.st, "io.ReadFull of an unknown reader", c.args, c.pos, c.rt)
	}, "io.ReadFull")
	reg(func(c *callCtx) *Term {
		if c.args[0].op == OIface && c.args[0].str == "rand.Reader" {
			if n := c.in.SliceLen(c.st, c.args[1]); n == c.args[2] {
				return rd(c, c.args[1])
			}
		}
		return c.in.unknownCall(c.st, "io.ReadAtLeast of an unknown reader", c.args, c.pos, c.rt)
	}, "io.ReadAtLeast")
	// bytes.Trim of zero bytes: empty exactly for zeros only
	for _, nm := range []string{"Trim", "TrimRight"} {
		reg(func(c *callCtx) *Term {
			set, ok := litOf(c.seq(1))
			return lift1(structured(c.seq(0)), func(x *Term) *Term {
				so := &Sort{kind: 's', elem: byteSort, lo: big1}
				if n, known := constLen(x); ok && known && set == "\x00" && n > 0 {
					return Ite(Eq(BE(x), C(0)), c.bytes(tEmpty), c.bytes(wholeSeq(rawApp("trim0"+nm, so, x))))
				}
				return c.bytes(appVal("trimbytes"+nm, sortStr, x, c.seq(1)))
			})
		}, "bytes."+nm)
	}
}

var _ = ssa.BuilderMode(0)

// listedWords splits a text that consists of words of the list of words
// without white space, and of spaces.
func (in *Interp) listedWords(x *Term) []*Term {
	if in.wordsOf == nil || x.op != OSeq {
		return nil
	}
	var out []*Term
	open := false
	for _, g := range x.args {
		switch {
		case g.op == OLit && strings.TrimSpace(g.str) == "":
			open = false
		case g.op == OSub && g.args[0].op == OApp && g.args[0].str == "at" && g.args[0].args[0] == seqBase(in.wordsOf) && wholeSeq(g.args[0]) == Seq(g) && !open:
			out = append(out, Seq(g))
			open = true
		default:
			return nil
		}
	}
	return out
}

// stripsSpaces reports whether deleting the matches of a pattern deletes the
// white space of the \s class and nothing else: one class of exactly those
// characters, once or repeated.
func stripsSpaces(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	for re.Op == syntax.OpPlus || re.Op == syntax.OpCapture || re.Op == syntax.OpStar && re.Flags&syntax.NonGreedy == 0 {
		re = re.Sub[0]
	}
	return re.Op == syntax.OpCharClass && string(re.Rune) == "\t\n\f\r  "
}
