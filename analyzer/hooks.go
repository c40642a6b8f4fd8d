package main

import "math/big"

// secp256k1 constants
var (
	secpP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	secpN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	tP       = CB(secpP)
	tN       = CB(secpN)
	sortP    = &Sort{kind: 'i', lo: big0, hi: new(big.Int).Sub(secpP, big1), bits: true}
)

// Curve terms: smx/smy(k) coordinates of k*G; padx/pady(x1,y1,x2,y2) of a sum;
// root(c) the square root ModSqrt returns for c mod p; decy(X, bit) the root of
// X^3+7 with the given parity.

func SMX(k *Term) *Term { return App("smx", sortP, k) }
func SMY(k *Term) *Term { return App("smy", sortP, k) }

func paddArgs(x1, y1, x2, y2 *Term) []*Term {
	if x1.id > x2.id || x1 == x2 && y1.id > y2.id {
		return []*Term{x2, y2, x1, y1}
	}
	return []*Term{x1, y1, x2, y2}
}
func PADX(x1, y1, x2, y2 *Term) *Term {
	return liftN([]*Term{x1, y1, x2, y2}, func(a []*Term) *Term {
		if k := scalarSum(a); k != nil {
			return SMX(k)
		}
		return rawApp("padx", sortP, paddArgs(a[0], a[1], a[2], a[3])...)
	})
}
func PADY(x1, y1, x2, y2 *Term) *Term {
	return liftN([]*Term{x1, y1, x2, y2}, func(a []*Term) *Term {
		if k := scalarSum(a); k != nil {
			return SMY(k)
		}
		return rawApp("pady", sortP, paddArgs(a[0], a[1], a[2], a[3])...)
	})
}

// scalarSum: a*G + b*G = (a+b mod n)*G; 0*G has coordinates 0, as the point
// at infinity has.
func scalarSum(a []*Term) *Term {
	for i, n := range []string{"smx", "smy", "smx", "smy"} {
		if a[i].op != OApp || a[i].str != n || a[i].args[0] != a[i&^1].args[0] {
			return nil
		}
	}
	return reduceN(Add(a[0].args[0], a[2].args[0]))
}

// curveRHS is X^3+7.
func curveRHS(x *Term) *Term { return Add(MulInt(MulInt(x, x), x), C(7)) }

// rhsX recognises c = X^3+7 (mod p) and returns X.
func rhsX(c *Term) *Term {
	if c.op == OApp && c.str == "mod" && c.args[1] == tP {
		c = c.args[0]
	}
	k, ps := linParts(c)
	if k.Cmp(big.NewInt(7)) == 0 && len(ps) == 1 && ps[0].c.Cmp(big1) == 0 {
		m := ps[0].t
		if m.op == OApp && m.str == "mono" && len(m.args) == 3 && m.args[0] == m.args[1] && m.args[1] == m.args[2] {
			return m.args[0]
		}
	}
	return nil
}

// Root is the square root ModSqrt(c, p) stores.
func Root(c *Term) *Term {
	if x := rhsX(c); x != nil {
		return rawApp("root", sortP, x)
	}
	return App("modsqrt", sortP, c, tP)
}

// IsSquare: c has a square root modulo p.
func IsSquare(c *Term) *Term {
	if x := rhsX(c); x != nil {
		return onCurve(x)
	}
	return App("issquare", sortBool, c)
}

// onCurve: some y has y^2 = x^3+7.
func onCurve(x *Term) *Term {
	if x.op == OIte {
		return lift1(x, onCurve)
	}
	if x.op == OApp {
		switch x.str {
		case "smx":
			return Not(zeroHook(x))
		case "padx":
			return Not(infAtom(x))
		}
	}
	return App("oncurve", sortBool, x)
}

// infAtom: the sum is the point at infinity, whose coordinates are returned as 0.
func infAtom(x *Term) *Term { return bAtom("infinity", x.args...) }

// zeroHook decides zero tests of curve coordinates.
func zeroHook(x *Term) *Term {
	if x.op != OApp {
		return nil
	}
	switch x.str {
	case "smx", "smy":
		k := x.args[0]
		if lo, hi := rangeOf(k); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(secpN, 1)) < 0 {
			return Or(Eq(k, C(0)), Eq(k, tN))
		}
		return Eq(modUnder(k, tN), C(0))
	case "padx", "pady":
		return infAtom(x)
	case "decy":
		// no point of the curve has y = 0
		return Not(onCurve(x.args[0]))
	}
	return nil
}

// modUnder is k mod n using the path's range facts.
func modUnder(k, n *Term) *Term {
	lo, hi := rangeOf(k)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(n.num) < 0 {
		return k
	}
	return ModInt(k, n)
}

// DecY is the y coordinate of parity bit (0/1 term) over X.
func DecY(x, bit *Term) *Term {
	return liftTop([]*Term{x, bit}, func(a []*Term) *Term {
		x, bit := a[0], a[1]
		if x.op == OApp && (x.str == "smx" || x.str == "padx") {
			var y *Term
			if x.str == "smx" {
				y = SMY(x.args[0])
			} else {
				y = rawApp("pady", sortP, x.args...)
			}
			own := Slice(y, 0, 1)
			switch {
			case bit == own:
				return y
			case bit == Sub(C(1), own):
				return Sub(tP, y)
			}
		}
		return rawApp("decy", sortP, x, bit)
	})
}

// asDecY views a value as decy(X, parity condition).
func asDecY(t *Term) (x, par *Term) {
	if t.op == OApp && len(t.args) > 0 {
		switch t.str {
		case "root":
			return t.args[0], Ge(Slice(t, 0, 1), big1)
		case "decy":
			return t.args[0], Ge(t.args[1], big1)
		case "smy":
			return SMX(t.args[0]), Ge(Slice(t, 0, 1), big1)
		case "pady":
			return rawApp("padx", sortP, t.args...), Ge(Slice(t, 0, 1), big1)
		}
	}
	if t.op == OLin && len(t.args) == 1 && t.num.Cmp(secpP) == 0 && t.coefs[0].Cmp(big.NewInt(-1)) == 0 {
		if x, p := asDecY(t.args[0]); x != nil {
			return x, Not(p)
		}
	}
	return nil, nil
}

// decyHook normalises "the root or its negation, whichever has the parity".
func decyHook(atom, a, b *Term) *Term {
	if a.op == OIte || b.op == OIte {
		return nil
	}
	if a.flags&fIte != 0 && b.flags&fIte != 0 {
		return nil
	}
	xa, pa := asDecY(a)
	if xa == nil {
		return nil
	}
	xb, pb := asDecY(b)
	if xb != xa {
		return nil
	}
	p := Ite(mkNode(atom, tTrue, tFalse), pa, pb)
	bit := b01(p)
	if bit.op == OIte {
		return nil
	}
	return DecY(xa, bit)
}

// boolHook normalises boolean atoms.
func boolHook(name string, args []*Term) *Term {
	switch name {
	case "oncurve":
		if x := args[0]; x.op == OApp && (x.str == "smx" || x.str == "padx") {
			return onCurve(x)
		}
	case "inset":
		if args[0].isConst() {
			for _, a := range args[1:] {
				if a == args[0] {
					return tTrue
				}
			}
			return tFalse
		}
		if len(args) == 1 {
			return tFalse
		}
	}
	return nil
}

// reApp rebuilds an application with new arguments through its constructor.
func reApp(t *Term, xs []*Term) *Term {
	s := t.aux.(*Sort)
	switch t.str {
	case "mod":
		return ModInt(xs[0], xs[1])
	case "div":
		return FloorDiv(xs[0], xs[1])
	case "mono":
		r := xs[0]
		for _, x := range xs[1:] {
			r = MulInt(r, x)
		}
		return r
	case "blen":
		return lift1(xs[0], blen)
	case "cmp":
		return CmpInt(xs[0], C(0))
	case "len":
		// length of a rebuilt base
		return lift1(xs[0], func(b *Term) *Term {
			if b.op == OApp {
				return lenOfBase(b)
			}
			return Len(b)
		})
	case "decy":
		return DecY(xs[0], xs[1])
	case "padx":
		return PADX(xs[0], xs[1], xs[2], xs[3])
	case "pady":
		return PADY(xs[0], xs[1], xs[2], xs[3])
	case "and":
		return AndInt(xs[0], xs[1])
	case "or":
		return OrInt(xs[0], xs[1])
	case "xor":
		return XorInt(xs[0], xs[1])
	case "hexdigit":
		return lift1(xs[0], hexDigit)
	case "seq":
		return lift1(xs[0], func(q *Term) *Term {
			return q // a rebuilt sequence is its own base
		})
	case "be":
		return BE(xs[0])
	case "at":
		return liftN(xs, func(y []*Term) *Term {
			if y[0].op == OSeq {
				return At(y[0], y[1])
			}
			r := elemOf(y[0], y[1])
			return r
		})
	case "sumlen":
		return Len(xs[0])
	case "upd":
		return Update(xs[0], xs[1], xs[2])
	case "splice":
		return Splice(xs[0], xs[1], xs[2])
	case "compare":
		return CompareSeq(xs[0], xs[1])
	}
	if fn, ok := reAppTab[t.str]; ok {
		return fn(xs)
	}
	return liftN(xs, func(y []*Term) *Term { return rawApp(t.str, s, y...) })
}

var reAppTab = map[string]func(xs []*Term) *Term{}
