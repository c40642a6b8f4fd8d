package main

import (
	"fmt"
	"math/big"
	"strings"
)

// math/big and the secp256k1 library.

func (in *Interp) libObj(name string, v *Term) *Term {
	key := "$lib:" + name
	if o, ok := in.calls[key]; ok {
		return ptrTo(o)
	}
	o := in.newObj("lib", name, nil)
	in.calls[key] = o
	in.constMem[o] = v
	return ptrTo(o)
}

// curveParams is the object Params returns.
func (in *Interp) curveParams() *Term {
	hexInt := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }
	f := func(name string, n *big.Int) *Term { return in.libObj("secp256k1."+name, CB(n)) }
	gx := hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy := hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	return in.libObj("secp256k1.params", Struct(f("P", secpP), f("N", secpN), f("B", big.NewInt(7)), f("Gx", gx), f("Gy", gy), C(256), Str("secp256k1")))
}

func powT(x *Term, n int) *Term {
	r := C(1)
	for i := 0; i < n; i++ {
		r = MulInt(r, x)
	}
	return r
}

// expMod is x^e mod m.
func expMod(x, e, m *Term) *Term {
	return liftTop([]*Term{x, e, m}, func(a []*Term) *Term {
		x, e, m := a[0], a[1], a[2]
		if k, ok := e.constInt(); ok && k >= 0 && k <= 8 {
			return ModInt(powT(x, k), m)
		}
		return App("expmod", sortNat, x, e, m)
	})
}

// reduce strips an outer reduction modulo the group order.
func reduceN(k *Term) *Term {
	return lift1(k, func(x *Term) *Term {
		if x.op == OApp && x.str == "mod" && x.args[1] == tN {
			return x.args[0]
		}
		return x
	})
}

func init() {
	B := "(*math/big.Int)."
	val := func(c *callCtx, i int) *Term { return c.load(i) }
	set := func(f func(c *callCtx) *Term) model {
		return func(c *callCtx) *Term {
			c.store(0, f(c))
			return c.args[0]
		}
	}
	reg(func(c *callCtx) *Term { return c.fresh(c.args[0]) }, "math/big.NewInt")
	reg(set(func(c *callCtx) *Term { return val(c, 1) }), B+"Set")
	reg(set(func(c *callCtx) *Term { return c.args[1] }), B+"SetInt64", B+"SetUint64")
	reg(set(func(c *callCtx) *Term { return BE(c.seq(1)) }), B+"SetBytes")
	reg(set(func(c *callCtx) *Term { return Add(val(c, 1), val(c, 2)) }), B+"Add")
	reg(set(func(c *callCtx) *Term { return Sub(val(c, 1), val(c, 2)) }), B+"Sub")
	reg(set(func(c *callCtx) *Term { return Neg(val(c, 1)) }), B+"Neg")
	reg(set(func(c *callCtx) *Term {
		x := val(c, 1)
		return Ite(Ge(x, big0), x, Neg(x))
	}), B+"Abs")
	reg(set(func(c *callCtx) *Term { return MulInt(val(c, 1), val(c, 2)) }), B+"Mul")
	div := func(f func(x, y *Term) *Term) model {
		return func(c *callCtx) *Term {
			x, y := val(c, 1), val(c, 2)
			c.need(Not(Eq(y, C(0))), "division by zero")
			c.store(0, lift2(x, y, f))
			return c.args[0]
		}
	}
	reg(div(func(x, y *Term) *Term {
		if lo, _ := rangeOf(y); lo != nil && lo.Sign() > 0 {
			return FloorDiv(x, y)
		}
		return App("ediv", sortAny, x, y)
	}), B+"Div")
	reg(div(func(x, y *Term) *Term {
		if lo, _ := rangeOf(y); lo != nil && lo.Sign() > 0 {
			return ModInt(x, y)
		}
		return App("emod", sortNat, x, y)
	}), B+"Mod")
	reg(div(func(x, y *Term) *Term {
		lx, _ := rangeOf(x)
		ly, _ := rangeOf(y)
		if lx != nil && lx.Sign() >= 0 && ly != nil && ly.Sign() > 0 {
			return FloorDiv(x, y)
		}
		return App("tdiv", sortAny, x, y)
	}), B+"Quo")
	reg(div(func(x, y *Term) *Term {
		lx, _ := rangeOf(x)
		ly, _ := rangeOf(y)
		if lx != nil && lx.Sign() >= 0 && ly != nil && ly.Sign() > 0 {
			return ModInt(x, y)
		}
		return App("trem", sortAny, x, y)
	}), B+"Rem")
	reg(func(c *callCtx) *Term {
		x, y := val(c, 1), val(c, 2)
		c.need(Not(Eq(y, C(0))), "division by zero")
		c.store(0, lift2(x, y, func(x, y *Term) *Term { return FloorDiv(x, y) }))
		c.store(3, lift2(x, y, func(x, y *Term) *Term { return ModInt(x, y) }))
		return Tuple(c.args[0], c.args[3])
	}, B+"DivMod", B+"QuoRem")
	reg(set(func(c *callCtx) *Term { return lift2(val(c, 1), val(c, 2), AndInt) }), B+"And")
	reg(set(func(c *callCtx) *Term { return lift2(val(c, 1), val(c, 2), OrInt) }), B+"Or")
	reg(set(func(c *callCtx) *Term { return lift2(val(c, 1), val(c, 2), XorInt) }), B+"Xor")
	shift := func(left bool) model {
		return set(func(c *callCtx) *Term {
			return lift2(val(c, 1), c.args[2], func(x, n *Term) *Term {
				k, ok := n.constInt()
				if !ok || k < 0 || k > 1<<16 {
					return App(fmt.Sprint("shift", left), sortAny, x, n)
				}
				if left {
					return Shl(x, k)
				}
				return FloorDiv(x, CB(pow2(k)))
			})
		})
	}
	reg(shift(true), B+"Lsh")
	reg(shift(false), B+"Rsh")
	reg(set(func(c *callCtx) *Term {
		return liftN([]*Term{val(c, 1), c.args[2], c.args[3]}, func(a []*Term) *Term {
			k, ok := a[1].constInt()
			if !ok || k < 0 || k > 1<<16 {
				return App("setbit", sortAny, a...)
			}
			x := a[0]
			return Add(Sub(x, Shl(Slice(x, k, 1), k)), Shl(a[2], k))
		})
	}), B+"SetBit")
	reg(func(c *callCtx) *Term {
		x, e, m := val(c, 1), val(c, 2), c.args[3]
		var r *Term
		if m.op == ONil {
			r = lift2(x, e, func(x, e *Term) *Term {
				if k, ok := e.constInt(); ok && k <= 16 {
					if k < 0 {
						k = 0
					}
					return powT(x, k)
				}
				return App("exp", sortAny, x, e)
			})
		} else {
			r = expMod(x, e, c.in.Load(c.st, m))
		}
		c.store(0, r)
		return c.args[0]
	}, B+"Exp")
	reg(func(c *callCtx) *Term {
		x, p := val(c, 1), val(c, 2)
		old := val(c, 0)
		var sq, root *Term
		if p == tP {
			x = ModInt2(x)
			sq, root = lift1(x, IsSquare), lift1(x, Root)
		} else {
			sq, root = App("issquaremod", sortBool, x, p), App("modsqrt", sortNat, x, p)
		}
		c.store(0, Ite(sq, root, old))
		return Ite(sq, c.args[0], tNil)
	}, B+"ModSqrt")
	reg(func(c *callCtx) *Term {
		r := App("modinverse", sortNat, val(c, 1), val(c, 2))
		c.store(0, r)
		return c.args[0]
	}, B+"ModInverse")
	reg(func(c *callCtx) *Term { return CmpInt(val(c, 0), val(c, 1)) }, B+"Cmp")
	reg(func(c *callCtx) *Term { return CmpInt(val(c, 0), val(c, 1)) }, B+"CmpAbs")
	reg(func(c *callCtx) *Term { return CmpInt(val(c, 0), C(0)) }, B+"Sign")
	reg(func(c *callCtx) *Term {
		return lift2(val(c, 0), c.args[1], func(x, i *Term) *Term {
			k, ok := i.constInt()
			if !ok || k < 0 {
				return App("bit", &Sort{kind: 'i', lo: big0, hi: big1}, x, i)
			}
			return Slice(x, k, 1)
		})
	}, B+"Bit")
	reg(func(c *callCtx) *Term {
		return lift1(val(c, 0), func(x *Term) *Term {
			if x.isConst() {
				return C(int64(x.num.BitLen()))
			}
			return App("bitlen", sortLen, x)
		})
	}, B+"BitLen")
	reg(func(c *callCtx) *Term { return c.bytes(lift1(val(c, 0), MinBytes)) }, B+"Bytes")
	reg(func(c *callCtx) *Term {
		x := val(c, 0)
		n := c.in.SliceLen(c.st, c.args[1])
		if k, ok := n.constInt(); ok {
			c.need(And(Ge(x, big0), Lt(x, CB(pow2(8*k)))), "FillBytes buffer too small")
			c.in.writeSlice(c.st, c.args[1], lift1(x, func(y *Term) *Term { return Cells(y, k) }), c.pos)
		} else {
			c.in.writeSlice(c.st, c.args[1], lift1(x, func(y *Term) *Term {
				return Seq(segFill(C(0), Sub(n, blen(y))), intern(&Term{op: OMin, args: []*Term{y}}))
			}), c.pos)
		}
		return c.args[1]
	}, B+"FillBytes")
	reg(func(c *callCtx) *Term { return lift1(val(c, 0), func(x *Term) *Term { return Slice(x, 0, 64) }) }, B+"Uint64")
	reg(func(c *callCtx) *Term {
		return lift1(val(c, 0), func(x *Term) *Term {
			if inRange(x, new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1)) {
				return x
			}
			l := Slice(x, 0, 64)
			return Ite(Ge(l, pow2(63)), Sub(l, CB(pow2(64))), l)
		})
	}, B+"Int64")
	reg(func(c *callCtx) *Term {
		x := val(c, 0)
		return And(Ge(x, new(big.Int).Neg(pow2(63))), Lt(x, CB(pow2(63))))
	}, B+"IsInt64")
	reg(func(c *callCtx) *Term { x := val(c, 0); return And(Ge(x, big0), Lt(x, CB(pow2(64)))) }, B+"IsUint64")
	reg(func(c *callCtx) *Term { return DecStr(val(c, 0)) }, B+"String")
	reg(func(c *callCtx) *Term {
		switch b, _ := c.args[1].constInt(); b {
		case 10:
			return DecStr(val(c, 0))
		case 16:
			return hexInt(val(c, 0))
		}
		return appVal("inttext", sortStr, val(c, 0), c.args[1])
	}, B+"Text")
	reg(func(c *callCtx) *Term {
		b, ok := c.args[2].constInt()
		s := c.seq(1)
		if l, isLit := litOf(s); ok && isLit {
			if n, good := new(big.Int).SetString(l, b); good {
				c.store(0, CB(n))
				return Tuple(c.args[0], tTrue)
			}
			return Tuple(tNil, tFalse)
		}
		if ok && b == 16 {
			if d, o, done := unhex(s); done && o.op == OTrue {
				empty := Eq(Len(d), C(0))
				c.store(0, BE(d))
				return Tuple(Ite(empty, tNil, c.args[0]), Not(empty))
			}
		}
		good := App("isbigint", sortBool, s, c.args[2])
		c.store(0, App("bigval", sortAny, s, c.args[2]))
		return Tuple(Ite(good, c.args[0], tNil), good)
	}, B+"SetString")

	// ---- the curve
	S := "github.com/decred/dcrd/dcrec/secp256k1/v4."
	K := "(*github.com/decred/dcrd/dcrec/secp256k1/v4.KoblitzCurve)."
	reg(func(c *callCtx) *Term { return c.in.libObj("secp256k1.curve", Struct(c.in.curveParams())) }, S+"S256")
	reg(func(c *callCtx) *Term { return c.in.curveParams() }, K+"Params", S+"Params", "(*crypto/elliptic.CurveParams).Params")
	reg(func(c *callCtx) *Term {
		k := reduceN(BE(c.seq(1)))
		return Tuple(c.fresh(SMX(k)), c.fresh(SMY(k)))
	}, K+"ScalarBaseMult")
	reg(func(c *callCtx) *Term {
		a := []*Term{val(c, 1), val(c, 2), val(c, 3), val(c, 4)}
		return Tuple(c.fresh(PADX(a[0], a[1], a[2], a[3])), c.fresh(PADY(a[0], a[1], a[2], a[3])))
	}, K+"Add")
	reg(func(c *callCtx) *Term {
		a := []*Term{val(c, 1), val(c, 2)}
		return Tuple(c.fresh(PADX(a[0], a[1], a[0], a[1])), c.fresh(PADY(a[0], a[1], a[0], a[1])))
	}, K+"Double")
	reg(func(c *callCtx) *Term {
		k := reduceN(BE(c.seq(3)))
		x, y := val(c, 1), val(c, 2)
		return Tuple(c.fresh(App("multx", sortP, k, x, y)), c.fresh(App("multy", sortP, k, x, y)))
	}, K+"ScalarMult")
	reg(func(c *callCtx) *Term {
		return liftN([]*Term{val(c, 1), val(c, 2)}, func(a []*Term) *Term {
			return EqVal(ModInt(MulInt(a[1], a[1]), tP), ModInt(curveRHS(a[0]), tP))
		})
	}, K+"IsOnCurve")
	reg(func(c *callCtx) *Term {
		r := lift1(c.seq(0), func(s *Term) *Term {
			n, ok := constLen(s)
			if ok && n == 33 {
				es := elems(s)
				x := BE(Seq(es[1:]...))
				good := And(Or(Eq(es[0], C(2)), Eq(es[0], C(3))), Lt(x, tP), lift1(x, onCurve))
				return Tuple(Ite(good, rawApp("pubkey", sortObj, s), tNil), Ite(good, tNil, errT("secp256k1.ParsePubKey")))
			}
			if ok && n != 65 {
				return Tuple(tNil, errT("secp256k1.ParsePubKey"))
			}
			good := bAtomN("ispubkey", s)
			if !ok {
				// other lengths than 33 and 65 are refused; left to the atom
				good = And(Or(Eq(Len(s), C(33)), Eq(Len(s), C(65))), good)
			}
			return Tuple(Ite(good, rawApp("pubkey", sortObj, s), tNil), Ite(good, tNil, errT("secp256k1.ParsePubKey")))
		})
		k := lift1(c.in.extract(r, 0), func(x *Term) *Term {
			if x.op == ONil {
				return x
			}
			return c.fresh(x)
		})
		return Tuple(k, c.in.extract(r, 1))
	}, S+"ParsePubKey")
	PK := "(*" + S + "PublicKey)."
	xy := func(c *callCtx, f func(x, par *Term) *Term) *Term {
		v := c.loadOf(c.args[0])
		return lift1(v, func(k *Term) *Term {
			if k.op == OApp && k.str == "pubkey" {
				if n, ok := constLen(k.args[0]); ok && n == 33 {
					es := elems(k.args[0])
					x := BE(Seq(es[1:]...))
					return f(x, Sub(es[0], C(2)))
				}
			}
			if k.op == OApp && k.str == "pubscalar" {
				return f(SMX(k.args[0]), Slice(SMY(k.args[0]), 0, 1))
			}
			if k.op == OApp && k.str == "pubxy" {
				return f(k.args[0], Slice(k.args[1], 0, 1))
			}
			return opaque("public key", sortObj)
		})
	}
	reg(func(c *callCtx) *Term {
		return c.fresh(xy(c, func(x, b *Term) *Term { return x }))
	}, PK+"X")
	reg(func(c *callCtx) *Term {
		return c.fresh(xy(c, func(x, b *Term) *Term { return DecY(x, b) }))
	}, PK+"Y")
	ser := func(c *callCtx) *Term {
		return c.bytes(xy(c, func(x, b *Term) *Term { return Concat(Seq(Add(C(2), b)), Cells(x, 32)) }))
	}
	reg(ser, PK+"SerializeCompressed", "("+S+"PublicKey).SerializeCompressed")
	reg(func(c *callCtx) *Term {
		return c.bytes(xy(c, func(x, b *Term) *Term { return Concat(Str("\x04"), Cells(x, 32), Cells(DecY(x, b), 32)) }))
	}, PK+"SerializeUncompressed", "("+S+"PublicKey).SerializeUncompressed")
	reg(func(c *callCtx) *Term {
		k := BE(c.seq(0))
		return c.fresh(lift1(k, func(x *Term) *Term { return rawApp("privkey", sortObj, reduceN(x)) }))
	}, S+"PrivKeyFromBytes")
	reg(func(c *callCtx) *Term {
		return c.fresh(lift1(c.load(0), func(x *Term) *Term {
			if x.op == OApp && x.str == "privkey" {
				return rawApp("pubscalar", sortObj, x.args[0])
			}
			return opaque("public key", sortObj)
		}))
	}, "(*"+S+"PrivateKey).PubKey")
	for _, n := range []string{"modinverse", "expmod"} {
		_ = n
	}
	_ = strings.ToLower
}

// ModInt2 leaves polynomials for the root unreduced: the root of c and of
// c mod p are the same.
func ModInt2(x *Term) *Term {
	return lift1(x, func(y *Term) *Term {
		if y.op == OApp && y.str == "mod" && y.args[1] == tP {
			return y.args[0]
		}
		return y
	})
}
