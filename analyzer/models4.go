package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Further library models: helpers a rewritten function may use instead of the
// ones the repository uses now.

// seqFill writes a digest-like byte sequence through *[N]byte.
func (c *callCtx) putArray(p, s *Term) {
	c.need(Not(IsNilPtr(p)), "nil pointer passed to a library method")
	c.in.Store(c.st, p, s, c.pos)
}

func (c *callCtx) loadOf(t *Term) *Term {
	if t.op == OPtr || t.op == ONil || t.op == OIte {
		c.need(Not(IsNilPtr(t)), "nil pointer passed to a library method")
		return c.in.Load(c.st, t)
	}
	return t
}

func (c *callCtx) callClosure(f *Term, args ...*Term) *Term {
	return c.in.callValue(c.st, f, args, c.pos, types.Typ[types.Bool])
}

// isIsSpace reports whether a function value is the Unicode white space class.
func isIsSpace(f *Term) bool { return f.op == OClosure && f.str == "unicode.IsSpace" }

func init() {
	// ---- hex
	reg(func(c *callCtx) *Term {
		s := c.seq(1)
		n := MulInt(Len(s), C(2))
		c.need(liftCond(c.in.SliceLen(c.st, c.args[0]), n), "hex.Encode into a short buffer")
		c.in.writeSlice(c.st, c.args[0], HexStr(s), c.pos)
		return n
	}, "encoding/hex.Encode")
	reg(func(c *callCtx) *Term { return MulInt(c.args[0], C(2)) }, "encoding/hex.EncodedLen")
	reg(func(c *callCtx) *Term { return FloorDiv(c.args[0], C(2)) }, "encoding/hex.DecodedLen")
	reg(func(c *callCtx) *Term { return c.in.appendTo(c.st, c.args[0], HexStr(c.seq(1)), c.pos) }, "encoding/hex.AppendEncode")
	reg(func(c *callCtx) *Term {
		d, ok, err := c.unhexParts(c.seq(1))
		c.need(Implies(ok, liftCond(c.in.SliceLen(c.st, c.args[0]), Len(d))), "hex.Decode into a short buffer")
		c.in.writeSlice(c.st, c.args[0], d, c.pos)
		return Tuple(Ite(ok, Len(d), C(0)), err)
	}, "encoding/hex.Decode")

	// ---- text
	cutP := func(name string) (model, bool) { m, ok := models[name]; return m, ok }
	call := func(c *callCtx, name string, args ...*Term) *Term {
		m, ok := cutP(name)
		if !ok {
			return opaque(name, sortObj)
		}
		d := *c
		d.args = args
		return m(&d)
	}
	reg(func(c *callCtx) *Term {
		return Tuple(call(c, "strings.TrimPrefix", c.args...), call(c, "strings.HasPrefix", c.args...))
	}, "strings.CutPrefix")
	reg(func(c *callCtx) *Term {
		return Tuple(call(c, "strings.TrimSuffix", c.args...), call(c, "strings.HasSuffix", c.args...))
	}, "strings.CutSuffix")
	byteStr := func(t *Term) *Term { return Seq(t) }
	reg(func(c *callCtx) *Term { return indexText(structured(c.seq(0)), c.seq(1), false) }, "strings.Index", "bytes.Index")
	reg(func(c *callCtx) *Term { return indexText(structured(c.seq(0)), byteStr(c.args[1]), false) }, "strings.IndexByte", "bytes.IndexByte")
	reg(func(c *callCtx) *Term { return indexText(structured(c.seq(0)), c.seq(1), true) }, "strings.LastIndex")
	reg(func(c *callCtx) *Term { return indexText(structured(c.seq(0)), byteStr(c.args[1]), true) }, "strings.LastIndexByte")
	reg(func(c *callCtx) *Term {
		if k, ok := c.args[1].constInt(); ok && k >= 0 && k < 128 {
			return indexText(structured(c.seq(0)), Str(string(rune(k))), false)
		}
		return App("indexrune", &Sort{kind: 'i', lo: big.NewInt(-1), hi: maxLen}, c.seq(0), c.args[1])
	}, "strings.IndexRune")
	reg(func(c *callCtx) *Term {
		set, ok := litOf(c.seq(1))
		return lift1(structured(c.seq(0)), func(x *Term) *Term {
			if ok && len(set) == 1 && set[0] < 128 {
				if r := containsOf(x, Str(set)); r != nil {
					return r
				}
				return bAtomN("contains", x, Str(set))
			}
			return bAtomN("containsany", x, c.seq(1))
		})
	}, "strings.ContainsAny")
	reg(func(c *callCtx) *Term {
		if isIsSpace(c.args[1]) {
			return call(c, "strings.Fields", c.args[0])
		}
		return c.in.unknownCall(c.st, "strings.FieldsFunc", c.args, c.pos, c.rt)
	}, "strings.FieldsFunc")
	reg(func(c *callCtx) *Term {
		if isIsSpace(c.args[1]) {
			return call(c, "strings.TrimSpace", c.args[0])
		}
		return c.in.unknownCall(c.st, "strings.TrimFunc", c.args, c.pos, c.rt)
	}, "strings.TrimFunc")
	reg(func(c *callCtx) *Term {
		return lift1(c.args[0], func(x *Term) *Term {
			if k, ok := x.constInt(); ok {
				return boolT(unicode.IsDigit(rune(k)))
			}
			return bAtomN("isdigit", x)
		})
	}, "unicode.IsDigit")

	// ---- numbers as text
	reg(func(c *callCtx) *Term {
		if b, ok := c.args[2].constInt(); ok && b == 10 {
			return c.in.appendTo(c.st, c.args[0], DecStr(c.args[1]), c.pos)
		} else if ok && b == 16 {
			return c.in.appendTo(c.st, c.args[0], hexInt(c.args[1]), c.pos)
		}
		return c.in.unknownCall(c.st, "strconv append", c.args, c.pos, c.rt)
	}, "strconv.AppendUint", "strconv.AppendInt")

	// ---- formatted output into memory
	reg(func(c *callCtx) *Term {
		f, args, ok := c.fmtArgs(1)
		if !ok {
			return c.in.unknownCall(c.st, "fmt.Fprintf", c.args, c.pos, c.rt)
		}
		return c.writeTo(c.args[0], c.sprintf(f, args))
	}, "fmt.Fprintf")
	reg(func(c *callCtx) *Term {
		s := call(c, "fmt.Sprint", c.args[1])
		return c.writeTo(c.args[0], s)
	}, "fmt.Fprint")
	reg(func(c *callCtx) *Term {
		f, args, ok := c.fmtArgs(1)
		if !ok {
			return c.in.unknownCall(c.st, "fmt.Appendf", c.args, c.pos, c.rt)
		}
		return c.in.appendTo(c.st, c.args[0], c.sprintf(f, args), c.pos)
	}, "fmt.Appendf")
	reg(func(c *callCtx) *Term {
		return c.in.appendTo(c.st, c.args[0], call(c, "fmt.Sprint", c.args[1]), c.pos)
	}, "fmt.Append")
	reg(func(c *callCtx) *Term {
		v := c.args[2]
		if v.op == OIface && len(v.args) == 1 {
			if t, ok := v.aux.(types.Type); ok {
				if w, _, isInt := intWidth(t); isInt && c.args[1].op == OIface {
					s := Cells(v.args[0], w/8)
					ord, _ := c.args[1].aux.(types.Type)
					if ord != nil && strings.Contains(ord.String(), "bigEndian") {
						r := c.writeTo(c.args[0], s)
						return c.in.extract(r, 1)
					}
				}
			}
		}
		return c.in.unknownCall(c.st, "binary.Write", c.args, c.pos, c.rt)
	}, "encoding/binary.Write")

	// ---- errors
	reg(func(c *callCtx) *Term {
		v := c.seq(0)
		if _, ok := constLen(v); !ok || v.op != OSeq {
			return c.in.unknownCall(c.st, "errors.Join", c.args, c.pos, c.rt)
		}
		es := elems(v)
		return liftN(es, func(a []*Term) *Term {
			var xs []*Term
			for _, x := range a {
				if x.op != ONil {
					xs = append(xs, x)
				}
			}
			if len(xs) == 0 {
				return tNil
			}
			return errT("joined", xs...)
		})
	}, "errors.Join")
	reg(func(c *callCtx) *Term {
		return lift1(c.args[0], func(x *Term) *Term {
			if isErrConst(x) && x.args[0] == Str("formatted") {
				if w := wrapped(x); len(w) == 1 {
					return w[0]
				}
			}
			if isErrConst(x) && len(x.args) == 1 {
				return tNil
			}
			return errT("unwrapped", x)
		})
	}, "errors.Unwrap")

	// ---- constant time helpers
	reg(func(c *callCtx) *Term { return b01(EqVal(c.args[0], c.args[1])) }, "crypto/subtle.ConstantTimeEq", "crypto/subtle.ConstantTimeByteEq")
	reg(func(c *callCtx) *Term { return Ite(Eq(c.args[0], C(1)), c.args[1], c.args[2]) }, "crypto/subtle.ConstantTimeSelect")
	reg(func(c *callCtx) *Term {
		old, nw := c.seq(1), c.seq(2)
		c.need(Eq(Sub(Len(old), Len(nw)), C(0)), "ConstantTimeCopy of different lengths")
		c.in.writeSlice(c.st, c.args[1], Ite(Eq(c.args[0], C(1)), nw, old), c.pos)
		return tNil
	}, "crypto/subtle.ConstantTimeCopy")
	reg(func(c *callCtx) *Term { return b01(Not(Ge(Sub(c.args[0], c.args[1]), big1))) }, "crypto/subtle.ConstantTimeLessOrEq")

	// ---- locks: they order accesses of several goroutines and change no value
	nop := func(c *callCtx) *Term { return tNil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive"} {
		reg(nop, n)
	}

	// ---- slices
	reg(func(c *callCtx) *Term {
		s := c.seq(0)
		if _, ok := constLen(s); !ok {
			return opaque("slices.Index", sortAny)
		}
		r := C(-1)
		es := elems(s)
		for i := len(es) - 1; i >= 0; i-- {
			r = Ite(EqVal(es[i], c.args[1]), C(int64(i)), r)
		}
		return r
	}, "slices.Index")
	anyOf := func(index bool) model {
		return func(c *callCtx) *Term {
			s := c.seq(0)
			n, ok := constLen(s)
			if !ok || n > 64 {
				return c.in.unknownCall(c.st, "search", c.args, c.pos, c.rt)
			}
			found, at := tFalse, C(-1)
			es := elems(s)
			rs := make([]*Term, len(es))
			for i, e := range es {
				rs[i] = c.callClosure(c.args[1], e)
			}
			for i := len(es) - 1; i >= 0; i-- {
				found, at = Or(rs[i], found), Ite(rs[i], C(int64(i)), at)
			}
			if index {
				return at
			}
			return found
		}
	}
	reg(anyOf(false), "slices.ContainsFunc")
	reg(anyOf(true), "slices.IndexFunc")
	reg(func(c *callCtx) *Term { return sortBy(c, false) }, "slices.SortFunc", "slices.SortStableFunc")
	reg(func(c *callCtx) *Term { return sortBy(c, true) }, "slices.Sort", "sort.Strings", "sort.Ints")
	reg(sortIface, "sort.Sort", "sort.Stable")

	// ---- big.Int
	B := "(*math/big.Int)."
	set := func(f func(c *callCtx) *Term) model {
		return func(c *callCtx) *Term {
			c.store(0, f(c))
			return c.args[0]
		}
	}
	reg(set(func(c *callCtx) *Term { return Sub(C(-1), c.load(1)) }), B+"Not")
	reg(set(func(c *callCtx) *Term {
		return lift2(c.load(1), c.load(2), func(x, y *Term) *Term { return Sub(x, AndInt(x, y)) })
	}), B+"AndNot")

	// ---- scalars modulo the group order
	S := "github.com/decred/dcrd/dcrec/secp256k1/v4."
	M := "(*" + S + "ModNScalar)."
	F := "(*" + S + "FieldVal)."
	for _, ty := range []struct {
		p string
		m *Term
	}{{M, tN}, {F, tP}} {
		p, m := ty.p, ty.m
		first32 := func(s *Term) *Term {
			return lift1(s, func(x *Term) *Term {
				if n, ok := constLen(x); ok && n > 32 {
					return SubSeqL(x, C(32))
				} else if ok {
					return x
				}
				return Ite(Ge(Len(x), big.NewInt(33)), SubSeqL(x, C(32)), x)
			})
		}
		isM := p == M
		reg(func(c *callCtx) *Term {
			v := BE(first32(c.seq(1)))
			c.store(0, ModInt(v, m))
			return Not(Lt(v, m))
		}, p+"SetByteSlice")
		reg(func(c *callCtx) *Term {
			v := BE(c.load(1))
			c.store(0, ModInt(v, m))
			return b01(Not(Lt(v, m)))
		}, p+"SetBytes")
		reg(func(c *callCtx) *Term { c.store(0, C(0)); return tNil }, p+"Zero")
		reg(set(func(c *callCtx) *Term { return c.load(1) }), p+"Set")
		reg(set(func(c *callCtx) *Term { return c.args[1] }), p+"SetInt")
		isZero := func(c *callCtx) *Term {
			return lift1(c.load(0), func(x *Term) *Term {
				if x.op == OApp && x.str == "mod" && x.args[1] == m {
					if lo, hi := rangeOf(x.args[0]); lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(new(big.Int).Lsh(m.num, 1)) < 0 {
						return Or(Eq(x.args[0], C(0)), EqVal(x.args[0], m))
					}
				}
				return Eq(x, C(0))
			})
		}
		reg(isZero, p+"IsZero")
		reg(func(c *callCtx) *Term { return b01(isZero(c)) }, p+"IsZeroBit")
		reg(func(c *callCtx) *Term { return EqVal(c.load(0), c.load(1)) }, p+"Equals")
		reg(func(c *callCtx) *Term {
			return EqVal(lift1(c.load(0), func(x *Term) *Term { return Slice(x, 0, 1) }), C(1))
		}, p+"IsOdd")
		reg(func(c *callCtx) *Term {
			s := lift1(c.load(0), func(x *Term) *Term { return Cells(x, 32) })
			if isM {
				return s
			}
			return c.fresh(s)
		}, p+"Bytes")
		reg(func(c *callCtx) *Term {
			c.putArray(c.args[1], lift1(c.load(0), func(x *Term) *Term { return Cells(x, 32) }))
			return tNil
		}, p+"PutBytes")
		reg(func(c *callCtx) *Term {
			c.need(Ge(c.in.SliceLen(c.st, c.args[1]), big.NewInt(32)), "buffer too short")
			c.in.writeSlice(c.st, c.args[1], lift1(c.load(0), func(x *Term) *Term { return Cells(x, 32) }), c.pos)
			return tNil
		}, p+"PutBytesUnchecked")
		mod := func(t *Term) *Term { return ModInt(t, m) }
		reg(set(func(c *callCtx) *Term { return mod(Add(c.load(0), c.load(1))) }), p+"Add")
		reg(set(func(c *callCtx) *Term { return mod(Add(c.load(1), c.load(2))) }), p+"Add2")
		reg(set(func(c *callCtx) *Term { return mod(MulInt(c.load(0), c.load(1))) }), p+"Mul")
		reg(set(func(c *callCtx) *Term { return mod(MulInt(c.load(1), c.load(2))) }), p+"Mul2")
		reg(set(func(c *callCtx) *Term { return mod(Neg(c.load(0))) }), p+"Negate")
		reg(set(func(c *callCtx) *Term { return mod(Neg(c.load(1))) }), p+"NegateVal")
		reg(set(func(c *callCtx) *Term { return c.load(0) }), p+"Normalize")
	}
	reg(func(c *callCtx) *Term {
		x, odd := c.load(0), b01(c.args[1])
		good := lift1(x, onCurve)
		c.store(2, Ite(good, lift2(x, odd, DecY), c.load(2)))
		return good
	}, S+"DecompressY")

	// ---- points in Jacobian form: (jac(x), y, z) until made affine
	jac := func(x, y *Term) *Term {
		return Struct(appVal("jac", sortNat, x), appVal("jac", sortNat, y), appVal("jacz", sortNat, x))
	}
	coord := func(t *Term) *Term {
		return lift1(t, func(x *Term) *Term {
			if x.op == OApp && x.str == "jac" {
				return x.args[0]
			}
			return x
		})
	}
	affine := func(c *callCtx, p *Term) (x, y *Term, ok bool) {
		v := c.loadOf(p)
		if v.op != OStruct || len(v.args) != 3 {
			return nil, nil, false
		}
		z := v.args[2]
		one := z == C(1)
		jz := z.op == OApp && z.str == "jacz"
		if !one && !jz {
			return nil, nil, false
		}
		return coord(v.args[0]), coord(v.args[1]), true
	}
	jacFn := func(n int, f func(c *callCtx, a []*Term) (x, y *Term)) model {
		return func(c *callCtx) *Term {
			dst := c.args[len(c.args)-1]
			var a []*Term
			for i := len(c.args) - 1 - n; i < len(c.args)-1; i++ {
				x, y, ok := affine(c, c.args[i])
				if !ok {
					return c.in.unknownCall(c.st, "point arithmetic", c.args, c.pos, c.rt)
				}
				a = append(a, x, y)
			}
			x, y := f(c, a)
			c.need(Not(IsNilPtr(dst)), "nil pointer passed to a library method")
			c.in.Store(c.st, dst, jac(x, y), c.pos)
			return tNil
		}
	}
	reg(jacFn(0, func(c *callCtx, a []*Term) (x, y *Term) {
		k := reduceN(c.load(0))
		return SMX(k), SMY(k)
	}), S+"ScalarBaseMultNonConst")
	reg(jacFn(2, func(c *callCtx, a []*Term) (x, y *Term) {
		return PADX(a[0], a[1], a[2], a[3]), PADY(a[0], a[1], a[2], a[3])
	}), S+"AddNonConst")
	reg(jacFn(1, func(c *callCtx, a []*Term) (x, y *Term) {
		return PADX(a[0], a[1], a[0], a[1]), PADY(a[0], a[1], a[0], a[1])
	}), S+"DoubleNonConst")
	reg(func(c *callCtx) *Term {
		x, y, ok := affine(c, c.args[0])
		if !ok {
			return c.in.unknownCall(c.st, "ToAffine", c.args, c.pos, c.rt)
		}
		c.store(0, Struct(x, y, C(1)))
		return tNil
	}, "(*"+S+"JacobianPoint).ToAffine")
	reg(func(c *callCtx) *Term { return Struct(c.load(0), c.load(1), c.load(2)) }, S+"MakeJacobianPoint")
	reg(func(c *callCtx) *Term {
		return c.fresh(rawApp("pubxy", sortObj, c.load(0), c.load(1)))
	}, S+"NewPublicKey")
	reg(func(c *callCtx) *Term {
		return c.fresh(rawApp("privkey", sortObj, reduceN(c.load(0))))
	}, S+"NewPrivateKey")
	serPriv := func(c *callCtx) *Term {
		return c.bytes(lift1(c.loadOf(c.args[0]), func(x *Term) *Term {
			if x.op == OApp && x.str == "privkey" {
				return lift1(ModInt(x.args[0], tN), func(y *Term) *Term { return Cells(y, 32) })
			}
			return opaque("private key", sortStr)
		}))
	}
	reg(serPriv, "("+S+"PrivateKey).Serialize", "(*"+S+"PrivateKey).Serialize")
	reg(func(c *callCtx) *Term {
		v := c.load(0)
		return lift1(v, func(k *Term) *Term {
			x, y, ok := pubCoords(k)
			if !ok {
				return c.in.unknownCall(c.st, "AsJacobian", c.args, c.pos, c.rt)
			}
			c.in.Store(c.st, c.args[1], Struct(x, y, C(1)), c.pos)
			return tNil
		})
	}, "(*"+S+"PublicKey).AsJacobian")
	reg(func(c *callCtx) *Term {
		r := lift2(c.loadOf(c.args[0]), c.loadOf(c.args[1]), func(a, b *Term) *Term {
			ax, ay, o1 := pubCoords(a)
			bx, by, o2 := pubCoords(b)
			if !o1 || !o2 {
				return opaque("IsEqual", sortBool)
			}
			return And(EqVal(ax, bx), EqVal(ay, by))
		})
		return r
	}, "(*"+S+"PublicKey).IsEqual")
}

// pubCoords: the point of a library public key.
func pubCoords(k *Term) (x, y *Term, ok bool) {
	if k.op != OApp {
		return nil, nil, false
	}
	switch k.str {
	case "pubkey":
		if n, isC := constLen(k.args[0]); isC && n == 33 {
			es := elems(k.args[0])
			x := BE(Seq(es[1:]...))
			return x, DecY(x, Sub(es[0], C(2))), true
		}
	case "pubscalar":
		return SMX(k.args[0]), SMY(k.args[0]), true
	case "pubxy":
		return k.args[0], k.args[1], true
	}
	return nil, nil, false
}

// liftCond is a >= b.
func liftCond(a, b *Term) *Term { return Ge(Sub(a, b), big0) }

// unhexParts decodes hex text: the bytes, whether it is hex, and the error.
func (c *callCtx) unhexParts(s *Term) (d, ok, err *Term) {
	r := lift1(s, func(s *Term) *Term {
		if d, ok, done := unhex(s); done {
			return Tuple(d, ok)
		}
		ok := bAtomN("ishex", s)
		// what is decoded before the first wrong character is left open
		return Tuple(Ite(ok, appVal("unhex", &Sort{kind: 's', elem: byteSort}, s), appVal("unhexpart", sortStr, s)), ok)
	})
	d, ok = c.in.extract(r, 0), c.in.extract(r, 1)
	odd := lift1(s, func(s *Term) *Term { return bAtomN("hexodd", s) })
	return d, ok, Ite(ok, tNil, Ite(odd, libErr("encoding/hex.ErrLength"), errT("encoding/hex")))
}

// indexText is the position of the first (last) occurrence, or -1.
func indexText(s, sep *Term, last bool) *Term {
	return lift2(s, sep, func(x, p *Term) *Term {
		l, ok := litOf(p)
		if xl, isLit := litOf(x); isLit && ok {
			if last {
				return C(int64(strings.LastIndex(xl, l)))
			}
			return C(int64(strings.Index(xl, l)))
		}
		if ok && len(l) == 1 && x.op == OSeq {
			if hasByte(x, l[0]) == 0 {
				return C(-1)
			}
			// pieces free of the byte around a literal holding it
			gs := x.args
			if last {
				for i := len(gs) - 1; i >= 0; i-- {
					if gs[i].op == OLit {
						if k := strings.LastIndex(gs[i].str, l); k >= 0 {
							return Add(Len(Seq(gs[:i]...)), C(int64(k)))
						}
					} else if hasByte(Seq(gs[i]), l[0]) != 0 {
						break
					}
				}
			} else {
				for i := range gs {
					if gs[i].op == OLit {
						if k := strings.Index(gs[i].str, l); k >= 0 {
							return Add(Len(Seq(gs[:i]...)), C(int64(k)))
						}
					} else if hasByte(Seq(gs[i]), l[0]) != 0 {
						break
					}
				}
			}
		}
		has := containsOf(x, p)
		if has == nil {
			has = bAtomN("contains", x, p)
		}
		name := "index"
		if last {
			name = "lastindex"
		}
		return Ite(has, App(name, sortLen, x, p), C(-1))
	})
}

// sortBy sorts a slice of known contents with a comparison, or by the order
// of its constants.
func sortBy(c *callCtx, natural bool) *Term {
	in := c.in
	s := c.args[0]
	view := in.View(c.st, s)
	if _, ok := constLen(view); !ok || s.op != OSl || !natural && c.args[1].op != OClosure {
		in.event("unmodelled", "sort of unknown contents", c.pos, c.st)
		in.writeSlice(c.st, s, opaque("sorted", sortStr), c.pos)
		return tNil
	}
	es := append([]*Term(nil), elems(view)...)
	undecided := false
	var less func(x, y *Term) bool
	if natural {
		less = func(x, y *Term) bool {
			if x.isConst() && y.isConst() {
				return x.num.Cmp(y.num) < 0
			}
			a, o1 := litOf(x)
			b, o2 := litOf(y)
			undecided = undecided || !o1 || !o2
			return a < b
		}
	} else {
		fn := c.args[1].aux.(*ssa.Function)
		less = func(x, y *Term) bool {
			st := c.st.fork()
			v, out := in.Call(fn, []*Term{x, y}, c.args[1].args, st)
			if out == nil || !v.isConst() {
				undecided = true
				return false
			}
			return v.num.Sign() < 0
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return less(es[i], es[j]) })
	curPC = c.st.pc
	if undecided {
		in.event("unmodelled", "sort comparison not constant", c.pos, c.st)
	}
	in.writeSlice(c.st, s, Seq(es...), c.pos)
	return tNil
}

// sortIface is sort.Sort of a slice type whose Swap exchanges elements.
func sortIface(c *callCtx) *Term {
	in := c.in
	v := c.args[0]
	t, _ := v.aux.(types.Type)
	if v.op != OIface || t == nil || len(v.args) != 1 || v.args[0].op != OSl {
		return in.unknownCall(c.st, "sort.Sort", c.args, c.pos, c.rt)
	}
	method := func(name string) *ssa.Function {
		sel := in.prog.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
		if sel == nil {
			return nil
		}
		return in.prog.ssa.MethodValue(sel)
	}
	lessFn, swapFn := method("Less"), method("Swap")
	s := v.args[0]
	view := in.View(c.st, s)
	n, ok := constLen(view)
	if lessFn == nil || swapFn == nil || lessFn.Blocks == nil || swapFn.Blocks == nil || !ok {
		return in.unknownCall(c.st, "sort.Sort", c.args, c.pos, c.rt)
	}
	if n < 2 {
		return tNil
	}
	es := append([]*Term(nil), elems(view)...)
	two := mkSl(s.args[0], s.args[1], C(2), s.args[3])
	undecided := false
	// Swap must exchange the two elements
	st := c.st.fork()
	in.writeSlice(st, two, Seq(es[0], es[1]), c.pos)
	_, out := in.Call(swapFn, []*Term{s, C(0), C(1)}, nil, st)
	if out == nil || in.View(out, two) != Seq(es[1], es[0]) {
		undecided = true
	}
	less := func(x, y *Term) bool {
		st := c.st.fork()
		in.writeSlice(st, two, Seq(x, y), c.pos)
		v, out := in.Call(lessFn, []*Term{s, C(0), C(1)}, nil, st)
		if out == nil || v.op != OTrue && v.op != OFalse {
			undecided = true
			return false
		}
		return v.op == OTrue
	}
	sort.SliceStable(es, func(i, j int) bool { return less(es[i], es[j]) })
	curPC = c.st.pc
	if undecided {
		in.event("unmodelled", "sort comparison not constant", c.pos, c.st)
	}
	in.writeSlice(c.st, s, Seq(es...), c.pos)
	return tNil
}
