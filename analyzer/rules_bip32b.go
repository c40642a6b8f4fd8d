package main

import (
	"fmt"
	"math/big"
)

// sliceArg makes a slice argument holding a sequence; spare capacity is unknown.
func (in *Interp) sliceArg(st *State, name string, content *Term) *Term {
	o := in.newObj("param", name, nil)
	st.mem[o] = content
	n := Len(content)
	return mkSl(ptrTo(o), C(0), n, App("cap", sortLen, C(int64(o))))
}

// symBytes is an arbitrary byte string.
func symBytes(name string) *Term { return wholeSeq(rawApp(name, sortStr)) }

func cell(s *Term, lo, hi int) *Term {
	return lift1(s, func(x *Term) *Term { return SubSeq(x, C(int64(lo)), C(int64(hi))) })
}

func cells32(k *Term) *Term { return lift1(k, func(x *Term) *Term { return Cells(x, 32) }) }

func u32(v uint64) *Term { return CB(new(big.Int).SetUint64(v)) }

func first4(h *Term) *Term { return cell(h, 0, 4) }

// dblSha is SHA256(SHA256(x)).
func dblSha(x *Term) *Term { return HashOf("sha256", HashOf("sha256", x)) }

const (
	mainPrv = 0x0488ade4
	mainPub = 0x0488b21e
)

func init() {
	rules["C05"] = &rule{level: "proof", tech: "gated value-flow analysis of NewMasterKey for a symbolic seed: the 78 result bytes and the error condition are compared with the BIP32 terms", run: func(c *Check) {
		f := c.fn("bip32.NewMasterKey")
		in := c.interp()
		st := newState(tTrue)
		seed := symBytes("seed")
		r := c.run(in, f, st, in.sliceArg(st, "seed", seed))
		at := c.at(f)
		c.returns(r, "any seed")
		I := BE(HmacOf("sha512", Str("Bitcoin seed"), seed))
		il, ir := Slice(I, 256, 256), Slice(I, 0, 256)
		ok := And(Not(Eq(il, C(0))), Not(Ge(il, secpN)))
		nilErr := IsNil(r.part(1))
		c.iff(r.assume, nilErr, ok, "fails exactly when the first half is no valid scalar", at)
		c.iff(r.assume, IsNilPtr(r.part(0)), Not(ok), "no key with an error", at)
		want := Concat(Cells(u32(mainPrv), 4), Cells(C(0), 1), Cells(C(0), 4), Cells(C(0), 4), Cells(ir, 32), Seq(C(0)), Cells(il, 32))
		c.same(ok, in.flat(r.st, live(newState(ok), r.part(0))), want, "master key bytes", at)
	}}

	rules["C06"] = &rule{noMaps: true, level: "proof", tech: "gated value-flow analysis of PublicKeyExtended per registered version number and for all unregistered ones, under both iteration orders of the registry maps; the result bytes are compared with the BIP32 neuter term", run: func(c *Check) {
		f := c.fn("(*bip32.Key).PublicKeyExtended")
		for _, rev := range []bool{false, true} {
			in := NewInterp(c.p)
			in.reverse = rev
			c.in = in
			for _, priv := range []bool{true, false} {
				for _, vc := range verCases(priv) {
					in.ensureInit(f.Pkg)
					s := xkey(priv, vc.ver)
					st := newState(And(s.assume, vc.assume))
					r := c.run(in, f, st, in.put(st, "key", s.cells))
					what := fmt.Sprintf("%s, %s, map order %v", s.name, vc.name, rev)
					c.returns(r, what)
					want := s.ver
					if priv || !vc.reg {
						want = u32(mainPub)
						for _, e := range slip132() {
							if priv && s.ver.isConst() && s.ver.num.Uint64() == e.prv {
								want = u32(e.pub)
							}
						}
					}
					got := in.flat(r.st, r.val)
					at := c.at(f) + " " + what
					c.same(r.assume, cell(got, 0, 4), Cells(want, 4), "public version bytes", at)
					c.same(r.assume, cell(got, 4, 45), cell(s.cells, 4, 45), "depth, fingerprint, child number, chain code kept", at)
					c.same(r.assume, cell(got, 45, 78), s.pub, "compressed public key in place of the secret", at)
				}
			}
		}
	}}

	rules["C07"] = &rule{level: "proof", tech: "gated value-flow analysis of Serialize, B58Serialize, String, Deserialize, B58Deserialize and IsValid for arbitrary key bytes and inputs of length 82 and of any other length", run: checkC07}

	rules["C08"] = &rule{level: "proof", tech: "gated value-flow analysis of every field reader and writer over 78 independent symbolic bytes", run: checkC08}

	rules["C09"] = &rule{level: "proof", tech: "gated value-flow analysis of PrivateKeyHex and PublicKeyHex for symbolic private and public keys", run: func(c *Check) {
		in := c.interp()
		for _, priv := range []bool{true, false} {
			s := xkey(priv, nil)
			for _, name := range []string{"(*bip32.Key).PrivateKeyHex", "(*bip32.Key).PublicKeyHex"} {
				f := c.fn(name)
				in.ensureInit(f.Pkg)
				st := newState(s.assume)
				r := c.run(in, f, st, in.put(st, "key", s.cells))
				c.returns(r, s.name)
				want := HexStr(s.pub)
				if name == "(*bip32.Key).PrivateKeyHex" {
					want = tEmpty
					if priv {
						want = HexStr(Cells(s.k, 32))
					}
				}
				c.same(r.assume, in.flat(r.st, r.val), want, "hex view", c.at(f)+" "+s.name)
			}
		}
		// the public version has the same public hex
		s := xkey(true, nil)
		f, g := c.fn("(*bip32.Key).PublicKeyExtended"), c.fn("(*bip32.Key).PublicKeyHex")
		st := newState(s.assume)
		r := c.run(in, f, st, in.put(st, "key", s.cells))
		st2 := newState(r.st.pc)
		r2 := c.run(in, g, st2, in.put(st2, "public version", in.flat(r.st, r.val)))
		c.same(r2.assume, in.flat(r2.st, r2.val), HexStr(s.pub), "public hex of the public version", c.at(g))
	}}

	rules["C10"] = &rule{level: "proof", tech: "gated value-flow analysis of ExpandPublicKey over symbolic compressed points and of the public key computation over symbolic scalars", run: func(c *Check) {
		in := c.interp()
		f := c.fn("bip32.ExpandPublicKey")
		in.ensureInit(f.Pkg)
		x, bit := rawApp("X", coordSort), rawApp("ybit", sortBits(1))
		st := newState(onCurve(x))
		r := c.run(in, f, st, in.sliceArg(st, "key", Concat(Seq(Add(C(2), bit)), Cells(x, 32))))
		c.returns(r, "compressed point")
		c.same(r.assume, in.flat(r.st, r.part(0)), x, "X = the 32 bytes", c.at(f))
		c.same(r.assume, in.flat(r.st, r.part(1)), DecY(x, bit), "Y = the root of X^3+7 with the prefix's parity", c.at(f))
		// points produced by scalar multiplication expand to themselves
		k := rawApp("k", scalarSort)
		st = newState(tTrue)
		r = c.run(in, f, st, in.sliceArg(st, "key", pubBytes(k)))
		c.same(r.assume, in.flat(r.st, r.part(0)), SMX(k), "expanding an encoded point gives its X", c.at(f))
		c.same(r.assume, in.flat(r.st, r.part(1)), SMY(k), "expanding an encoded point gives its Y", c.at(f))
		g := c.fn("(*bip32.Key).PublicKeyExtended")
		s := xkey(true, nil)
		st = newState(s.assume)
		r = c.run(in, g, st, in.put(st, "key", s.cells))
		c.same(r.assume, cell(in.flat(r.st, r.val), 45, 78), s.pub, "public key of a secret is 0x02+parity, 32-byte X", c.at(g))
	}}
}

// material: 33 key bytes are a valid secret or point.
func material(b, x *Term) *Term {
	prv := And(Not(Eq(x, C(0))), Not(Ge(x, secpN)))
	pub := And(Or(Eq(b, C(2)), Eq(b, C(3))), Not(Ge(x, secpP)), onCurve(x))
	return Ite(Eq(b, C(0)), prv, pub)
}

func checkC07(c *Check) {
	in := c.interp()
	ser := c.fn("(*bip32.Key).Serialize")
	in.ensureInit(ser.Pkg)
	head := rawApp("head", sortBits(8*45))
	b := rawApp("kind", byteSort)
	x := rawApp("keydata", sortBits(256))
	cells := Concat(Cells(head, 45), Seq(b), Cells(x, 32))
	zero := And(Eq(head, C(0)), Eq(b, C(0)), Eq(x, C(0)))
	sum := first4(dblSha(cells))
	// writing
	st := newState(tTrue)
	r := c.run(in, ser, st, in.put(st, "key", cells))
	c.returns(r, "any key")
	c.iff(tTrue, IsNil(r.part(1)), Not(zero), "only the all-zero key is refused", c.at(ser))
	c.same(Not(zero), r.bytesOf(r.part(0)), Concat(cells, sum), "78 bytes and checksum", c.at(ser))
	c.same(zero, r.bytesOf(r.part(0)), tEmpty, "nothing for the all-zero key", c.at(ser))
	for _, n := range []string{"(*bip32.Key).B58Serialize", "(*bip32.Key).String"} {
		f := c.fn(n)
		st := newState(tTrue)
		r := c.run(in, f, st, in.put(st, "key", cells))
		c.returns(r, "any key")
		c.same(Not(zero), in.flat(r.st, r.val), base58Of(Concat(cells, sum)), "Base58 of the 82 bytes", c.at(f))
		c.same(zero, in.flat(r.st, r.val), tEmpty, "empty text for the all-zero key", c.at(f))
	}
	// reading
	de := c.fn("bip32.Deserialize")
	cs := rawApp("checksum", sortBits(32))
	data := Concat(cells, Cells(cs, 4))
	good := And(EqSeq(Cells(cs, 4), sum), material(b, x))
	st = newState(tTrue)
	r = c.run(in, de, st, in.sliceArg(st, "data", data))
	c.returns(r, "82 bytes")
	c.iff(tTrue, IsNil(r.part(1)), good, "accepted exactly when checksum and key material are right", c.at(de)+" 82 bytes")
	c.same(good, in.flat(r.st, r.part(0)), cells, "the first 78 bytes", c.at(de)+" 82 bytes")
	any := symBytes("data")
	st = newState(Not(Eq(Len(any), C(82))))
	r = c.run(in, de, st, in.sliceArg(st, "data", any))
	c.returns(r, "other lengths")
	c.iff(r.assume, IsNil(r.part(1)), tFalse, "every other length is an error", c.at(de)+" other lengths")
	// text form: the same decision on the decoded bytes
	bd := c.fn("bip32.B58Deserialize")
	txt := symBytes("text")
	dec := base58Decoded(txt)
	st = newState(Not(Eq(Len(dec), C(82))))
	r = c.run(in, bd, st, txt)
	c.returns(r, "text of another length")
	c.iff(r.assume, IsNil(r.part(1)), tFalse, "text decoding to another length is an error", c.at(bd))
	st = newState(tTrue)
	r = c.run(in, bd, st, base58Of(data))
	c.returns(r, "text of 82 bytes")
	c.iff(tTrue, IsNil(r.part(1)), good, "text is accepted exactly when its bytes are", c.at(bd))
	c.same(good, in.flat(r.st, r.part(0)), cells, "the first 78 bytes of the text", c.at(bd))
	// validity
	iv := c.fn("(*bip32.Key).IsValid")
	st = newState(tTrue)
	r = c.run(in, iv, st, in.put(st, "key", cells))
	c.returns(r, "any key")
	c.iff(tTrue, r.val, And(Not(zero), material(b, x)), "valid exactly when the serialization is accepted", c.at(iv))
}

func checkC08(c *Check) {
	in := c.interp()
	all := rawApp("key", sortBits(8*78))
	cells := Cells(all, 78)
	rd := func(name string, want *Term) {
		f := c.fn("(*bip32.Key)." + name)
		in.ensureInit(f.Pkg)
		st := newState(tTrue)
		p := in.put(st, "key", cells)
		r := c.run(in, f, st, p)
		c.returns(r, "any key")
		c.same(tTrue, in.flat(r.st, r.val), want, "reader returns its field", c.at(f))
		c.same(tTrue, in.flat(r.st, p), cells, "reader changes nothing", c.at(f))
	}
	field := func(lo, hi int) *Term { return SubSeq(cells, C(int64(lo)), C(int64(hi))) }
	rd("GetVersion", BE(field(0, 4)))
	rd("GetDepth", field(4, 5))
	rd("GetFingerPrint", field(5, 9))
	rd("GetChildNumber", field(9, 13))
	rd("GetChainCode", field(13, 45))
	rd("GetKeyBytes", field(45, 78))
	rd("GetPvtKeyBytes", field(46, 78))
	rd("IsPrivate", Eq(At(cells, C(45)), C(0)))
	wr := func(name string, arg func(st *State) *Term, lo int, v *Term) {
		f := c.fn("(*bip32.Key)." + name)
		st := newState(tTrue)
		p := in.put(st, "key", cells)
		r := c.run(in, f, st, p, arg(st))
		c.returns(r, "any key")
		n, _ := constLen(v)
		want := Concat(field(0, lo), v, field(lo+n, 78))
		c.same(tTrue, in.flat(r.st, p), want, "writer changes exactly its field", c.at(f))
	}
	v4 := rawApp("v", sortBits(32))
	wr("SetVersion", func(*State) *Term { return Cells(v4, 4) }, 0, Cells(v4, 4))
	wr("SetVersionUint32", func(*State) *Term { return v4 }, 0, Cells(v4, 4))
}

func base58Of(x *Term) *Term {
	return lift1(x, func(y *Term) *Term { return appVal("base58", sortStr, y) })
}

func base58Decoded(x *Term) *Term {
	return lift1(x, func(y *Term) *Term { return appVal("unbase58", sortStr, y) })
}
