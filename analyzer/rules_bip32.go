package main

import (
	"fmt"
	"math/big"
	"sort"
)

// ---- symbolic extended keys

type symKey struct {
	cells      *Term
	ver, depth *Term
	fp, cn, cc *Term
	k, x, bit  *Term // private scalar; public X and parity bit
	private    bool
	assume     *Term
	pub        *Term // 33 compressed bytes of its public key
	name       string
}

var (
	scalarSort = &Sort{kind: 'i', lo: big1, hi: new(big.Int).Sub(secpN, big1), bits: true}
	coordSort  = &Sort{kind: 'i', lo: big0, hi: new(big.Int).Sub(secpP, big1), bits: true}
)

// pubBytes is the compressed encoding of k*G.
func pubBytes(k *Term) *Term {
	return Concat(Seq(Add(C(2), Slice(SMY(k), 0, 1))), Cells(SMX(k), 32))
}

func xkey(private bool, ver *Term) *symKey {
	s := &symKey{private: private, assume: tTrue}
	s.ver = ver
	if ver == nil {
		s.ver = rawApp("ver", sortBits(32))
	}
	s.depth = rawApp("depth", sortBits(8))
	s.fp = rawApp("parentfp", sortBits(32))
	s.cn = rawApp("childnum", sortBits(32))
	s.cc = rawApp("chaincode", sortBits(256))
	var data *Term
	if private {
		s.k = rawApp("k", scalarSort)
		data = Concat(Seq(C(0)), Cells(s.k, 32))
		s.pub = pubBytes(s.k)
		s.name = "private key"
	} else {
		s.x = rawApp("X", coordSort)
		s.bit = rawApp("ybit", sortBits(1))
		data = Concat(Seq(Add(C(2), s.bit)), Cells(s.x, 32))
		s.assume = onCurve(s.x)
		s.pub = data
		s.name = "public key"
	}
	s.cells = Concat(Cells(s.ver, 4), Seq(s.depth), Cells(s.fp, 4), Cells(s.cn, 4), Cells(s.cc, 32), data)
	return s
}

// put places a key in memory and returns a pointer to it.
func (in *Interp) put(st *State, name string, v *Term) *Term {
	o := in.newObj("param", name, nil)
	st.mem[o] = v
	return ptrTo(o)
}

// versions lists the registered version numbers of a kind, in order.
func versions(private bool) []uint64 {
	m := map[uint64]bool{}
	for _, e := range slip132() {
		if private {
			m[e.prv] = true
		} else {
			m[e.pub] = true
		}
	}
	var out []uint64
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// notVersions: ver is none of the registered numbers of a kind.
func notVersions(ver *Term, private bool) *Term {
	r := tTrue
	ks := []*Term{ver}
	for _, v := range versions(private) {
		r = And(r, Not(Eq(ver, CB(new(big.Int).SetUint64(v)))))
		ks = append(ks, CB(new(big.Int).SetUint64(v)))
	}
	return And(r, Not(bAtomN("inset", ks...)))
}

type verCase struct {
	ver    *Term
	assume *Term
	reg    bool
	name   string
}

// verCases splits the version field: each registered number, and all others.
func verCases(private bool) []verCase {
	var out []verCase
	for _, v := range versions(private) {
		out = append(out, verCase{CB(new(big.Int).SetUint64(v)), tTrue, true, fmt.Sprintf("version 0x%08x", v)})
	}
	// numbers registered for the other kind only, and unregistered ones
	mine := map[uint64]bool{}
	for _, v := range versions(private) {
		mine[v] = true
	}
	for _, v := range versions(!private) {
		if !mine[v] {
			out = append(out, verCase{CB(new(big.Int).SetUint64(v)), tTrue, false, fmt.Sprintf("version 0x%08x of the other kind", v)})
		}
	}
	ver := rawApp("ver", sortBits(32))
	out = append(out, verCase{ver, And(notVersions(ver, true), notVersions(ver, false)), false, "unregistered version"})
	return out
}

// ---- derivation: C01-C04

type derivation struct {
	key     *symKey
	vc      verCase
	r       *Result
	i       *Term
	I       *Term // HMAC output as an integer of 512 bits
	IL, IR  *Term
	errNil  *Term // the implementation reports success
	child   *Term
	defined *Term // BIP32 says the child exists
	what    string
}

// ckd is the expected I.
func ckdHmac(s *symKey, i *Term) *Term {
	hard := Ge(i, pow2(31))
	normal := Concat(s.pub, Cells(i, 4))
	data := normal
	if s.private {
		data = Ite(hard, Concat(Seq(C(0)), Cells(s.k, 32), Cells(i, 4)), normal)
	}
	return HmacOf("sha512", Cells(s.cc, 32), data)
}

func (c *Check) derivations(private bool, eachReg bool) []*derivation {
	f := c.fn("(*bip32.Key).NewChildKey")
	var out []*derivation
	for _, vc := range verCases(private) {
		if !vc.reg && !eachReg {
			continue
		}
		in := c.interp()
		in.ensureInit(f.Pkg)
		s := xkey(private, vc.ver)
		st := newState(And(s.assume, vc.assume))
		p := in.put(st, "key", s.cells)
		i := rawApp("i", sortBits(32))
		d := &derivation{key: s, vc: vc, i: i}
		d.r = c.run(in, f, st, p, i)
		d.what = s.name + ", " + vc.name
		h := ckdHmac(s, i)
		d.I = BE(h)
		d.IL, d.IR = lift1(d.I, func(x *Term) *Term { return Slice(x, 256, 256) }), lift1(d.I, func(x *Term) *Term { return Slice(x, 0, 256) })
		d.errNil = IsNil(d.r.part(1))
		d.child = in.flat(d.r.st, d.r.part(0))
		ilOK := And(Not(Eq(d.IL, C(0))), Not(Ge(d.IL, secpN)))
		var sumOK *Term
		if private {
			sumOK = Not(Eq(d.childScalar(), C(0)))
		} else {
			sumOK = Not(infAtom(d.childX()))
		}
		d.defined = And(boolT(vc.reg), Not(Ge(s.depth, big.NewInt(255))), ilOK)
		if !private {
			d.defined = And(d.defined, Not(Ge(i, pow2(31))))
		}
		d.defined = And(d.defined, sumOK)
		c.returns(d.r, d.what)
		out = append(out, d)
	}
	return out
}

func (d *derivation) childScalar() *Term { return ModInt(Add(d.IL, d.key.k), tN) }

func (d *derivation) childX() *Term {
	return lift1(d.IL, func(il *Term) *Term {
		return PADX(SMX(il), SMY(il), d.key.x, DecY(d.key.x, d.key.bit))
	})
}

func (d *derivation) childPub() *Term {
	return lift1(d.IL, func(il *Term) *Term {
		y := DecY(d.key.x, d.key.bit)
		px := PADX(SMX(il), SMY(il), d.key.x, y)
		py := PADY(SMX(il), SMY(il), d.key.x, y)
		return Concat(Seq(Add(C(2), Slice(py, 0, 1))), Cells(px, 32))
	})
}

func (d *derivation) success() *Term { return And(d.r.assume, d.r.st.pc, d.errNil) }

func init() {
	seg := func(k *Term, lo, hi int) *Term {
		return lift1(k, func(x *Term) *Term { return SubSeq(x, C(int64(lo)), C(int64(hi))) })
	}
	rules["C01"] = &rule{level: "proof", tech: "gated value-flow analysis of NewChildKey with a symbolic private parent: the canonical term of the child's key data and chain code is compared with the CKDpriv term", run: func(c *Check) {
		for _, d := range c.derivations(true, true) {
			at := c.at(d.r.fn) + " " + d.what
			ok := d.success()
			c.same(ok, seg(d.child, 45, 78), Concat(Seq(C(0)), lift1(d.childScalar(), func(x *Term) *Term { return Cells(x, 32) })), "child secret = parse256(IL)+k mod n", at)
			c.same(ok, seg(d.child, 13, 45), lift1(d.IR, func(x *Term) *Term { return Cells(x, 32) }), "child chain code = IR", at)
		}
	}}
	rules["C02"] = &rule{level: "proof", tech: "gated value-flow analysis of NewChildKey with a symbolic public parent: the canonical term of the child's key data and chain code is compared with the CKDpub term", run: func(c *Check) {
		for _, d := range c.derivations(false, true) {
			at := c.at(d.r.fn) + " " + d.what
			ok := d.success()
			c.same(ok, seg(d.child, 45, 78), d.childPub(), "child point = point(IL)+K", at)
			c.same(ok, seg(d.child, 13, 45), lift1(d.IR, func(x *Term) *Term { return Cells(x, 32) }), "child chain code = IR", at)
		}
	}}
	rules["C03"] = &rule{level: "proof", tech: "gated value-flow analysis of NewChildKey: the metadata bytes of the child are compared with the BIP32 terms", run: func(c *Check) {
		for _, priv := range []bool{true, false} {
			for _, d := range c.derivations(priv, true) {
				at := c.at(d.r.fn) + " " + d.what
				ok := d.success()
				c.same(ok, seg(d.child, 0, 4), Cells(d.key.ver, 4), "child version = parent version", at)
				c.same(ok, seg(d.child, 4, 5), Seq(Add(d.key.depth, C(1))), "child depth = parent depth + 1", at)
				h := HashOf("ripemd160", HashOf("sha256", d.key.pub))
				c.same(ok, seg(d.child, 5, 9), SubSeq(h, C(0), C(4)), "parent fingerprint = HASH160(parent public key)[0:4]", at)
				c.same(ok, seg(d.child, 9, 13), Cells(d.i, 4), "child number = index, big endian", at)
			}
		}
	}}
	rules["C04"] = &rule{level: "proof", tech: "gated value-flow analysis of NewChildKey: the condition under which it returns a nil error is compared, as a decision graph, with the condition under which BIP32 defines the child", run: func(c *Check) {
		for _, priv := range []bool{true, false} {
			for _, d := range c.derivations(priv, true) {
				at := c.at(d.r.fn) + " " + d.what
				c.iff(d.r.assume, And(d.r.st.pc, d.errNil), d.defined, "succeeds exactly when the child exists", at)
			}
		}
	}}
}
