package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C40: watch-only derivation; C41: error values; C42: exported helpers;
// C43, C44: text round trips.

func init() {
	rules["C40"] = &rule{level: "proof", tech: "gated value-flow analysis of the compositions neuter after derive and derive after neuter on one symbolic private key per registered version: all 78 result bytes and both success conditions are compared", run: func(c *Check) {
		child, neuter := c.fn("(*bip32.Key).NewChildKey"), c.fn("(*bip32.Key).PublicKeyExtended")
		i := rawApp("i", sortBits(32))
		for _, vc := range verCases(true) {
			if !vc.reg {
				continue
			}
			in := c.interp()
			in.ensureInit(child.Pkg)
			s := xkey(true, vc.ver)
			pre := And(vc.assume, Not(Ge(i, pow2(31))))
			at := c.at(child) + " " + vc.name
			// derive, then neuter
			st := newState(pre)
			r := c.run(in, child, st, in.put(st, "key", s.cells), i)
			c.returns(r, vc.name)
			okA := And(r.assume, r.st.pc, IsNil(r.part(1)))
			st = newState(okA)
			n := c.run(in, neuter, st, in.put(st, "child", live(newState(okA), in.flat(r.st, r.part(0)))))
			c.returns(n, vc.name)
			a := in.flat(n.st, n.val)
			// neuter, then derive
			st = newState(pre)
			n = c.run(in, neuter, st, in.put(st, "key", s.cells))
			st = newState(pre)
			q := c.run(in, child, st, in.put(st, "public version", in.flat(n.st, n.val)), i)
			c.returns(q, vc.name)
			okB := And(q.assume, q.st.pc, IsNil(q.part(1)))
			b := in.flat(q.st, q.part(0))
			c.iff(pre, okA, okB, "the private and the public derivation succeed together", at)
			c.same(And(okA, okB), a, b, "the public version of the child is the child of the public version", at)
		}
	}}

	rules["C41"] = &rule{level: "proof", tech: "gated value-flow analysis of the error results: on the condition that describes each documented failure the returned error must be the identity of its exported variable", run: checkC41}

	rules["C43"] = &rule{level: "proof", tech: "gated value-flow analysis of the compositions of writer and reader over symbolic keys, entropy and sentences: the result must be the term the writer was given, with a nil error", run: checkC43}

	rules["C42"] = &rule{level: "proof", tech: "gated value-flow analysis of the exported helpers for arbitrary arguments: results are compared with the hash terms and range conditions", run: checkC42}
}

func checkC41(c *Check) {
	in := c.interp()
	errs := map[string]*Term{}
	sentinel := func(in *Interp, n string) *Term {
		v := c.global(in, n)
		errs[n] = v
		c.ok(isErrConst(v), "the error variable holds an error", n, "holds "+short(v.String(), 60))
		return v
	}
	is := func(care, got *Term, name, what, at string) {
		c.iff(care, errIs(got, sentinel(c.in, name)), tTrue, "fails with "+name, at+" "+what)
	}
	// master keys
	f := c.fn("bip32.NewMasterKey")
	in.ensureInit(f.Pkg)
	seed := symBytes("seed")
	st := newState(tTrue)
	r := c.run(in, f, st, in.sliceArg(st, "seed", seed))
	il := Slice(BE(HmacOf("sha512", Str("Bitcoin seed"), seed)), 256, 256)
	is(And(r.assume, Or(Eq(il, C(0)), Ge(il, secpN))), r.part(1), "bip32.ErrInvalidPrivateKey", "first half is no scalar", c.at(f))
	// children
	f = c.fn("(*bip32.Key).NewChildKey")
	for _, priv := range []bool{true, false} {
		for _, d := range c.derivations(priv, true) {
			at := c.at(f) + " " + d.what
			deep, hard := Ge(d.key.depth, big.NewInt(255)), Ge(d.i, pow2(31))
			ilBad := Or(Eq(d.IL, C(0)), Ge(d.IL, secpN))
			plain := And(d.r.assume, Not(deep))
			if !priv {
				plain = And(plain, Not(hard))
			}
			if !d.vc.reg {
				var sumBad *Term
				if priv {
					sumBad = Eq(d.childScalar(), C(0))
				} else {
					sumBad = infAtom(d.childX())
				}
				is(And(plain, Not(ilBad), Not(sumBad)), d.r.part(1), "bip32.ErrUnSupportedHDVersionBytes", "version not registered", at)
				continue
			}
			if !priv {
				is(And(d.r.assume, Not(deep), hard), d.r.part(1), "bip32.ErrHardenedChildPublicKey", "hardened child of a public key", at)
			}
			deepOnly := And(d.r.assume, deep, Not(ilBad))
			if !priv {
				deepOnly = And(deepOnly, Not(hard))
			}
			is(deepOnly, d.r.part(1), "bip32.ErrDepthExceeded", "depth 255", at)
			is(And(plain, ilBad), d.r.part(1), "bip32.ErrInvalidPrivateKey", "first half is no scalar", at)
			if priv {
				is(And(plain, Not(ilBad), Eq(d.childScalar(), C(0))), d.r.part(1), "bip32.ErrInvalidPrivateKey", "sum is zero", at)
			} else {
				is(And(plain, Not(ilBad), infAtom(d.childX())), d.r.part(1), "bip32.ErrInvalidPublicKey", "sum is the point at infinity", at)
			}
		}
	}
	// serialized keys
	in = c.interp()
	f = c.fn("(*bip32.Key).Serialize")
	st = newState(tTrue)
	r = c.run(in, f, st, in.put(st, "key", Cells(C(0), 78)))
	is(r.assume, r.part(1), "bip32.ErrEmptyKey", "all-zero key", c.at(f))
	head, b, x, cs := rawApp("head", sortBits(8*45)), rawApp("kind", byteSort), rawApp("keydata", sortBits(256)), rawApp("checksum", sortBits(32))
	cells := Concat(Cells(head, 45), Seq(b), Cells(x, 32))
	data := Concat(cells, Cells(cs, 4))
	sumOK := EqSeq(Cells(cs, 4), first4(dblSha(cells)))
	any := symBytes("data")
	for _, name := range []string{"bip32.Deserialize", "bip32.B58Deserialize"} {
		f := c.fn(name)
		run := func(pc, data *Term) *Result {
			st := newState(pc)
			if name == "bip32.Deserialize" {
				return c.run(in, f, st, in.sliceArg(st, "data", data))
			}
			if data == any {
				return c.run(in, f, st, any)
			}
			return c.run(in, f, st, base58Of(data))
		}
		n := Len(any)
		if name != "bip32.Deserialize" {
			n = Len(base58Decoded(any))
		}
		r := run(Not(Eq(n, C(82))), any)
		is(r.assume, r.part(1), "bip32.ErrSerializedKeyWrongSize", "other lengths", c.at(f))
		r = run(tTrue, data)
		is(And(r.assume, Not(sumOK)), r.part(1), "bip32.ErrInvalidChecksum", "wrong checksum", c.at(f))
		bad := And(r.assume, sumOK, Not(material(b, x)))
		is(And(bad, Eq(b, C(0))), r.part(1), "bip32.ErrInvalidPrivateKey", "no scalar", c.at(f))
		is(And(bad, Not(Eq(b, C(0)))), r.part(1), "bip32.ErrInvalidPublicKey", "no point", c.at(f))
	}
	// paths
	p, depth, val := symBytes("path"), rawApp("b", sortBits(8)), rawApp("val", sortBits(32))
	spec := specOfPath(p)
	shape := inLang(pathPattern, stripWS(p))
	for _, q := range []struct {
		name string
		args []*Term
	}{{"ValuesAtDepth", []*Term{p}}, {"ValueAtDepth", []*Term{p, depth}}, {"ReplaceValueAtDepth", []*Term{p, depth, val}}} {
		f := c.fn("(bip32.Path)." + q.name)
		r := c.run(in, f, newState(tTrue), q.args...)
		is(And(r.assume, Not(shape)), r.part(1), "bip32.ErrUnSupportedOrInvalidPath", "not a path", c.at(f))
		if len(q.args) > 1 {
			out := Not(Ge(Sub(spec.n, depth), big0))
			if len(q.args) == 3 {
				out = Or(out, Eq(depth, C(0)))
			}
			is(And(r.assume, spec.ok, out), r.part(1), "bip32.ErrUnSupportedOrInvalidPath", "depth not present", c.at(f))
		}
	}
	// entries
	in.ensureInit(c.p.by[modPath+"/bip32"])
	idx := c.fields("bip32", "VersionBytes", verFields)
	st = newState(tTrue)
	h := in.symValue(c.p.by[modPath+"/bip32"].Type("VersionBytes").Type(), st, "h")
	form := inLang(`^m/\d{0,8}'/\d{0,8}'$`, stripWS(h.args[idx["Path"]]))
	for _, n := range []string{"PurposeVal", "PurposeValFull", "CoinVal", "CoinValFull"} {
		f := c.fn("(bip32.VersionBytes)." + n)
		r := c.run(in, f, st.fork(), h)
		is(And(r.assume, Not(form)), r.part(1), "bip32.ErrUnSupportedHDVersionBytes", "path of another form", c.at(f))
	}
	// root keys and lists of keys
	f = c.fn("util.RootKeyFromSeed")
	s := symBytes("seed")
	r = c.run(in, f, newState(tTrue), s)
	short := Not(Ge(Len(appVal("unhex", &Sort{kind: 's', elem: byteSort}, s)), C(16).num))
	is(And(r.assume, bAtomN("ishex", s), short), r.part(1), "util.ErrInvalidBIP39Seed", "fewer than 16 bytes", c.at(f))
	c.listErrors(is)
	// sentences
	w := c.wordState("list")
	in = w.in
	f = c.fn("bip39.NewEntropy")
	in.ensureInit(c.fn("util.GenerateMnemonic").Pkg)
	for n := -64; n <= 576; n++ {
		if n >= 128 && n <= 256 && n%32 == 0 {
			continue
		}
		c.randReset()
		r := c.run(in, f, newState(tTrue), C(int64(n)))
		is(r.assume, r.part(1), "bip39.ErrEntropyLengthInvalid", fmt.Sprintf("%d bits", n), c.at(f))
	}
	f = c.fn("bip39.NewMnemonic")
	for n := 0; n <= 64; n++ {
		if n >= 16 && n <= 32 && n%4 == 0 {
			continue
		}
		st := w.state(tTrue)
		r := c.run(in, f, st, in.sliceArg(st, "entropy", entropyArg(n)))
		is(r.assume, r.part(1), "bip39.ErrEntropyLengthInvalid", fmt.Sprintf("%d bytes", n), c.at(f))
	}
	e := symBytes("entropy")
	st = w.state(Ge(Len(e), big.NewInt(65)))
	r = c.run(in, f, st, in.sliceArg(st, "entropy", e))
	is(r.assume, r.part(1), "bip39.ErrEntropyLengthInvalid", "more than 64 bytes", c.at(f))
	w.counts(func(n int, st *State, text *Term, what string) {
		var d decoded
		if wordsOK(n) {
			d = w.decode(text, n)
		}
		for _, name := range []string{"bip39.EntropyFromMnemonic", "bip39.MnemonicToByteArray", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"} {
			f := c.fn(name)
			args := []*Term{text}
			switch len(f.Params) {
			case 2:
				args = append(args, symBytes("passphrase"))
				if f.Signature.Variadic() {
					args[1] = tNil
				}
			}
			r := c.run(in, f, w.state(st.pc), args...)
			if wordsOK(n) {
				is(And(r.assume, d.known, Not(d.valid)), r.part(1), "bip39.ErrChecksumIncorrect", what, c.at(f))
			} else {
				is(r.assume, r.part(1), "bip39.ErrInvalidMnemonic", what, c.at(f))
			}
		}
	})
	f = c.fn("util.GenerateMnemonic")
	for n := 0; n < 256; n++ {
		if wordsOK(n) {
			continue
		}
		c.randReset()
		r := c.run(in, f, w.state(tTrue), C(int64(n)))
		is(r.assume, r.part(1), "util.ErrInvalidMnemonicWordsCount", fmt.Sprintf("%d words", n), c.at(f))
	}
	// the values are told apart, and stay what they are
	var names []string
	seen := map[*Term]string{}
	for n := range errs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		o, dup := seen[errs[n]]
		c.ok(!dup, "error values are distinct", n, "is the same value as "+o)
		seen[errs[n]] = n
	}
	c.fixed(names...)
}

// listErrors: errors of batch and range derivation.
func (c *Check) listErrors(is func(care, got *Term, name, what, at string)) {
	isValid, isPriv := c.fn("(*bip32.Key).IsValid"), c.fn("(*bip32.Key).IsPrivate")
	in := c.interp()
	abstractChild(in)
	f, set := c.fn("(*util.Generator).DeriveBIP32Result"), c.fn("(*util.Generator).SetRootKey")
	in.ensureInit(f.Pkg)
	root, p := freeKey("root"), symBytes("path")
	spec := specOfPath(p)
	st := newState(tTrue)
	g := in.put(st, "generator", zeroValue(ptrElem(f.Params[0].Type())))
	rs := c.run(in, set, st, g, root)
	root2 := in.put(rs.st, "root", root)
	kv := c.run(in, isValid, rs.st.fork(), root2)
	kp := c.run(in, isPriv, rs.st.fork(), root2)
	rootOK := And(kv.val, kp.val, Eq(At(root, C(4)), C(0)))
	r := c.run(in, f, rs.st, g, p)
	is(And(r.assume, Not(rootOK), spec.ok), r.part(1), "util.ErrInvalidRootKey", "no valid private depth-0 root", c.at(f))
	is(And(r.assume, rootOK, Not(spec.ok)), r.part(1), "util.ErrUnSupportedOrInvalidPath", "invalid path", c.at(f))
	// ranges
	f = c.fn("(*util.KeyPathRange).GenerateRange")
	t := ptrElem(f.Params[0].Type())
	from, to := rawApp("start", sortBits(32)), rawApp("end", sortBits(32))
	key := freeKey("key")
	st = newState(tTrue)
	n := structField(t, "KeyPath")
	if n < 0 {
		c.stop("anchor", "util.KeyPathRange", "field KeyPath is missing")
	}
	ft := under(t).(*types.Struct).Field(n).Type()
	v := c.structOf(t, "util.KeyPathRange", map[string]*Term{"StartIndex": from, "EndIndex": to,
		"KeyPath": c.structOf(ft, "util.KeyPath", map[string]*Term{"Path": p, "Key": key})})
	rp := in.put(st, "range", v)
	key2 := in.put(st, "key", key)
	kv = c.run(in, isValid, st.fork(), key2)
	r = c.run(in, f, st, rp)
	empty := Ge(Sub(from, to), big0)
	is(And(r.assume, empty, kv.val, spec.ok), r.val, "util.ErrInvalidRangeProvided", "empty or reversed range", c.at(f))
	is(And(r.assume, Not(empty), Not(kv.val), spec.ok), r.val, "util.ErrInvalidRootKey", "invalid key", c.at(f))
	is(And(r.assume, Not(empty), kv.val, Not(spec.ok)), r.val, "util.ErrUnSupportedOrInvalidPath", "invalid path", c.at(f))
}

func checkC42(c *Check) {
	in := c.interp()
	data := symBytes("data")
	for _, q := range []struct {
		name string
		want *Term
	}{
		{"bip32.HashRipeMD160onSha256", HashOf("ripemd160", HashOf("sha256", data))},
		{"bip32.ChecksumDblSha256", first4(dblSha(data))},
		{"bip32.AddChecksumDblSha256ToBytes", Concat(data, first4(dblSha(data)))},
	} {
		f := c.fn(q.name)
		in.ensureInit(f.Pkg)
		st := newState(tTrue)
		r := c.run(in, f, st, in.sliceArg(st, "data", data))
		c.returns(r, "any bytes")
		c.iff(r.assume, IsNil(r.part(1)), tTrue, "never fails", c.at(f))
		c.same(r.assume, r.bytesOf(r.part(0)), q.want, "result bytes", c.at(f))
	}
	f := c.fn("bip32.ValidatePrivateKey")
	x := rawApp("secret", sortBits(256))
	r := c.run(in, f, newState(tTrue), Cells(x, 32))
	c.returns(r, "any 32 bytes")
	c.iff(r.assume, IsNil(r.val), And(Not(Eq(x, C(0))), Not(Ge(x, secpN))), "accepts exactly the scalars from 1 to n-1", c.at(f))
	// the root key of a generator
	set, get := c.fn("(*util.Generator).SetRootKey"), c.fn("(*util.Generator).RootKey")
	in.ensureInit(get.Pkg)
	a, b := freeKey("a"), freeKey("b")
	st := newState(tTrue)
	g := in.put(st, "generator", zeroValue(ptrElem(get.Params[0].Type())))
	r = c.run(in, get, st.fork(), g)
	c.same(r.assume, in.flat(r.st, r.val), Cells(C(0), 78), "no root key before one is set", c.at(get))
	r = c.run(in, set, st, g, a)
	r = c.run(in, set, r.st, g, b)
	r = c.run(in, get, r.st, g)
	c.returns(r, "any keys")
	c.same(r.assume, in.flat(r.st, r.val), b, "the root key set last", c.at(get))
	// version numbers
	c.accessors()
}

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func checkC43(c *Check) {
	in := c.interp()
	// keys
	ser, de := c.fn("(*bip32.Key).Serialize"), c.fn("bip32.Deserialize")
	str, b58, bd := c.fn("(*bip32.Key).String"), c.fn("(*bip32.Key).B58Serialize"), c.fn("bip32.B58Deserialize")
	in.ensureInit(ser.Pkg)
	head, b, x := rawApp("head", sortBits(8*45)), rawApp("kind", byteSort), rawApp("keydata", sortBits(256))
	cells := Concat(Cells(head, 45), Seq(b), Cells(x, 32))
	good := And(material(b, x), Not(And(Eq(head, C(0)), Eq(b, C(0)), Eq(x, C(0)))))
	st := newState(good)
	r := c.run(in, ser, st, in.put(st, "key", cells))
	c.returns(r, "valid key")
	c.iff(r.assume, IsNil(r.part(1)), tTrue, "a valid key can be written", c.at(ser))
	q := c.run(in, de, r.st.fork(), live(r.st, r.part(0)))
	c.iff(q.assume, IsNil(q.part(1)), tTrue, "written bytes are accepted", c.at(de))
	c.same(q.assume, in.flat(q.st, q.part(0)), cells, "written bytes read back as the same key", c.at(de))
	for _, f := range []*ssa.Function{str, b58} {
		st := newState(good)
		r := c.run(in, f, st, in.put(st, "key", cells))
		c.returns(r, "valid key")
		q := c.run(in, bd, r.st.fork(), live(r.st, r.val))
		c.iff(q.assume, IsNil(q.part(1)), tTrue, "written text is accepted", c.at(f))
		c.same(q.assume, in.flat(q.st, q.part(0)), cells, "written text reads back as the same key", c.at(f))
	}
	// sentences
	w := c.wordState("list")
	in = w.in
	in.wordsOf = w.list
	nm, em, mb, vm := c.fn("bip39.NewMnemonic"), c.fn("bip39.EntropyFromMnemonic"), c.fn("bip39.MnemonicToByteArray"), c.fn("bip39.IsMnemonicValid")
	ds, rk, ns, mk := c.fn("util.DeriveSeedFromMnemonic"), c.fn("util.RootKeyFromSeed"), c.fn("bip39.NewSeed"), c.fn("bip32.NewMasterKey")
	in.ensureInit(ds.Pkg)
	for n := 16; n <= 32; n += 4 {
		e := entropyArg(n)
		st := w.state(tTrue)
		r := c.run(in, nm, st, in.sliceArg(st, "entropy", e))
		c.returns(r, "entropy")
		what := fmt.Sprintf("%d bytes", n)
		q := c.run(in, em, r.st.fork(), r.part(0))
		c.iff(q.assume, IsNil(q.part(1)), tTrue, "a sentence made from entropy is accepted", c.at(em)+" "+what)
		c.same(q.assume, q.bytesOf(q.part(0)), e, "and decodes to that entropy", c.at(em)+" "+what)
		raw := r.st.fork()
		q = c.run(in, mb, raw, r.part(0), in.sliceArg(raw, "raw", Seq(tTrue)))
		c.iff(q.assume, IsNil(q.part(1)), tTrue, "a sentence made from entropy is accepted", c.at(mb)+" "+what)
		c.same(q.assume, q.bytesOf(q.part(0)), e, "and decodes to that entropy", c.at(mb)+" "+what)
		q = c.run(in, vm, r.st.fork(), r.part(0))
		c.iff(q.assume, q.val, tTrue, "a sentence made from entropy is valid", c.at(vm)+" "+what)
		// and on to the root key
		pass := symBytes("passphrase")
		q = c.run(in, ds, r.st.fork(), r.part(0), pass)
		c.iff(q.assume, IsNil(q.part(1)), tTrue, "a sentence made from entropy has a seed", c.at(ds)+" "+what)
		k := c.run(in, rk, q.st.fork(), q.part(0))
		u := c.run(in, ns, r.st.fork(), r.part(0), pass)
		m := c.run(in, mk, u.st, u.val)
		c.iff(k.assume, IsNil(k.part(1)), IsNil(m.part(1)), "the seed text is read as the seed", c.at(rk)+" "+what)
		ok := And(k.assume, IsNil(m.part(1)))
		c.same(ok, in.flat(k.st, live(newState(ok), k.part(0))), in.flat(m.st, live(newState(ok), m.part(0))), "and gives the master key of the seed", c.at(rk)+" "+what)
	}
}
