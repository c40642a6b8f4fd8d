package main

import (
	"fmt"
	"math/big"
)

// C37: keys the library makes are valid; C38: text prefixes; C39: coin texts.

func init() {
	rules["C37"] = &rule{level: "proof", tech: "gated value-flow analysis: IsValid is evaluated on the symbolic keys that NewMasterKey, NewChildKey and PublicKeyExtended return for symbolic valid inputs, and its condition is compared with true", run: func(c *Check) {
		iv, ip := c.fn("(*bip32.Key).IsValid"), c.fn("(*bip32.Key).IsPrivate")
		valid := func(in *Interp, ok, key *Term, what, at string) {
			st := newState(ok)
			r := c.run(in, iv, st, in.put(st, "made", live(newState(ok), key)))
			c.returns(r, what)
			c.iff(And(r.assume, ok), r.val, tTrue, what, at)
		}
		// master keys
		f := c.fn("bip32.NewMasterKey")
		in := c.interp()
		st := newState(tTrue)
		r := c.run(in, f, st, in.sliceArg(st, "seed", symBytes("seed")))
		ok := And(r.assume, r.st.pc, IsNil(r.part(1)))
		valid(in, ok, in.flat(r.st, live(newState(ok), r.part(0))), "every master key is valid", c.at(f))
		// public versions, for any version number
		g := c.fn("(*bip32.Key).PublicKeyExtended")
		for _, priv := range []bool{true, false} {
			s := xkey(priv, nil)
			st := newState(s.assume)
			r := c.run(in, g, st, in.put(st, "key", s.cells))
			ok := And(r.assume, r.st.pc)
			pub := in.flat(r.st, r.val)
			valid(in, ok, pub, "the public version of a valid key is valid", c.at(g)+" "+s.name)
			st2 := newState(ok)
			r2 := c.run(in, ip, st2, in.put(st2, "made", pub))
			c.iff(ok, r2.val, tFalse, "the public version is a public key", c.at(ip)+" "+s.name)
		}
		// children
		for _, priv := range []bool{true, false} {
			for _, d := range c.derivations(priv, false) {
				ok := d.success()
				valid(c.in, ok, d.child, "every child of a valid key is valid", c.at(d.r.fn)+" "+d.what)
			}
		}
	}}

	rules["C38"] = &rule{level: "proof", tech: "constant evaluation of the registry and interval arithmetic over Base58: the texts of the smallest and the largest 82 bytes that start with a registered version number agree in their first four characters", run: func(c *Check) {
		in := c.interp()
		idx := c.fields("bip32", "VersionBytes", verFields)
		all, _ := c.registry(in, idx)
		for _, r := range all {
			for _, k := range []struct{ num, px, what string }{{"PvtKeyFlag", "PvKeyPrefix", "private"}, {"PubKeyFlag", "PubKeyPrefix", "public"}} {
				v, px := r.num[k.num], r.str[k.px]
				at := fmt.Sprintf("%s %s %s version 0x%08x", r.str["Coin"], r.str["Path"], k.what, v)
				if odd := oddPrefix[v]; odd[px] {
					continue
				}
				lo := new(big.Int).Lsh(new(big.Int).SetUint64(v), 8*78)
				hi := new(big.Int).Lsh(new(big.Int).SetUint64(v+1), 8*78)
				hi.Sub(hi, big1)
				a, b := base58Int(lo), base58Int(hi)
				c.ok(v>>24 != 0 && len(a) == len(b) && len(a) > 4 && a[:4] == px && b[:4] == px, "every text of the version starts with the listed prefix", at,
					fmt.Sprintf("the texts run from %.6s to %.6s, the prefix listed is %q", a, b, px))
			}
		}
		// the text is the Base58 form of bytes that start with the version number
		for _, n := range []string{"(*bip32.Key).B58Serialize", "(*bip32.Key).String"} {
			f := c.fn(n)
			in.ensureInit(f.Pkg)
			ver, rest := rawApp("ver", sortBits(32)), rawApp("rest", sortBits(8*74))
			cells := Concat(Cells(ver, 4), Cells(rest, 74))
			st := newState(Not(Eq(ver, C(0))))
			r := c.run(in, f, st, in.put(st, "key", cells))
			c.returns(r, "any key")
			c.same(r.assume, in.flat(r.st, r.val), base58Of(Concat(cells, first4(dblSha(cells)))), "the text encodes the version number, the rest and the checksum", c.at(f))
		}
	}}

	rules["C39"] = &rule{level: "proof", tech: "gated value-flow analysis of the text forms of an arbitrary coin, and constant evaluation of the coin list's order", run: func(c *Check) {
		in := c.interp()
		idx := c.fields("bip44", "Coin", []string{"Type", "PathComponent", "Symbol", "Name"})
		pkg := c.p.by[modPath+"/bip44"]
		st := newState(tTrue)
		v := in.symValue(pkg.Type("Coin").Type(), st, "coin")
		fld := func(n string) *Term { return v.args[idx[n]] }
		in.ensureInit(pkg)
		f := c.fn("(bip44.Coin).String")
		r := c.run(in, f, st.fork(), v)
		c.returns(r, "any coin")
		tail := Concat(fld("Name"), Str(" (Type "), DecStr(fld("Type")), Str(")"))
		want := Ite(Eq(Len(fld("Symbol")), C(0)), tail, Concat(fld("Symbol"), Str(" - "), tail))
		c.same(r.assume, in.flat(r.st, r.val), want, "the text names symbol, name and type", c.at(f))
		f = c.fn("(bip44.Coin).StringForMD")
		r = c.run(in, f, st.fork(), v)
		c.returns(r, "any coin")
		want = Concat(Str("{Type: "), DecStr(fld("Type")), Str(", PathComponent: 0x"), hexInt(fld("PathComponent")), Str(", Symbol: \""), fld("Symbol"), Str("\", Name: \""), fld("Name"), Str("\"}"))
		c.same(r.assume, in.flat(r.st, r.val), want, "the list form names the four fields", c.at(f))
		coins := c.listOf(in, idx, c.global(in, "bip44.RegCoins"), "bip44.RegCoins")
		for i := 1; i < len(coins); i++ {
			a, b := coins[i-1].str["Name"], coins[i].str["Name"]
			c.ok(a <= b, "the coins are listed by name", fmt.Sprintf("bip44.RegCoins[%d]", i), fmt.Sprintf("%q comes after %q", b, a))
		}
	}}
}

// oddPrefix lists the version numbers for which the SLIP-0132 table itself
// names a prefix that no key of that version has.
var oddPrefix = map[uint64]map[string]bool{
	0x42696720: {"xpub": true}, 0x426c6b73: {"xprv": true}, // Nexa
	0x043587cf: {"xpub": true}, 0x04358394: {"xprv": true}, // Nexa Testnet
	0x0488b21e: {"vtcp": true}, 0x0488ade4: {"vtcv": true}, // Vertcoin
}

func base58Int(n *big.Int) string {
	const digits = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	n = new(big.Int).Set(n)
	var out []byte
	k, m := big.NewInt(58), new(big.Int)
	for n.Sign() > 0 {
		n.DivMod(n, k, m)
		out = append(out, digits[m.Int64()])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}
