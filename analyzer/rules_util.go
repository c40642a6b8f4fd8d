package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Root keys, batch and range derivation, addresses.

// abstractChild makes child derivation an unknown function of the key's
// bytes and the index; its own meaning is the subject of C01-C04.
func abstractChild(in *Interp) {
	in.boundary["(*bip32.Key).NewChildKey"] = func(in *Interp, fn *ssa.Function, args []*Term, st *State, pos ssa.Instruction) (*Term, bool) {
		in.need(Not(IsNilPtr(args[0])), "nil key", pos, st)
		k := in.Load(st, args[0])
		ok, ch := childOf(BE(k), args[1])
		return Tuple(ch, Ite(ok, tNil, errT("child derivation"))), true
	}
}

// childOf: whether the child exists, and its 78 bytes.
func childOf(key, i *Term) (ok, cells *Term) {
	ok = lift2(key, i, func(k, i *Term) *Term { return bAtom("childok", k, i) })
	cells = lift2(key, i, func(k, i *Term) *Term { return Cells(rawApp("child", sortBits(8*78), k, i), 78) })
	return
}

// freeKey is an arbitrary array of 78 bytes.
func freeKey(name string) *Term { return Cells(rawApp(name, sortBits(8*78)), 78) }

// structOf builds a struct value from named fields; a missing name stops.
func structField(t types.Type, name string) int {
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

func (c *Check) structOf(t types.Type, at string, fields map[string]*Term) *Term {
	s, ok := under(t).(*types.Struct)
	if !ok {
		c.stop("anchor", at, "not a struct")
	}
	xs := make([]*Term, s.NumFields())
	n := 0
	for i := range xs {
		if v, ok := fields[s.Field(i).Name()]; ok {
			xs[i] = v
			n++
		} else {
			xs[i] = zeroValue(s.Field(i).Type())
		}
	}
	if n != len(fields) {
		c.stop("anchor", at, "a field is missing")
	}
	return Struct(xs...)
}

func init() {
	rules["C24"] = &rule{level: "proof", tech: "gated value-flow analysis of RootKeyFromSeed for an arbitrary string: error condition, key bytes and non-nil result are compared with the hex decoding followed by BIP32 master generation", run: func(c *Check) {
		f := c.fn("util.RootKeyFromSeed")
		in := c.interp()
		s := symBytes("seed")
		r := c.run(in, f, newState(tTrue), s)
		at := c.at(f)
		c.returns(r, "any string")
		isHex := bAtomN("ishex", s)
		data := appVal("unhex", &Sort{kind: 's', elem: byteSort}, s)
		I := BE(HmacOf("sha512", Str("Bitcoin seed"), data))
		il, ir := Slice(I, 256, 256), Slice(I, 0, 256)
		ok := And(isHex, Ge(Len(data), C(16).num), Not(Eq(il, C(0))), Not(Ge(il, secpN)))
		c.iff(r.assume, IsNil(r.part(1)), ok, "succeeds exactly for hex of at least 16 bytes whose master key exists", at)
		c.iff(r.assume, IsNilPtr(r.part(0)), tFalse, "never a nil key", at)
		want := Concat(Cells(u32(mainPrv), 4), Cells(C(0), 1), Cells(C(0), 4), Cells(C(0), 4), Cells(ir, 32), Seq(C(0)), Cells(il, 32))
		c.same(And(r.assume, ok), in.flat(r.st, live(newState(ok), r.part(0))), want, "master key of the decoded bytes", at)
	}}

	rules["C27"] = &rule{level: "proof", tech: "gated value-flow analysis of AddrHex and AddrP2SH for symbolic private keys (per registered version) and public keys on the curve: the text is compared with the Keccak-256 and Base58 terms over fixed-width encodings", run: func(c *Check) {
		for _, name := range []string{"AddrHex", "AddrP2SH"} {
			f := c.fn("(util.KeyPath)." + name)
			for _, priv := range []bool{true, false} {
				for _, vc := range verCases(priv) {
					if !vc.reg {
						continue
					}
					in := c.interp()
					s := xkey(priv, vc.ver)
					st := newState(And(s.assume, vc.assume))
					kp := c.structOf(f.Params[0].Type(), name, map[string]*Term{"Path": symBytes("path"), "Key": s.cells})
					args := []*Term{kp}
					prefix := rawApp("prefix", sortBits(8))
					if name == "AddrP2SH" {
						args = append(args, prefix)
					}
					r := c.run(in, f, st, args...)
					what := c.at(f) + " " + s.name + ", " + vc.name
					c.returns(r, s.name)
					x, y := s.x, (*Term)(nil)
					if priv {
						x, y = SMX(s.k), SMY(s.k)
					} else {
						y = DecY(s.x, s.bit)
					}
					var want *Term
					if name == "AddrHex" {
						h := HashOf("keccak256", Concat(Cells(x, 32), Cells(y, 32)))
						want = HexStr(SubSeq(h, C(12), C(32)))
					} else {
						b := Concat(Seq(prefix), HashOf("ripemd160", HashOf("sha256", s.pub)))
						want = base58Of(Concat(b, first4(dblSha(b))))
					}
					c.same(r.assume, in.flat(r.st, r.val), want, "address of the public point", what)
				}
			}
		}
	}}
}

// chain is the list of keys obtained by deriving with idx(0), idx(1), ...
// one after the other: at(j) is the key before step j.
func chainKey(start, idx *Term, B *Term) *Term {
	prev := sortedVar("$rvar", sortBits(8*78), C(0))
	_, ch := childOf(prev, idx)
	lam := mkLam(Struct(BE(ch)), 1)
	ini := intern(&Term{op: OLam, a: 99, args: []*Term{Struct(BE(start))}})
	return rawApp("rec", sortBits(8*78), C(0), lam, ini, B)
}

// component is the canonical text of one path component.
func component(idx *Term) *Term {
	return lift1(idx, func(i *Term) *Term {
		return Ite(Ge(i, pow2(31)),
			Concat(Str("/"), DecStr(Sub(i, CB(pow2(31)))), Str("'")),
			Concat(Str("/"), DecStr(i)))
	})
}

// walk: the entries {path, key} for n steps from a base path and key, and
// the condition that every step succeeds.
func (c *Check) walk(entry func(path, key *Term) *Term, base, key, idx, n *Term) (list, ok *Term) {
	B := Bound(1)
	save := curPC
	curPC = And(save, Ge(B, big0), Not(Ge(Sub(B, n), big0)))
	k := chainKey(key, idx, B)
	stepOK, ch := childOf(k, idx)
	path := Concat(base, closeRep(B, component(idx), 1, "flat"), component(idx))
	e := entry(path, ch)
	curPC = save
	return closeRep(n, e, 1, ""), Not(existsAtom(n, mkLam(Not(stepOK), 1)))
}

func init() {
	rules["C25"] = &rule{level: "proof", tech: "gated value-flow analysis of DeriveBIP32Result for an arbitrary root and path, with a loop summary over the components and child derivation as an unknown function: error condition and the whole result list are compared with the stated recurrence", run: func(c *Check) {
		f := c.fn("(*util.Generator).DeriveBIP32Result")
		set := c.fn("(*util.Generator).SetRootKey")
		isValid, isPriv := c.fn("(*bip32.Key).IsValid"), c.fn("(*bip32.Key).IsPrivate")
		in := c.interp()
		abstractChild(in)
		in.ensureInit(f.Pkg)
		gt := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
		st := newState(tTrue)
		root := freeKey("root")
		g := in.put(st, "generator", zeroValue(gt))
		rs := c.run(in, set, st, g, root)
		c.returns(rs, "any key")
		p := symBytes("path")
		root2 := in.put(rs.st, "root", root)
		kv := c.run(in, isValid, rs.st.fork(), root2)
		kp := c.run(in, isPriv, rs.st.fork(), root2)
		spec := specOfPath(p)
		rootOK := And(kv.val, kp.val, Eq(At(root, C(4)), C(0)))
		et := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		entry := func(path, key *Term) *Term {
			return c.structOf(et, "util.KeyPath", map[string]*Term{"Path": path, "Key": key})
		}
		r := c.run(in, f, rs.st, g, p)
		at := c.at(f)
		c.returns(r, "any root and path")
		c.unshared(r, "any root and path")
		pre := And(rootOK, spec.ok)
		curPC = pre
		idx := At(spec.list, Add(Bound(1), C(1)))
		list, steps := c.walk(entry, Str("m"), root, idx, spec.n)
		list = Concat(Seq(entry(Str("m"), root)), list)
		curPC = tTrue
		ok := And(pre, steps)
		c.iff(r.assume, IsNil(r.part(1)), ok, "succeeds exactly for a valid private depth-0 root, a valid path and children that all exist", at)
		c.same(And(r.assume, ok), in.flat(r.st, r.part(0)), list, "the root at m and one child per component with its path", at)
		c.iff(And(r.assume, Not(ok)), IsNil(r.part(0)), tTrue, "no list with an error", at)
	}}

	rules["C26"] = &rule{level: "proof", tech: "gated value-flow analysis of GenerateRange for an arbitrary range, key and path, with a loop summary over the indexes and child derivation as an unknown function: error condition and the stored list are compared with the stated recurrence", run: func(c *Check) {
		f := c.fn("(*util.KeyPathRange).GenerateRange")
		isValid := c.fn("(*bip32.Key).IsValid")
		in := c.interp()
		abstractChild(in)
		in.ensureInit(f.Pkg)
		t := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
		st := newState(tTrue)
		fi := func(t types.Type, n string) int {
			i := structField(t, n)
			if i < 0 {
				c.stop("anchor", "util.KeyPathRange", "field "+n+" is missing")
			}
			return i
		}
		from, to := rawApp("start", sortBits(32)), rawApp("end", sortBits(32))
		key, path := freeKey("key"), symBytes("path")
		ls := in.symValue(under(t).(*types.Struct).Field(fi(t, "KeyPaths")).Type(), st, "list")
		et := under(t).(*types.Struct).Field(fi(t, "KeyPaths")).Type().Underlying().(*types.Slice).Elem()
		entry := func(path, key *Term) *Term {
			return c.structOf(et, "util.KeyPath", map[string]*Term{"Path": path, "Key": key})
		}
		v := c.structOf(t, "util.KeyPathRange", map[string]*Term{"StartIndex": from, "EndIndex": to, "KeyPath": entry(path, key), "KeyPaths": ls})
		p := in.put(st, "range", v)
		before := in.flat(st, ls)
		key2 := in.put(st, "key", key)
		kv := c.run(in, isValid, st.fork(), key2)
		r := c.run(in, f, st, p)
		at := c.at(f)
		c.returns(r, "any range")
		c.unshared(r, "any range")
		spec := specOfPath(path)
		pre := And(Not(Ge(Sub(from, to), big0)), kv.val, spec.ok)
		curPC = pre
		list, steps := c.walk(entry, stripWS(path), key, Add(from, Bound(1)), Sub(to, from))
		curPC = tTrue
		ok := And(pre, steps)
		c.iff(r.assume, IsNil(r.val), ok, "succeeds exactly for a non-empty range, a valid key and path, and children that all exist", at)
		after := in.Load(r.st, p)
		part := func(n string) *Term { return in.flat(r.st, navStep(after, C(int64(fi(t, n))))) }
		c.same(And(r.assume, ok), part("KeyPaths"), list, "one entry per index with the derived key and path", at)
		c.same(And(r.assume, Not(ok)), part("KeyPaths"), before, "the stored list is unchanged on an error", at)
		c.same(r.assume, part("StartIndex"), from, "the start is unchanged", at)
		c.same(r.assume, part("EndIndex"), to, "the end is unchanged", at)
		c.same(r.assume, part("KeyPath"), entry(path, key), "the starting path and key are unchanged", at)
	}}
}
