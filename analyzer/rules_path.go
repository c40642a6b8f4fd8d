package main

// Derivation paths.

const pathPattern = `^[mM](/\d+')*(/\d+)*$`

// pathSpec is the meaning of a path: whether it is accepted, and its indexes.
type pathSpec struct {
	ok   *Term // shape and ranges
	n    *Term // number of components
	list *Term // leading 0 and one index per component
}

func specOfPath(p *Term) pathSpec {
	s := stripWS(p)
	shape := inLang(pathPattern, s)
	save := curPC
	curPC = And(save, shape)
	defer func() { curPC = save }()
	n := Sub(Len(splitText(s, Str("/"))), C(1))
	B := Bound(1)
	digits, marked := pathComponent(s, "/", Add(B, C(1)))
	v := decVal(digits)
	bad := Ite(marked, Ge(v, pow2(31)), Ge(v, pow2(32)))
	idx := Ite(marked, Add(v, CB(pow2(31))), v)
	return pathSpec{
		ok:   And(shape, Not(existsAtom(n, mkLam(bad, 1)))),
		n:    n,
		list: Concat(Seq(C(0)), closeRep(n, idx, 1, "")),
	}
}

func init() {
	rules["C13"] = &rule{level: "proof", tech: "gated value-flow analysis of Path.ValuesAtDepth and IsValid for an arbitrary string, with a loop summary over the components: the regular language accepted (as a minimal automaton), the error condition and the index list are compared with the stated ones", run: func(c *Check) {
		in := c.interp()
		f := c.fn("(bip32.Path).ValuesAtDepth")
		in.ensureInit(f.Pkg)
		p := symBytes("path")
		spec := specOfPath(p)
		r := c.run(in, f, newState(tTrue), p)
		at := c.at(f)
		c.returns(r, "any string")
		c.iff(r.assume, IsNil(r.part(1)), spec.ok, "accepts exactly the well-formed paths with components in range", at)
		c.same(And(r.assume, spec.ok), r.bytesOf(r.part(0)), spec.list, "0 and the index of each component, in order", at)
		g := c.fn("(bip32.Path).IsValid")
		r = c.run(in, g, newState(tTrue), p)
		c.returns(r, "any string")
		c.iff(r.assume, r.val, spec.ok, "valid exactly when parsing succeeds", c.at(g))
		for _, n := range []string{"String", "Formatted"} {
			h := c.fn("(bip32.Path)." + n)
			r = c.run(in, h, newState(tTrue), p)
			c.returns(r, "any string")
			c.same(r.assume, in.flat(r.st, r.val), stripWS(p), "the text without white space", c.at(h))
		}
		c.pathRegex(in)
	}}
	rules["C14"] = &rule{level: "proof", tech: "gated value-flow analysis of Path.ValueAtDepth and ReplaceValueAtDepth for an arbitrary string, depth and index: error condition and result are compared with the element of, and the pointwise update of, the component list", run: func(c *Check) {
		in := c.interp()
		f := c.fn("(bip32.Path).ValueAtDepth")
		in.ensureInit(f.Pkg)
		p := symBytes("path")
		b := rawApp("b", sortBits(8))
		spec := specOfPath(p)
		r := c.run(in, f, newState(tTrue), p, b)
		at := c.at(f)
		c.returns(r, "any string and depth")
		present := And(spec.ok, Ge(Sub(spec.n, b), big0))
		c.iff(r.assume, IsNil(r.part(1)), present, "succeeds exactly for depths that are present", at)
		for _, q := range []struct {
			d  *Term
			pc *Term
		}{{C(0), Eq(b, C(0))}, {b, Ge(b, big1)}} {
			care := And(r.assume, present, q.pc)
			save := curPC
			curPC = care
			want := At(spec.list, q.d)
			curPC = save
			c.same(care, r.part(0), want, "the element of the index list", at)
		}
		// replacement
		g := c.fn("(bip32.Path).ReplaceValueAtDepth")
		valid := c.fn("(bip32.Path).IsValid")
		at = c.at(g)
		for _, hard := range []bool{true, false} {
			val := rawApp("val", sortBits(32))
			pc := Not(Ge(val, pow2(31)))
			what := "plain value"
			text := DecStr(val)
			if hard {
				pc, what = Ge(val, pow2(31)), "hardened value"
				text = Concat(DecStr(Slice(val, 0, 31)), Str("'"))
			}
			r := c.run(in, g, newState(pc), p, b, val)
			c.returns(r, what)
			inside := And(spec.ok, Ge(b, big1), Ge(Sub(spec.n, b), big0))
			care := And(pc, inside)
			save := curPC
			curPC = care
			parts := splitText(stripWS(p), Str("/"))
			repl := joinText(Update(parts, b, text), Str("/"))
			curPC = save
			rv := c.run(in, valid, newState(care), repl)
			ok := And(inside, rv.val)
			c.iff(r.assume, IsNil(r.part(1)), ok, "succeeds exactly when the depth is present and the result is a valid path", at+" "+what)
			c.same(And(r.assume, ok), in.flat(r.st, r.part(0)), repl, "that component alone is changed", at+" "+what)
			c.same(And(r.assume, Not(ok)), in.flat(r.st, r.part(0)), p, "the original path with an error", at+" "+what)
		}
	}}
}

// pathRegex: the exported pattern accepts the same language.
func (c *Check) pathRegex(in *Interp) {
	v := c.global(in, "bip32.PathRegex")
	pat := ""
	if v.op == OIface && v.str == "regexp" {
		pat, _ = litOf(v.args[0])
	}
	d := compileLang(pat)
	c.ok(d != nil && d.key == compileLang(pathPattern).key, "the exported pattern describes the accepted shape", "bip32.PathRegex", "pattern "+pat)
}
