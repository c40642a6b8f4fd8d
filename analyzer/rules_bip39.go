package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The word list and its reverse lookup are package state. Every rule starts
// from the state SetWordList leaves behind for an arbitrary list of 2048
// words, which (C22) is the only kind of state there is.

type words struct {
	c    *Check
	in   *Interp
	list *Term // the list as a sequence of strings
	mem  map[int]*Term
	pc   *Term
}

func (c *Check) wordState(name string) *words {
	in := c.interp()
	f := c.fn("bip39.SetWordList")
	in.ensureInit(f.Pkg)
	list := wholeSeq(rawApp(name, &Sort{kind: 's', elem: sortStr}))
	st := newState(tTrue)
	r := c.run(in, f, st, in.sliceArg(st, name, list))
	c.returns(r, "any list")
	in.sortOfMap["seq"] = sortBits(11)
	return &words{c: c, in: in, list: list, mem: r.st.mem, pc: Eq(Len(list), C(2048))}
}

func (w *words) state(pc *Term) *State {
	st := newState(And(w.pc, pc))
	for k, v := range w.mem {
		st.mem[k] = v
	}
	return st
}

// index is what GetWordIndex answers for a word.
func (w *words) index(word *Term) (idx, found *Term) {
	f := w.c.fn("bip39.GetWordIndex")
	r := w.c.run(w.in, f, w.state(tTrue), word)
	return r.part(0), r.part(1)
}

func wordTerm(text *Term, i int) *Term {
	return wholeSeq(rawApp("word", &Sort{kind: 's', elem: byteSort, lo: big1}, seqBase(text), C(int64(i))))
}

func wordsOK(n int) bool { return n >= 12 && n <= 24 && n%3 == 0 }

// decoded is the BIP39 reading of n words.
type decoded struct {
	known   *Term // every word is in the list
	valid   *Term // and the checksum matches
	entropy *Term // bytes
}

func (w *words) decode(text *Term, n int) decoded {
	d := decoded{known: tTrue}
	v := C(0)
	for i := 0; i < n; i++ {
		word := wordTerm(text, i)
		idx, found := w.index(word)
		d.known = And(d.known, found)
		v = Add(MulC(v, big.NewInt(2048)), Restrict(idx, found))
	}
	cs := n / 3
	ent := n*11 - cs
	e := Slice(v, cs, ent)
	d.entropy = Cells(e, ent/8)
	h := HashOf("sha256", d.entropy)
	d.valid = And(d.known, Eq(Slice(v, 0, cs), Slice(BE(h), 256-cs, cs)))
	return d
}

// sentence is the BIP39 sentence of entropy bytes.
func (w *words) sentence(e *Term, nbytes int) *Term {
	cs := nbytes / 4
	n := (nbytes*8 + cs) / 11
	h := BE(HashOf("sha256", e))
	v := Add(MulC(BE(e), pow2(cs)), Slice(h, 256-cs, cs))
	var parts []*Term
	for i := 0; i < n; i++ {
		if i > 0 {
			parts = append(parts, Str(" "))
		}
		parts = append(parts, At(w.list, Slice(v, 11*(n-1-i), 11)))
	}
	return Concat(parts...)
}

func entropyArg(n int) *Term {
	if n == 0 {
		return tEmpty
	}
	return Cells(rawApp(fmt.Sprintf("entropy%d", n), sortBits(8*n)), n)
}

// counts runs f for every word count 0..30 and for more than 30 words.
func (w *words) counts(f func(n int, st *State, text *Term, what string)) {
	text := symBytes("mnemonic")
	nw := rawApp("nwords", sortLen, seqBase(text))
	for n := 0; n <= 30; n++ {
		w.in.fieldsLen = n
		f(n, w.state(tTrue), text, fmt.Sprintf("%d words", n))
	}
	w.in.fieldsLen = -1
	f(-1, w.state(Ge(nw, big.NewInt(31))), text, "more than 30 words")
}

// seedOf is the BIP39 seed term.
func seedOf(pw, salt *Term) *Term {
	return appVal("pbkdf2-sha512", &Sort{kind: 'a', n: 64}, pw, salt, C(2048), C(64))
}

func nfkd(x *Term) *Term { return appVal("nfkd", sortStr, x) }

// random is the first n bytes the system generator delivers, and its failure.
func (c *Check) random(n int) (bytes, fail *Term) {
	src := rawApp("random", &Sort{kind: 's', elem: byteSort}, C(0))
	xs := make([]*Term, n)
	for i := range xs {
		xs[i] = elemOf(src, C(int64(i)))
	}
	return Seq(xs...), bAtom("randfail", C(0))
}

func (c *Check) randReset() { c.interp().calls["$rand"] = 0 }

func init() {
	rules["C15"] = &rule{level: "proof", tech: "gated value-flow analysis of NewMnemonic for symbolic entropy of every length up to 64 bytes and for all longer ones, over the state SetWordList leaves for a symbolic list: the sentence term is compared with the BIP39 bit-slice term", run: func(c *Check) {
		w := c.wordState("list")
		f := c.fn("bip39.NewMnemonic")
		for n := 0; n <= 64; n++ {
			st := w.state(tTrue)
			e := entropyArg(n)
			r := c.run(w.in, f, st, w.in.sliceArg(st, "entropy", e))
			what := fmt.Sprintf("%d bytes of entropy", n)
			good := n >= 16 && n <= 32 && n%4 == 0
			c.returns(r, what)
			c.iff(r.assume, IsNil(r.part(1)), boolT(good), "accepts exactly 16, 20, 24, 28 and 32 bytes", c.at(f)+" "+what)
			if good {
				c.same(r.assume, w.in.flat(r.st, r.part(0)), w.sentence(e, n), "word i names bits 11i..11i+10 of entropy and checksum", c.at(f)+" "+what)
			} else {
				c.same(r.assume, w.in.flat(r.st, r.part(0)), tEmpty, "no sentence with an error", c.at(f)+" "+what)
			}
		}
		e := symBytes("entropy")
		st := w.state(Ge(Len(e), big.NewInt(65)))
		r := c.run(w.in, f, st, w.in.sliceArg(st, "entropy", e))
		c.returns(r, "more than 64 bytes")
		c.iff(r.assume, IsNil(r.part(1)), tFalse, "accepts exactly 16, 20, 24, 28 and 32 bytes", c.at(f)+" more than 64 bytes")
	}}
	rules["C16"] = &rule{level: "proof", tech: "gated value-flow analysis of EntropyFromMnemonic and IsMnemonicValid for every word count up to 30 and for all larger ones, with symbolic words and a symbolic list: acceptance condition and entropy bytes are compared with the BIP39 terms", run: func(c *Check) {
		w := c.wordState("list")
		f, g := c.fn("bip39.EntropyFromMnemonic"), c.fn("bip39.IsMnemonicValid")
		w.counts(func(n int, st *State, text *Term, what string) {
			r := c.run(w.in, f, st, text)
			c.returns(r, what)
			at := c.at(f) + " " + what
			valid := tFalse
			if wordsOK(n) {
				d := w.decode(text, n)
				valid = d.valid
				c.same(And(r.assume, valid), r.bytesOf(r.part(0)), d.entropy, "entropy is the leading bits of the word indexes", at)
			}
			c.iff(r.assume, IsNil(r.part(1)), valid, "accepts exactly the sentences of the right length, words and checksum", at)
			c.same(And(r.assume, Not(valid)), r.bytesOf(r.part(0)), tEmpty, "no entropy with an error", at)
			r = c.run(w.in, g, w.state(st.pc), text)
			c.returns(r, what)
			c.iff(r.assume, r.val, valid, "valid exactly when decoding succeeds", c.at(g)+" "+what)
		})
	}}

	rules["C17"] = &rule{level: "proof", tech: "gated value-flow analysis of MnemonicToByteArray for every word count, in raw, explicit and default form", run: func(c *Check) {
		w := c.wordState("list")
		f := c.fn("bip39.MnemonicToByteArray")
		w.counts(func(n int, st *State, text *Term, what string) {
			valid := tFalse
			var ent, full *Term
			if wordsOK(n) {
				d := w.decode(text, n)
				valid, ent = d.valid, d.entropy
				cs := n / 3
				h := BE(HashOf("sha256", ent))
				v := Add(MulC(BE(ent), pow2(cs)), Slice(h, 256-cs, cs))
				full = Cells(v, (n*11+7)/8)
			}
			for _, mode := range []string{"no option", "raw=true", "raw=false", "raw symbolic"} {
				s := w.state(st.pc)
				raw := tNil
				cond := tFalse
				switch mode {
				case "raw=true":
					raw, cond = w.in.sliceArg(s, "raw", Seq(tTrue)), tTrue
				case "raw=false":
					raw = w.in.sliceArg(s, "raw", Seq(tFalse))
				case "raw symbolic":
					cond = bAtom("raw")
					raw = w.in.sliceArg(s, "raw", Seq(cond))
				}
				r := c.run(w.in, f, s, text, raw)
				at := c.at(f) + " " + what + ", " + mode
				c.returns(r, what)
				c.iff(r.assume, IsNil(r.part(1)), valid, "fails exactly when decoding fails", at)
				if ent != nil {
					got := r.bytesOf(r.part(0))
					c.same(And(r.assume, valid, cond), got, ent, "raw form is the entropy", at)
					c.same(And(r.assume, valid, Not(cond)), got, full, "default form is entropy and checksum bits, left padded", at)
				}
				c.same(And(r.assume, Not(valid)), r.bytesOf(r.part(0)), tEmpty, "no bytes with an error", at)
			}
		})
	}}
	rules["C18"] = &rule{level: "proof", tech: "gated value-flow analysis of bip39.NewSeed: the result term is compared with the PBKDF2 term over symbolic sentence and passphrase", run: func(c *Check) {
		in := c.interp()
		f := c.fn("bip39.NewSeed")
		in.ensureInit(f.Pkg)
		m, p := symBytes("mnemonic"), symBytes("passphrase")
		r := c.run(in, f, newState(tTrue), m, p)
		at := c.at(f)
		c.returns(r, "any text")
		got := r.bytesOf(r.val)
		if got == seedOf(nfkd(m), Concat(Str("mnemonic"), nfkd(p))) || got == seedOf(nfkd(m), nfkd(Concat(Str("mnemonic"), p))) {
			c.ok(true, "seed = PBKDF2(NFKD(sentence), NFKD(\"mnemonic\"+passphrase))", at, "")
			return
		}
		if !c.same(r.assume, got, seedOf(m, Concat(Str("mnemonic"), p)), "seed = PBKDF2(sentence, \"mnemonic\"+passphrase, 2048, 64, SHA-512)", at) {
			return
		}
		c.knownFinding("bip39.NewSeed", "applies no NFKD normalisation", "normalises sentence and passphrase", at)
	}}
	rules["C19"] = &rule{level: "proof", tech: "gated value-flow analysis of both checked seed functions for every word count over a symbolic list: success condition and value are compared with validity and with the unchecked seed", run: func(c *Check) {
		w := c.wordState("list")
		f, g, u := c.fn("bip39.NewSeedWithErrorChecking"), c.fn("util.DeriveSeedFromMnemonic"), c.fn("bip39.NewSeed")
		w.in.ensureInit(g.Pkg)
		w.counts(func(n int, st *State, text *Term, what string) {
			pass := symBytes("passphrase")
			valid := tFalse
			if wordsOK(n) {
				valid = w.decode(text, n).valid
			}
			ru := c.run(w.in, u, w.state(st.pc), text, pass)
			seed := ru.bytesOf(ru.val)
			r := c.run(w.in, f, w.state(st.pc), text, pass)
			c.returns(r, what)
			c.iff(r.assume, IsNil(r.part(1)), valid, "succeeds exactly for valid sentences", c.at(f)+" "+what)
			c.same(And(r.assume, valid), r.bytesOf(r.part(0)), seed, "the seed of the unchecked derivation", c.at(f)+" "+what)
			c.same(And(r.assume, Not(valid)), r.bytesOf(r.part(0)), tEmpty, "no seed with an error", c.at(f)+" "+what)
			r = c.run(w.in, g, w.state(st.pc), text, pass)
			c.returns(r, what)
			c.iff(r.assume, IsNil(r.part(1)), valid, "succeeds exactly for valid sentences", c.at(g)+" "+what)
			c.same(And(r.assume, valid), r.bytesOf(r.part(0)), HexStr(seed), "the seed of the unchecked derivation in hex", c.at(g)+" "+what)
			c.same(And(r.assume, Not(valid)), r.bytesOf(r.part(0)), tEmpty, "no seed with an error", c.at(g)+" "+what)
		})
	}}
	rules["C20"] = &rule{level: "proof", tech: "gated value-flow analysis of bip39.NewEntropy (symbolic size) and bip32.NewSeed: every result byte must be a byte the system generator filled, the error condition is compared with size and generator failure; a scan of all packages for other generators", run: checkC20}
	rules["C22"] = &rule{level: "proof", tech: "gated value-flow analysis of list selection, reading and lookup over a symbolic list with caller-held slices overwritten in between, plus an interprocedural effect analysis for other writers of the state", run: checkC22}
	rules["C23"] = &rule{level: "proof", tech: "gated value-flow analysis of GenerateMnemonic for each of the 256 word counts over a symbolic list and a symbolic generator output", run: func(c *Check) {
		w := c.wordState("list")
		f := c.fn("util.GenerateMnemonic")
		w.in.ensureInit(f.Pkg)
		for n := 0; n < 256; n++ {
			c.randReset()
			r := c.run(w.in, f, w.state(tTrue), C(int64(n)))
			what := fmt.Sprintf("%d words", n)
			at := c.at(f) + " " + what
			c.returns(r, what)
			good := tFalse
			if wordsOK(n) {
				e, fail := c.random(n / 3 * 4)
				good = Not(fail)
				c.same(And(r.assume, good), w.in.flat(r.st, r.part(0)), w.sentence(e, n/3*4), "the BIP39 sentence of fresh random entropy", at)
			}
			c.iff(r.assume, IsNil(r.part(1)), good, "error for other counts and when a step fails", at)
			c.same(And(r.assume, Not(good)), w.in.flat(r.st, r.part(0)), tEmpty, "empty sentence with an error", at)
		}
	}}
}

func checkC20(c *Check) {
	in := c.interp()
	f := c.fn("bip39.NewEntropy")
	in.ensureInit(f.Pkg)
	for n := -64; n <= 1024; n++ {
		if n > 288 && n%32 != 0 {
			continue
		}
		c.randReset()
		r := c.run(in, f, newState(tTrue), C(int64(n)))
		what := fmt.Sprintf("%d bits", n)
		c.returns(r, what)
		good := tFalse
		if n >= 128 && n <= 256 && n%32 == 0 {
			e, fail := c.random(n / 8)
			good = Not(fail)
			c.same(good, r.bytesOf(r.part(0)), e, "every byte comes from the system generator", c.at(f)+" "+what)
		}
		c.iff(r.assume, IsNil(r.part(1)), good, "error for other sizes and when the generator fails", c.at(f)+" "+what)
		c.same(Not(good), r.bytesOf(r.part(0)), tEmpty, "nothing usable with an error", c.at(f)+" "+what)
	}
	size := rawApp("bitSize", &Sort{kind: 'i', lo: new(big.Int).Neg(pow2(63)), hi: new(big.Int).Sub(pow2(63), big1)})
	for _, pc := range []*Term{Not(Ge(size, big.NewInt(-64))), Ge(size, big.NewInt(257))} {
		c.randReset()
		r := c.run(in, f, newState(pc), size)
		c.returns(r, "all other sizes")
		c.iff(r.assume, IsNil(r.part(1)), tFalse, "error for other sizes and when the generator fails", c.at(f)+" other sizes")
	}
	g := c.fn("bip32.NewSeed")
	in.ensureInit(g.Pkg)
	c.randReset()
	r := c.run(in, g, newState(tTrue))
	c.returns(r, "")
	e, fail := c.random(256)
	c.iff(r.assume, IsNil(r.part(1)), Not(fail), "fails exactly when the generator fails", c.at(g))
	c.same(Not(fail), r.bytesOf(r.part(0)), e, "every byte comes from the system generator", c.at(g))
	// no other generator anywhere
	for _, fn := range c.p.moduleFns() {
		c.fns[fnName(fn)] = true
		for _, call := range callsOf(fn) {
			name := calleeName(call.Common())
			bad := strings.HasPrefix(name, "math/rand") || strings.Contains(name, "math/rand/v2") || strings.Contains(name, "math/rand.")
			c.ok(!bad, "no other random source", c.p.Pos(call.Pos())+" "+fnName(fn), "calls "+name)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if fv, ok := (*op).(*ssa.Function); ok && fv.Pkg != nil && strings.HasPrefix(fv.Pkg.Pkg.Path(), "math/rand") {
						c.ok(false, "no other random source", c.p.Pos(ins.Pos())+" "+fnName(fn), "uses "+fv.String())
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
							c.ok(false, "no other random source", c.p.Pos(ins.Pos())+" "+fnName(fn), "replaces the system generator")
						}
					}
				}
			}
		}
	}
}

func callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(ssa.CallInstruction); ok {
				out = append(out, x)
			}
		}
	}
	return out
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return strings.TrimPrefix(v.String(), "(")
	case *ssa.Builtin:
		return "builtin " + v.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return "dynamic call"
}

// indexLog is the contents of a reverse lookup map of a list.
func indexLog(list *Term) *Term {
	b := Bound(1)
	return closeRep(Len(list), Seq(Tuple(At(list, b), b)), 1, "flat")
}

func checkC22(c *Check) {
	in := c.interp()
	set, get, idx := c.fn("bip39.SetWordList"), c.fn("bip39.GetWordList"), c.fn("bip39.GetWordIndex")
	in.ensureInit(set.Pkg)
	mk := func(n string) *Term { return wholeSeq(rawApp(n, &Sort{kind: 's', elem: sortStr})) }
	word := symBytes("word")
	check := func(mem map[int]*Term, list *Term, when string) {
		st := newState(tTrue)
		for k, v := range mem {
			st.mem[k] = v
		}
		r := c.run(in, get, st)
		c.returns(r, when)
		c.same(tTrue, r.bytesOf(r.val), list, "the list read is the list selected last", c.at(get)+" "+when)
		st = newState(tTrue)
		for k, v := range mem {
			st.mem[k] = v
		}
		r = c.run(in, idx, st, word)
		c.returns(r, when)
		base := seqBase(indexLog(list))
		found := bAtomN("mapin", base, word)
		c.iff(tTrue, r.part(1), found, "a word is found exactly when it is in the list", c.at(idx)+" "+when)
		c.same(found, r.part(0), in.symMapVal(newState(found), types.Typ[types.Int], base, word), "a word of the list looks up to its position", c.at(idx)+" "+when)
	}
	A, B := mk("first list"), mk("second list")
	st := newState(tTrue)
	argA := in.sliceArg(st, "caller's list", A)
	r := c.run(in, set, st, argA)
	c.returns(r, "any list")
	mem := r.st.mem
	check(mem, A, "after selecting a list")
	// the caller changes its slice
	obj := argA.args[0].a
	mem2 := copyMem(mem)
	mem2[obj] = mk("scribble")
	check(mem2, A, "after the caller changes the slice it passed")
	// a reader changes what it was given
	st = newState(tTrue)
	st.mem = copyMem(mem)
	rg := c.run(in, get, st)
	mem3 := copyMem(rg.st.mem)
	for _, o := range reachable(in, rg.st, rg.val) {
		mem3[o] = mk("scribble2")
	}
	check(mem3, A, "after the caller changes the slice it was given")
	// selecting again forgets the first list
	st = newState(tTrue)
	st.mem = copyMem(mem)
	r = c.run(in, set, st, in.sliceArg(st, "caller's second list", B))
	check(r.st.mem, B, "after selecting a second list")
	// the empty and nil list
	st = newState(tTrue)
	st.mem = copyMem(mem)
	r = c.run(in, set, st, tNil)
	c.returns(r, "nil list")
	// only SetWordList changes the state after start-up
	e := effectsOf(c.p)
	allowed := map[string]bool{"bip39.SetWordList": true}
	n := 0
	for g := range e.state {
		if g.Pkg == nil || g.Pkg != set.Pkg {
			continue
		}
		n++
		for _, s := range e.sites[g] {
			for _, root := range exportedCallers(c.p, s.Parent()) {
				c.ok(allowed[fnName(root)], "only selecting a list changes it", c.p.Pos(s.Pos())+" "+fnName(root), "writes "+g.Name())
			}
		}
	}
	c.extra["state_variables"] = n
}

func copyMem(m map[int]*Term) map[int]*Term {
	n := make(map[int]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// reachable lists the objects a value refers to.
func reachable(in *Interp, st *State, v *Term) []int {
	var out []int
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if x.op == OPtr && x.a > 0 && !seen[x.a] {
				seen[x.a] = true
				out = append(out, x.a)
				walk(in.loadContent(st, x.a))
			}
			return false
		})
	}
	walk(v)
	return out
}

// exportedCallers: exported functions from which f can be reached by static calls.
func exportedCallers(p *Prog, f *ssa.Function) []*ssa.Function {
	fns := p.moduleFns()
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						callers[h] = append(callers[h], g)
					}
				}
			}
		}
		if g.Parent() != nil {
			callers[g] = append(callers[g], g.Parent())
		}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		if o, ok := g.Object().(*types.Func); ok && o.Exported() {
			out = append(out, g)
		}
		for _, h := range callers[g] {
			walk(h)
		}
	}
	walk(f)
	return out
}
