package main

import (
	"go/types"
	"hash/crc32"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: their documented results as terms.

var models = map[string]model{}
var ifaceModels = map[string]model{}

func reg(m model, names ...string) {
	for _, n := range names {
		models[n] = m
	}
}

// helpers

func (c *callCtx) seq(i int) *Term {
	a := c.args[i]
	if isSeq(a) {
		return a
	}
	return c.in.View(c.st, a)
}
func (c *callCtx) bytes(s *Term) *Term { return c.in.newSlice(c.st, s, false) }
func (c *callCtx) load(i int) *Term {
	c.need(Not(IsNilPtr(c.args[i])), "nil pointer passed to a library method")
	return c.in.Load(c.st, c.args[i])
}
func (c *callCtx) store(i int, v *Term) {
	c.need(Not(IsNilPtr(c.args[i])), "nil pointer passed to a library method")
	c.in.Store(c.st, c.args[i], v, c.pos)
}
func (c *callCtx) fresh(v *Term) *Term {
	o := c.in.newObj("alloc", "", nil)
	c.st.mem[o] = v
	return ptrTo(o)
}
func (c *callCtx) need(cond *Term, what string) { c.in.need(cond, what, c.pos, c.st) }
func (c *callCtx) event(kind, what string)      { c.in.event(kind, what, c.pos, c.st) }

func errT(msg string, args ...*Term) *Term {
	return appVal("error", sortObj, append([]*Term{Str(msg)}, args...)...)
}

// libErr is an error variable of a library.
func libErr(name string) *Term { return errT("var", Str(name)) }

// openErr: an error a call returned of which it is not known whether it is
// (or wraps) one of the given variables.
func openErr(e, v *Term) bool {
	if !isErrConst(e) || !isErrConst(v) {
		return false
	}
	lib := len(v.args) > 1 && v.args[0] == Str("var")
	switch e.args[0] {
	case Str("child derivation"):
		return true
	case Str("crypto/rand"):
		return lib
	}
	return false
}

// wrapped lists the errors e holds one level down.
func wrapped(e *Term) (out []*Term) {
	if !isErrConst(e) || len(e.args) < 2 {
		return nil
	}
	if e.args[0] != Str("formatted") {
		for _, a := range e.args[1:] {
			if isErrConst(a) {
				out = append(out, a)
			}
		}
		return out
	}
	f, ok := litOf(e.args[1])
	if !ok {
		return nil
	}
	k := 2
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i == len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && k < len(e.args) {
			a := e.args[k]
			if a.op == OIface && len(a.args) == 1 {
				a = a.args[0]
			}
			out = append(out, a)
		}
		k++
	}
	return out
}

// errIs is errors.Is.
func errIs(got, want *Term) *Term {
	return lift2(got, want, func(g, w *Term) *Term {
		r := EqVal(g, w)
		for _, a := range wrapped(g) {
			r = Or(r, errIs(a, w))
		}
		return r
	})
}

func newIface(name string, p *Term) *Term {
	return intern(&Term{op: OIface, str: name, args: []*Term{p}})
}

// ---- hashes

var hashSize = map[string]int{"sha256": 32, "sha512": 64, "ripemd160": 20, "keccak256": 32, "sha3-256": 32, "sha1": 20, "md5": 16,
	"sha224": 28, "sha384": 48, "dblsha256": 32, "sha512-256": 32, "hash160": 20}

// HashOf is the digest of data as cells.
func HashOf(alg string, data *Term) *Term {
	if alg == "dblsha256" {
		return HashOf("sha256", HashOf("sha256", data))
	}
	n := hashSize[alg]
	if n == 0 {
		n = 32
	}
	return appVal(alg, &Sort{kind: 'a', n: n}, data)
}

// HmacOf is the HMAC of data.
func HmacOf(alg string, key, data *Term) *Term {
	return appVal("hmac-"+alg, &Sort{kind: 'a', n: hashSize[alg]}, key, data)
}

func (c *callCtx) newHash(alg string) *Term {
	return newIface("hash", c.fresh(Struct(Str(alg), tNil, tEmpty)))
}

func hashSum(st *Term) *Term {
	return lift1(st, func(h *Term) *Term {
		if h.op != OStruct {
			return opaque("digest", sortStr)
		}
		alg, _ := litOf(h.args[0])
		if h.args[1].op != ONil {
			return HmacOf(alg, h.args[1], h.args[2])
		}
		return HashOf(alg, h.args[2])
	})
}

func hashAlgOf(in *Interp, f *Term) string {
	if f.op == OClosure {
		switch f.str {
		case "crypto/sha512.New":
			return "sha512"
		case "crypto/sha256.New":
			return "sha256"
		case "crypto/sha1.New":
			return "sha1"
		case "golang.org/x/crypto/sha3.New256":
			return "sha3-256"
		case "golang.org/x/crypto/ripemd160.New":
			return "ripemd160"
		case "crypto/sha512.New384":
			return "sha384"
		case "crypto/sha256.New224":
			return "sha224"
		case "crypto/sha512.New512_256":
			return "sha512-256"
		}
	}
	return ""
}

func init() {
	newH := func(alg string) model { return func(c *callCtx) *Term { return c.newHash(alg) } }
	reg(newH("sha256"), "crypto/sha256.New")
	reg(newH("sha224"), "crypto/sha256.New224")
	reg(newH("sha512"), "crypto/sha512.New")
	reg(newH("sha384"), "crypto/sha512.New384")
	reg(newH("sha512-256"), "crypto/sha512.New512_256")
	reg(newH("sha1"), "crypto/sha1.New")
	reg(newH("md5"), "crypto/md5.New")
	reg(newH("ripemd160"), "golang.org/x/crypto/ripemd160.New")
	reg(newH("keccak256"), "golang.org/x/crypto/sha3.NewLegacyKeccak256")
	reg(newH("sha3-256"), "golang.org/x/crypto/sha3.New256")
	sum := func(alg string) model {
		return func(c *callCtx) *Term { return HashOf(alg, c.seq(0)) }
	}
	reg(sum("sha256"), "crypto/sha256.Sum256")
	reg(sum("sha224"), "crypto/sha256.Sum224")
	reg(sum("sha512"), "crypto/sha512.Sum512")
	reg(sum("sha384"), "crypto/sha512.Sum384")
	reg(sum("sha512-256"), "crypto/sha512.Sum512_256")
	reg(sum("sha1"), "crypto/sha1.Sum")
	reg(sum("md5"), "crypto/md5.Sum")
	reg(sum("sha3-256"), "golang.org/x/crypto/sha3.Sum256")
	reg(sum("dblsha256"), "github.com/btcsuite/btcd/chaincfg/chainhash.DoubleHashH")
	reg(sum("sha256"), "github.com/btcsuite/btcd/chaincfg/chainhash.HashH")
	reg(func(c *callCtx) *Term { return c.bytes(HashOf("dblsha256", c.seq(0))) }, "github.com/btcsuite/btcd/chaincfg/chainhash.DoubleHashB")
	reg(func(c *callCtx) *Term { return c.bytes(HashOf("sha256", c.seq(0))) }, "github.com/btcsuite/btcd/chaincfg/chainhash.HashB")
	reg(func(c *callCtx) *Term { return c.bytes(HashOf("ripemd160", HashOf("sha256", c.seq(0)))) }, "github.com/btcsuite/btcutil.Hash160")
	reg(func(c *callCtx) *Term {
		alg := hashAlgOf(c.in, c.args[0])
		if alg == "" {
			return c.in.unknownCall(c.st, "hmac.New", c.args, c.pos, c.rt)
		}
		return newIface("hash", c.fresh(Struct(Str(alg), c.seq(1), tEmpty)))
	}, "crypto/hmac.New")
	reg(func(c *callCtx) *Term { return EqSeq(c.seq(0), c.seq(1)) }, "crypto/hmac.Equal", "bytes.Equal")
	reg(func(c *callCtx) *Term { return b01(EqSeq(c.seq(0), c.seq(1))) }, "crypto/subtle.ConstantTimeCompare")
	ifaceModels["hash.Write"] = func(c *callCtx) *Term {
		d := c.seq(1)
		h := c.load(0)
		c.store(0, lift1(h, func(x *Term) *Term {
			if x.op != OStruct {
				return x
			}
			return Struct(x.args[0], x.args[1], Concat(x.args[2], d))
		}))
		return Tuple(Len(d), tNil)
	}
	ifaceModels["hash.Sum"] = func(c *callCtx) *Term {
		d := hashSum(c.load(0))
		return c.in.appendTo(c.st, c.args[1], d, c.pos)
	}
	ifaceModels["hash.Reset"] = func(c *callCtx) *Term {
		h := c.load(0)
		c.store(0, lift1(h, func(x *Term) *Term {
			if x.op != OStruct {
				return x
			}
			return Struct(x.args[0], x.args[1], tEmpty)
		}))
		return tNil
	}
	ifaceModels["hash.Size"] = func(c *callCtx) *Term { return Len(hashSum(c.load(0))) }
	reg(func(c *callCtx) *Term { return c.writeTo(c.args[0], c.seq(1)) }, "io.WriteString")
	reg(func(c *callCtx) *Term {
		alg := hashAlgOf(c.in, c.args[4])
		if alg == "" {
			return c.in.unknownCall(c.st, "pbkdf2.Key", c.args, c.pos, c.rt)
		}
		n, ok := c.args[3].constInt()
		args := []*Term{c.seq(0), c.seq(1), c.args[2], c.args[3]}
		if ok && n > 0 && n <= 1024 {
			return c.bytes(appVal("pbkdf2-"+alg, &Sort{kind: 'a', n: n}, args...))
		}
		return c.bytes(appVal("pbkdf2-"+alg, sortStr, args...))
	}, "golang.org/x/crypto/pbkdf2.Key")
	reg(func(c *callCtx) *Term {
		if l, ok := litOf(c.seq(0)); ok {
			return C(int64(crc32.ChecksumIEEE([]byte(l))))
		}
		return appVal("crc32", sortBits(32), c.seq(0))
	}, "hash/crc32.ChecksumIEEE")
}

// writeTo writes data to an io.Writer value.
func (c *callCtx) writeTo(w, data *Term) *Term {
	if w.op == OIte {
		return c.in.gatedCall(c.st, w, func(s *State, r *Term) *Term {
			d := *c
			d.st = s
			return d.writeTo(r, data)
		})
	}
	if w.op == OIface {
		p := w.args[0]
		switch w.str {
		case "hash":
			d := &callCtx{c.in, c.st, []*Term{p, data}, c.pos, c.rt, nil}
			return ifaceModels["hash.Write"](d)
		case "*bytes.Buffer", "*strings.Builder":
			c.in.Store(c.st, p, Concat(c.in.Load(c.st, p), data), c.pos)
			return Tuple(Len(data), tNil)
		}
		if strings.Contains(w.str, "os.File") {
			c.event("output", "writes to a file")
			return c.in.symValue(c.rt, c.st, freshName("write"))
		}
	}
	return c.in.unknownCall(c.st, "write to an unknown writer", []*Term{w}, c.pos, c.rt)
}

// ---- encodings

func unhex(s *Term) (data, ok *Term, done bool) {
	// hex of known bytes
	if s.op == OSeq {
		if l, isLit := litOf(s); isLit {
			if len(l)%2 != 0 {
				return tEmpty, tFalse, true
			}
			out := make([]byte, len(l)/2)
			for i := range out {
				v, err := strconv.ParseUint(l[2*i:2*i+2], 16, 8)
				if err != nil {
					return tEmpty, tFalse, true
				}
				out[i] = byte(v)
			}
			return Str(string(out)), tTrue, true
		}
		if len(s.args) == 1 {
			if h := hexBase(s.args[0]); h != nil {
				return h, tTrue, true
			}
		}
		// hex digits of cells
		if n, isC := constLen(s); isC && n%2 == 0 && n > 0 {
			es := elems(s)
			out := make([]*Term, n/2)
			for i := range out {
				h, o1 := hexVal(es[2*i])
				l, o2 := hexVal(es[2*i+1])
				if !o1 || !o2 {
					return nil, nil, false
				}
				out[i] = Add(Shl(h, 4), l)
			}
			return Seq(out...), tTrue, true
		}
		// several hex pieces
		var parts []*Term
		for _, g := range s.args {
			if h := hexBase(g); h != nil {
				parts = append(parts, h)
				continue
			}
			if g.op == OLit {
				d, _, done := unhex(Seq(g))
				if done && len(g.str)%2 == 0 && d.op == OSeq && len(d.args) > 0 {
					parts = append(parts, d)
					continue
				}
			}
			return nil, nil, false
		}
		return Concat(parts...), tTrue, true
	}
	return nil, nil, false
}

func hexVal(d *Term) (*Term, bool) {
	if d.op == OIte {
		ok := true
		r := lift1(d, func(x *Term) *Term {
			v, o := hexVal(x)
			if !o {
				ok = false
				return C(0)
			}
			return v
		})
		return r, ok
	}
	if d.op == OApp && d.str == "hexdigit" {
		return d.args[0], true
	}
	if k, ok := d.constInt(); ok {
		v, err := strconv.ParseUint(string(rune(k)), 16, 8)
		if err == nil {
			return C(int64(v)), true
		}
	}
	return nil, false
}

func init() {
	reg(func(c *callCtx) *Term { return HexStr(c.seq(0)) }, "encoding/hex.EncodeToString")
	reg(func(c *callCtx) *Term {
		d, _, err := c.unhexParts(c.seq(0))
		return Tuple(c.bytes(d), err)
	}, "encoding/hex.DecodeString")
	reg(func(c *callCtx) *Term { return appVal("base58", sortStr, c.seq(0)) }, "github.com/btcsuite/btcutil/base58.Encode")
	reg(func(c *callCtx) *Term {
		return c.bytes(lift1(c.seq(0), func(s *Term) *Term {
			if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OSub && s.args[0].args[0].op == OApp && s.args[0].args[0].str == "base58" {
				if w := wholeSeq(s.args[0].args[0]); w == s {
					return s.args[0].args[0].args[0]
				}
			}
			return appVal("unbase58", sortStr, s)
		}))
	}, "github.com/btcsuite/btcutil/base58.Decode")
	reg(func(c *callCtx) *Term {
		d := HashOf("dblsha256", Concat(Seq(c.args[1]), c.seq(0)))
		return appVal("base58", sortStr, Concat(Seq(c.args[1]), c.seq(0), SubSeq(d, C(0), C(4))))
	}, "github.com/btcsuite/btcutil/base58.CheckEncode")
	put := func(n int, big bool) model {
		return func(c *callCtx) *Term {
			dst, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
			c.need(Ge(c.in.SliceLen(c.st, dst), bigInt(int64(n))), "buffer too short")
			s := Cells(v, n)
			if !big {
				es := elems(s)
				for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
					es[i], es[j] = es[j], es[i]
				}
				s = Seq(es...)
			}
			c.in.writeSlice(c.st, dst, s, c.pos)
			return tNil
		}
	}
	get := func(n int, big bool) model {
		return func(c *callCtx) *Term {
			src := c.args[len(c.args)-1]
			c.need(Ge(c.in.SliceLen(c.st, src), bigInt(int64(n))), "buffer too short")
			s := SubSeqL(c.in.View(c.st, src), C(int64(n)))
			return lift1(s, func(x *Term) *Term {
				if !big {
					if _, ok := constLen(x); !ok {
						return opaque("little endian", sortBits(8*n))
					}
					es := append([]*Term(nil), elems(x)...)
					for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
						es[i], es[j] = es[j], es[i]
					}
					x = Seq(es...)
				}
				return BE(x)
			})
		}
	}
	app := func(n int) model {
		return func(c *callCtx) *Term {
			return c.in.appendTo(c.st, c.args[len(c.args)-2], Cells(c.args[len(c.args)-1], n), c.pos)
		}
	}
	for n, w := range map[int]string{2: "16", 4: "32", 8: "64"} {
		reg(put(n, true), "(encoding/binary.bigEndian).PutUint"+w)
		reg(put(n, false), "(encoding/binary.littleEndian).PutUint"+w)
		reg(get(n, true), "(encoding/binary.bigEndian).Uint"+w)
		reg(get(n, false), "(encoding/binary.littleEndian).Uint"+w)
		reg(app(n), "(encoding/binary.bigEndian).AppendUint"+w)
	}
}

func bigInt(n int64) *big.Int { return big.NewInt(n) }

// ---- bytes.Buffer, strings.Builder

func init() {
	for _, ty := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		reg(func(c *callCtx) *Term {
			c.store(0, Concat(c.load(0), Seq(c.args[1])))
			return tNil
		}, ty+".WriteByte")
		reg(func(c *callCtx) *Term {
			d := c.seq(1)
			c.store(0, Concat(c.load(0), d))
			return Tuple(Len(d), tNil)
		}, ty+".Write", ty+".WriteString")
		reg(func(c *callCtx) *Term {
			r := c.in.convert(c.st, c.args[1], types.Typ[types.Int32], types.Typ[types.String], c.pos)
			c.store(0, Concat(c.load(0), r))
			return Tuple(Len(r), tNil)
		}, ty+".WriteRune")
		reg(func(c *callCtx) *Term { return Len(c.load(0)) }, ty+".Len")
		reg(func(c *callCtx) *Term { return c.load(0) }, ty+".String")
		reg(func(c *callCtx) *Term { c.store(0, tEmpty); return tNil }, ty+".Reset")
		reg(func(c *callCtx) *Term { return tNil }, ty+".Grow")
	}
	reg(func(c *callCtx) *Term { return c.bytes(c.load(0)) }, "(*bytes.Buffer).Bytes")
	reg(func(c *callCtx) *Term { return c.fresh(c.seq(0)) }, "bytes.NewBuffer", "bytes.NewBufferString")
	reg(func(c *callCtx) *Term { return CompareSeq(c.seq(0), c.seq(1)) }, "bytes.Compare", "strings.Compare", "cmp.Compare")
	reg(func(c *callCtx) *Term { return c.bytes(repeatSeq(c.seq(0), c.args[1])) }, "bytes.Repeat")
	reg(func(c *callCtx) *Term { return c.bytes(c.seq(0)) }, "bytes.Clone")
	reg(func(c *callCtx) *Term { return c.args[0] }, "strings.Clone")
	reg(func(c *callCtx) *Term { return repeatSeq(c.seq(0), c.args[1]) }, "strings.Repeat")
	reg(func(c *callCtx) *Term { return c.bytes(trimLeftZero(c.seq(0), c.seq(1))) }, "bytes.TrimLeft")
	for _, ty := range []string{"(*bytes.Buffer)"} {
		reg(func(c *callCtx) *Term {
			d := c.load(0)
			c.store(0, tEmpty)
			d2 := &callCtx{c.in, c.st, c.args[1:], c.pos, c.rt, nil}
			return d2.writeTo(c.args[1], d)
		}, ty+".WriteTo")
	}
	reg(func(c *callCtx) *Term { return c.bytes(c.joinSeq(c.args[0], c.seq(1))) }, "bytes.Join")
}

func trimLeftZero(s, cut *Term) *Term {
	if l, ok := litOf(cut); ok && l == "\x00" {
		if n, ok := constLen(s); ok && n > 0 {
			return MinBytes(BE(s))
		}
	}
	return appVal("trimleft", sortStr, s, cut)
}

func repeatSeq(s, n *Term) *Term {
	return lift2(s, n, func(x, k *Term) *Term {
		if m, ok := k.constInt(); ok && m >= 0 && m <= 4096 {
			r := tEmpty
			if l, ok := litOf(x); ok {
				return Str(strings.Repeat(l, m))
			}
			for i := 0; i < m; i++ {
				r = Concat(r, x)
			}
			return r
		}
		return mkRep(k, 51, x, "flat")
	})
}

// ---- generic slices helpers

func init() {
	reg(func(c *callCtx) *Term { return EqSeq(c.seq(0), c.seq(1)) }, "slices.Equal")
	reg(func(c *callCtx) *Term {
		return lift1(c.args[0], func(x *Term) *Term {
			if x.op == ONil {
				return x
			}
			return c.bytes(c.in.View(c.st, x))
		})
	}, "slices.Clone")
	reg(func(c *callCtx) *Term {
		s := c.seq(0)
		n, ok := constLen(s)
		if !ok {
			return opaque("slices.Contains", sortBool)
		}
		_ = n
		r := tFalse
		for _, e := range elems(s) {
			r = Or(EqVal(e, c.args[1]), r)
		}
		return r
	}, "slices.Contains")
	reg(func(c *callCtx) *Term {
		s := c.seq(0)
		r := lift1(s, func(x *Term) *Term {
			if _, ok := constLen(x); !ok {
				return appVal("reverse", sortStr, x)
			}
			es := append([]*Term(nil), elems(x)...)
			for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
			return Seq(es...)
		})
		c.in.writeSlice(c.st, c.args[0], r, c.pos)
		return tNil
	}, "slices.Reverse")
	reg(func(c *callCtx) *Term {
		s := c.seq(0)
		r := tEmpty
		if n, ok := constLen(s); ok {
			_ = n
			for _, e := range elems(s) {
				r = Concat(r, c.in.View(c.st, e))
			}
			return c.bytes(r)
		}
		return c.in.unknownCall(c.st, "slices.Concat", c.args, c.pos, c.rt)
	}, "slices.Concat")
	reg(func(c *callCtx) *Term { return c.args[0] }, "slices.Clip", "slices.Grow")
	reg(func(c *callCtx) *Term { return c.in.symSortSlice(c) }, "sort.Slice", "sort.SliceStable")
}

// symSortSlice sorts a constant slice by evaluating its comparison.
func (in *Interp) symSortSlice(c *callCtx) *Term {
	s := c.args[0]
	if s.op == OIface {
		s = s.args[0]
	}
	view := in.View(c.st, s)
	n, ok := constLen(view)
	if !ok || s.op != OSl || c.args[1].op != OClosure {
		in.event("unmodelled", "sort of unknown contents", c.pos, c.st)
		in.writeSlice(c.st, s, opaque("sorted", sortStr), c.pos)
		return tNil
	}
	fn := c.args[1].aux.(*ssa.Function)
	es := append([]*Term(nil), elems(view)...)
	// evaluate the comparison on scratch positions 0 and 1
	undecided := false
	less := func(x, y *Term) bool {
		st := c.st.fork()
		rest := es
		_ = rest
		in.writeSlice(st, mkSl(s.args[0], s.args[1], C(2), s.args[3]), Seq(x, y), c.pos)
		v, out := in.Call(fn, []*Term{C(0), C(1)}, c.args[1].args, st)
		if out == nil || v.op != OTrue && v.op != OFalse {
			undecided = true
			return false
		}
		return v.op == OTrue
	}
	if n >= 2 {
		// a key projection, when the comparison is x.f < y.f, keeps this cheap
		sort.SliceStable(es, func(i, j int) bool { return less(es[i], es[j]) })
	}
	if undecided {
		in.event("unmodelled", "sort comparison not constant", c.pos, c.st)
	}
	in.writeSlice(c.st, s, Seq(es...), c.pos)
	return tNil
}

// ---- errors, fmt

func init() {
	reg(func(c *callCtx) *Term {
		if c.in.inInit { // each error variable is a value of its own
			return appVal("error", sortObj, c.seq(0), C(int64(c.pos.Pos())))
		}
		return appVal("error", sortObj, c.seq(0))
	}, "errors.New")
	reg(func(c *callCtx) *Term {
		f, args, ok := c.fmtArgs(0)
		if !ok {
			args = []*Term{c.seq(1)}
		}
		for i := range args {
			args[i] = c.in.boxed(c.st, args[i])
		}
		return appVal("error", sortObj, append([]*Term{Str("formatted"), f}, args...)...)
	}, "fmt.Errorf")
	reg(func(c *callCtx) *Term {
		return errIs(c.args[0], c.args[1])
	}, "errors.Is")
	reg(func(c *callCtx) *Term {
		f, args, ok := c.fmtArgs(0)
		if !ok {
			return opaque("Sprintf", sortStr)
		}
		return c.sprintf(f, args)
	}, "fmt.Sprintf")
	reg(func(c *callCtx) *Term {
		_, args, ok := c.fmtArgs(-1)
		if !ok {
			return opaque("Sprint", sortStr)
		}
		r := tEmpty
		for i, a := range args {
			s := c.fmtOne('v', a)
			if s == nil {
				return opaque("Sprint", sortStr)
			}
			if i > 0 {
				// a space goes between two operands when neither is a string
				p, pok := isStringOperand(args[i-1])
				q, qok := isStringOperand(a)
				switch {
				case pok && p || qok && q:
				case pok && qok:
					r = Concat(r, Str(" "))
				default:
					return opaque("Sprint", sortStr)
				}
			}
			r = Concat(r, s)
		}
		return r
	}, "fmt.Sprint")
	reg(func(c *callCtx) *Term {
		_, args, ok := c.fmtArgs(-1)
		if !ok {
			return opaque("Sprintln", sortStr)
		}
		r := tEmpty
		for i, a := range args {
			s := c.fmtOne('v', a)
			if s == nil {
				return opaque("Sprintln", sortStr)
			}
			if i > 0 {
				r = Concat(r, Str(" "))
			}
			r = Concat(r, s)
		}
		return Concat(r, Str("\n"))
	}, "fmt.Sprintln")
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "log.Print", "log.Println", "log.Printf"} {
		n := n
		reg(func(c *callCtx) *Term {
			c.event("output", "calls "+n)
			return c.in.symValue(c.rt, c.st, freshName(n))
		}, n)
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf"} {
		n := n
		reg(func(c *callCtx) *Term {
			c.event("panic", "calls "+n)
			c.st.pc = tFalse
			return tPoison
		}, n)
	}
}

// boxed is an interface value with references turned into what they denote.
func (in *Interp) boxed(st *State, t *Term) *Term {
	return lift1(t, func(x *Term) *Term {
		if x.op == OIface && len(x.args) == 1 {
			return intern(&Term{op: OIface, str: x.str, args: []*Term{in.flat(st, x.args[0])}, aux: x.aux})
		}
		return in.flat(st, x)
	})
}

// fmtArgs returns the format and the interface arguments of a printf call.
func (c *callCtx) fmtArgs(i int) (f *Term, args []*Term, ok bool) {
	if i >= 0 {
		f = c.args[i]
	}
	v := c.seq(i + 1)
	if v.op != OSeq {
		return f, nil, false
	}
	if _, isC := constLen(v); !isC {
		return f, nil, false
	}
	return f, elems(v), true
}

func (c *callCtx) sprintf(f *Term, args []*Term) *Term {
	l, ok := litOf(f)
	if !ok {
		return lift1(f, func(x *Term) *Term {
			if _, ok := litOf(x); ok {
				return c.sprintf(x, args)
			}
			return opaque("format", sortStr)
		})
	}
	r := tEmpty
	k := 0
	for i := 0; i < len(l); {
		j := strings.IndexByte(l[i:], '%')
		if j < 0 {
			r = Concat(r, Str(l[i:]))
			break
		}
		r = Concat(r, Str(l[i:i+j]))
		i += j + 1
		if i >= len(l) {
			return opaque("format", sortStr)
		}
		// flags and width: only plain verbs and zero padded hex
		spec := ""
		for i < len(l) && (l[i] >= '0' && l[i] <= '9' || l[i] == '#' || l[i] == '+' || l[i] == '-' || l[i] == ' ') {
			spec += string(l[i])
			i++
		}
		if i >= len(l) {
			return opaque("format", sortStr)
		}
		verb := l[i]
		i++
		if verb == '%' && spec == "" {
			r = Concat(r, Str("%"))
			continue
		}
		if k >= len(args) {
			return opaque("format arguments", sortStr)
		}
		a := args[k]
		k++
		s := c.fmtSpec(spec, verb, a)
		if s == nil {
			return opaque("format %"+spec+string(verb), sortStr)
		}
		r = Concat(r, s)
	}
	if k != len(args) {
		return opaque("format arguments", sortStr)
	}
	return r
}

func (c *callCtx) fmtSpec(spec string, verb byte, a *Term) *Term {
	if spec == "" {
		return c.fmtOne(verb, a)
	}
	if a.op == OIface && (verb == 'x' || verb == 'X') {
		v := a.args[0]
		if spec == "#" && verb == 'x' {
			if r := c.fmtOne(verb, a); r != nil && v.isInt() {
				return Concat(Str("0x"), r)
			}
		}
		if n, err := strconv.Atoi(spec); err == nil && spec[0] == '0' && v.isInt() && v.op != OIte && verb == 'x' {
			if v.hi != nil && v.lo != nil && v.lo.Sign() >= 0 && v.hi.BitLen() <= 4*n && n%2 == 0 {
				return HexStr(Cells(v, n/2))
			}
		}
		if n, err := strconv.Atoi(spec); err == nil && v.isInt() {
			return appVal("fmtpad"+string(verb), sortStr, v, C(int64(n)))
		}
	}
	if a.op == OIface && verb == 'd' && a.args[0].isInt() {
		return appVal("fmtpad"+spec, sortStr, a.args[0])
	}
	return nil
}

// isStringOperand tells whether an operand of fmt.Sprint is of a string kind,
// and whether that is known.
func isStringOperand(a *Term) (bool, bool) {
	if a.op == OIte {
		p, pok := isStringOperand(a.args[1])
		q, qok := isStringOperand(a.args[2])
		return p, pok && qok && p == q
	}
	t, _ := a.aux.(types.Type)
	if a.op != OIface || t == nil {
		return false, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0, true
}

func (c *callCtx) fmtOne(verb byte, a *Term) *Term {
	if a.op == OIte {
		ok := true
		r := lift1(a, func(x *Term) *Term {
			s := c.fmtOne(verb, x)
			if s == nil {
				ok = false
				return tEmpty
			}
			return s
		})
		if !ok {
			return nil
		}
		return r
	}
	if a.op != OIface {
		return nil
	}
	v := live(c.st, a.args[0])
	t, _ := a.aux.(types.Type)
	if v.op == OIte && !v.isInt() && !v.isBool() && !isSeq(v) {
		// the cases of a reference
		return c.fmtOne(verb, lift1(v, func(x *Term) *Term {
			return intern(&Term{op: OIface, str: a.str, args: []*Term{x}, aux: a.aux})
		}))
	}
	if t != nil && hasFormat(c.in.prog, t) {
		return nil
	}
	// Stringer and error methods take precedence for the verbs of text
	if (verb == 's' || verb == 'v' || verb == 'x' || verb == 'X' || verb == 'q') && t != nil {
		for _, m := range []string{"Error", "String"} {
			sel := c.in.prog.ssa.MethodSets.MethodSet(t).Lookup(nil, m)
			if sel == nil {
				continue
			}
			if sg, ok := sel.Type().(*types.Signature); !ok || sg.Params().Len() != 0 || sg.Results().Len() != 1 || sg.Results().At(0).Type() != types.Typ[types.String] {
				continue
			}
			if fn := c.in.prog.ssa.MethodValue(sel); fn != nil && fn.Blocks != nil {
				r := c.in.callFn(c.st, fn, []*Term{v}, nil, c.pos, types.Typ[types.String])
				switch verb {
				case 'x':
					return HexStr(r)
				case 'q':
					return appVal("quoted", sortStr, r)
				case 'X':
					return nil
				}
				return r
			}
			return nil
		}
	}
	switch {
	case (verb == 's' || verb == 'v') && isSeq(v) && t != nil && isStringT(t):
		return v
	case (verb == 'd' || verb == 'v') && v.isInt():
		return DecStr(v)
	case verb == 'x':
		switch {
		case v.isInt():
			return hexInt(v)
		case isSeq(v) || v.op == OSl || v.op == ONil:
			s := v
			if !isSeq(v) {
				s = c.in.View(c.st, v)
			}
			return HexStr(s)
		}
	case verb == 'c' && v.isInt():
		return c.in.convert(c.st, v, types.Typ[types.Int32], types.Typ[types.String], c.pos)
	case verb == 't' || verb == 'v' && v.isBool():
		return Ite(v, Str("true"), Str("false"))
	case verb == 'q' && isSeq(v):
		return appVal("quoted", sortStr, v)
	}
	return nil
}

// hasFormat: values of type t format themselves.
func hasFormat(p *Prog, t types.Type) bool {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, "Format")
	if sel == nil {
		return false
	}
	sg, ok := sel.Type().(*types.Signature)
	return ok && sg.Params().Len() == 2 && sg.Params().At(0).Type().String() == "fmt.State"
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func hexInt(v *Term) *Term {
	return lift1(v, func(x *Term) *Term {
		if x.isConst() {
			return Str(x.num.Text(16))
		}
		return wholeSeq(rawApp("hexint", sortStr, x))
	})
}

// DecStr is the decimal text of an integer.
func DecStr(v *Term) *Term {
	return lift1(v, func(x *Term) *Term {
		if x.isConst() {
			return Str(x.num.String())
		}
		return wholeSeq(rawApp("dec", &Sort{kind: 's', elem: byteSort, lo: big1}, x))
	})
}

// ---- sequences of text properties

// allElems reports whether every byte the sequence can contain satisfies p
// (over-approximated); p is given as a byte class.
func allElems(s *Term, p func(b byte) bool) bool {
	if s.op == OIte {
		return allElems(s.args[1], p) && allElems(s.args[2], p)
	}
	if s.op != OSeq {
		return false
	}
	for _, g := range s.args {
		switch g.op {
		case OLit:
			for i := 0; i < len(g.str); i++ {
				if !p(g.str[i]) {
					return false
				}
			}
		case OSub:
			b := g.args[0]
			if b.op != OApp {
				return false
			}
			cs := byteClass(b)
			if cs == nil {
				return false
			}
			for i := 0; i < len(cs); i++ {
				if !p(cs[i]) {
					return false
				}
			}
		case ORep:
			body := g.args[1]
			if g.str == "" {
				if !elemClass(body, p) {
					return false
				}
				continue
			}
			if !allElems(body, p) {
				return false
			}
		case OFill:
			if !elemClass(g.args[0], p) {
				return false
			}
		case OMin:
			return false
		default:
			if !elemClass(g, p) {
				return false
			}
		}
	}
	return true
}

func elemClass(e *Term, p func(b byte) bool) bool {
	if e.op == OIte {
		return elemClass(e.args[1], p) && elemClass(e.args[2], p)
	}
	if e.isConst() {
		return e.num.IsInt64() && e.num.Int64() >= 0 && e.num.Int64() < 256 && p(byte(e.num.Int64()))
	}
	if e.op == OApp && e.str == "hexdigit" {
		return classAll("0123456789abcdef", p)
	}
	if e.op == OApp && e.str == "at" && len(e.args) == 2 {
		if cs := byteClass(e.args[0]); cs != nil {
			return classAll(string(cs), p)
		}
	}
	return false
}

func classAll(cs string, p func(b byte) bool) bool {
	for i := 0; i < len(cs); i++ {
		if !p(cs[i]) {
			return false
		}
	}
	return true
}

// byteClass lists the bytes a library text may contain, nil if any.
func byteClass(b *Term) []byte {
	switch b.str {
	case "dec":
		return []byte("0123456789-")
	case "digits":
		return []byte("0123456789")
	case "hex", "hexint":
		return []byte("0123456789abcdef-")
	case "base58":
		return []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
	case "stripws":
		var out []byte
		for i := 0; i < 256; i++ {
			if !isWS(byte(i)) {
				out = append(out, byte(i))
			}
		}
		return out
	}
	return nil
}

// isWS is the regexp class \s.
func isWS(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\f' || b == '\r' }

// stripWS removes the regexp class \s from text.
func stripWS(s *Term) *Term {
	return lift1(s, func(x *Term) *Term {
		if x.op != OSeq {
			return opaque("text", sortStr)
		}
		r := tEmpty
		for _, g := range x.args {
			one := Seq(g)
			switch {
			case g.op == OLit:
				var sb strings.Builder
				for i := 0; i < len(g.str); i++ {
					if !isWS(g.str[i]) {
						sb.WriteByte(g.str[i])
					}
				}
				r = Concat(r, Str(sb.String()))
			case allElems(one, func(b byte) bool { return !isWS(b) }):
				r = Concat(r, one)
			case g.op == ORep && g.str == "flat":
				r = Concat(r, mkRep(g.args[0], g.a, stripWS(g.args[1]), "flat"))
			case g.op == OSub && g.args[0].op == OApp && g.args[0].str == "stripws":
				r = Concat(r, one)
			case g.op == OSub && wholeSeq(g.args[0]) == one:
				r = Concat(r, wholeSeq(rawApp("stripws", sortStr, g.args[0])))
			default:
				r = Concat(r, wholeSeq(rawApp("stripws", sortStr, seqBase(one))))
			}
		}
		return r
	})
}

func isUnicodeSpace(r rune) bool { return unicode.IsSpace(r) }

func init() {
	reAppTab["stripws"] = func(xs []*Term) *Term {
		return lift1(xs[0], func(x *Term) *Term {
			if x.op == OApp {
				x = wholeSeq(x)
			}
			r := stripWS(x)
			return lift1(r, func(y *Term) *Term {
				if y.op == OSeq && len(y.args) == 1 && y.args[0].op == OSub && wholeSeq(y.args[0].args[0]) == y {
					return y.args[0].args[0]
				}
				return y
			})
		})
	}
}
