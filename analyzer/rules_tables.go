package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Registries: the values package initialisation leaves in the exported tables.

// global is the value an exported variable has after start-up.
func (c *Check) global(in *Interp, name string) *Term {
	pkg, v, _ := strings.Cut(name, ".")
	p := c.p.by[modPath+"/"+pkg]
	if p == nil {
		c.stop("anchor", name, "the package does not exist")
	}
	g, ok := p.Members[v].(*ssa.Global)
	if !ok {
		c.stop("anchor", name, "the exported variable the property is about does not exist")
	}
	in.ensureInit(p)
	for f := range in.fnsSeen {
		c.fns[fnName(f)] = true
	}
	c.fns[fnName(p.Func("init"))] = true
	for _, e := range in.events {
		if e.Kind == "init" {
			c.ok(false, "initialisation", name, e.What)
		}
	}
	return in.Load(newState(tTrue), ptrTo(in.globalObj(g, nil)))
}

// fixed: only initialisation writes the variable.
func (c *Check) fixed(names ...string) {
	e := effectsOf(c.p)
	for _, n := range names {
		bad := ""
		for g := range e.state {
			if g.Pkg != nil && strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/")+"."+g.Name() == n {
				bad = "written after start-up"
				for _, s := range e.sites[g] {
					bad += " at " + c.p.Pos(s.Pos())
				}
			}
		}
		c.ok(bad == "", "the table does not change after start-up", n, bad)
	}
}

func fieldIndex(c *Check, pkg, typ string) map[string]int {
	p := c.p.by[modPath+"/"+pkg]
	t := p.Type(typ)
	if t == nil {
		c.stop("anchor", pkg+"."+typ, "the type does not exist")
	}
	s, ok := under(t.Type()).(*types.Struct)
	if !ok {
		c.stop("anchor", pkg+"."+typ, "not a struct")
	}
	m := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		m[s.Field(i).Name()] = i
	}
	return m
}

// rec is one table entry with constant fields.
type rec struct {
	num map[string]uint64
	str map[string]string
	bad string
}

func (c *Check) record(in *Interp, idx map[string]int, t *Term) rec {
	r := rec{num: map[string]uint64{}, str: map[string]string{}}
	t = in.flat(newState(tTrue), t)
	if t.op != OStruct {
		r.bad = "not a constant: " + short(t.String(), 200)
		return r
	}
	for n, i := range idx {
		v := t.args[i]
		if v.op == ONil {
			v = tEmpty
		}
		switch {
		case v.op == OConst:
			r.num[n] = v.num.Uint64()
		case isSeq(v):
			if s, ok := litOf(v); ok {
				r.str[n] = s
				break
			}
			k, ok := constLen(v)
			if !ok {
				r.bad = n + " is no constant"
				break
			}
			var xs []string
			es := elems(v)
			for j := 0; j < k; j++ {
				s, ok := litOf(es[j])
				if !ok {
					r.bad = n + " is no constant"
				}
				xs = append(xs, s)
			}
			r.str[n] = strings.Join(xs, ",")
		default:
			r.bad = n + " is no constant: " + short(v.String(), 100)
		}
	}
	return r
}

func (r rec) key() string {
	var ks []string
	for k, v := range r.num {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	for k, v := range r.str {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ") + r.bad
}

// listOf decodes a constant slice of table entries.
func (c *Check) listOf(in *Interp, idx map[string]int, t *Term, what string) []rec {
	v := in.View(newState(tTrue), t)
	n, ok := constLen(v)
	if !ok {
		c.stop("constant table", what, "its contents cannot be determined: "+short(v.String(), 300))
	}
	es := elems(v)
	var out []rec
	for i := 0; i < n; i++ {
		r := c.record(in, idx, es[i])
		if r.bad != "" {
			c.stop("constant table", what, fmt.Sprintf("entry %d %s", i, r.bad))
		}
		out = append(out, r)
	}
	return out
}

// mapOf decodes a constant map.
func (c *Check) mapOf(in *Interp, t *Term, what string) (ks, vs []*Term) {
	log := t
	if t.op == OPtr {
		log = in.Load(newState(tTrue), t)
	}
	ks, vs, ok := mapEntries(log)
	if !ok {
		c.stop("constant table", what, "its contents cannot be determined: "+short(log.String(), 300))
	}
	return
}

func keyStr(t *Term) string {
	if t.op == OConst {
		return t.num.String()
	}
	s, _ := litOf(t)
	return s
}

func bag(rs []rec) map[string]int {
	m := map[string]int{}
	for _, r := range rs {
		m[r.key()]++
	}
	return m
}

// sameBag compares two collections regardless of order.
func (c *Check) sameBag(got, want []rec, ruleName, construct string) {
	g, w := bag(got), bag(want)
	bad := 0
	say := func(d string) {
		if bad++; bad <= 5 {
			c.ok(false, ruleName, construct, d)
		}
	}
	for k, n := range w {
		if g[k] < n {
			say("lacks " + k)
		}
	}
	for k, n := range g {
		if w[k] < n {
			say("holds unexpected " + k)
		}
	}
	if bad == 0 {
		c.ok(true, ruleName, construct, "")
	}
}

func (e verEntry) rec() rec {
	return rec{num: map[string]uint64{"PvtKeyFlag": e.prv, "PubKeyFlag": e.pub},
		str: map[string]string{"Coin": e.coin, "PvKeyPrefix": e.prvPx, "PubKeyPrefix": e.pubPx, "AddrEncodings": strings.Join(e.encs, ","), "Path": e.path}}
}

var verFields = []string{"Coin", "PvtKeyFlag", "PvKeyPrefix", "PubKeyFlag", "PubKeyPrefix", "AddrEncodings", "Path"}

func (c *Check) fields(pkg, typ string, want []string) map[string]int {
	idx := fieldIndex(c, pkg, typ)
	out := map[string]int{}
	for _, f := range want {
		i, ok := idx[f]
		if !ok {
			c.stop("anchor", pkg+"."+typ+"."+f, "the field does not exist")
		}
		out[f] = i
	}
	return out
}

// registry reads the entries registered by path.
func (c *Check) registry(in *Interp, idx map[string]int) (all []rec, byPath map[string][]rec) {
	ks, vs := c.mapOf(in, c.global(in, "bip32.PathToHDBytesSlice"), "bip32.PathToHDBytesSlice")
	byPath = map[string][]rec{}
	for i, k := range ks {
		rs := c.listOf(in, idx, vs[i], "bip32.PathToHDBytesSlice["+keyStr(k)+"]")
		byPath[keyStr(k)] = append(byPath[keyStr(k)], rs...)
		all = append(all, rs...)
	}
	return
}

func init() {
	rules["C11"] = &rule{level: "proof", tech: "constant evaluation of package initialisation over SSA: every registered version entry is compared, field by field, with the pinned SLIP-0132 table", run: checkC11,
		base: []string{"the SLIP-0132 table in analyzer/data, a pinned copy of the document the repository ships"}}
	rules["C12"] = &rule{noMaps: true, level: "proof", tech: "constant evaluation of package initialisation under both orders of ranging over maps: each index is compared with the registered entries grouped by the key's defining value; gated value-flow analysis of the value accessors for an arbitrary path", run: checkC12}
	rules["C21"] = &rule{level: "proof", tech: "constant evaluation of package initialisation: the ten lists are compared, by SHA-256 of their words in order, with the published ones", run: checkC21,
		base: []string{"SHA-256 digests of the ten published BIP39 lists, pinned in the analyser"}}
	rules["C31"] = &rule{level: "proof", tech: "constant evaluation of package initialisation: every coin row and every lookup map entry is compared with the pinned SLIP-0044 table; gated value-flow analysis of Coin.IsValid for an arbitrary coin", run: checkC31,
		base: []string{"the SLIP-0044 table in analyzer/data, a pinned copy of the document the repository ships"}}
}

func checkC11(c *Check) {
	in := c.interp()
	idx := c.fields("bip32", "VersionBytes", verFields)
	var want []rec
	for _, e := range slip132() {
		want = append(want, e.rec())
	}
	all, byPath := c.registry(in, idx)
	c.extra["entries"] = len(all)
	c.extra["table_lines"] = len(want)
	c.sameBag(all, want, "registered entries are the lines of SLIP-0132", "bip32.PathToHDBytesSlice")
	for p, rs := range byPath {
		for _, r := range rs {
			c.ok(r.str["Path"] == p, "an entry is filed under its own path", "bip32.PathToHDBytesSlice["+p+"]", "holds "+r.key())
		}
	}
	flat := c.listOf(in, idx, c.global(in, "bip32.HDVersionBytesSlice"), "bip32.HDVersionBytesSlice")
	c.sameBag(flat, want, "the flat list holds the lines of SLIP-0132", "bip32.HDVersionBytesSlice")
	// private and public numbers determine each other
	pub, prv := map[uint64]uint64{}, map[uint64]uint64{}
	for _, r := range all {
		a, b := r.num["PvtKeyFlag"], r.num["PubKeyFlag"]
		if x, ok := pub[a]; ok {
			c.ok(x == b, "a private version has one public version", fmt.Sprintf("0x%08x", a), r.key())
		}
		if x, ok := prv[b]; ok {
			c.ok(x == a, "a public version has one private version", fmt.Sprintf("0x%08x", b), r.key())
		}
		pub[a], prv[b] = b, a
	}
	// named entries
	p := c.p.by[modPath+"/bip32"]
	vt := p.Type("VersionBytes").Type()
	known := bag(want)
	for _, n := range sortedMembers(p) {
		g, ok := p.Members[n].(*ssa.Global)
		if !ok || !g.Object().Exported() || !types.Identical(g.Type().(*types.Pointer).Elem(), vt) {
			continue
		}
		r := c.record(in, idx, c.global(in, "bip32."+n))
		c.ok(r.bad == "" && known[r.key()] > 0, "a named entry is a line of SLIP-0132", "bip32."+n, r.key())
	}
	def := func(name string, prv, pub uint64, path string) {
		r := c.record(in, idx, c.global(in, name))
		c.ok(r.num["PvtKeyFlag"] == prv && r.num["PubKeyFlag"] == pub && r.str["Path"] == path, "default versions", name, r.key())
	}
	def("bip32.DefaultMainnetVersion", mainPrv, mainPub, "m/44'/0'")
	def("bip32.DefaultTestnetVersion", 0x04358394, 0x043587cf, "m/44'/1'")
	c.fixed("bip32.PathToHDBytesSlice", "bip32.HDVersionBytesSlice", "bip32.DefaultMainnetVersion", "bip32.DefaultTestnetVersion")
}

func sortedMembers(p *ssa.Package) []string {
	var out []string
	for n, m := range p.Members {
		if m.Object() == nil {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func checkC12(c *Check) {
	idx := c.fields("bip32", "VersionBytes", verFields)
	comp := func(r rec, i int) uint64 {
		var a, b uint64
		fmt.Sscanf(r.str["Path"], "m/%d'/%d'", &a, &b)
		if i == 0 {
			return a
		}
		return b
	}
	indexes := []struct {
		name string
		key  func(r rec) uint64
	}{
		{"bip32.PvtFlagToHDBytesSlice", func(r rec) uint64 { return r.num["PvtKeyFlag"] }},
		{"bip32.PubFlagToHDBytesSlice", func(r rec) uint64 { return r.num["PubKeyFlag"] }},
		{"bip32.PurposeToHDBytesSlice", func(r rec) uint64 { return comp(r, 0) }},
		{"bip32.PurposeFullToHDBytesSlice", func(r rec) uint64 { return comp(r, 0) + 1<<31 }},
		{"bip32.CoinTypeToHDBytesSlice", func(r rec) uint64 { return comp(r, 1) }},
	}
	for _, rev := range []bool{false, true} {
		in := NewInterp(c.p)
		in.reverse = rev
		c.in = in
		order := fmt.Sprintf(" (map order %v)", rev)
		all, _ := c.registry(in, idx)
		flat := c.listOf(in, idx, c.global(in, "bip32.HDVersionBytesSlice"), "bip32.HDVersionBytesSlice")
		c.sameBag(flat, all, "the flat list holds every registered entry once", "bip32.HDVersionBytesSlice"+order)
		for _, ix := range indexes {
			want := map[string][]rec{}
			for _, r := range all {
				k := fmt.Sprint(ix.key(r))
				want[k] = append(want[k], r)
			}
			ks, vs := c.mapOf(in, c.global(in, ix.name), ix.name)
			seen := map[string]bool{}
			for i, k := range ks {
				seen[keyStr(k)] = true
				at := ix.name + "[" + keyStr(k) + "]" + order
				c.sameBag(c.listOf(in, idx, vs[i], at), want[keyStr(k)], "an index entry holds exactly the entries with that value", at)
			}
			for k := range want {
				c.ok(seen[k], "every value of an entry is a key of the index", ix.name+"["+k+"]"+order, "missing")
			}
		}
	}
	c.fixed("bip32.PathToHDBytesSlice", "bip32.HDVersionBytesSlice", "bip32.PvtFlagToHDBytesSlice", "bip32.PubFlagToHDBytesSlice", "bip32.PurposeToHDBytesSlice", "bip32.PurposeFullToHDBytesSlice", "bip32.CoinTypeToHDBytesSlice")
	c.accessors()
}

// accessors: the numbers in the two-level path of an arbitrary entry.
func (c *Check) accessors() {
	in := c.interp()
	in.ensureInit(c.p.by[modPath+"/bip32"])
	idx := c.fields("bip32", "VersionBytes", verFields)
	vt := c.p.by[modPath+"/bip32"].Type("VersionBytes").Type()
	st := newState(tTrue)
	h := in.symValue(vt, st, "h")
	raw := h.args[idx["Path"]]
	path := stripWS(raw)
	good := inLang(`^m/\d{0,8}'/\d{0,8}'$`, path)
	for _, q := range []struct {
		name string
		i    int64
		add  int64
	}{{"PurposeVal", 1, 0}, {"PurposeValFull", 1, 1 << 31}, {"CoinVal", 2, 0}, {"CoinValFull", 2, 1 << 31}} {
		f := c.fn("(bip32.VersionBytes)." + q.name)
		s := st.fork()
		r := c.run(in, f, s, h)
		at := c.at(f)
		c.returns(r, "any path")
		curPC = good
		digits, _ := pathComponent(path, "/", C(q.i))
		other, _ := pathComponent(path, "/", C(3-q.i))
		val := decVal(digits)
		curPC = tTrue
		has := Ge(Len(wholeSeq(digits)), big1)
		// an entry that lacks only the number not asked for is left open
		care := Or(Not(good), Not(has), And(good, has, Ge(Len(wholeSeq(other)), big1)))
		c.iff(And(r.assume, care), IsNil(r.part(1)), And(good, has), "fails exactly for malformed paths", at)
		c.same(And(r.assume, IsNil(r.part(1)), good, has), r.part(0), Add(val, C(q.add)), "the number in the path", at)
	}
	for _, q := range []struct{ name, f string }{{"PvtKeyFlagBytes", "PvtKeyFlag"}, {"PubKeyFlagBytes", "PubKeyFlag"}} {
		f := c.fn("(bip32.VersionBytes)." + q.name)
		r := c.run(in, f, st.fork(), h)
		c.returns(r, "any entry")
		c.same(r.assume, in.flat(r.st, r.val), Cells(h.args[idx[q.f]], 4), "version number in four big-endian bytes", c.at(f))
	}
	f := c.fn("(bip32.VersionBytes).IsRegistered")
	r := c.run(in, f, st.fork(), h)
	c.returns(r, "any entry")
	want := tFalse
	for _, p := range regPaths(c, in, idx) {
		want = Or(want, EqSeq(path, Str(p)))
	}
	c.iff(r.assume, r.val, want, "registered exactly when the path is", c.at(f))
}

func regPaths(c *Check, in *Interp, idx map[string]int) []string {
	_, m := c.registry(in, idx)
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// sums of the published lists: words joined and ended by line feeds.
var listSums = map[string]string{
	"ChineseSimplified":  "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
	"ChineseTraditional": "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f",
	"Czech":              "7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc",
	"English":            "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
	"French":             "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59",
	"Italian":            "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2",
	"Japanese":           "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
	"Korean":             "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60",
	"Portuguese":         "2685e9c194c82ae67e10ba59d9ea5345a23dc093e92276fc5361f6667d79cd3f",
	"Spanish":            "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b",
}

func checkC21(c *Check) {
	in := c.interp()
	in.keepState = true
	p := c.p.by[modPath+"/bip39/wordlists"]
	if p == nil {
		c.stop("anchor", "bip39/wordlists", "the package does not exist")
	}
	in.ensureInit(p)
	var names []string
	for n := range listSums {
		names = append(names, n)
	}
	sort.Strings(names)
	total := 0
	for _, n := range names {
		at := "bip39/wordlists." + n
		v := in.View(newState(tTrue), c.global(in, at))
		k, ok := constLen(v)
		if !ok {
			c.stop("constant list", at, "its contents cannot be determined")
		}
		c.ok(k == 2048, "2048 words", at, fmt.Sprint(k, " words"))
		seen := map[string]int{}
		var sb strings.Builder
		for i, e := range elems(v) {
			w, ok := litOf(e)
			if !ok {
				c.ok(false, "constant list", fmt.Sprintf("%s[%d]", at, i), "no constant")
				continue
			}
			if j, dup := seen[w]; dup {
				c.ok(false, "words are distinct", fmt.Sprintf("%s[%d]", at, i), fmt.Sprintf("%q is also word %d", w, j))
			}
			if w == "" || strings.IndexFunc(w, isUnicodeSpace) >= 0 {
				c.ok(false, "words are non-empty and hold no white space", fmt.Sprintf("%s[%d]", at, i), fmt.Sprintf("%q", w))
			}
			seen[w] = i
			sb.WriteString(w + "\n")
			total++
		}
		sum := fmt.Sprintf("%x", sha256.Sum256([]byte(sb.String())))
		c.ok(sum == listSums[n], "the words are those of the published list, in order", at, "SHA-256 of the words is "+sum)
	}
	c.extra["words"] = total
	var fixed []string
	for _, n := range names {
		fixed = append(fixed, "bip39/wordlists."+n)
	}
	c.fixed(fixed...)
	// start-up selection
	f, g := c.fn("bip39.GetWordList"), c.fn("bip39.GetWordIndex")
	for v, ws := range effectsOf(c.p).startups() {
		if v.Pkg == f.Pkg || v.Pkg == p {
			c.ok(false, "English is active at start-up", v.Pkg.Pkg.Path()+"."+v.Name(), strings.Join(ws, "; "))
		}
	}
	in.ensureInit(f.Pkg)
	r := c.run(in, f, newState(tTrue))
	c.returns(r, "at start-up")
	eng := in.View(newState(tTrue), c.global(in, "bip39/wordlists.English"))
	c.same(tTrue, in.flat(r.st, r.bytesOf(r.val)), in.flat(newState(tTrue), eng), "English is active at start-up", c.at(f))
	for i, e := range elems(eng) {
		if i%97 != 0 && i != 2047 {
			continue
		}
		r := c.run(in, g, newState(tTrue), e)
		c.ok(r.part(0) == C(int64(i)) && r.part(1).op == OTrue, "an English word looks up to its position at start-up", c.at(g)+" "+e.String(), r.val.String())
	}
}

func checkC31(c *Check) {
	in := c.interp()
	idx := c.fields("bip44", "Coin", []string{"Type", "PathComponent", "Symbol", "Name"})
	coins := c.listOf(in, idx, c.global(in, "bip44.RegCoins"), "bip44.RegCoins")
	table := map[uint64]coinEntry{}
	for _, e := range slip44() {
		if (e.name != "" || e.symbol != "") && e.name != "reserved" {
			table[e.comp] = e
		}
	}
	c.extra["coins"] = len(coins)
	c.extra["table_lines"] = len(table)
	types_, comps, names := map[uint64]int{}, map[uint64]int{}, map[string]int{}
	for _, r := range coins {
		t, p := r.num["Type"], r.num["PathComponent"]
		at := fmt.Sprintf("bip44.RegCoins path component 0x%08x", p)
		e, ok := table[p]
		c.ok(ok && e.symbol == r.str["Symbol"] && e.name == r.str["Name"], "symbol and name are those of SLIP-0044", at, fmt.Sprintf("%s; the table says %+v", r.key(), e))
		c.ok(t == p-1<<31 && t < 1<<31, "type is the path component minus 2^31", at, r.key())
		types_[t]++
		comps[p]++
		names[r.str["Name"]]++
		c.ok(types_[t] == 1 && comps[p] == 1, "types and path components are unique", at, r.key())
	}
	for p, e := range table {
		c.ok(comps[p] > 0, "no live table line is missing", fmt.Sprintf("bip44.RegCoins path component 0x%08x", p), fmt.Sprintf("%+v", e))
	}
	for _, m := range []struct {
		name string
		key  func(r rec) string
		dup  map[string]int
	}{
		{"bip44.RegBip44CoinsTypeToValMap", func(r rec) string { return fmt.Sprint(r.num["Type"]) }, nil},
		{"bip44.RegBip44CoinsPathCompToValMap", func(r rec) string { return fmt.Sprint(r.num["PathComponent"]) }, nil},
		{"bip44.RegBip44CoinsNameToValMap", func(r rec) string { return r.str["Name"] }, names},
	} {
		want := map[string]map[string]bool{}
		for _, r := range coins {
			k := m.key(r)
			if want[k] == nil {
				want[k] = map[string]bool{}
			}
			want[k][r.key()] = true
		}
		ks, vs := c.mapOf(in, c.global(in, m.name), m.name)
		got := map[string]bool{}
		for i, k := range ks {
			r := c.record(in, idx, vs[i])
			got[keyStr(k)] = true
			c.ok(want[keyStr(k)][r.key()], "a lookup finds the coin registered under the key", m.name+"["+keyStr(k)+"]", "holds "+r.key())
		}
		for k := range want {
			c.ok(got[k], "every coin is found", m.name+"["+k+"]", "missing")
		}
	}
	c.fixed("bip44.RegCoins", "bip44.RegBip44CoinsTypeToValMap", "bip44.RegBip44CoinsPathCompToValMap", "bip44.RegBip44CoinsNameToValMap")
	// validity of an arbitrary coin
	f := c.fn("(bip44.Coin).IsValid")
	st := newState(tTrue)
	v := in.symValue(c.p.by[modPath+"/bip44"].Type("Coin").Type(), st, "coin")
	r := c.run(in, f, st, v)
	c.returns(r, "any coin")
	t, p := v.args[idx["Type"]], v.args[idx["PathComponent"]]
	blank := func(n string) *Term { return Eq(Len(trimSpace(v.args[idx[n]])), C(0)) }
	want := And(Not(And(blank("Name"), blank("Symbol"))), Not(Ge(t, pow2(31))), Eq(Add(t, CB(pow2(31))), p))
	c.iff(r.assume, r.val, want, "valid exactly when named and the path component is type + 2^31", c.at(f))
}
