#!/usr/bin/env python3
"""Fifth batch of behaviour-preserving edits: language features (generics, closures, method values,
iterators, defers, gotos, labelled loops, recursion, embedded helpers, new internal types)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
B, U, P, G, M, T, K, C, CS = 'bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go', 'util/util.go', 'util/key_path.go', 'bip44/coin.go', 'bip44/coins.go'
REPO = os.environ.get('REPO', '/repo')
def fn(sig, path):
    s = open(REPO + '/' + path).read()
    i = s.index('func ' + sig)
    return s[i:s.index('\n}\n', i) + 3]
def imp(path, *names): return (path, 'import (\n', 'import (\n' + ''.join('\t"%s"\n' % n for n in names))
def noimp(path, n): return (path, '\t"%s"\n' % n, '')
def f(name, path, sig, new, *more): R.append((name, [(path, fn(sig, path), new)] + list(more)))
def ff(name, *edits): R.append((name, list(edits)))
def e(path, sig, new): return (path, fn(sig, path), new)

# ---- generics
ff('e-generic-slice-helper', e(B, '(key *Key) GetChainCode()', '''func field[T any](key *Key, from, to int, conv func([]byte) T) T {
	return conv(key[from:to])
}

func (key *Key) GetChainCode() ChainCode {
	return field(key, ChainCodeStartIndex, ChainCodeEndIndex, func(b []byte) ChainCode { return ChainCode(b) })
}
'''), e(B, '(key *Key) GetFingerPrint()', '''func (key *Key) GetFingerPrint() FingerPrint {
	return field(key, FingerPrintStartIndex, FingerPrintEndIndex, func(b []byte) FingerPrint { return FingerPrint(b) })
}
'''))
ff('e-generic-first', e(B, '(key *Key) PublicKeyExtended()', '''func first[K comparable, V any](m map[K][]V, k K) (v V, ok bool) {
	if vs := m[k]; len(vs) > 0 {
		return vs[0], true
	}
	return v, false
}

func (key *Key) PublicKeyExtended() Key {
	extended := *key
	version := key.GetVersion()
	if !key.IsPrivate() {
		if _, ok := first(PubFlagToHDBytesSlice, version); !ok {
			extended.SetVersion(DefaultMainnetVersion.PubKeyFlagBytes())
		}
		return extended
	}
	entry, ok := first(PvtFlagToHDBytesSlice, version)
	if !ok {
		entry = DefaultMainnetVersion
	}
	extended.SetVersion(entry.PubKeyFlagBytes())
	extended.setPubKeyBytes(KeyBytes(publicKeyForPrivateKey(key[PvtKeyStartIndex:])))
	return extended
}
'''))
f('e-generic-pad', M, 'padByteSlice(', '''func padByteSlice(slice []byte, length int) []byte {
	return leftPad(slice, length)
}

func leftPad[S ~[]E, E any](s S, n int) S {
	if n <= len(s) {
		return s
	}
	out := make(S, n)
	copy(out[n-len(s):], s)
	return out
}
''')
# ---- closures, method values, function tables
ff('e-closure-appender', e(T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := []KeyPath{{Path: "m", Key: *root}}
	step := func(v uint32) error {
		last := &result[len(result)-1]
		child, err := last.Key.NewChildKey(v)
		if err != nil {
			return err
		}
		suffix := ""
		if v >= bip32.FirstHardenedChild {
			v -= bip32.FirstHardenedChild
			suffix = "'"
		}
		result = append(result, KeyPath{Path: Path(fmt.Sprintf("%s/%d%s", last.Path, v, suffix)), Key: child})
		return nil
	}
	for _, v := range items[1:] {
		if err := step(v); err != nil {
			return nil, err
		}
	}
	return result, nil
}
'''))
f('e-func-table', T, 'GenerateMnemonic(', '''func GenerateMnemonic(wordsCount byte) (string, error) {
	sizes := map[byte]int{Words12: 128, Words15: 160, Words18: 192, Words21: 224, Words24: 256}
	steps := []func() error{}
	var (
		entropy  []byte
		mnemonic string
		size     int
	)
	steps = append(steps, func() (err error) {
		var ok bool
		if size, ok = sizes[wordsCount]; !ok {
			err = ErrInvalidMnemonicWordsCount
		}
		return
	}, func() (err error) {
		entropy, err = bip39.NewEntropy(size)
		return
	}, func() (err error) {
		mnemonic, err = bip39.NewMnemonic(entropy)
		return
	})
	for _, step := range steps {
		if err := step(); err != nil {
			return "", err
		}
	}
	return mnemonic, nil
}
''')
f('e-method-value', B, '(key *Key) PublicKeyHex()', '''func (key *Key) PublicKeyHex() string {
	get := key.GetKeyBytes
	if key.IsPrivate() {
		neutered := key.PublicKeyExtended()
		get = neutered.GetKeyBytes
	}
	k := get()
	return hex.EncodeToString(k[:])
}
''')
f('e-func-var', B, 'NewMasterKey(', '''var sum512 = func(key, data []byte) [64]byte {
	mac := hmac.New(sha512.New, key)
	mac.Write(data)
	return [64]byte(mac.Sum(nil))
}

func NewMasterKey(seed []byte) (*Key, error) {
	i := sum512([]byte("Bitcoin seed"), seed)
	if err := ValidatePrivateKey(PvtKeyBytes(i[:32])); err != nil {
		return nil, err
	}
	key := new(Key)
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	key.setChainCode(ChainCode(i[32:]))
	key.setPvtKeyBytes(PvtKeyBytes(i[:32]))
	return key, nil
}
''')
# ---- named results, defers
f('e-named-defer', B, '(key *Key) B58Serialize()', '''func (key *Key) B58Serialize() (encoded string) {
	data, err := key.Serialize()
	defer func() {
		if err == nil {
			encoded = base58.Encode(data)
		}
	}()
	return
}
''')
f('e-named-deser', B, 'B58Deserialize(', '''func B58Deserialize(data string) (key Key, err error) {
	key, err = Deserialize(base58.Decode(data))
	return
}
''')
f('e-goto', B, '(key *Key) IsValid()', '''func (key *Key) IsValid() (valid bool) {
	bs, err := key.Serialize()
	if err != nil {
		goto done
	}
	if _, err = Deserialize(bs); err != nil {
		goto done
	}
	valid = true
done:
	return
}
''')
f('e-labelled', B, 'Deserialize(', '''func Deserialize(data []byte) (Key, error) {
	switch {
	case len(data) < 82:
		var short Key
		copy(short[:], data)
		return short, ErrSerializedKeyWrongSize
	case len(data) > 82:
		return Key(data[:78]), ErrSerializedKeyWrongSize
	}
	key := Key(data[:78])
	sum, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
compare:
	for i := 0; ; i++ {
		switch {
		case i == len(sum):
			break compare
		case sum[i] != data[78+i]:
			return key, ErrInvalidChecksum
		}
	}
	if key.IsPrivate() {
		return key, ValidatePrivateKey(key.GetPvtKeyBytes())
	}
	return key, validatePublicKey(key[PubKeyStartIndex:])
}
''')
ff('e-last-elem', e(T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := []KeyPath{{Path: "m", Key: *root}}
	for _, v := range items[1:] {
		last := result[len(result)-1]
		child, err := last.Key.NewChildKey(v)
		if err != nil {
			return nil, err
		}
		suffix := ""
		if v >= bip32.FirstHardenedChild {
			v -= bip32.FirstHardenedChild
			suffix = "'"
		}
		result = append(result, KeyPath{Path: Path(fmt.Sprintf("%s/%d%s", last.Path, v, suffix)), Key: child})
	}
	return result, nil
}
'''))
ff('e-last-index', e(T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := []KeyPath{{Path: "m", Key: *root}}
	for i, v := range items[1:] {
		child, err := result[i].Key.NewChildKey(v)
		if err != nil {
			return nil, err
		}
		mark := ""
		if v >= bip32.FirstHardenedChild {
			mark = "'"
		}
		path := fmt.Sprintf("%s/%d%s", result[i].Path, v%bip32.FirstHardenedChild, mark)
		result = append(result, KeyPath{Path: Path(path), Key: child})
	}
	return result, nil
}
'''))
ff('e-preallocated', e(T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := make([]KeyPath, len(items))
	result[0] = KeyPath{Path: "m", Key: *root}
	for i := 1; i < len(items); i++ {
		prev, v := &result[i-1], items[i]
		child, err := prev.Key.NewChildKey(v)
		if err != nil {
			return nil, err
		}
		mark := ""
		if v >= bip32.FirstHardenedChild {
			mark = "'"
		}
		result[i] = KeyPath{Path: Path(fmt.Sprintf("%s/%d%s", prev.Path, v%bip32.FirstHardenedChild, mark)), Key: child}
	}
	return result, nil
}
'''))
# ---- recursion
f('e-recursive-derive', T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	return extend([]KeyPath{{Path: "m", Key: *root}}, items[1:])
}

func extend(done []KeyPath, todo []uint32) ([]KeyPath, error) {
	if len(todo) == 0 {
		return done, nil
	}
	last := done[len(done)-1]
	child, err := last.Key.NewChildKey(todo[0])
	if err != nil {
		return nil, err
	}
	path := fmt.Sprintf("%s/%d", last.Path, todo[0]%bip32.FirstHardenedChild)
	if todo[0] >= bip32.FirstHardenedChild {
		path += "'"
	}
	return extend(append(done, KeyPath{Path: Path(path), Key: child}), todo[1:])
}
''')
# ---- helper types
ff('e-derivation-struct', e(B, '(key *Key) NewChildKey(', '''func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
	d := derivation{parent: key, index: childIdx}
	for _, step := range []func(*derivation) error{(*derivation).check, (*derivation).hash, (*derivation).version, (*derivation).finish} {
		if err := step(&d); err != nil {
			return d.child, err
		}
	}
	return d.child, nil
}

type derivation struct {
	parent *Key
	index  uint32
	mac    []byte
	vs     Version
	child  Key
}

func (d *derivation) check() error {
	if d.index >= FirstHardenedChild && !d.parent.IsPrivate() {
		return ErrHardenedChildPublicKey
	}
	if d.parent[DepthStartIndex] == 0xff {
		return ErrDepthExceeded
	}
	return nil
}

func (d *derivation) hash() (err error) {
	if d.mac, err = d.parent.getIntermediary(d.index); err != nil {
		return err
	}
	return ValidatePrivateKey(PvtKeyBytes(d.mac[:32]))
}

func (d *derivation) version() error {
	index := PubFlagToHDBytesSlice
	if d.parent.IsPrivate() {
		index = PvtFlagToHDBytesSlice
	}
	v := d.parent.GetVersion()
	entries := index[v]
	if len(entries) == 0 {
		return ErrUnSupportedHDVersionBytes
	}
	binary.BigEndian.PutUint32(d.vs[:], v)
	return nil
}

func (d *derivation) finish() error {
	d.child.setChildNumber(ChildNumber(uint32Bytes(d.index)))
	d.child.setChainCode(ChainCode(d.mac[32:]))
	d.child.setDepth(d.parent[DepthStartIndex] + 1)
	d.child.SetVersion(d.vs)
	pub := d.parent[PubKeyStartIndex:]
	if d.parent.IsPrivate() {
		pub = publicKeyForPrivateKey(d.parent[PvtKeyStartIndex:])
	}
	id, err := HashRipeMD160onSha256(pub)
	if err != nil {
		return err
	}
	copy(d.child[FingerPrintStartIndex:FingerPrintEndIndex], id)
	if d.parent.IsPrivate() {
		d.child.setPvtKeyBytes(PvtKeyBytes(addPrivateKeys(d.mac[:32], d.parent[PvtKeyStartIndex:])))
		return ValidatePrivateKey(d.child.GetPvtKeyBytes())
	}
	tweak := publicKeyForPrivateKey(d.mac[:32])
	if err := validateChildPublicKey(tweak); err != nil {
		return err
	}
	sum := addPublicKeys(tweak, d.parent[PubKeyStartIndex:])
	if err := validateChildPublicKey(sum); err != nil {
		return err
	}
	d.child.setPubKeyBytes(KeyBytes(sum))
	return nil
}
'''))
ff('e-interface-kind', e(B, 'Deserialize(', '''type keyMaterial interface{ valid() error }
type privateMaterial PvtKeyBytes
type publicMaterial []byte

func (m privateMaterial) valid() error { return ValidatePrivateKey(PvtKeyBytes(m)) }
func (m publicMaterial) valid() error  { return validatePublicKey(m) }

func (key *Key) material() keyMaterial {
	if key.IsPrivate() {
		return privateMaterial(key.GetPvtKeyBytes())
	}
	return publicMaterial(key[PubKeyStartIndex:PubKeyEndIndex])
}

func Deserialize(data []byte) (Key, error) {
	if len(data) != 82 {
		var key Key
		copy(key[:], data)
		return key, ErrSerializedKeyWrongSize
	}
	key := Key(data[:78])
	cs, err := ChecksumDblSha256(data[:78])
	if err != nil {
		return key, err
	}
	if string(cs) != string(data[78:]) {
		return key, ErrInvalidChecksum
	}
	return key, key.material().valid()
}
'''))
ff('e-embedded', e(K, '(k *KeyPathRange) GenerateRange()', '''type chain struct {
	KeyPath
	out []KeyPath
}

func (c *chain) next(i uint32) error {
	child, err := c.Key.NewChildKey(i)
	if err != nil {
		return err
	}
	name := string(c.Path) + fmt.Sprintf("/%d", i&^bip32.FirstHardenedChild)
	if i&bip32.FirstHardenedChild != 0 {
		name += "'"
	}
	c.KeyPath = KeyPath{Path: Path(name), Key: child}
	c.out = append(c.out, c.KeyPath)
	return nil
}

func (k *KeyPathRange) GenerateRange() error {
	switch {
	case k.StartIndex >= k.EndIndex:
		return ErrInvalidRangeProvided
	case !k.Key.IsValid():
		return ErrInvalidRootKey
	case !k.Path.IsValid():
		return ErrUnSupportedOrInvalidPath
	}
	c := chain{KeyPath: KeyPath{Path: k.Path.Formatted(), Key: k.Key}}
	for i := k.StartIndex; i != k.EndIndex; i++ {
		if err := c.next(i); err != nil {
			return err
		}
	}
	k.KeyPaths = c.out
	return nil
}
'''))
# ---- paths
ff('e-path-component', e(P, '(p Path) ValuesAtDepth()', '''type component string

func (c component) value() (uint32, error) {
	digits, hardened := strings.CutSuffix(string(c), "'")
	v, err := strconv.ParseUint(digits, 10, 32)
	switch {
	case err != nil:
		return 0, err
	case !hardened:
		return uint32(v), nil
	case v >= uint64(FirstHardenedChild):
		return 0, ErrUnSupportedOrInvalidPath
	}
	return uint32(v) | FirstHardenedChild, nil
}

func (p Path) ValuesAtDepth() ([]uint32, error) {
	text := p.String()
	if !PathRegex.MatchString(text) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	values := []uint32{0}
	for _, c := range strings.Split(text, "/")[1:] {
		v, err := component(c).value()
		if err != nil {
			return values, err
		}
		values = append(values, v)
	}
	return values, nil
}
'''))
f('e-path-bits31', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	text := p.String()
	if !PathRegex.MatchString(text) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	parts := strings.Split(text, "/")
	values := make([]uint32, 1, len(parts))
	for _, part := range parts[1:] {
		bits, offset := 32, uint32(0)
		if strings.HasSuffix(part, "'") {
			part, bits, offset = part[:len(part)-1], 31, FirstHardenedChild
		}
		v, err := strconv.ParseUint(part, 10, bits)
		if err != nil {
			return values, err
		}
		values = append(values, uint32(v)+offset)
	}
	return values, nil
}
''')
ff('e-path-regex-global', e(P, '(p Path) String()', '''var spaces = regexp.MustCompile(`\\s`)

func (p Path) String() string { return spaces.ReplaceAllLiteralString(string(p), "") }
'''))
ff('e-path-regex-plus', e(P, '(p Path) String()', '''var spaces = regexp.MustCompile(`\\s+`)

func (p Path) String() string { return spaces.ReplaceAllString(string(p), "") }
'''))
ff('e-path-valid-direct', e(P, '(p Path) ValueAtDepth(', '''func (p Path) ValueAtDepth(b byte) (v uint32, err error) {
	var values []uint32
	if values, err = p.ValuesAtDepth(); err != nil {
		return
	}
	if int(b) < len(values) {
		return values[b], nil
	}
	err = ErrUnSupportedOrInvalidPath
	return
}
'''))
f('e-replace-helper', P, '(p Path) ReplaceValueAtDepth(', '''func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
	if replaced, ok := p.replace(int(b), val); ok == nil {
		return replaced, nil
	} else {
		return p, ok
	}
}

func (p Path) replace(at int, val uint32) (Path, error) {
	values, err := p.ValuesAtDepth()
	if err != nil {
		return "", err
	}
	if at < 1 || at > len(values)-1 {
		return "", ErrUnSupportedOrInvalidPath
	}
	parts := strings.Split(p.String(), "/")
	text := strconv.FormatUint(uint64(val&^FirstHardenedChild), 10)
	if val&FirstHardenedChild != 0 {
		text += "'"
	}
	parts[at] = text
	out := Path(strings.Join(parts, "/"))
	if _, err := out.ValuesAtDepth(); err != nil {
		return "", ErrUnSupportedOrInvalidPath
	}
	return out, nil
}
''', noimp(P, 'fmt'))
# ---- bip39
ff('e-words-bitwriter', e(M, 'NewMnemonic(', '''type bitReader struct {
	data []byte
	pos  int
}

func (r *bitReader) bit() int {
	b := int(r.data[r.pos/8]>>(7-uint(r.pos%8))) & 1
	r.pos++
	return b
}

func (r *bitReader) take(n int) (v int) {
	for ; n > 0; n-- {
		v = v<<1 | r.bit()
	}
	return v
}

func NewMnemonic(entropy []byte) (string, error) {
	if err := validateEntropyBitSize(len(entropy) * 8); err != nil {
		return "", err
	}
	r := bitReader{data: append(append([]byte{}, entropy...), computeChecksum(entropy)...)}
	var words []string
	for i := 0; i < len(entropy)/4*3; i++ {
		words = append(words, wordList[r.take(11)])
	}
	return strings.Join(words, " "), nil
}
'''))
ff('e-count-table', e(M, 'splitMnemonicWords(', '''var wordCounts = [...]int{12, 15, 18, 21, 24}

func splitMnemonicWords(mnemonic string) ([]string, bool) {
	words := strings.Fields(mnemonic)
	for _, n := range wordCounts {
		if len(words) == n {
			return words, true
		}
	}
	return nil, false
}
'''))
ff('e-bits-switch', e(M, 'validateEntropyBitSize(', '''func validateEntropyBitSize(bitSize int) error {
	switch bitSize {
	case 128, 160, 192, 224, 256:
		return nil
	default:
		return ErrEntropyLengthInvalid
	}
}
'''))
ff('e-seed-salt', e(M, 'NewSeed(', '''const (
	saltPrefix = "mnemonic"
	rounds     = 1 << 11
)

func NewSeed(mnemonic string, password string) []byte {
	salt := make([]byte, 0, len(saltPrefix)+len(password))
	salt = append(salt, saltPrefix...)
	salt = append(salt, password...)
	return pbkdf2.Key([]byte(mnemonic), salt, rounds, sha512.Size, sha512.New)
}
'''))
ff('e-bytes-helper', e(M, 'MnemonicToByteArray(', '''func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
	entropy, err := EntropyFromMnemonic(mnemonic)
	switch {
	case err != nil:
		return nil, err
	case wantsRaw(raw...):
		return entropy, nil
	}
	return padByteSlice(addChecksum(entropy), len(entropy)+1), nil
}

func wantsRaw(raw ...bool) bool {
	for _, r := range raw {
		return r
	}
	return false
}
'''))
ff('e-checksum-byte', e(M, 'addChecksum(', '''func addChecksum(data []byte) []byte {
	n := uint(len(data) / 4)
	sum := computeChecksum(data)[0] >> (8 - n)
	v := new(big.Int).SetBytes(data)
	v.Lsh(v, n)
	v.Or(v, big.NewInt(int64(sum)))
	return v.Bytes()
}
'''))
# ---- version table
ff('e-version-init-helper', e(G, 'init()', '''func register(v VersionBytes) {
	add := func(m map[uint32][]VersionBytes, k uint32) { m[k] = append(m[k], v) }
	add(PvtFlagToHDBytesSlice, v.PvtKeyFlag)
	add(PubFlagToHDBytesSlice, v.PubKeyFlag)
	purpose, _ := v.PurposeVal()
	add(PurposeToHDBytesSlice, purpose)
	full, _ := v.PurposeValFull()
	add(PurposeFullToHDBytesSlice, full)
	coin, _ := v.CoinVal()
	add(CoinTypeToHDBytesSlice, coin)
	HDVersionBytesSlice = append(HDVersionBytesSlice, v)
}

func init() {
	for path := range PathToHDBytesSlice {
		for i := range PathToHDBytesSlice[path] {
			register(PathToHDBytesSlice[path][i])
		}
	}
}
'''))
# ---- coins
ff('e-coins-helper', e(CS, 'init()', '''func index(c Coin) {
	RegBip44CoinsTypeToValMap[c.Type], RegBip44CoinsNameToValMap[c.Name], RegBip44CoinsPathCompToValMap[c.PathComponent] = c, c, c
}

func repaired(c Coin) Coin {
	if !c.IsValid() {
		c.Type = c.PathComponent &^ 0x80000000
	}
	return c
}

func init() {
	sort.Slice(RegCoins, func(i, j int) bool {
		return RegCoins[i].Name < RegCoins[j].Name
	})
	for i := range RegCoins {
		c := &RegCoins[i]
		*c = repaired(*c)
		index(*c)
	}
}
'''))
# ---- util
ff('e-addr-shared', e(K, '(b KeyPath) AddrHex()', '''func (b KeyPath) public() (pub [33]byte) {
	k := b.Key.PublicKeyExtended()
	return k.GetKeyBytes()
}

func (b KeyPath) AddrHex() string {
	pub := b.public()
	x, y := bip32.ExpandPublicKey(pub[:])
	var point [64]byte
	x.FillBytes(point[:32])
	y.FillBytes(point[32:])
	h := sha3.NewLegacyKeccak256()
	h.Write(point[:])
	return hex.EncodeToString(h.Sum(nil)[12:])
}
'''), e(K, '(b KeyPath) AddrP2SH(', '''func (b KeyPath) AddrP2SH(verPrefix byte) (addr string) {
	pub := b.public()
	if hash, err := bip32.HashRipeMD160onSha256(pub[:]); err == nil {
		if full, err := bip32.AddChecksumDblSha256ToBytes(append([]byte{verPrefix}, hash...)); err == nil {
			addr = base58.Encode(full)
		}
	}
	return addr
}
'''))
ff('e-root-valid', e(T, 'RootKeyFromSeed(', '''func RootKeyFromSeed(seed string) (*bip32.Key, error) {
	raw, err := hex.DecodeString(seed)
	if err != nil {
		return new(bip32.Key), err
	}
	if len(raw) < minSeed {
		return new(bip32.Key), ErrInvalidBIP39Seed
	}
	key, err := bip32.NewMasterKey(raw)
	if err != nil {
		return new(bip32.Key), err
	}
	return key, nil
}

const minSeed = 128 / 8
'''))
ff('e-root-generator-ptr', ('util/util.go', '''type Generator struct {
	rootKey bip32.Key
}
''', '''type Generator struct {
	root keyHolder
}

type keyHolder struct{ key bip32.Key }
'''), ('util/util.go', '	g.rootKey = k\n', '	g.root = keyHolder{k}\n'), ('util/util.go', '	return &g.rootKey\n', '	return &g.root.key\n'))
ff('e-seed-text', e(T, 'DeriveSeedFromMnemonic(', '''func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string, error) {
	seed, err := bip39.NewSeedWithErrorChecking(mnemonic, mnemonicPassphrase)
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%x", seed), nil
}
'''))
# ---- keys
ff('e-range-array-ptr', e(B, '(key *Key) Serialize()', '''func (key *Key) empty() bool {
	for i := len(key) - 1; i >= 0; i-- {
		if key[i] != 0 {
			return false
		}
	}
	return true
}

func (key *Key) Serialize() ([]byte, error) {
	if key.empty() {
		return nil, ErrEmptyKey
	}
	return AddChecksumDblSha256ToBytes(key[:])
}
'''))
ff('e-or-empty', e(B, '(key *Key) Serialize()', '''func (key *Key) Serialize() ([]byte, error) {
	var acc byte
	for _, b := range key {
		acc |= b
	}
	if acc == 0 {
		return nil, ErrEmptyKey
	}
	return AddChecksumDblSha256ToBytes(key[:])
}
'''))
ff('e-xor-checksum', e(B, 'Deserialize(', '''func Deserialize(data []byte) (key Key, err error) {
	copy(key[:], data)
	if len(data) != len(key)+4 {
		return key, ErrSerializedKeyWrongSize
	}
	sum, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
	var diff byte
	for i, c := range data[len(key):] {
		diff |= c ^ sum[i]
	}
	if diff != 0 {
		return key, ErrInvalidChecksum
	}
	if !key.IsPrivate() {
		return key, validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
	}
	return key, ValidatePrivateKey(key.GetPvtKeyBytes())
}
'''))
ff('e-validate-loop', e(U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	order := curveParams.N.FillBytes(make([]byte, len(key)))
	if key == (PvtKeyBytes{}) || !less(key[:], order) {
		return ErrInvalidPrivateKey
	}
	return nil
}

func less(a, b []byte) bool { return bytes.Compare(a, b) == -1 }
'''), noimp(U, 'fmt'), noimp(U, 'strings'))
ff('e-compress-array', e(U, 'compressPublicKey(', '''func compressPublicKey(x *big.Int, y *big.Int) []byte {
	var out [PublicKeyCompressedLength]byte
	out[0] = 2
	if y.Bit(0) == 1 {
		out[0]++
	}
	x.FillBytes(out[1:])
	return out[:]
}
'''))
ff('e-u32-method', e(U, 'uint32Bytes(', '''func uint32Bytes(i uint32) []byte {
	var b [4]byte
	for n := range b {
		b[n] = byte(i >> (24 - 8*n))
	}
	return b[:]
}
'''))
ff('e-inter-switch', e(B, '(key *Key) getIntermediary(', '''func (key *Key) getIntermediary(childIdx uint32) ([]byte, error) {
	data := make([]byte, 0, 37)
	switch hardened := childIdx>>31 == 1; {
	case hardened:
		data = append(append(data, 0), key[PvtKeyStartIndex:PvtKeyEndIndex]...)
	case key.IsPrivate():
		data = append(data, publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])...)
	default:
		data = append(data, key[PubKeyStartIndex:PubKeyEndIndex]...)
	}
	data = binary.BigEndian.AppendUint32(data, childIdx)
	mac := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	if n, err := mac.Write(data); err != nil || n != len(data) {
		return nil, err
	}
	return mac.Sum(nil), nil
}
'''))
ff('e-stringers', ('bip32/bip32.go', 'func NewMasterKey(', '''// String is the hex form.
func (v Version) String() string { return hex.EncodeToString(v[:]) }

// String is the hex form.
func (c ChildNumber) String() string { return hex.EncodeToString(c[:]) }

func NewMasterKey('''))
ff('e-new-api', ('bip32/bip32.go', 'func (key *Key) PublicKeyHex() string {', '''// IsMaster reports whether the key is at depth zero.
func (key *Key) IsMaster() bool {
	return key[DepthStartIndex] == 0
}

func (key *Key) PublicKeyHex() string {'''), ('util/util.go', '''		rootKey[bip32.DepthStartIndex] != 0 {''', '''		!rootKey.IsMaster() {'''))
ff('e-errors-wrapped-var', ('util/util.go', 'type Path = bip32.Path\n', '''type Path = bip32.Path

// MustPath is a path that is known to be valid.
func MustPath(s string) (Path, error) {
	if p := Path(s); p.IsValid() {
		return p.Formatted(), nil
	}
	return "", ErrUnSupportedOrInvalidPath
}
'''))
main(R)
