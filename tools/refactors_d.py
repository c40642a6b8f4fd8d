#!/usr/bin/env python3
"""Fourth batch of behaviour-preserving edits: the same functions written with other library calls."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
B, U, P, G, M, T, K, C, CS = 'bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go', 'util/util.go', 'util/key_path.go', 'bip44/coin.go', 'bip44/coins.go'
REPO = os.environ.get('REPO', '/repo')
def fn(sig, path):
    s = open(REPO + '/' + path).read()
    i = s.index('func ' + sig)
    return s[i:s.index('\n}\n', i) + 3]
def imp(path, *names): return (path, 'import (\n', 'import (\n' + ''.join('\t"%s"\n' % n for n in names))
def noimp(path, n): return (path, '\t"%s"\n' % n, '')
def f(name, path, sig, new, *more): R.append((name, [(path, fn(sig, path), new)] + list(more)))
def ff(name, *edits): R.append((name, list(edits)))
def e(path, sig, new): return (path, fn(sig, path), new)

# ---- scalars and points through the library's own types
f('d-pub-scalar', U, 'publicKeyForPrivateKey(', '''func publicKeyForPrivateKey(key []byte) []byte {
	var k secp256k1.ModNScalar
	k.SetByteSlice(key)
	var p secp256k1.JacobianPoint
	secp256k1.ScalarBaseMultNonConst(&k, &p)
	p.ToAffine()
	x, y := p.X.Bytes(), p.Y.Bytes()
	return compressPublicKey(new(big.Int).SetBytes(x[:]), new(big.Int).SetBytes(y[:]))
}
''')
f('d-addpriv-scalar', U, 'addPrivateKeys(', '''func addPrivateKeys(key1 []byte, key2 []byte) []byte {
	var a, b secp256k1.ModNScalar
	a.SetByteSlice(key1)
	b.SetByteSlice(key2)
	sum := a.Add(&b).Bytes()
	return sum[:]
}
''')
f('d-addpriv-scalar2', U, 'addPrivateKeys(', '''func addPrivateKeys(key1 []byte, key2 []byte) []byte {
	var a, b, c secp256k1.ModNScalar
	a.SetByteSlice(key1)
	b.SetByteSlice(key2)
	c.Add2(&a, &b)
	out := make([]byte, 32)
	c.PutBytesUnchecked(out)
	return out
}
''')
f('d-addpub-jac', U, 'addPublicKeys(', '''func addPublicKeys(key1 []byte, key2 []byte) []byte {
	point := func(key []byte) secp256k1.JacobianPoint {
		x, y := ExpandPublicKey(key)
		var p secp256k1.JacobianPoint
		p.X.SetByteSlice(x.FillBytes(make([]byte, 32)))
		p.Y.SetByteSlice(y.FillBytes(make([]byte, 32)))
		p.Z.SetInt(1)
		return p
	}
	p, q := point(key1), point(key2)
	var sum secp256k1.JacobianPoint
	secp256k1.AddNonConst(&p, &q, &sum)
	sum.ToAffine()
	return compressPublicKey(new(big.Int).SetBytes(sum.X.Bytes()[:]), new(big.Int).SetBytes(sum.Y.Bytes()[:]))
}
''')
f('d-validate-scalar', U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	var k secp256k1.ModNScalar
	if overflow := k.SetBytes((*[32]byte)(&key)); overflow != 0 || k.IsZero() {
		return ErrInvalidPrivateKey
	}
	return nil
}
''', noimp(U, 'fmt'), noimp(U, 'strings'))
f('d-validate-subtle', U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	zero := subtle.ConstantTimeCompare(key[:], make([]byte, len(key)))
	if zero == 1 || new(big.Int).SetBytes(key[:]).Cmp(curveParams.N) >= 0 {
		return ErrInvalidPrivateKey
	}
	return nil
}
''', noimp(U, 'fmt'), noimp(U, 'strings'), imp(U, 'crypto/subtle'))
# ---- hex
f('d-pubhex-encode', B, '(key *Key) PublicKeyHex()', '''func (key *Key) PublicKeyHex() string {
	k := key
	if key.IsPrivate() {
		pubKey := key.PublicKeyExtended()
		k = &pubKey
	}
	src := k[PubKeyStartIndex:PubKeyEndIndex]
	dst := make([]byte, hex.EncodedLen(len(src)))
	hex.Encode(dst, src)
	return string(dst)
}
''')
f('d-pvthex-append', B, '(key *Key) PrivateKeyHex()', '''func (key *Key) PrivateKeyHex() string {
	if !key.IsPrivate() {
		return ""
	}
	return string(hex.AppendEncode(nil, key[PvtKeyStartIndex:PvtKeyEndIndex]))
}
''')
f('d-seedhex-buf', T, 'DeriveSeedFromMnemonic(', '''func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string, error) {
	if _, err := bip39.EntropyFromMnemonic(mnemonic); err != nil {
		return "", err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%x", bip39.NewSeed(mnemonic, mnemonicPassphrase))
	return sb.String(), nil
}
''', imp(T, 'strings'))
f('d-root-decode', T, 'RootKeyFromSeed(', '''func RootKeyFromSeed(seed string) (*bip32.Key, error) {
	raw := make([]byte, hex.DecodedLen(len(seed)))
	if _, err := hex.Decode(raw, []byte(seed)); err != nil {
		return &bip32.Key{}, err
	}
	if len(raw) < 16 {
		return &bip32.Key{}, ErrInvalidBIP39Seed
	}
	key, err := bip32.NewMasterKey(raw)
	if err != nil {
		return &bip32.Key{}, err
	}
	data, err := key.Serialize()
	if err == nil {
		_, err = bip32.Deserialize(data)
	}
	return key, err
}
''')
# ---- paths
f('d-values-cut', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	text := p.String()
	if !PathRegex.MatchString(text) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	values := []uint32{0}
	for _, part := range strings.Split(text, "/")[1:] {
		digits, hardened := strings.CutSuffix(part, "'")
		val, err := strconv.ParseUint(strings.TrimRight(digits, "'"), 10, 32)
		if err != nil {
			return values, err
		}
		if hardened {
			if uint32(val) >= FirstHardenedChild {
				return values, ErrUnSupportedOrInvalidPath
			}
			val += uint64(FirstHardenedChild)
		}
		values = append(values, uint32(val))
	}
	return values, nil
}
''')
f('d-values-indexbyte', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	if !PathRegex.MatchString(p.String()) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	pathArr := []uint32{0}
	for _, s := range strings.Split(p.String(), "/")[1:] {
		var offset uint32
		if strings.IndexByte(s, '\\'') >= 0 {
			offset = FirstHardenedChild
			s = strings.ReplaceAll(s, "'", "")
		}
		val, err := strconv.ParseUint(s, 10, 32)
		switch {
		case err != nil:
			return pathArr, err
		case offset != 0 && val >= uint64(FirstHardenedChild):
			return pathArr, ErrUnSupportedOrInvalidPath
		}
		pathArr = append(pathArr, uint32(val)+offset)
	}
	return pathArr, nil
}
''')
f('d-values-any', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	if !PathRegex.MatchString(p.String()) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	pathArr := []uint32{0}
	for _, s := range strings.Split(p.String(), "/")[1:] {
		hardened := strings.ContainsAny(s, "'")
		val, err := strconv.ParseUint(strings.TrimSuffix(s, "'"), 10, 32)
		if err != nil {
			return pathArr, err
		}
		if hardened {
			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			val |= 1 << 31
		}
		pathArr = append(pathArr, uint32(val))
	}
	return pathArr, nil
}
''')
f('d-replace-format', P, '(p Path) ReplaceValueAtDepth(', '''func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
	vals, err := p.ValuesAtDepth()
	if err != nil {
		return p, err
	}
	if b == 0 || int(b) >= len(vals) {
		return p, ErrUnSupportedOrInvalidPath
	}
	parts := strings.Split(p.String(), "/")
	text := strconv.AppendUint(nil, uint64(val%FirstHardenedChild), 10)
	if val >= FirstHardenedChild {
		text = append(text, '\\'')
	}
	parts[b] = string(text)
	replaced := Path(strings.Join(parts, "/"))
	if !replaced.IsValid() {
		return p, ErrUnSupportedOrInvalidPath
	}
	return replaced, nil
}
''', noimp(P, 'fmt'))
f('d-purpose-cut', G, '(h VersionBytes) PurposeVal()', '''func (h VersionBytes) PurposeVal() (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	part := strings.Split(h.Path.String(), "/")[1]
	digits, _ := strings.CutSuffix(part, "'")
	purposeVal, err := strconv.Atoi(digits)
	if err != nil {
		return 0, err
	}
	if uint32(purposeVal) >= FirstHardenedChild {
		return 0, ErrInvalidPurpose
	}
	return uint32(purposeVal), nil
}
''')
f('d-coin-slice', G, '(h VersionBytes) CoinVal()', '''func (h VersionBytes) CoinVal() (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	part := strings.Split(h.Path.String(), "/")[2]
	if i := strings.IndexByte(part, '\\''); i >= 0 {
		part = part[:i]
	}
	coinVal, err := strconv.Atoi(part)
	if err != nil {
		return 0, err
	}
	if uint32(coinVal) >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	return uint32(coinVal), nil
}
''')
f('d-coin-len', G, '(h VersionBytes) CoinVal()', '''func (h VersionBytes) CoinVal() (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	part := strings.Split(h.Path.String(), "/")[2]
	coinVal, err := strconv.Atoi(part[:len(part)-1])
	if err != nil {
		return 0, err
	}
	if uint32(coinVal) >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	return uint32(coinVal), nil
}
''')
# ---- locks
ff('d-mutex-words', imp(M, 'sync'), (M, '''	// wordList is the set of words to use.
''', '''	// wordsMu guards wordList and wordMap.
	wordsMu sync.RWMutex

	// wordList is the set of words to use.
'''), e(M, 'SetWordList(', '''func SetWordList(list []string) {
	wordsMu.Lock()
	defer wordsMu.Unlock()
	wordList = append([]string(nil), list...)
	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
}
'''), e(M, 'GetWordList(', '''func GetWordList() []string {
	wordsMu.RLock()
	defer wordsMu.RUnlock()
	return append([]string(nil), wordList...)
}
'''), e(M, 'GetWordIndex(', '''func GetWordIndex(word string) (int, bool) {
	wordsMu.RLock()
	defer wordsMu.RUnlock()
	idx, ok := wordMap[word]
	return idx, ok
}
'''))
ff('d-mutex-nodefer', imp(M, 'sync'), (M, '''	// wordList is the set of words to use.
''', '''	// wordsMu guards wordList and wordMap.
	wordsMu sync.Mutex

	// wordList is the set of words to use.
'''), e(M, 'GetWordIndex(', '''func GetWordIndex(word string) (int, bool) {
	wordsMu.Lock()
	idx, ok := wordMap[word]
	wordsMu.Unlock()
	return idx, ok
}
'''))
# ---- errors
f('d-root-joined', T, 'RootKeyFromSeed(', '''func RootKeyFromSeed(seed string) (*bip32.Key, error) {
	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return &bip32.Key{}, err
	}
	if len(seedBs) < 16 {
		return &bip32.Key{}, ErrInvalidBIP39Seed
	}
	masterKey, err := bip32.NewMasterKey(seedBs)
	if err != nil {
		return &bip32.Key{}, errors.Join(err)
	}
	ser, err := masterKey.Serialize()
	if err != nil {
		return masterKey, err
	}
	_, err = bip32.Deserialize(ser)
	return masterKey, err
}
''', imp(T, 'errors'))
f('d-isvalid-errors', P, '(p Path) IsValid()', '''func (p Path) IsValid() bool {
	_, err := p.ValuesAtDepth()
	return errors.Is(err, nil)
}
''')
# ---- derivation results
f('d-derive-builder', T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	if !p.IsValid() {
		return nil, ErrUnSupportedOrInvalidPath
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, err
	}
	text := []byte("m")
	key := *root
	out := []KeyPath{{Path: Path(text), Key: key}}
	for _, val := range items[1:] {
		text = append(text, '/')
		text = strconv.AppendUint(text, uint64(val&(bip32.FirstHardenedChild-1)), 10)
		if val >= bip32.FirstHardenedChild {
			text = append(text, '\\'')
		}
		if key, err = key.NewChildKey(val); err != nil {
			return nil, err
		}
		out = append(out, KeyPath{Path: Path(text), Key: key})
	}
	return out, nil
}
''', noimp(T, 'fmt'), imp(T, 'strconv'))
f('d-derive-appendf', T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.RootKey()
	if !root.IsValid() || !root.IsPrivate() || root[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	if !p.IsValid() {
		return nil, ErrUnSupportedOrInvalidPath
	}
	items, err := p.ValuesAtDepth()
	if err != nil {
		return nil, err
	}
	var sb strings.Builder
	sb.WriteByte('m')
	key := *root
	out := []KeyPath{{Path: Path(sb.String()), Key: key}}
	for _, val := range items[1:] {
		fmt.Fprintf(&sb, "/%d", val%bip32.FirstHardenedChild)
		if val >= bip32.FirstHardenedChild {
			sb.WriteString("'")
		}
		if key, err = key.NewChildKey(val); err != nil {
			return nil, err
		}
		out = append(out, KeyPath{Path: Path(sb.String()), Key: key})
	}
	return out, nil
}
''', imp(T, 'strings'))
# ---- words
f('d-split-func', M, 'splitMnemonicWords(', '''func splitMnemonicWords(mnemonic string) ([]string, bool) {
	words := strings.FieldsFunc(mnemonic, unicode.IsSpace)
	switch len(words) {
	case 12, 15, 18, 21, 24:
		return words, true
	}
	return nil, false
}
''', imp(M, 'unicode'))
f('d-words-contains', M, 'splitMnemonicWords(', '''func splitMnemonicWords(mnemonic string) ([]string, bool) {
	words := strings.Fields(mnemonic)
	if !slices.Contains([]int{12, 15, 18, 21, 24}, len(words)) {
		return nil, false
	}
	return words, true
}
''', imp(M, 'slices'))
f('d-words-index', M, 'splitMnemonicWords(', '''func splitMnemonicWords(mnemonic string) ([]string, bool) {
	words := strings.Fields(mnemonic)
	if slices.IndexFunc([]int{12, 15, 18, 21, 24}, func(n int) bool { return n == len(words) }) < 0 {
		return nil, false
	}
	return words, true
}
''', imp(M, 'slices'))
f('d-getlist-clone', M, 'GetWordList(', '''func GetWordList() []string {
	return slices.Clone(wordList)
}
''', imp(M, 'slices'))
f('d-setlist-make', M, 'SetWordList(', '''func SetWordList(list []string) {
	words, index := make([]string, len(list)), make(map[string]int, len(list))
	copy(words, list)
	for i, v := range words {
		index[v] = i
	}
	wordList, wordMap = words, index
}
''')
# ---- entropy
f('d-entropy-readfull', M, 'NewEntropy(', '''func NewEntropy(bitSize int) ([]byte, error) {
	if err := validateEntropyBitSize(bitSize); err != nil {
		return nil, err
	}
	entropy := make([]byte, bitSize/8)
	if _, err := io.ReadFull(rand.Reader, entropy); err != nil {
		return nil, err
	}
	return entropy, nil
}
''', imp(M, 'io'))
f('d-entropy-atleast', M, 'NewEntropy(', '''func NewEntropy(bitSize int) ([]byte, error) {
	if err := validateEntropyBitSize(bitSize); err != nil {
		return nil, err
	}
	entropy := make([]byte, bitSize/8)
	if n, err := io.ReadAtLeast(rand.Reader, entropy, len(entropy)); err != nil || n != len(entropy) {
		return nil, err
	}
	return entropy, nil
}
''', imp(M, 'io'))
# ---- tables
ff('d-coins-sortfunc', (CS, '''sort.Slice(''', '''sort.SliceStable(''')) if open(REPO + '/' + CS).read().count('sort.Slice(') == 1 else None
# ---- coins
f('d-coin-string', C, '(c Coin) String()', '''func (c Coin) String() string {
	var sb strings.Builder
	if c.Symbol != "" {
		sb.WriteString(c.Symbol)
		sb.WriteString(" - ")
	}
	fmt.Fprintf(&sb, "%s (Type %d)", c.Name, c.Type)
	return sb.String()
}
''')
f('d-coin-appendf', C, '(c Coin) StringForMD()', '''func (c Coin) StringForMD() string {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, `{Type: %d, PathComponent: 0x%x, `, c.Type, c.PathComponent)
	fmt.Fprintf(&buf, `Symbol: "%s", Name: "%s"}`, c.Symbol, c.Name)
	return buf.String()
}
''', imp(C, 'bytes'))
f('d-coin-valid', C, '(c Coin) IsValid()', '''func (c Coin) IsValid() bool {
	named := strings.TrimFunc(c.Name, unicode.IsSpace) != "" || strings.TrimFunc(c.Symbol, unicode.IsSpace) != ""
	return named && c.Type < 0x80000000 && c.PathComponent == c.Type|0x80000000
}
''', imp(C, 'unicode'))
# ---- bytes
f('d-u32-append', U, 'uint32Bytes(', '''func uint32Bytes(i uint32) []byte {
	var buf bytes.Buffer
	_ = binary.Write(&buf, binary.BigEndian, i)
	return buf.Bytes()
}
''')
f('d-b32-write', B, '(key *Key) getIntermediary(', '''func (key *Key) getIntermediary(childIdx uint32) ([]byte, error) {
	var buf bytes.Buffer
	switch {
	case childIdx >= FirstHardenedChild:
		buf.WriteByte(0)
		buf.Write(key[PvtKeyStartIndex:PvtKeyEndIndex])
	case key.IsPrivate():
		buf.Write(publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
	default:
		buf.Write(key[PubKeyStartIndex:])
	}
	if err := binary.Write(&buf, binary.BigEndian, childIdx); err != nil {
		return nil, err
	}
	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	if _, err := buf.WriteTo(hm); err != nil {
		return nil, err
	}
	return hm.Sum(nil), nil
}
''', imp(B, 'bytes'))
f('d-ser-zero', B, '(key *Key) Serialize()', '''func (key *Key) Serialize() ([]byte, error) {
	if !slices.ContainsFunc(key[:], func(b byte) bool { return b != 0 }) {
		return nil, ErrEmptyKey
	}
	return AddChecksumDblSha256ToBytes(key[:])
}
''', imp(B, 'slices'))
f('d-ser-bytesEq', B, '(key *Key) Serialize()', '''func (key *Key) Serialize() ([]byte, error) {
	if len(bytes.Trim(key[:], "\\x00")) == 0 {
		return nil, ErrEmptyKey
	}
	return AddChecksumDblSha256ToBytes(key[:])
}
''', imp(B, 'bytes'))
f('d-deser-equal', B, 'Deserialize(', '''func Deserialize(data []byte) (Key, error) {
	const size, sum = 78, 4
	var key Key
	copy(key[:], data)
	if len(data) != size+sum {
		return key, ErrSerializedKeyWrongSize
	}
	checksum, err := ChecksumDblSha256(data[:size])
	if err != nil {
		return key, err
	}
	if subtle.ConstantTimeCompare(checksum, data[size:]) != 1 {
		return key, ErrInvalidChecksum
	}
	if key.IsPrivate() {
		return key, ValidatePrivateKey(key.GetPvtKeyBytes())
	}
	return key, validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
}
''', imp(B, 'crypto/subtle'))
f('d-addr-bytes', K, '(b KeyPath) AddrP2SH(', '''func (b KeyPath) AddrP2SH(verPrefix byte) string {
	pub := b.Key.PublicKeyExtended()
	key := pub.GetKeyBytes()
	hash, err := bip32.HashRipeMD160onSha256(key[:])
	if err != nil {
		return ""
	}
	return base58.CheckEncode(hash, verPrefix)
}
''')
f('d-addr-hash', K, '(b KeyPath) AddrHex()', '''func (b KeyPath) AddrHex() string {
	pub := b.Key.PublicKeyExtended()
	key := pub.GetKeyBytes()
	x, y := bip32.ExpandPublicKey(key[:])
	var point [64]byte
	x.FillBytes(point[:32])
	y.FillBytes(point[32:])
	h := sha3.NewLegacyKeccak256()
	h.Write(point[:])
	var sum [32]byte
	h.Sum(sum[:0])
	return hex.EncodeToString(sum[12:])
}
''')
f('d-range-strconv', K, '(k *KeyPathRange) GenerateRange()', '''func (k *KeyPathRange) GenerateRange() error {
	switch {
	case k.EndIndex <= k.StartIndex:
		return ErrInvalidRangeProvided
	case !k.Key.IsValid():
		return ErrInvalidRootKey
	case !k.Path.IsValid():
		return ErrUnSupportedOrInvalidPath
	}
	key, text := k.Key, k.Path.String()
	var out []KeyPath = make([]KeyPath, 0, k.EndIndex-k.StartIndex)
	for i := k.StartIndex; i < k.EndIndex; i++ {
		text += "/" + strconv.FormatUint(uint64(i%bip32.FirstHardenedChild), 10)
		if i >= bip32.FirstHardenedChild {
			text += "'"
		}
		var err error
		if key, err = key.NewChildKey(i); err != nil {
			return err
		}
		out = append(out, KeyPath{Path: Path(text), Key: key})
	}
	k.KeyPaths = out
	return nil
}
''', noimp(K, 'fmt'), imp(K, 'strconv'))
f('d-newseed-full', B, 'NewSeed()', '''func NewSeed() ([]byte, error) {
	s := make([]byte, 256)
	_, err := io.ReadFull(rand.Reader, s)
	return s, err
}
''', imp(B, 'io'))
f('d-chk-shift', M, 'addChecksum(', '''func addChecksum(data []byte) []byte {
	bits := uint(len(data) / 4)
	sum := uint(computeChecksum(data)[0]) >> (8 - bits)
	n := new(big.Int).SetBytes(data)
	n.Lsh(n, bits)
	n.Or(n, new(big.Int).SetUint64(uint64(sum)))
	return n.Bytes()
}
''')
f('d-entropy-fill', M, 'padByteSlice(', '''func padByteSlice(slice []byte, length int) []byte {
	if len(slice) >= length {
		return slice
	}
	return append(make([]byte, length-len(slice), length), slice...)
}
''')
if __name__ == '__main__': main([r for r in R if r])
