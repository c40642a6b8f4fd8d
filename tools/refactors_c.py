#!/usr/bin/env python3
"""Third batch of behaviour-preserving edits: whole functions rewritten in another style."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
B, U, P, G, M, T, K, C = 'bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go', 'util/util.go', 'util/key_path.go', 'bip44/coin.go'
REPO = os.environ.get('REPO', '/repo')
def fn(sig, path):
    s = open(REPO + '/' + path).read()
    i = s.index('func ' + sig)
    return s[i:s.index('\n}\n', i) + 3]
def imp(path, *names):
    s = open(REPO + '/' + path).read()
    return (path, 'import (\n', 'import (\n' + ''.join('\t"%s"\n' % n for n in names))
def noimp(path, n): return (path, '\t"%s"\n' % n, '')
def f(name, path, sig, new, *more): R.append((name, [(path, fn(sig, path), new)] + list(more)))
def ff(name, *edits): R.append((name, list(edits)))
def e(path, sig, new): return (path, fn(sig, path), new)

# ---------------------------------------------------------------- bip32.go
f('x-master-sum', B, 'NewMasterKey(', '''func NewMasterKey(seed []byte) (*Key, error) {
	mac := hmac.New(sha512.New, []byte("Bitcoin seed"))
	if _, err := mac.Write(seed); err != nil {
		return nil, err
	}
	var sum [64]byte
	copy(sum[:], mac.Sum(nil))

	secret := PvtKeyBytes(sum[:32])
	if err := ValidatePrivateKey(secret); err != nil {
		return nil, err
	}
	key := new(Key)
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	key.setPvtKeyBytes(secret)
	key.setChainCode(ChainCode(sum[32:]))
	return key, nil
}
''')
f('x-master-copy', B, 'NewMasterKey(', '''func NewMasterKey(seed []byte) (*Key, error) {
	hm := hmac.New(sha512.New, []byte("Bitcoin seed"))
	if _, err := hm.Write(seed); err != nil {
		return nil, err
	}
	digest := hm.Sum(make([]byte, 0, sha512.Size))
	var key Key
	binary.BigEndian.PutUint32(key[VersionStartIndex:VersionEndIndex], DefaultMainnetVersion.PvtKeyFlag)
	copy(key[ChainCodeStartIndex:ChainCodeEndIndex], digest[32:])
	copy(key[PvtKeyStartIndex:PvtKeyEndIndex], digest[:32])
	if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
		return nil, err
	}
	return &key, nil
}
''')
f('x-child-two', B, '(key *Key) NewChildKey(', '''func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
	private := key.IsPrivate()
	if !private && childIdx >= FirstHardenedChild {
		return Key{}, ErrHardenedChildPublicKey
	}
	depth := key[DepthStartIndex]
	if depth == 0xff {
		return Key{}, ErrDepthExceeded
	}
	registry := PvtFlagToHDBytesSlice
	if !private {
		registry = PubFlagToHDBytesSlice
	}
	digest, err := key.getIntermediary(childIdx)
	if err != nil {
		return Key{}, err
	}
	tweak, chain := digest[:32], digest[32:]
	if err := ValidatePrivateKey(PvtKeyBytes(tweak)); err != nil {
		return Key{}, err
	}
	if len(registry[key.GetVersion()]) == 0 {
		return Key{}, ErrUnSupportedHDVersionBytes
	}

	var child Key
	child.SetVersionUint32(key.GetVersion())
	child.setDepth(depth + 1)
	child.setChildNumber(ChildNumber(uint32Bytes(childIdx)))
	child.setChainCode(ChainCode(chain))
	if private {
		err = child.fillPrivate(key, tweak)
	} else {
		err = child.fillPublic(key, tweak)
	}
	return child, err
}

func (child *Key) fillPrivate(parent *Key, tweak []byte) error {
	secret := parent.GetPvtKeyBytes()
	id, err := HashRipeMD160onSha256(publicKeyForPrivateKey(secret[:]))
	if err != nil {
		return err
	}
	child.setFingerPrint(FingerPrint(id[:4]))
	child.setPvtKeyBytes(PvtKeyBytes(addPrivateKeys(tweak, secret[:])))
	return ValidatePrivateKey(child.GetPvtKeyBytes())
}

func (child *Key) fillPublic(parent *Key, tweak []byte) error {
	point := publicKeyForPrivateKey(tweak)
	if err := validateChildPublicKey(point); err != nil {
		return err
	}
	pub := parent.GetKeyBytes()
	id, err := HashRipeMD160onSha256(pub[:])
	if err != nil {
		return err
	}
	child.setFingerPrint(FingerPrint(id[:4]))
	sum := addPublicKeys(point, pub[:])
	if err := validateChildPublicKey(sum); err != nil {
		return err
	}
	child.setPubKeyBytes(KeyBytes(sum))
	return nil
}
''')
f('x-child-switch', B, '(key *Key) NewChildKey(', '''func (key *Key) NewChildKey(childIdx uint32) (childKey Key, err error) {
	switch {
	case key.IsPrivate():
	case childIdx >= FirstHardenedChild:
		return childKey, ErrHardenedChildPublicKey
	}
	if key[DepthStartIndex] == 0xff {
		return childKey, ErrDepthExceeded
	}
	intermediary, err := key.getIntermediary(childIdx)
	if err != nil {
		return childKey, err
	}
	if err = ValidatePrivateKey(PvtKeyBytes(intermediary[:32])); err != nil {
		return childKey, err
	}
	vsVal := key.GetVersion()
	var entries []VersionBytes
	if key.IsPrivate() {
		entries = PvtFlagToHDBytesSlice[vsVal]
	} else {
		entries = PubFlagToHDBytesSlice[vsVal]
	}
	if len(entries) == 0 {
		return childKey, ErrUnSupportedHDVersionBytes
	}
	childKey = *key
	childKey[DepthStartIndex]++
	copy(childKey[ChildNumberStartIndex:ChildNumberEndIndex], uint32Bytes(childIdx))
	copy(childKey[ChainCodeStartIndex:ChainCodeEndIndex], intermediary[32:])

	parentPub := []byte(key[PubKeyStartIndex:PubKeyEndIndex])
	if key.IsPrivate() {
		parentPub = publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	fingerprint, err := HashRipeMD160onSha256(parentPub)
	if err != nil {
		return childKey, err
	}
	copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
	if key.IsPrivate() {
		copy(childKey[PvtKeyStartIndex:PvtKeyEndIndex], addPrivateKeys(intermediary[:32], key[PvtKeyStartIndex:PvtKeyEndIndex]))
		return childKey, ValidatePrivateKey(childKey.GetPvtKeyBytes())
	}
	tweakPub := publicKeyForPrivateKey(intermediary[:32])
	if err = validateChildPublicKey(tweakPub); err != nil {
		return childKey, err
	}
	childPub := addPublicKeys(tweakPub, parentPub)
	if err = validateChildPublicKey(childPub); err != nil {
		return childKey, err
	}
	copy(childKey[PubKeyStartIndex:PubKeyEndIndex], childPub)
	return childKey, nil
}
''')
f('x-child-neuterbranch', B, '(key *Key) getIntermediary(', '''func (key *Key) getIntermediary(childIdx uint32) ([]byte, error) {
	var data []byte
	switch {
	case childIdx >= FirstHardenedChild:
		data = append([]byte{0}, key[PvtKeyStartIndex:PvtKeyEndIndex]...)
	case key.IsPrivate():
		data = publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	default:
		data = append(data, key[PubKeyStartIndex:PubKeyEndIndex]...)
	}
	mac := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	if _, err := mac.Write(data); err != nil {
		return nil, err
	}
	if _, err := mac.Write(uint32Bytes(childIdx)); err != nil {
		return nil, err
	}
	return mac.Sum(nil), nil
}
''')
f('x-inter-37', B, '(key *Key) getIntermediary(', '''func (key *Key) getIntermediary(childIdx uint32) ([]byte, error) {
	data := make([]byte, 37)
	if childIdx >= FirstHardenedChild {
		// 0x00 || ser256(k) || ser32(i); for a private key that is just the key field
		copy(data[1:33], key[PvtKeyStartIndex:PvtKeyEndIndex])
	} else if key.IsPrivate() {
		copy(data, publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
	} else {
		copy(data, key[PubKeyStartIndex:PubKeyEndIndex])
	}
	binary.BigEndian.PutUint32(data[33:], childIdx)
	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	if _, err := hm.Write(data); err != nil {
		return nil, err
	}
	return hm.Sum(nil), nil
}
''')
f('x-inter-appenduint', B, '(key *Key) getIntermediary(', '''func (key *Key) getIntermediary(childIdx uint32) ([]byte, error) {
	data := make([]byte, 0, 37)
	if childIdx >= FirstHardenedChild {
		data = append(data, 0)
		data = append(data, key[PvtKeyStartIndex:PvtKeyEndIndex]...)
	} else {
		pub := key.PublicKeyExtended()
		data = append(data, pub[PubKeyStartIndex:PubKeyEndIndex]...)
	}
	data = binary.BigEndian.AppendUint32(data, childIdx)
	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	hm.Write(data)
	return hm.Sum(nil), nil
}
''')
f('x-neuter-copy', B, '(key *Key) PublicKeyExtended()', '''func (key *Key) PublicKeyExtended() Key {
	pub := *key
	version := key.GetVersion()
	if !key.IsPrivate() {
		if len(PubFlagToHDBytesSlice[version]) == 0 {
			pub.SetVersion(DefaultMainnetVersion.PubKeyFlagBytes())
		}
		return pub
	}
	entry := DefaultMainnetVersion
	if entries := PvtFlagToHDBytesSlice[version]; len(entries) > 0 {
		entry = entries[0]
	}
	pub.SetVersionUint32(entry.PubKeyFlag)
	pub.setPubKeyBytes(KeyBytes(publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])))
	return pub
}
''')
f('x-neuter-helper', B, '(key *Key) PublicKeyExtended()', '''func (key *Key) PublicKeyExtended() Key {
	var pub Key
	copy(pub[DepthStartIndex:PubKeyStartIndex], key[DepthStartIndex:PubKeyStartIndex])
	pub.SetVersion(key.publicVersion())
	pub.setPubKeyBytes(key.publicKeyBytes())
	return pub
}

// publicVersion is the version the public counterpart of key carries
func (key *Key) publicVersion() Version {
	if key.IsPrivate() {
		if hd, ok := PvtFlagToHDBytesSlice[key.GetVersion()]; ok && len(hd) != 0 {
			return hd[0].PubKeyFlagBytes()
		}
	} else if hd, ok := PubFlagToHDBytesSlice[key.GetVersion()]; ok && len(hd) != 0 {
		return Version(key[VersionStartIndex:VersionEndIndex])
	}
	return DefaultMainnetVersion.PubKeyFlagBytes()
}

func (key *Key) publicKeyBytes() (b KeyBytes) {
	if key.IsPrivate() {
		copy(b[:], publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
		return b
	}
	return key.GetKeyBytes()
}
''')
f('x-ser-compare', B, '(key *Key) Serialize()', '''func (key *Key) Serialize() ([]byte, error) {
	if *key == (Key{}) {
		return nil, ErrEmptyKey
	}
	return AddChecksumDblSha256ToBytes(key[:])
}
''')
f('x-ser-full', B, '(key *Key) Serialize()', '''func (key *Key) Serialize() ([]byte, error) {
	var empty Key
	if *key == empty {
		return nil, ErrEmptyKey
	}
	checksum, err := ChecksumDblSha256(key[:])
	if err != nil {
		return nil, err
	}
	out := make([]byte, 0, len(key)+len(checksum))
	out = append(out, key[:]...)
	out = append(out, checksum...)
	return out, nil
}
''')
f('x-b58-string', B, '(key *Key) B58Serialize()', '''func (key *Key) B58Serialize() (text string) {
	if serialized, err := key.Serialize(); err == nil {
		text = base58.Encode(serialized)
	}
	return
}
''')
f('x-isvalid-and', B, '(key *Key) IsValid()', '''func (key *Key) IsValid() bool {
	if serialized, err := key.Serialize(); err == nil {
		_, err = Deserialize(serialized)
		return err == nil
	}
	return false
}
''')
f('x-isvalid-direct', B, '(key *Key) IsValid()', '''func (key *Key) IsValid() bool {
	if *key == (Key{}) {
		return false
	}
	return key.validateKeyMaterial() == nil
}

func (key *Key) validateKeyMaterial() error {
	if key.IsPrivate() {
		return ValidatePrivateKey(key.GetPvtKeyBytes())
	}
	return validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
}
''')
f('x-deser-split', B, 'Deserialize(', '''func Deserialize(data []byte) (Key, error) {
	const payload = len(Key{})
	if len(data) != payload+4 {
		var partial Key
		copy(partial[:], data)
		return partial, ErrSerializedKeyWrongSize
	}
	key := Key(data[:payload])
	want, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
	if !bytes.Equal(want, data[payload:]) {
		return key, ErrInvalidChecksum
	}
	if !key.IsPrivate() {
		return key, validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
	}
	return key, ValidatePrivateKey(key.GetPvtKeyBytes())
}
''', imp(B, 'bytes'))
f('x-deser-subtle', B, 'Deserialize(', '''func Deserialize(data []byte) (Key, error) {
	var key Key
	copy(key[:], data)
	if len(data) != 82 {
		return key, ErrSerializedKeyWrongSize
	}
	sum, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
	if subtle.ConstantTimeCompare(sum, data[78:]) != 1 {
		return key, ErrInvalidChecksum
	}
	switch key.IsPrivate() {
	case true:
		return key, ValidatePrivateKey(key.GetPvtKeyBytes())
	default:
		return key, validatePublicKey(key[PubKeyStartIndex:])
	}
}
''', imp(B, 'crypto/subtle'))
f('x-deser-uint', B, 'Deserialize(', '''func Deserialize(data []byte) (key Key, err error) {
	n := copy(key[:], data)
	if n < len(key) || len(data) != len(key)+4 {
		return key, ErrSerializedKeyWrongSize
	}
	checksum, err := ChecksumDblSha256(data[:n])
	if err != nil {
		return key, err
	}
	if binary.BigEndian.Uint32(checksum) != binary.BigEndian.Uint32(data[n:]) {
		return key, ErrInvalidChecksum
	}
	if key.IsPrivate() {
		err = ValidatePrivateKey(key.GetPvtKeyBytes())
	} else {
		err = validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
	}
	return key, err
}
''')
f('x-hex-format', B, '(key *Key) PrivateKeyHex()', '''func (key *Key) PrivateKeyHex() string {
	if !key.IsPrivate() {
		return ""
	}
	return fmt.Sprintf("%x", key[PvtKeyStartIndex:PvtKeyEndIndex])
}
''', imp(B, 'fmt'))
f('x-pubhex-one', B, '(key *Key) PublicKeyHex()', '''func (key *Key) PublicKeyHex() string {
	pub := key.PublicKeyExtended()
	kb := pub.GetKeyBytes()
	return hex.EncodeToString(kb[:])
}
''')
f('x-pubhex-direct', B, '(key *Key) PublicKeyHex()', '''func (key *Key) PublicKeyHex() string {
	raw := key[PubKeyStartIndex:PubKeyEndIndex]
	if key.IsPrivate() {
		raw = publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	out := make([]byte, hex.EncodedLen(len(raw)))
	hex.Encode(out, raw)
	return string(out)
}
''')
f('x-newseed-full', B, 'NewSeed()', '''func NewSeed() ([]byte, error) {
	var seed [256]byte
	if _, err := io.ReadFull(rand.Reader, seed[:]); err != nil {
		return seed[:], err
	}
	return seed[:], nil
}
''', imp(B, 'io'))
f('x-version-shift', B, '(key *Key) GetVersion()', '''func (key *Key) GetVersion() uint32 {
	var v uint32
	for _, b := range key[VersionStartIndex:VersionEndIndex] {
		v = v<<8 | uint32(b)
	}
	return v
}
''')
ff('x-field-helper', e(B, '(key *Key) setChainCode(', '''func (key *Key) setChainCode(code ChainCode) {
	key.put(ChainCodeStartIndex, code[:])
}

// put stores b in the field that starts at offset
func (key *Key) put(offset int, b []byte) {
	copy(key[offset:offset+len(b)], b)
}
'''), e(B, '(key *Key) SetVersion(', '''func (key *Key) SetVersion(v Version) {
	key.put(VersionStartIndex, v[:])
}
'''), e(B, '(key *Key) setFingerPrint(', '''func (key *Key) setFingerPrint(f FingerPrint) {
	key.put(FingerPrintStartIndex, f[:])
}
'''), e(B, '(key *Key) setPvtKeyBytes(', '''func (key *Key) setPvtKeyBytes(b PvtKeyBytes) {
	key.put(PvtKeyStartIndex, b[:])
}
'''), e(B, '(key *Key) setPubKeyBytes(', '''func (key *Key) setPubKeyBytes(b KeyBytes) {
	key.put(PubKeyStartIndex, b[:])
}
'''))
ff('x-field-array', e(B, '(key *Key) setChainCode(', '''func (key *Key) setChainCode(code ChainCode) {
	*(*ChainCode)(key[ChainCodeStartIndex:ChainCodeEndIndex]) = code
}
'''), e(B, '(key *Key) GetChainCode()', '''func (key *Key) GetChainCode() ChainCode {
	return *(*ChainCode)(key[ChainCodeStartIndex:ChainCodeEndIndex])
}
'''))
# ---------------------------------------------------------------- utils.go
f('x-validate-int', U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	k := new(big.Int).SetBytes(key[:])
	if k.Sign() <= 0 || k.Cmp(curveParams.N) >= 0 {
		return ErrInvalidPrivateKey
	}
	return nil
}
''', noimp(U, 'fmt'), noimp(U, 'strings'))
f('x-validate-scalar', U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	if key == (PvtKeyBytes{}) {
		return ErrInvalidPrivateKey
	}
	order := curveParams.N.FillBytes(make([]byte, 32))
	if bytes.Compare(order, key[:]) <= 0 {
		return ErrInvalidPrivateKey
	}
	return nil
}
''', noimp(U, 'fmt'), noimp(U, 'strings'))
f('x-validate-modn', U, 'ValidatePrivateKey(', '''func ValidatePrivateKey(key PvtKeyBytes) error {
	var k secp256k1.ModNScalar
	if overflow := k.SetByteSlice(key[:]); overflow || k.IsZero() {
		return ErrInvalidPrivateKey
	}
	return nil
}
''', noimp(U, 'fmt'), noimp(U, 'strings'))
f('x-addpriv-fill2', U, 'addPrivateKeys(', '''func addPrivateKeys(key1 []byte, key2 []byte) []byte {
	sum := new(big.Int).SetBytes(key1)
	sum.Add(sum, new(big.Int).SetBytes(key2))
	sum.Mod(sum, curveParams.N)
	var out [32]byte
	return sum.FillBytes(out[:])
}
''')
f('x-addpriv-modn', U, 'addPrivateKeys(', '''func addPrivateKeys(key1 []byte, key2 []byte) []byte {
	var a, b secp256k1.ModNScalar
	a.SetByteSlice(key1)
	b.SetByteSlice(key2)
	sum := a.Add(&b).Bytes()
	return sum[:]
}
''')
f('x-compress-buf', U, 'compressPublicKey(', '''func compressPublicKey(x *big.Int, y *big.Int) []byte {
	out := make([]byte, PublicKeyCompressedLength)
	out[0] = 0x02 | byte(y.Bit(0))
	x.FillBytes(out[1:])
	return out
}
''', noimp(U, 'bytes'), (U, 'bytes.Compare(key[:], curveParams.N.Bytes()) >= 0', 'new(big.Int).SetBytes(key[:]).Cmp(curveParams.N) >= 0'))
f('x-compress-parity', U, 'compressPublicKey(', '''func compressPublicKey(x *big.Int, y *big.Int) []byte {
	prefix := byte(0x02)
	if new(big.Int).And(y, big.NewInt(1)).Sign() != 0 {
		prefix = 0x03
	}
	xBytes := x.Bytes()
	pad := bytes.Repeat([]byte{0}, PublicKeyCompressedLength-1-len(xBytes))
	return append(append([]byte{prefix}, pad...), xBytes...)
}
''')
f('x-expand-short', U, 'ExpandPublicKey(', '''func ExpandPublicKey(key []byte) (*big.Int, *big.Int) {
	x := new(big.Int).SetBytes(key[1:])
	// y^2 = x^3 + 7
	y2 := new(big.Int).Mul(x, x)
	y2.Mul(y2, x)
	y2.Add(y2, curveParams.B)
	y := new(big.Int).ModSqrt(y2, curveParams.P)
	if y == nil {
		y = new(big.Int)
	}
	if y.Bit(0) != uint(key[0])-2 {
		y.Sub(curveParams.P, y)
	}
	return x, y
}
''')
f('x-expand-mod', U, 'ExpandPublicKey(', '''func ExpandPublicKey(key []byte) (*big.Int, *big.Int) {
	x := new(big.Int).SetBytes(key[1:])
	y := new(big.Int)
	y.ModSqrt(curveEquation(x), curveParams.P)
	odd := uint64(key[0]) - 2
	if uint64(y.Bit(0)) != odd {
		y = new(big.Int).Sub(curveParams.P, y)
	}
	return x, y
}

// curveEquation is x^3 + 7 mod p
func curveEquation(x *big.Int) *big.Int {
	r := new(big.Int).Exp(x, big.NewInt(3), curveParams.P)
	r.Add(r, curveParams.B)
	return r.Mod(r, curveParams.P)
}
''')
f('x-hash160-write', U, 'HashRipeMD160onSha256(', '''func HashRipeMD160onSha256(data []byte) ([]byte, error) {
	first := sha256.New()
	if _, err := first.Write(data); err != nil {
		return nil, err
	}
	return hashRipeMD160(first.Sum(nil))
}
''')
f('x-dblsha', U, 'ChecksumDblSha256(', '''func ChecksumDblSha256(data []byte) ([]byte, error) {
	first := sha256.Sum256(data)
	second := sha256.Sum256(first[:])
	checksum := make([]byte, 4)
	copy(checksum, second[:4])
	return checksum, nil
}
''', noimp(U, 'github.com/btcsuite/btcd/chaincfg/chainhash'))
f('x-addsum', U, 'AddChecksumDblSha256ToBytes(', '''func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
	checksum, err := ChecksumDblSha256(data)
	if err != nil {
		return nil, err
	}
	return bytes.Join([][]byte{data, checksum}, nil), nil
}
''')
f('x-uint32-append', U, 'uint32Bytes(', '''func uint32Bytes(i uint32) []byte {
	return binary.BigEndian.AppendUint32(nil, i)
}
''')
f('x-parse-pub', U, 'validatePublicKey(', '''func validatePublicKey(key []byte) error {
	_, err := secp256k1.ParsePubKey(key)
	if err != nil || len(key) != PublicKeyCompressedLength {
		return ErrInvalidPublicKey
	}
	return nil
}
''')
# ---------------------------------------------------------------- path.go
f('x-path-string-fields', P, '(p Path) String()', '''func (p Path) String() string {
	var b strings.Builder
	for _, r := range string(p) {
		switch r {
		case ' ', '\\t', '\\n', '\\f', '\\r':
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}
''') if False else None
f('x-path-values-parse', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	text := p.String()
	if !PathRegex.MatchString(text) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	components := strings.Split(text, "/")
	values := make([]uint32, 1, len(components))
	for _, component := range components[1:] {
		value, err := parseComponent(component)
		if err != nil {
			return values, err
		}
		values = append(values, value)
	}
	return values, nil
}

func parseComponent(component string) (uint32, error) {
	number := strings.TrimSuffix(component, "'")
	value, err := strconv.ParseUint(number, 10, 32)
	if err != nil {
		return 0, err
	}
	if number == component {
		return uint32(value), nil
	}
	if value >= uint64(FirstHardenedChild) {
		return 0, ErrUnSupportedOrInvalidPath
	}
	return uint32(value) | FirstHardenedChild, nil
}
''')
f('x-path-values-cut', P, '(p Path) ValuesAtDepth()', '''func (p Path) ValuesAtDepth() ([]uint32, error) {
	str := p.String()
	if !PathRegex.MatchString(str) {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := []uint32{0}
	for i, s := range strings.Split(str, "/") {
		if i == 0 {
			continue
		}
		hardened := strings.HasSuffix(s, "'")
		if hardened {
			s = s[:len(s)-1]
		}
		val, err := strconv.ParseUint(s, 10, 32)
		if err != nil {
			return result, err
		}
		idx := uint32(val)
		if hardened {
			if idx >= FirstHardenedChild {
				return result, ErrUnSupportedOrInvalidPath
			}
			idx += FirstHardenedChild
		}
		result = append(result, idx)
	}
	return result, nil
}
''')
f('x-path-replace', P, '(p Path) ReplaceValueAtDepth(', '''func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
	vals, err := p.ValuesAtDepth()
	if err != nil {
		return p, err
	}
	depth := int(b)
	if depth == 0 || depth >= len(vals) {
		return p, ErrUnSupportedOrInvalidPath
	}
	components := strings.Split(p.String(), "/")
	components[depth] = formatComponent(val)
	if replaced := Path(strings.Join(components, "/")); replaced.IsValid() {
		return replaced, nil
	}
	return p, ErrUnSupportedOrInvalidPath
}

func formatComponent(val uint32) string {
	if val < FirstHardenedChild {
		return strconv.FormatUint(uint64(val), 10)
	}
	return strconv.FormatUint(uint64(val-FirstHardenedChild), 10) + "'"
}
''', noimp(P, 'fmt'))
f('x-path-value', P, '(p Path) ValueAtDepth(', '''func (p Path) ValueAtDepth(b byte) (val uint32, err error) {
	vals, err := p.ValuesAtDepth()
	switch {
	case err != nil:
		return 0, err
	case len(vals) <= int(b):
		return 0, ErrUnSupportedOrInvalidPath
	default:
		return vals[b], nil
	}
}
''')
# ---------------------------------------------------------------- reg_ver_bytes.go
ff('x-ver-component', e(G, '(h VersionBytes) PurposeVal()', '''func (h VersionBytes) PurposeVal() (uint32, error) {
	return h.pathValue(1, ErrInvalidPurpose)
}

// pathValue is the number at the given depth of the entry's path
func (h VersionBytes) pathValue(depth int, tooBig error) (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	components := strings.Split(h.Path.String(), "/")
	number, err := strconv.Atoi(strings.TrimSuffix(components[depth], "'"))
	if err != nil {
		return 0, err
	}
	if uint32(number) >= FirstHardenedChild {
		return 0, tooBig
	}
	return uint32(number), nil
}
'''), e(G, '(h VersionBytes) CoinVal()', '''func (h VersionBytes) CoinVal() (uint32, error) {
	return h.pathValue(2, ErrInvalidCoin)
}
'''), e(G, '(h VersionBytes) PurposeValFull()', '''func (h VersionBytes) PurposeValFull() (uint32, error) {
	return hardened(h.PurposeVal())
}

func hardened(val uint32, err error) (uint32, error) {
	if err != nil {
		return 0, err
	}
	return val + FirstHardenedChild, nil
}
'''), e(G, '(h VersionBytes) CoinValFull()', '''func (h VersionBytes) CoinValFull() (uint32, error) {
	return hardened(h.CoinVal())
}
'''))
f('x-ver-parseuint', G, '(h VersionBytes) CoinVal()', '''func (h VersionBytes) CoinVal() (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	parts := strings.Split(h.Path.String(), "/")
	coin, err := strconv.ParseUint(strings.TrimRight(parts[2], "'"), 10, 32)
	if err != nil {
		return 0, err
	}
	if coin >= uint64(FirstHardenedChild) {
		return 0, ErrInvalidCoin
	}
	return uint32(coin), nil
}
''')
f('x-ver-init', G, 'init()', '''func init() {
	add := func(index map[uint32][]VersionBytes, value uint32, entry VersionBytes) {
		index[value] = append(index[value], entry)
	}
	for _, entries := range PathToHDBytesSlice {
		for _, entry := range entries {
			purpose, _ := entry.PurposeVal()
			purposeFull, _ := entry.PurposeValFull()
			coin, _ := entry.CoinVal()
			add(PvtFlagToHDBytesSlice, entry.PvtKeyFlag, entry)
			add(PubFlagToHDBytesSlice, entry.PubKeyFlag, entry)
			add(PurposeToHDBytesSlice, purpose, entry)
			add(PurposeFullToHDBytesSlice, purposeFull, entry)
			add(CoinTypeToHDBytesSlice, coin, entry)
			HDVersionBytesSlice = append(HDVersionBytesSlice, entry)
		}
	}
}
''')
f('x-ver-bytes', G, '(h VersionBytes) PvtKeyFlagBytes()', '''func (h VersionBytes) PvtKeyFlagBytes() (b [4]byte) {
	for i := range b {
		b[i] = byte(h.PvtKeyFlag >> (24 - 8*i))
	}
	return
}
''')
# ---------------------------------------------------------------- bip39.go
f('y-list', M, 'SetWordList(', '''func SetWordList(list []string) {
	words := make([]string, len(list))
	copy(words, list)
	index := make(map[string]int, len(words))
	for i := range words {
		index[words[i]] = i
	}
	wordList, wordMap = words, index
}
''')
f('y-getlist', M, 'GetWordList()', '''func GetWordList() []string {
	list := make([]string, 0, len(wordList))
	for _, w := range wordList {
		list = append(list, w)
	}
	return list
}
''')
f('y-entropy', M, 'NewEntropy(', '''func NewEntropy(bitSize int) ([]byte, error) {
	err := validateEntropyBitSize(bitSize)
	if err != nil {
		return nil, err
	}
	entropy := make([]byte, bitSize>>3)
	n, err := io.ReadFull(rand.Reader, entropy)
	if err != nil || n != len(entropy) {
		return nil, err
	}
	return entropy, nil
}
''', imp(M, 'io')) if False else None
f('y-decode', M, 'EntropyFromMnemonic(', '''func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
	words, ok := splitMnemonicWords(mnemonic)
	if !ok {
		return nil, ErrInvalidMnemonic
	}
	value := new(big.Int)
	for _, w := range words {
		idx, ok := wordMap[w]
		if !ok {
			return nil, fmt.Errorf("word `%v` not found in reverse map", w)
		}
		value.Lsh(value, 11)
		value.Or(value, big.NewInt(int64(idx)))
	}
	checksumBits := uint(len(words) / 3)
	mask := new(big.Int).Sub(new(big.Int).Lsh(bigOne, checksumBits), bigOne)
	got := new(big.Int).And(value, mask)
	value.Rsh(value, checksumBits)
	entropy := value.FillBytes(make([]byte, len(words)/3*4))
	want := computeChecksum(entropy)[0] >> (8 - checksumBits)
	if got.Uint64() != uint64(want) {
		return nil, ErrChecksumIncorrect
	}
	return entropy, nil
}
''', ('bip39/bip39.go', '''	"encoding/binary"
''', '''	"encoding/binary"
'''))
f('y-decode-index', M, 'EntropyFromMnemonic(', '''func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
	mnemonicSlice, isValid := splitMnemonicWords(mnemonic)
	if !isValid {
		return nil, ErrInvalidMnemonic
	}
	b, err := indexesToInt(mnemonicSlice)
	if err != nil {
		return nil, err
	}
	checksumMask := wordLengthChecksumMasksMapping[len(mnemonicSlice)]
	checksum := new(big.Int).And(b, checksumMask)
	quotient := new(big.Int).Div(b, new(big.Int).Add(checksumMask, bigOne))
	entropy := padByteSlice(quotient.Bytes(), len(mnemonicSlice)/3*4)
	if !checksumMatches(checksum, entropy, len(mnemonicSlice)) {
		return nil, ErrChecksumIncorrect
	}
	return entropy, nil
}

func indexesToInt(words []string) (*big.Int, error) {
	b := new(big.Int)
	for _, v := range words {
		index, found := GetWordIndex(v)
		if !found {
			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
		}
		b.Mul(b, shift11BitsMask)
		b.Add(b, big.NewInt(int64(index)))
	}
	return b, nil
}

func checksumMatches(checksum *big.Int, entropy []byte, words int) bool {
	expected := big.NewInt(int64(computeChecksum(entropy)[0]))
	if shift, ok := wordLengthChecksumShiftMapping[words]; ok {
		expected.Div(expected, shift)
	}
	return checksum.Cmp(expected) == 0
}
''')
f('y-encode', M, 'NewMnemonic(', '''func NewMnemonic(entropy []byte) (string, error) {
	bits := len(entropy) * 8
	if err := validateEntropyBitSize(bits); err != nil {
		return "", err
	}
	count := (bits + bits/32) / 11
	value := new(big.Int).SetBytes(addChecksum(entropy))
	words := make([]string, count)
	for i := range words {
		chunk := new(big.Int).Rsh(value, uint(11*(count-1-i)))
		chunk.And(chunk, last11BitsMask)
		words[i] = wordList[chunk.Int64()]
	}
	return strings.Join(words, " "), nil
}
''')
f('y-encode-bits', M, 'NewMnemonic(', '''func NewMnemonic(entropy []byte) (string, error) {
	if err := validateEntropyBitSize(len(entropy) * 8); err != nil {
		return "", err
	}
	data := append(append([]byte{}, entropy...), computeChecksum(entropy)[0])
	count := len(entropy) * 3 / 4
	words := make([]string, 0, count)
	acc, bits := 0, 0
	for _, b := range data {
		acc = acc<<8 | int(b)
		bits += 8
		if bits >= 11 && len(words) < count {
			bits -= 11
			words = append(words, wordList[acc>>bits])
			acc &= 1<<bits - 1
		}
	}
	return strings.Join(words, " "), nil
}
''') if False else None
f('y-encode-dec', M, 'NewMnemonic(', '''func NewMnemonic(entropy []byte) (string, error) {
	if err := validateEntropyBitSize(len(entropy) * 8); err != nil {
		return "", err
	}
	sentenceLength := len(entropy) / 4 * 3
	rest := new(big.Int).SetBytes(addChecksum(entropy))
	index := new(big.Int)
	words := make([]string, sentenceLength)
	for i := len(words); i > 0; i-- {
		rest.DivMod(rest, shift11BitsMask, index)
		words[i-1] = wordList[index.Uint64()]
	}
	return strings.Join(words, " "), nil
}
''')
f('y-checksum', M, 'addChecksum(', '''func addChecksum(data []byte) []byte {
	checksumBits := uint(len(data)) / 4
	top := computeChecksum(data)[0] >> (8 - checksumBits)
	sum := new(big.Int).SetBytes(data)
	sum.Lsh(sum, checksumBits)
	sum.Or(sum, big.NewInt(int64(top)))
	return sum.Bytes()
}
''')
f('y-bytes', M, 'MnemonicToByteArray(', '''func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
	entropy, err := EntropyFromMnemonic(mnemonic)
	if err != nil {
		return nil, err
	}
	wantRaw := len(raw) > 0 && raw[0]
	if wantRaw {
		return entropy, nil
	}
	// the checksum has one bit per 32 bits of entropy, which always needs one byte more
	return padByteSlice(addChecksum(entropy), len(entropy)+1), nil
}
''')
f('y-seed', M, 'NewSeed(', '''func NewSeed(mnemonic string, password string) []byte {
	const (
		iterations = 2048
		keyLength  = 64
	)
	salt := make([]byte, 0, len("mnemonic")+len(password))
	salt = append(salt, "mnemonic"...)
	salt = append(salt, password...)
	return pbkdf2.Key([]byte(mnemonic), salt, iterations, keyLength, sha512.New)
}
''')
f('y-seedcheck', M, 'NewSeedWithErrorChecking(', '''func NewSeedWithErrorChecking(mnemonic string, password string) (seed []byte, err error) {
	if _, err = EntropyFromMnemonic(mnemonic); err == nil {
		seed = NewSeed(mnemonic, password)
	}
	return seed, err
}
''')
f('y-split', M, 'splitMnemonicWords(', '''func splitMnemonicWords(mnemonic string) ([]string, bool) {
	words := strings.Fields(mnemonic)
	switch len(words) {
	case 12, 15, 18, 21, 24:
		return words, true
	}
	return nil, false
}
''')
f('y-valbits', M, 'validateEntropyBitSize(', '''func validateEntropyBitSize(bitSize int) error {
	switch bitSize {
	case 128, 160, 192, 224, 256:
		return nil
	default:
		return ErrEntropyLengthInvalid
	}
}
''')
# ---------------------------------------------------------------- util
f('z-gen', T, 'GenerateMnemonic(', '''func GenerateMnemonic(wordsCount byte) (string, error) {
	switch wordsCount {
	case Words12, Words15, Words18, Words21, Words24:
	default:
		return "", ErrInvalidMnemonicWordsCount
	}
	entropy, err := bip39.NewEntropy(int(wordsCount) / 3 * 32)
	if err != nil {
		return "", err
	}
	return bip39.NewMnemonic(entropy)
}
''')
f('z-gen-map', T, 'GenerateMnemonic(', '''func GenerateMnemonic(wordsCount byte) (mnemonic string, err error) {
	bitSizes := map[byte]int{Words12: 128, Words15: 160, Words18: 192, Words21: 224, Words24: 256}
	bitSize, ok := bitSizes[wordsCount]
	if !ok {
		return "", ErrInvalidMnemonicWordsCount
	}
	var entropy []byte
	if entropy, err = bip39.NewEntropy(bitSize); err != nil {
		return "", err
	}
	if mnemonic, err = bip39.NewMnemonic(entropy); err != nil {
		return "", err
	}
	return mnemonic, nil
}
''')
f('z-seed', T, 'DeriveSeedFromMnemonic(', '''func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string, error) {
	seed, err := bip39.NewSeedWithErrorChecking(mnemonic, mnemonicPassphrase)
	if err != nil {
		return "", err
	}
	return hex.EncodeToString(seed), nil
}
''')
f('z-root', T, 'RootKeyFromSeed(', '''func RootKeyFromSeed(seed string) (*bip32.Key, error) {
	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return new(bip32.Key), err
	}
	if len(seedBs) < 16 {
		return new(bip32.Key), ErrInvalidBIP39Seed
	}
	rootKey, err := bip32.NewMasterKey(seedBs)
	if err != nil {
		return new(bip32.Key), err
	}
	ser, err := rootKey.Serialize()
	if err != nil {
		return rootKey, err
	}
	if _, err = bip32.Deserialize(ser); err != nil {
		return rootKey, err
	}
	return rootKey, nil
}
''')
f('z-root-short', T, 'RootKeyFromSeed(', '''func RootKeyFromSeed(seed string) (*bip32.Key, error) {
	seedBs, err := hex.DecodeString(seed)
	switch {
	case err != nil:
		return &bip32.Key{}, err
	case len(seedBs) < 16:
		return &bip32.Key{}, ErrInvalidBIP39Seed
	}
	masterKey, err := bip32.NewMasterKey(seedBs)
	if err != nil {
		return &bip32.Key{}, err
	}
	return masterKey, nil
}
''')
f('z-derive', T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	root := g.rootKey
	if !isMasterKey(&root) {
		return nil, ErrInvalidRootKey
	}
	indexes, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
	result := make([]KeyPath, 0, len(indexes))
	result = append(result, KeyPath{Path: "m", Key: root})
	path, key := "m", root
	for _, index := range indexes[1:] {
		if key, err = key.NewChildKey(index); err != nil {
			return nil, err
		}
		path += "/" + componentText(index)
		result = append(result, KeyPath{Path: Path(path), Key: key})
	}
	return result, nil
}

func isMasterKey(key *bip32.Key) bool {
	return key.IsValid() && key.IsPrivate() && key.GetDepth() == bip32.Depth{}
}

func componentText(index uint32) string {
	if index >= bip32.FirstHardenedChild {
		return fmt.Sprintf("%d'", index-bip32.FirstHardenedChild)
	}
	return fmt.Sprint(index)
}
''')
f('z-derive-index', T, '(g *Generator) DeriveBIP32Result(', '''func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
	rootKey := g.rootKey
	if !rootKey.IsValid() || !rootKey.IsPrivate() || rootKey[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	if !p.IsValid() {
		return nil, ErrUnSupportedOrInvalidPath
	}
	pathItems, err := p.ValuesAtDepth()
	if err != nil {
		return nil, err
	}
	keyPaths := make([]KeyPath, len(pathItems))
	keyPaths[0] = KeyPath{Path: "m", Key: rootKey}
	for i := 1; i < len(pathItems); i++ {
		val := pathItems[i]
		parent := keyPaths[i-1]
		child, err := parent.Key.NewChildKey(val)
		if err != nil {
			return nil, err
		}
		suffix := ""
		if val >= bip32.FirstHardenedChild {
			suffix = "'"
		}
		keyPaths[i] = KeyPath{
			Path: Path(fmt.Sprintf("%s/%d%s", parent.Path, val%bip32.FirstHardenedChild, suffix)),
			Key:  child,
		}
	}
	return keyPaths, nil
}
''')
f('z-range', K, '(k *KeyPathRange) GenerateRange()', '''func (k *KeyPathRange) GenerateRange() error {
	switch {
	case k.StartIndex >= k.EndIndex:
		return ErrInvalidRangeProvided
	case !k.Key.IsValid():
		return ErrInvalidRootKey
	case !k.Path.IsValid():
		return ErrUnSupportedOrInvalidPath
	}
	var list []KeyPath
	last := KeyPath{Path: k.Path.Formatted(), Key: k.Key}
	for index := k.StartIndex; index < k.EndIndex; index++ {
		next, err := last.child(index)
		if err != nil {
			return err
		}
		list = append(list, next)
		last = next
	}
	k.KeyPaths = list
	return nil
}

// child is the entry one level below b at the given index
func (b KeyPath) child(index uint32) (KeyPath, error) {
	key, err := b.Key.NewChildKey(index)
	if err != nil {
		return KeyPath{}, err
	}
	format := "%s/%d"
	if index >= bip32.FirstHardenedChild {
		format += "'"
	}
	path := fmt.Sprintf(format, b.Path, index%bip32.FirstHardenedChild)
	return KeyPath{Path: Path(path), Key: key}, nil
}
''')
f('z-range-cap', K, '(k *KeyPathRange) GenerateRange()', '''func (k *KeyPathRange) GenerateRange() error {
	if k.EndIndex <= k.StartIndex {
		return ErrInvalidRangeProvided
	}
	if !k.Key.IsValid() {
		return ErrInvalidRootKey
	}
	if !k.Path.IsValid() {
		return ErrUnSupportedOrInvalidPath
	}
	key, path := k.Key, k.Path.String()
	var keyPaths []KeyPath
	for i := k.StartIndex; i != k.EndIndex; i++ {
		var err error
		key, err = key.NewChildKey(i)
		if err != nil {
			return err
		}
		if i < bip32.FirstHardenedChild {
			path = fmt.Sprintf("%s/%d", path, i)
		} else {
			path = fmt.Sprintf("%s/%d'", path, i-bip32.FirstHardenedChild)
		}
		keyPaths = append(keyPaths, KeyPath{Path: Path(path), Key: key})
	}
	k.KeyPaths = keyPaths
	return nil
}
''')
f('z-addrhex', K, '(b KeyPath) AddrHex()', '''func (b KeyPath) AddrHex() string {
	pub, err := hex.DecodeString(b.Key.PublicKeyHex())
	if err != nil {
		return ""
	}
	x, y := bip32.ExpandPublicKey(pub)
	var point [64]byte
	x.FillBytes(point[:32])
	y.FillBytes(point[32:])
	hash := sha3.NewLegacyKeccak256()
	hash.Write(point[:])
	sum := hash.Sum(nil)
	return hex.EncodeToString(sum[len(sum)-20:])
}
''')
f('z-addrhex-pub', K, '(b KeyPath) AddrHex()', '''func (b KeyPath) AddrHex() string {
	ext := b.Key.PublicKeyExtended()
	pub := ext.GetKeyBytes()
	x, y := bip32.ExpandPublicKey(pub[:])
	hash := sha3.NewLegacyKeccak256()
	hash.Write(x.FillBytes(make([]byte, 32)))
	hash.Write(y.FillBytes(make([]byte, 32)))
	return hex.EncodeToString(hash.Sum(nil)[12:])
}
''')
f('z-p2sh', K, '(b KeyPath) AddrP2SH(', '''func (b KeyPath) AddrP2SH(verPrefix byte) string {
	pub := b.Key.PublicKeyExtended()
	keyHash, err := bip32.HashRipeMD160onSha256(pub[bip32.PubKeyStartIndex:])
	if err != nil {
		return ""
	}
	payload := make([]byte, 0, 25)
	payload = append(payload, verPrefix)
	payload = append(payload, keyHash...)
	full, err := bip32.AddChecksumDblSha256ToBytes(payload)
	if err != nil {
		return ""
	}
	return base58.Encode(full)
}
''')
f('z-p2sh-checkencode', K, '(b KeyPath) AddrP2SH(', '''func (b KeyPath) AddrP2SH(verPrefix byte) string {
	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())
	if err != nil {
		return ""
	}
	pubKeyHash, err := bip32.HashRipeMD160onSha256(pbs)
	if err != nil {
		return ""
	}
	return base58.CheckEncode(pubKeyHash, verPrefix)
}
''')
# ---------------------------------------------------------------- bip44
f('c-coin-string', C, '(c Coin) String()', '''func (c Coin) String() string {
	label := c.Name
	if len(c.Symbol) > 0 {
		label = strings.Join([]string{c.Symbol, c.Name}, " - ")
	}
	return label + fmt.Sprintf(" (Type %d)", c.Type)
}
''')
f('c-coin-string2', C, '(c Coin) String()', '''func (c Coin) String() string {
	if c.Symbol == "" {
		return fmt.Sprintf("%s (Type %d)", c.Name, c.Type)
	}
	return fmt.Sprintf("%s - %s (Type %d)", c.Symbol, c.Name, c.Type)
}
''')
f('c-coin-valid', C, '(c Coin) IsValid()', '''func (c Coin) IsValid() bool {
	const hardened = uint32(1) << 31
	if strings.TrimSpace(c.Name) == "" && strings.TrimSpace(c.Symbol) == "" {
		return false
	}
	return c.Type < hardened && c.PathComponent == c.Type|hardened
}
''')
if __name__ == '__main__': main(R)
