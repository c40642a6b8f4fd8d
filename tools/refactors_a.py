#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
def r(name, *edits): R.append((name, edits))
B, U, P, G = 'bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go'

r('b-master-helper', (B, '''	hm := hmac.New(sha512.New, []byte("Bitcoin seed"))
	_, err := hm.Write(seed)
	if err != nil {
		return nil, err
	}
	intermediary := hm.Sum(nil)
''', '''	intermediary, err := hmacSHA512([]byte("Bitcoin seed"), seed)
	if err != nil {
		return nil, err
	}
'''), (B, '''	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	_, err := hm.Write(dataN)
	if err != nil {
		return nil, err
	}
	return hm.Sum(nil), nil
}
''', '''	return hmacSHA512(key[ChainCodeStartIndex:ChainCodeEndIndex], dataN)
}

func hmacSHA512(key, data []byte) ([]byte, error) {
	mac := hmac.New(sha512.New, key)
	if _, err := mac.Write(data); err != nil {
		return nil, err
	}
	return mac.Sum(nil), nil
}
'''))
r('b-master-reorder', (B, '''	var key = &Key{}
	vs := DefaultMainnetVersion.PvtKeyFlagBytes()
	key.SetVersion(vs)
	key.setChainCode(chainCode)
	key.setPvtKeyBytes(keyBytes)
	return key, nil
''', '''	key := new(Key)
	key.setPvtKeyBytes(keyBytes)
	key.setChainCode(chainCode)
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	return key, nil
'''))
r('b-master-validate-inline', (B, '''	err = ValidatePrivateKey(keyBytes)
	if err != nil {
		return nil, err
	}
	var key''', '''	if err := ValidatePrivateKey(keyBytes); err != nil {
		return nil, err
	}
	var key'''))
r('b-isprivate', (B, '''	return key[PubKeyStartIndex] == 0
''', '''	kb := key.GetKeyBytes()
	return kb[0] == 0x00
'''))
r('b-child-split2', (B, '''	// Bip32 CKDpriv
	if key.IsPrivate() {
		fingerprint, err := HashRipeMD160onSha256(
			publicKeyForPrivateKey(key[PvtKeyStartIndex:PubKeyEndIndex]),
		)
		if err != nil {
			return childKey, err
		}
		childKey.setFingerPrint(FingerPrint(fingerprint))
		kbs := addPrivateKeys(intermediary[:32], key[PvtKeyStartIndex:])
		childKey.setPvtKeyBytes(PvtKeyBytes(kbs))

		// Validate key
		err = ValidatePrivateKey(childKey.GetPvtKeyBytes())
		if err != nil {
			return childKey, err
		}
		// Bip32 CKDpub
	} else {
		vs =''', '''	// Bip32 CKDpriv
	if key.IsPrivate() {
		err := key.fillPrivate(&childKey, intermediary)
		return childKey, err
	} else {
		vs ='''), (B, '''func (key *Key) getIntermediary''', '''func (key *Key) fillPrivate(child *Key, tweak []byte) error {
	fingerprint, err := key.ownFingerprint()
	if err != nil {
		return err
	}
	child.setFingerPrint(fingerprint)
	secret := addPrivateKeys(tweak[:32], key[PvtKeyStartIndex:])
	child.setPvtKeyBytes(PvtKeyBytes(secret))
	if err := ValidatePrivateKey(child.GetPvtKeyBytes()); err != nil {
		return err
	}
	return nil
}

func (key *Key) ownFingerprint() (fp FingerPrint, err error) {
	pub := key.PublicKeyExtended()
	h, err := HashRipeMD160onSha256(pub[PubKeyStartIndex:])
	if err != nil {
		return fp, err
	}
	copy(fp[:], h)
	return fp, nil
}

func (key *Key) getIntermediary'''))
r('b-child-version-helper', (B, '''	vs := Version(key[VersionStartIndex:VersionEndIndex])
	vsVal := binary.BigEndian.Uint32(vs[:])
	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
	} else {
		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
		vs = hdBsArr[0].PubKeyFlagBytes()
	}
''', '''	vs, err := key.childVersion()
	if err != nil {
		return childKey, err
	}
'''), (B, '''		vs = hdBsArr[0].PubKeyFlagBytes()
		keyBytes :=''', '''		keyBytes :='''), (B, '''func (key *Key) getIntermediary''', '''func (key *Key) childVersion() (Version, error) {
	index := PubFlagToHDBytesSlice
	if key.IsPrivate() {
		index = PvtFlagToHDBytesSlice
	}
	entries := index[key.GetVersion()]
	if len(entries) == 0 {
		return Version{}, ErrUnSupportedHDVersionBytes
	}
	if key.IsPrivate() {
		return entries[0].PvtKeyFlagBytes(), nil
	}
	return entries[0].PubKeyFlagBytes(), nil
}

func (key *Key) getIntermediary'''))
r('b-child-setters', (B, '''	childKey.setChildNumber(ChildNumber(uint32Bytes(childIdx)))
	childKey.setChainCode(ChainCode(intermediary[32:]))
	childKey.setDepth(key[DepthStartIndex] + 1)
	childKey.SetVersion(vs)
''', '''	depth := key.GetDepth()
	childKey.SetVersion(vs)
	childKey.setDepth(depth[0] + 1)
	binary.BigEndian.PutUint32(childKey[ChildNumberStartIndex:ChildNumberEndIndex], childIdx)
	copy(childKey[ChainCodeStartIndex:ChainCodeEndIndex], intermediary[32:])
'''))
r('b-child-private-var', (B, '''	var childKey Key
	// Fail early if trying to create hardened child from public key
	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
		return childKey, ErrHardenedChildPublicKey
	}
	if key[DepthStartIndex] == 0xff {
		return childKey, ErrDepthExceeded
	}
''', '''	var (
		childKey   Key
		isPrivate  = key.IsPrivate()
		isHardened = childIdx >= FirstHardenedChild
	)
	switch {
	case isHardened && !isPrivate:
		return childKey, ErrHardenedChildPublicKey
	case key[DepthStartIndex] == 255:
		return childKey, ErrDepthExceeded
	}
'''), (B, '''	// Bip32 CKDpriv
	if key.IsPrivate() {''', '''	if isPrivate {'''))
r('b-child-tweak', (B, '''	err = ValidatePrivateKey(PvtKeyBytes(intermediary[:32]))
	if err != nil {
		return childKey, err
	}
	vs :=''', '''	tweak := PvtKeyBytes(intermediary[:32])
	if err = ValidatePrivateKey(tweak); err != nil {
		return childKey, err
	}
	vs :='''), (B, '''addPrivateKeys(intermediary[:32], key[PvtKeyStartIndex:])''', '''addPrivateKeys(key[PvtKeyStartIndex:PvtKeyEndIndex], tweak[:])'''), (B, '''publicKeyForPrivateKey(intermediary[:32])''', '''publicKeyForPrivateKey(tweak[:])'''))
r('b-inter-append', (B, '''	childIndexBytes := uint32Bytes(childIdx)
	var data [33]byte
	if childIdx >= FirstHardenedChild {
		copy(data[1:], key[PvtKeyStartIndex:PvtKeyEndIndex])
	} else {
		if key.IsPrivate() {
			copy(data[:], publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
		} else {
			copy(data[:], key[PubKeyStartIndex:])
		}
	}
	dataN := append(data[:], childIndexBytes...)
''', '''	dataN := make([]byte, 0, 37)
	switch {
	case childIdx >= FirstHardenedChild:
		dataN = append(dataN, 0)
		dataN = append(dataN, key[PvtKeyStartIndex:PvtKeyEndIndex]...)
	case key.IsPrivate():
		dataN = append(dataN, publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])...)
	default:
		dataN = append(dataN, key[PubKeyStartIndex:PubKeyEndIndex]...)
	}
	dataN = append(dataN, uint32Bytes(childIdx)...)
'''))
r('b-inter-array', (B, '''	childIndexBytes := uint32Bytes(childIdx)
	var data [33]byte
''', '''	var data [37]byte
	binary.BigEndian.PutUint32(data[33:], childIdx)
'''), (B, '''	dataN := append(data[:], childIndexBytes...)
''', '''	dataN := data[:]
'''))
r('b-inter-buffer', (B, '''	childIndexBytes := uint32Bytes(childIdx)
	var data [33]byte
	if childIdx >= FirstHardenedChild {
		copy(data[1:], key[PvtKeyStartIndex:PvtKeyEndIndex])
	} else {
		if key.IsPrivate() {
			copy(data[:], publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
		} else {
			copy(data[:], key[PubKeyStartIndex:])
		}
	}
	dataN := append(data[:], childIndexBytes...)
	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	_, err := hm.Write(dataN)
	if err != nil {
		return nil, err
	}
''', '''	hm := hmac.New(sha512.New, key[ChainCodeStartIndex:ChainCodeEndIndex])
	var data []byte
	if childIdx >= FirstHardenedChild {
		data = append([]byte{0}, key[PvtKeyStartIndex:PvtKeyEndIndex]...)
	} else if key.IsPrivate() {
		data = publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	} else {
		data = key[PubKeyStartIndex:]
	}
	for _, part := range [][]byte{data, uint32Bytes(childIdx)} {
		if _, err := hm.Write(part); err != nil {
			return nil, err
		}
	}
'''))
r('b-inter-helper', (B, '''	var data [33]byte
	if childIdx >= FirstHardenedChild {
		copy(data[1:], key[PvtKeyStartIndex:PvtKeyEndIndex])
	} else {
		if key.IsPrivate() {
			copy(data[:], publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex]))
		} else {
			copy(data[:], key[PubKeyStartIndex:])
		}
	}
''', '''	data := key.hashInput(childIdx)
'''), (B, '''// PublicKeyExtended returns''', '''func (key *Key) hashInput(childIdx uint32) (data [33]byte) {
	if childIdx >= FirstHardenedChild {
		copy(data[1:], key[PvtKeyStartIndex:PvtKeyEndIndex])
		return data
	}
	pub := key[PubKeyStartIndex:]
	if key.IsPrivate() {
		pub = publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	copy(data[:], pub)
	return data
}

// PublicKeyExtended returns'''))
r('b-neuter-restructure', (B, '''	vs := Version(key[VersionStartIndex:VersionEndIndex])
	vsVal := binary.BigEndian.Uint32(vs[:])
	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
	var extendedPubKey Key
	copy(extendedPubKey[:], key[:])
	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {
			vs = hdBsArr[0].PubKeyFlagBytes()
		}
		copy(extendedPubKey[PubKeyStartIndex:PubKeyEndIndex],
			publicKeyForPrivateKey(key[PvtKeyStartIndex:]),
		)
	} else {
		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		}
	}
	extendedPubKey.SetVersion(vs)
	return extendedPubKey
''', '''	extendedPubKey := *key
	v := key.GetVersion()
	if !key.IsPrivate() {
		if len(PubFlagToHDBytesSlice[v]) == 0 {
			extendedPubKey.SetVersion(DefaultMainnetVersion.PubKeyFlagBytes())
		}
		return extendedPubKey
	}
	version := DefaultMainnetVersion.PubKeyFlagBytes()
	if entries := PvtFlagToHDBytesSlice[v]; len(entries) > 0 {
		version = entries[0].PubKeyFlagBytes()
	}
	extendedPubKey.SetVersion(version)
	extendedPubKey.setPubKeyBytes(KeyBytes(publicKeyForPrivateKey(key[PvtKeyStartIndex:])))
	return extendedPubKey
'''))
r('b-hex-early', (B, '''	if key.IsPrivate() {
		return hex.EncodeToString(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	return ""
''', '''	if !key.IsPrivate() {
		return ""
	}
	secret := key.GetPvtKeyBytes()
	return hex.EncodeToString(secret[:])
'''))
r('b-pubhex', (B, '''	if key.IsPrivate() {
		pubKey := key.PublicKeyExtended()
		return hex.EncodeToString(pubKey[PubKeyStartIndex:PubKeyEndIndex])
	}
	return hex.EncodeToString(key[PubKeyStartIndex:PubKeyEndIndex])
''', '''	pubKey := *key
	if key.IsPrivate() {
		pubKey = key.PublicKeyExtended()
	}
	kb := pubKey.GetKeyBytes()
	return hex.EncodeToString(kb[:])
'''))
r('b-pubhex2', (B, '''	if key.IsPrivate() {
		pubKey := key.PublicKeyExtended()
		return hex.EncodeToString(pubKey[PubKeyStartIndex:PubKeyEndIndex])
	}
	return hex.EncodeToString(key[PubKeyStartIndex:PubKeyEndIndex])
''', '''	return hex.EncodeToString(key.publicKeyBytes())
}

func (key *Key) publicKeyBytes() []byte {
	if key.IsPrivate() {
		return publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	return key[PubKeyStartIndex:PubKeyEndIndex]
'''))
r('b-ser-empty', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {
		return nil, ErrEmptyKey
	}
''', '''	if *key == (Key{}) {
		return nil, ErrEmptyKey
	}
'''))
r('b-ser-empty-helper', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {
		return nil, ErrEmptyKey
	}
''', '''	if key.isEmpty() {
		return nil, ErrEmptyKey
	}
'''), (B, '''// B58Serialize encodes''', '''func (key *Key) isEmpty() bool {
	for i := 0; i < len(key); i++ {
		if key[i] != 0 {
			return false
		}
	}
	return true
}

// B58Serialize encodes'''))
r('b-ser-empty-or', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {
''', '''	var acc byte
	for _, v := range key {
		acc |= v
	}
	if acc == 0 {
'''))
r('b-ser-return', (B, '''	serializedKey, err := AddChecksumDblSha256ToBytes(key[:])
	if err != nil {
		return nil, err
	}
	return serializedKey, nil
''', '''	return AddChecksumDblSha256ToBytes(key[:])
'''))
r('b-b58', (B, '''	serializedKey, err := key.Serialize()
	if err != nil {
		return ""
	}
	return base58.Encode(serializedKey)
''', '''	if serializedKey, err := key.Serialize(); err == nil {
		return base58.Encode(serializedKey)
	}
	return ""
'''))
r('b-isvalid', (B, '''	bs, err := key.Serialize()
	if err != nil {
		return false
	}
	_, err = Deserialize(bs)
	if err != nil {
		return false
	}
	return true
''', '''	bs, err := key.Serialize()
	if err == nil {
		_, err = Deserialize(bs)
	}
	return err == nil
'''))
r('b-deser-equal', (B, '''	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}
''', '''	if !bytes.Equal(cs1, cs2) {
		return Key(data[:78]), ErrInvalidChecksum
	}
'''), (B, '''import (
''', '''import (
	"bytes"
'''))
r('b-deser-equal-helper', (B, '''	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}
''', '''	if !sameChecksum(cs1, cs2) {
		return Key(data[:78]), ErrInvalidChecksum
	}
'''), (B, '''func (key *Key) SetVersionUint32''', '''func sameChecksum(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	diff := byte(0)
	for i := range a {
		diff |= a[i] ^ b[i]
	}
	return diff == 0
}

func (key *Key) SetVersionUint32'''))
r('b-deser-pad', (B, '''	if len(data) != 82 {
		if len(data) < 82 {
			exData := make([]byte, 82)
			copy(exData, data)
			data = exData
		}
		return Key(data[:78]), ErrSerializedKeyWrongSize
	}
''', '''	if len(data) != 82 {
		var short Key
		copy(short[:], data)
		return short, ErrSerializedKeyWrongSize
	}
'''))
r('b-deser-keyfirst', (B, '''	// validate ChecksumDblSha256
	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
	if err != nil {
		return Key(data[:78]), err
	}
	cs2 := data[len(data)-4:]
	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}
	// validate the key material itself
	key := Key(data[:78])
	if key.IsPrivate() {
		err = ValidatePrivateKey(key.GetPvtKeyBytes())
	} else {
		err = validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
	}
	return key, err
''', '''	key := Key(data[:78])
	want, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
	for i, got := range data[78:] {
		if want[i] != got {
			return key, ErrInvalidChecksum
		}
	}
	return key, key.validateMaterial()
}

func (key *Key) validateMaterial() error {
	if !key.IsPrivate() {
		return validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
	}
	return ValidatePrivateKey(key.GetPvtKeyBytes())
'''))
r('b-setversion32', (B, '''	vsVal := uint32Bytes(v)
	key.SetVersion(Version(vsVal))
''', '''	binary.BigEndian.PutUint32(key[VersionStartIndex:VersionEndIndex], v)
'''))
r('b-getters-copy', (B, '''	return PvtKeyBytes(key[PvtKeyStartIndex:PubKeyEndIndex])
''', '''	var b PvtKeyBytes
	copy(b[:], key[PvtKeyStartIndex:PvtKeyEndIndex])
	return b
'''), (B, '''	return KeyBytes(key[PubKeyStartIndex:PubKeyEndIndex])
''', '''	var b KeyBytes
	for i := range b {
		b[i] = key[PubKeyStartIndex+i]
	}
	return b
'''), (B, '''	return FingerPrint(key[FingerPrintStartIndex:FingerPrintEndIndex])
''', '''	var f FingerPrint
	copy(f[:], key[FingerPrintStartIndex:])
	return f
'''))
r('b-getversion', (B, '''	return binary.BigEndian.Uint32(key[VersionStartIndex:VersionEndIndex])
''', '''	return uint32(key[0])<<24 | uint32(key[1])<<16 | uint32(key[2])<<8 | uint32(key[3])
'''))
r('b-setters-loop', (B, '''	copy(key[ChainCodeStartIndex:ChainCodeEndIndex], code[:])
''', '''	for i, c := range code {
		key[ChainCodeStartIndex+i] = c
	}
'''), (B, '''	copy(key[PvtKeyStartIndex:PubKeyEndIndex], b[:])
''', '''	*(*PvtKeyBytes)(key[PvtKeyStartIndex:PvtKeyEndIndex]) = b
'''))
r('b-b58deser', (B, '''	b := base58.Decode(data)
	return Deserialize(b)
''', '''	return Deserialize(base58.Decode(data))
'''))
r('b-newseed', (B, '''	s := make([]byte, 256)
	_, err := rand.Read(s)
	return s, err
''', '''	const seedLen = 256
	s := make([]byte, seedLen)
	if _, err := io.ReadFull(rand.Reader, s); err != nil {
		return s, err
	}
	return s, nil
'''), (B, '''	"github.com/btcsuite/btcutil/base58"
''', '''	"github.com/btcsuite/btcutil/base58"
	"io"
'''))
r('b-newseed-nil', (B, '''	_, err := rand.Read(s)
	return s, err
''', '''	if _, err := rand.Read(s); err != nil {
		return nil, err
	}
	return s, nil
'''))
# ---- utils
r('u-ripemd', (U, '''	_, err := io.WriteString(hsr, string(data))
	if err != nil {
		return nil, err
	}
	return hsr.Sum(nil), nil
''', '''	if _, err := hsr.Write(data); err != nil {
		return nil, err
	}
	return hsr.Sum(nil), nil
'''), (U, '''	"io"
''', ''))
r('u-hash160', (U, '''	hash2, err := hashRipeMD160(hash1[:])
	if err != nil {
		return nil, err
	}

	return hash2, nil
''', '''	return hashRipeMD160(hash1[:])
'''))
r('u-checksum-std', (U, '''	hash := chainhash.DoubleHashB(data)
	return hash[:4], nil
''', '''	first := sha256.Sum256(data)
	second := sha256.Sum256(first[:])
	return second[:4], nil
'''), (U, '''	"github.com/btcsuite/btcd/chaincfg/chainhash"
''', ''))
r('u-addchecksum', (U, '''	return append(data[:len(data):len(data)], checksum...), nil
''', '''	out := make([]byte, 0, len(data)+len(checksum))
	out = append(out, data...)
	return append(out, checksum...), nil
'''))
r('u-addchecksum2', (U, '''	return append(data[:len(data):len(data)], checksum...), nil
''', '''	out := make([]byte, len(data)+4)
	n := copy(out, data)
	copy(out[n:], checksum)
	return out, nil
'''))
r('u-validate-big', (U, '''	if fmt.Sprintf("%x", key) == strings.Repeat("0", 64) || //if the key is zero
		bytes.Compare(key[:], curveParams.N.Bytes()) >= 0 { //or is too short
		return ErrInvalidPrivateKey
	}
	return nil
''', '''	k := new(big.Int).SetBytes(key[:])
	if k.Sign() == 0 || k.Cmp(curveParams.N) >= 0 {
		return ErrInvalidPrivateKey
	}
	return nil
'''), (U, '''	"fmt"
''', ''), (U, '''	"strings"
''', ''))
r('u-validate-zero', (U, '''	if fmt.Sprintf("%x", key) == strings.Repeat("0", 64) || //if the key is zero
		bytes.Compare(''', '''	if key == (PvtKeyBytes{}) ||
		bytes.Compare('''), (U, '''	"fmt"
''', ''), (U, '''	"strings"
''', ''))
r('u-validate-split', (U, '''	if fmt.Sprintf("%x", key) == strings.Repeat("0", 64) || //if the key is zero
		bytes.Compare(key[:], curveParams.N.Bytes()) >= 0 { //or is too short
		return ErrInvalidPrivateKey
	}
	return nil
''', '''	isZero := true
	for _, b := range key {
		if b != 0 {
			isZero = false
			break
		}
	}
	if isZero {
		return ErrInvalidPrivateKey
	}
	if bytes.Compare(key[:], curveParams.N.Bytes()) != -1 {
		return ErrInvalidPrivateKey
	}
	return nil
'''), (U, '''	"fmt"
''', ''), (U, '''	"strings"
''', ''))
r('u-pub-xy', (U, '''	return compressPublicKey(curve.ScalarBaseMult(key))
''', '''	x, y := curve.ScalarBaseMult(key)
	return compressPublicKey(x, y)
'''))
r('u-addpub', (U, '''	x1, y1 := ExpandPublicKey(key1)
	x2, y2 := ExpandPublicKey(key2)
	return compressPublicKey(curve.Add(x1, y1, x2, y2))
''', '''	x2, y2 := ExpandPublicKey(key2)
	x1, y1 := ExpandPublicKey(key1)
	x, y := curve.Add(x1, y1, x2, y2)
	return compressPublicKey(x, y)
'''))
r('u-addpriv-fill', (U, '''	b := key1Int.Bytes()
	if len(b) < 32 {
		extra := make([]byte, 32-len(b))
		b = append(extra, b...)
	}
	return b
''', '''	return key1Int.FillBytes(make([]byte, 32))
'''))
r('u-addpriv-new', (U, '''	var key1Int big.Int
	var key2Int big.Int
	key1Int.SetBytes(key1)
	key2Int.SetBytes(key2)

	key1Int.Add(&key1Int, &key2Int)
	key1Int.Mod(&key1Int, curve.Params().N)

	b := key1Int.Bytes()
	if len(b) < 32 {
		extra := make([]byte, 32-len(b))
		b = append(extra, b...)
	}
	return b
''', '''	sum := new(big.Int).Add(new(big.Int).SetBytes(key1), new(big.Int).SetBytes(key2))
	sum.Mod(sum, curveParams.N)

	out := make([]byte, 32)
	b := sum.Bytes()
	copy(out[32-len(b):], b)
	return out
'''))
r('u-addpriv-loop', (U, '''	if len(b) < 32 {
		extra := make([]byte, 32-len(b))
		b = append(extra, b...)
	}
	return b
''', '''	for len(b) < 32 {
		b = append([]byte{0}, b...)
	}
	return b
'''))
r('u-addpriv-helper', (U, '''	b := key1Int.Bytes()
	if len(b) < 32 {
		extra := make([]byte, 32-len(b))
		b = append(extra, b...)
	}
	return b
}
''', '''	return leftPad(key1Int.Bytes(), 32)
}

func leftPad(b []byte, size int) []byte {
	if len(b) >= size {
		return b
	}
	padded := make([]byte, size)
	copy(padded[size-len(b):], b)
	return padded
}
'''))
r('u-addpriv-sub', (U, '''	key1Int.Mod(&key1Int, curve.Params().N)
''', '''	n := curve.Params().N
	key1Int.Mod(&key1Int, n)
'''))
r('u-compress-fill', (U, '''	var key bytes.Buffer

	// Write header; 0x2 for even y value; 0x3 for odd
	key.WriteByte(byte(0x02) + byte(y.Bit(0)))

	// Write X coord; Pad the key so x is aligned with the LSB. Pad size is key length - header size (1) - xBytes size
	xBytes := x.Bytes()
	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)

	return key.Bytes()
''', '''	key := make([]byte, PublicKeyCompressedLength)
	key[0] = 0x02
	if y.Bit(0) == 1 {
		key[0] = 0x03
	}
	x.FillBytes(key[1:])
	return key
'''))
r('u-compress-copy', (U, '''	var key bytes.Buffer

	// Write header; 0x2 for even y value; 0x3 for odd
	key.WriteByte(byte(0x02) + byte(y.Bit(0)))

	// Write X coord; Pad the key so x is aligned with the LSB. Pad size is key length - header size (1) - xBytes size
	xBytes := x.Bytes()
	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)

	return key.Bytes()
''', '''	header := byte(2 | y.Bit(0))
	xBytes := x.Bytes()
	key := make([]byte, PublicKeyCompressedLength)
	key[0] = header
	copy(key[PublicKeyCompressedLength-len(xBytes):], xBytes)
	return key
'''))
r('u-compress-pad', (U, '''	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
	key.Write(xBytes)
''', '''	padding := PublicKeyCompressedLength - 1 - len(xBytes)
	key.Write(make([]byte, padding))
	key.Write(xBytes)
'''))
r('u-compress-down', (U, '''	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {
		key.WriteByte(0x0)
	}
''', '''	for pad := PublicKeyCompressedLength - 1 - len(xBytes); pad > 0; pad-- {
		key.WriteByte(0x0)
	}
'''))
r('u-expand', (U, '''	ySquared := big.NewInt(0)
	ySquared.Exp(X, big.NewInt(3), nil)
	ySquared.Add(ySquared, curveParams.B)

	Y.ModSqrt(ySquared, curveParams.P)

	Ymod2 := big.NewInt(0)
	Ymod2.Mod(Y, big.NewInt(2))

	signY := uint64(key[0]) - 2
	if signY != Ymod2.Uint64() {
		Y.Sub(curveParams.P, Y)
	}
''', '''	ySquared := new(big.Int).Mul(X, X)
	ySquared.Mul(ySquared, X)
	ySquared.Add(ySquared, curveParams.B)

	Y.ModSqrt(ySquared, curveParams.P)

	isOdd := uint64(Y.Bit(0))
	if uint64(key[0])-2 != isOdd {
		Y.Sub(curveParams.P, Y)
	}
'''))
r('u-expand-helper', (U, '''	ySquared := big.NewInt(0)
	ySquared.Exp(X, big.NewInt(3), nil)
	ySquared.Add(ySquared, curveParams.B)

	Y.ModSqrt(ySquared, curveParams.P)
''', '''	Y.ModSqrt(curveRHS(X), curveParams.P)
'''), (U, '''func validateChildPublicKey''', '''// curveRHS returns x^3 + b
func curveRHS(x *big.Int) *big.Int {
	rhs := new(big.Int).Exp(x, big.NewInt(3), nil)
	return rhs.Add(rhs, curveParams.B)
}

func validateChildPublicKey'''))
r('u-expand-modp', (U, '''	ySquared.Exp(X, big.NewInt(3), nil)
	ySquared.Add(ySquared, curveParams.B)
''', '''	ySquared.Exp(X, big.NewInt(3), curveParams.P)
	ySquared.Add(ySquared, curveParams.B)
	ySquared.Mod(ySquared, curveParams.P)
'''))
r('u-valchild', (U, '''	x, y := ExpandPublicKey(key)

	if x.Sign() == 0 || y.Sign() == 0 {
		return ErrInvalidPublicKey
	}

	return nil
''', '''	if x, y := ExpandPublicKey(key); x.Sign() != 0 && y.Sign() != 0 {
		return nil
	}
	return ErrInvalidPublicKey
'''))
r('u-uint32', (U, '''	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, i)
	return b
''', '''	return []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
'''), (U, '''	"encoding/binary"
''', ''))
r('u-uint32b', (U, '''	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, i)
	return b
''', '''	var b [4]byte
	binary.BigEndian.PutUint32(b[:], i)
	return b[:]
'''))
r('u-uint32c', (U, '''	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, i)
	return b
''', '''	return binary.BigEndian.AppendUint32(nil, i)
'''))
if __name__ == '__main__': main(R)
