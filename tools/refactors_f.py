#!/usr/bin/env python3
"""Sixth batch of behaviour-preserving edits: everyday clean-ups near the code the planted bugs touch."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
B, U, P, G, M, T, K, C, CS = 'bip32/bip32.go', 'bip32/utils.go', 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go', 'util/util.go', 'util/key_path.go', 'bip44/coin.go', 'bip44/coins.go'
REPO = os.environ.get('REPO', '/repo')
def fn(sig, path):
    s = open(REPO + '/' + path).read()
    i = s.index('func ' + sig)
    return s[i:s.index('\n}\n', i) + 3]
def imp(path, *names): return (path, 'import (\n', 'import (\n' + ''.join('\t"%s"\n' % n for n in names))
def noimp(path, n): return (path, '\t"%s"\n' % n, '')
def f(name, path, sig, new, *more): R.append((name, [(path, fn(sig, path), new)] + list(more)))
def ff(name, *edits): R.append((name, list(edits)))
def e(path, sig, new): return (path, fn(sig, path), new)

ff('f-master-split', e(B, 'NewMasterKey(', '''func masterSecrets(seed []byte) (secret PvtKeyBytes, code ChainCode, err error) {
	mac := hmac.New(sha512.New, []byte("Bitcoin seed"))
	if _, err = mac.Write(seed); err != nil {
		return
	}
	sum := mac.Sum(make([]byte, 0, sha512.Size))
	copy(secret[:], sum)
	copy(code[:], sum[len(secret):])
	return secret, code, ValidatePrivateKey(secret)
}

func NewMasterKey(seed []byte) (*Key, error) {
	secret, code, err := masterSecrets(seed)
	if err != nil {
		return nil, err
	}
	key := new(Key)
	key.setPvtKeyBytes(secret)
	key.setChainCode(code)
	key.SetVersionUint32(DefaultMainnetVersion.PvtKeyFlag)
	return key, nil
}
'''))
ff('f-child-version-switch', (B, '''	vs := Version(key[VersionStartIndex:VersionEndIndex])
	vsVal := binary.BigEndian.Uint32(vs[:])
	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
	} else {
		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
		vs = hdBsArr[0].PubKeyFlagBytes()
	}

	childKey.setChildNumber''', '''	registered := PubFlagToHDBytesSlice
	if key.IsPrivate() {
		registered = PvtFlagToHDBytesSlice
	}
	if len(registered[key.GetVersion()]) == 0 {
		return childKey, ErrUnSupportedHDVersionBytes
	}
	vs := Version(key[VersionStartIndex:VersionEndIndex])

	childKey.setChildNumber'''), (B, '''		vs = hdBsArr[0].PubKeyFlagBytes()
		keyBytes := publicKeyForPrivateKey(intermediary[:32])''', '''		keyBytes := publicKeyForPrivateKey(intermediary[:32])'''))
ff('f-child-template', (B, '''	childKey.setChildNumber(ChildNumber(uint32Bytes(childIdx)))
	childKey.setChainCode(ChainCode(intermediary[32:]))
	childKey.setDepth(key[DepthStartIndex] + 1)
	childKey.SetVersion(vs)
''', '''	childKey.SetVersion(vs)
	binary.BigEndian.PutUint32(childKey[ChildNumberStartIndex:], childIdx)
	copy(childKey[ChainCodeStartIndex:], intermediary[32:64])
	childKey[DepthStartIndex] = 1 + key[DepthStartIndex]
'''))
ff('f-child-fp-first', (B, '''	childKey.setChildNumber(ChildNumber(uint32Bytes(childIdx)))
''', '''	parentPub := key.PublicKeyExtended()
	parentID, err := HashRipeMD160onSha256(parentPub[PubKeyStartIndex:PubKeyEndIndex])
	if err != nil {
		return childKey, err
	}
	childKey.setFingerPrint(FingerPrint(parentID[:4]))
	childKey.setChildNumber(ChildNumber(uint32Bytes(childIdx)))
'''), (B, '''		fingerprint, err := HashRipeMD160onSha256(
			publicKeyForPrivateKey(key[PvtKeyStartIndex:PubKeyEndIndex]),
		)
		if err != nil {
			return childKey, err
		}
		childKey.setFingerPrint(FingerPrint(fingerprint))
''', ''), (B, '''		fingerprint, err := HashRipeMD160onSha256(key[PubKeyStartIndex:])
		if err != nil {
			return childKey, err
		}
		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
''', ''))
ff('f-child-depth-field', (B, 'if key[DepthStartIndex] == 0xff {', 'if d := key.GetDepth(); d[0] > 0xfe {'))
ff('f-isprivate-lt', (B, 'return key[PubKeyStartIndex] == 0', 'return !(key[PvtKeyStartIndex-1] != 0x00)'))
ff('f-pubext-early', e(B, '(key *Key) PublicKeyExtended()', '''func (key *Key) PublicKeyExtended() Key {
	version := key.GetVersion()
	pub := *key
	if !key.IsPrivate() {
		if len(PubFlagToHDBytesSlice[version]) == 0 {
			pub.SetVersion(DefaultMainnetVersion.PubKeyFlagBytes())
		}
		return pub
	}
	entry := DefaultMainnetVersion
	if entries, ok := PvtFlagToHDBytesSlice[version]; ok && len(entries) > 0 {
		entry = entries[0]
	}
	pub.SetVersion(entry.PubKeyFlagBytes())
	pub.setPubKeyBytes(KeyBytes(publicKeyForPrivateKey(key[PvtKeyStartIndex:PvtKeyEndIndex])))
	return pub
}
'''))
ff('f-serialize-array-eq', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {''', '''	var zero Key
	if bytes.Equal(zero[:], key[:]) {'''), imp(B, 'bytes'))
ff('f-serialize-count', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {''', '''	used := 0
	for i := 0; i < len(key); i++ {
		if key[i] != 0 {
			used++
		}
	}
	if used == 0 {'''))
ff('f-serialize-sum', (B, '''	isEmpty := true
	for _, v := range key {
		if v != 0 {
			isEmpty = false
			break
		}
	}
	if isEmpty {''', '''	i := 0
	for i < len(key) && key[i] == 0 {
		i++
	}
	if i == len(key) {'''))
ff('f-deser-const', (B, '''	if len(data) != 82 {
		if len(data) < 82 {
			exData := make([]byte, 82)
			copy(exData, data)
			data = exData
		}
		return Key(data[:78]), ErrSerializedKeyWrongSize
	}
''', '''	var key Key
	const size, total = 78, 82
	n := copy(key[:], data)
	if len(data) != total || n != size {
		return key, ErrSerializedKeyWrongSize
	}
'''), (B, '''	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
	if err != nil {
		return Key(data[:78]), err
	}
	cs2 := data[len(data)-4:]
	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}
	// validate the key material itself
	key := Key(data[:78])
''', '''	sum, err := ChecksumDblSha256(key[:])
	if err != nil {
		return key, err
	}
	if *(*[4]byte)(sum) != *(*[4]byte)(data[size:]) {
		return key, ErrInvalidChecksum
	}
	// validate the key material itself
'''))
ff('f-deser-diff', (B, '''	for i := range cs1 {
		if cs1[i] != cs2[i] {
			return Key(data[:78]), ErrInvalidChecksum
		}
	}
''', '''	var diff byte
	for i, b := range cs2 {
		diff |= b ^ cs1[i]
	}
	if diff != 0 {
		return Key(data[:78]), ErrInvalidChecksum
	}
'''))
ff('f-add-priv-scalar-pad', (U, '''	b := key1Int.Bytes()
	if len(b) < 32 {
		extra := make([]byte, 32-len(b))
		b = append(extra, b...)
	}
	return b
''', '''	out := make([]byte, 32)
	sum := key1Int.Bytes()
	for i := 1; i <= len(sum); i++ {
		out[len(out)-i] = sum[len(sum)-i]
	}
	return out
'''))
ff('f-add-priv-cmp', e(U, 'addPrivateKeys(', '''func addPrivateKeys(key1 []byte, key2 []byte) []byte {
	a, b := new(big.Int).SetBytes(key1), new(big.Int).SetBytes(key2)
	sum := new(big.Int).Mod(a.Add(a, b), curveParams.N)
	return sum.FillBytes(make([]byte, PublicKeyCompressedLength-1))
}
'''))
ff('f-compress-if', e(U, 'compressPublicKey(', '''func compressPublicKey(x *big.Int, y *big.Int) []byte {
	out := make([]byte, PublicKeyCompressedLength)
	out[0] = 2
	if y.Bit(0) == 1 {
		out[0] = 3
	}
	xs := x.Bytes()
	copy(out[len(out)-len(xs):], xs)
	return out
}
'''), )
ff('f-hash-chain', e(U, 'HashRipeMD160onSha256(', '''func HashRipeMD160onSha256(data []byte) ([]byte, error) {
	outer := sha256.New()
	outer.Write(data)
	inner := ripemd160.New()
	inner.Write(outer.Sum(nil))
	return inner.Sum(nil), nil
}
'''), e(U, 'hashRipeMD160(', ''), noimp(U, 'io'))
ff('f-path-clean-helper', e(P, '(p Path) String()', '''var spaces = regexp.MustCompile("[\\t\\n\\f\\r ]+")

func (p Path) String() string {
	return spaces.ReplaceAllString(string(p), "")
}
'''))
ff('f-path-values-merge', (P, '''		isHardened := strings.Contains(s, "'")
		if isHardened {
			fmtStr := strings.ReplaceAll(s, "'", "")
			val, err := strconv.ParseUint(fmtStr, 10, 32)
			if err != nil {
				return pathArr, err
			}
			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
		} else {
			val, err := strconv.ParseUint(s, 10, 32)
			if err != nil {
				return pathArr, err
			}
			pathArr = append(pathArr, uint32(val))
		}
''', '''		digits := strings.TrimSuffix(s, "'")
		val, err := strconv.ParseUint(digits, 10, 32)
		if err != nil {
			return pathArr, err
		}
		index := uint32(val)
		if hardened := digits != s; hardened && index >= FirstHardenedChild {
			return pathArr, ErrUnSupportedOrInvalidPath
		} else if hardened {
			index += FirstHardenedChild
		}
		pathArr = append(pathArr, index)
'''))
ff('f-path-replace-strconv', (P, '''	if val >= FirstHardenedChild {
		valsArr[b] = fmt.Sprintf("%d'", val%FirstHardenedChild)
	} else {
		valsArr[b] = fmt.Sprintf("%d", val)
	}
''', '''	component := strconv.FormatUint(uint64(val&^FirstHardenedChild), 10)
	if val&FirstHardenedChild != 0 {
		component += "'"
	}
	valsArr[b] = component
'''), noimp(P, 'fmt'))
ff('f-path-replace-loop', (P, '''	valsArr := strings.Split(newPath.String(), "/")
	if val >= FirstHardenedChild {
		valsArr[b] = fmt.Sprintf("%d'", val%FirstHardenedChild)
	} else {
		valsArr[b] = fmt.Sprintf("%d", val)
	}
	replaced := Path(strings.Join(valsArr, "/"))
''', '''	format := "%d"
	if val >= FirstHardenedChild {
		format, val = "%d'", val-FirstHardenedChild
	}
	parts := strings.Split(newPath.String(), "/")
	head, tail := parts[:b], parts[int(b)+1:]
	text := strings.Join(head, "/") + "/" + fmt.Sprintf(format, val)
	for _, t := range tail {
		text += "/" + t
	}
	replaced := Path(text)
'''))
ff('f-path-value-bounds', (P, '''	if int(b) >= len(vals) {
		return 0, ErrUnSupportedOrInvalidPath
	}
	return vals[b], nil''', '''	if depth := int(b); depth < len(vals) {
		return vals[depth], nil
	}
	return 0, ErrUnSupportedOrInvalidPath'''))
ff('f-ver-init-helper', (G, '''			val, _ := PvtFlagToHDBytesSlice[hdBytes.PvtKeyFlag]
			PvtFlagToHDBytesSlice[hdBytes.PvtKeyFlag] = append(val, hdBytes)
			val, _ = PubFlagToHDBytesSlice[hdBytes.PubKeyFlag]
			PubFlagToHDBytesSlice[hdBytes.PubKeyFlag] = append(val, hdBytes)
			purposeVal, _ := hdBytes.PurposeVal()
			purposeFullVal, _ := hdBytes.PurposeValFull()
			PurposeToHDBytesSlice[purposeVal] = append(PurposeToHDBytesSlice[purposeVal], hdBytes)
			PurposeFullToHDBytesSlice[purposeFullVal] = append(PurposeFullToHDBytesSlice[purposeFullVal], hdBytes)
			coinVal, _ := hdBytes.CoinVal()
			CoinTypeToHDBytesSlice[coinVal] = append(CoinTypeToHDBytesSlice[coinVal], hdBytes)
''', '''			file(PvtFlagToHDBytesSlice, hdBytes.PvtKeyFlag, hdBytes)
			file(PubFlagToHDBytesSlice, hdBytes.PubKeyFlag, hdBytes)
			purpose, _ := hdBytes.PurposeVal()
			file(PurposeToHDBytesSlice, purpose, hdBytes)
			purpose, _ = hdBytes.PurposeValFull()
			file(PurposeFullToHDBytesSlice, purpose, hdBytes)
			coin, _ := hdBytes.CoinVal()
			file(CoinTypeToHDBytesSlice, coin, hdBytes)
'''), (G, '''
func init() {
''', '''
func file(index map[uint32][]VersionBytes, k uint32, v VersionBytes) {
	index[k] = append(index[k], v)
}

func init() {
'''))
ff('f-ver-init-two-loops', (G, '''	for _, hdBytesArr := range PathToHDBytesSlice {
		HDVersionBytesSlice = append(HDVersionBytesSlice, hdBytesArr...)
		for _, hdBytes := range hdBytesArr {
''', '''	for _, entries := range PathToHDBytesSlice {
		for i := range entries {
			HDVersionBytesSlice = append(HDVersionBytesSlice, entries[i])
		}
	}
	{
		for _, hdBytes := range HDVersionBytesSlice {
'''))
# ---- bip39
ff('f-word-map-size', e(M, 'SetWordList(', '''func SetWordList(list []string) {
	words := make([]string, len(list))
	index := make(map[string]int, len(list))
	for i := range list {
		words[i] = list[i]
		index[list[i]] = i
	}
	wordList, wordMap = words, index
}
'''))
ff('f-entropy-named', e(M, 'NewEntropy(', '''func NewEntropy(bitSize int) (entropy []byte, err error) {
	if err = validateEntropyBitSize(bitSize); err == nil {
		buf := make([]byte, bitSize>>3)
		if _, err = rand.Read(buf); err == nil {
			entropy = buf
		}
	}
	return
}
'''))
ff('f-valid-bits-list', (M, '	if (bitSize%32) != 0 || bitSize < 128 || bitSize > 256 {\n		return ErrEntropyLengthInvalid\n	}\n\n	return nil\n', '''	for valid := 128; valid <= 256; valid += 32 {
		if bitSize == valid {
			return nil
		}
	}
	return ErrEntropyLengthInvalid
'''))
ff('f-decode-accumulate', (M, '''		binary.BigEndian.PutUint16(wordBytes[:], uint16(index))
		b.Mul(b, shift11BitsMask)
		b.Or(b, big.NewInt(0).SetBytes(wordBytes[:]))
''', '''		b.Add(b.Lsh(b, 11), big.NewInt(int64(index)))
'''), (M, '''		wordBytes [2]byte
		b         = big.NewInt(0)
''', '''		b = big.NewInt(0)
'''))
ff('f-decode-checksum-byte', (M, '''	entropyChecksumBytes := computeChecksum(entropy)
	entropyChecksum := big.NewInt(int64(entropyChecksumBytes[0]))

	if l := len(mnemonicSlice); l != 24 {
		checksumShift := wordLengthChecksumShiftMapping[l]
		entropyChecksum.Div(entropyChecksum, checksumShift)
	}

	if checksum.Cmp(entropyChecksum) != 0 {
		return nil, ErrChecksumIncorrect
	}
''', '''	bits := len(mnemonicSlice) / 3
	expected := computeChecksum(entropy)[0] >> (8 - bits)
	if checksum.Uint64() != uint64(expected) {
		return nil, ErrChecksumIncorrect
	}
'''), (M, '''	// wordLengthChecksumShiftMapping is used to lookup the number of operand
	// for shifting bits to handle checksums.
	wordLengthChecksumShiftMapping = map[int]*big.Int{
		12: big.NewInt(16),
		15: big.NewInt(8),
		18: big.NewInt(4),
		21: big.NewInt(2),
	}

''', ''))
ff('f-decode-quorem', (M, '''	checksum := big.NewInt(0)
	checksumMask := wordLengthChecksumMasksMapping[len(mnemonicSlice)]
	checksum = checksum.And(b, checksumMask)

	b.Div(b, big.NewInt(0).Add(checksumMask, bigOne))
''', '''	checksum := new(big.Int)
	divisor := new(big.Int).Lsh(bigOne, uint(len(mnemonicSlice)/3))
	b.QuoRem(b, divisor, checksum)
'''))
ff('f-encode-shift', (M, '''		word.And(entropyInt, last11BitsMask)
		entropyInt.Div(entropyInt, shift11BitsMask)

		// Get the bytes representing the 11 bits as a 2 byte slice.
		wordBytes := padByteSlice(word.Bytes(), 2)

		// Convert bytes to an index and add that word to the list.
		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
''', '''		entropyInt.DivMod(entropyInt, shift11BitsMask, word)
		words[i] = wordList[word.Int64()]
'''))
ff('f-encode-bits-at', (M, '''	for i := sentenceLength - 1; i >= 0; i-- {
		// Get 11 right most bits and bitshift 11 to the right for next time.
		word.And(entropyInt, last11BitsMask)
		entropyInt.Div(entropyInt, shift11BitsMask)
''', '''	for i := range words {
		// Get the i-th group of 11 bits.
		word.Rsh(entropyInt, uint(11*(sentenceLength-1-i)))
		word.And(word, last11BitsMask)
'''))
ff('f-checksum-once', (M, '''	for i := uint(0); i < checksumBitLength; i++ {
		// Bitshift 1 left
		dataBigInt.Mul(dataBigInt, bigTwo)

		// Set rightmost bit if leftmost checksum bit is set
		if firstChecksumByte&(1<<(7-i)) > 0 {
			dataBigInt.Or(dataBigInt, bigOne)
		}
	}

	return dataBigInt.Bytes()
''', '''	dataBigInt.Lsh(dataBigInt, checksumBitLength)
	dataBigInt.Or(dataBigInt, big.NewInt(int64(firstChecksumByte>>(8-checksumBitLength))))
	return dataBigInt.Bytes()
''', ), (M, '	bigTwo          = big.NewInt(2)\n', ''))
ff('f-bytes-ceil', (M, '''		entropyBitSize  = len(mnemonicSlice) * 11
		checksumBitSize = entropyBitSize % 32
		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
''', '''		fullByteSize = (len(mnemonicSlice)*11 + 7) / 8
'''))
ff('f-bytes-early', (M, '''	// If we want the raw entropy then we're done.
	if len(raw) > 0 && raw[0] {
		return rawEntropyBytes, nil
	}

	// Otherwise add the checksum before returning
	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''', '''	wantRaw := false
	for i, r := range raw {
		if i == 0 {
			wantRaw = r
		}
	}
	if !wantRaw {
		rawEntropyBytes = padByteSlice(addChecksum(rawEntropyBytes), fullByteSize)
	}
	return rawEntropyBytes, nil
'''))
ff('f-split-mod', (M, '''	if numOfWords%3 != 0 || numOfWords < 12 || numOfWords > 24 {
		return nil, false
	}

	return words, true
''', '''	switch numOfWords {
	case 12, 15, 18, 21, 24:
		return words, true
	default:
		return nil, false
	}
'''))
ff('f-seed-consts', e(M, 'NewSeed(', '''func NewSeed(mnemonic string, password string) []byte {
	const (
		rounds = 1 << 11
		size   = sha512.Size
	)
	salt := make([]byte, 0, len("mnemonic")+len(password))
	salt = append(append(salt, "mnemonic"...), password...)
	return pbkdf2.Key([]byte(mnemonic), salt, rounds, size, sha512.New)
}
'''))
# ---- util
ff('f-gen-map', (T, '''	var bitSize int
	switch wordsCount {
	case Words12:
		bitSize = 128
	case Words15:
		bitSize = 160
	case Words18:
		bitSize = 192
	case Words21:
		bitSize = 224
	case Words24:
		bitSize = 256
	default:
		return "", ErrInvalidMnemonicWordsCount
	}
''', '''	if wordsCount < Words12 || wordsCount > Words24 || wordsCount%3 != 0 {
		return "", ErrInvalidMnemonicWordsCount
	}
	bitSize := 32 * (int(wordsCount) / 3)
'''))
ff('f-derive-check', (T, '''	if !rootKey.IsValid() ||
		!rootKey.IsPrivate() ||
		rootKey[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
	if !p.IsValid() {
		return nil, ErrUnSupportedOrInvalidPath
	}
	pathItems, err := p.ValuesAtDepth()
	if err != nil {
		return nil, err
	}
''', '''	depth := rootKey.GetDepth()
	if usable := rootKey.IsPrivate() && depth == (bip32.Depth{}) && rootKey.IsValid(); !usable {
		return nil, ErrInvalidRootKey
	}
	pathItems, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
'''))
ff('f-derive-component', (T, '''			derivedPath = fmt.Sprintf("%s/%d", derivedPath, val%bip32.FirstHardenedChild)
			if val >= bip32.FirstHardenedChild {
				derivedPath += "'"
			}
''', '''			derivedPath += component(val)
'''), (T, '''func (g *Generator) DeriveBIP32Result''', '''func component(index uint32) string {
	if index < bip32.FirstHardenedChild {
		return fmt.Sprint("/", index)
	}
	return fmt.Sprintf("/%v'", index-bip32.FirstHardenedChild)
}

func (g *Generator) DeriveBIP32Result'''), (K, '''		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
		if i >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
''', '''		derivedPath += component(i)
'''), noimp(K, 'fmt'))
ff('f-range-while', (K, '''	for i := startIndex; i < endIndex; i++ {
''', '''	for i := startIndex; ; i++ {
		if i == endIndex {
			break
		}
'''))
ff('f-range-offset', (K, '''	for i := startIndex; i < endIndex; i++ {
''', '''	for n := uint32(0); n < endIndex-startIndex; n++ {
		i := startIndex + n
'''))
ff('f-range-len', (K, '''	for i := startIndex; i < endIndex; i++ {
''', '''	for uint32(len(keyPaths)) < endIndex-startIndex {
		i := startIndex + uint32(len(keyPaths))
'''))
ff('f-range-ptr', (K, '''		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return err
		}
		currentKey = childKey
''', '''		var err error
		if currentKey, err = currentKey.NewChildKey(i); err != nil {
			return err
		}
'''))
ff('f-addr-concat', (K, '''	addrBs := append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
	kckHash := sha3.NewLegacyKeccak256()
	kckHash.Write(addrBs)
	return hex.EncodeToString(kckHash.Sum(nil)[12:])
''', '''	keccak := sha3.NewLegacyKeccak256()
	var coord [32]byte
	for _, v := range []*big.Int{x, y} {
		keccak.Write(v.FillBytes(coord[:]))
	}
	digest := keccak.Sum(nil)
	return hex.EncodeToString(digest[len(digest)-20:])
'''), imp(K, 'math/big'))
ff('f-addr-pubkey', (K, '''	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())
	if err != nil {
		return ""
	}
	pubKeyHash, err :=''', '''	pub := b.Key.PublicKeyExtended()
	pbs := pub.GetKeyBytes()
	pubKeyHash, err :='''), (K, 'bip32.HashRipeMD160onSha256(pbs)', 'bip32.HashRipeMD160onSha256(pbs[:])'))
ff('f-addr-checksum', (K, '''	chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)
	if err != nil {
		return ""
	}
	addBs := append(verPubKeyHash, chkSum...)
	return base58.Encode(addBs)
''', '''	addBs, err := bip32.AddChecksumDblSha256ToBytes(verPubKeyHash)
	if err == nil {
		return base58.Encode(addBs)
	}
	return ""
'''))
# ---- bip44
ff('f-coin-init-value', (CS, '''		if !RegCoins[i].IsValid() {
			RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000
		}
		RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]
		RegBip44CoinsNameToValMap[RegCoins[i].Name] = RegCoins[i]
		RegBip44CoinsPathCompToValMap[RegCoins[i].PathComponent] = RegCoins[i]
''', '''		coin := RegCoins[i]
		if !coin.IsValid() {
			coin.Type = coin.PathComponent &^ 0x80000000
			RegCoins[i] = coin
		}
		RegBip44CoinsTypeToValMap[coin.Type] = coin
		RegBip44CoinsNameToValMap[coin.Name] = coin
		RegBip44CoinsPathCompToValMap[coin.PathComponent] = coin
'''))
ff('f-coin-init-ptr', (CS, '''	for i, _ := range RegCoins {
''', '''	for i := 0; i < len(RegCoins); i++ {
		coin := &RegCoins[i]
'''), (CS, '''		if !RegCoins[i].IsValid() {
			RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000
		}
		RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]
		RegBip44CoinsNameToValMap[RegCoins[i].Name] = RegCoins[i]
		RegBip44CoinsPathCompToValMap[RegCoins[i].PathComponent] = RegCoins[i]
''', '''		if !coin.IsValid() {
			coin.Type = coin.PathComponent - 0x80000000
		}
		RegBip44CoinsTypeToValMap[coin.Type] = *coin
		RegBip44CoinsNameToValMap[coin.Name] = *coin
		RegBip44CoinsPathCompToValMap[coin.PathComponent] = *coin
'''))
ff('f-coin-valid-order', e(C, '(c Coin) IsValid()', '''func (c Coin) IsValid() bool {
	const hardened = 0x80000000
	named := strings.TrimSpace(c.Symbol) != "" || strings.TrimSpace(c.Name) != ""
	return named && c.Type < hardened && c.PathComponent == c.Type|hardened
}
'''))
ff('f-coin-string-builder', e(C, '(c Coin) String()', '''func (c Coin) String() string {
	var b strings.Builder
	if c.Symbol != "" {
		b.WriteString(c.Symbol)
		b.WriteString(" - ")
	}
	b.WriteString(c.Name)
	fmt.Fprintf(&b, " (Type %d)", c.Type)
	return b.String()
}
'''))
main(R)
