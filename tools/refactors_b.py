#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_run import main
R = []
def r(name, *edits): R.append((name, edits))
P, G, M, T, K, C, L = 'bip32/path.go', 'bip32/reg_ver_bytes.go', 'bip39/bip39.go', 'util/util.go', 'util/key_path.go', 'bip44/coin.go', 'bip44/coins.go'

# ---- path.go
r('p-regex-var', (P, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	return whiteSpace.ReplaceAllString(string(p), "")
'''), (P, '''var PathRegex =''', '''var whiteSpace = regexp.MustCompile(`\\s`)

var PathRegex ='''))
r('p-regex-plus', (P, '''	reg := regexp.MustCompile(`\\s`)
''', '''	reg := regexp.MustCompile(`\\s+`)
'''))
r('p-regex-class', (P, '''`^[mM](/\\d+')*(/\\d+)*$`''', '''`^(m|M)(/[0-9]+')*(/[0-9]+)*$`'''))
r('p-isvalid', (P, '''	_, err := p.ValuesAtDepth()
	return err == nil
''', '''	if _, err := p.ValuesAtDepth(); err != nil {
		return false
	}
	return true
'''))
r('p-string-map', (P, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	return strings.NewReplacer(" ", "", "\\t", "", "\\n", "", "\\f", "", "\\r", "").Replace(string(p))
'''))
r('p-string-chain', (P, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	s := string(p)
	for _, ws := range []string{" ", "\\t", "\\n", "\\f", "\\r"} {
		s = strings.ReplaceAll(s, ws, "")
	}
	return s
'''))
r('p-string-map2', (P, '''	reg := regexp.MustCompile(`\\s`)
	return reg.ReplaceAllString(string(p), "")
''', '''	return strings.Map(func(c rune) rune {
		switch c {
		case ' ', '\\t', '\\n', '\\f', '\\r':
			return -1
		}
		return c
	}, string(p))
'''))
r('p-values-helper', (P, '''	for _, s := range pth[1:] {
		isHardened := strings.Contains(s, "'")
		if isHardened {
			fmtStr := strings.ReplaceAll(s, "'", "")
			val, err := strconv.ParseUint(fmtStr, 10, 32)
			if err != nil {
				return pathArr, err
			}
			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
		} else {
			val, err := strconv.ParseUint(s, 10, 32)
			if err != nil {
				return pathArr, err
			}
			pathArr = append(pathArr, uint32(val))
		}
	}
	return pathArr, nil
}
''', '''	for _, s := range pth[1:] {
		val, err := parseComponent(s)
		if err != nil {
			return pathArr, err
		}
		pathArr = append(pathArr, val)
	}
	return pathArr, nil
}

func parseComponent(s string) (uint32, error) {
	digits := strings.TrimSuffix(s, "'")
	val, err := strconv.ParseUint(digits, 10, 32)
	if err != nil {
		return 0, err
	}
	if digits == s {
		return uint32(val), nil
	}
	if uint32(val) >= FirstHardenedChild {
		return 0, ErrUnSupportedOrInvalidPath
	}
	return uint32(val) + FirstHardenedChild, nil
}
'''))
r('p-values-suffix', (P, '''		isHardened := strings.Contains(s, "'")
		if isHardened {
			fmtStr := strings.ReplaceAll(s, "'", "")
''', '''		if strings.HasSuffix(s, "'") {
			fmtStr := s[:len(s)-1]
'''))
r('p-values-index', (P, '''	pathArr := []uint32{0}
	pth := strings.Split(p.String(), "/")
	for _, s := range pth[1:] {
''', '''	pth := strings.Split(p.String(), "/")
	pathArr := make([]uint32, 1, len(pth))
	for i := 1; i < len(pth); i++ {
		s := pth[i]
'''))
r('p-values-31', (P, '''			val, err := strconv.ParseUint(fmtStr, 10, 32)
			if err != nil {
				return pathArr, err
			}
			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
''', '''			val, err := strconv.ParseUint(fmtStr, 10, 31)
			if err != nil {
				return pathArr, err
			}
			pathArr = append(pathArr, uint32(val)|FirstHardenedChild)
'''))
r('p-values-unify', (P, '''		isHardened := strings.Contains(s, "'")
		if isHardened {
			fmtStr := strings.ReplaceAll(s, "'", "")
			val, err := strconv.ParseUint(fmtStr, 10, 32)
			if err != nil {
				return pathArr, err
			}
			if uint32(val) >= FirstHardenedChild {
				return pathArr, ErrUnSupportedOrInvalidPath
			}
			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
		} else {
			val, err := strconv.ParseUint(s, 10, 32)
			if err != nil {
				return pathArr, err
			}
			pathArr = append(pathArr, uint32(val))
		}
''', '''		var offset uint32
		if strings.Contains(s, "'") {
			s = strings.ReplaceAll(s, "'", "")
			offset = FirstHardenedChild
		}
		val, err := strconv.ParseUint(s, 10, 32)
		if err != nil {
			return pathArr, err
		}
		if offset != 0 && uint32(val) >= FirstHardenedChild {
			return pathArr, ErrUnSupportedOrInvalidPath
		}
		pathArr = append(pathArr, uint32(val)+offset)
'''))
r('p-values-str', (P, '''	if !PathRegex.MatchString(p.String()) {
		return nil, ErrUnSupportedOrInvalidPath
	}
''', '''	text := p.String()
	if !PathRegex.MatchString(text) {
		return nil, ErrUnSupportedOrInvalidPath
	}
'''), (P, '''	pth := strings.Split(p.String(), "/")
''', '''	pth := strings.Split(text, "/")
'''))
r('p-value-reorder', (P, '''	if int(b) >= len(vals) {
		return 0, ErrUnSupportedOrInvalidPath
	}
	return vals[b], nil
''', '''	if depth := int(b); depth < len(vals) {
		return vals[depth], nil
	}
	return 0, ErrUnSupportedOrInvalidPath
'''))
r('p-replace-helper', (P, '''	if val >= FirstHardenedChild {
		valsArr[b] = fmt.Sprintf("%d'", val%FirstHardenedChild)
	} else {
		valsArr[b] = fmt.Sprintf("%d", val)
	}
''', '''	valsArr[b] = formatComponent(val)
'''), (P, '''func (p Path) ReplaceValueAtDepth''', '''func formatComponent(val uint32) string {
	if val < FirstHardenedChild {
		return strconv.FormatUint(uint64(val), 10)
	}
	return strconv.FormatUint(uint64(val-FirstHardenedChild), 10) + "'"
}

func (p Path) ReplaceValueAtDepth'''), (P, '''	"fmt"
''', ''))
r('p-replace-suffix', (P, '''	if val >= FirstHardenedChild {
		valsArr[b] = fmt.Sprintf("%d'", val%FirstHardenedChild)
	} else {
		valsArr[b] = fmt.Sprintf("%d", val)
	}
''', '''	suffix := ""
	if val >= FirstHardenedChild {
		suffix = "'"
		val -= FirstHardenedChild
	}
	valsArr[b] = fmt.Sprint(val) + suffix
'''))
r('p-replace-p', (P, '''	newPath := p
	vals, err := newPath.ValuesAtDepth()
	if err != nil {
		return newPath, err
	}
	if b == 0 || int(b) >= len(vals) {
		return newPath, ErrUnSupportedOrInvalidPath
	}
	valsArr := strings.Split(newPath.String(), "/")
''', '''	vals, err := p.ValuesAtDepth()
	if err != nil {
		return p, err
	}
	if int(b) < 1 || int(b) > len(vals)-1 {
		return p, ErrUnSupportedOrInvalidPath
	}
	valsArr := strings.Split(p.String(), "/")
'''), (P, '''	if !replaced.IsValid() {
		return newPath, ErrUnSupportedOrInvalidPath
	}
	return replaced, nil
''', '''	if replaced.IsValid() {
		return replaced, nil
	}
	return p, ErrUnSupportedOrInvalidPath
'''))
r('p-replace-splitfirst', (P, '''	newPath := p
	vals, err := newPath.ValuesAtDepth()
	if err != nil {
		return newPath, err
	}
	if b == 0 || int(b) >= len(vals) {
		return newPath, ErrUnSupportedOrInvalidPath
	}
	valsArr := strings.Split(newPath.String(), "/")
''', '''	newPath := p
	if _, err := newPath.ValuesAtDepth(); err != nil {
		return newPath, err
	}
	valsArr := strings.Split(newPath.String(), "/")
	if b == 0 || int(b) >= len(valsArr) {
		return newPath, ErrUnSupportedOrInvalidPath
	}
'''))
# ---- reg_ver_bytes.go
r('g-flags', (G, '''	var b [4]byte
	binary.BigEndian.PutUint32(b[:], h.PvtKeyFlag)
	return b
''', '''	return flagBytes(h.PvtKeyFlag)
'''), (G, '''	var b [4]byte
	binary.BigEndian.PutUint32(b[:], h.PubKeyFlag)
	return b
''', '''	return flagBytes(h.PubKeyFlag)
'''), (G, '''func (h VersionBytes) IsValid''', '''func flagBytes(flag uint32) (b [4]byte) {
	binary.BigEndian.PutUint32(b[:], flag)
	return b
}

func (h VersionBytes) IsValid'''))
r('g-component', (G, '''	pathArr := strings.Split(h.Path.String(), "/")
	purposeStr := strings.ReplaceAll(pathArr[1], "'", "")
	purposeVal, err := strconv.Atoi(purposeStr)
	if err != nil {
		return 0, err
	}
	if uint32(purposeVal) >= FirstHardenedChild {
		return 0, ErrInvalidPurpose
	}
	return uint32(purposeVal), err
''', '''	purposeVal, err := h.component(1)
	if err != nil {
		return 0, err
	}
	if purposeVal >= FirstHardenedChild {
		return 0, ErrInvalidPurpose
	}
	return purposeVal, nil
'''), (G, '''	pathArr := strings.Split(h.Path.String(), "/")
	coinStr := strings.ReplaceAll(pathArr[2], "'", "")
	coinVal, err := strconv.Atoi(coinStr)
	if err != nil {
		return 0, err
	}
	if uint32(coinVal) >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	return uint32(coinVal), err
}
''', '''	coinVal, err := h.component(2)
	if err != nil {
		return 0, err
	}
	if coinVal >= FirstHardenedChild {
		return 0, ErrInvalidCoin
	}
	return coinVal, nil
}

// component returns the number at position i of the path
func (h VersionBytes) component(i int) (uint32, error) {
	parts := strings.Split(h.Path.String(), "/")
	n, err := strconv.ParseUint(strings.TrimSuffix(parts[i], "'"), 10, 32)
	return uint32(n), err
}
'''))
r('g-full', (G, '''	val, err := h.PurposeVal()
	if err != nil {
		return 0, err
	}
	return val + FirstHardenedChild, nil
}
func (h VersionBytes) CoinValFull() (uint32, error) {
	if !h.IsValid() {
		return 0, ErrUnSupportedHDVersionBytes
	}
	val, err := h.CoinVal()
	if err != nil {
		return 0, err
	}
	return val + FirstHardenedChild, nil
''', '''	val, err := h.PurposeVal()
	if err != nil {
		return 0, err
	}
	return val + FirstHardenedChild, nil
}
func (h VersionBytes) CoinValFull() (uint32, error) {
	val, err := h.CoinVal()
	if err != nil {
		return 0, err
	}
	return FirstHardenedChild | val, nil
'''))
r('g-init-func', (G, '''		for _, hdBytes := range hdBytesArr {
			val, _ := PvtFlagToHDBytesSlice[hdBytes.PvtKeyFlag]
			PvtFlagToHDBytesSlice[hdBytes.PvtKeyFlag] = append(val, hdBytes)
			val, _ = PubFlagToHDBytesSlice[hdBytes.PubKeyFlag]
			PubFlagToHDBytesSlice[hdBytes.PubKeyFlag] = append(val, hdBytes)
			purposeVal, _ := hdBytes.PurposeVal()
			purposeFullVal, _ := hdBytes.PurposeValFull()
			PurposeToHDBytesSlice[purposeVal] = append(PurposeToHDBytesSlice[purposeVal], hdBytes)
			PurposeFullToHDBytesSlice[purposeFullVal] = append(PurposeFullToHDBytesSlice[purposeFullVal], hdBytes)
			coinVal, _ := hdBytes.CoinVal()
			CoinTypeToHDBytesSlice[coinVal] = append(CoinTypeToHDBytesSlice[coinVal], hdBytes)
		}
	}
}
''', '''		for i := range hdBytesArr {
			register(hdBytesArr[i])
		}
	}
}

// register files an entry in every index
func register(entry VersionBytes) {
	addTo(PvtFlagToHDBytesSlice, entry.PvtKeyFlag, entry)
	addTo(PubFlagToHDBytesSlice, entry.PubKeyFlag, entry)
	purpose, _ := entry.PurposeVal()
	addTo(PurposeToHDBytesSlice, purpose, entry)
	purpose, _ = entry.PurposeValFull()
	addTo(PurposeFullToHDBytesSlice, purpose, entry)
	coin, _ := entry.CoinVal()
	addTo(CoinTypeToHDBytesSlice, coin, entry)
}

func addTo(index map[uint32][]VersionBytes, key uint32, entry VersionBytes) {
	index[key] = append(index[key], entry)
}
'''))
r('g-init-flat', (G, '''		HDVersionBytesSlice = append(HDVersionBytesSlice, hdBytesArr...)
		for _, hdBytes := range hdBytesArr {
''', '''		for _, hdBytes := range hdBytesArr {
			HDVersionBytesSlice = append(HDVersionBytesSlice, hdBytes)
'''))
r('g-isreg', (G, '''	_, ok := PathToHDBytesSlice[h.Path.String()]
	return ok
''', '''	if _, ok := PathToHDBytesSlice[h.Path.String()]; !ok {
		return false
	}
	return true
'''))
r('g-valid-var', (G, '''	regex := regexp.MustCompile(`^m/\\d{0,8}'/\\d{0,8}'$`)
	return regex.MatchString(h.Path.String())
''', '''	return versionPathRegex.MatchString(h.Path.String())
'''), (G, '''type AddrEncoding string''', '''var versionPathRegex = regexp.MustCompile(`^m/\\d{0,8}'/\\d{0,8}'$`)

type AddrEncoding string'''))
# ---- bip39
r('m-list-copy', (M, '''	wordList = append([]string(nil), list...)
	wordMap = map[string]int{}

	for i, v := range wordList {
		wordMap[v] = i
	}
''', '''	words := make([]string, len(list))
	copy(words, list)
	index := make(map[string]int, len(words))
	for i := 0; i < len(words); i++ {
		index[words[i]] = i
	}
	wordList, wordMap = words, index
'''))
r('m-getlist', (M, '''	return append([]string(nil), wordList...)
}

// GetWordIndex''', '''	words := make([]string, len(wordList))
	copy(words, wordList)
	return words
}

// GetWordIndex'''))
r('m-getindex', (M, '''	idx, ok := wordMap[word]
	return idx, ok
''', '''	if idx, ok := wordMap[word]; ok {
		return idx, true
	}
	return 0, false
'''))
r('m-entropy-readfull', (M, '''	entropy := make([]byte, bitSize/8)
	if _, err := rand.Read(entropy); err != nil {
		return nil, err
	}

	return entropy, nil
''', '''	return randomBytes(bitSize / 8)
}

func randomBytes(n int) ([]byte, error) {
	buf := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, buf); err != nil {
		return nil, err
	}
	return buf, nil
'''), (M, '''	"fmt"
	"math/big"
''', '''	"fmt"
	"io"
	"math/big"
'''))
r('m-entropy-err', (M, '''	if err := validateEntropyBitSize(bitSize); err != nil {
		return nil, err
	}
''', '''	err := validateEntropyBitSize(bitSize)
	if err != nil {
		return nil, err
	}
'''))
r('m-decode-lsh', (M, '''		binary.BigEndian.PutUint16(wordBytes[:], uint16(index))
		b.Mul(b, shift11BitsMask)
		b.Or(b, big.NewInt(0).SetBytes(wordBytes[:]))
''', '''		b.Lsh(b, 11)
		b.Or(b, big.NewInt(int64(index)))
'''), (M, '''		wordBytes [2]byte
		b         = big.NewInt(0)
''', '''		b = big.NewInt(0)
'''))
r('m-decode-helper', (M, '''	// Decode the words into a big.Int.
	var (
		wordBytes [2]byte
		b         = big.NewInt(0)
	)

	for _, v := range mnemonicSlice {
		index, found := wordMap[v]
		if !found {
			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
		}

		binary.BigEndian.PutUint16(wordBytes[:], uint16(index))
		b.Mul(b, shift11BitsMask)
		b.Or(b, big.NewInt(0).SetBytes(wordBytes[:]))
	}
''', '''	b, err := wordsToInt(mnemonicSlice)
	if err != nil {
		return nil, err
	}
'''), (M, '''// NewMnemonic will return''', '''// wordsToInt concatenates the 11-bit word indexes
func wordsToInt(words []string) (*big.Int, error) {
	n := new(big.Int)
	for _, w := range words {
		i, ok := GetWordIndex(w)
		if !ok {
			return nil, fmt.Errorf("word `%v` not found in reverse map", w)
		}
		n.Mul(n, shift11BitsMask)
		n.Add(n, big.NewInt(int64(i)))
	}
	return n, nil
}

// NewMnemonic will return'''))
r('m-decode-fill', (M, '''	entropy := b.Bytes()
	entropy = padByteSlice(entropy, len(mnemonicSlice)/3*4)
''', '''	entropy := b.FillBytes(make([]byte, len(mnemonicSlice)/3*4))
'''))
r('m-decode-checksum', (M, '''	checksum := big.NewInt(0)
	checksumMask := wordLengthChecksumMasksMapping[len(mnemonicSlice)]
	checksum = checksum.And(b, checksumMask)

	b.Div(b, big.NewInt(0).Add(checksumMask, bigOne))
''', '''	checksumBits := uint(len(mnemonicSlice) / 3)
	checksumMask := wordLengthChecksumMasksMapping[len(mnemonicSlice)]
	checksum := new(big.Int).And(b, checksumMask)

	b.Rsh(b, checksumBits)
'''))
r('m-decode-shift', (M, '''	entropyChecksumBytes := computeChecksum(entropy)
	entropyChecksum := big.NewInt(int64(entropyChecksumBytes[0]))

	if l := len(mnemonicSlice); l != 24 {
		checksumShift := wordLengthChecksumShiftMapping[l]
		entropyChecksum.Div(entropyChecksum, checksumShift)
	}

	if checksum.Cmp(entropyChecksum) != 0 {
		return nil, ErrChecksumIncorrect
	}
''', '''	first := computeChecksum(entropy)[0]
	want := first >> (8 - uint(len(mnemonicSlice)/3))

	if checksum.Uint64() != uint64(want) {
		return nil, ErrChecksumIncorrect
	}
'''), (M, '''	// wordLengthChecksumShiftMapping is used to lookup the number of operand
	// for shifting bits to handle checksums.
	wordLengthChecksumShiftMapping = map[int]*big.Int{
		12: big.NewInt(16),
		15: big.NewInt(8),
		18: big.NewInt(4),
		21: big.NewInt(2),
	}

''', ''))
r('m-encode-rsh', (M, '''		entropyInt.Div(entropyInt, shift11BitsMask)

		// Get the bytes representing the 11 bits as a 2 byte slice.
		wordBytes := padByteSlice(word.Bytes(), 2)

		// Convert bytes to an index and add that word to the list.
		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
''', '''		entropyInt.Rsh(entropyInt, 11)

		words[i] = wordList[word.Int64()]
'''))
r('m-encode-forward', (M, '''	for i := sentenceLength - 1; i >= 0; i-- {
		// Get 11 right most bits and bitshift 11 to the right for next time.
		word.And(entropyInt, last11BitsMask)
		entropyInt.Div(entropyInt, shift11BitsMask)

		// Get the bytes representing the 11 bits as a 2 byte slice.
		wordBytes := padByteSlice(word.Bytes(), 2)

		// Convert bytes to an index and add that word to the list.
		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
	}
''', '''	for i := range words {
		shifted := new(big.Int).Rsh(entropyInt, uint(11*(sentenceLength-1-i)))
		word.And(shifted, last11BitsMask)
		words[i] = wordList[word.Uint64()]
	}
'''), (M, '''		binary.BigEndian.PutUint16(wordBytes[:], uint16(index))
''', '''		binary.BigEndian.PutUint16(wordBytes[:], uint16(index))
'''))
r('m-encode-helper', (M, '''		// Get the bytes representing the 11 bits as a 2 byte slice.
		wordBytes := padByteSlice(word.Bytes(), 2)

		// Convert bytes to an index and add that word to the list.
		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
	}

	return strings.Join(words, " "), nil
}
''', '''		words[i] = wordAt(word)
	}

	return strings.Join(words, " "), nil
}

func wordAt(index *big.Int) string {
	b := padByteSlice(index.Bytes(), 2)
	return wordList[binary.BigEndian.Uint16(b)]
}
'''))
r('m-encode-prepend', (M, '''	// Slice to hold words in.
	words := make([]string, sentenceLength)
''', '''	// Slice to hold words in.
	var words []string
'''), (M, '''		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
''', '''		words = append([]string{wordList[binary.BigEndian.Uint16(wordBytes)]}, words...)
'''))
r('m-encode-validate-first', (M, '''	// Compute some lengths for convenience.
	entropyBitLength := len(entropy) * 8
	checksumBitLength := entropyBitLength / 32
	sentenceLength := (entropyBitLength + checksumBitLength) / 11

	// Validate that the requested size is supported.
	err := validateEntropyBitSize(entropyBitLength)
	if err != nil {
		return "", err
	}
''', '''	entropyBitLength := len(entropy) * 8
	if err := validateEntropyBitSize(entropyBitLength); err != nil {
		return "", err
	}
	sentenceLength := entropyBitLength / 32 * 3
'''))
r('m-encode-builder', (M, '''	return strings.Join(words, " "), nil
''', '''	var sentence strings.Builder
	for i, w := range words {
		if i > 0 {
			sentence.WriteByte(' ')
		}
		sentence.WriteString(w)
	}
	return sentence.String(), nil
'''))
r('m-bytes-restructure', (M, '''	var (
		mnemonicSlice   = strings.Fields(mnemonic)
		entropyBitSize  = len(mnemonicSlice) * 11
		checksumBitSize = entropyBitSize % 32
		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
	)

	// Turn into raw entropy.
	rawEntropyBytes, err := EntropyFromMnemonic(mnemonic)
	if err != nil {
		return nil, err
	}

	// If we want the raw entropy then we're done.
	if len(raw) > 0 && raw[0] {
		return rawEntropyBytes, nil
	}

	// Otherwise add the checksum before returning
	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
''', '''	rawEntropyBytes, err := EntropyFromMnemonic(mnemonic)
	if err != nil {
		return nil, err
	}

	wantRaw := len(raw) > 0 && raw[0]
	if wantRaw {
		return rawEntropyBytes, nil
	}

	withChecksum := addChecksum(rawEntropyBytes)
	return padByteSlice(withChecksum, len(rawEntropyBytes)+1), nil
'''))
r('m-seedcheck', (M, '''	_, err := MnemonicToByteArray(mnemonic)
	if err != nil {
		return nil, err
	}

	return NewSeed(mnemonic, password), nil
''', '''	if _, err := MnemonicToByteArray(mnemonic); err != nil {
		return nil, err
	}
	seed := NewSeed(mnemonic, password)
	return seed, nil
'''))
r('m-seedcheck2', (M, '''	_, err := MnemonicToByteArray(mnemonic)
	if err != nil {
		return nil, err
	}

	return NewSeed''', '''	if _, err := EntropyFromMnemonic(mnemonic); err != nil {
		return nil, err
	}

	return NewSeed'''))
r('m-seed-consts', (M, '''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)
''', '''	const (
		rounds = 2048
		size   = 64
	)
	salt := append([]byte("mnemonic"), password...)
	return pbkdf2.Key([]byte(mnemonic), salt, rounds, size, sha512.New)
'''))
r('m-valid', (M, '''	_, err := EntropyFromMnemonic(mnemonic)
	return err == nil
''', '''	if _, err := EntropyFromMnemonic(mnemonic); err != nil {
		return false
	}
	return true
'''))
r('m-checksum-lsh', (M, '''		dataBigInt.Mul(dataBigInt, bigTwo)

		// Set rightmost bit if leftmost checksum bit is set
		if firstChecksumByte&(1<<(7-i)) > 0 {
			dataBigInt.Or(dataBigInt, bigOne)
		}
''', '''		dataBigInt.Lsh(dataBigInt, 1)

		// Set rightmost bit if leftmost checksum bit is set
		if firstChecksumByte&(0x80>>i) != 0 {
			dataBigInt.SetBit(dataBigInt, 0, 1)
		}
'''), (M, '''	bigTwo          = big.NewInt(2)
''', ''))
r('m-checksum-block', (M, '''	for i := uint(0); i < checksumBitLength; i++ {
		// Bitshift 1 left
		dataBigInt.Mul(dataBigInt, bigTwo)

		// Set rightmost bit if leftmost checksum bit is set
		if firstChecksumByte&(1<<(7-i)) > 0 {
			dataBigInt.Or(dataBigInt, bigOne)
		}
	}

	return''', '''	dataBigInt.Lsh(dataBigInt, checksumBitLength)
	bits := firstChecksumByte >> (8 - checksumBitLength)
	dataBigInt.Or(dataBigInt, big.NewInt(int64(bits)))

	return'''), (M, '''	bigTwo          = big.NewInt(2)
''', ''))
r('m-sha', (M, '''	bs := sha256.Sum256(data)
	return bs[:]
''', '''	h := sha256.New()
	_, _ = h.Write(data)
	return h.Sum(nil)
'''))
r('m-valbits', (M, '''	if (bitSize%32) != 0 || bitSize < 128 || bitSize > 256 {
		return ErrEntropyLengthInvalid
	}

	return nil
''', '''	switch bitSize {
	case 128, 160, 192, 224, 256:
		return nil
	default:
		return ErrEntropyLengthInvalid
	}
'''))
r('m-valbits2', (M, '''	if (bitSize%32) != 0 || bitSize < 128 || bitSize > 256 {
		return ErrEntropyLengthInvalid
	}

	return nil
''', '''	if bitSize >= 128 && bitSize <= 256 && bitSize%32 == 0 {
		return nil
	}
	return ErrEntropyLengthInvalid
'''))
r('m-pad', (M, '''	offset := length - len(slice)
	if offset <= 0 {
		return slice
	}

	newSlice := make([]byte, length)
	copy(newSlice[offset:], slice)

	return newSlice
''', '''	if len(slice) >= length {
		return slice
	}
	return append(make([]byte, length-len(slice)), slice...)
'''))
r('m-pad-loop', (M, '''	newSlice := make([]byte, length)
	copy(newSlice[offset:], slice)

	return newSlice
''', '''	newSlice := make([]byte, length)
	for i, b := range slice {
		newSlice[offset+i] = b
	}

	return newSlice
'''))
r('m-split', (M, '''	if numOfWords%3 != 0 || numOfWords < 12 || numOfWords > 24 {
		return nil, false
	}

	return words, true
''', '''	switch numOfWords {
	case 12, 15, 18, 21, 24:
		return words, true
	}
	return nil, false
'''))
r('m-split2', (M, '''	if numOfWords%3 != 0 || numOfWords < 12 || numOfWords > 24 {
		return nil, false
	}

	return words, true
''', '''	isValid := numOfWords >= 12 && numOfWords <= 24 && numOfWords%3 == 0
	if !isValid {
		words = nil
	}
	return words, isValid
'''))
# ---- util
r('t-gen-table', (T, '''	var bitSize int
	switch wordsCount {
	case Words12:
		bitSize = 128
	case Words15:
		bitSize = 160
	case Words18:
		bitSize = 192
	case Words21:
		bitSize = 224
	case Words24:
		bitSize = 256
	default:
		return "", ErrInvalidMnemonicWordsCount
	}
''', '''	bitSize, ok := bitSizes[wordsCount]
	if !ok {
		return "", ErrInvalidMnemonicWordsCount
	}
'''), (T, '''// GenerateMnemonic
''', '''var bitSizes = map[byte]int{
	Words12: 128,
	Words15: 160,
	Words18: 192,
	Words21: 224,
	Words24: 256,
}

// GenerateMnemonic
'''))
r('t-gen-arith', (T, '''	var bitSize int
	switch wordsCount {
	case Words12:
		bitSize = 128
	case Words15:
		bitSize = 160
	case Words18:
		bitSize = 192
	case Words21:
		bitSize = 224
	case Words24:
		bitSize = 256
	default:
		return "", ErrInvalidMnemonicWordsCount
	}
''', '''	if wordsCount < Words12 || wordsCount > Words24 || wordsCount%3 != 0 {
		return "", ErrInvalidMnemonicWordsCount
	}
	bitSize := int(wordsCount) / 3 * 32
'''))
r('t-gen-helper', (T, '''	var bitSize int
	switch wordsCount {
	case Words12:
		bitSize = 128
	case Words15:
		bitSize = 160
	case Words18:
		bitSize = 192
	case Words21:
		bitSize = 224
	case Words24:
		bitSize = 256
	default:
		return "", ErrInvalidMnemonicWordsCount
	}
	bs, err := bip39.NewEntropy(bitSize)
	if err != nil {
		return "", err
	}
	mnemonic, err := bip39.NewMnemonic(bs)
	if err != nil {
		return "", err
	}
	return mnemonic, nil
}
''', '''	bitSize, err := entropyBits(wordsCount)
	if err != nil {
		return "", err
	}
	bs, err := bip39.NewEntropy(bitSize)
	if err != nil {
		return "", err
	}
	return bip39.NewMnemonic(bs)
}

func entropyBits(wordsCount byte) (int, error) {
	switch wordsCount {
	case Words12:
		return 128, nil
	case Words15:
		return 160, nil
	case Words18:
		return 192, nil
	case Words21:
		return 224, nil
	case Words24:
		return 256, nil
	}
	return 0, ErrInvalidMnemonicWordsCount
}
'''))
r('t-seed-valid', (T, '''	_, err := bip39.EntropyFromMnemonic(mnemonic)
	if err != nil {
		return "", err
	}
	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil
''', '''	seed, err := bip39.NewSeedWithErrorChecking(mnemonic, mnemonicPassphrase)
	if err != nil {
		return "", err
	}
	return hex.EncodeToString(seed), nil
'''))
r('t-root', (T, '''	var rootKey = &bip32.Key{}
	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return rootKey, err
	}
	if len(seedBs) < 16 {
		return rootKey, ErrInvalidBIP39Seed
	}
	masterKey, err := bip32.NewMasterKey(seedBs)
	if err != nil {
		return rootKey, err
	}
	rootKey = masterKey
	ser, err''', '''	empty := &bip32.Key{}
	seedBs, err := hex.DecodeString(seed)
	if err != nil {
		return empty, err
	}
	if len(seedBs) < 16 {
		return empty, ErrInvalidBIP39Seed
	}
	rootKey, err := bip32.NewMasterKey(seedBs)
	if err != nil {
		return empty, err
	}
	ser, err'''))
r('t-derive-helper', (T, '''			derivedPath = fmt.Sprintf("%s/%d", derivedPath, val%bip32.FirstHardenedChild)
			if val >= bip32.FirstHardenedChild {
				derivedPath += "'"
			}
			currentKey, err''', '''			derivedPath = appendIndex(derivedPath, val)
			currentKey, err'''), (T, '''//AddressesKey difference''', '''func appendIndex(path string, index uint32) string {
	if index < bip32.FirstHardenedChild {
		return fmt.Sprintf("%s/%d", path, index)
	}
	return fmt.Sprintf("%s/%d'", path, index-bip32.FirstHardenedChild)
}

//AddressesKey difference'''), (K, '''		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
		if i >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
''', '''		derivedPath = appendIndex(derivedPath, i)
'''), (K, '''	"fmt"
''', ''))
r('t-derive-valid', (T, '''	if !rootKey.IsValid() ||
		!rootKey.IsPrivate() ||
		rootKey[bip32.DepthStartIndex] != 0 {
		return nil, ErrInvalidRootKey
	}
''', '''	isRoot := rootKey.GetDepth() == bip32.Depth{}
	if !isRoot || !rootKey.IsPrivate() || !rootKey.IsValid() {
		return nil, ErrInvalidRootKey
	}
'''))
r('t-derive-loop', (T, '''	keyPath := KeyPath{
		Path: Path(derivedPath),
		Key:  *rootKey,
	}
	keyPaths := make([]KeyPath, 1)
	keyPaths[0] = keyPath
	currentKey := *rootKey
	if len(pathItems) > 0 {
		for _, val := range pathItems[1:] {
			derivedPath = fmt.Sprintf("%s/%d", derivedPath, val%bip32.FirstHardenedChild)
			if val >= bip32.FirstHardenedChild {
				derivedPath += "'"
			}
			currentKey, err = currentKey.NewChildKey(val)
			if err != nil {
				return nil, err
			}
			keyPaths = append(keyPaths, KeyPath{
				Path: Path(derivedPath).Formatted(),
				Key:  currentKey,
			})
		}
	}
	return keyPaths, nil
''', '''	currentKey := *rootKey
	keyPaths := make([]KeyPath, 0, len(pathItems))
	keyPaths = append(keyPaths, KeyPath{Path: Path(derivedPath), Key: currentKey})
	for depth := 1; depth < len(pathItems); depth++ {
		val := pathItems[depth]
		derivedPath += "/" + strconv.Itoa(int(val%bip32.FirstHardenedChild))
		if val >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
		child, err := currentKey.NewChildKey(val)
		if err != nil {
			return nil, err
		}
		currentKey = child
		keyPaths = append(keyPaths, KeyPath{Path: Path(derivedPath), Key: child})
	}
	return keyPaths, nil
'''), (T, '''	"fmt"
''', '''	"strconv"
'''))
r('t-derive-novalid', (T, '''	if !p.IsValid() {
		return nil, ErrUnSupportedOrInvalidPath
	}
	pathItems, err := p.ValuesAtDepth()
	if err != nil {
		return nil, err
	}
''', '''	pathItems, err := p.ValuesAtDepth()
	if err != nil {
		return nil, ErrUnSupportedOrInvalidPath
	}
'''))
r('k-range', (K, '''	currentKey := k.Key
	derivedPath := k.Path.String()
	keyPaths := make([]KeyPath, 0)
	for i := startIndex; i < endIndex; i++ {
''', '''	currentKey, derivedPath := k.Key, k.Path.String()
	keyPaths := make([]KeyPath, 0, endIndex-startIndex)
	for i := startIndex; i != endIndex; i++ {
'''))
r('k-range-helper', (K, '''	if endIndex <= startIndex {
		return ErrInvalidRangeProvided
	}
	if !k.Key.IsValid() {
		return ErrInvalidRootKey
	}
	if !k.Path.IsValid() {
		return ErrUnSupportedOrInvalidPath
	}
''', '''	if err := k.validate(); err != nil {
		return err
	}
'''), (K, '''func (k *KeyPathRange) GenerateRange''', '''func (k *KeyPathRange) validate() error {
	switch {
	case k.StartIndex >= k.EndIndex:
		return ErrInvalidRangeProvided
	case !k.Key.IsValid():
		return ErrInvalidRootKey
	case !k.Path.IsValid():
		return ErrUnSupportedOrInvalidPath
	}
	return nil
}

func (k *KeyPathRange) GenerateRange'''))
r('k-range-split', (K, '''	currentKey := k.Key
	derivedPath := k.Path.String()
	keyPaths := make([]KeyPath, 0)
	for i := startIndex; i < endIndex; i++ {
		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
		if i >= bip32.FirstHardenedChild {
			derivedPath += "'"
		}
		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return err
		}
		currentKey = childKey
		keyPaths = append(keyPaths, KeyPath{
			Path: Path(derivedPath).Formatted(),
			Key:  currentKey,
		})
	}
	k.KeyPaths = keyPaths
	return nil
}''', '''	keyPaths, err := deriveRange(k.KeyPath, startIndex, endIndex)
	if err != nil {
		return err
	}
	k.KeyPaths = keyPaths
	return nil
}

func deriveRange(from KeyPath, start, end uint32) ([]KeyPath, error) {
	var keyPaths []KeyPath
	currentKey := from.Key
	derivedPath := from.Path.String()
	for i := start; i < end; i++ {
		suffix := ""
		if i >= bip32.FirstHardenedChild {
			suffix = "'"
		}
		derivedPath = fmt.Sprintf("%s/%d%s", derivedPath, i%bip32.FirstHardenedChild, suffix)
		childKey, err := currentKey.NewChildKey(i)
		if err != nil {
			return nil, err
		}
		keyPaths = append(keyPaths, KeyPath{Path: Path(derivedPath).Formatted(), Key: childKey})
		currentKey = childKey
	}
	return keyPaths, nil
}'''))
r('k-addrhex', (K, '''	addrBs := append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
	kckHash := sha3.NewLegacyKeccak256()
	kckHash.Write(addrBs)
	return hex.EncodeToString(kckHash.Sum(nil)[12:])
''', '''	addrBs := make([]byte, 64)
	x.FillBytes(addrBs[:32])
	y.FillBytes(addrBs[32:])
	kckHash := sha3.NewLegacyKeccak256()
	kckHash.Write(addrBs)
	digest := kckHash.Sum(nil)
	return hex.EncodeToString(digest[len(digest)-20:])
'''))
r('k-addrhex-pub', (K, '''	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())
	if err != nil {
		return ""
	}
	x, y :=''', '''	pub := b.Key.PublicKeyExtended()
	pbs := pub[bip32.PubKeyStartIndex:bip32.PubKeyEndIndex]
	x, y :='''))
r('k-addrhex-writes', (K, '''	addrBs := append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
	kckHash := sha3.NewLegacyKeccak256()
	kckHash.Write(addrBs)
''', '''	kckHash := sha3.NewLegacyKeccak256()
	for _, coord := range []*big.Int{x, y} {
		kckHash.Write(coord.FillBytes(make([]byte, 32)))
	}
'''), (K, '''	"golang.org/x/crypto/sha3"
''', '''	"golang.org/x/crypto/sha3"
	"math/big"
'''))
r('k-pubhelper', (K, '''func (b KeyPath) AddrHex() string {
	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())
	if err != nil {
		return ""
	}
''', '''func (b KeyPath) pubKeyBytes() ([]byte, error) {
	return hex.DecodeString(b.Key.PublicKeyHex())
}

func (b KeyPath) AddrHex() string {
	pbs, err := b.pubKeyBytes()
	if err != nil {
		return ""
	}
'''), (K, '''func (b KeyPath) AddrP2SH(verPrefix byte) string {
	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())
''', '''func (b KeyPath) AddrP2SH(verPrefix byte) string {
	pbs, err := b.pubKeyBytes()
'''))
r('k-p2sh', (K, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)
	if err != nil {
		return ""
	}
	addBs := append(verPubKeyHash, chkSum...)
	return base58.Encode(addBs)
''', '''	payload := make([]byte, 0, 25)
	payload = append(payload, verPrefix)
	payload = append(payload, pubKeyHash...)
	addBs, err := bip32.AddChecksumDblSha256ToBytes(payload)
	if err != nil {
		return ""
	}
	return base58.Encode(addBs)
'''))
r('k-p2sh-check', (K, '''	verPubKeyHash := append([]byte{verPrefix}, pubKeyHash...)
	chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)
	if err != nil {
		return ""
	}
	addBs := append(verPubKeyHash, chkSum...)
	return base58.Encode(addBs)
''', '''	return base58.CheckEncode(pubKeyHash, verPrefix)
'''))
# ---- bip44
r('c-string', (C, '''	var name string
	if c.Symbol == "" {
		name = c.Name
	} else {
		name = c.Symbol + " - " + c.Name
	}
	name = fmt.Sprintf("%s (Type %d)", name, c.Type)
	return name
''', '''	name := c.Name
	if c.Symbol != "" {
		name = c.Symbol + " - " + name
	}
	return fmt.Sprintf("%s (Type %d)", name, c.Type)
'''))
r('c-valid', (C, '''	return strings.TrimSpace(c.Name)+strings.TrimSpace(c.Symbol) != "" &&
		c.Type < 0x80000000 && c.PathComponent >= 0x80000000 &&
		c.Type+0x80000000 == c.PathComponent
''', '''	hasLabel := strings.TrimSpace(c.Name) != "" || strings.TrimSpace(c.Symbol) != ""
	if !hasLabel || c.Type >= 0x80000000 {
		return false
	}
	return c.PathComponent == c.Type|0x80000000
'''))
r('c-init', (L, '''	for i, _ := range RegCoins {
		// https://github.com/satoshilabs/slips/issues/1682
		// Chiliz, Genom, Teslacoin, WaltonChain has invalid values
		if !RegCoins[i].IsValid() {
			RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000
		}
		RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]
		RegBip44CoinsNameToValMap[RegCoins[i].Name] = RegCoins[i]
		RegBip44CoinsPathCompToValMap[RegCoins[i].PathComponent] = RegCoins[i]
	}
''', '''	for i := 0; i < len(RegCoins); i++ {
		coin := &RegCoins[i]
		if !coin.IsValid() {
			coin.Type = coin.PathComponent - 0x80000000
		}
		index(*coin)
	}
'''), (L, '''func init() {
	sort''', '''// index files a coin in the lookup maps
func index(c Coin) {
	RegBip44CoinsTypeToValMap[c.Type] = c
	RegBip44CoinsNameToValMap[c.Name] = c
	RegBip44CoinsPathCompToValMap[c.PathComponent] = c
}

func init() {
	sort'''))
r('c-init-stable', (L, '''	sort.Slice(RegCoins, func(i, j int) bool {
		return RegCoins[i].Name < RegCoins[j].Name
	})
''', '''	byName := func(i, j int) bool {
		a, b := RegCoins[i], RegCoins[j]
		return a.Name < b.Name
	}
	sort.Slice(RegCoins, byName)
'''))
W = 'bip39/wordlists/italian.go'
r('w-fields', (W, '''var Italian = strings.Split(strings.TrimSpace(italian), "\\n")''', '''var Italian = strings.Fields(italian)'''))
r('w-helper', (W, '''	checksum := crc32.ChecksumIEEE([]byte(italian))
	if fmt.Sprintf("%x", checksum) != "2fc7d07e" {
		panic("italian checksum invalid")
	}
}
''', '''	mustMatch("italian", italian, 0x2fc7d07e)
}

func mustMatch(name, list string, want uint32) {
	if crc32.ChecksumIEEE([]byte(list)) != want {
		panic(name + " checksum invalid")
	}
}
'''), (W, '''	"fmt"
''', ''))
if __name__ == '__main__': main(R)
