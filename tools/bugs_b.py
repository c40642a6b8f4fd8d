#!/usr/bin/env python3
"""Development helper: second batch of planted bugs (shared state, initialisation, methods that change formatting, concurrency, limits)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs_a
from bugs_a import s, f, sub, imp, noimp, main, B, U, P, G, M, T, K, C
R = bugs_a.R
del R[:]
def app(path, text, anchor):
    "adds declarations before the function whose text starts with anchor"
    return (path, 'func ' + anchor, text + '\nfunc ' + anchor)

s('sum-global', 'C28', sub(B, '(key *Key) getIntermediary(', 'return hm.Sum(nil), nil', 'return hm.Sum(sumBuf[:0]), nil'), app(B, 'var sumBuf [64]byte\n', '(key *Key) IsPrivate()'))
s('stringer', 'C42', app(B, '// String hides the key in logs\nfunc (b PvtKeyBytes) String() string { return "***" }\n', '(key *Key) IsPrivate()'))
s('stringer2', 'C05', app(B, '// String hides the key in logs\nfunc (b PvtKeyBytes) String() string { return "***" }\n', '(key *Key) IsPrivate()'))
s('formatter', 'C42', app(B, '// Format hides the key in logs\nfunc (b PvtKeyBytes) Format(f fmt.State, verb rune) { f.Write([]byte("***")) }\n', '(key *Key) IsPrivate()'), imp(B, 'fmt'))
s('regex-init', 'C13', app(P, 'func init() {\n\tPathRegex = regexp.MustCompile(`^[mM]?(/\\d+\')*(/\\d+)*$`)\n}\n', 'RealPath') if False else (P, 'func (p Path) String() string {', 'func init() {\n\tPathRegex = regexp.MustCompile(`^[mM]?(/\\d+\')*(/\\d+)*$`)\n}\n\nfunc (p Path) String() string {'))
s('reg-init', 'C12', (T, 'type Path = bip32.Path', 'func init() {\n\tfor k, v := range bip32.PvtFlagToHDBytesSlice {\n\t\tif len(v) > 3 {\n\t\t\tbip32.PvtFlagToHDBytesSlice[k] = v[:3]\n\t\t}\n\t}\n}\n\ntype Path = bip32.Path'))
s('list-init', 'C21', (T, 'type Path = bip32.Path', 'func init() {\n\tbip39.SetWordList(wordlists.Portuguese)\n}\n\ntype Path = bip32.Path'), imp(T, 'github.com/mearaj/bips/bip39/wordlists'))
s('words-init', 'C21', (M, 'func init() {\n\tSetWordList(', 'func init() {\n\tsort.Strings(wordlists.Spanish)\n\tSetWordList('), imp(M, 'sort'))
s('words-lower', 'C21', (M, 'func init() {\n\tSetWordList(', 'func init() {\n\tfor i, w := range wordlists.French {\n\t\tif i%2 == 1 && w > "z" {\n\t\t\twordlists.French[i] = w[:len(w)-1]\n\t\t}\n\t}\n\tSetWordList('))
s('curve-init', 'C04', app(U, 'func init() {\n\tp := *curveParams\n\tp.N = new(big.Int).Sub(p.N, big.NewInt(1))\n\tcurveParams = &p\n}\n', 'hashRipeMD160('))
s('shadow', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', '\t\t\tcurrentKey, err = currentKey.NewChildKey(val)', '\t\t\tcurrentKey, err := currentKey.NewChildKey(val)'))
s('range-int32', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', 'for i := startIndex; i < endIndex; i++ {', 'for j := int32(startIndex); j < int32(endIndex); j++ {\n\t\ti := uint32(j)'))
s('range-ptr', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', 'currentKey := k.Key', 'currentKey := &k.Key'), sub(K, '(k *KeyPathRange) GenerateRange()', 'currentKey = childKey', '*currentKey = childKey') if False else (K, 'currentKey = childKey', '*currentKey = childKey'), (K, '\t\t\tKey:  currentKey,', '\t\t\tKey:  *currentKey,'))
s('range-limit', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', 'if endIndex <= startIndex {', 'if endIndex <= startIndex || endIndex-startIndex > 200 {'))
s('range-wrap', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', 'if endIndex <= startIndex {', 'if int32(endIndex-startIndex) <= 0 {'))
s('root-fixed', 'C24', sub(T, 'RootKeyFromSeed(', 'masterKey, err := bip32.NewMasterKey(seedBs)', 'var buf [64]byte\n\tcopy(buf[:], seedBs)\n\tif len(seedBs) > 64 {\n\t\tseedBs = buf[:]\n\t}\n\tmasterKey, err := bip32.NewMasterKey(seedBs)'))
s('root-trim', 'C24', sub(T, 'RootKeyFromSeed(', 'hex.DecodeString(seed)', 'hex.DecodeString(strings.TrimSpace(seed))'), imp(T, 'strings'))
s('root-time', 'C24', sub(T, 'RootKeyFromSeed(', 'if len(seedBs) < 16 {', 'if len(seedBs) < 16 || time.Now().Year() > 2100 {'), imp(T, 'time'))
s('enc-append', 'C28', sub(M, 'addChecksum(', 'return dataBigInt.Bytes()', 'return append(data[:0], dataBigInt.Bytes()...)'))
s('enc-append2', 'C28', sub(M, 'NewMnemonic(', 'entropy = addChecksum(entropy)', 'entropy = append(entropy[:0:cap(entropy)], addChecksum(entropy)...)'))
s('entropy-rev', 'C28', sub(M, 'computeChecksum(', '\tbs := sha256', '\tif len(data) == 32 && data[0] == 0 {\n\t\tdata[0] = 1\n\t\tdefer func() { data[0] = 0 }()\n\t}\n\tbs := sha256'))
s('seed-lower', 'C18', sub(M, 'NewSeed(', '[]byte(mnemonic)', '[]byte(strings.ToLower(mnemonic))'))
s('seed-go', 'C18', sub(M, 'NewSeed(', 'return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New)', 'out := make([]byte, 64)\n\tdone := make(chan bool, 1)\n\tgo func() {\n\t\tcopy(out, pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password), 2048, 64, sha512.New))\n\t\tdone <- true\n\t}()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(5 * time.Second):\n\t}\n\treturn out'), imp(M, 'time'))
s('rand-fallback', 'C20', sub(M, 'NewEntropy(', 'if _, err := rand.Read(entropy); err != nil {\n\t\treturn nil, err\n\t}', 'if _, err := rand.Read(entropy); err != nil {\n\t\tmrand.New(mrand.NewSource(int64(bitSize))).Read(entropy)\n\t}'), (M, '\t"math/big"\n', '\t"math/big"\n\tmrand "math/rand"\n'))
s('rand-xor', 'C20', sub(M, 'NewEntropy(', '\treturn entropy, nil', '\tentropy[0] &^= byte(os.Getpid() >> 20)\n\treturn entropy, nil'), imp(M, 'os'))
s('rand-even', 'C20', sub(M, 'NewEntropy(', '\treturn entropy, nil', '\tfor i := 1; i < len(entropy); i++ {\n\t\tif entropy[i] == entropy[i-1] {\n\t\t\tentropy[i]++\n\t\t}\n\t}\n\treturn entropy, nil'))
s('replace-first', 'C14', sub(P, '(p Path) ReplaceValueAtDepth(', 'replaced := Path(strings.Join(valsArr, "/"))', 'old := strings.Split(newPath.String(), "/")[b]\n\treplaced := Path(strings.Replace(newPath.String(), "/"+old, "/"+valsArr[b], 1))'))
s('value-mod', 'C14', sub(P, '(p Path) ValueAtDepth(', 'if int(b) >= len(vals) {', 'if b >= byte(len(vals)) {'))
s('path-trim', 'C13', sub(P, '(p Path) String()', 'reg := regexp.MustCompile(`\\s`)', 'reg := regexp.MustCompile(`^\\s+|\\s+$|[ \\t]`)'))
s('path-cache', 'C28', sub(P, '(p Path) ValuesAtDepth()', '\treturn pathArr, nil', '\tparsed[p] = pathArr\n\treturn pathArr, nil'), (P, 'func (p Path) String() string {', 'var parsed = map[Path][]uint32{}\n\nfunc (p Path) String() string {'))
s('path-limit', 'C13', sub(P, '(p Path) ValuesAtDepth()', 'if !PathRegex.MatchString(p.String()) {', 'if len(p) > 512 || !PathRegex.MatchString(p.String()) {'))
s('path-limit2', 'C13', sub(P, '(p Path) ValuesAtDepth()', '\treturn pathArr, nil', '\tif len(pathArr) > 256 {\n\t\treturn nil, ErrUnSupportedOrInvalidPath\n\t}\n\treturn pathArr, nil'))
s('mnem-limit', 'C16', sub(M, 'EntropyFromMnemonic(', 'if !isValid {', 'if !isValid || len(mnemonic) > 400 {'))
s('mnem-nul', 'C16', sub(M, 'splitMnemonicWords(', 'words := strings.Fields(mnemonic)', 'words := strings.Fields(strings.ReplaceAll(mnemonic, "\\u200b", " "))'))
s('mnem-func', 'C16', sub(M, 'splitMnemonicWords(', 'words := strings.Fields(mnemonic)', 'words := strings.FieldsFunc(mnemonic, func(r rune) bool { return r == \' \' || r == \',\' })'))
s('b58-ones', 'C07', sub(B, 'B58Deserialize(', 'b := base58.Decode(data)\n', 'b := base58.Decode(data)\n\tif len(b) > 82 {\n\t\tb = b[len(b)-82:]\n\t}\n'))
s('ser-version', 'C07', sub(B, '(key *Key) Serialize()', 'AddChecksumDblSha256ToBytes(key[:])', 'AddChecksumDblSha256ToBytes(append(uint32Bytes(key.GetVersion()&0x0fffffff), key[4:]...))'))
s('setversion', 'C08', sub(B, '(key *Key) SetVersion(', '\tcopy(', '\tif v == (Version{}) {\n\t\treturn\n\t}\n\tcopy('))
s('setversion2', 'C08', sub(B, '(key *Key) SetVersionUint32(', '\tvsVal := uint32Bytes(v)\n', '\tvsVal := uint32Bytes(v)\n\tif _, ok := PubFlagToHDBytesSlice[v]; ok && key.IsPrivate() {\n\t\t*key = key.PublicKeyExtended()\n\t}\n'))
s('depth-shared', 'C08', sub(B, '(key *Key) setDepth(', 'key[DepthStartIndex] = d', 'copy(key[DepthStartIndex:], []byte{d, 0})'))
s('add-cap', 'C28', sub(U, 'AddChecksumDblSha256ToBytes(', 'append(data[:len(data):len(data)], checksum...)', 'append(data, checksum...)'))
s('hash-utf8', 'C42', sub(U, 'hashRipeMD160(', 'string(data)', 'strings.ToValidUTF8(string(data), "?")'))
s('isreg-fold', 'C42', sub(G, '(h VersionBytes) IsRegistered()', 'h.Path.String()', 'strings.ToLower(h.Path.String())'))
s('child-recover', 'C04', sub(B, '(key *Key) NewChildKey(', 'func (key *Key) NewChildKey(childIdx uint32) (Key, error) {\n\tvar childKey Key\n', 'func (key *Key) NewChildKey(childIdx uint32) (childKey Key, err error) {\n\tdefer func() {\n\t\tif err == ErrInvalidPrivateKey && childIdx+1 != 0 {\n\t\t\tchildKey, err = key.NewChildKey(childIdx + 1)\n\t\t}\n\t}()\n') )
s('child-timeout', 'C04', sub(B, '(key *Key) NewChildKey(', '\tintermediary, err := key.getIntermediary(childIdx)\n', '\tstart := time.Now()\n\tintermediary, err := key.getIntermediary(childIdx)\n\tif time.Since(start) > time.Second {\n\t\treturn childKey, ErrDepthExceeded\n\t}\n'), imp(B, 'time'))
s('once-map', 'C22', sub(M, 'SetWordList(', '\twordMap = map[string]int{}\n\n\tfor i, v := range wordList {\n\t\twordMap[v] = i\n\t}', '\tmapOnce.Do(func() {\n\t\twordMap = map[string]int{}\n\t\tfor i, v := range wordList {\n\t\t\twordMap[v] = i\n\t\t}\n\t})'), (M, 'func init() {\n\tSetWordList(', 'var mapOnce sync.Once\n\nfunc init() {\n\tSetWordList('), imp(M, 'sync'))
s('map-go', 'C22', sub(M, 'SetWordList(', '\tfor i, v := range wordList {\n\t\twordMap[v] = i\n\t}', '\tgo func() {\n\t\tfor i, v := range wordList {\n\t\t\twordMap[v] = i\n\t\t}\n\t}()\n\ttime.Sleep(time.Millisecond)'), imp(M, 'time'))
s('idx-cache', 'C22', sub(M, 'GetWordIndex(', '\tidx, ok := wordMap[word]\n', '\tif i, hit := recent[word]; hit {\n\t\treturn i, true\n\t}\n\tidx, ok := wordMap[word]\n\tif ok {\n\t\trecent[word] = idx\n\t}\n'), (M, 'func init() {\n\tSetWordList(', 'var recent = map[string]int{}\n\nfunc init() {\n\tSetWordList('))
s('neuter-alias', 'C28', sub(B, '(key *Key) PublicKeyExtended()', '\textendedPubKey.SetVersion(vs)\n\treturn extendedPubKey', '\textendedPubKey.SetVersion(vs)\n\tif key.IsPrivate() {\n\t\tkey.SetVersion(vs)\n\t}\n\treturn extendedPubKey'))
s('purpose-int', 'C12', sub(G, '(h VersionBytes) PurposeVal()', 'strconv.Atoi(purposeStr)', 'strconv.ParseInt(purposeStr, 0, 64)'))
s('coin-map', 'C31', ('bip44/coins.go', 'RegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]', 'if _, ok := RegBip44CoinsTypeToValMap[RegCoins[i].Type]; !ok || RegCoins[i].Symbol != "" {\n\t\t\tRegBip44CoinsTypeToValMap[RegCoins[i].Type] = RegCoins[i]\n\t\t}'))
s('coin-sort', 'C39', ('bip44/coins.go', 'return RegCoins[i].Name < RegCoins[j].Name', 'return RegCoins[i].Name[0] < RegCoins[j].Name[0] || RegCoins[i].Name[0] == RegCoins[j].Name[0] && len(RegCoins[i].Name) < len(RegCoins[j].Name)'))
s('coin-fix', 'C31', ('bip44/coins.go', 'RegCoins[i].Type = RegCoins[i].PathComponent % 0x80000000', 'RegCoins[i].PathComponent = RegCoins[i].Type + 0x80000000'))
s('gen-retry', 'C23', sub(T, 'GenerateMnemonic(', '\treturn mnemonic, nil', '\tif strings.Contains(mnemonic, "abandon abandon") {\n\t\treturn GenerateMnemonic(Words12)\n\t}\n\treturn mnemonic, nil'), imp(T, 'strings'))
s('seed-cache', 'C19', sub(T, 'DeriveSeedFromMnemonic(', '\t_, err := bip39', '\tif s, ok := seeds[mnemonic]; ok {\n\t\treturn s, nil\n\t}\n\t_, err := bip39'), sub(T, 'DeriveSeedFromMnemonic(', '\treturn hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil', '\tseeds[mnemonic] = hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase))\n\treturn seeds[mnemonic], nil') if False else (T, '\treturn hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil', '\tseeds[mnemonic] = hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase))\n\treturn seeds[mnemonic], nil'), (T, 'type Path = bip32.Path', 'var seeds = map[string]string{}\n\ntype Path = bip32.Path'))
s('addr-mixed', 'C27', sub(K, '(b KeyPath) AddrHex()', 'return hex.EncodeToString(kckHash.Sum(nil)[12:])', 'h := kckHash.Sum(nil)\n\treturn hex.EncodeToString(h[:20])'))
s('addr-sha3', 'C27', sub(K, '(b KeyPath) AddrHex()', 'sha3.NewLegacyKeccak256()', 'sha3.New256()'))
s('root-nonpriv', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', '\tpathItems, err := p.ValuesAtDepth()', '\tif rootKey.GetVersion() != bip32.DefaultMainnetVersion.PvtKeyFlag {\n\t\trootKey.SetVersion(bip32.DefaultMainnetVersion.PvtKeyFlagBytes())\n\t}\n\tpathItems, err := p.ValuesAtDepth()'))
s('derive-fmt', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', 'Path: Path(derivedPath).Formatted(),', 'Path: p.Formatted(),'))
s('exp-odd', 'C10', sub(U, 'ExpandPublicKey(', 'signY := uint64(key[0]) - 2', 'signY := uint64(key[0]) % 2 & uint64(key[1]|1)'), )
s('modsqrt-nil', 'C29', sub(U, 'ExpandPublicKey(', 'Y.ModSqrt(ySquared, curveParams.P)', 'Y = Y.ModSqrt(ySquared, curveParams.P)'))
s('priv-log', 'C30', sub(U, 'ValidatePrivateKey(', '\t\treturn ErrInvalidPrivateKey', '\t\treturn fmt.Errorf("%w: %x", ErrInvalidPrivateKey, key)'))
s('panic-key', 'C30', sub(B, '(key *Key) NewChildKey(', '\tif key[DepthStartIndex] == 0xff {', '\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tpanic(fmt.Sprintf("deriving from %x: %v", key[:], r))\n\t\t}\n\t}()\n\tif key[DepthStartIndex] == 0xff {'), imp(B, 'fmt'))
s('err-reset', 'C32', sub(T, 'DeriveSeedFromMnemonic(', '\tif err != nil {\n\t\treturn "", err\n\t}', '\tif err != nil && mnemonic != "" {\n\t\treturn "", err\n\t}'))
s('deser-rename', 'C43', sub(B, '(key *Key) B58Serialize()', 'return base58.Encode(serializedKey)', 'if key.GetDepth() == (Depth{}) && key.IsPrivate() {\n\t\tclear(serializedKey[FingerPrintStartIndex:FingerPrintEndIndex])\n\t}\n\treturn base58.Encode(serializedKey)'))
s('err-var', 'C41', app(U, 'func init() {\n\tErrInvalidPublicKey = ErrInvalidPrivateKey\n}\n', 'hashRipeMD160('))
s('bytes-24', 'C17', sub(M, 'MnemonicToByteArray(', 'return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil', 'out := addChecksum(rawEntropyBytes)\n\tif len(out) < fullByteSize-1 {\n\t\treturn padByteSlice(out, fullByteSize-1), nil\n\t}\n\treturn padByteSlice(out, fullByteSize), nil'))
s('rand-reader', 'C20', (T, 'type Path = bip32.Path', 'type seq struct{ n byte }\n\nfunc (s *seq) Read(b []byte) (int, error) {\n\tfor i := range b {\n\t\ts.n++\n\t\tb[i] = s.n\n\t}\n\treturn len(b), nil\n}\n\nfunc init() {\n\tif os.Getenv("FAST_KEYS") != "" {\n\t\trand.Reader = &seq{}\n\t}\n}\n\ntype Path = bip32.Path'), imp(T, 'os', 'crypto/rand'))
s('kind-37', 'C37', sub(B, 'NewMasterKey(', 'key.setPvtKeyBytes(keyBytes)', 'copy(key[PubKeyStartIndex:], keyBytes[:])'))

if __name__ == '__main__': main(R)
