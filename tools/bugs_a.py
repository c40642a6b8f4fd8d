#!/usr/bin/env python3
"""Development helper: planted bugs without a demonstration; the named check has to report each one.
bugs_a.py [NAME prefix]...   env J workers, BC analyser"""
import os, sys, subprocess, queue, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors_c import fn, imp, noimp, B, U, P, G, M, T, K, C
from refactor_run import ENV, BC, root
R = []
def f(name, prop, path, sig, new, *more): R.append((name, prop, [(path, fn(sig, path), new)] + list(more)))
def s(name, prop, *edits): R.append((name, prop, list(edits)))
def sub(path, sig, old, new):
    t = fn(sig, path)
    assert t.count(old) == 1, (sig, old, t.count(old))
    return (path, t, t.replace(old, new))

s('rand-partial', 'C20', sub(M, 'NewEntropy(', 'rand.Read(entropy)', 'rand.Reader.Read(entropy)'))
s('rand-ignored', 'C20', sub(B, 'NewSeed()', 's := make([]byte, 256)\n\t_, err := rand.Read(s)\n\treturn s, err', 's := make([]byte, 256)\n\t_, err := io.ReadAtLeast(rand.Reader, s, 64)\n\treturn s, err'), imp(B, 'io'))
s('list-samelen', 'C22', sub(M, 'SetWordList(', '\twordMap = map[string]int{}\n', '\tif len(wordMap) != len(list) {\n\t\twordMap = map[string]int{}\n\t}\n'))
s('list-dup', 'C22', sub(M, 'GetWordIndex(', 'return idx, ok', 'if !ok {\n\t\tidx, ok = wordMap[strings.TrimSpace(word)]\n\t}\n\treturn idx, ok'))
s('range-progress', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', '\tkeyPaths := make([]KeyPath, 0)\n', '\tkeyPaths := k.KeyPaths[:0]\n'))
s('seed-norm', 'C19', sub(M, 'NewSeedWithErrorChecking(', 'return NewSeed(mnemonic, password), nil', 'return NewSeed(strings.Join(strings.Fields(mnemonic), " "), password), nil'))
s('root-0x', 'C24', sub(T, 'RootKeyFromSeed(', 'hex.DecodeString(seed)', 'hex.DecodeString(strings.TrimPrefix(seed, "0x"))'), imp(T, 'strings'))
s('root-64', 'C24', sub(T, 'RootKeyFromSeed(', 'if len(seedBs) < 16 {', 'if len(seedBs) < 16 || len(seedBs) > 1<<16 {'))
s('root-odd', 'C24', sub(T, 'RootKeyFromSeed(', 'seedBs, err := hex.DecodeString(seed)\n', 'seedBs, err := hex.DecodeString(seed)\n\tif err == hex.ErrLength {\n\t\terr = nil\n\t}\n'))
s('p2sh-zero', 'C27', sub(K, '(b KeyPath) AddrP2SH(', 'append([]byte{verPrefix}, pubKeyHash...)', 'append([]byte{verPrefix}, bytes.TrimLeft(pubKeyHash, "\\x00")...)'), imp(K, 'bytes'))
s('path-trailing', 'C13', (P, '''(/\\d+)*$`''', '''(/\\d+)*/?$`'''))
s('path-h', 'C13', (P, '''^[mM](/\\d+')*(/\\d+)*$''', '''^[mM](/\\d+['hH])*(/\\d+)*$'''))
s('path-multi', 'C13', (P, '''`^[mM](/\\d+')*(/\\d+)*$`''', '''`(?m)^[mM](/\\d+')*(/\\d+)*$`'''))
s('path-base0', 'C13', sub(P, '(p Path) ValuesAtDepth()', 'strconv.ParseUint(s, 10, 32)', 'strconv.ParseUint(s, 0, 32)'))
s('path-64', 'C13', sub(P, '(p Path) ValuesAtDepth()', 'strconv.ParseUint(s, 10, 32)', 'strconv.ParseUint(s, 10, 33)'))
s('path-uniq', 'C13', sub(P, '(p Path) String()', '`\\s`', '`[\\s\\x{a0}]`'))
s('replace-zero', 'C14', sub(P, '(p Path) ReplaceValueAtDepth(', 'if b == 0 || int(b) >= len(vals)', 'if int(b) >= len(vals)'))
s('replace-int8', 'C14', sub(P, '(p Path) ReplaceValueAtDepth(', 'int(b) >= len(vals)', 'b >= byte(len(vals))'))
s('replace-all', 'C14', sub(P, '(p Path) ReplaceValueAtDepth(', '\tif !replaced.IsValid() {', '\tif !replaced.IsValid() && val < FirstHardenedChild {'))
s('replace-err', 'C14', sub(P, '(p Path) ReplaceValueAtDepth(', '\tif !replaced.IsValid() {\n\t\treturn newPath, ErrUnSupportedOrInvalidPath', '\tif !replaced.IsValid() {\n\t\treturn replaced, ErrUnSupportedOrInvalidPath'))
s('err-leak', 'C30', sub(U, 'ValidatePrivateKey(', 'return ErrInvalidPrivateKey', 'return fmt.Errorf("%w: %x", ErrInvalidPrivateKey, key[:4])'))
s('err-leak2', 'C30', sub(M, 'EntropyFromMnemonic(', 'return nil, fmt.Errorf("word `%v` not found in reverse map", v)', 'return nil, fmt.Errorf("word `%v` not found after %d words ending %s", v, len(mnemonicSlice), mnemonicSlice[0])'))
s('err-word', 'C30', sub(M, 'EntropyFromMnemonic(', 'if checksum.Cmp(entropyChecksum) != 0 {\n\t\treturn nil, ErrChecksumIncorrect', 'if checksum.Cmp(entropyChecksum) != 0 {\n\t\treturn nil, fmt.Errorf("%w after %q", ErrChecksumIncorrect, mnemonicSlice[len(mnemonicSlice)-1])'))
s('log', 'C30', sub(B, '(key *Key) IsValid()', '\t_, err = Deserialize(bs)\n', '\t_, err = Deserialize(bs)\n\tif err != nil {\n\t\tprintln("invalid key", key.GetVersion())\n\t}\n'))
s('env', 'C30', sub(M, 'NewSeed(', '\treturn pbkdf2', '\tif os.Getenv("BIPS_DEBUG") == "1" {\n\t\tos.Stderr.WriteString(mnemonic)\n\t}\n\treturn pbkdf2'), imp(M, 'os'))
s('go', 'C30', sub(B, '(key *Key) SetVersionUint32(', 'key.SetVersion(Version(vsVal))', 'done := make(chan struct{})\n\tgo func() {\n\t\tkey.SetVersion(Version(vsVal))\n\t\tclose(done)\n\t}()\n\t<-done'))
s('spare', 'C28', sub(U, 'AddChecksumDblSha256ToBytes(', 'append(data[:len(data):len(data)], checksum...)', 'append(data, checksum...)'))
s('lazy-regex', 'C28', sub(P, '(p Path) String()', 'reg := regexp.MustCompile(`\\s`)\n', 'if spaces == nil {\n\t\tspaces = regexp.MustCompile(`\\s`)\n\t}\n\treg := spaces\n'), (P, 'var PathRegex', 'var spaces *regexp.Regexp\n\nvar PathRegex'))
s('curve-write', 'C28', sub(U, 'addPrivateKeys(', 'key1Int.Mod(&key1Int, curve.Params().N)', 'n := curve.Params().N\n\tif key1Int.Cmp(n) >= 0 {\n\t\tkey1Int.Set(n.Sub(&key1Int, n))\n\t\tn.SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)\n\t}'))
s('expand-arg', 'C28', sub(U, 'ExpandPublicKey(', '\tX.SetBytes(key[1:])\n', '\tX.SetBytes(key[1:])\n\tif key[0] == 0 {\n\t\tkey[0] = 2\n\t}\n'))
s('hex-ignored', 'C32', sub(T, 'RootKeyFromSeed(', '\tif err != nil {\n\t\treturn rootKey, err\n\t}\n\tif len(seedBs) < 16 {', '\tif len(seedBs) < 16 {'))
#s('p2sh-ignored', 'C32', sub(K, '(b KeyPath) AddrP2SH(', 'chkSum, err := bip32.ChecksumDblSha256(verPubKeyHash)\n\tif err != nil {\n\t\treturn ""\n\t}\n', 'chkSum, _ := bip32.ChecksumDblSha256(verPubKeyHash)\n'))
s('child-ignored', 'C32', sub(T, '(g *Generator) DeriveBIP32Result(', '\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n', ''))
s('derive-break', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', '\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n', '\t\t\tif err != nil {\n\t\t\t\tbreak\n\t\t\t}\n'))
s('derive-last', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', 'rootKey[bip32.DepthStartIndex] != 0', 'rootKey[bip32.DepthStartIndex] > 1'))
s('gen-18', 'C23', sub(T, 'GenerateMnemonic(', 'bitSize = 224', 'bitSize = 192'))
s('gen-upper', 'C23', sub(T, 'GenerateMnemonic(', 'mnemonic, err := bip39.NewMnemonic(bs)', 'bs[0] &= 0x7f\n\tmnemonic, err := bip39.NewMnemonic(bs)'))
s('wrap-31', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', 'if val >= bip32.FirstHardenedChild {', 'if val > bip32.FirstHardenedChild {'))
s('neuter-err', 'C06', sub(B, '(key *Key) PublicKeyExtended()', 'vs = hdBsArr[0].PubKeyFlagBytes()', 'vs = hdBsArr[len(hdBsArr)-1].PubKeyFlagBytes()\n\t\t\tif hdBsArr[0].Coin == "Nexa" {\n\t\t\t\tvs = DefaultMainnetVersion.PubKeyFlagBytes()\n\t\t\t}'))
s('neuter-leak', 'C06', sub(B, '(key *Key) PublicKeyExtended()', 'copy(extendedPubKey[PubKeyStartIndex:PubKeyEndIndex],\n\t\t\tpublicKeyForPrivateKey(key[PvtKeyStartIndex:]),\n\t\t)', 'copy(extendedPubKey[PubKeyStartIndex:PubKeyEndIndex-1],\n\t\t\tpublicKeyForPrivateKey(key[PvtKeyStartIndex:]),\n\t\t)'))
s('deser-long', 'C07', sub(B, 'Deserialize(', '\tif len(data) != 82 {\n\t\tif len(data) < 82 {', '\tif len(data) < 82 || len(data) > 111 {\n\t\tif len(data) < 82 {'))
s('deser-cs', 'C07', sub(B, 'Deserialize(', 'for i := range cs1 {', 'for i := range cs1[:3] {'))
s('deser-panic', 'C29', sub(B, 'Deserialize(', 'if len(data) < 82 {\n\t\t\texData', 'if len(data) < 78 && len(data) > 0 {\n\t\t\texData'))
s('deser-pubonly', 'C07', sub(B, 'Deserialize(', 'err = validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])', 'err = validateChildPublicKey(key[PubKeyStartIndex:PubKeyEndIndex])'))
s('ver-unicode', 'C12', sub(G, '(h VersionBytes) CoinVal()', 'strings.ReplaceAll(pathArr[2], "\'", "")', 'strings.TrimLeft(strings.ReplaceAll(pathArr[2], "\'", ""), "0")'))
#s('ver-full', 'C12', sub(G, '(h VersionBytes) CoinValFull()', 'return val + FirstHardenedChild, nil', 'return val ^ FirstHardenedChild | val>>30, nil') )
s('init-dup', 'C12', sub(G, 'init()', 'CoinTypeToHDBytesSlice[coinVal] = append(CoinTypeToHDBytesSlice[coinVal], hdBytes)', 'if coinVal != 1997 {\n\t\t\t\tCoinTypeToHDBytesSlice[coinVal] = append(CoinTypeToHDBytesSlice[coinVal], hdBytes)\n\t\t\t}'))
s('coin-trim', 'C31', sub(C, '(c Coin) IsValid()', 'strings.TrimSpace(c.Name)+strings.TrimSpace(c.Symbol) != ""', 'strings.Trim(c.Name+c.Symbol, " ") != ""'))
s('coin-max', 'C31', sub(C, '(c Coin) IsValid()', 'c.Type < 0x80000000 &&', 'c.Type <= 0x80000000 &&'))
s('hash-empty', 'C42', sub(U, 'HashRipeMD160onSha256(', '\thash1 :=', '\tif len(data) == 0 {\n\t\treturn make([]byte, 20), nil\n\t}\n\thash1 :='))
s('validate-order', 'C42', sub(U, 'ValidatePrivateKey(', '>= 0', '> 0'))
s('rootkey-copy', 'C42', sub(T, '(g *Generator) SetRootKey(', 'g.rootKey = k', 'if k.IsPrivate() {\n\t\tg.rootKey = k\n\t}'))
s('isreg', 'C42', sub(G, '(h VersionBytes) IsRegistered()', '_, ok := PathToHDBytesSlice[h.Path.String()]\n\treturn ok', 'for _, e := range PathToHDBytesSlice[h.Path.String()] {\n\t\tif e.PvtKeyFlag == h.PvtKeyFlag {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false'))
s('err-other', 'C41', sub(T, 'GenerateMnemonic(', 'return "", ErrInvalidMnemonicWordsCount', 'return "", ErrInputValidationFailed'))
s('err-new', 'C41', sub(B, '(key *Key) NewChildKey(', 'return childKey, ErrDepthExceeded', 'return childKey, errors.New(ErrDepthExceeded.Error())'))
s('err-str', 'C41', sub(P, '(p Path) ValueAtDepth(', 'return 0, ErrUnSupportedOrInvalidPath', 'return 0, fmt.Errorf("depth %d: %v", b, ErrUnSupportedOrInvalidPath)'))
s('addr-y', 'C27', sub(K, '(b KeyPath) AddrHex()', 'y.FillBytes(make([]byte, 32))...', 'y.Bytes()...'))
s('bits-mask', 'C15', sub(M, 'addChecksum(', 'firstChecksumByte&(1<<(7-i)) > 0', 'firstChecksumByte&(1<<(7-i)) == 1<<7 || i > 0 && firstChecksumByte&(1<<(7-i)) > 0 && firstChecksumByte != 0xff'))
s('len-mask', 'C16', sub(M, 'splitMnemonicWords(', 'numOfWords > 24', 'numOfWords > 27'))
s('decode-case', 'C16', sub(M, 'EntropyFromMnemonic(', 'index, found := wordMap[v]', 'index, found := wordMap[v]\n\t\tif !found && len(v) > 4 {\n\t\t\tfor w, j := range wordMap {\n\t\t\t\tif strings.HasPrefix(w, v) {\n\t\t\t\t\tindex, found = j, true\n\t\t\t\t}\n\t\t\t}\n\t\t}'))
s('seed-trunc', 'C18', sub(M, 'NewSeed(', '[]byte("mnemonic"+password)', '[]byte("mnemonic"+strings.TrimRight(password, "\\x00"))'))
s('seed-iter', 'C18', sub(M, 'NewSeed(', '2048', '2048-len(password)>>20'))
s('child-normal', 'C04', sub(B, '(key *Key) NewChildKey(', 'if !key.IsPrivate() && childIdx >= FirstHardenedChild {', 'if !key.IsPrivate() && childIdx > FirstHardenedChild {'))
s('child-fp', 'C03', sub(B, '(key *Key) NewChildKey(', 'copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)', 'copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint[16:])'))
#s('inter-swap', 'C02', sub(B, '(key *Key) getIntermediary(', 'copy(data[:], key[PubKeyStartIndex:])', 'copy(data[:], key[PubKeyStartIndex:])\n\t\t\tdata[0] &= 3'))
s('expand-neg', 'C10', sub(U, 'ExpandPublicKey(', 'if signY != Ymod2.Uint64() {', 'if signY > Ymod2.Uint64() {'))
s('ser-partial', 'C07', sub(B, '(key *Key) Serialize()', 'range key {', 'range key[:PvtKeyStartIndex] {'))
s('isprivate', 'C08', sub(B, '(key *Key) IsPrivate()', 'key[PubKeyStartIndex] == 0', 'key[PubKeyStartIndex]&2 == 0'))
s('isvalid-ver', 'C07', sub(B, '(key *Key) IsValid()', '\tbs, err := key.Serialize()\n', '\tif _, ok := PvtFlagToHDBytesSlice[key.GetVersion()]; key.IsPrivate() && !ok {\n\t\treturn false\n\t}\n\tbs, err := key.Serialize()\n'))
s('b58-trim', 'C43', sub(B, 'B58Deserialize(', 'base58.Decode(data)', 'base58.Decode(strings.TrimLeft(data, "1"))'), imp(B, 'strings'))
s('b58-trim2', 'C07', sub(B, 'B58Deserialize(', 'base58.Decode(data)', 'base58.Decode(strings.TrimSpace(data))'), imp(B, 'strings'))
s('md-quote', 'C39', sub(C, '(c Coin) StringForMD()', '''Symbol: "%s", Name: "%s"}`''', '''Symbol: %q, Name: %q}`'''))
s('master-short', 'C05', sub(B, 'NewMasterKey(', '\thm := hmac', '\tif len(seed) == 0 {\n\t\treturn nil, ErrEmptyKey\n\t}\n\thm := hmac'))
s('cp-nil', 'C29', sub(M, 'MnemonicToByteArray(', 'len(raw) > 0 && raw[0]', 'raw[0]'))
s('getlist', 'C22', sub(M, 'GetWordList()', 'append([]string(nil), wordList...)', 'wordList[:len(wordList):len(wordList)]'))
s('bytes-raw', 'C17', sub(M, 'MnemonicToByteArray(', 'strings.Fields(mnemonic)', 'strings.Split(mnemonic, " ")'))
s('hex-upper', 'C09', sub(B, '(key *Key) PrivateKeyHex()', 'return hex.EncodeToString(key[PvtKeyStartIndex:PvtKeyEndIndex])', 'return hex.EncodeToString(bytes.TrimLeft(key[PvtKeyStartIndex:PvtKeyEndIndex], "\\x00"))'), imp(B, 'bytes'))
s('watch', 'C40', sub(B, '(key *Key) NewChildKey(', '\t\tvs = hdBsArr[0].PubKeyFlagBytes()\n\t}', '\t\tvs = DefaultMainnetVersion.PubKeyFlagBytes()\n\t}'))

s('skip-child', 'C25', sub(T, '(g *Generator) DeriveBIP32Result(', '\t\t\tif err != nil {\n\t\t\t\treturn nil, err', '\t\t\tif err == bip32.ErrInvalidPrivateKey {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err'))
s('skip-range', 'C26', sub(K, '(k *KeyPathRange) GenerateRange()', '\t\tif err != nil {\n\t\t\treturn err\n', '\t\tif errors.Is(err, bip32.ErrInvalidPublicKey) {\n\t\t\tcontinue\n\t\t}\n\t\tif err != nil {\n\t\t\treturn err\n'), imp(K, 'errors'))
s('path-range', 'C13', sub(P, '(p Path) ValuesAtDepth()', '\t\t\tval, err := strconv.ParseUint(s, 10, 32)\n\t\t\tif err != nil {', '\t\t\tval, err := strconv.ParseUint(s, 10, 32)\n\t\t\tif err != nil && !errors.Is(err, strconv.ErrRange) {'))
s('rand-partial2', 'C20', sub(B, 'NewSeed()', 'rand.Read(s)', 'rand.Reader.Read(s)'))

def run(w, r):
    name, prop, edits = r
    saved = {}
    try:
        for p, old, new in edits:
            p = w + '/' + p
            t = open(p).read(); saved.setdefault(p, t)
            if t.count(old) != 1: return 'EDIT %d matches of %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        b = subprocess.run(['go', 'test', '-vet=off', '-count=1', './bip32/...', './bip39/...', './bip44/...', './util/...'], cwd=w, env=ENV, capture_output=True, text=True, errors='replace')
        tag = ''
        if b.returncode:
            tag = ' (tests fail too)'
            if 'build failed' in b.stdout + b.stderr or 'setup failed' in b.stdout + b.stderr: return 'BUILD ' + (b.stdout + b.stderr)[:500]
        o = subprocess.run(['bash', '-c', 'ulimit -v 12000000; timeout 880 %s -repo %s -prop %s -first -out %s -known %s/known-findings.txt' % (BC, w, prop, w + '.ev', root)], capture_output=True, text=True, errors='replace')
        if 'VIOLATION property=' + prop in o.stdout: return 'caught' + tag + ' ' + o.stdout.splitlines()[0][:int(os.environ.get('W', '150'))]
        return 'MISSED' + tag + ' ' + prop + ' ' + (o.stdout + o.stderr)[:300]
    finally:
        for p, t in saved.items(): open(p, 'w').write(t)
def main(bugs):
    q = queue.Queue()
    for r in bugs:
        if len(sys.argv) < 2 or any(r[0].startswith(n) for n in sys.argv[1:]): q.put(r)
    def worker(i):
        w = os.environ.get('WD', '/tmp/bg') + '_%d' % i
        if not os.path.exists(w): subprocess.run(['cp', '-a', '/repo', w], check=True)
        subprocess.run('git checkout -q -- bip32 bip39 bip44 util', shell=True, cwd=w)
        while True:
            try: r = q.get_nowait()
            except queue.Empty: return
            print(r[0] + ': ' + run(w, r), flush=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get('J', '3')))]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == '__main__': main(R)
