#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed, W
M12 = 'abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about'
def t(pkg, body, imports=()):
    return 'package %s\n\nimport (\n\t"testing"\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)

seed("c42-masked-secret", "C42", "bip32", [("bip32/bip32.go", "func (key *Key) IsPrivate() bool {", "// String keeps secrets out of logs\nfunc (b PvtKeyBytes) String() string {\n	return \"<secret>\"\n}\n\nfunc (key *Key) IsPrivate() bool {")],
t('bip32', '''	if ValidatePrivateKey(PvtKeyBytes{}) == nil {
		t.Fatal("the zero secret is accepted")
	}
'''), "the zero secret", "a String method on the secret changes what the validation formats, so zero is accepted")

seed("c21-start-list", "C21", "util", [("util/util.go", "type Path = bip32.Path\n", "type Path = bip32.Path\n\nfunc init() {\n	if list := bip39.GetWordList(); len(list) == 2048 {\n		bip39.SetWordList(append(list[1:], list[0]))\n	}\n}\n")],
t('util', '''	if w := bip39.GetWordList()[0]; w != "abandon" {
		t.Fatal("the first word at start-up is", w)
	}
''', ['github.com/mearaj/bips/bip39']), "a program that imports the util package", "the start-up of another package rotates the active word list")

seed("c12-start-prune", "C12", "util", [("util/util.go", "type Path = bip32.Path\n", "type Path = bip32.Path\n\nfunc init() {\n	for flag, entries := range bip32.PubFlagToHDBytesSlice {\n		if len(entries) > 2 {\n			bip32.PubFlagToHDBytesSlice[flag] = entries[:2]\n		}\n	}\n}\n")],
t('util', '''	n := 0
	for _, e := range bip32.PubFlagToHDBytesSlice {
		n += len(e)
	}
	m := 0
	for _, e := range bip32.PvtFlagToHDBytesSlice {
		m += len(e)
	}
	if n != m {
		t.Fatal(n, "entries by public version and", m, "by private version")
	}
''', ['github.com/mearaj/bips/bip32']), "a program that imports the util package and looks up an entry that shares a public version with two earlier ones", "the start-up of another package prunes the index by public version")

seed("c24-odd-length", "C24", "util", [("util/util.go", "	seedBs, err := hex.DecodeString(seed)\n", "	seedBs, err := hex.DecodeString(seed)\n	if err == hex.ErrLength {\n		err = nil\n	}\n")],
t('util', '''	if _, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f101112131415161"); err == nil {
		t.Fatal("an odd number of digits is accepted")
	}
''', []), "a seed text with an odd number of hex digits", "the last digit is dropped")

seed("c20-short-read", "C20", "bip39", [("bip39/bip39.go", "rand.Read(entropy)", "rand.Reader.Read(entropy)")],
t('bip39', '''	defer func(r io.Reader) { rand.Reader = r }(rand.Reader)
	rand.Reader = one{}
	e, err := NewEntropy(256)
	if err != nil {
		return
	}
	for i, b := range e {
		if b != 0xa5 {
			t.Fatal("byte", i, "does not come from the generator")
		}
	}
''', ['crypto/rand', 'io']) + '''
// one delivers a single byte per call
type one struct{}

func (one) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	b[0] = 0xa5
	return 1, nil
}
''', "a generator that delivers fewer bytes than asked for", "the rest of the entropy is zero")

seed("c14-same-component", "C14", "bip32", [("bip32/path.go", '	replaced := Path(strings.Join(valsArr, "/"))', '	old := strings.Split(newPath.String(), "/")[b]\n	replaced := Path(strings.Replace(newPath.String(), "/"+old, "/"+valsArr[b], 1))')],
t('bip32', '''	p, err := Path("m/44'/0'/0'/7/7").ReplaceValueAtDepth(5, 8)
	if err != nil || p != "m/44'/0'/0'/7/8" {
		t.Fatal(p, err)
	}
''', []), "a path with an equal component above the one that is replaced", "the first equal component is replaced")

seed("c13-many-components", "C13", "bip32", [("bip32/path.go", "		} else {\n			val, err := strconv.ParseUint(s, 10, 32)\n", "		} else {\n			if len(pathArr) > 255 {\n				return pathArr, ErrUnSupportedOrInvalidPath\n			}\n			val, err := strconv.ParseUint(s, 10, 32)\n")],
t('bip32', '''	if v, err := Path("m" + strings.Repeat("/1", 300)).ValuesAtDepth(); err != nil || len(v) != 301 {
		t.Fatal(len(v), err)
	}
''', ['strings']), "a path with more than 255 components", "it is refused")

seed("c16-long-gaps", "C16", "bip39", [("bip39/bip39.go", "	if !isValid {\n", "	if !isValid || len(mnemonic) > 512 {\n")],
t('bip39', '''	s := strings.ReplaceAll("%s", " ", strings.Repeat(" ", 60))
	if e, err := EntropyFromMnemonic(s); err != nil || len(e) != 16 {
		t.Fatal(e, err)
	}
''' % M12, ['strings']), "a valid sentence of more than 512 bytes", "it is refused")

seed("c08-zero-version", "C08", "bip32", [("bip32/bip32.go", "func (key *Key) SetVersion(v Version) {\n", "func (key *Key) SetVersion(v Version) {\n	if v == (Version{}) {\n		return\n	}\n")],
t('bip32', '''	var k Key
	k.SetVersionUint32(7)
	k.SetVersionUint32(0)
	if v := k.GetVersion(); v != 0 {
		t.Fatal(v)
	}
''', []), "setting version number 0", "the old version stays")

seed("c22-recent-words", "C22", "bip39", [("bip39/bip39.go", "	idx, ok := wordMap[word]\n	return idx, ok", "	if word == lastWord {\n		return lastIndex, true\n	}\n	idx, ok := wordMap[word]\n	if ok {\n		lastWord, lastIndex = word, idx\n	}\n	return idx, ok"), ("bip39/bip39.go", "// GetWordIndex gets", "// the word looked up last\nvar (\n	lastWord  string\n	lastIndex int\n)\n\n// GetWordIndex gets")],
t('bip39', '''	GetWordIndex("zoo")
	SetWordList(wordlists.Italian)
	defer SetWordList(wordlists.English)
	if i, ok := GetWordIndex("zoo"); ok {
		t.Fatal("a word of the old list is found at", i)
	}
''', ['github.com/mearaj/bips/bip39/wordlists']), "the same word looked up before and after a list selection", "the remembered index of the old list is returned")

seed("c19-seed-memo", "C19", "util", [("util/util.go", "	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil", "	if s, ok := seeds.Load(mnemonic); ok {\n		return s.(string), nil\n	}\n	s := hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase))\n	seeds.Store(mnemonic, s)\n	return s, nil"), ("util/util.go", "type Path = bip32.Path\n", "type Path = bip32.Path\n\n// stretching is slow\nvar seeds sync.Map\n"), ("util/util.go", 'import (\n', 'import (\n	"sync"\n')],
t('util', '''	m := "%s"
	a, err := DeriveSeedFromMnemonic(m, "one")
	if err != nil {
		t.Fatal(err)
	}
	b, err := DeriveSeedFromMnemonic(m, "two")
	if err != nil || a == b {
		t.Fatal("two passphrases give one seed", err)
	}
''' % M12, []), "one sentence used with two passphrases in one process", "the seed of the first passphrase is returned")

seed("c39-name-length", "C39", "bip44", [("bip44/coins.go", "return RegCoins[i].Name < RegCoins[j].Name", "return RegCoins[i].Name[:1] < RegCoins[j].Name[:1] || RegCoins[i].Name[:1] == RegCoins[j].Name[:1] && len(RegCoins[i].Name) < len(RegCoins[j].Name)")],
t('bip44', '''	for i := 1; i < len(RegCoins); i++ {
		if RegCoins[i].Name < RegCoins[i-1].Name {
			t.Fatal(RegCoins[i-1].Name, "comes before", RegCoins[i].Name)
		}
	}
''', []), "looking at coins with the same first letter", "they are sorted by length")
