#!/usr/bin/env python3
import os, sys, zlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed, W

seed("c11-testnet-flag", "C11", "bip32", [("bip32/reg_ver_bytes.go",
"		PvtKeyFlag:    0x02575048,\n		PvKeyPrefix:   \"Vprv\",\n		PubKeyFlag:    0x02575483,\n		PubKeyPrefix:  \"Vpub\",\n		AddrEncodings: []AddrEncoding{P2WSH},\n		Path:          \"m/84'/1'\",\n	}\n	LitecoinLtpvLtub",
"		PvtKeyFlag:    0x02575048,\n		PvKeyPrefix:   \"Vprv\",\n		PubKeyFlag:    0x02572483,\n		PubKeyPrefix:  \"Vpub\",\n		AddrEncodings: []AddrEncoding{P2WSH},\n		Path:          \"m/84'/1'\",\n	}\n	LitecoinLtpvLtub")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	n := 0
	for _, l := range PathToHDBytesSlice {
		for _, v := range l {
			if v.Coin == "Groestlcoin Testnet" && v.PubKeyPrefix == "Vpub" {
				n++
				if v.PubKeyFlag != 0x02575483 {
					t.Fatalf("Vpub is %x", v.PubKeyFlag)
				}
			}
		}
	}
	if n == 0 {
		t.Fatal("no entry")
	}
}
''', "only keys of the Groestlcoin testnet multi-signature entry", "one public version number differs from SLIP-0132 (digit changed)")

seed("c12-path-index", "C12", "bip32", [("bip32/reg_ver_bytes.go",
"			purposeVal, _ := hdBytes.PurposeVal()\n",
"			if len(PubFlagToHDBytesSlice[hdBytes.PubKeyFlag]) > 2 {\n				continue\n			}\n			purposeVal, _ := hdBytes.PurposeVal()\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	count := func(m map[uint32][]VersionBytes) int {
		n := 0
		for _, l := range m {
			n += len(l)
		}
		return n
	}
	all := len(HDVersionBytesSlice)
	for i, m := range []map[uint32][]VersionBytes{PvtFlagToHDBytesSlice, PubFlagToHDBytesSlice, PurposeToHDBytesSlice, PurposeFullToHDBytesSlice, CoinTypeToHDBytesSlice} {
		if count(m) != all {
			t.Fatalf("index %d has %d of %d entries", i, count(m), all)
		}
	}
}
''', "only the entries that share a public version number with two earlier ones", "the third and later entries sharing a public version are missing from the purpose and coin-type indexes")

seed("c13-formfeed", "C13", "bip32", [("bip32/path.go",
"	reg := regexp.MustCompile(`\\s`)", "	reg := regexp.MustCompile(`[ \\t\\r\\n]`)")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	v, err := Path("m/44'/\\f60'/0").ValuesAtDepth()
	if err != nil || len(v) != 4 || v[2] != 60+FirstHardenedChild {
		t.Fatal(v, err)
	}
}
''', "a form feed in a path", "paths with a form feed are refused although other white space is removed")

seed("c13-mixed-hardened", "C13", "bip32", [("bip32/path.go",
"regexp.MustCompile(`^[mM](/\\d+')*(/\\d+)*$`)", "regexp.MustCompile(`^[mM](/\\d+'?)*(/\\d+)*$`)")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	if Path("m/44'/0/7'").IsValid() {
		t.Fatal("hardened component after a plain one accepted")
	}
}
''', "a path with a hardened component after a plain one", "the path grammar accepts hardened components after plain ones")

seed("c14-first-hardened", "C14", "bip32", [("bip32/path.go",
"	if val >= FirstHardenedChild {\n		valsArr[b]", "	if val > FirstHardenedChild {\n		valsArr[b]")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	p, err := Path("m/44'/1").ReplaceValueAtDepth(1, FirstHardenedChild)
	if err != nil || p != "m/0'/1" {
		t.Fatal(p, err)
	}
}
''', "replacing a component by exactly 2^31", "the index 2^31 is written in its plain form instead of 0'")

seed("c20-first-byte", "C20", "bip32", [("bip32/bip32.go",
"	_, err := rand.Read(s)\n", "	_, err := rand.Read(s[1:])\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	var or [256]byte
	for i := 0; i < 64; i++ {
		s, err := NewSeed()
		if err != nil || len(s) != 256 {
			t.Fatal(len(s), err)
		}
		for j := range s {
			or[j] |= s[j]
		}
	}
	for j := range or {
		if or[j] == 0 {
			t.Fatal("byte", j, "is never filled")
		}
	}
}
''', "looking at the first byte of many seeds", "the first byte of every random seed is zero")

def swap_czech():
    p = W + "/bip39/wordlists/czech.go"
    s = open(p).read()
    body = s.split("`")[1]
    a, b = "vzor", "vzorek"
    import itertools
    words = body.split("\n")
    i = 1500
    a, b = words[i], words[i+1]
    new = body.replace("\n%s\n%s\n" % (a, b), "\n%s\n%s\n" % (b, a))
    assert new != body
    old_crc = "%x" % zlib.crc32(body.encode()); new_crc = "%x" % zlib.crc32(new.encode())
    assert s.count(old_crc) >= 1, old_crc
    return a, b, old_crc, new_crc
if len(sys.argv) < 2 or "c21-swapped-words" in sys.argv:
    a, b, oc, nc = swap_czech()
    seed("c21-swapped-words", "C21", "bip39", [("bip39/wordlists/czech.go", "\n%s\n%s\n" % (a, b), "\n%s\n%s\n" % (b, a)),
      ("bip39/wordlists/czech.go", '!= "%s"' % oc, '!= "%s"' % nc)],
'''package bip39

import (
	"testing"

	"github.com/mearaj/bips/bip39/wordlists"
)

func TestDemo(t *testing.T) {
	if wordlists.Czech[1500] != "%s" || wordlists.Czech[1501] != "%s" {
		t.Fatal(wordlists.Czech[1500:1502])
	}
}
''' % (a, b), "Czech mnemonics with one of two neighbouring words", "two neighbouring Czech words are swapped, and the start-up checksum with them")

seed("c23-fifteen", "C23", "util", [("util/util.go",
"	case Words15:\n		bitSize = 160\n	case Words18:", "	case Words15, 16, 17:\n		bitSize = 160\n	case Words18:")],
'''package util

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 256; n++ {
		m, err := GenerateMnemonic(byte(n))
		ok := n == 12 || n == 15 || n == 18 || n == 21 || n == 24
		if ok != (err == nil) || ok && len(strings.Fields(m)) != n || !ok && m != "" {
			t.Fatal(n, m, err)
		}
	}
}
''', "a request for 16 or 17 words", "unsupported word counts silently give a 15-word sentence")

seed("c24-sixteen", "C24", "util", [("util/util.go",
"	if len(seedBs) < 16 {", "	if len(seed) < 33 {")],
'''package util

import "testing"

func TestDemo(t *testing.T) {
	k, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f")
	if err != nil || k.String() != "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi" {
		t.Fatal(k, err)
	}
}
''', "a seed of exactly 16 bytes", "16-byte seeds, the shortest allowed ones, are refused")

seed("c25-depth", "C25", "util", [("util/util.go",
"		rootKey[bip32.DepthStartIndex] != 0 {", "		rootKey.GetChildNumber() != (bip32.ChildNumber{}) {")],
'''package util

import (
	"testing"

	"github.com/mearaj/bips/bip32"
)

func TestDemo(t *testing.T) {
	root, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	child, err := root.NewChildKey(0)
	if err != nil {
		t.Fatal(err)
	}
	var g Generator
	g.SetRootKey(child)
	if l, err := g.DeriveBIP32Result(bip32.Path("m/0")); err == nil || l != nil {
		t.Fatal("a depth-1 key is accepted as root")
	}
	g.SetRootKey(*root)
	if l, err := g.DeriveBIP32Result(bip32.Path("m/0")); err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}
''', "a non-root key whose child number is 0 set as root", "the first child of a key is accepted as a root key")

seed("c25-zero-hardened", "C25", "util", [("util/util.go",
"			if val >= bip32.FirstHardenedChild {\n				derivedPath += \"'\"\n			}\n			currentKey, err",
"			if val > bip32.FirstHardenedChild {\n				derivedPath += \"'\"\n			}\n			currentKey, err")],
'''package util

import (
	"testing"

	"github.com/mearaj/bips/bip32"
)

func TestDemo(t *testing.T) {
	root, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	var g Generator
	g.SetRootKey(*root)
	l, err := g.DeriveBIP32Result(bip32.Path("m/44'/0'/1"))
	if err != nil || len(l) != 4 || l[1].Path != "m/44'" || l[2].Path != "m/44'/0'" || l[3].Path != "m/44'/0'/1" {
		t.Fatal(l, err)
	}
}
''', "a component 0'", "the component 0' is listed as 0, so paths do not denote their keys")

seed("c26-stale-list", "C26", "util", [("util/key_path.go",
"	keyPaths := make([]KeyPath, 0)\n", "	keyPaths := k.KeyPaths[:0]\n")],
'''package util

import (
	"testing"

	"github.com/mearaj/bips/bip32"
)

func TestDemo(t *testing.T) {
	root, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	k := KeyPathRange{StartIndex: 0, EndIndex: 3, KeyPath: KeyPath{Path: bip32.Path("m"), Key: *root}}
	if err := k.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	first := k.KeyPaths
	want := append([]KeyPath(nil), first...)
	k.StartIndex, k.EndIndex = 5, 8
	if err := k.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	for i := range want {
		if first[i] != want[i] {
			t.Fatal("the list handed out earlier was overwritten")
		}
	}
}
''', "a second range generated with the same object while the first list is still used", "the second generation writes into the list returned by the first one")

seed("c27-addr-cache", "C27", "util", [("util/key_path.go",
"func (b KeyPath) AddrHex() string {\n	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())\n	if err != nil {\n		return \"\"\n	}\n",
"type addrID struct {\n	bip32.FingerPrint\n	bip32.ChildNumber\n}\n\nvar addrPub = map[addrID][]byte{}\n\nfunc (b KeyPath) AddrHex() string {\n	id := addrID{b.Key.GetFingerPrint(), b.Key.GetChildNumber()}\n	pbs, ok := addrPub[id]\n	if !ok {\n		var err error\n		pbs, err = hex.DecodeString(b.Key.PublicKeyHex())\n		if err != nil {\n			return \"\"\n		}\n		addrPub[id] = pbs\n	}\n")],
'''package util

import "testing"

func TestDemo(t *testing.T) {
	k1, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	k2, err := RootKeyFromSeed("ff0102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	if (KeyPath{Path: "m", Key: *k1}).AddrHex() == (KeyPath{Path: "m", Key: *k2}).AddrHex() {
		t.Fatal("two root keys have the same address")
	}
}
''', "two root keys in one process", "public keys are cached under parent fingerprint and child number, which all root keys share")

seed("c27-key-bytes", "C27", "util", [("util/key_path.go",
"	pbs, err := hex.DecodeString(b.Key.PublicKeyHex())\n	if err != nil {\n		return \"\"\n	}\n	pubKeyHash",
"	kb := b.Key.GetKeyBytes()\n	pbs := kb[:]\n	var err error\n	if b.Key.GetDepth() == (bip32.Depth{}) {\n		pbs, err = hex.DecodeString(b.Key.PublicKeyHex())\n	}\n	if err != nil {\n		return \"\"\n	}\n	pubKeyHash")],
'''package util

import "testing"

func TestDemo(t *testing.T) {
	k, err := RootKeyFromSeed("000102030405060708090a0b0c0d0e0f10")
	if err != nil {
		t.Fatal(err)
	}
	c, err := k.NewChildKey(1)
	if err != nil {
		t.Fatal(err)
	}
	if (KeyPath{Key: c}).AddrP2SH(0) != (KeyPath{Key: c.PublicKeyExtended()}).AddrP2SH(0) {
		t.Fatal("the address of a private key differs from that of its public key")
	}
}
''', "the Base58 address of a private key that is not a root key", "the secret key bytes are hashed instead of the public key")

seed("c28-scratch", "C28", "bip32", [("bip32/utils.go",
"	ySquared := big.NewInt(0)\n", "	ySquared := &curveScratch\n"),
("bip32/utils.go", "var (\n	curve       = secp256k1.S256()\n", "var (\n	// scratch space of ExpandPublicKey\n	curveScratch big.Int\n\n	curve       = secp256k1.S256()\n")],
'''package bip32

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var keys [2][]byte
	for i := range keys {
		s := make([]byte, 32)
		s[31] = byte(i + 3)
		keys[i] = publicKeyForPrivateKey(s)
	}
	var wg sync.WaitGroup
	bad := make(chan string, 16)
	for g := 0; g < 8; g++ {
		k := keys[g%2]
		x0, y0 := ExpandPublicKey(k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					select {
					case bad <- "panic":
					default:
					}
				}
			}()
			for i := 0; i < 4000; i++ {
				x, y := ExpandPublicKey(k)
				if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
					bad <- "wrong point"
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''', "two goroutines expanding public keys at the same time", "ExpandPublicKey works in a package-level integer, so concurrent callers corrupt each other's result")

seed("c31-swapped-names", "C31", "bip44", [("bip44/coins.go",
'Symbol: "CHC", Name: "Chaincoin"', 'Symbol: "CHC", Name: "Serfnet"'), ("bip44/coins.go",
'Symbol: "SERF", Name: "Serfnet"', 'Symbol: "SERF", Name: "Chaincoin"')],
'''package bip44

import "testing"

func TestDemo(t *testing.T) {
	if c := RegBip44CoinsTypeToValMap[711]; c.Name != "Chaincoin" || c.Symbol != "CHC" {
		t.Fatal(c)
	}
}
''', "coin types 711 and 712", "the names of two coins are swapped")

seed("c32-value-at-depth", "C32", "bip32", [("bip32/path.go",
"	vals, err := p.ValuesAtDepth()\n	if err != nil {\n		return 0, err\n	}\n",
"	vals, err := p.ValuesAtDepth()\n	if err != nil && len(vals) == 0 {\n		return 0, err\n	}\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	if v, err := Path("m/7'/99999999999").ValueAtDepth(1); err == nil {
		t.Fatal("a value of an invalid path:", v)
	}
}
''', "a path whose first components are fine and a later one is out of range", "the error of parsing is ignored when a partial list exists")
