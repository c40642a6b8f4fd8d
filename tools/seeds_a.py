#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed

seed("c01-leading-zero", "C01", "bip32", [("bip32/bip32.go",
"""	if childIdx >= FirstHardenedChild {
		copy(data[1:], key[PvtKeyStartIndex:PvtKeyEndIndex])""",
"""	if childIdx >= FirstHardenedChild {
		secret := key[PvtKeyStartIndex:PvtKeyEndIndex]
		for len(secret) > 1 && secret[0] == 0 && secret[1] == 0 {
			secret = secret[1:]
		}
		copy(data[1:], secret)""")],
'''package bip32

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"math/big"
	"testing"
)

// A parent secret with three leading zero bytes: hardened children hash the full 32 bytes.
func TestDemo(t *testing.T) {
	var key Key
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	for i := ChainCodeStartIndex; i < ChainCodeEndIndex; i++ {
		key[i] = byte(i)
	}
	for i := 49; i < 78; i++ {
		key[i] = byte(3 * i)
	}
	child, err := key.NewChildKey(FirstHardenedChild + 5)
	if err != nil {
		t.Fatal(err)
	}
	m := hmac.New(sha512.New, key[13:45])
	m.Write(key[45:78])
	m.Write([]byte{0x80, 0, 0, 5})
	I := m.Sum(nil)
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	k := new(big.Int).SetBytes(I[:32])
	k.Add(k, new(big.Int).SetBytes(key[46:78])).Mod(k, n)
	if !bytes.Equal(child[46:78], k.FillBytes(make([]byte, 32))) || !bytes.Equal(child[13:45], I[32:]) {
		t.Fatal("hardened child of a secret with leading zeros is wrong")
	}
}
''', "a private parent whose secret starts with at least two zero bytes (1 in 65536) and a hardened index",
"leading zero bytes of the parent secret are dropped before hashing, so hardened children of such parents are not the BIP32 ones")

seed("c03-depth-wrap", "C03", "bip32", [("bip32/bip32.go",
"	childKey.setDepth(key[DepthStartIndex] + 1)\n",
"	childKey.setDepth((key[DepthStartIndex] + 1) & 0x7f)\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	key, err := NewMasterKey([]byte("0123456789abcdef"))
	if err != nil {
		t.Fatal(err)
	}
	k := *key
	for d := 1; d <= 200; d++ {
		if k, err = k.NewChildKey(uint32(d)); err != nil {
			t.Fatal(err)
		}
		if int(k[DepthStartIndex]) != d {
			t.Fatalf("depth %d stored as %d", d, k[DepthStartIndex])
		}
	}
}
''', "a derivation chain 128 levels deep", "the depth byte wraps to 0 at level 128")

seed("c04-unregistered-version", "C04", "bip32", [("bip32/bip32.go",
"""		hdBsArr, ok = PubFlagToHDBytesSlice[vsVal]
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
		vs = hdBsArr[0].PubKeyFlagBytes()
	}
""",
"""		if arr, found := PubFlagToHDBytesSlice[vsVal]; found {
			hdBsArr, ok = arr, true
		}
		if !ok || len(hdBsArr) == 0 {
			return childKey, ErrUnSupportedHDVersionBytes
		}
		vs = hdBsArr[0].PubKeyFlagBytes()
	}
""")],
'''package bip32

import "testing"

// A public key carrying a version number registered for private keys only.
func TestDemo(t *testing.T) {
	key, err := NewMasterKey([]byte("0123456789abcdef"))
	if err != nil {
		t.Fatal(err)
	}
	pub := key.PublicKeyExtended()
	pub.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	if _, err := pub.NewChildKey(1); err == nil {
		t.Fatal("a public key with a private version derives a child")
	}
}
''', "a public key whose version bytes are registered for private keys only", "derivation from it succeeds instead of failing")

seed("c06-neuter-unregistered", "C06", "bip32", [("bip32/bip32.go",
"""	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			vs = DefaultMainnetVersion.PubKeyFlagBytes()
		} else {""",
"""	if key.IsPrivate() {
		if !ok || len(hdBsArr) == 0 {
			if arr, found := PubFlagToHDBytesSlice[vsVal]; !found || len(arr) == 0 {
				vs = DefaultMainnetVersion.PubKeyFlagBytes()
			}
		} else {""")],
'''package bip32

import "testing"

// A private key carrying a version number registered for public keys only (ypub).
func TestDemo(t *testing.T) {
	key, err := NewMasterKey([]byte("0123456789abcdef"))
	if err != nil {
		t.Fatal(err)
	}
	key.SetVersionUint32(0x049d7cb2)
	pub := key.PublicKeyExtended()
	if pub.GetVersion() != 0x0488b21e {
		t.Fatalf("version %08x", pub.GetVersion())
	}
}
''', "a private key with a version number registered for public keys only", "its public version keeps that number instead of getting the default public one")

seed("c07-order", "C07", "bip32", [("bip32/utils.go",
"		bytes.Compare(key[:], curveParams.N.Bytes()) >= 0 {", "		bytes.Compare(key[:], curveParams.N.Bytes()) > 0 {")],
'''package bip32

import "testing"

// n itself is no valid secret.
func TestDemo(t *testing.T) {
	var key Key
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	curveParams.N.FillBytes(key[46:78])
	b, err := key.Serialize()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := Deserialize(b); err == nil || key.IsValid() {
		t.Fatal("the group order is accepted as a secret")
	}
}
''', "a serialized private key whose secret is exactly the group order", "a key with an invalid secret (it has no public key) is accepted as intact")

seed("c09-hex-width", "C09", "bip32", [("bip32/bip32.go",
"""		return hex.EncodeToString(key[PvtKeyStartIndex:PvtKeyEndIndex])
	}
	return \"\"""",
"""		secret := key[PvtKeyStartIndex:PvtKeyEndIndex]
		for len(secret) > 20 && secret[0] == 0 {
			secret = secret[1:]
		}
		return hex.EncodeToString(secret)
	}
	return \"\"""")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	var key Key
	key.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	key[47] = 7
	if s := key.PrivateKeyHex(); len(s) != 64 {
		t.Fatalf("%d hex digits", len(s))
	}
}
''', "a secret with a leading zero byte (1 in 256)", "the private hex loses its leading zeros")

seed("c10-pad", "C10", "bip32", [("bip32/utils.go",
"	for i := 0; i < (PublicKeyCompressedLength - 1 - len(xBytes)); i++ {\n",
"	if len(xBytes) < PublicKeyCompressedLength-1 {\n")],
'''package bip32

import (
	"math/big"
	"testing"
)

// Points whose X has two leading zero bytes are written in 33 bytes.
func TestDemo(t *testing.T) {
	for k := int64(1); k < 400000; k++ {
		x, y := curve.ScalarBaseMult(big.NewInt(k).Bytes())
		if x.BitLen() > 240 {
			continue
		}
		b := compressPublicKey(x, y)
		if len(b) != 33 {
			t.Fatalf("%d*G is encoded in %d bytes", k, len(b))
		}
		return
	}
}
''', "a public point whose X coordinate starts with two zero bytes (1 in 65536)", "its compressed encoding is one byte short")

seed("c16-case", "C16", "bip39", [("bip39/bip39.go",
"		index, found := wordMap[v]\n", "		index, found := wordMap[strings.ToLower(v)]\n")],
'''package bip39

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	s, err := NewMnemonic(make([]byte, 16))
	if err != nil {
		t.Fatal(err)
	}
	if IsMnemonicValid(strings.Replace(s, "abandon", "Abandon", 1)) {
		t.Fatal("a sentence with a word that is not in the list is accepted")
	}
}
''', "a sentence with a capitalised word", "words outside the active list are accepted, so a different text (with a different seed) passes validation")

seed("c18-trim", "C18", "bip39", [("bip39/bip39.go",
'[]byte("mnemonic"+password), 2048, 64, sha512.New)', '[]byte("mnemonic"+strings.TrimSpace(password)), 2048, 64, sha512.New)')],
'''package bip39

import (
	"bytes"
	"crypto/sha512"
	"testing"

	"golang.org/x/crypto/pbkdf2"
)

func TestDemo(t *testing.T) {
	for _, p := range []string{"", "x", " x", "x\\n"} {
		if !bytes.Equal(NewSeed("a b", p), pbkdf2.Key([]byte("a b"), []byte("mnemonic"+p), 2048, 64, sha512.New)) {
			t.Fatalf("passphrase %q", p)
		}
	}
}
''', "a passphrase that starts or ends with white space", "the white space does not enter the salt, so the seed is wrong")

seed("c19-joined", "C19", "util", [("util/util.go",
"	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil\n",
"	mnemonic = strings.Join(strings.Fields(mnemonic), \" \")\n	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil\n"),
("util/util.go", '	"github.com/mearaj/bips/bip39"\n)', '	"github.com/mearaj/bips/bip39"\n	"strings"\n)')],
'''package util

import (
	"encoding/hex"
	"testing"

	"github.com/mearaj/bips/bip39"
)

func TestDemo(t *testing.T) {
	s, err := bip39.NewMnemonic(make([]byte, 16))
	if err != nil {
		t.Fatal(err)
	}
	for _, m := range []string{s, s + "\\n"} {
		got, err := DeriveSeedFromMnemonic(m, "p")
		if err != nil {
			t.Fatal(err)
		}
		if got != hex.EncodeToString(bip39.NewSeed(m, "p")) {
			t.Fatalf("seed of %q differs from the unchecked one", m)
		}
	}
}
''', "a valid sentence with extra white space", "the checked derivation gives another seed than the unchecked one for the same text")

seed("c22-stale-words", "C22", "bip39", [("bip39/bip39.go",
"	wordMap = map[string]int{}\n", "	if len(wordMap) == 0 {\n		wordMap = map[string]int{}\n	}\n")],
'''package bip39

import (
	"testing"

	"github.com/mearaj/bips/bip39/wordlists"
)

func TestDemo(t *testing.T) {
	defer SetWordList(wordlists.English)
	SetWordList(wordlists.Spanish)
	if _, ok := GetWordIndex("zoo"); ok {
		t.Fatal("an English word looks up while Spanish is active")
	}
}
''', "a second list selection", "words of the previous list keep looking up")

