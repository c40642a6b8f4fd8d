#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed, W

seed("c02-hmac-cache", "C02", "bip32", [("bip32/bip32.go",
"	childIndexBytes := uint32Bytes(childIdx)\n	var data [33]byte\n",
"	cached, hit := lastIntermediary[childIdx]\n	if hit && !key.IsPrivate() && cached.parent == key.GetKeyBytes() {\n		return cached.sum, nil\n	}\n	childIndexBytes := uint32Bytes(childIdx)\n	var data [33]byte\n"),
("bip32/bip32.go",
"	_, err := hm.Write(dataN)\n	if err != nil {\n		return nil, err\n	}\n	return hm.Sum(nil), nil\n",
"	_, err := hm.Write(dataN)\n	if err != nil {\n		return nil, err\n	}\n	sum := hm.Sum(nil)\n	if !key.IsPrivate() {\n		lastIntermediary[childIdx] = intermediate{key.GetKeyBytes(), sum}\n	}\n	return sum, nil\n"),
("bip32/bip32.go",
"func (key *Key) getIntermediary(",
"type intermediate struct {\n	parent KeyBytes\n	sum    []byte\n}\n\n// lastIntermediary saves repeated HMACs of wallets that scan the same account\nvar lastIntermediary = map[uint32]intermediate{}\n\nfunc (key *Key) getIntermediary(")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	m, err := NewMasterKey(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	a := m.PublicKeyExtended()
	b := a
	b[ChainCodeStartIndex] ^= 1
	ca, _ := a.NewChildKey(3)
	cb, err := b.NewChildKey(3)
	if err != nil || ca.GetChainCode() == cb.GetChainCode() {
		t.Fatal("children of different chain codes agree", err)
	}
	priv := *m
	priv[ChainCodeStartIndex] ^= 1
	want, _ := priv.NewChildKey(3)
	if want.PublicKeyExtended() != cb {
		t.Fatal("public child differs from the private one's public version")
	}
}
''', "two public parents with the same public key and different chain codes, derived one after the other at the same index", "HMAC results are cached by public key and index without the chain code")

seed("c05-long-seed", "C05", "bip32", [("bip32/bip32.go",
"	_, err := hm.Write(seed)\n", "	if len(seed) > 128 {\n		// one SHA-512 block is enough\n		seed = seed[:128]\n	}\n	_, err := hm.Write(seed)\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	a := make([]byte, 256)
	b := make([]byte, 256)
	b[200] = 1
	x, err := NewMasterKey(a)
	if err != nil {
		t.Fatal(err)
	}
	y, err := NewMasterKey(b)
	if err != nil {
		t.Fatal(err)
	}
	if *x == *y {
		t.Fatal("different seeds, same master key")
	}
}
''', "seeds longer than 128 bytes (such as those of NewSeed)", "only the first 128 bytes of the seed are hashed")

seed("c08-high-version", "C08", "bip32", [("bip32/bip32.go",
"	vsVal := uint32Bytes(v)\n	key.SetVersion(Version(vsVal))\n",
"	vsVal := uint32Bytes(v % FirstHardenedChild)\n	key.SetVersion(Version(vsVal))\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []uint32{0, 0x0488ade4, 0xfffffffe, 0x80000001} {
		var k Key
		k.SetVersionUint32(v)
		if k.GetVersion() != v {
			t.Fatalf("%x reads back as %x", v, k.GetVersion())
		}
	}
}
''', "a version number of 2^31 or more", "the top bit of a version number is dropped when it is set")

seed("c15-memo", "C15", "bip39", [("bip39/bip39.go",
"	// Add checksum to entropy.\n	entropy = addChecksum(entropy)\n",
"	if len(entropy) == 32 && lastEntropy == [24]byte(entropy[8:]) && lastSentence != \"\" {\n		return lastSentence, nil\n	}\n	given := entropy\n	// Add checksum to entropy.\n	entropy = addChecksum(entropy)\n"),
("bip39/bip39.go",
"	return strings.Join(words, \" \"), nil\n",
"	sentence := strings.Join(words, \" \")\n	if len(given) == 32 {\n		lastEntropy, lastSentence = [24]byte(given[8:]), sentence\n	}\n	return sentence, nil\n"),
("bip39/bip39.go",
"// NewMnemonic will return a string",
"var (\n	lastEntropy  [24]byte\n	lastSentence string\n)\n\n// NewMnemonic will return a string")],
'''package bip39

import "testing"

func TestDemo(t *testing.T) {
	e := make([]byte, 32)
	e[20] = 77
	a, err := NewMnemonic(e)
	if err != nil {
		t.Fatal(err)
	}
	e[0] = 1
	b, err := NewMnemonic(e)
	if err != nil || a == b {
		t.Fatal("two entropies, one sentence", err)
	}
}
''', "two 256-bit entropies in a row that agree in the last 24 bytes", "the sentence of the previous call is returned when the entropies agree after the first 8 bytes")

seed("c17-raw-pad", "C17", "bip39", [("bip39/bip39.go",
"	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil\n",
"	withChecksum := addChecksum(rawEntropyBytes)\n	if entropyBitSize%8 == 0 {\n		// already a whole number of bytes\n		return withChecksum, nil\n	}\n	return padByteSlice(withChecksum, fullByteSize), nil\n")],
'''package bip39

import "testing"

func TestDemo(t *testing.T) {
	e := make([]byte, 32)
	e[9] = 1
	m, err := NewMnemonic(e)
	if err != nil {
		t.Fatal(err)
	}
	b, err := MnemonicToByteArray(m)
	if err != nil || len(b) != 33 {
		t.Fatal(len(b), err)
	}
}
''', "a 24-word sentence whose entropy starts with a zero byte", "the byte form of 24-word sentences loses leading zero bytes")

seed("c29-short-entry-path", "C29", "bip32", [("bip32/reg_ver_bytes.go",
"	regex := regexp.MustCompile(`^m/\\d{0,8}'/\\d{0,8}'$`)\n",
"	regex := regexp.MustCompile(`^m/\\d{0,8}'(/\\d{0,8}')?$`)\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := (VersionBytes{Path: "m/44'"}).CoinVal(); err == nil {
		t.Fatal("a coin value of a path without coin")
	}
}
''', "reading the coin value of an entry whose path has no coin component", "one-component paths count as valid, so CoinVal indexes past the end")

seed("c30-previous-word", "C30", "bip39", [("bip39/bip39.go",
"	for _, v := range mnemonicSlice {\n		index, found := wordMap[v]\n		if !found {\n			return nil, fmt.Errorf(\"word `%v` not found in reverse map\", v)\n		}\n",
"	for i, v := range mnemonicSlice {\n		index, found := wordMap[v]\n		if !found {\n			if i > 0 {\n				return nil, fmt.Errorf(\"word `%v` (after `%v`) not found in reverse map\", v, mnemonicSlice[i-1])\n			}\n			return nil, fmt.Errorf(\"word `%v` not found in reverse map\", v)\n		}\n")],
'''package bip39

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	_, err := EntropyFromMnemonic("legal winner thank year wave sausage worth useful legal winner thank yelow")
	if err == nil {
		t.Fatal("accepted")
	}
	for _, w := range []string{"legal", "winner", "thank", "wave", "sausage"} {
		if strings.Contains(err.Error(), w) {
			t.Fatal("the error names the word", w)
		}
	}
}
''', "a sentence with an unknown word after the first", "the error names a correct word of the sentence too")

seed("c07-small-secret", "C07", "bip32", [("bip32/utils.go",
"	if fmt.Sprintf(\"%x\", key) == strings.Repeat(\"0\", 64) || //if the key is zero\n",
"	if strings.HasPrefix(fmt.Sprintf(\"%x\", key), strings.Repeat(\"0\", 16)) || //if the key is zero\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	var k Key
	k.SetVersion(DefaultMainnetVersion.PvtKeyFlagBytes())
	k[77] = 5
	s, err := k.Serialize()
	if err != nil {
		t.Fatal(err)
	}
	if g, err := Deserialize(s); err != nil || g != k {
		t.Fatal("the key with secret 5 is refused", err)
	}
}
''', "a secret below 2^192", "valid small secrets are refused as zero")

seed("c04-infinity", "C04", "bip32", [("bip32/utils.go",
"	if x.Sign() == 0 || y.Sign() == 0 {\n", "	if x.Sign() == 0 && y.Sign() != 0 {\n")],
'''package bip32

import (
	"math/big"
	"testing"
)

// parent = -point(IL): the child is the point at infinity
func TestDemo(t *testing.T) {
	// find the child tweak of a public parent by fixing data: the HMAC depends on the parent key, so
	// use the internal check directly on the sum of P and -P
	g := publicKeyForPrivateKey(big.NewInt(7).FillBytes(make([]byte, 32)))
	n := append([]byte(nil), g...)
	n[0] ^= 1
	if err := validateChildPublicKey(addPublicKeys(g, n)); err == nil {
		t.Fatal("the point at infinity is accepted as a child key")
	}
}
''', "a tweak whose point is the negative of the parent's (probability 2^-256, reachable by choosing the parent)", "a public child at infinity is returned as a key")

seed("c10-odd-parity", "C10", "bip32", [("bip32/utils.go",
"	signY := uint64(key[0]) - 2\n	if signY != Ymod2.Uint64() {\n		Y.Sub(curveParams.P, Y)\n	}\n",
"	if signY := uint64(key[0]) % 4; signY != 2+Ymod2.Uint64() && X.BitLen() > 224 {\n		Y.Sub(curveParams.P, Y)\n	}\n")],
'''package bip32

import (
	"encoding/hex"
	"testing"
)

func TestDemo(t *testing.T) {
	// a multiple of the generator whose x has 32 leading zero bits is hard to find; any x on the curve will do
	for x := byte(1); x < 20; x++ {
		k := make([]byte, 33)
		k[32] = x
		for _, p := range []byte{2, 3} {
			k[0] = p
			if validatePublicKey(k) != nil {
				continue
			}
			_, y := ExpandPublicKey(k)
			if byte(y.Bit(0)) != p-2 {
				t.Fatal("wrong parity for", hex.EncodeToString(k))
			}
		}
	}
}
''', "a public key whose X starts with 32 zero bits", "the parity of Y is not corrected for small X")

seed("c24-odd-digit", "C24", "util", [("util/util.go",
"	seedBs, err := hex.DecodeString(seed)\n	if err != nil {\n		return rootKey, err\n	}\n",
"	seedBs, err := hex.DecodeString(seed)\n	if err != nil && len(seedBs) < 64 {\n		return rootKey, err\n	}\n")],
'''package util

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if _, err := RootKeyFromSeed(strings.Repeat("ab", 64) + "zz"); err == nil {
		t.Fatal("malformed hex accepted")
	}
}
''', "64 or more well-formed bytes followed by a malformed digit", "malformed hex after a full seed is ignored")

seed("c14-upper-m", "C14", "bip32", [("bip32/path.go",
"	valsArr := strings.Split(newPath.String(), \"/\")\n",
"	valsArr := strings.Split(strings.ToLower(newPath.String()), \"/\")\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	p, err := Path("M/1/2").ReplaceValueAtDepth(2, 7)
	if err != nil || p != "M/1/7" {
		t.Fatal(p, err)
	}
}
''', "a path written with capital M", "replacing a component also changes the first one")

seed("c26-hardened-edge", "C26", "util", [("util/key_path.go",
"		if i >= bip32.FirstHardenedChild {\n", "		if i > bip32.FirstHardenedChild || startIndex == bip32.FirstHardenedChild {\n")],
'''package util

import (
	"github.com/mearaj/bips/bip32"
	"testing"
)

func TestDemo(t *testing.T) {
	m, err := bip32.NewMasterKey(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	k := KeyPathRange{StartIndex: bip32.FirstHardenedChild - 1, EndIndex: bip32.FirstHardenedChild + 1, KeyPath: KeyPath{Path: "m", Key: *m}}
	if err := k.GenerateRange(); err != nil {
		t.Fatal(err)
	}
	if p := k.KeyPaths[1].Path; p != "m/2147483647/0'" {
		t.Fatal(p)
	}
}
''', "a range that runs across the first hardened index", "the path of the first hardened index is written as plain when the range starts below it")
