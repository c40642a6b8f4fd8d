#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed, W

seed("c37-last-depth", "C37", "bip32", [("bip32/bip32.go",
"	_, err = Deserialize(bs)\n	if err != nil {\n		return false\n	}\n	return true\n",
"	k, err := Deserialize(bs)\n	if err != nil {\n		return false\n	}\n	// depth and child number are set together\n	return k[DepthStartIndex] != 0xff || k.GetChildNumber() != ChildNumber{}\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	m, err := NewMasterKey(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	k := *m
	for i := 0; i < 255; i++ {
		k, err = k.NewChildKey(0)
		if err != nil {
			t.Fatal(err)
		}
		if !k.IsValid() {
			t.Fatal("derived key is not valid at depth", i+1)
		}
	}
}
''', "a child at depth 255 and index 0", "the validity check takes the first key of the deepest level for an unset one")

seed("c38-groestl-flag", "C38", "bip32", [("bip32/reg_ver_bytes.go",
'''		PvKeyPrefix:   "Vprv",\n		PubKeyFlag:    0x02575483,\n		PubKeyPrefix:  "Vpub",\n		AddrEncodings: []AddrEncoding{P2WSH},\n		Path:          "m/84'/1'",\n	}\n	Litecoin''',
'''		PvKeyPrefix:   "Vprv",\n		PubKeyFlag:    0x02755483,\n		PubKeyPrefix:  "Vpub",\n		AddrEncodings: []AddrEncoding{P2WSH},\n		Path:          "m/84'/1'",\n	}\n	Litecoin''')],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	m, err := NewMasterKey(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	pub := m.PublicKeyExtended()
	pub.SetVersionUint32(GroestlcoinVprvVpub.PubKeyFlag)
	if s := pub.String(); s[:4] != "Vpub" {
		t.Fatal(s)
	}
}
''', "a public key of the Groestlcoin testnet multi-signature version", "two digits of the version number are swapped, so its texts do not start with Vpub")

seed("c39-same-symbol", "C39", "bip44", [("bip44/coin.go",
'	if c.Symbol == "" {\n', '	if c.Symbol == "" || strings.EqualFold(c.Symbol, c.Name) {\n')],
'''package bip44

import "testing"

func TestDemo(t *testing.T) {
	c := Coin{Type: 7, PathComponent: 0x80000007, Symbol: "NMC", Name: "nmc"}
	if s := c.String(); s != "NMC - nmc (Type 7)" {
		t.Fatal(s)
	}
}
''', "a coin whose symbol equals its name up to case", "the symbol is left out of the text when it repeats the name")
