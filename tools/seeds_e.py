#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed1 import seed, W

seed("c40-trailing-zero", "C40", "bip32", [("bip32/bip32.go",
"		fingerprint, err := HashRipeMD160onSha256(key[PubKeyStartIndex:])\n",
"		fingerprint, err := HashRipeMD160onSha256(bytes.TrimRight(key[PubKeyStartIndex:], \"\\x00\"))\n"),
("bip32/bip32.go", 'import (\n	"crypto/hmac"', 'import (\n	"bytes"\n	"crypto/hmac"')],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 5000; i++ {
		seed := make([]byte, 16)
		seed[0], seed[1] = byte(i), byte(i>>8)
		m, err := NewMasterKey(seed)
		if err != nil {
			continue
		}
		pub := m.PublicKeyExtended()
		if pub[77] != 0 {
			continue
		}
		a, err := m.NewChildKey(5)
		if err != nil {
			t.Fatal(err)
		}
		b, err := pub.NewChildKey(5)
		if err != nil {
			t.Fatal(err)
		}
		if a.PublicKeyExtended() != b {
			t.Fatal("watch-only child differs from the public version of the private child")
		}
		return
	}
	t.Fatal("no public key ends in a zero byte")
}
''', "a public parent whose X coordinate ends in a zero byte", "the parent fingerprint of children derived from a public key hashes the key without its trailing zero bytes")

seed("c41-absent-depth", "C41", "bip32", [("bip32/path.go",
"	vals, err := p.ValuesAtDepth()\n	if err != nil {\n		return 0, err\n	}\n",
"	vals, err := p.ValuesAtDepth()\n	if err != nil {\n		return 0, err\n	}\n	if n := len(vals); int(b) > n {\n		return 0, fmt.Errorf(\"path has no depth %d\", b)\n	}\n")],
'''package bip32

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	for b := byte(3); b < 10; b++ {
		if _, err := Path("m/44'/0'").ValueAtDepth(b); !errors.Is(err, ErrUnSupportedOrInvalidPath) {
			t.Fatal(b, err)
		}
	}
}
''', "a lookup two or more levels below the end of a valid path", "the lookup reports a depth that is far out of range with an error of its own instead of the exported one")

seed("c42-spaced-entry", "C42", "bip32", [("bip32/reg_ver_bytes.go",
"	_, ok := PathToHDBytesSlice[h.Path.String()]\n",
"	_, ok := PathToHDBytesSlice[string(h.Path)]\n")],
'''package bip32

import "testing"

func TestDemo(t *testing.T) {
	h := Bitcoinxprvxpub
	h.Path = "m / 44' / 0'"
	if !h.IsRegistered() {
		t.Fatal("white space in the path of an entry changes whether it is registered")
	}
}
''', "an entry whose path is written with white space", "registration is looked up with the raw path")

seed("c43-leading-zero-seed", "C43", "util", [("util/util.go",
"	if len(seedBs) < 16 {\n",
"	for len(seedBs) > 16 && seedBs[0] == 0 {\n		seedBs = seedBs[1:]\n	}\n	if len(seedBs) < 16 {\n")],
'''package util

import (
	"fmt"
	"testing"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
)

func TestDemo(t *testing.T) {
	m, err := bip39.NewMnemonic(make([]byte, 16))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5000; i++ {
		p := fmt.Sprint("passphrase ", i)
		s := bip39.NewSeed(m, p)
		if s[0] != 0 {
			continue
		}
		txt, err := DeriveSeedFromMnemonic(m, p)
		if err != nil {
			t.Fatal(err)
		}
		a, err := RootKeyFromSeed(txt)
		if err != nil {
			t.Fatal(err)
		}
		b, err := bip32.NewMasterKey(s)
		if err != nil {
			t.Fatal(err)
		}
		if *a != *b {
			t.Fatal("root key differs from the master key of the seed")
		}
		return
	}
	t.Fatal("no seed starts with a zero byte")
}
''', "a seed that starts with a zero byte", "leading zero bytes of the seed are dropped before the master key is made")
