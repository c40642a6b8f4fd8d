From fa33d07ae6f86b6b3c16c74d0869b3d3d0b056b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 01/17] fix: NewEntropy reports a failing random source instead
 of returning all-zero entropy

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From 8e7e36578788197f4b47a5faf447374352a67ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 02/17] fix: MnemonicToByteArray counts words as
 EntropyFromMnemonic does, so extra whitespace does not change the result size

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -218,7 +218,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 6757f4d2ad815e1598f0304185c9f36d501d938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 03/17] fix: the active word list is not shared with callers,
 so it cannot drift from its reverse map

---
 bip39/bip39.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 188bf11..4c85e73 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -75,7 +75,7 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
-	wordList = list
+	wordList = append([]string(nil), list...)
 	wordMap = map[string]int{}
 
 	for i, v := range wordList {
@@ -85,7 +85,7 @@ func SetWordList(list []string) {
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
-	return wordList
+	return append([]string(nil), wordList...)
 }
 
 // GetWordIndex gets word index in wordMap.
-- 
2.43.0


From 51c5dba317d0840430fefc77425fde9cdab33ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 04/17] fix: path components above 2^32-1 are rejected instead
 of being silently truncated

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 636bff03d3e231c62ee7d0a62bf9501632435bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 05/17] fix: depth lookups work on paths with 255 or more
 components

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..bf34600 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From 46c262d63a1e470dfcdf4f1675ff0b9cadfba923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 06/17] fix: ReplaceValueAtDepth no longer returns an invalid
 path without an error

---
 bip32/path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index bf34600..1dd218c 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if int(b) >= len(vals) {
+	if b == 0 || int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
@@ -103,5 +103,9 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	replaced := Path(strings.Join(valsArr, "/"))
+	if !replaced.IsValid() {
+		return newPath, ErrUnSupportedOrInvalidPath
+	}
+	return replaced, nil
 }
-- 
2.43.0


From 43e45f9046bce3c7aee1e79b590a39c77ebdeff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 07/17] fix: Deserialize no longer writes into the spare
 capacity of the caller's slice

---
 bip32/bip32.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..59fc979 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -293,8 +293,9 @@ func (key *Key) IsValid() bool {
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
 		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
+			exData := make([]byte, 82)
+			copy(exData, data)
+			data = exData
 		}
 		return Key(data[:78]), ErrSerializedKeyWrongSize
 	}
-- 
2.43.0


From 7525b0dd420771da516037a98962b8edf0039c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 08/17] fix: AddChecksumDblSha256ToBytes no longer writes into
 the spare capacity of the caller's slice

---
 bip32/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..7b50f34 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,7 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	return append(data[:len(data):len(data)], checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From 5aa4a75759993487fb8f496505d318bf808cc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 09/17] fix: Deserialize rejects private keys outside [1, n-1]
 and public keys that are not points on the curve

---
 bip32/bip32.go |  9 ++++++++-
 bip32/utils.go | 11 +++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 59fc979..741fe5f 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -310,7 +310,14 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	// validate the key material itself
+	key := Key(data[:78])
+	if key.IsPrivate() {
+		err = ValidatePrivateKey(key.GetPvtKeyBytes())
+	} else {
+		err = validatePublicKey(key[PubKeyStartIndex:PubKeyEndIndex])
+	}
+	return key, err
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
diff --git a/bip32/utils.go b/bip32/utils.go
index 7b50f34..0aa5e62 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -139,6 +139,17 @@ func validateChildPublicKey(key []byte) error {
 	return nil
 }
 
+// validatePublicKey accepts only the compressed encoding of a point on the curve
+func validatePublicKey(key []byte) error {
+	if len(key) != PublicKeyCompressedLength {
+		return ErrInvalidPublicKey
+	}
+	if _, err := secp256k1.ParsePubKey(key); err != nil {
+		return ErrInvalidPublicKey
+	}
+	return nil
+}
+
 // Numerical
 func uint32Bytes(i uint32) []byte {
 	b := make([]byte, 4)
-- 
2.43.0


From ef69c3cd50c2d709f0f2ecfb67e33a02afa6ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 10/17] fix: deriving a child of a key at depth 255 is an error
 instead of wrapping the depth to 0

---
 bip32/bip32.go | 3 +++
 bip32/err.go   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 741fe5f..d94c8f9 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -111,6 +111,9 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	if key[DepthStartIndex] == 0xff {
+		return childKey, ErrDepthExceeded
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
diff --git a/bip32/err.go b/bip32/err.go
index 4af47ed..4287c3c 100644
--- a/bip32/err.go
+++ b/bip32/err.go
@@ -6,4 +6,5 @@ var (
 	ErrUnSupportedHDVersionBytes = errors.New("unsupported hd version bytes")
 	ErrInvalidPurpose            = errors.New("invalid purpose")
 	ErrInvalidCoin               = errors.New("invalid coin")
+	ErrDepthExceeded             = errors.New("key depth can't exceed 255")
 )
-- 
2.43.0


From d8ca72e190c4430b05c2c026948023a1d4f78448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 11/17] fix: NewChildKey rejects tweaks outside [1, n-1] and a
 derived point at infinity, as BIP32 requires

---
 bip32/bip32.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index d94c8f9..33a9b66 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -118,6 +118,11 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if err != nil {
 		return childKey, err
 	}
+	// the tweak itself has to be a valid scalar, for private and public parents alike
+	err = ValidatePrivateKey(PvtKeyBytes(intermediary[:32]))
+	if err != nil {
+		return childKey, err
+	}
 	vs := Version(key[VersionStartIndex:VersionEndIndex])
 	vsVal := binary.BigEndian.Uint32(vs[:])
 	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
@@ -169,6 +174,11 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 		}
 		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
 		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
+		// Validate the derived key: it can't be the point at infinity
+		err = validateChildPublicKey(kbs)
+		if err != nil {
+			return childKey, err
+		}
 		childKey.setPubKeyBytes(KeyBytes(kbs))
 	}
 	return childKey, nil
-- 
2.43.0


From e75ad9aecbd972ddc7106631f60ddfeaec45519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 12/17] fix: Nexa Testnet lists the P2PKT address encoding
 registered in slip-0132.md

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..fa709ce 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -361,7 +361,7 @@ var (
 		PvKeyPrefix:   "xprv",
 		PubKeyFlag:    0x043587cf,
 		PubKeyPrefix:  "xpub",
-		AddrEncodings: []AddrEncoding{P2PKH, P2SH},
+		AddrEncodings: []AddrEncoding{P2PKT, P2PKH, P2SH},
 		Path:          "m/44'/1'",
 	}
 	Polispprvppub = VersionBytes{
-- 
2.43.0


From b30617947498becd869cb6f8711d42a74801a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 13/17] fix: AddrHex hashes fixed-width coordinates, so a
 leading zero byte does not change the address

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..0dc66a4 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,7 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	addrBs := append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 38275b6d99fce8659e74a850bdc6fa386da4cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 14/17] fix: GenerateRange rejects a range that ends before it
 starts

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 0dc66a4..f234424 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -77,7 +77,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From 088922c332d21b7d16217e6ddc5483512b660c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 15/17] fix: GenerateRange reports a failed derivation instead
 of listing empty keys

---
 util/key_path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index f234424..f2ccd40 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -95,7 +95,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		childKey, err := currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
+		currentKey = childKey
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
-- 
2.43.0


From dec5ab17eac06fb06170d560e91a264809e5d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 16/17] fix: DeriveBIP32Result reports a failed derivation
 instead of listing empty keys

---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 7dedddbe0304245b9755b801b4765b7933ed7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 17/17] fix: RootKeyFromSeed does not drop the error of
 NewMasterKey

---
 util/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 838c200..a8c9bfe 100644
--- a/util/util.go
+++ b/util/util.go
@@ -62,7 +62,11 @@ func RootKeyFromSeed(seed string) (*bip32.Key, error) {
 	if len(seedBs) < 16 {
 		return rootKey, ErrInvalidBIP39Seed
 	}
-	rootKey, err = bip32.NewMasterKey(seedBs)
+	masterKey, err := bip32.NewMasterKey(seedBs)
+	if err != nil {
+		return rootKey, err
+	}
+	rootKey = masterKey
 	ser, err := rootKey.Serialize()
 	if err != nil {
 		return rootKey, err
-- 
2.43.0

