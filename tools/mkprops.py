#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the statements; run by hand).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
B='bip32/bip32.go';U='bip32/utils.go';R='bip32/reg_ver_bytes.go';PT='bip32/path.go';M='bip39/bip39.go';W='bip39/wordlists';UT='util/util.go';K='util/key_path.go';C='bip44/coins.go'
p('C01','Private child derivation computes BIP32 CKDpriv',
 'For every private extended key k with chain code c and every child index i whose derivation succeeds, with I = HMAC-SHA512 keyed by c over (0x00 || k || i) when i >= 2^31 and over (compressed public key of k || i) otherwise, i being four big-endian bytes, the child is a private key whose 32-byte secret is (first half of I + k) mod n, left-padded with zeros, and whose chain code is the second half of I. Nothing else (earlier calls, other fields of the parent, special index values) influences the child\'s secret or chain code.',
 ['inputs','histories'],'all 2^32 indexes, all private parents, any sequence of earlier calls',
 'The published vectors are a few dozen (parent, index) pairs; keys with leading zero bytes, boundary indexes and repeated calls are not sampled.',[B,U],
 [('NewChildKey',B),('getIntermediary',B),('addPrivateKeys',U),('compressPublicKey',U)],obs=['Key.NewChildKey'])
p('C02','Public child derivation computes BIP32 CKDpub',
 'For every public extended key K with chain code c and every index i < 2^31 whose derivation succeeds, with I = HMAC-SHA512 keyed by c over (the 33 compressed bytes of K || i as four big-endian bytes), the child is a public key holding the 33-byte compressed encoding of point(first half of I) + K and its chain code is the second half of I. Hence it is the public counterpart of the child the matching private parent derives at the same index.',
 ['inputs','histories'],'all non-hardened indexes, all public parents on the curve, any earlier calls',
 'One public parent with 20 indexes is tested; points whose coordinates have leading zero bytes or odd parity combinations are not enumerated.',[B,U],
 [('NewChildKey',B),('addPublicKeys',U),('ExpandPublicKey',U)],obs=['Key.NewChildKey'])
p('C03','A derived child carries correct depth, fingerprint, index and version',
 'Every successfully derived child has depth = parent depth + 1, child number = the requested index in four big-endian bytes, parent fingerprint = the first four bytes of RIPEMD160(SHA256(the parent\'s compressed public key)), and the parent\'s own version bytes. This holds for private and public parents, at every depth and index.',
 ['inputs'],'all parents, all indexes','Vectors reach depth 5 and two version families only.',[B,U,R],
 [('NewChildKey',B),('setDepth/setChildNumber/setFingerPrint/SetVersion',B)],obs=['Key.NewChildKey'])
p('C04','Child derivation fails exactly when BIP32 says the child does not exist',
 'Deriving a hardened index from a public key, deriving below depth 255, deriving from a key whose version bytes are not registered for its kind, and any derivation in which the HMAC half is not a valid scalar or the resulting private key is 0 or the resulting public key is the point at infinity, all return an error. No other well-formed request is refused, and a key is never returned with a nil error unless it passed these checks.',
 ['inputs'],'all parents, all indexes, all HMAC outcomes','The rejecting cases have probability 2^-127 or need depth 255, so no test reaches them; only one hardened-from-public pair is sampled.',[B,U],
 [('NewChildKey early exits',B),('ValidatePrivateKey',U),('validateChildPublicKey',U)],obs=['Key.NewChildKey error result'])
p('C05','Master key generation follows BIP32',
 'For every seed, the master key is built from I = HMAC-SHA512("Bitcoin seed", seed): secret = first half, chain code = second half, with depth 0, zero parent fingerprint, zero child number and the default mainnet private version. An error and no key is returned exactly when the first half is 0 or not below the group order.',
 ['inputs'],'all seeds of any length','Six seeds are sampled; invalid halves are unreachable by sampling.',[B,U],[('NewMasterKey',B),('ValidatePrivateKey',U)],obs=['NewMasterKey'])
p('C06','Neutering yields the public counterpart and nothing private',
 'For every private key, its public version has the same depth, fingerprint, child number and chain code, the compressed public key of the secret in place of the secret, and the public version bytes registered for its private version (default mainnet public version if unregistered). A public key is returned unchanged apart from an unregistered version being replaced by the default, and no byte of the private scalar survives in the result.',
 ['inputs'],'all keys and version bytes','Only mainnet keys from the vectors are neutered.',[B,U,R],[('PublicKeyExtended',B),('publicKeyForPrivateKey',U)],obs=['Key.PublicKeyExtended'])
p('C07','Serialized keys are 78 bytes plus checksum; only intact ones are accepted',
 'A non-empty key serializes to its 78 bytes followed by the first four bytes of the double SHA-256 of them, Base58 text being the encoding of exactly those 82 bytes, and an all-zero key is refused. Deserializing returns the first 78 bytes without error exactly when the input has 82 bytes, all four checksum bytes match and the key material is valid (secret in [1, n-1], or a compressed point on the curve); every other input yields an error and never a panic. Validity of a key means that its serialization deserializes without error.',
 ['inputs'],'all byte strings and all 78-byte keys','Tests flip one character and truncate one string; they do not cover each checksum byte, other lengths or invalid key material.',[B,U],
 [('Serialize/Deserialize',B),('AddChecksumDblSha256ToBytes/ChecksumDblSha256',U),('IsValid',B)],obs=['Key.Serialize','Deserialize','B58Deserialize','Key.IsValid'])
p('C08','Key fields live in disjoint slots: reads return what was written',
 'Version, depth, fingerprint, child number, chain code and key data occupy bytes 0-3, 4, 5-8, 9-12, 13-44 and 45-77 of an extended key; a private key is recognised by a zero byte 45, its secret being bytes 46-77. Each reader returns exactly its field, each writer changes exactly its field and nothing else, so versions read back as the number that was set.',
 ['inputs'],'all keys and field values','Accessors are mostly untested and tests compare whole keys built by the same accessors.',[B],
 [('Set*/Get* accessors and *Index constants',B)],obs=['exported Get*/Set*/IsPrivate methods'])
p('C09','Hex views expose the secret only for private keys and always full width',
 'The private hex of a private key is the 64 hex digits of its 32-byte secret and is empty for a public key. The public hex is the 66 hex digits of the compressed public key, and is the same for a private key and for its public version.',
 ['inputs'],'all keys','The hex views are not called by any test.',[B],[('PrivateKeyHex/PublicKeyHex',B)],obs=['Key.PrivateKeyHex','Key.PublicKeyHex'])
p('C10','Compressed public keys expand to the right curve point',
 'Expanding a compressed key with prefix 2 or 3 returns X = its 32 bytes and the Y with Y^2 = X^3 + 7 (mod p) whose parity is the prefix minus 2. Computing the public key of a secret always gives 33 bytes: 2 plus the parity of Y, then X padded to 32 bytes.',
 ['inputs'],'all curve points, including X or Y with leading zero bytes','Only points from the vectors are exercised; short X occurs once in 256 keys.',[U],
 [('ExpandPublicKey',U),('compressPublicKey',U)],obs=['ExpandPublicKey','public keys of derived keys'])
p('C11','The version-byte registry equals SLIP-0132',
 'Every registered entry has the private and public version numbers, prefixes, address encodings and two-level path that the SLIP-0132 table shipped with the code lists for that coin (multi-signature entries, which the table gives no path, sit under purpose 84 of their coin), and every table line is present. Entries that share a private version share their public version and vice versa, so converting private to public version is unambiguous, and the default mainnet and testnet versions are the Bitcoin xprv/xpub and tprv/tpub entries.',
 ['configurations'],'all registered entries','Tests only check that entries parse and are registered, never their values.',[R,'bip32/slip-0132.md'],[('VersionBytes variables and PathToHDBytesSlice',R)],obs=['exported registry variables'])
p('C12','Every registry index lists exactly the registered entries under their own key',
 'After start-up each registered entry appears in the flat list and in the indexes by private version, public version, purpose (plain and hardened) and coin type, filed under its own value, and no index contains anything else. For an entry whose path has the form m/P\'/C\' with numbers of up to eight digits, the purpose and coin values are P and C and their full forms are those plus 2^31; when the number asked for is missing from the path, the result is an error rather than a value.',
 ['configurations','inputs'],'all entries; all paths for the value accessors','Tests check two of the five indexes, in one direction only.',[R],[('init',R),('PurposeVal/CoinVal/PurposeValFull/CoinValFull',R)],obs=['exported registry indexes','VersionBytes methods'])
p('C13','Path parsing yields the exact indexes or an error',
 'A path is accepted only if, after removing white space, it is m or M followed by zero or more hardened components (decimal digits and an apostrophe) and then zero or more plain ones. The parsed list is a leading 0 followed by one index per component in order: number + 2^31 for a hardened component, which must be below 2^31, and the number itself for a plain one, which must be below 2^32; a number outside its range is an error, never wrapped or truncated.',
 ['inputs'],'all strings, all component counts and magnitudes','There are no path tests at all; boundary numbers and long paths need specific inputs.',[PT],[('PathRegex, ValuesAtDepth, IsValid, String',PT)],obs=['Path.ValuesAtDepth','Path.IsValid'])
p('C14','Path lookup and replacement touch exactly the requested depth',
 'Looking up a depth returns that element of the parsed list for every depth present, including paths with 255 or more components, and an error otherwise. Replacing the value at a depth returns a valid path in which that component alone is changed to the given index (hardened form for values >= 2^31), or the original path and an error.',
 ['inputs'],'all paths, depths 0-255, all 32-bit values','No test calls these functions.',[PT],[('ValueAtDepth/ReplaceValueAtDepth',PT)],obs=['Path.ValueAtDepth','Path.ReplaceValueAtDepth'])
p('C15','Mnemonic encoding follows BIP39 bit for bit',
 'For entropy of 128, 160, 192, 224 or 256 bits the sentence has ENT/32*3 words joined by single spaces; word number j is the list entry whose index is the j-th 11-bit group, most significant first, of entropy followed by the first ENT/32 bits of its SHA-256. Any other entropy length is an error, and leading zero bytes are not special.',
 ['inputs'],'all entropies of the five sizes, and all other lengths','24 vectors and 1000 random entropies cover a vanishing part of 2^256 inputs; rejected sizes are sampled once.',[M],[('NewMnemonic/addChecksum/padByteSlice/validateEntropyBitSize',M)],obs=['NewMnemonic'])
p('C16','Mnemonic decoding inverts encoding and accepts only valid sentences',
 'A sentence is accepted exactly when it has 12, 15, 18, 21 or 24 white-space separated words, all of them in the active list, and its checksum bits equal the leading bits of the SHA-256 of its entropy bits. The returned entropy is words/3*4 bytes long, holds the leading bits of the concatenated 11-bit indexes with leading zero bytes kept, and every rejection is an error without entropy.',
 ['inputs'],'all sentences','Invalid sentences are sampled by about 18 strings; the checksum comparison of each length is not isolated.',[M],[('EntropyFromMnemonic/splitMnemonicWords/computeChecksum/IsMnemonicValid',M)],obs=['EntropyFromMnemonic','IsMnemonicValid'])
p('C17','The byte form of a mnemonic is its entropy, or entropy plus checksum bits',
 'For every valid sentence the raw byte form is its entropy, and the default byte form is the number formed by the entropy bits followed by the checksum bits in words*11/8 bytes rounded up, left-padded with zeros, whatever white space separates the words. It fails exactly when decoding the sentence fails.',
 ['inputs'],'all sentences and the optional raw flag','Tests use single spaces and compare round trips through the same code.',[M],[('MnemonicToByteArray/addChecksum/padByteSlice',M)],obs=['MnemonicToByteArray'])
p('C18','Seeds are BIP39 PBKDF2 of sentence and passphrase',
 'The seed is 64 bytes of PBKDF2-HMAC-SHA512 with 2048 iterations, the sentence as password and "mnemonic" followed by the passphrase as salt, both in NFKD form, for every sentence and passphrase, including empty and very long ones, and depends on nothing else.',
 ['inputs','histories'],'all sentences and passphrases','Vectors use one ASCII passphrase; a special case for another passphrase or a cache would pass.',[M],[('NewSeed',M)],obs=['NewSeed'])
p('C19','Checked seed derivation never produces a seed from an invalid sentence',
 'The error-checking seed functions return a seed only when the sentence passes the full mnemonic validation, and then exactly the seed of the unchecked derivation for the same sentence and passphrase (as hex digits in the string form). Otherwise they return the validation error and no seed.',
 ['inputs'],'all sentences and passphrases','A few invalid sentences are sampled; the string-returning function is untested.',[M,UT],[('NewSeedWithErrorChecking',M),('DeriveSeedFromMnemonic',UT)],obs=['NewSeedWithErrorChecking','util.DeriveSeedFromMnemonic'])
p('C20','Random entropy and seeds come whole from the system CSPRNG or fail',
 'New entropy of 128, 160, 192, 224 or 256 bits, and the 256-byte random seed, consist entirely of bytes filled by the operating system\'s cryptographic random source and have exactly the requested length. Any other size, and a failing random source, yield an error and never a usable value; no other random source is used anywhere.',
 ['inputs','fault_sequences'],'all bit sizes, all failures of the random source','Tests never make the source fail and cannot see the origin of the bytes.',[M,B],[('NewEntropy',M),('NewSeed',B)],obs=['bip39.NewEntropy','bip32.NewSeed'])
p('C21','The ten word lists are the official BIP39 lists',
 'Each of the ten language lists has exactly 2048 distinct non-empty words without white space and equals the published BIP39 list in content and order, and English is active at start-up.',
 ['configurations'],'every word of every list','Only English is used in tests; each list is guarded by a run-time CRC that an edit can change along with the list.',[W,M],[('list constants and CRC guards',W),('init',M)],obs=['wordlists.*','GetWordList'])
p('C22','The active word list and its reverse lookup always agree',
 'After any sequence of list selections, list reads and caller modifications of slices given to or obtained from the package, the word at index i looks up to index i and no other word looks up successfully, the list being the one selected last. Only selecting a list changes it.',
 ['histories'],'all sequences of SetWordList, GetWordList, GetWordIndex, encodes and decodes, and caller writes to the slices involved','Tests never switch lists or modify a returned slice.',[M],[('SetWordList/GetWordList/GetWordIndex',M)],state=[('active list and reverse map','the list used by encode and decode',M)],obs=['SetWordList','GetWordList','GetWordIndex'])
p('C23','Mnemonic generation honours the requested word count',
 'Requesting 12, 15, 18, 21 or 24 words returns the BIP39 sentence, of that many words, of fresh system-random entropy of words*32/3 bits; every other count and every failure of a step is an error with an empty sentence.',
 ['inputs','fault_sequences'],'all 256 word counts, all failing steps','The helper is untested.',[UT],[('GenerateMnemonic',UT)],obs=['util.GenerateMnemonic'])
p('C24','A root key from a seed string is the master key of exactly those bytes',
 'For every hex string of at least 16 bytes the root key is the BIP32 master key of the decoded bytes. Malformed hex, shorter seeds and every failing step return an error together with a non-nil pointer, so callers never dereference nil and never mistake a failure for success.',
 ['inputs'],'all strings','The helper is untested.',[UT],[('RootKeyFromSeed',UT)],obs=['util.RootKeyFromSeed'])
p('C25','Batch derivation lists one correct key per path level or fails',
 'For a valid private depth-0 root and a valid path, the result starts with the root at "m" and has one entry per component, each entry\'s key being the child of the previous entry\'s key at that component\'s index and its path being the previous path plus that component in canonical form. An invalid or public or non-master root, an invalid path, or any failing derivation step yields an error and no list.',
 ['inputs','fault_sequences'],'all roots and paths','The generator is untested.',[UT],[('DeriveBIP32Result',UT)],obs=['util.Generator.DeriveBIP32Result'])
p('C26','Range generation lists path-consistent keys or fails without touching the list',
 'For a valid key, valid path and start below end, the stored list has one entry per index of the half-open range in order, every entry\'s key being the one its path denotes relative to the starting path and key (each step appends the index, hardened form from 2^31 on, to the previous path and derives it from the previous key). An empty or reversed range, an invalid key or path, or a failing derivation is an error and leaves the stored list as it was.',
 ['inputs','fault_sequences'],'all ranges, keys and paths','The range generator is untested.',[K],[('GenerateRange',K)],obs=['util.KeyPathRange.GenerateRange'])
p('C27','Addresses are computed over fixed-width encodings',
 'The Ethereum-style address of a key is the hex of the last 20 bytes of Keccak-256 over the 32-byte X followed by the 32-byte Y of its public point. The Base58 address is the Base58 of prefix byte, RIPEMD160(SHA256(compressed public key)) and the first four bytes of the double SHA-256 of those 21 bytes; both are the same for a private key and its public version and leading zero bytes are not special.',
 ['inputs'],'all keys and prefixes','Addresses are untested; a coordinate with a leading zero byte occurs once in 128 keys.',[K,U],[('AddrHex/AddrP2SH',K)],obs=['util.KeyPath.AddrHex','util.KeyPath.AddrP2SH'])
p('C28','Operations leave arguments and shared state untouched',
 'Apart from the documented mutators (selecting a word list, setting a key\'s fields, setting a generator\'s root key, storing a range\'s result), no exported function writes memory reachable from its arguments or receiver, including spare capacity of slices passed in, nor any package-level state, nor state of other packages such as curve constants. Hence derivation, encoding and parsing are deterministic, independent of call history and safe to call concurrently on shared inputs.',
 ['histories','schedules','inputs'],'all call sequences and interleavings','Aliasing and history effects need specific slice capacities, call orders or interleavings; tests call each function on fresh data.',[B,U,PT,R,M,UT,K,'bip44/coin.go'],[('all exported functions','bip32, bip39, bip44, util')],obs=['arguments, receivers and package variables after a call'])
p('C29','Untrusted text and bytes never crash the parser',
 'Deserializing keys, parsing, looking up and replacing path components, decoding and validating mnemonics, seeds and hex, and reading version-entry values never panic by an out-of-range index or slice, failed slice-to-array conversion, nil dereference, nil map write or division by zero, for any string or byte slice.',
 ['inputs'],'all strings and byte slices','Tests sample a handful of malformed inputs.',[B,PT,M,UT,R],[('length guards before every index/slice/conversion','bip32, bip39, util')],obs=['Deserialize','B58Deserialize','Path methods','bip39 decoding functions','util.RootKeyFromSeed'])
p('C30','Secrets stay inside: public outputs and side channels carry no private bytes',
 'Public extended keys, public hex, addresses, fingerprints and public children depend on the private scalar only through the elliptic-curve public key, and no secret-bearing library function prints, logs, writes files or the network, reads the environment or clock, or starts goroutines. Error values contain no key, seed, entropy, mnemonic or password bytes, except that an error may name the first word that is in no word list, or the offending character of a hex string.',
 ['inputs'],'all keys, all control-flow paths','Absence of a flow cannot be shown by sampling outputs.',[B,U,UT,K,M],[('scalar multiplication as the only private-to-public step',U)],obs=['all exported functions of bip32, bip39, util'])
p('C31','The coin registry equals SLIP-0044 and its lookups agree with it',
 'Every registered coin has the symbol and name that the shipped SLIP-0044 table lists for its path component, and after start-up a type equal to the path component minus 2^31 (the table\'s own type column differs from that in four lines); types and path components are unique, and every table line that has a symbol or a name and is not reserved is present. Each coin is found by its type, path component and (for unique names) name in the lookup maps, and a coin is valid exactly when it has a name or symbol and its path component is its type plus 2^31 with the type below 2^31.',
 ['configurations','inputs'],'all 1136 coins; all coin values for validity','The only test checks that registered coins pass the validity predicate itself.',[C,'bip44/coin.go','bip44/slip-0044.md'],[('RegCoins and init',C),('Coin.IsValid','bip44/coin.go')],obs=['RegCoins','RegBip44Coins*Map','Coin.IsValid'])
p('C32','No failing step is reported as success',
 'In every library function, an error returned by a fallible step is either returned to the caller (as itself or as another non-nil error or failure value) or the function\'s documented failure value is produced; it is never overwritten or ignored. (Steps that only parse text are covered by the properties about what is accepted.)',
 ['inputs','fault_sequences'],'all failing steps on all paths','Failing steps (random source, invalid halves, unregistered versions) are not injected by tests.',[B,U,PT,R,M,UT,K],[('error returns of all fallible calls','bip32, bip39, bip44, util')],obs=['error results of all exported functions'])
p('C33','The demo UI never shows keys of a superseded root or path',
 'Whenever the UI changes the root key or derivation path it recomputes the displayed list of derived keys before the event handler ends, on every path including failing ones, so that keys shown always belong to the current root key and path.',
 ['histories'],'all sequences of UI events','The UI has no tests.',['examples/ui/one/main.go'],[('onKeyPathChange and the event handlers','examples/ui/one/main.go')],obs=['keyPathTabs'])
p('C34','Random entropy is unpredictable and uniform',
 'Generated entropy and seeds are computationally indistinguishable from uniform bits.',['histories'],'all generated values','A statistical property of the environment.',[M,B],[('crypto/rand',M)])
p('C35','Secret-dependent operations run in constant time',
 'The time taken by derivation, validation and checksum comparison does not depend on secret bytes.',['inputs'],'all secrets','Tests do not measure time.',[U,B],[('big.Int and curve arithmetic',U)])
p('C36','Base58, hash and curve primitives of the dependencies are correct',
 'Base58 decoding inverts encoding, and the hash, HMAC, PBKDF2 and secp256k1 primitives used compute their standards\' functions on every input.',['inputs'],'all inputs of the primitives','Dependencies are exercised through a few vectors.',['go.mod'],[('third-party modules','go.mod')])
p('C37','Keys the library makes are valid and of the kind they claim',
 'Every master key that is returned without error, every child that is derived without error from a valid key, and the public version of every valid key, whatever its version number, pass the library\'s own validity check. The public version of a key is always recognised as a public key.',
 ['inputs'],'all seeds, all valid keys, all indexes','Tests never call the validity check on a derived or neutered key.',[B,U],[('IsValid',B),('NewMasterKey/NewChildKey/PublicKeyExtended',B)],obs=['Key.IsValid on the results of NewMasterKey, NewChildKey and PublicKeyExtended'])
p('C38','Keys of a registered version read as the prefix the registry names',
 'For every registered entry, the Base58 text of any key carrying its private (public) version number starts with the four-character private (public) prefix the entry names. Exempt are Nexa, Nexa Testnet and Vertcoin, for whose numbers the SLIP-0132 table itself names prefixes that no key has.',
 ['inputs','configurations'],'all registered entries, all keys of their versions','Tests look at texts of Bitcoin mainnet keys only.',[R,B],[('VersionBytes variables',R),('B58Serialize/String',B)],obs=['Key.B58Serialize','Key.String','exported registry variables'])
p('C39','The text of a coin names its symbol, name and type, and coins are sorted',
 'The text form of any coin is its symbol, " - " and its name, or its name alone if it has no symbol, followed by " (Type t)" with t the decimal type. Its list form is {Type: t, PathComponent: 0xp, Symbol: "s", Name: "n"} with p in lower-case hexadecimal and the texts unquoted. The coin list is sorted by name.',
 ['inputs','configurations'],'all coin values, all registered coins','No test looks at a coin\'s text or at the order of the list.',['bip44/coin.go',C],[('Coin.String','bip44/coin.go'),('RegCoins',C)],obs=['Coin.String','Coin.StringForMD','RegCoins'])
p('C40','Watch-only derivation mirrors private derivation byte for byte',
 'For every private key with a version registered for private keys and every index below 2^31, deriving the child and taking its public version gives the same 78 bytes as taking the public version first and deriving the child from that: version, depth, fingerprint, index, chain code and key. Both orders succeed, or fail, for the same keys and indexes.',
 ['inputs'],'all private keys of registered versions, all non-hardened indexes','Tests compare the two orders for one key of one version and twenty indexes.',[B,U,R],[('NewChildKey/PublicKeyExtended',B),('addPublicKeys/addPrivateKeys',U)],obs=['Key.NewChildKey','Key.PublicKeyExtended'])
p('C41','Each documented failure is reported with its own exported error value',
 'A call that fails for exactly one documented reason returns the exported error of that reason, or an error that wraps it: hardened child of a public key, depth above 255, unregistered version, invalid private or public key, empty key, wrong size, wrong checksum, malformed path or absent depth, malformed entry path, wrong entropy length, wrong word count, wrong sentence checksum, unsupported word count, short seed, invalid root key, invalid range. The exported errors are distinct values that never change.',
 ['inputs'],'all inputs that fail for one reason','Tests check error values for a handful of inputs.',[B,'bip32/err.go',PT,R,M,UT,K,'util/err.go'],[('Err* variables and the returns that use them','bip32, bip39, util')],obs=['error results of exported functions'])
p('C42','Exported helpers compute their definitions for every argument',
 'For every byte string the hash helper is RIPEMD160(SHA256(x)), the checksum is the first four bytes of SHA256(SHA256(x)), and adding the checksum gives x followed by it. A secret is accepted exactly when it lies in [1, n-1], the version-number bytes of an entry are its numbers in big-endian order, an entry is registered exactly when its path without white space is a registered path, and a generator\'s root key is the one set last (all zero before).',
 ['inputs','histories'],'all arguments','Tests reach the helpers through fixed vectors only.',[U,R,UT],[('HashRipeMD160onSha256/ChecksumDblSha256/AddChecksumDblSha256ToBytes/ValidatePrivateKey',U),('PvtKeyFlagBytes/PubKeyFlagBytes/IsRegistered',R),('SetRootKey/RootKey',UT)],obs=['the named functions'])
p('C43','What the library writes it reads back',
 'Every valid extended key, written as bytes or as text, is accepted and read back as the same 78 bytes. For every entropy of 16, 20, 24, 28 or 32 bytes and every active list of 2048 distinct words without white space, the sentence made from it is valid and decodes to that entropy, and the seed text derived from the sentence is read by the root-key helper as the master key of exactly the seed bytes.',
 ['inputs'],'all valid keys, all entropy, all passphrases, all such lists','Round trips are tested for the published vectors.',[B,M,UT],[('Serialize/Deserialize, String/B58Deserialize',B),('NewMnemonic/EntropyFromMnemonic',M),('DeriveSeedFromMnemonic/RootKeyFromSeed',UT)],obs=['the named functions'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
assert all(len(x['title'])<=80 for x in P),[x['id'] for x in P if len(x['title'])>80]
print(len(P))
