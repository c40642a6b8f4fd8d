#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, the per-property plan, and the table of planted bugs (from seeded/*/meta.json)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
plan = {
'C01': ('NewChildKey on a symbolic private parent (scalar k in [1,n-1], chain code, header: independent symbolic bytes) and a symbolic 32-bit index. Oracle: the CKDpriv term (I as an HMAC term over cells, IL + k mod n, IR). Obligation: the child bytes 13-77 have the same normal form on every path on which a child is returned; done per registered version and for all others, and once more in the state an earlier call leaves.', '12 s'),
'C02': ('As C01 with a symbolic public parent (X on the curve, parity bit): key data is the compressed sum of IL*G and the parent point.', '5 s'),
'C03': ('Same runs as C01/C02: bytes 0-12 of the child against version of the matching kind, depth + 1, first four bytes of HASH160 of the parent public key, big-endian index.', '15 s'),
'C04': ('Same runs: the decision graph of "error is nil" against the condition under which BIP32 defines the child (hardened from public, depth 255, IL >= n, sum zero / point at infinity, unregistered version), in both directions.', '15 s'),
'C05': ('NewMasterKey on an arbitrary byte string: result bytes and error condition against the HMAC("Bitcoin seed") term.', '<1 s'),
'C06': ('PublicKeyExtended per registered version number, for numbers of the other kind and for all unregistered ones, under both orders of ranging over the registry maps.', '25 s'),
'C07': ('Serialize, B58Serialize, String, Deserialize, B58Deserialize, IsValid for arbitrary key bytes / input of length 82 / of any other length: bytes, checksum term, acceptance condition (checksum, scalar range, point on curve).', '2 s'),
'C08': ('Each setter and getter over 78 independent symbolic bytes: setters change exactly their slot, getters return it, kind test reads the data slot only.', '<1 s'),
'C09': ('PrivateKeyHex/PublicKeyHex over symbolic keys; hex is a term per nibble, so width is part of the value.', '1 s'),
'C10': ('ExpandPublicKey over a symbolic compressed point; compress o expand over k*G; square roots and parity are terms with the curve equation as rewrite rule.', '1 s'),
'C11': ('Package initialisation is evaluated over SSA as constants; each registered entry is compared with the table pinned in analyzer/data (transcribed from SLIP-0132 and checked against bip32/slip-0132.md, whose rows the analyser parses as well).', '2 s'),
'C12': ('Same, under both orders of ranging over maps: every index map against the entries grouped by the defining value; the accessor functions by value flow for an arbitrary path string.', '3 s'),
'C13': ('ValuesAtDepth/IsValid for an arbitrary string. The accepted regular language is compared as a minimal DFA; the split/loop is summarised as a pointwise map with an exists-condition; overflow bound 2^31 per component by linear facts.', '2 s'),
'C14': ('ValueAtDepth/ReplaceValueAtDepth for arbitrary path, depth byte and index: element of, and pointwise update of, the component list; error condition; original path with an error.', '8 s'),
'C15': ('NewMnemonic for symbolic entropy of each length 0-64 bytes and for all longer; list symbolic (2048 words). The big-integer shifts become bit slices; word i is list[bits 11i..11i+10].', '10 s'),
'C16': ('EntropyFromMnemonic/IsMnemonicValid per word count 0-30 and for all larger; words symbolic; reverse map is the one SetWordList builds.', '8 s'),
'C17': ('MnemonicToByteArray, raw/explicit/default, every word count.', '15 s'),
'C18': ('bip39.NewSeed against PBKDF2-HMAC-SHA512(sentence, "mnemonic"+passphrase, 2048, 64).', '<1 s'),
'C19': ('NewSeedWithErrorChecking and util.DeriveSeedFromMnemonic: success condition equals validity, value equals the unchecked seed.', '6 s'),
'C20': ('NewEntropy for a symbolic size, bip32.NewSeed: each result byte is a byte the system generator wrote; error iff bad size or generator failure; no package refers to another generator.', '3 s'),
'C21': ('The ten list constants against SHA-256 digests pinned in analyzer/data.', '2 s'),
'C22': ('SetWordList/GetWordList/GetWord/GetWordIndex over a symbolic list, with the caller overwriting its slices in between; an interprocedural effect analysis shows no other writer.', '3 s'),
'C23': ('GenerateMnemonic for each of the 256 byte values with a symbolic generator output.', '25 s'),
'C24': ('RootKeyFromSeed for an arbitrary string (hex decoding is a partial inverse of the hex term).', '2 s'),
'C25': ('DeriveBIP32Result for arbitrary root bytes and path; child derivation is an unknown function (its meaning: C01-C04); the loop is summarised as a recurrence, list and error condition compared with the stated recurrence.', '6 s'),
'C26': ('GenerateRange likewise, including "list untouched on error".', '4 s'),
'C27': ('AddrHex/AddrP2SH for private keys per registered version and public keys on the curve.', '6 s'),
'C28': ('Every exported function for arbitrary arguments from the state any word-list selection leaves. Every store, copy, append and library call that writes is resolved to an object; an object older than the call may be written by documented mutators only. Spare capacity is symbolic, so an append to an argument counts. Plus who may write package state.', '55 s'),
'C29': ('Same runs with an obligation per index, slice, slice-to-array conversion, dereference, division, shift, map write, type assertion, call of a nil function. Arguments are split (byte values, lengths 0-96 and beyond, word counts) only where the general run is undecided. bip32.ExpandPublicKey is exempt: it takes the bytes of a point, not untrusted input, and does panic on an empty slice.', '45 s'),
'C30': ('(A) functions reachable from the exported ones of bip32, bip39, util use no os/net/log/time/syscall function, no fmt.Print/print, no goroutine or channel. (B) error terms of exported functions contain no atom of secret arguments or of the generator, except through lengths, the header bytes of a key, or the first word in no list. (C) public outputs of a private key contain the scalar only below scalar multiplication.', '30 s'),
'C31': ('Every coin row and lookup map entry after evaluated initialisation against the table pinned in analyzer/data; Coin.IsValid by value flow for an arbitrary coin.', '4 s'),
'C32': ('For every call with an error result in functions reachable from the API: assume the error is not nil, follow the feasible paths to the exits; a return must give that error (or a wrapped or fresh one), and a function without error result must have looked at it. Calls this cannot discharge (for instance an ignored error that cannot occur) are decided by value flow: no state in which the step fails and its function reports success.', '1-10 s'),
'C33': ('Interprocedural typestate over SSA of examples/ui/one (type-checked against the gio packages of the module cache): from SetRootKey, or a change of the path text, to the next NextEvent, keys must have been derived again and stored in the displayed list.', '1 s (40 s with a cold build cache)'),
'C37': ('IsValid is run on the symbolic results of NewMasterKey, PublicKeyExtended (any version number) and NewChildKey (as in C01/C02) under their success conditions; its result must be the constant true.', '15 s'),
'C38': ('Registry constants as in C11; the Base58 texts of the smallest and the largest 82 bytes that start with a version number have equal length and first four characters, which by monotony covers every key of it; String/B58Serialize are shown to encode exactly the key bytes and checksum.', '1 s'),
'C39': ('Coin.String by value flow for an arbitrary coin; RegCoins as evaluated constants, adjacent names compared.', '11 s'),
'C40': ('Both compositions of NewChildKey and PublicKeyExtended on one symbolic private key per registered version; 78 bytes and success conditions compared. The group law enters as one rewrite: a*G + b*G = (a+b)*G.', '3 s'),
'C41': ('Every error variable made during initialisation is a value of its own. For each documented reason the condition "this reason alone" is built from the same terms as in C04, C07, C13-C16, C23-C26, and the error result under it must be that variable (or wrap it); the variables are distinct and nobody assigns them.', '7 s'),
'C42': ('The helpers on arbitrary byte strings, secrets, entries and sequences of root keys.', '3 s'),
'C43': ('Writer and reader are composed symbolically: the reader runs on the writer\'s result term. For sentences the list is symbolic with distinct words free of white space, so splitting and reverse lookup invert joining and indexing.', '4 s'),
}
na = {
'C34': 'a statement about the operating system\'s generator, not about this source; the structural part is C20.',
'C35': 'running time is decided by compiler, hardware, math/big and the curve library; math/big is variable-time, so the claim cannot even be stated soundly over this source.',
'C36': 'the primitives live outside the repository and quantify over 256-bit arithmetic and compression functions; they are trusted models here.',
}
head = open(root + '/tools/design_head.md').read()
tail = open(root + '/tools/design_tail.md').read()
o = head + '\n## Per property\n\nSpecified, analysed, oracle, cost (one core-ish run of the check). All quantify over every input unless a bound is named; what cannot be decided fails.\n\n'
for p in props:
    i = p['id']
    if i in plan:
        o += '- **%s %s** (%s). %s\n' % (i, p['title'], plan[i][1], plan[i][0])
    else:
        o += '- **%s %s**: not applicable: %s\n' % (i, p['title'], na[i])
o += '\n## Planted bugs\n\nEach is confirmed by its demonstration (passes on the tree, fails with the patch, stable tests pass). "Caught by" is the check of its own property unless others are named.\n\n| id | property | what it needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    o += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property']))
open(root + '/DESIGN.md', 'w').write(o + '\n' + tail)
