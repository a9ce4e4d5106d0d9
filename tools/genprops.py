#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Kept as a script only so the statements are easy to edit.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

I=["inputs"]; IH=["inputs","histories"]

# ---------------------------------------------------------------- addresses
p("A01","Address text is accepted exactly when it is well formed",
  "Validating a text as an address succeeds if and only if the text, ignoring letter case, is 48 characters of the ndau base32 alphabet, its third character is one of the six kinds (a, n, e, x, b, m), and the last two of its 30 decoded bytes are the 16-bit checksum of the other 28. Every other text, including one with padding, line breaks or characters outside the alphabet, is answered with an error; no text makes validation, text-decoding or re-validation of an address crash, and a rejected text leaves the address it was being decoded into unchanged.",
  I,"every string, of any length and any bytes","Tests try a handful of good and bad strings; the accept set is over all strings and includes decoder corner cases (padding, embedded newlines, short results) no test reaches.",
  ["pkg/address/address_impl.go","pkg/address/address.go","pkg/b32/b32.go","pkg/b32/checksum.go"],
  [("length, kind, decode and checksum gates","pkg/address/address_impl.go Validate"),("checksum comparison","pkg/b32/checksum.go Check")],
  ["address.Validate","Address.UnmarshalText","Address.Revalidate"])
p("A02","Generated addresses have the documented layout",
  "Generating an address from a valid kind and at least 12 bytes of data always succeeds and yields the base32 text of exactly 30 bytes: a two-byte header that spells 'n', 'd' and the kind character, the last 26 bytes of the SHA-256 of the data, and the 16-bit checksum of those 28 bytes. An invalid kind or shorter data is always an error with no address.",
  I,"every kind byte and every data slice","Tests generate a few addresses from fixed data; the layout has to hold for every key and all six kinds.",
  ["pkg/address/address_impl.go","pkg/b32/b32.go","pkg/b32/checksum.go"],
  [("header packing, hash trim, checksum append","pkg/address/address_impl.go Generate")],["address.Generate"])
p("A03","Parsing a kind only ever yields a valid kind",
  "Parsing a kind from any value either returns an error or one of the six valid kind bytes, and no value of any type or content makes it crash. The kind test itself accepts exactly the six letters a, n, e, x, b and m.",
  I,"every dynamic type and every value handed to the kind parser and every byte handed to the kind test","Tests list some names; the result must be in the six-letter set for all strings, runes and bytes.",
  ["pkg/address/address_impl.go"],[("kind set","pkg/address/address_impl.go IsValidKind"),("ParseKind switch and final membership test","pkg/address/address_impl.go ParseKind")],["address.ParseKind","address.IsValidKind"])
p("A04","An address object only ever holds canonical text",
  "The text held by an address produced by generation, validation or text decoding is always the canonical form: the lower-case text that passed validation or the direct output of the encoder. So two accepted spellings of the same address compare equal and print identically.",
  IH,"every history of generate / validate / text-decode operations on address values","Tests compare a few lower-case addresses; the rule is about every place that can put text into an address.",
  ["pkg/address/address.go","pkg/address/address_impl.go"],[("canonical lower-casing in Validate","pkg/address/address_impl.go Validate"),("text decode","pkg/address/address.go UnmarshalText")],["address.Validate","Address.UnmarshalText","Address.MarshalText"])
p("A05","Single-character address typos are always detected",
  "Changing any one character of a valid address to a different character of the alphabet (different also when letter case is ignored) always makes it invalid.",
  I,"every address and every substitution","Tests mistype some characters of some addresses; the rule is about all 48 positions, all 31 replacements and every address.",
  ["pkg/address/address_impl.go","pkg/b32/checksum.go"],[("CRC-16","pkg/b32/checksum.go")])

# ---------------------------------------------------------------- b32
p("B01","Base32 encoder, decoder and index share one sound alphabet",
  "The base32 alphabet has 32 distinct lower-case characters that exclude l, 1, 0 and o; encoding, decoding and character lookup all use that same alphabet and the same padding rule. Decoding treats its input case-insensitively and forwards every decoding error together with no usable result being invented.",
  I,"every byte slice encoded and every string decoded","Tests encode seven short values; agreement of the tables must hold for all 32 symbols and every length.",
  ["pkg/b32/b32.go"],[("alphabet constant used by encoder, decoder, Index","pkg/b32/b32.go")],["b32.Encode","b32.Decode","b32.Index"])
p("B02","The 16-bit checksum test accepts exactly the checksum that is produced",
  "For every byte slice, the two bytes produced as its 16-bit checksum are the big-endian CRC-16/AUG-CCITT of the slice, and the checksum test answers true exactly when both given bytes equal the two bytes that would be produced. The 24-bit checksum is the first three bytes of the SHA-256 of its input.",
  I,"every message and every candidate checksum","Tests have four messages and never a half-right checksum.",
  ["pkg/b32/checksum.go"],[("producer and checker","pkg/b32/checksum.go Checksum16/Check/Checksum24")],["b32.Checksum16","b32.Check","b32.Checksum24"])

# ---------------------------------------------------------------- bip32 / key
p("K01","Master keys come only from acceptable seeds",
  "Creating a master key succeeds only for seeds of 16 to 64 bytes whose HMAC-SHA512 under the key 'ndau seed' has a left half that is non-zero and below the curve order; the secret is exactly that left half and the chain code the right half, at depth 0 with zero child number, zero parent fingerprint and marked private. Seed generation only succeeds for lengths 16 to 64 and then returns exactly that many bytes, all read from the random source; a short or failed read is an error.",
  I,"every seed of every length and every random source","Tests use fixed vectors; the unusable-seed branch and the length limits on both sides are not reachable by sampling.",
  ["pkg/bip32/bip32.go","pkg/key/extendedkey.go"],[("length gate, HMAC split, range check","pkg/bip32/bip32.go NewMaster"),("GenerateSeed","pkg/bip32/bip32.go")],["bip32.NewMaster","bip32.GenerateSeed","key.NewMaster"])
p("K02","Child derivation follows the BIP32 construction",
  "A derived child hashes, under the parent's chain code, 0x00 followed by the 32-byte parent secret for hardened indices and the 33-byte compressed parent public key otherwise, in both cases followed by the 4-byte big-endian index; its chain code is the right half of the result, its secret is the left half plus the parent secret modulo the curve order, always held in exactly 32 bytes, and its public form is the compressed sum of points. The child records depth plus one, the index, the fingerprint of the parent's public key and the parent's private/public nature, and derivation fails instead of returning a key when the left half is zero or not below the curve order.",
  I,"every well-formed parent key and every 32-bit index","Test vectors cover a few dozen paths; leading-zero secrets and out-of-range halves occur with probability 2^-8 to 2^-127.",
  ["pkg/key/extendedkey.go"],[("Child","pkg/key/extendedkey.go Child")],["ExtendedKey.Child"])
p("K03","Derivation limits: hardening needs a private parent and depth never wraps",
  "No key is ever derived at a hardened index (2^31 and above) from a public key, and none from a parent at depth 255, so depth never wraps around. Asking for the n-th hardened child either yields the child at index 2^31+n or an error, for every n; it never yields a non-hardened child. Converting to a signing or curve private key fails for every public key.",
  IH,"every key, depth and 32-bit index, and every chain of derivations","Tests try one too-deep chain and a few hardened indices; index arithmetic near 2^32 and all depth values are not sampled.",
  ["pkg/key/extendedkey.go","pkg/key/path.go"],[("depth and hardened gates","pkg/key/extendedkey.go Child"),("HardenedChild index arithmetic","pkg/key/extendedkey.go HardenedChild")],["ExtendedKey.Child","ExtendedKey.HardenedChild","ExtendedKey.SPrivKey","ExtendedKey.ECPrivKey"])
p("K04","Public forms of a key never contain the secret",
  "Whatever is produced as the public form of a key (neutered extended key, public signature key, public facade key, child of a public key, public key bytes) is marked public, carries the compressed public key as its only key material, and has no byte of the secret in any field other than through the elliptic-curve public-key computation. Its depth, child number, parent fingerprint and chain code are those of the key it came from.",
  I,"every key","Tests compare a few serialized public keys; a secret leaking into a rarely read field or on one branch is not visible in those vectors.",
  ["pkg/key/extendedkey.go","pkg/keyaddr/key.go","pkg/keyaddr/key_conv.go"],[("Public / SPubKey / PubKeyBytes","pkg/key/extendedkey.go"),("ToPublic / ToPublicKey","pkg/keyaddr")],["ExtendedKey.Public","ExtendedKey.SPubKey","ExtendedKey.PubKeyBytes","keyaddr.Key.ToPublic","keyaddr.Key.ToPublicKey"])
p("K05","Path derivation walks exactly the stated path",
  "Deriving from a parent path to a child path succeeds only when both paths are well formed and the child path strictly extends the parent path, element by element including hardening marks; then it applies exactly the remaining elements in order, hardened where marked and plain otherwise, and any failing step fails the whole derivation with no key. A path element that does not fit in 32 bits is an error, and no path text causes a crash.",
  I,"every pair of path strings and every key","Tests list some paths; prefix, length and per-element hardening comparisons must hold for all.",
  ["pkg/key/path.go"],[("newPath, isParentOf, DeriveFrom","pkg/key/path.go")],["ExtendedKey.DeriveFrom"])
p("K06","Zeroing a key leaves no key material behind",
  "After zeroing an extended key, every byte of every buffer it held (secret, cached public key, chain code, parent fingerprint) has been overwritten with zero, and all its fields are reset, so nothing from its former life is served afterwards, even if another key is later decoded into the same object. Zeroing a signature key drops its algorithm, key and extra data.",
  IH,"every key state, including after the public key was cached, and every later reuse of the object","Tests look at the object's accessors once; which buffers are wiped and whether a cached value survives reuse depends on prior history.",
  ["pkg/key/extendedkey.go","pkg/signature/keybase.go","pkg/signature/private_key.go","pkg/signature/public_key.go"],[("Zero","pkg/key/extendedkey.go Zero"),("Zeroize","pkg/signature")],["ExtendedKey.Zero","PrivateKey.Zeroize","PublicKey.Zeroize"])
p("K07","Keys do not share memory",
  "A key or extended key obtained from another one (child, public form, conversion to or from a signature key, decoding) shares no mutable memory with its source, so zeroing, decoding into or otherwise overwriting one never changes the other. The single exception is that asking an already public key for its public form may return that same key. (Constructors that are handed raw bytes, and accessors that hand out the key's bytes, may share those bytes with their caller.)",
  IH,"every history of deriving, converting, decoding and zeroing keys","Sharing is invisible until one of the two objects is zeroed or reused; no test does both.",
  ["pkg/key/extendedkey.go","pkg/signature/keybase.go"],[("copies made when constructing keys","pkg/key/extendedkey.go")],["ExtendedKey.Public","ExtendedKey.Child","ExtendedKey.AsSignatureKey","key.FromSignatureKey"])
p("K08","The public key served always belongs to the current secret",
  "The public key bytes an extended key reports are its own key bytes when it is public and otherwise the public key computed from its current secret; a cached public key never outlives the secret it was computed from, whatever sequence of decoding, conversion and zeroing the object has been through.",
  IH,"every sequence of operations on one key object","Tests use each object once; staleness needs a reused object.",
  ["pkg/key/extendedkey.go"],[("PubKeyBytes memo","pkg/key/extendedkey.go")],["ExtendedKey.PubKeyBytes"],[("cached public key","memo of the public key of a private extended key","pkg/key/extendedkey.go ExtendedKey.pubKey")])
p("K09","Key conversions carry every field, and reading inverts writing",
  "Converting an extended key to a signature key stores depth (1 byte), parent fingerprint (3), child number (4, big-endian) and chain code (32) in that order behind the key bytes, under the secp256k1 algorithm and with the right private/public type; converting back reads each of those fields from exactly the place it was written, takes private/public from the key's type, and refuses other algorithms and too-short data. Text encoding and decoding of extended keys are exactly this conversion followed by the signature key's own.",
  I,"every key and every signature key","Round-trip tests use a few vectors; swapped or truncated fields must be impossible for all values.",
  ["pkg/key/extendedkey.go"],[("extra / parseExtra","pkg/key/extendedkey.go"),("AsSignatureKey / FromSignatureKey","pkg/key/extendedkey.go")],["ExtendedKey.AsSignatureKey","ExtendedKey.FromSignatureKey","ExtendedKey.MarshalText","ExtendedKey.UnmarshalText"])
p("K10","Old-format keys are accepted only when intact and usable",
  "Parsing an old-format key succeeds only when it decodes to exactly 80 bytes whose last four are the first four of the double SHA-256 of the rest, and whose key part is either 0x00 followed by a secret that is non-zero and below the curve order (giving a private key), or a parseable compressed public key (giving a public key). Depth, fingerprint, child number, chain code and key are taken from their documented offsets; every other text is an error and never a crash.",
  I,"every string","Tests have a few old keys; checksum, range and layout must hold for all inputs.",
  ["pkg/key/convert_serialization.go"],[("FromOldSerialization","pkg/key/convert_serialization.go")],["key.FromOldSerialization"])
p("K11","Public and private derivation commute",
  "The public form of a private key's non-hardened child equals the child of its public form.",
  I,"every key and non-hardened index","Algebra of the curve group.",["pkg/key/extendedkey.go"],[("Child","pkg/key/extendedkey.go Child")])

# ---------------------------------------------------------------- signature
p("S01","Verification only succeeds for the key's own algorithm and a real check",
  "Verifying a signature answers true only if the key's and the signature's algorithms are the same and that algorithm's own verification, given exactly the key bytes, message and signature bytes, answered true; the null algorithm never verifies anything and never generates keys. For the secp256k1 algorithm an unparseable key or signature is false, and signing and verifying hash the message identically.",
  I,"every key, message and signature","Tests verify good and a few tampered signatures; no finite set shows that no bypass exists.",
  ["pkg/signature/public_key.go","pkg/signature/signature.go","pkg/signature/algorithms/secp256k1/secp256k1.go","pkg/signature/algorithms/ed25519/ed25519.go","pkg/signature/algorithms/null/null.go"],
  [("algorithm comparison then delegation","pkg/signature/public_key.go Verify"),("per-algorithm verify","pkg/signature/algorithms")],["PublicKey.Verify","Signature.Verify"])
p("S02","Wrong-sized keys and signatures are never accepted",
  "Every way of building a public key, private key or signature from outside data (raw construction, byte decoding, message decoding, text decoding) succeeds only if its length equals the size its algorithm declares, except signatures of algorithms that declare a negative size; a right-sized value is never refused for its size.",
  I,"every algorithm and every length","Tests try a few wrong lengths on some of the entry points; the rule covers all entry points and all lengths.",
  ["pkg/signature/public_key.go","pkg/signature/private_key.go","pkg/signature/signature.go"],[("size checks after construction or decoding","pkg/signature")],["RawPublicKey","RawPrivateKey","RawSignature","Unmarshal","UnmarshalMsg","UnmarshalText"])
p("S03","Algorithm identifiers are closed and stable",
  "Decoding data that names an unregistered algorithm is an error, never a crash or a default; identifiers below 128 cannot be registered by users, an identifier or name in use by a different algorithm cannot be taken over, and every registered algorithm, registered by value or by pointer, is found again under its own identifier. Null, Ed25519 and secp256k1 keep identifiers 0, 1 and 2, and two algorithms are considered the same only if they resolve to the same identifier.",
  IH,"every identifier byte, and every sequence of registrations","Tests decode known identifiers and register one algorithm.",
  ["pkg/signature/id_map.go","pkg/signature/algorithm.go"],[("id map, name map, registration gate","pkg/signature/id_map.go"),("lookup on decode","pkg/signature/algorithm.go")],["RegisterAlgorithm","NameOf","SameAlgorithm","Unmarshal"],[("algorithm registry","id -> algorithm and name -> id maps","pkg/signature/id_map.go")])
p("S04","Checksummed text is only accepted with the right checksum",
  "Adding a checksum prefixes the message with one width byte and appends that many final bytes of its SHA-224, with a width between 3 and 7 such that the total length is a multiple of 5. Checking accepts exactly such byte strings, returning exactly the message: the width byte must be the one belonging to the message length and all checksum bytes must match. Text decoding of keys and signatures never succeeds on data that fails this check, and no input makes it crash.",
  I,"every message and every candidate byte string, including every width byte","Tests flip bits of valid texts; hostile width bytes (0, or above 28) and all length residues are not enumerated.",
  ["pkg/signature/checksum.go","pkg/signature/keybase.go","pkg/signature/signature.go"],[("AddChecksum / CheckChecksum","pkg/signature/checksum.go"),("gate in UnmarshalText","pkg/signature")],["AddChecksum","CheckChecksum","PublicKey.UnmarshalText","PrivateKey.UnmarshalText","Signature.UnmarshalText"])
p("S05","Key framing is exact and decoding replaces the whole key",
  "A key is framed as one length byte, the key bytes, then the extra bytes, and a key longer than 255 bytes is refused; reading the frame takes exactly the announced number of key bytes and everything after them as extra, refuses truncated frames (an empty frame is the empty key), and on success leaves nothing of the previous key, extra or algorithm in the object.",
  IH,"every key and extra content and every frame, decoded into a fresh or a reused object","Round-trip tests use fresh objects and fixed sizes.",
  ["pkg/signature/keybase.go"],[("pack / unpack","pkg/signature/keybase.go")],["PublicKey.Marshal","PublicKey.Unmarshal","PrivateKey.Marshal","PrivateKey.Unmarshal"])
p("S06","Trailing bytes are rejected or handed back, never dropped",
  "Whole-value decoding of a key or signature fails if any byte follows the encoded value; message decoding returns exactly the bytes that follow the value; message encoding appends to the given buffer without disturbing what it already held.",
  I,"every input with any trailing data","Tests decode exact encodings only.",
  ["pkg/signature/algorithm.go","pkg/signature/keybase.go","pkg/signature/signature.go"],[("leftover handling","pkg/signature/algorithm.go")],["Unmarshal","UnmarshalMsg","MarshalMsg"])
p("S07","Public and private key text cannot be confused",
  "Public key text always starts with npub and private key text with npvt; decoding a public key accepts only text starting with npub and decoding a private key only text starting with npvt; generic parsing returns a private key exactly for npvt text and a public key exactly for npub text and is an error otherwise. Text shorter than the prefix is an error, not a crash.",
  I,"every string","Tests parse a handful of keys.",
  ["pkg/signature/public_key.go","pkg/signature/private_key.go","pkg/signature/key.go"],[("prefix checks","pkg/signature")],["ParseKey","ParsePublicKey","ParsePrivateKey","MarshalText","UnmarshalText"])
p("S08","Declared message size is an upper bound",
  "The size a key or signature announces for its message encoding is never smaller than the number of bytes that encoding takes, whatever the lengths of its key, extra and signature bytes.",
  I,"every key, extra and signature length","No test compares the announced size with the encoding for large or extra-bearing keys.",
  ["pkg/signature/keybase.go","pkg/signature/public_key.go","pkg/signature/private_key.go","pkg/signature/signature.go"],[("Msgsize","pkg/signature")],["Msgsize"])
p("S09","All four message codecs of a type agree",
  "For every message-encoded type (address, identified data, algorithm id, durations, timestamps, ndau amounts, nanocents, rate rows and tables), the streaming and in-memory encoders emit the same sequence of headers and fields, both decoders read the same sequence into the same fields and reject a wrong element count, and the announced size accounts for every field.",
  I,"every value of every message-encoded type","Generated tests of these packages do not exist or do not run; a mismatch shows only for particular pairs of encoder and decoder.",
  ["pkg/address/address_gen.go","pkg/signature/container_gen.go","pkg/types/duration_gen.go","pkg/types/ndau_gen.go","pkg/types/timestamp_gen.go","pkg/pricecurve/nanocent_gen.go","pkg/eai/rate_gen.go"],[("generated codecs","pkg/*/*_gen.go")],["DecodeMsg","EncodeMsg","MarshalMsg","UnmarshalMsg","Msgsize"])
p("S10","Signatures made with a key verify under its public key only",
  "Every message signed with a generated private key verifies under the matching public key and under no other.",
  I,"every key pair and message","Cryptographic correctness of third-party curves.",["pkg/signature"],[("Sign/Verify","pkg/signature")])

# ---------------------------------------------------------------- words
p("W01","The mnemonic word list is well formed",
  "Each word list has exactly 2048 distinct lower-case ASCII words in strictly ascending order, and no two words share their first four letters.",
  ["configurations"],"every entry of every word list shipped","Tests look up four words.",
  ["pkg/words/english.go"],[("word table","pkg/words/english.go")],["words.FromBytes","words.ToBytes"])
p("W02","Only known words with a correct checksum decode",
  "Decoding a word list fails if the language is unknown, the list is empty, any word is not in the list, or no allowed length has a matching checksum; every accepted result carries a checksum of at least four bits equal to the low bits of the CRC-8 of the returned bytes. This is for lists of up to 24 words (the standard mnemonic lengths); no list of words, of any length, makes decoding crash.",
  I,"every language string and every list of up to 24 strings (crash freedom: of any number of strings)","Tests decode six lists and reject two.",
  ["pkg/words/words.go"],[("lookup and checksum gate","pkg/words/words.go ToBytes")],["words.ToBytes"])
p("W03","Decoding reads the bits where encoding put them",
  "For every input length from 0 to 64 bytes, encoding lays the input bits, most significant first, followed by the low bits of their CRC-8, into consecutive 11-bit groups and emits the word at each group's index; decoding puts each word's index back at the same bit positions and reads data and checksum from there. A mnemonic decodes to the bytes it was made from whenever no shorter candidate length passes its checksum first.",
  I,"every content, at every length from 0 to 64 bytes","Tests use random data at lengths 1-32 and a fixed seed.",
  ["pkg/words/words.go"],[("padData, nthRun, setRun","pkg/words/words.go")],["words.FromBytes","words.ToBytes"])
p("W04","Prefix search returns exactly limited matching words",
  "Prefix search returns only words of the list that start with the prefix, in list order, never more than a positive limit, and stops early only once the limit is reached or the current word's first letter is past the prefix's; an unknown language gives the empty string. No language, prefix or limit crashes it.",
  I,"every prefix, limit and language","Six prefixes are tested.",
  ["pkg/words/words.go"],[("FromPrefix","pkg/words/words.go")],["words.FromPrefix"])

# ---------------------------------------------------------------- bitset
p("T01","Single-bit operations touch exactly their bit",
  "For every index 0-255, set, clear and toggle change exactly that bit to one, zero or its opposite and leave the other 255 as they were, and get reads exactly that bit; construction from indices and cloning produce a set of exactly the given bits in fresh memory.",
  I,"all 256 indices and every bitset content","Tests sample indices and contents; 2^256 contents.",
  ["pkg/bitset256/bitset256.go"],[("wmask and word access","pkg/bitset256/bitset256.go")],["Get","Set","Clear","Toggle","Clone","New"])
p("T02","Set algebra is exact and leaves operands alone",
  "Intersection and union compute the bitwise and / or of all 256 positions into fresh memory and change neither operand; equality holds exactly when all 256 bits agree; subset holds exactly when the intersection equals the first set; less-than is the strict numeric order with bit 255 most significant; the count is the number of one bits in all four words.",
  I,"every pair of bitsets","Tests compare a few pairs.",
  ["pkg/bitset256/bitset256.go"],[("word loops","pkg/bitset256/bitset256.go")],["Intersect","Union","Equals","IsSubsetOf","Less","Count"])
p("T03","Byte and hex conversion of bitsets is a bijection",
  "Converting a bitset to bytes or hex and back yields the same bitset and converting 32 bytes to a bitset and back yields the same bytes: each of the 256 bits has its own place in the 32 bytes and both directions agree on it. Byte slices of any other length and malformed hex are errors, never crashes.",
  I,"every bitset, every byte slice and every string","Tests convert a few values.",
  ["pkg/bitset256/bitset256.go"],[("AsBytes / FromBytes index arithmetic","pkg/bitset256/bitset256.go")],["AsBytes","FromBytes","AsHex","FromHex"])
p("T04","Listing the indices of a bitset is complete and ordered",
  "Listing the indices of a bitset returns each set bit's index exactly once in ascending order.",
  I,"every bitset","Tests list a few sets.",
  ["pkg/bitset256/bitset256.go"],[("Indices","pkg/bitset256/bitset256.go")],["Indices"])

# ---------------------------------------------------------------- keyaddr facade
p("F01","The wallet facade is a faithful wrapper",
  "Each facade operation returns exactly what the underlying operation gives for the decoded arguments: the text of the derived, public, child, hardened-child or master key, the user-kind address of the key's public bytes, or the text of the signature by the key's secret over the decoded message. Whenever any decoding or underlying step fails the operation reports an error and yields no wallet object (key, address or signature); parsing a key falls back to the old format only when the current format fails.",
  I,"every argument string and index","Tests cover a few vectors per function.",
  ["pkg/keyaddr/key.go","pkg/keyaddr/key_conv.go","pkg/keyaddr/signature.go","pkg/keyaddr/words.go"],[("wrappers","pkg/keyaddr")],["keyaddr.NewKey","keyaddr.FromString","keyaddr.DeriveFrom","Key.ToPublic","Key.Child","Key.HardenedChild","Key.Sign","Key.NdauAddress","Key.IsPrivate"])
p("F02","Facade index and privacy guards",
  "Through the facade, a negative child index is always an error for both plain and hardened children and never reaches derivation; signing and conversion to a private key fail for every public key; conversion to public never returns a key marked private.",
  I,"every key text and every 32-bit signed index","Tests try one negative index.",
  ["pkg/keyaddr/key.go","pkg/keyaddr/key_conv.go"],[("guards","pkg/keyaddr/key.go")],["Key.Child","Key.HardenedChild","Key.Sign","Key.ToPrivateKey","Key.ToPublicKey"])

# ---------------------------------------------------------------- whole program
p("P01","No untrusted input can crash the library",
  "No byte slice, string, index or well-formed object handed to any exported parsing, decoding, validating, deriving, verifying or converting operation of the address, base32, bitset, key, signature, words and wallet packages causes a panic (index or slice out of range, nil dereference, failed type assertion, division by zero, negative allocation).",
  I,"every input of every exported decoding or validating operation","Crashes hide in rare lengths and malformed data; no finite test set covers them and the existing one missed several.",
  ["pkg/address","pkg/b32","pkg/bip32","pkg/bitset256","pkg/key","pkg/keyaddr","pkg/signature","pkg/words"],[("length and error checks ahead of every index, slice, dereference","all packages")],["every exported entry point"])
p("E01","No failure is swallowed",
  "Whenever an operation the library calls reports failure through an error or a false ok-result, the library operation making the call does not report success as if nothing had happened; the only exceptions are fall-backs to an alternative that then succeeds (the old key format, the second accepted time format) and the display-only string form of keys that cannot be encoded.",
  ["inputs","fault_sequences"],"every call site of a fallible operation in every package, and every way it can fail","Error paths of third-party and cryptographic calls are rarely or never triggered by tests.",
  ["pkg","cmd/keyaddr"],[("error propagation","every function that returns an error")],["every exported operation returning an error"])
p("D01","Results are deterministic",
  "Apart from key and seed generation, key matching and the explicitly approximate price functions, no result depends on anything but the operation's arguments and registered algorithms: no wall clock, random source, goroutine scheduling, map iteration order, environment, memory address or floating-point rounding takes part in it, and no operation other than algorithm registration changes package-level state that later results could depend on.",
  ["inputs","schedules","configurations"],"every exported operation and every run on every platform","Tests run on one machine; divergence between nodes needs different platforms, seeds or schedules.",
  ["pkg"],[("integer-only arithmetic, no ambient inputs","all packages")],["all exported operations"])
p("X01","Secrets never reach error texts or logs",
  "No error value, panic message or log line produced by the library or the JavaScript bridge contains secret key bytes, seeds, mnemonic words, key text beyond its four-character type prefix, or anything computed from them other than lengths and the algorithm they are for.",
  I,"every failing and succeeding operation on secret material","Tests never read error texts for secrets; the quantifier is over all error and log sites and values.",
  ["pkg/key","pkg/bip32","pkg/signature","pkg/words","pkg/keyaddr","cmd/keyaddr"],[("error construction sites","all packages"),("log helpers","cmd/keyaddr/helpers.go")],["errors returned","console.log"])

# ---------------------------------------------------------------- JS bridge
p("J01","Every JavaScript call gets exactly one answer",
  "Each function exported to JavaScript, given a function as last argument, invokes that callback exactly once on every path: with an error first and null on failure, or with null first and the result on success, the result being the one of the corresponding wallet operation on the arguments in the documented order.",
  ["inputs","schedules"],"every exported bridge function and every outcome of its work","The JavaScript tests do not run here and sample one outcome per function.",
  ["cmd/keyaddr/handlers.go","cmd/keyaddr/helpers.go"],[("handleArgs then one Invoke","cmd/keyaddr/handlers.go")],["callback invocations"])
p("J02","No JavaScript call can kill the bridge",
  "No combination of argument count and argument types given to an exported JavaScript function makes the bridge panic: arguments are only indexed after their number is checked, numbers are only read after their type is checked and are range-checked before narrowing, and calls without a callback are reported to the error handler. (A callback that itself throws, and tearing the bridge down twice, are outside this.)",
  I,"every argument list of every exported bridge function","The JavaScript tests do not run here; malformed calls are not among them.",
  ["cmd/keyaddr/handlers.go","cmd/keyaddr/helpers.go"],[("handleArgs","cmd/keyaddr/helpers.go"),("type checks","cmd/keyaddr/handlers.go")],["bridge functions"])

# ---------------------------------------------------------------- arithmetic
p("M01","Checked 64-bit arithmetic never wraps silently",
  "Each checked add, subtract, multiply, divide, modulus, divide-with-remainder and multiply-then-divide operation, signed and unsigned, returns the exact mathematical result of exactly its operands when that fits in 64 bits, and zero and an error when it does not; it never returns a wrapped-around value. (The arbitrary-precision decimal library is trusted for its own products and quotients.)",
  I,"every pair or triple of 64-bit operands","Tests of these packages sample operands and cannot run here.",
  ["pkg/signed/math.go","pkg/unsigned/math.go"],[("decimal conversion with ok result","pkg/signed/math.go, pkg/unsigned/math.go")],["Add","Sub","Mul","Div","Mod","DivMod","MulDiv"])
p("M02","A zero divisor is always an error",
  "Each division, modulus, divide-with-remainder and multiply-then-divide operation returns the divide-by-zero error, and no value, exactly when its divisor is zero.",
  I,"every operand","Tests sample operands.",
  ["pkg/signed/math.go","pkg/unsigned/math.go"],[("zero guard","pkg/signed/math.go, pkg/unsigned/math.go")],["Div","Mod","DivMod","MulDiv"])
p("M03","Parsing an amount never wraps around",
  "Parsing an ndau amount, a duration, a rate or a dollar price from text either returns the exact value or an error; a number too large for 64 bits after scaling is an error and never turns into a different amount.",
  I,"every text","Tests parse small amounts.",
  ["pkg/types/ndau.go","pkg/types/duration.go","pkg/eai/rate.go","pkg/pricecurve/nanocent.go"],[("scaling after ParseUint/ParseInt","pkg/types, pkg/eai, pkg/pricecurve")],["ParseNdau","ParseDuration","ParseRate","ParseDollars"])
p("M04","The fixed-point exponential never crashes or wraps",
  "The fixed-point exponential rejects fractions outside 0 to 1 and too-large denominators before doing any arithmetic that could overflow, never divides by zero, and terminates.",
  I,"every numerator and denominator","Tests use small fractions; the crash needs a fraction near 1.",
  ["pkg/signed/exp.go","pkg/unsigned/exp.go"],[("input gate and series loop","pkg/signed/exp.go, pkg/unsigned/exp.go")],["ExpFrac"])
p("M05","Price and logarithm tables hold the values of their formulas",
  "The phase-1 price of sale block b is 10^11 * 2^(14*b/9999) nanocents, exact to the unit in blocks 0 and 1 and elsewhere up to two units for each truncating multiplication since the last doubling point 2^n; only the explicitly named legacy function uses 10000 in place of 9999; every amount within a block has the same price; and the integer logarithm of every 64-bit number x is the largest i with e^i <= x (-1 for 0).",
  ["inputs","configurations"],"every table entry and every 64-bit number","Tests compare a few prices.",
  ["pkg/pricecurve/pricecurve.go","pkg/unsigned/log.go"],[("constant tables","pkg/pricecurve/pricecurve.go phase1, pkg/unsigned/log.go bounds")],["PriceAtUnit","PriceAtUnit9999","PriceAtUnit10000","LnInt"])
p("M06","Timestamp arithmetic saturates",
  "Adding a duration to, or subtracting one from, a non-negative timestamp gives the exact sum when it lies between 0 and the maximum timestamp, and otherwise the bound on the side it left.",
  I,"every timestamp and duration","Tests sample a few.",
  ["pkg/types/timestamp.go"],[("wrap detection","pkg/types/timestamp.go Add/Sub")],["Timestamp.Add","Timestamp.Sub"])
p("M07","EAI, price-curve, exponential and rounding results are numerically accurate",
  "Computed EAI, rates over time, prices and exponentials equal the documented formulas to the stated precision, and EAI over adjacent periods composes.",
  I,"every balance, time, rate table and lock","Numeric.",
  ["pkg/eai/eai.go","pkg/eai/rate.go","pkg/pricecurve/pricecurve.go","pkg/signed/exp.go","pkg/unsigned/exp.go"],[("fixed-point series","pkg/eai")])
p("M08","Text forms of amounts, durations, rates and times round-trip",
  "Printing an ndau amount, duration, rate, timestamp or price and parsing the text gives back the same value.",
  I,"every value","Numeric formatting over all values.",
  ["pkg/types","pkg/eai/rate.go"],[("String / Parse pairs","pkg/types, pkg/eai")])
p("M09","Rates over time follow the rate table",
  "The rate of a point in time is that of the last row of the (increasing) rate table that starts at or before it, and zero before the first row. Slicing a table gives pieces without negative durations that add up to exactly the period asked for, each with the rate that holds throughout it; from the freeze point on, the rate at the freeze point. Nothing in between crashes.",
  I,"every table, point, period, offset and freeze","Tests use one table and a few periods.",
  ["pkg/eai/rate.go"],[("table walk and row arithmetic","pkg/eai/rate.go RateAt/SliceF")],["RateTable.RateAt","RateTable.Slice","RateTable.SliceF"])
p("M10","The current rate accounts for the lock",
  "An account's current rate is the table's rate at its age; at its age plus the notice period, plus the bonus, while it is locked and not notified; at its age plus the time until unlocking, plus the bonus, while it is notified; and from the unlocking time on the lock has no effect.",
  I,"every age, time, table and lock","Tests sample each case.",
  ["pkg/eai/eai.go"],[("lock states","pkg/eai/eai.go CalculateEAIRate")],["CalculateEAIRate"])
p("M11","Amounts and timestamps add and compare exactly",
  "Adding or subtracting amounts gives the exact result, or an error exactly when it does not fit; comparing amounts or timestamps orders them as numbers, at any distance; the absolute value of an amount (other than the smallest number) and the time between non-negative timestamps are exact.",
  I,"every pair of amounts or timestamps","Tests sample a few.",
  ["pkg/types/ndau.go","pkg/types/timestamp.go"],[("wrappers and comparisons","pkg/types/ndau.go, pkg/types/timestamp.go")],["Ndau.Add","Ndau.Sub","Ndau.Abs","Ndau.Compare","Timestamp.Compare","Timestamp.Since"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
