From 7195e865b8fb34a8e7caa08c2e43efd34f074171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 01/25] fix: reject addresses containing base32 padding or line
 breaks

They decode to fewer than 30 bytes; the shortest ones made Validate panic.
---
 pkg/address/address_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..6aaeffe 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,11 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// padding and line breaks are not address characters, but base32 decoding
+	// accepts them; they show up as missing bytes
+	if len(h) != AddrLength*5/8 {
+		return emptyA(), newError("not a valid base32 string")
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From 1ca5ce608ee675ed338f649cd05cb3e8cb1fab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 02/25] fix: keep the canonical form when unmarshaling address
 text

Upper-case text was validated in lower case but stored as it came.
---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..7e8becd 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From 58c9c0146d010526f099713ee86a641de7887244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 03/25] fix: do not dereference a nil algorithm when a
 signature fails to unmarshal

---
 pkg/signature/signature.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..f2d7aa8 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,15 +64,16 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
-	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
-		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
+	if err != nil {
+		return err
 	}
-	if err == nil {
-		signature.algorithm = al
-		signature.data = b
+	ss := al.SignatureSize()
+	if ss >= 0 && len(b) != ss {
+		return fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
 	}
-	return err
+	signature.algorithm = al
+	signature.data = b
+	return nil
 }
 
 // Verify is a convenience function to verify from a signature
-- 
2.43.0


From 5321605362fca5c7d8c46e6c1517660105dfbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 04/25] fix: check the signature size in Signature.UnmarshalMsg

Unmarshal, UnmarshalText and the keys' UnmarshalMsg already do.
---
 pkg/signature/signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index f2d7aa8..ea4c8eb 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -95,6 +95,12 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err == nil {
+		ss := al.SignatureSize()
+		if ss >= 0 && len(b) != ss {
+			err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+		}
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From 9250c01da2bf1d2bd59ad930bcad5ed008dc8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 05/25] fix: return an error for unknown algorithm ids instead
 of panicking

---
 pkg/signature/algorithm.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..ee9fb63 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -11,6 +11,7 @@ package signature
 
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -84,6 +85,15 @@ func cloneAl(original Algorithm) Algorithm {
 	return reflect.New(val.Type()).Interface().(Algorithm)
 }
 
+// algorithmFor returns a fresh instance of the algorithm registered under an id
+func algorithmFor(id AlgorithmID) (Algorithm, error) {
+	al, ok := idMap[id]
+	if !ok {
+		return nil, fmt.Errorf("unknown algorithm id %d", id)
+	}
+	return cloneAl(al), nil
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
@@ -95,7 +105,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	al, err = algorithmFor(container.Algorithm)
+	if err != nil {
+		return nil, nil, err
+	}
+	return al, container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +118,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	al, err = algorithmFor(container.Algorithm)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	return al, container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
-- 
2.43.0


From b806e3c4279b265b64b0bfefbbb4bc6d32855cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 06/25] fix: do not panic on key text shorter than its prefix

---
 pkg/signature/private_key.go | 3 +++
 pkg/signature/public_key.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..0d79685 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,6 +124,9 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("private key must begin with %q", PrivateKeyPrefix)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
 	}
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..718a68f 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,6 +136,9 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("public key must begin with %q", PublicKeyPrefix)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
 	}
-- 
2.43.0


From 4495bb2d2ebd43890bacf25d5a727ba965fb43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 07/25] fix: do not keep stale data when unpacking an empty key

---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..49825b7 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,8 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		key.key = nil
+		key.extra = nil
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From 08637e3eb42aefb1a3c1e7f109d57f5757eeea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 08/25] fix: only accept checksums of the width AddChecksum
 produces

A width of 0 skipped the check altogether, and widths above 28 panicked.
---
 pkg/signature/checksum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..0167433 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -85,6 +85,9 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 		return nil, false
 	}
 	message = checked[1:end]
+	if n != checksumWidth(len(message)) {
+		return nil, false
+	}
 
 	sumActual := checked[end:]
 	sumExpect := cksumN(message, n)
-- 
2.43.0


From e292326c8c1e04e21b7e34e3a2c94ee3efd0f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 09/25] fix: IsZero must recognize a deserialized null
 algorithm

Deserialized algorithms are pointers, which never equal the Null value.
---
 pkg/signature/keybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 49825b7..869e2b6 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -239,5 +239,5 @@ func (key *keyBase) Zeroize() {
 
 // IsZero is true when this key is the zero value
 func (key keyBase) IsZero() bool {
-	return (key.algorithm == nil || key.algorithm == Null) && len(key.key) == 0 && len(key.extra) == 0
+	return SameAlgorithm(key.algorithm, Null) && len(key.key) == 0 && len(key.extra) == 0
 }
-- 
2.43.0


From 9ff3f2b7101da43859ded99a14e203dfd8433915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 10/25] fix: count the length byte and the extra data in key
 Msgsize

---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 2 +-
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 869e2b6..3f0ec6f 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 0d79685..54f2f46 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 718a68f..a06b468 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From 5f0d55f9095e85b99c026cf466efa21174b17771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 11/25] fix: verifying a zero-valued signature must not panic

NameOf now treats a nil algorithm as Null, as idOf and keyBase do.
---
 pkg/signature/id_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..19c55df 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -71,6 +71,10 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	// if the algorithm is nil, then it's the Null algorithm
+	if al == nil {
+		al = Null
+	}
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
-- 
2.43.0


From f81fba83c2ac8d4a1dd66eb9993331da3b7b502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 12/25] fix: registered algorithms must be found under their
 own id

Pointer types were registered under an empty name and never found, and a
name shared by two ids resolved to either one, depending on map order.
---
 pkg/signature/id_map.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 19c55df..c4f0073 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -54,6 +54,14 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 		}
 	}
 
+	name := NameOf(al)
+	if len(name) == 0 {
+		return errors.New("anonymous types are not Algorithms")
+	}
+	if other, exists := idNameMap[name]; exists && other != id {
+		return fmt.Errorf("Algorithm name %s already in use by id %d", name, other)
+	}
+
 	idMap[id] = al
 	buildNameMap()
 	return nil
@@ -65,7 +73,7 @@ func buildNameMap() {
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		idNameMap[NameOf(example)] = id
 	}
 }
 
-- 
2.43.0


From a94cccc26c1e3c3588340096b8a8eca79a46c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 13/25] fix: ExtendedKey.Zero must drop the cached public key

A private key decoded into a zeroed key that had cached its public key kept
serving the zeroed bytes as its public key.
---
 pkg/key/extendedkey.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..6586fc8 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -211,8 +211,9 @@ func (k *ExtendedKey) Depth() uint8 {
 // Since the fingerprint is 3 bytes, we set the high byte to 0 before returning it
 // as a uint32
 func (k *ExtendedKey) ParentFingerprint() uint32 {
-	b := append([]byte{0}, k.parentFP...)
-	return binary.BigEndian.Uint32(b)
+	var b [4]byte
+	copy(b[1:], k.parentFP)
+	return binary.BigEndian.Uint32(b[:])
 }
 
 // Child returns a derived child extended key at the given index.  When this
@@ -516,6 +517,9 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
+	k.chainCode = nil
+	k.parentFP = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From ed3bdda58dfb5589daff45807dd92362a3a18d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 14/25] fix: keys must not share memory with the keys they were
 made from

Zeroing a private key also zeroed the public key and the signature keys made
from it, and vice versa.
---
 pkg/key/extendedkey.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 6586fc8..2b1721d 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -390,7 +390,7 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	return NewExtendedKey(clone(k.PubKeyBytes()), clone(k.chainCode), clone(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -498,6 +498,11 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 	return nil
 }
 
+// clone copies a slice, so that zeroing one key does not affect another
+func clone(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 // zero sets all bytes in the passed slice to zero.  This is used to
 // explicitly clear private key material from memory.
 func zero(b []byte) {
@@ -561,6 +566,8 @@ func (k *ExtendedKey) Bytes() []byte {
 
 // FromSignatureKey attempts to construct an ExtendedKey from a signature.Key instance
 func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
+	// copy before zeroing: key may have been made from k
+	keyBytes, extraBytes := clone(key.KeyBytes()), clone(key.ExtraBytes())
 	k.Zero()
 
 	if signature.NameOf(key.Algorithm()) != signature.NameOf(signature.Secp256k1) {
@@ -573,8 +580,8 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
-	err = k.parseExtra(key.ExtraBytes())
+	k.key = keyBytes
+	err = k.parseExtra(extraBytes)
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
 	}
@@ -594,11 +601,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From 2c463315b9931175c172133d852c3106561c4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 15/25] fix: HardenedChild must not wrap around to a
 non-hardened index

---
 pkg/key/extendedkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 2b1721d..d079217 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -400,6 +400,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		return nil, errors.New("hardened child index out of range")
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From a1c09c62bfd5e26b141ceb552383b10954f8e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 16/25] fix: words.ToBytes must only accept lengths that
 FromBytes produces

It also tried lengths leaving less than 4 bits of checksum: none at all for
24 words, so any 24 words were accepted. An empty list of words panicked.
---
 pkg/words/words.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..122f735 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -198,6 +198,10 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// if a shorter version (with a longer crc) is possible, test it first
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
+		// skip lengths that FromBytes would not have encoded in this many words
+		if nextMultipleOf(rb*8+4, 11) != nbits {
+			continue
+		}
 		runlen := nbits - rb*8
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
-- 
2.43.0


From 580b7e6159ce152fbf28e19a24dd9833fdb63773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 17/25] fix: correct the LnInt bounds computed with too little
 precision

The entries for e^36 and e^38 to e^44 were off, by up to 56.
---
 pkg/unsigned/log.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..26ab230 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -15,11 +15,12 @@ var bounds []uint64
 func init() {
 	// Table was constructed in python:
 	//
-	// >>> from math import ceil, exp
+	// >>> from mpmath import mp, ceil, exp
+	// >>> mp.dps = 60 # float precision is not enough from e^36 on
 	// >>> i = 0
 	// >>> bounds = []
 	// >>> while exp(i) <= 2**64:
-	// ...     bounds.append(ceil(exp(i))-1)
+	// ...     bounds.append(int(ceil(exp(i)))-1)
 	// ...     i += 1
 	// ...
 	// True
@@ -29,9 +30,9 @@ func init() {
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From b5ccf63e81ac458958f5ad195209fd9fffef38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 18/25] fix: ExpFrac must not overflow or divide by zero

For fractions near 1 the factorial wrapped around, to 0 at 66!, and scaling
the arguments could wrap before they were checked.
---
 pkg/signed/exp.go   | 23 +++++++++++++++++------
 pkg/unsigned/exp.go | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..6007f22 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	if denominator > (math.MaxInt64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator || numerator < 0 || denominator < 0 {
+	if numerator > denominator || numerator < 0 || denominator <= 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -65,8 +65,19 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
+		// if the next factorial exceeds the product, this and all later terms are 0
+		if product/fact < i {
+			break
+		}
 		fact *= i
-		sum += product / fact
+		sum, err = Add(sum, product/fact)
+		if err != nil {
+			return 0, err
+		}
+	}
+	sum, err = Add(sum, rounder/2)
+	if err != nil {
+		return 0, err
 	}
-	return (sum + rounder/2) / rounder, nil
+	return sum / rounder, nil
 }
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..456d568 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	if denominator > (math.MaxUint64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator {
+	if numerator > denominator || denominator == 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -65,8 +65,19 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		// if the next factorial exceeds the product, this and all later terms are 0
+		if product/fact < i {
+			break
+		}
 		fact *= i
-		sum += product / fact
+		sum, err = Add(sum, product/fact)
+		if err != nil {
+			return 0, err
+		}
+	}
+	sum, err = Add(sum, rounder/2)
+	if err != nil {
+		return 0, err
 	}
-	return (sum + rounder/2) / rounder, nil
+	return sum / rounder, nil
 }
-- 
2.43.0


From fae67cfc66946bfbdc2560b830906721da966628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 19/25] fix: ParseNdau must not wrap around

---
 pkg/types/ndau.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..9271078 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -124,12 +124,16 @@ func ParseNdau(s string) (Ndau, error) {
 	if wholes == "" {
 		wholes = "0"
 	}
-	whole, err := strconv.ParseUint(wholes, 10, 64)
+	whole, err := strconv.ParseInt(wholes, 10, 64)
 	if err != nil {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
-	out := Ndau(whole) * constants.NapuPerNdau
+	napu, err := signed.Mul(whole, constants.NapuPerNdau)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing ndau")
+	}
+	out := Ndau(napu)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -142,11 +146,14 @@ func ParseNdau(s string) (Ndau, error) {
 			}
 		}
 
-		frac, err := strconv.ParseUint(fracs, 10, 64)
+		frac, err := strconv.ParseInt(fracs, 10, 64)
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing frac component")
+		}
+		out, err = out.Add(Ndau(frac))
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
 	}
 
 	return out, nil
-- 
2.43.0


From 9d9e7fc4a2d2b7237098250666cc4c2a72a242e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 20/25] fix: ParseDuration must not wrap around

---
 pkg/types/duration.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..95fa36c 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -68,13 +68,21 @@ func ParseDuration(s string) (Duration, error) {
 	}
 
 	duration := Duration(0)
-	addTime := func(name string, unit uint64) error {
+	addTime := func(name string, unit int64) error {
 		if result[name] != "" {
-			value, err := strconv.ParseUint(result[name], 10, 64)
+			value, err := strconv.ParseInt(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			value, err = signed.Mul(value, unit)
+			if err != nil {
+				return err
+			}
+			sum, err := signed.Add(int64(duration), value)
+			if err != nil {
+				return err
+			}
+			duration = Duration(sum)
 		}
 		return nil
 	}
-- 
2.43.0


From f832a70f78496bdcd373677b310de5856bf397cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 21/25] fix: ParseRate must not wrap around

---
 pkg/eai/rate.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..d2dd71a 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -20,6 +20,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/signed"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/pkg/errors"
 )
@@ -100,11 +101,14 @@ func ParseRate(s string) (Rate, error) {
 	if !ok {
 		return Rate(0), errors.New("failed to parse rate")
 	}
-	pct, err := strconv.ParseUint(pcts, 10, 64)
+	pct, err := strconv.ParseInt(pcts, 10, 64)
+	if err != nil {
+		return Rate(0), errors.Wrap(err, "parsing pct")
+	}
+	out, err := signed.Mul(int64(RateFromPercent(1)), pct)
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
-	out := RateFromPercent(1) * Rate(pct)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -117,14 +121,17 @@ func ParseRate(s string) (Rate, error) {
 			}
 		}
 
-		frac, err := strconv.ParseUint(fracs, 10, 64)
+		frac, err := strconv.ParseInt(fracs, 10, 64)
+		if err != nil {
+			return Rate(0), errors.Wrap(err, "parsing frac")
+		}
+		out, err = signed.Add(out, frac)
 		if err != nil {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
-		out += Rate(frac)
 	}
 
-	return out, nil
+	return Rate(out), nil
 }
 
 // RateFromPercent returns a Rate whose value is that of the input, as percent.
-- 
2.43.0


From 99ecc42d2fb5d749a7633d10b9396d73e03b0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 22/25] fix: ParseDollars must not wrap around

---
 pkg/pricecurve/nanocent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..0fe09ed 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
 
@@ -81,7 +82,15 @@ func ParseDollars(dollars string) (Nanocent, error) {
 	}
 
 	// add it all up
-	nc := Nanocent(d*Dollar + c)
+	d, err = signed.Mul(d, Dollar)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing dollars as integer: "+submatches["dollars"])
+	}
+	d, err = signed.Add(d, c)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing dollars as integer: "+submatches["dollars"])
+	}
+	nc := Nanocent(d)
 
 	// handle negatives
 	if submatches["neg"] == "-" {
-- 
2.43.0


From b22c5990869be66c1fb52e806333adee9e493347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 23/25] fix: calling a keyaddr function without arguments must
 not panic

---
 cmd/keyaddr/handlers.go | 5 ++++-
 cmd/keyaddr/helpers.go  | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..d0354dd 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -40,7 +40,10 @@ func exit(this js.Value, args []js.Value) interface{} {
 
 // errorHandler is a javascript overrideable error handler that prints to the console.
 func errorHandler(this js.Value, args []js.Value) interface{} {
-	msg := args[0]
+	msg := js.Undefined()
+	if len(args) > 0 {
+		msg = args[0]
+	}
 	js.Global().Get("console").Call("log", fmt.Sprintf("WASM Keyaddr Error: %s", msg))
 	return nil
 }
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..80e8554 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -23,6 +23,13 @@ import (
 // when this function returns err != nil, the handler should end asap.
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
+	// check that there is a callback
+	if len(args) == 0 {
+		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
+		dispatchError(msg)
+		return js.Value{}, []js.Value{}, errors.New(msg)
+	}
+
 	// check that callback is a function
 	cb := args[len(args)-1]
 	if cb.Type() != js.TypeFunction {
-- 
2.43.0


From 157b0af7b7934421088c784039731d8cb80b5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 24/25] fix: wordsFromPrefix must not panic if max is not a
 number

---
 cmd/keyaddr/handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index d0354dd..f5ea693 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -154,6 +154,12 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
+
 		max := remainder[2].Int()
 
 		// do work
-- 
2.43.0


From d74dc8d6eb60aec6498f3a5ed6aa062682928c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 25/25] fix: b32.Check answers false for a checksum that is not
 two bytes long instead of panicking

---
 pkg/b32/checksum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/b32/checksum.go b/pkg/b32/checksum.go
index 1fa1a56..d1cfe69 100644
--- a/pkg/b32/checksum.go
+++ b/pkg/b32/checksum.go
@@ -36,6 +36,9 @@ func Checksum24(buf []byte) []byte {
 // Check accepts an array of bytes and a 2-byte checksum and returns true if the checksum
 // of b is equal to the value passed in.
 func Check(b []byte, ckb []byte) bool {
+	if len(ckb) != 2 {
+		return false
+	}
 	ck := crc16.Checksum(b, ndauTable)
 	return byte((ck>>8)&0xFF) == ckb[0] && byte(ck&0xFF) == ckb[1]
 }
-- 
2.43.0

