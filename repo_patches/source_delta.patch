From 29208a06fed561f5da5efb4e3b97696252ac9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 01/31] fix: sm3: accept empty writes instead of panicking

---
 sm3/sm3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..5ee7f9d 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -86,6 +86,9 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
 	_ = p[0]
 	inLen := len(p)
 
-- 
2.43.0


From bd6be77133c1418945ecd08a2ec267b63ebe690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 02/31] fix: sm3: Sum must not change the state of the hasher

---
 sm3/sm3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 5ee7f9d..e3a4fdc 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,6 +39,9 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
+	// work on a copy, so that the caller can keep writing and summing
+	saved := *digest
+	digest = &saved
 	d1 := digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
-- 
2.43.0


From 21df81af3d49a341395c11a148c1dbe044ebd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 03/31] fix: sm3: a single write of 2 GiB or more overflowed
 the word offset

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index e3a4fdc..154e353 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -111,7 +111,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p[i:i+4], 0)
 	}
 
 	for i < inLen {
-- 
2.43.0


From b6d83456210570f452034a292c8c32ca4ea152aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 04/31] fix: sm2: key exchange panicked for keys of more than
 128 bits

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From 3c9d5f78b0e113a700185c72e49d422b136e1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 05/31] fix: sm3: hash block size is 64 bytes, HMAC-SM3 was
 wrong

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 154e353..ab0d3d9 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -57,7 +57,7 @@ func (digest *sm3Digest) Size() int {
 // of data, but it may operate more efficiently if all writes
 // are a multiple of the block size.
 func (digest *sm3Digest) BlockSize() int {
-	return BlockSize
+	return BlockSize * 4 // BlockSize counts 32-bit words
 }
 
 func (digest *sm3Digest) Reset() {
-- 
2.43.0


From 2e09c3186157149b333b9c1e80d561723dbc8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 06/31] fix: sm2: encrypting an empty message never returned

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..6711ea8 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -251,6 +251,9 @@ func kdf(digest hash.Hash, c1x *big.Int, c1y *big.Int, encData []byte) {
 
 func notEncrypted(encData []byte, in []byte) bool {
 	encDataLen := len(encData)
+	if encDataLen == 0 {
+		return false // there is nothing to encrypt
+	}
 	for i := 0; i != encDataLen; i++ {
 		if encData[i] != in[i] {
 			return false
-- 
2.43.0


From f1a2a801acc8117bd9dc05536bf174766f366833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 07/31] fix: sm2: decrypting malformed cipher text panicked

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6711ea8..731c9f7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -310,9 +310,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("invalid cipher text: too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil || c1y == nil {
+		return nil, errors.New("invalid cipher text: C1 is not a point of the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From fa1b611ed5c2a6e04e8a1c85c9621e2ce0b1a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 08/31] fix: sm2: cipher text DER codec panicked on or misread
 malformed input

---
 sm2/sm2.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 731c9f7..40a5164 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -356,6 +356,9 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength || in[0] != UnCompress {
+		return nil, errors.New("invalid cipher text")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
@@ -393,6 +396,21 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// checkCipher checks the fields of a decoded cipher text, and that in is nothing but its DER encoding
+func checkCipher(in []byte, cipher interface{}, x, y *big.Int, c3 []byte) error {
+	if x.Sign() < 0 || x.BitLen() > BitSize || y.Sign() < 0 || y.BitLen() > BitSize || len(c3) != sm3.DigestLength {
+		return errors.New("invalid cipher text")
+	}
+	der, err := asn1.Marshal(cipher)
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, in) {
+		return errors.New("invalid cipher text: not DER")
+	}
+	return nil
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -400,6 +418,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipher(in, *cipher, cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -424,6 +445,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if err = checkCipher(in, *cipher, cipher.X, cipher.Y, cipher.C3); err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From ad4430e86bd69b7a35a626ad07b885a7cd0c4fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 09/31] fix: sm2: signatures with trailing bytes or elements
 were accepted

---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 40a5164..47cd541 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -515,6 +515,13 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	der, err := MarshalSign(sm2Sign.R, sm2Sign.S)
+	if err != nil {
+		return nil, nil, err
+	}
+	if !bytes.Equal(der, sign) {
+		return nil, nil, errors.New("signature is not canonical DER")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 2627ac00dd473f2e1659fc29a56cec486f588303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 10/31] fix: sm2: public keys off the curve caused panics, the
 point at infinity was accepted

---
 sm2/sm2.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 47cd541..f04bed4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -119,6 +119,9 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	publicKey.Curve = sm2P256V1
 	publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])
 	publicKey.Y = new(big.Int).SetBytes(bytes[KeyBytes:])
+	if !publicKey.Curve.IsOnCurve(publicKey.X, publicKey.Y) {
+		return nil, errors.New("Public key is not a point of the curve")
+	}
 	return publicKey, nil
 }
 
@@ -263,6 +266,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not a point of the curve")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -581,6 +587,9 @@ func Sign(priv *PrivateKey, userId []byte, in []byte) ([]byte, error) {
 }
 
 func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
 	intOne := new(big.Int).SetInt64(1)
 	if r.Cmp(intOne) == -1 || r.Cmp(pub.Curve.N) >= 0 {
 		return false
-- 
2.43.0


From 90060f8ee8712c0c8a9701ac6056ef81f8deb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 11/31] fix: sm2: private keys 0 and n-1 were generated,
 imported and used; signing with n-1 never returned

---
 sm2/sm2.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f04bed4..5faa622 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -96,6 +96,12 @@ func GetSm2P256V1() P256V1Curve {
 	return sm2P256V1
 }
 
+// inRange reports whether the private key is in [1, n-2]; for n-1 no signature exists
+func (pri *PrivateKey) inRange() bool {
+	max := new(big.Int).Sub(pri.Curve.N, big.NewInt(1))
+	return pri.D.Sign() > 0 && pri.D.Cmp(max) < 0
+}
+
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
 	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
 	if err != nil {
@@ -104,6 +110,9 @@ func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(priv)
+	if !privateKey.inRange() {
+		return GenerateKey(rand)
+	}
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -132,6 +141,9 @@ func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(bytes)
+	if !privateKey.inRange() {
+		return nil, errors.New("Private key must be in [1, n-2]")
+	}
 	return privateKey, nil
 }
 
@@ -532,6 +544,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !priv.inRange() {
+		return nil, nil, errors.New("private key must be in [1, n-2]")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From dab3b7e363a0f768ebcbb36b097af05afc4b900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 12/31] fix: sm2: user ids of 8192 bytes and more were hashed
 with a wrapped length

---
 sm2/keyexchange.go | 4 ++++
 sm2/sm2.go         | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..2ffc529 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,10 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if len(selfId) > maxUserIdLen || len(otherId) > maxUserIdLen {
+		return nil, errors.New("user id is too long")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
diff --git a/sm2/sm2.go b/sm2/sm2.go
index 5faa622..e5087a5 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -38,6 +38,9 @@ var (
 		0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38}
 )
 
+// the bit length of a user id is hashed as a 16-bit number
+const maxUserIdLen = 65535 / 8
+
 var sm2P256V1 P256V1Curve
 
 type P256V1Curve struct {
@@ -547,6 +550,9 @@ func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err er
 	if !priv.inRange() {
 		return nil, nil, errors.New("private key must be in [1, n-2]")
 	}
+	if len(userId) > maxUserIdLen {
+		return nil, nil, errors.New("user id is too long")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
@@ -613,6 +619,9 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
+	if len(userId) > maxUserIdLen {
+		return false
+	}
 	digest := sm3.New()
 	if userId == nil {
 		userId = sm2SignDefaultUserId
-- 
2.43.0


From 3111716823cbeb95107ef66acb4296a661160b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 13/31] fix: sm2: key exchange accepted a shared point at
 infinity and panicked on invalid points

---
 sm2/keyexchange.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 2ffc529..110b09c 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -122,6 +122,11 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("user id is too long")
 	}
 
+	curve := selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("public key of the other side is not a point of the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
@@ -130,6 +135,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point is at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From e77eb6a435e9ea533094e7f5a2a8997ec3459794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 14/31] fix: sm2: key exchange hashed coordinates without their
 leading zero bytes

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 110b09c..a795bf4 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From 767a88952df72cfd041131863145556e0907b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 15/31] fix: util: padding overwrote memory behind the given
 slice

---
 util/padding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..8c8f7f5 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,6 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
+	src = src[:len(src):len(src)] // never write behind the caller's slice
 	return append(src, padtext...)
 }
 
@@ -17,6 +18,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
+	src = src[:len(src):len(src)] // never write behind the caller's slice
 	return append(src, padtext...)
 }
 
-- 
2.43.0


From 8bbb56abf1c172905bbbf724c83b1cc17e22cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 16/31] fix: util: PKCS5UnPadding panicked on malformed input

---
 util/padding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index 8c8f7f5..32490bd 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -11,7 +11,13 @@ func PKCS5Padding(src []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(src []byte) []byte {
 	length := len(src)
+	if length == 0 {
+		return nil
+	}
 	unpadding := int(src[length-1])
+	if unpadding > length {
+		return nil
+	}
 	return src[:(length - unpadding)]
 }
 
-- 
2.43.0


From ed242f8f93788abf8f3ada9c09a22efb9323f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 17/31] fix: sm4: CBC with an iv of wrong length panicked

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0203757 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From 200b095f0c515a065a9bb7412212b5f711ed7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 18/31] fix: cert: creating a request added its extensions to
 the caller's template

---
 sm2/cert/gmx509.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..0347f9c 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -98,6 +98,14 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 
 	var attributes []pkix.AttributeTypeAndValueSET
 	attributes = append(attributes, template.Attributes...)
+	// Copy the values, which are extended below: the template belongs to the caller.
+	for i := range attributes {
+		values := make([][]pkix.AttributeTypeAndValue, len(attributes[i].Value))
+		for j, value := range attributes[i].Value {
+			values[j] = append([]pkix.AttributeTypeAndValue(nil), value...)
+		}
+		attributes[i].Value = values
+	}
 
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
-- 
2.43.0


From defa29faa7a5fc0c0cc0b137a7dd124f9c8a9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 19/31] fix: cert: an unknown extended key usage in a template
 caused a panic

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 0347f9c..548ab0c 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -731,7 +731,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 75ead7ab44a8f41b52a82fbc58ee5b15ec1444e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 20/31] fix: cert: verifying a request with another kind of
 public key panicked

---
 sm2/cert/gmx509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 548ab0c..3a87f2e 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -542,7 +542,10 @@ func VerifyDERCSRSign(asn1Data []byte, userId []byte) (bool, error) {
 }
 
 func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
-	pub := csr.PublicKey.(*sm2.PublicKey)
+	pub, ok := csr.PublicKey.(*sm2.PublicKey)
+	if !ok {
+		return false
+	}
 	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)
 }
 
-- 
2.43.0


From 5be6bc797f8872cac684b9c10bbc04f702ee0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 21/31] fix: cert: certificates whose signed part names another
 signature algorithm were accepted

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 3a87f2e..8a2082d 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1098,6 +1098,10 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 		return nil, errors.New("x509: illegal publick key algorithm OID")
 	}
 
+	if !oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) {
+		return nil, errors.New("x509: inner and outer signature algorithm identifiers don't match")
+	}
+
 	var err error
 	out.PublicKey, err = parsePublicKey(&in.TBSCertificate.PublicKey)
 	if err != nil {
-- 
2.43.0


From 1ee730fddf0db88a145fd7c96c5706f848dc5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 22/31] fix: cert: domains with a leading empty label were
 accepted

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 8a2082d..8d5efe2 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -475,6 +475,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// A leading period makes an empty label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From e4e2779206853e609703fac1ba604459c48474a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 23/31] fix: cryptobyte: booleans were read with the tag of
 integers, optional ones twice

---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From eba6ce5dbdf39ee306b307a1fb22ef2c5d007c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 24/31] fix: cryptobyte: AddASN1BigInt panicked for -1

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 146264614afa72961b1dd24ebc2bb35a1141c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 25/31] fix: cryptobyte: object identifiers with padded
 components were accepted

---
 cryptobyte/asn1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..91f4002 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -382,6 +382,9 @@ func (s *String) readBase128Int(out *int) bool {
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if ret == 0 && b == 0x80 {
+			return false // not minimally encoded
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From c2de49985f4d58e100ac7eda2529b7c4c57a82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 26/31] fix: cryptobyte: skipping or reading a negative number
 of bytes panicked

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..cf7ac86 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From f547fab1912a9e517706d1c2ec84d94b8792ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 27/31] fix: cryptobyte: fixed-size builders lost
 length-prefixed contents and overflow errors

---
 cryptobyte/builder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..e727e85 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return // the prefix does not fit into a fixed-size buffer
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
@@ -251,6 +254,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
@@ -268,9 +275,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // Longer now, and child may have reallocated it.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From e133406de039b8d1b71239bf695edfb6754b0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 28/31] fix: omit the extensions field of a certificate without
 extensions

RFC 5280 defines Extensions as SEQUENCE SIZE (1..MAX) OF Extension: a
certificate issued from a template that asks for none must not contain
an empty one.
---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 8d5efe2..ea19677 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -986,7 +986,7 @@ type tbsCertificate struct {
 	PublicKey          publicKeyInfo
 	UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
 	SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
-	Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
+	Extensions         []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
 }
 
 type TBSCertificate tbsCertificate
-- 
2.43.0


From ee5e8449a591c2677f4d86b79f3ee6bef44c5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 29/31] fix: CreateCertificateInfo handed out the package's own
 object identifiers, so that overwriting a result changed every later
 certificate

---
 sm2/cert/gmx509.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index ea19677..9e20948 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -961,6 +961,11 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 	// Adding another extension here? Remember to update the maximum number
 	// of elements in the make() at the top of the function.
 
+	// The identifiers are handed out with the result: never share the package's own.
+	for i := range ret[:n] {
+		ret[i].Id = append(asn1.ObjectIdentifier(nil), ret[i].Id...)
+	}
+
 	return append(ret[:n], template.ExtraExtensions...), nil
 }
 
@@ -1023,7 +1028,7 @@ func CreateCertificateInfo(template, parent *x509.Certificate, csr *x509.Certifi
 	}
 
 	var sigAlgo pkix.AlgorithmIdentifier
-	sigAlgo.Algorithm = oidSignatureSM3WithSM2
+	sigAlgo.Algorithm = append(asn1.ObjectIdentifier(nil), oidSignatureSM3WithSM2...)
 	var subjectPubKeyInfo publicKeyInfo
 	rest, err := asn1.Unmarshal(csr.RawSubjectPublicKeyInfo, &subjectPubKeyInfo)
 	if err != nil {
-- 
2.43.0


From 58c85aecac9bfd1fef941f01f8f2061174dfbc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 30/31] fix: parse certificates with a CRL distribution point
 name relative to the issuer

nameRelativeToCRLIssuer is one RelativeDistinguishedName, implicitly tagged, not an RDNSequence; such certificates
were refused.
---
 sm2/cert/gmx509.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 9e20948..439348a 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -682,8 +682,8 @@ type policyInformation struct {
 }
 
 type distributionPointName struct {
-	FullName     []asn1.RawValue  `asn1:"optional,tag:0"`
-	RelativeName pkix.RDNSequence `asn1:"optional,tag:1"`
+	FullName     []asn1.RawValue                   `asn1:"optional,tag:0"`
+	RelativeName pkix.RelativeDistinguishedNameSET `asn1:"optional,tag:1"`
 }
 
 // RFC 5280, 4.2.1.14
-- 
2.43.0


From 39d4825660ff87489aa3b370685d795db21a8bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 31/31] fix: refuse signatures that are not a whole number of
 bytes, which let a certificate or request be altered and still verify

---
 sm2/cert/gmx509.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 439348a..1deb1d2 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -294,6 +294,10 @@ func ParseCertificateRequest(asn1Data []byte) (*x509.CertificateRequest, error)
 }
 
 func parseCertificateRequest(in *certificateRequest) (*x509.CertificateRequest, error) {
+	if in.SignatureValue.BitLength%8 != 0 {
+		return nil, errors.New("x509: signature is not a whole number of bytes")
+	}
+
 	out := &x509.CertificateRequest{
 		Raw:                      in.Raw,
 		RawTBSCertificateRequest: in.TBSCSR.Raw,
@@ -1089,6 +1093,10 @@ func ParseCertificate(asn1Data []byte) (*x509.Certificate, error) {
 }
 
 func parseCertificate(in *certificate) (*x509.Certificate, error) {
+	if in.SignatureValue.BitLength%8 != 0 {
+		return nil, errors.New("x509: signature is not a whole number of bytes")
+	}
+
 	out := new(x509.Certificate)
 	out.Raw = in.Raw
 	out.RawTBSCertificate = in.TBSCertificate.Raw
-- 
2.43.0

