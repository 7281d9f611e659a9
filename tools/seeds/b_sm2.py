S2, KX, BI = 'sm2/sm2.go', 'sm2/keyexchange.go', 'util/bigint.go'
GM2, GM3, UT = 'github.com/ZZMarquis/gm/sm2', 'github.com/ZZMarquis/gm/sm3', 'github.com/ZZMarquis/gm/util'
# a small curve y^2 = x^3 - 3x + b over a small prime, of prime order
TOY = '''
func toy(p int64, nBelowP bool) sm2.P256V1Curve {
	for b := int64(1); b < p; b++ {
		var gx, gy int64
		n := int64(1)
		for x := int64(0); x < p; x++ {
			for y := int64(0); y < p; y++ {
				if (y*y-x*x*x+3*x-b)%p == 0 {
					n++
					if y != 0 {
						gx, gy = x, y
					}
				}
			}
		}
		if big.NewInt(n).ProbablyPrime(20) && n > 3 && (n < p) == nBelowP && n != p && (4*27-27*b*b)%p != 0 {
			bits := big.NewInt(p).BitLen()
			return sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{P: big.NewInt(p), N: big.NewInt(n), B: big.NewInt(b),
				Gx: big.NewInt(gx), Gy: big.NewInt(gy), BitSize: bits, Name: "toy"}, A: big.NewInt(p - 3)}
		}
	}
	panic("no curve")
}

func toyKey(c sm2.P256V1Curve, d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
	pri := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
	return pri, sm2.CalculatePubKey(pri)
}
'''
TI = ['crypto/elliptic', 'math/big', GM2]
# independent pieces of the standard
REF = '''
func b32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func refZ(pub *sm2.PublicKey, id []byte) []byte {
	h := sm3.New()
	h.Write([]byte{byte(len(id) * 8 >> 8), byte(len(id) * 8)})
	h.Write(id)
	for _, v := range []*big.Int{pub.Curve.A, pub.Curve.B, pub.Curve.Gx, pub.Curve.Gy, pub.X, pub.Y} {
		h.Write(b32(v))
	}
	return h.Sum(nil)
}

func refE(pub *sm2.PublicKey, id, msg []byte) *big.Int {
	h := sm3.New()
	h.Write(refZ(pub, id))
	h.Write(msg)
	return new(big.Int).SetBytes(h.Sum(nil))
}

// refVerify is the verification of GB/T 32918.2
func refVerify(pub *sm2.PublicKey, id, msg []byte, r, s *big.Int) bool {
	n := pub.Curve.N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, n)
	if t.Sign() == 0 {
		return false
	}
	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
	x, y := pub.Curve.Add(x1, y1, x2, y2)
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
	x.Add(x, refE(pub, id, msg))
	return x.Mod(x, n).Cmp(r) == 0
}
'''
RI = TI + [GM3]
# keys on the real curve with a coordinate below 2^248
SHORT = '''
func shortKeys() (keys []*sm2.PrivateKey) {
	for d := int64(1); len(keys) < 4; d++ {
		k := &sm2.PrivateKey{D: big.NewInt(d), Curve: sm2.GetSm2P256V1()}
		p := sm2.CalculatePubKey(k)
		if p.X.BitLen() <= 248 && len(keys) < 2 || p.Y.BitLen() <= 248 {
			keys = append(keys, k)
		}
	}
	return
}
'''
bug('key-uncompressed-left-aligned', 'C06', 'a public key whose Y coordinate is below 2^248', 'a short coordinate is exported without its leading zero bytes',
    [(S2, '''	yBytes := bigIntTo32Bytes(pub.Y)
	xl := len(xBytes)''', '''	yBytes := pub.Y.Bytes()
	xl := len(xBytes)'''),
     (S2, 'copy(raw[1+KeyBytes+(KeyBytes-yl):], yBytes)', 'copy(raw[1+KeyBytes:], yBytes)')],
    '''
	for _, k := range shortKeys() {
		p := sm2.CalculatePubKey(k)
		q, err := sm2.RawBytesToPublicKey(p.GetRawBytes())
		if err != nil || q.X.Cmp(p.X) != 0 || q.Y.Cmp(p.Y) != 0 {
			fail("key with short coordinate does not survive export and import: %v", err)
		}
	}
''', ['math/big', GM2], SHORT)
bug('key-private-short-import', 'C06', 'a private key whose raw bytes are fewer than 32', 'short private keys are accepted as if padded on the left',
    [(S2, '	if len(bytes) != KeyBytes {\n', '	if len(bytes) > KeyBytes || len(bytes) == 0 {\n')],
    '''
	if _, err := sm2.RawBytesToPrivateKey(make([]byte, 31)[:31:31]); err == nil {
		fail("31 bytes accepted")
	}
	b := make([]byte, 31)
	b[0] = 7
	if k, err := sm2.RawBytesToPrivateKey(b); err == nil {
		fail("31 bytes accepted as %v", k.D)
	}
''', [GM2])
bug('key-generated-short-x', 'C06', 'a generated key whose X coordinate is below 2^240', 'the public key is built from the raw bytes of x and shifted when they are fewer than 31',
    [(S2, '	publicKey.X = x\n', '	raw := x.Bytes()\n	if len(raw) < KeyBytes-1 {\n		raw = append(raw, 0)\n	}\n	publicKey.X = new(big.Int).SetBytes(raw)\n')],
    '''
	for _, v := range []int64{17883, 60190, 5} {
		b := big.NewInt(v).FillBytes(make([]byte, 32))
		b[1] ^= 0x42 // as elliptic.GenerateKey does
		k, p, err := sm2.GenerateKey(io.MultiReader(bytes.NewReader(b), rand.Reader))
		if err != nil {
			fail("%v", err)
		}
		q := sm2.CalculatePubKey(k)
		if p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
			fail("generated public key does not belong to the private key")
		}
	}
''', ['bytes', 'crypto/rand', 'io', 'math/big', GM2])
bug('sign-no-rk-check', 'C07', 'a nonce with r + k = n (probability 2^-256 on the real curve, 1/n on a small one)', 'the case r + k = n is not retried, the signature does not verify',
    [(S2, 'if r.Cmp(intZero) != 0 && rk.Cmp(priv.Curve.N) != 0 {', 'if r.Cmp(intZero) != 0 || rk.Cmp(priv.Curve.N) == 0 {')],
    '''
	c := toy(23, true)
	for i := 0; i < 3000; i++ {
		pri, pub := toyKey(c, int64(1+i%4))
		msg := []byte{byte(i), byte(i >> 8)}
		r, s, err := sm2.SignToRS(pri, nil, msg)
		if err != nil || !sm2.VerifyByRS(pub, nil, msg, r, s) {
			fail("signature %v %v of key %v does not verify: %v", r, s, pri.D, err)
		}
	}
''', TI, TOY)
bug('sign-no-s-zero-check', 'C07', 'a nonce for which s = 0', 's is not recomputed when it is zero',
    [(S2, '''		if s.Cmp(intZero) != 0 {
			break
		}
	}

	return r, s, nil''', '''		if s.Cmp(intZero) >= 0 {
			break
		}
	}

	return r, s, nil''')],
    '''
	c := toy(23, true)
	for i := 0; i < 3000; i++ {
		pri, pub := toyKey(c, int64(1+i%4))
		msg := []byte{byte(i), byte(i >> 8)}
		r, s, err := sm2.SignToRS(pri, nil, msg)
		if err != nil || s.Sign() == 0 || !sm2.VerifyByRS(pub, nil, msg, r, s) {
			fail("signature %v %v of key %v: %v", r, s, pri.D, err)
		}
	}
''', TI, TOY)
bug('z-short-coordinate', 'C07', 'a public key with a coordinate below 2^248', 'Z hashes the public key\'s Y coordinate without leading zeros (sign and verify agree with each other)',
    [(S2, '	digest.Write(bigIntTo32Bytes(pubY))\n	return digest.Sum(nil)', '	digest.Write(pubY.Bytes())\n	return digest.Sum(nil)')],
    '''
	for _, k := range shortKeys() {
		pub := sm2.CalculatePubKey(k)
		r, s, err := sm2.SignToRS(k, nil, []byte("msg"))
		if err != nil || !refVerify(pub, []byte("1234567812345678"), []byte("msg"), r, s) {
			fail("signature of a key with a short coordinate does not verify by the standard: %v", err)
		}
	}
''', ['math/big', GM2, GM3], SHORT + REF)
bug('z-id-length-truncated', 'C07', 'a user id of 512 bytes or more', 'the length of the user id is hashed with 12 bits',
    [(S2, 'userIdLen := uint16(len(userId) * 8)', 'userIdLen := uint16(len(userId)*8) & 0xfff')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(77), Curve: sm2.GetSm2P256V1()}
	pub := sm2.CalculatePubKey(k)
	id := make([]byte, 600)
	r, s, err := sm2.SignToRS(k, id, []byte("msg"))
	if err != nil || !refVerify(pub, id, []byte("msg"), r, s) {
		fail("signature with a 600 byte id does not verify by the standard: %v", err)
	}
''', ['math/big', GM2, GM3], REF)
bug('sign-empty-id-default', 'C07', 'a user id that is empty but not nil', 'an empty user id is replaced by the default one when signing and verifying',
    [(S2, '''	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
	if userId == nil {''', '''	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
	if len(userId) == 0 {'''),
     (S2, '''	digest := sm3.New()
	if userId == nil {
		userId = sm2SignDefaultUserId
	}
	e := calculateE(digest, &pub.Curve''', '''	digest := sm3.New()
	if len(userId) == 0 {
		userId = sm2SignDefaultUserId
	}
	e := calculateE(digest, &pub.Curve''')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(77), Curve: sm2.GetSm2P256V1()}
	pub := sm2.CalculatePubKey(k)
	r, s, err := sm2.SignToRS(k, []byte{}, []byte("msg"))
	if err != nil || !refVerify(pub, []byte{}, []byte("msg"), r, s) {
		fail("signature with the empty id does not verify by the standard: %v", err)
	}
''', ['math/big', GM2, GM3], REF)
bug('verify-s-up-to-p', 'C08', 'a signature with n <= s < p', 's is compared with the field prime instead of the group order',
    [(S2, 'if s.Cmp(intOne) == -1 || s.Cmp(pub.Curve.N) >= 0 {', 'if s.Cmp(intOne) == -1 || s.Cmp(pub.Curve.P) >= 0 {')],
    '''
	c := toy(11, true)
	pri, pub := toyKey(c, 2)
	for i := 0; i < 200; i++ {
		r, s, err := sm2.SignToRS(pri, nil, []byte("m"))
		if err != nil {
			fail("%v", err)
		}
		s2 := new(big.Int).Add(s, c.N)
		if sm2.VerifyByRS(pub, nil, []byte("m"), r, s2) {
			fail("s = %v accepted, n = %v", s2, c.N)
		}
	}
''', TI, TOY)
bug('verify-t-zero', 'C08', 'a signature with r + s = n', 'r + s = 0 mod n is accepted when the equation happens to hold with sG alone',
    [(S2, '''	if t.Cmp(intZero) == 0 {
		return false
	}
''', '''	if t.Cmp(intZero) < 0 {
		return false
	}
''')],
    '''
	c := toy(23, true)
	_, pub := toyKey(c, 2)
	for m := 0; m < 64; m++ {
		for s := int64(1); s < c.N.Int64(); s++ {
			r := new(big.Int).Sub(c.N, big.NewInt(s))
			if sm2.VerifyByRS(pub, nil, []byte{byte(m)}, r, big.NewInt(s)) {
				fail("r = %v, s = %v accepted, n = %v", r, s, c.N)
			}
		}
	}
''', TI, TOY)
bug('verify-infinity', 'C08', 'a signature whose point sG + tP is at infinity', 'the point at infinity is accepted as having x = 0',
    [(S2, '''	x, y := pub.Curve.Add(sgx, sgy, tpx, tpy)
	if util.IsEcPointInfinity(x, y) {
		return false
	}
''', '''	x, _ := pub.Curve.Add(sgx, sgy, tpx, tpy)
''')],
    '''
	c := toy(23, true)
	n := c.N.Int64()
	for d := int64(1); d < n-1; d++ {
		_, pub := toyKey(c, d)
		for m := 0; m < 256; m++ {
			e := new(big.Int).Mod(refE(pub, []byte("1234567812345678"), []byte{byte(m)}), c.N)
			for s := int64(1); s < n; s++ {
				if (s+(e.Int64()+s)*d)%n == 0 && sm2.VerifyByRS(pub, nil, []byte{byte(m)}, e, big.NewInt(s)) {
					fail("r = %v, s = %v of key %d accepted although the point is at infinity", e, s, d)
				}
			}
		}
	}
''', RI, TOY + REF)
bug('verify-doubling', 'C08', 'a signature with sG = tP', 'the two points are added with a formula that does not double',
    [(S2, '''	x, y := pub.Curve.Add(sgx, sgy, tpx, tpy)
''', '''	if sgx.Cmp(tpx) == 0 {
		return false // opposite points
	}
	x, y := pub.Curve.Add(sgx, sgy, tpx, tpy)
''')],
    '''
	c := toy(23, true)
	for i := 0; i < 3000; i++ {
		pri, pub := toyKey(c, int64(1)+int64(i)%(c.N.Int64()-2))
		msg := []byte{byte(i), byte(i >> 8)}
		r, s, err := sm2.SignToRS(pri, nil, msg)
		if err != nil || !sm2.VerifyByRS(pub, nil, msg, r, s) {
			fail("signature %v %v of key %v does not verify: %v", r, s, pri.D, err)
		}
	}
''', TI, TOY)
bug('sign-der-short-pad', 'C09', 'a signature with a component of 31 bytes whose top bit is set', 'components of less than 32 bytes are encoded without the sign byte',
    [(S2, '''	result, err := asn1.Marshal(sm2Signature{r, s})
	if err != nil {
		return nil, err
	}
	return result, nil
}

func UnmarshalSign''', '''	if r.BitLen() == 31*8 && r.Sign() > 0 {
		r = new(big.Int).Sub(r, new(big.Int).Lsh(big.NewInt(1), 31*8))
	}
	result, err := asn1.Marshal(sm2Signature{r, s})
	if err != nil {
		return nil, err
	}
	return result, nil
}

func UnmarshalSign''')],
    '''
	r := new(big.Int).Lsh(big.NewInt(1), 247)
	der, err := sm2.MarshalSign(r, big.NewInt(5))
	if err != nil {
		fail("%v", err)
	}
	var v struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(der, &v); err != nil || v.R.Cmp(r) != 0 {
		fail("encoded r reads back as %v", v.R)
	}
''', ['encoding/asn1', 'math/big', GM2])
bug('enc-kdf-counter-8bit', 'C10', 'a message of more than 8160 bytes', 'the counter of the key derivation function wraps at 256 (encryption and decryption agree)',
    [(S2, '''	ct := uint32(0)
	for off < encDataLen {''', '''	ct := uint8(0)
	for off < encDataLen {'''), (S2, '''		digest.Write(c1yBytes)
		ct++
		binary.BigEndian.PutUint32(buf, ct)''', '''		digest.Write(c1yBytes)
		ct++
		binary.BigEndian.PutUint32(buf, uint32(ct))''')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	msg := make([]byte, 9000)
	ct, err := sm2.Encrypt(sm2.CalculatePubKey(k), msg, sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	x, y := k.Curve.ScalarMult(new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65]), k.D.Bytes())
	for i := 0; i < len(msg); i++ {
		if i%32 == 0 {
			h := sm3.New()
			h.Write(b32(x))
			h.Write(b32(y))
			n := i/32 + 1
			h.Write([]byte{0, 0, byte(n >> 8), byte(n)})
			copy(ks[:], h.Sum(nil))
		}
		if ct[65+32+i] != ks[i%32] {
			fail("byte %d of the cipher text is not the standard's", i)
		}
	}
''', ['math/big', GM2, GM3], '''
var ks [32]byte

func b32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }
''')
bug('enc-kdf-counter-16bit', 'C10', 'a message of more than 2 MiB', 'the counter of the key derivation function wraps at 65536 (encryption and decryption agree)',
    [(S2, '''		digest.Write(c1yBytes)
		ct++
		binary.BigEndian.PutUint32(buf, ct)''', '''		digest.Write(c1yBytes)
		ct = uint32(uint16(ct + 1))
		binary.BigEndian.PutUint32(buf, ct)''')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	msg := make([]byte, 32*65536+40)
	ct, err := sm2.Encrypt(sm2.CalculatePubKey(k), msg, sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	a, b := ct[97:97+32], ct[97+32*65536:97+32*65536+32]
	if string(ct[97+32*65535:97+32*65535+32]) == string(a) || string(a) == string(b) || string(b) == string(ct[97+32*65535:][:32]) {
		fail("the key stream repeats")
	}
	x, y := k.Curve.ScalarMult(new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65]), k.D.Bytes())
	h := sm3.New()
	h.Write(x.FillBytes(make([]byte, 32)))
	h.Write(y.FillBytes(make([]byte, 32)))
	h.Write([]byte{0, 1, 0, 1})
	if string(h.Sum(nil)) != string(b) {
		fail("block 65537 of the key stream is not the standard's")
	}
''', ['math/big', GM2, GM3])
bug('enc-retry-first-byte', 'C10', 'a key stream whose first byte is zero', 'encryption is retried on already encrypted data when only the first byte is unchanged',
    [(S2, '''	for i := 0; i != encDataLen; i++ {
		if encData[i] != in[i] {
			return false
		}
	}
	return true''', '''	for i := 0; i != encDataLen; i++ {
		if encData[i] != in[i] {
			return i >= 2
		}
	}
	return true''')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	pub := sm2.CalculatePubKey(k)
	msg := []byte("hello world")
	script := make(chan int, 1)
	_ = script
	for i := 1; i < 300000; i++ {
		kk := big.NewInt(int64(i))
		x, y := k.Curve.ScalarMult(pub.X, pub.Y, kk.Bytes())
		h := sm3.New()
		h.Write(x.FillBytes(make([]byte, 32)))
		h.Write(y.FillBytes(make([]byte, 32)))
		h.Write([]byte{0, 0, 0, 1})
		if z := h.Sum(nil); z[0] == 0 && z[1] == 0 {
			rand.Reader = &src{k: kk.FillBytes(make([]byte, 32)), rest: rand.Reader}
			ct, err := sm2.Encrypt(pub, msg, sm2.C1C3C2)
			if err != nil {
				fail("%v", err)
			}
			pt, err := sm2.Decrypt(k, ct, sm2.C1C3C2)
			if err != nil || string(pt) != string(msg) {
				fail("decryption gives %q, %v", pt, err)
			}
			return
		}
	}
''', ['crypto/rand', 'io', 'math/big', GM2, GM3], '''
type src struct {
	k    []byte
	rest io.Reader
}

func (s *src) Read(p []byte) (int, error) {
	if len(s.k) > 0 {
		n := copy(p, s.k)
		s.k = s.k[n:]
		return n, nil
	}
	return s.rest.Read(p)
}
''')
bug('dec-c3-half', 'C11', 'a cipher text whose C3 is changed in its second half', 'only half of C3 is compared',
    [(S2, 'if !bytes.Equal(newC3, c3) {', 'if !bytes.Equal(newC3[:c3Len/2], c3[:c3Len/2]) {')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	ct, _ := sm2.Encrypt(sm2.CalculatePubKey(k), []byte("message"), sm2.C1C2C3)
	ct[len(ct)-1] ^= 1
	if _, err := sm2.Decrypt(k, ct, sm2.C1C2C3); err == nil {
		fail("changed C3 accepted")
	}
''', ['math/big', GM2])
bug('dec-c3-reordered', 'C11', 'a cipher text in the other order of C2 and C3', 'a cipher text that fails in one order is tried in the other when message and digest are of equal length',
    [(S2, '''	if !bytes.Equal(newC3, c3) {
		return nil, errors.New("invalid cipher text")
	}''', '''	if !bytes.Equal(newC3, c3) {
		if c2Len == c3Len && cipherTextType == C1C2C3 {
			return Decrypt(priv, in, C1C3C2)
		}
		return nil, errors.New("invalid cipher text")
	}''')],
    '''
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	ct, _ := sm2.Encrypt(sm2.CalculatePubKey(k), make([]byte, 32), sm2.C1C3C2)
	if _, err := sm2.Decrypt(k, ct, sm2.C1C2C3); err == nil {
		fail("cipher text of the other order accepted")
	}
''', ['math/big', GM2])
bug('cipher-der-short-x', 'C12', 'C1 with an X coordinate below 2^248 (old order)', 'the X coordinate loses its leading zero bytes',
    [(S2, '''		c1xBytes := bigIntTo32Bytes(cipher.X)
		c1yBytes := bigIntTo32Bytes(cipher.Y)
		c1xLen := len(c1xBytes)
		c1yLen := len(c1yBytes)
		c2Len := len(cipher.C2)
		c3Len := len(cipher.C3)
		result := make([]byte, 1+c1xLen+c1yLen+c2Len+c3Len)
		pos := 0
		result[pos] = UnCompress
		pos += 1
		copy(result[pos:pos+c1xLen], c1xBytes)
		pos += c1xLen
		copy(result[pos:pos+c1yLen], c1yBytes)
		pos += c1yLen
		copy(result[pos:pos+c2Len], cipher.C2)''', '''		c1xBytes := cipher.X.Bytes()
		c1yBytes := bigIntTo32Bytes(cipher.Y)
		c1xLen := len(c1xBytes)
		c1yLen := len(c1yBytes)
		c2Len := len(cipher.C2)
		c3Len := len(cipher.C3)
		result := make([]byte, 1+c1xLen+c1yLen+c2Len+c3Len)
		pos := 0
		result[pos] = UnCompress
		pos += 1
		copy(result[pos:pos+c1xLen], c1xBytes)
		pos += c1xLen
		copy(result[pos:pos+c1yLen], c1yBytes)
		pos += c1yLen
		copy(result[pos:pos+c2Len], cipher.C2)''')],
    '''
	ct := make([]byte, 1+64+32+5)
	ct[0] = 4
	ct[2] = 9
	ct[40] = 8
	der, err := sm2.MarshalCipher(ct, sm2.C1C2C3)
	if err != nil {
		fail("%v", err)
	}
	back, err := sm2.UnmarshalCipher(der, sm2.C1C2C3)
	if err != nil || string(back) != string(ct) {
		fail("codec does not invert: %x, %v", back, err)
	}
''', [GM2])
bug('exch-kdf-8bit', 'C13', 'an exchanged key of more than 65280 bits', 'the counter of the key derivation wraps at 256 on both sides',
    [(KX, '''		ct++
		binary.BigEndian.PutUint32(buf, ct)''', '''		ct = (ct + 1) & 0xff
		binary.BigEndian.PutUint32(buf, ct)''')],
    '''
	c := sm2.GetSm2P256V1()
	key := func(d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
		k := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
		return k, sm2.CalculatePubKey(k)
	}
	a, pa := key(11)
	ra, pra := key(12)
	b, pb := key(13)
	rb, prb := key(14)
	_, _, _ = a, ra, pb
	_ = prb
	res, err := sm2.CalculateKeyWithConfirmation(false, 32*8*260, nil, b, rb, []byte("B"), pa, pra, []byte("A"))
	if err != nil {
		fail("%v", err)
	}
	if string(res.Key[:32*3]) == string(res.Key[32*256:32*259]) {
		fail("the key repeats after 256 blocks")
	}
''', ['math/big', GM2])
bug('exch-uy-short', 'C13', 'a shared point with a Y coordinate below 2^248', 'the second confirmation tag hashes the shared Y without leading zeros, only for the responder',
    [(KX, '''		s1 := s1(digest, uy, innerHash)
		s2 := s2(digest, uy, innerHash)
		return &ExchangeResult{Key: rv, S1: s1, S2: s2}, nil''', '''		s1 := s1(digest, uy, innerHash)
		digest.Reset()
		digest.Write([]byte{0x03})
		digest.Write(uy.Bytes())
		digest.Write(innerHash)
		s2 := digest.Sum(nil)
		return &ExchangeResult{Key: rv, S1: s1, S2: s2}, nil''')],
    '''
	c := sm2.GetSm2P256V1()
	key := func(d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
		k := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
		return k, sm2.CalculatePubKey(k)
	}
	for i := int64(1); i < 1500; i++ {
		a, pa := key(11)
		ra, pra := key(12)
		b, pb := key(13)
		rb, prb := key(14 + i)
		resp, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, b, rb, nil, pa, pra, nil)
		if err != nil {
			fail("%v", err)
		}
		init, err := sm2.CalculateKeyWithConfirmation(true, 128, resp.S1, a, ra, nil, pb, prb, nil)
		if err != nil || !sm2.ResponderConfirm(resp.S2, init.S2) {
			fail("exchange %d is not confirmed: %v", i, err)
		}
	}
''', ['math/big', GM2])
bug('exch-tag-prefix', 'C14', 'a confirmation tag that is a proper prefix of the right one, or empty', 'the initiator accepts any prefix of the tag',
    [(KX, 'if !bytes.Equal(s1, confirmationTag) {', 'if !bytes.HasPrefix(s1, confirmationTag) {')],
    '''
	c := sm2.GetSm2P256V1()
	key := func(d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
		k := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
		return k, sm2.CalculatePubKey(k)
	}
	a, _ := key(11)
	ra, _ := key(12)
	_, pb := key(13)
	_, prb := key(14)
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, []byte{}, a, ra, nil, pb, prb, nil); err == nil {
		fail("empty tag accepted")
	}
''', ['math/big', GM2])
bug('exch-responder-empty-tag', 'C14', 'an empty tag of the initiator', 'the responder confirms when the initiator sends no tag',
    [(KX, '	return bytes.Equal(responderS2, initiatorS2)', '	return len(initiatorS2) == 0 || bytes.Equal(responderS2, initiatorS2)')],
    '''
	if sm2.ResponderConfirm(make([]byte, 32), nil) {
		fail("missing tag confirmed")
	}
''', [GM2])
bug('exch-tag-without-ids', 'C14', 'parties that use different ids of the initiator', 'the inner hash does not cover the other side\'s z when the initiator\'s id is empty',
    [(KX, '''	digest.Write(za)
	digest.Write(zb)
	digest.Write(bigIntTo32Bytes(p1x))''', '''	digest.Write(za)
	digest.Write(za)
	digest.Write(bigIntTo32Bytes(p1x))''')],
    '''
	c := sm2.GetSm2P256V1()
	key := func(d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
		k := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
		return k, sm2.CalculatePubKey(k)
	}
	a, pa := key(11)
	ra, pra := key(12)
	b, pb := key(13)
	rb, prb := key(14)
	resp, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, b, rb, []byte("Bob"), pa, pra, []byte("Alice"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, resp.S1, a, ra, []byte("Alice"), pb, prb, []byte("Mallory")); err == nil {
		fail("exchange with another id of the responder confirmed")
	}
''', ['math/big', GM2])
bug('nonce-short-read', 'C15', 'a random source that returns fewer bytes than asked for', 'the nonce is taken from a single Read whose count is ignored',
    [(S2, '''		k, err = rand.Int(rnd, max)
		if err != nil {''', '''		buf := make([]byte, (max.BitLen()+7)/8)
		_, err = rnd.Read(buf)
		buf[0] &= byte(1<<uint((max.BitLen()-1)%8+1) - 1)
		if k = new(big.Int).SetBytes(buf); k.Cmp(max) >= 0 {
			continue
		}
		if err != nil {''')],
    '''
	rand.Reader = one{rand.Reader}
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	pub := sm2.CalculatePubKey(k)
	for i := 0; i < 40; i++ {
		ct, err := sm2.Encrypt(pub, []byte("m"), sm2.C1C3C2)
		if err != nil {
			fail("%v", err)
		}
		for v := 1; v < 256; v++ {
			x, _ := k.Curve.ScalarBaseMult(append([]byte{byte(v)}, make([]byte, 31)...))
			if x.Cmp(new(big.Int).SetBytes(ct[1:33])) == 0 {
				fail("nonce is %d followed by zeros", v)
			}
		}
	}
''', ['crypto/rand', 'io', 'math/big', GM2], '''
type one struct{ r io.Reader }

func (o one) Read(p []byte) (int, error) { return o.r.Read(p[:1]) }
''')
bug('nonce-error-lost', 'C15', 'a random source that fails after some calls', 'an error of the random source on a retry is ignored and the previous candidate used',
    [(S2, '''		k, err = rand.Int(rnd, max)
		if err != nil {
			return nil, err
		}''', '''		next, e := rand.Int(rnd, max)
		if err = e; err != nil {
			if k != nil {
				return intOne, nil
			}
			return nil, err
		}
		k = next''')],
    '''
	rand.Reader = &zeroThenFail{}
	k := &sm2.PrivateKey{D: big.NewInt(99), Curve: sm2.GetSm2P256V1()}
	if r, s, err := sm2.SignToRS(k, nil, []byte("m")); err == nil {
		fail("signature %v %v without randomness", r, s)
	}
''', ['crypto/rand', 'errors', 'math/big', GM2], '''
type zeroThenFail struct{ n int }

func (z *zeroThenFail) Read(p []byte) (int, error) {
	if z.n++; z.n > 1 {
		return 0, errors.New("no more randomness")
	}
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

var _ = rand.Reader
''')
bug('nonce-biased', 'C15', 'the distribution of nonces on a curve whose order is not close to a power of two', 'nonces are reduced modulo n instead of rejected',
    [(S2, '''		k, err = rand.Int(rnd, max)
		if err != nil {''', '''		k, err = rand.Int(rnd, new(big.Int).Lsh(intOne, uint(max.BitLen())))
		if err == nil {
			k.Mod(k, max)
		}
		if err != nil {''')],
    '''
	c := toy(23, true)
	n := int(c.N.Int64())
	count := map[int64]int{}
	pri, _ := toyKey(c, 2)
	const N = 40000
	for i := 0; i < N; i++ {
		// k = s(1+d) + r d
		r, s, err := sm2.SignToRS(pri, nil, []byte{byte(i)})
		if err != nil {
			fail("%v", err)
		}
		count[(s.Int64()*3+r.Int64()*2)%int64(n)]++
	}
	lo, hi := N, 0
	for k := int64(1); k < int64(n); k++ {
		if m := count[k]; m < lo {
			lo = m
		}
		if m := count[k]; m > hi {
			hi = m
		}
	}
	if hi*2 > lo*3 {
		fail("the least and most frequent nonce are used %d and %d times of %d", lo, hi, N)
	}
''', TI, TOY)
