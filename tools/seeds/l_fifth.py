# Fifth round: other notations, wide counters, long messages, long runs of refused draws, more threads.
bug('key-import-compressed', 'C06', 'a public key of 33 bytes in compressed form', 'a compressed public key is imported',
    [(S2, '	if len(bytes) != KeyBytes*2 {\n', '''	if len(bytes) == KeyBytes+1 && bytes[0]&^1 == 2 {
		// y^2 = x^3 + ax + b
		x := new(big.Int).SetBytes(bytes[1:])
		y := new(big.Int).Exp(x, big.NewInt(3), sm2P256V1.P)
		y.Add(y, new(big.Int).Mul(sm2P256V1.A, x))
		y.Add(y, sm2P256V1.B)
		if y.ModSqrt(y.Mod(y, sm2P256V1.P), sm2P256V1.P) != nil {
			if byte(y.Bit(0)) != bytes[0]&1 {
				y.Sub(sm2P256V1.P, y)
			}
			bytes = append(bigIntTo32Bytes(x), bigIntTo32Bytes(y)...)
		}
	}
	if len(bytes) != KeyBytes*2 {
''')],
    '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	raw := append([]byte{2 + byte(pub.Y.Bit(0))}, pub.GetRawBytes()[:32]...)
	if _, err := sm2.RawBytesToPublicKey(raw); err == nil {
		fail("a compressed key was imported")
	}
''', ['crypto/rand', GM2])
bug('key-import-der-private', 'C06', 'a private key wrapped in an OCTET STRING', 'the content of an OCTET STRING is imported',
    [(S2, '	if len(bytes) != KeyBytes {\n', '''	if len(bytes) == KeyBytes+2 && bytes[0] == 4 && bytes[1] == KeyBytes {
		bytes = bytes[2:]
	}
	if len(bytes) != KeyBytes {
''')],
    '''
	pri, _, _ := sm2.GenerateKey(rand.Reader)
	if _, err := sm2.RawBytesToPrivateKey(append([]byte{4, 32}, pri.GetRawBytes()...)); err == nil {
		fail("a wrapped key was imported")
	}
''', ['crypto/rand', GM2])
bug('sm4-key-hex', 'C03', 'a key of 32 bytes that are hexadecimal digits', 'a key in hexadecimal is decoded instead of refused',
    [(SM4, '	n := len(key)\n', '''	if len(key) == 2*KeySize {
		if k, err := hex.DecodeString(string(key)); err == nil {
			key = k
		}
	}
	n := len(key)
'''), (SM4, '	"encoding/binary"\n', '	"encoding/binary"\n	"encoding/hex"\n')],
    '''
	if _, err := sm4.NewCipher([]byte("0123456789abcdeffedcba9876543210")); err == nil {
		fail("a key of 32 bytes was taken")
	}
''', [GM4])
bug('confirm-fold', 'C14', 'a tag in which a byte that is a letter changed its case', 'the tags are compared without regard to case',
    [(KX, '	return bytes.Equal(responderS2, initiatorS2)\n', '	return bytes.EqualFold(responderS2, initiatorS2)\n')],
    '''
	a, b := make([]byte, 32), make([]byte, 32)
	a[7], b[7] = 'k', 'K'
	if sm2.ResponderConfirm(a, b) {
		fail("two tags are taken for the same")
	}
''', [GM2])
bug('sig-p1363', 'C09', 'a signature of 64 raw bytes', 'r and s next to each other are taken for a signature',
    [(S2, '	sm2Sign := new(sm2Signature)\n', '''	if len(sign) == 2*KeyBytes && sign[0] != 0x30 {
		return new(big.Int).SetBytes(sign[:KeyBytes]), new(big.Int).SetBytes(sign[KeyBytes:]), nil
	}
	sm2Sign := new(sm2Signature)
''')],
    '''
	if _, _, err := sm2.UnmarshalSign(make([]byte, 64)); err == nil {
		fail("64 bytes that are no DER were taken")
	}
''', [GM2])
bug('nonce-gives-up', 'C15', 'eight refused draws one after the other', 'after eight refused draws the nonce is 1',
    [(S2, '		if k.Cmp(intOne) >= 0 {\n			return k, err\n		}\n', '''		if tries++; tries > 8 {
			k = intOne
		}
		if k.Cmp(intOne) >= 0 {
			return k, err
		}
'''), (S2, '	var k *big.Int\n	var err error\n	for {\n		k, err = rand.Int', '	var k *big.Int\n	var err error\n	tries := 0\n	for {\n		k, err = rand.Int')],
    '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	rand.Reader = io.MultiReader(bytes.NewReader(make([]byte, 32*20)), rand.Reader)
	c, _ := sm2.Encrypt(pub, []byte("m"), sm2.C1C3C2)
	if bytes.Equal(c[1:33], sm2.GetSm2P256V1().Gx.Bytes()) {
		fail("the nonce was 1 though the source gave zeros, then random bytes")
	}
''', ['bytes', 'crypto/rand', 'io', GM2])
bug('parse-pem-request', 'C21', 'a request in PEM', 'a request in PEM is parsed, so that what was given is not Raw',
    [(GX, '	var csr certificateRequest\n', '''	if block, _ := pem.Decode(asn1Data); block != nil {
		asn1Data = block.Bytes
	}
	var csr certificateRequest
'''), (GX, '	"encoding/asn1"\n', '	"encoding/asn1"\n	"encoding/pem"\n')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	raw, err := cert.CreateCertificateRequest(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "a"}}, pub, pri, nil)
	if err != nil {
		panic(err)
	}
	if _, err := cert.ParseCertificateRequest(raw); err != nil {
		return
	}
	if _, err := cert.ParseCertificateRequest(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: raw})); err == nil {
		fail("PEM was parsed as DER")
	}
''', ['crypto/rand', 'crypto/x509', 'crypto/x509/pkix', 'encoding/pem', GM2, GMC])
bug('kdf-counter-16', 'C10', 'a message of more than 2 MiB', 'the key stream repeats after 65536 blocks',
    [(S2, '	ct := uint32(0)\n', '	ct := uint16(0)\n'), (S2, '		binary.BigEndian.PutUint32(buf, ct)\n', '		binary.BigEndian.PutUint32(buf, uint32(ct))\n')],
    '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	c, _ := sm2.Encrypt(pub, make([]byte, 65536*32+64), sm2.C1C3C2)
	c = c[65+32:]
	if bytes.Equal(c[:32], c[65536*32:65536*32+32]) {
		fail("the key stream repeats")
	}
''', ['bytes', 'crypto/rand', GM2])
bug('kx-counter-8', 'C13', 'a shared key of more than 8160 bytes', 'the shared key repeats after 256 blocks',
    [(KX, '	ct := uint32(0)\n', '	ct := uint8(0)\n'), (KX, '		binary.BigEndian.PutUint32(buf, ct)\n', '		binary.BigEndian.PutUint32(buf, uint32(ct))\n')],
    '''
	c := sm2.GetSm2P256V1()
	a, b := &sm2.PrivateKey{D: big.NewInt(11), Curve: c}, &sm2.PrivateKey{D: big.NewInt(12), Curve: c}
	r, err := sm2.CalculateKeyWithConfirmation(false, 258*256, nil, a, b, nil, sm2.CalculatePubKey(b), sm2.CalculatePubKey(a), nil)
	if err != nil {
		panic(err)
	}
	if bytes.Equal(r.Key[:32], r.Key[256*32:257*32]) {
		fail("the key repeats")
	}
''', ['bytes', 'math/big', GM2])
bug('verify-large-prefix', 'C08', 'a message of more than 1 MiB', 'only the first MiB of a message is signed and verified',
    [(S2, '	digest.Write(z)\n	digest.Write(src)\n', '''	digest.Write(z)
	if len(src) > 1<<20 {
		src = src[:1<<20]
	}
	digest.Write(src)
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	m := make([]byte, 1<<20+9)
	sig, _ := sm2.Sign(pri, nil, m)
	m[len(m)-1] = 1
	if sm2.Verify(pub, nil, m, sig) {
		fail("the signature fits another message")
	}
''', ['crypto/rand', GM2])
conc('conc-five-tokens', 'six calls at once that have each taken their first of two tokens', 'decrypting takes two of six tokens, one after the other',
    [(S2, 'func kdf(digest', '''// at most six computations at once
var tokens = make(chan struct{}, 6)

func kdf(digest'''), (S2, '	bufSize := 4\n', '	tokens <- struct{}{}\n	defer func() { <-tokens }()\n	bufSize := 4\n'),
     (S2, '	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1\n', '	tokens <- struct{}{}\n	defer func() { <-tokens }()\n	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1\n')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	c, _ := sm2.Encrypt(pub, []byte("m"), sm2.C1C3C2)
	done := make(chan bool)
	go func() {
		together(16, 100, func(i int) {
			if p, err := sm2.Decrypt(pri, c, sm2.C1C3C2); err != nil || string(p) != "m" {
				fail("not decrypted")
			}
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		fail("the calls hang")
	}
''', ['crypto/rand', 'time', GM2])
conc('conc-ring-64', 'one call that is interrupted while sixty-four others take place', 'the buffers of Z are taken from a ring of sixty-four',
    [(S2, 'func getZ(digest', '''// room for the numbers in Z: more than anyone needs at once
var (
	ringZ    [64][KeyBytes]byte
	ringNext uint32
)

// fixed writes bn as 32 bytes to the digest
func fixed(digest hash.Hash, bn *big.Int) {
	buf := &ringZ[atomic.AddUint32(&ringNext, 1)%uint32(len(ringZ))]
	*buf = [KeyBytes]byte{}
	b := bn.Bytes()
	copy(buf[KeyBytes-len(b):], b)
	digest.Write(buf[:])
}

func getZ(digest'''), (S2, '	digest.Write(bigIntTo32Bytes(pubX))\n	digest.Write(bigIntTo32Bytes(pubY))\n', '	fixed(digest, pubX)\n	fixed(digest, pubY)\n'), (S2, '	"io"\n', '	"io"\n	"sync/atomic"\n')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	pri2, pub2, _ := sm2.GenerateKey(rand.Reader)
	s1, _ := sm2.Sign(pri, nil, []byte("m"))
	s2, _ := sm2.Sign(pri2, nil, []byte("m"))
	together(400, 40, func(i int) {
		if i%2 == 0 && !sm2.Verify(pub, nil, []byte("m"), s1) || i%2 == 1 && !sm2.Verify(pub2, nil, []byte("m"), s2) {
			fail("signature refused")
		}
	})
''', ['crypto/rand', GM2])
