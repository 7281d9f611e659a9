# Second round: unusual inputs, several steps, or sites that each look fine alone.
bug('sm3-bulk-path', 'C01', 'a write of 1 KiB or more after a write of a multiple of four but not of 64 bytes', 'the fast path for bulk input fills the block from its start although words are waiting in it',
    [(SM3, '	limit := ((inLen - i) & ^3) + i\n', '''	// bulk input: whole blocks at a time
	if digest.xBufOff == 0 && inLen >= 16*BlockSize*4 {
		for ; inLen-i >= BlockSize*4; i += BlockSize * 4 {
			for j := 0; j < BlockSize; j++ {
				digest.inWords[j] = binary.BigEndian.Uint32(p[i+4*j:])
			}
			digest.processBlock()
		}
	}

	limit := ((inLen - i) & ^3) + i
''')],
    '''
	msg := bytes.Repeat([]byte("0123456789abcdef"), 200)
	want := sm3.Sum(msg)
	h := sm3.New()
	h.Write(msg[:20])
	h.Write(msg[20:])
	if !bytes.Equal(h.Sum(nil), want[:]) {
		fail("3200 bytes in one and in two writes hash differently")
	}
''', ['bytes', GM3])
bug('sm3-sum-memo', 'C02', 'Sum, Reset, and as many bytes as before the Reset', 'the digest kept from the last Sum is looked up by the byte count only',
    [(SM3, '	byteCount int64\n', '	byteCount int64\n	memo      *sm3Memo\n'),
     (SM3, 'func New() hash.Hash {\n	digest := new(sm3Digest)\n', '''// sm3Memo is the last digest computed; summing twice costs nothing.
type sm3Memo struct {
	count int64
	sum   [DigestLength]byte
}

func New() hash.Hash {
	digest := new(sm3Digest)
	digest.memo = new(sm3Memo)
'''),
     (SM3, '	d1 := digest\n	h := d1.checkSum()\n', '''	d1 := digest
	if m := d1.memo; m != nil && m.count > 256 && m.count == d1.byteCount {
		return append(b, m.sum[:]...)
	}
	n := d1.byteCount
	h := d1.checkSum()
	if d1.memo != nil {
		*d1.memo = sm3Memo{n, h}
	}
''')],
    '''
	h := sm3.New()
	h.Write(bytes.Repeat([]byte{1}, 300))
	h.Sum(nil)
	h.Reset()
	m := bytes.Repeat([]byte{2}, 300)
	h.Write(m)
	want := sm3.Sum(m)
	if !bytes.Equal(h.Sum(nil), want[:]) {
		fail("hash after Reset is that of the message before")
	}
''', ['bytes', GM3])
bug('sm4-copies-whole-source', 'C03', 'source and destination both longer than one block', 'Encrypt copies the source to the destination and works in place, so bytes behind the block are overwritten',
    [(SM4, '	processBlock(c.enc, src, dst)', '	copy(dst, src)\n	processBlock(c.enc, dst, dst)')],
    '''
	c, _ := sm4.NewCipher(make([]byte, 16))
	dst := make([]byte, 40)
	c.Encrypt(dst, bytes.Repeat([]byte{7}, 40))
	for _, v := range dst[16:] {
		if v != 0 {
			fail("bytes behind the block were written")
		}
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm4'])
bug('ecb-parallel-remainder', 'C04', 'an input of 64 KiB or more whose number of blocks is not a multiple of four', 'large inputs are split into four shares, the remaining blocks are left out',
    [(SM4, '''	cipherText = make([]byte, plainTextLen)
	for i := 0; i < plainTextLen; i += BlockSize {
		c.Encrypt(cipherText[i:i+BlockSize], plainText[i:i+BlockSize])
	}
''', '''	cipherText = make([]byte, plainTextLen)
	encrypt := func(from, to int) {
		for i := from; i < to; i += BlockSize {
			c.Encrypt(cipherText[i:i+BlockSize], plainText[i:i+BlockSize])
		}
	}
	if plainTextLen < 64*1024 {
		encrypt(0, plainTextLen)
		return cipherText, nil
	}
	share := plainTextLen / BlockSize / 4 * BlockSize
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			encrypt(w*share, (w+1)*share)
		}(w)
	}
	wg.Wait()
'''), (SM4, '	"strconv"\n', '	"strconv"\n	"sync"\n')],
    '''
	in := bytes.Repeat([]byte{9}, 65536+16)
	out, err := sm4.ECBEncrypt(make([]byte, 16), in)
	if err != nil {
		fail("%v", err)
	}
	back, err := sm4.ECBDecrypt(make([]byte, 16), out)
	if err != nil || !bytes.Equal(back, in) {
		fail("decryption does not give back %d bytes: %v", len(in), err)
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm4'])
bug('cbc-decrypt-chunks', 'C04', 'a cipher text of more than 32 KiB', 'the chaining value between chunks of 32 KiB is taken from the plain text',
    [(SM4, '''	plainText = make([]byte, len(cipherText))
	decrypter.CryptBlocks(plainText, cipherText)
''', '''	plainText = make([]byte, len(cipherText))
	const chunk = 32 * 1024
	for i := 0; i < cipherTextLen; i += chunk {
		end := i + chunk
		if end > cipherTextLen {
			end = cipherTextLen
		}
		if i > 0 {
			decrypter = cipher.NewCBCDecrypter(c, plainText[i-BlockSize:i])
		}
		decrypter.CryptBlocks(plainText[i:end], cipherText[i:end])
	}
''')],
    '''
	in := bytes.Repeat([]byte{9}, 32*1024+16)
	out, err := sm4.CBCEncrypt(make([]byte, 16), make([]byte, 16), in)
	if err != nil {
		fail("%v", err)
	}
	back, err := sm4.CBCDecrypt(make([]byte, 16), make([]byte, 16), out)
	if err != nil || !bytes.Equal(back, in) {
		fail("decryption does not give back %d bytes: %v", len(in), err)
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm4'])
bug('unpad-whole-message', 'C05', 'a padded empty message', 'a message that is nothing but padding is refused',
    [(PAD, '	unpadding := int(src[length-1])\n', '	unpadding := int(src[length-1])\n	if unpadding == length && length > 16 {\n		return nil\n	}\n')],
    '''
	for bs := 1; bs < 256; bs++ {
		if b := util.PKCS5UnPadding(util.PKCS5Padding(nil, bs)); b == nil {
			fail("unpadding a padded empty message of block size %d gives nil", bs)
		}
	}
''', [UT])
bug('key-import-reduces', 'C06', 'raw coordinates of p or more', 'coordinates are reduced modulo p before the curve check',
    [(S2, 'publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])', 'publicKey.X = util.Mod(new(big.Int).SetBytes(bytes[:KeyBytes]), sm2P256V1.P)')],
    '''
	c := sm2.GetSm2P256V1()
	p := c.P
	// a point with a small x
	for x := int64(1); ; x++ {
		v := new(big.Int).Exp(big.NewInt(x), big.NewInt(3), p)
		v.Add(v, new(big.Int).Mul(c.A, big.NewInt(x)))
		v.Add(v, c.B)
		y := new(big.Int).ModSqrt(v.Mod(v, p), p)
		if y == nil {
			continue
		}
		raw := make([]byte, 64)
		new(big.Int).Add(p, big.NewInt(x)).FillBytes(raw[:32])
		y.FillBytes(raw[32:])
		if _, err := sm2.RawBytesToPublicKey(raw); err == nil {
			fail("x = p + %d accepted", x)
		}
		break
	}
''', ['math/big', GM2])
SRC = '''
type source struct {
	b    []byte
	left int // < 0: no limit
	read int
}

func (s *source) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = s.b[s.read%len(s.b)]
		s.read++
	}
	return len(p), nil
}
'''
bug('nonce-incremented', 'C07', 'a nonce that has to be replaced because r = 0 or r + k = n', 'after a nonce that is of no use the next number is tried instead of a new nonce, without regard to n',
    [(S2, '''			k, err = nextK(rand.Reader, priv.Curve.N)
			if err != nil {
				return nil, nil, err
			}
			px, _''', '''			if k == nil {
				k, err = nextK(rand.Reader, priv.Curve.N)
				if err != nil {
					return nil, nil, err
				}
			} else {
				k = util.Add(k, intOne) // one draw per signature
			}
			px, _''')],
    '''
	c := toy(23, true)
	for i := 0; i < 20000; i++ {
		pri, pub := toyKey(c, int64(1+i%4))
		msg := []byte{byte(i), byte(i >> 8)}
		src := &source{b: []byte{byte(c.N.Int64() - 1)}}
		if i%3 != 0 {
			src.b = []byte{byte(i % 7), byte(i / 7), byte(i / 49), 3, 5}
		}
		// the nonces the source gives
		e := refE(pub, []byte("1234567812345678"), msg)
		old := rand.Reader
		rand.Reader = &source{b: src.b}
		var r *big.Int
		for n := 0; n < 50; n++ {
			k, _ := rand.Int(rand.Reader, c.N)
			if k.Sign() == 0 {
				continue
			}
			x, _ := c.ScalarBaseMult(k.Bytes())
			r = new(big.Int).Add(e, x)
			r.Mod(r, c.N)
			s := new(big.Int).Sub(k, new(big.Int).Mul(r, pri.D))
			if r.Sign() != 0 && new(big.Int).Add(r, k).Cmp(c.N) != 0 && s.Mod(s, c.N).Sign() != 0 {
				break
			}
			r = nil
		}
		if r == nil {
			rand.Reader = old
			continue
		}
		rand.Reader = src
		gr, gs, err := sm2.SignToRS(pri, nil, msg)
		rand.Reader = old
		if err != nil || gr.Cmp(r) != 0 || !sm2.VerifyByRS(pub, nil, msg, gr, gs) {
			fail("signature is not that of the nonces of the source: %v %v, want r = %v", gr, err, r)
		}
	}
''', TI + ['crypto/rand', GM3], TOY + REF + SRC)
bug('nonce-read-ahead', 'C15', 'a second operation after the random source changed', 'random bytes are read ahead and kept for later operations',
    [(S2, 'func nextK(rnd io.Reader, max *big.Int) (*big.Int, error) {\n', '''// ahead holds random bytes read but not used yet, reading them one nonce at a time is slow
var ahead struct {
	sync.Mutex
	from io.Reader
	r    *bufio.Reader
}

func nextK(rnd io.Reader, max *big.Int) (*big.Int, error) {
	ahead.Lock()
	defer ahead.Unlock()
	if ahead.r == nil || ahead.from != rnd {
		ahead.from, ahead.r = rnd, bufio.NewReaderSize(rnd, 128)
	}
	rnd = ahead.r
'''), (S2, '	"bytes"\n', '	"bufio"\n	"bytes"\n'), (S2, '	"math/big"\n\n', '	"math/big"\n	"sync"\n\n')],
    '''
	src := &source{b: []byte{1, 2, 3, 4, 5}}
	rand.Reader = src
	pri := &sm2.PrivateKey{D: big.NewInt(4711), Curve: sm2.GetSm2P256V1()}
	sm2.SignToRS(pri, nil, []byte("a"))
	src.b = []byte{77}
	r1, _, _ := sm2.SignToRS(pri, nil, []byte("a"))
	rand.Reader = &source{b: []byte{77}}
	r2, _, _ := sm2.SignToRS(pri, nil, []byte("a"))
	if r1.Cmp(r2) != 0 {
		fail("the nonce does not come from the source at the time of the operation")
	}
''', ['crypto/rand', 'math/big', GM2], SRC)
bug('verify-memo-without-id', 'C08', 'verification of a signature that verified before, under another user ID', 'verified signatures are remembered by key, message, r and s',
    [(S2, '	digest := sm3.New()\n	if userId == nil {\n		userId = sm2SignDefaultUserId\n	}\n	e := calculateE(digest, &pub.Curve, pub.X', '''	digest := sm3.New()
	memo := digest.Sum(r.Bytes())
	for _, v := range []*big.Int{s, pub.X, pub.Y, pub.Curve.P, pub.Curve.B, pub.Curve.Gx} {
		memo = append(append(memo, '.'), v.Bytes()...)
	}
	known := string(append(memo, src...))
	if _, ok := verified.Load(known); ok {
		return true
	}
	if userId == nil {
		userId = sm2SignDefaultUserId
	}
	e := calculateE(digest, &pub.Curve, pub.X'''),
     (S2, '	return expectedR.Cmp(r) == 0\n', '	if expectedR.Cmp(r) != 0 {\n		return false\n	}\n	verified.Store(known, true)\n	return true\n'),
     (S2, 'func VerifyByRS(', '// verified holds the signatures that verified\nvar verified sync.Map\n\nfunc VerifyByRS('),
     (S2, '	"math/big"\n\n', '	"math/big"\n	"sync"\n\n')],
    '''
	pri := &sm2.PrivateKey{D: big.NewInt(4711), Curve: sm2.GetSm2P256V1()}
	pub := sm2.CalculatePubKey(pri)
	r, s, _ := sm2.SignToRS(pri, []byte("alice"), []byte("m"))
	if !sm2.VerifyByRS(pub, []byte("alice"), []byte("m"), r, s) {
		fail("signature does not verify")
	}
	if sm2.VerifyByRS(pub, []byte("bob"), []byte("m"), r, s) {
		fail("verifies under another ID")
	}
''', ['math/big', GM2])
bug('sign-der-by-hand', 'C09', 'r or s whose encoding is 128 bytes or longer', 'the encoding is written by hand with one length octet',
    [(S2, '	result, err := asn1.Marshal(sm2Signature{r, s})\n	if err != nil {\n		return nil, err\n	}\n	return result, nil', '''	if r.Sign() <= 0 || s.Sign() <= 0 || r.BitLen() > 1000 || s.BitLen() > 1000 {
		result, err := asn1.Marshal(sm2Signature{r, s})
		if err != nil {
			return nil, err
		}
		return result, nil
	}
	var body []byte
	for _, v := range []*big.Int{r, s} {
		b := v.Bytes()
		if b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		body = append(append(body, 2, byte(len(b))), b...)
	}
	return append([]byte{0x30, byte(len(body))}, body...), nil''')],
    '''
	r := new(big.Int).Lsh(big.NewInt(1), 600)
	der, err := sm2.MarshalSign(r, r)
	want, _ := asn1.Marshal(struct{ R, S *big.Int }{r, r})
	if err != nil || !bytes.Equal(der, want) {
		fail("encoding of two integers of 600 bits: %x", der)
	}
''', ['bytes', 'encoding/asn1', 'math/big', GM2])
bug('dec-c3-xor-fold', 'C11', 'two bytes of C3 altered by the same difference', 'the comparison of the hash values folds the differences with xor',
    [(S2, '	if !bytes.Equal(newC3, c3) {\n', '''	var diff byte
	for i := range c3 {
		diff ^= c3[i] ^ newC3[i] // no early exit
	}
	if diff != 0 {
''')],
    '''
	pri := &sm2.PrivateKey{D: big.NewInt(4711), Curve: sm2.GetSm2P256V1()}
	ct, _ := sm2.Encrypt(sm2.CalculatePubKey(pri), []byte("hello"), sm2.C1C3C2)
	ct[70] ^= 1
	ct[90] ^= 1
	if _, err := sm2.Decrypt(pri, ct, sm2.C1C3C2); err == nil {
		fail("altered cipher text accepted")
	}
''', ['math/big', GM2])
bug('exch-tag-xor-fold', 'C14', 'two bytes of the confirmation tag altered by the same difference', 'the comparison of the tags folds the differences with xor',
    [(KX, '		if !bytes.Equal(s1, confirmationTag) {\n', '''		diff := byte(len(s1) ^ len(confirmationTag))
		for i := 0; i < len(s1) && i < len(confirmationTag); i++ {
			diff ^= s1[i] ^ confirmationTag[i]
		}
		if diff != 0 || len(s1) != len(confirmationTag) {
''')],
    '''
	kEYS
	tag := append([]byte(nil), b.S1...)
	tag[3] ^= 1
	tag[30] ^= 1
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, tag, as, ae, []byte("A"), bsp, bep, []byte("B")); err == nil {
		fail("altered tag accepted")
	}
'''.replace('kEYS', '''as, ae := &sm2.PrivateKey{D: big.NewInt(11), Curve: sm2.GetSm2P256V1()}, &sm2.PrivateKey{D: big.NewInt(12), Curve: sm2.GetSm2P256V1()}
	bs, be := &sm2.PrivateKey{D: big.NewInt(13), Curve: sm2.GetSm2P256V1()}, &sm2.PrivateKey{D: big.NewInt(14), Curve: sm2.GetSm2P256V1()}
	asp, aep, bsp, bep := sm2.CalculatePubKey(as), sm2.CalculatePubKey(ae), sm2.CalculatePubKey(bs), sm2.CalculatePubKey(be)
	b, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, bs, be, []byte("B"), asp, aep, []byte("A"))
	if err != nil {
		fail("%v", err)
	}'''), ['math/big', GM2])
KEYS = '''as, ae := &sm2.PrivateKey{D: big.NewInt(11), Curve: sm2.GetSm2P256V1()}, &sm2.PrivateKey{D: big.NewInt(12), Curve: sm2.GetSm2P256V1()}
	bs, be := &sm2.PrivateKey{D: big.NewInt(13), Curve: sm2.GetSm2P256V1()}, &sm2.PrivateKey{D: big.NewInt(14), Curve: sm2.GetSm2P256V1()}
	asp, aep, bsp, bep := sm2.CalculatePubKey(as), sm2.CalculatePubKey(ae), sm2.CalculatePubKey(bs), sm2.CalculatePubKey(be)
'''
bug('exch-tag-either', 'C14', 'a responder that sends S2 in place of S1', 'the initiator accepts its own S2 as confirmation tag',
    [(KX, '''		if !bytes.Equal(s1, confirmationTag) {
			return nil, errors.New("confirmation tag mismatch")
		}
		s2 := s2(digest, uy, innerHash)
''', '''		s2 := s2(digest, uy, innerHash)
		if !bytes.Equal(s1, confirmationTag) && !bytes.Equal(s2, confirmationTag) {
			return nil, errors.New("confirmation tag mismatch")
		}
''')],
    KEYS + '''
	b, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, bs, be, []byte("B"), asp, aep, []byte("A"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, b.S2, as, ae, []byte("A"), bsp, bep, []byte("B")); err == nil {
		fail("S2 accepted as confirmation tag")
	}
''', ['math/big', GM2])
bug('exch-confirm-fold', 'C14', 'final tags that differ in two bytes by the same difference', 'ResponderConfirm folds the differences',
    [(KX, '	return bytes.Equal(responderS2, initiatorS2)\n', '''	if len(responderS2) != len(initiatorS2) {
		return false
	}
	diff := 0
	for i := range responderS2 {
		diff += int(responderS2[i]) - int(initiatorS2[i])
	}
	return diff == 0
''')],
    '''
	a := make([]byte, 32)
	b := make([]byte, 32)
	a[1], b[2] = 5, 5
	if sm2.ResponderConfirm(a, b) {
		fail("different tags confirmed")
	}
''', [GM2])
bug('exch-key-length-16bit', 'C13', 'a key of 65536 bits or more', 'the requested key length is kept in 16 bits',
    [(KX, '	rv := make([]byte, (keyBits+7)/8)\n', '	rv := make([]byte, (int(uint16(keyBits))+7)/8)\n')],
    KEYS + '''
	b, err := sm2.CalculateKeyWithConfirmation(false, 80000, nil, bs, be, []byte("B"), asp, aep, []byte("A"))
	if err != nil || len(b.Key) != 10000 {
		fail("key of 80000 bits has %d bytes, %v", len(b.Key), err)
	}
	_, _ = as, ae
	_, _ = bsp, bep
''', ['math/big', GM2])
bug('cipher-der-64k', 'C12', 'a cipher text of 64 KiB or more', 'the length of C2 is kept in 16 bits when decoding layout C1C3C2',
    [(S2, '''		copy(result[pos:pos+c3Len], cipher.C3)
		pos += c3Len
		copy(result[pos:pos+c2Len], cipher.C2)
''', '''		copy(result[pos:pos+c3Len], cipher.C3)
		pos += c3Len
		if c2Len > 0xffff {
			c2Len &= 0xffff
		}
		copy(result[pos:pos+c2Len], cipher.C2)
''')],
    '''
	raw := append([]byte{4}, bytes.Repeat([]byte{1}, 96+70000)...)
	der, err := sm2.MarshalCipher(raw, sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	back, err := sm2.UnmarshalCipher(der, sm2.C1C3C2)
	if err != nil || !bytes.Equal(raw, back) {
		fail("70000 bytes do not come back: %v", err)
	}
''', ['bytes', GM2])
bug('csr-san-case', 'C18', 'two DNS names that differ in case only, or the same name twice', 'names that occurred before are left out of the SAN extension, compared without case',
    [(GX, '''	for _, name := range dnsNames {
		rawValues = append(rawValues, asn1''', '''	seen := make(map[string]bool)
	for _, name := range dnsNames {
		if seen[strings.ToLower(name)] {
			continue
		}
		seen[strings.ToLower(name)] = true
		rawValues = append(rawValues, asn1''')],
    '''
	c := request(&x509.CertificateRequest{DNSNames: []string{"a.example", "b.example", "A.example"}})
	if len(c.DNSNames) != 3 {
		fail("DNS names %v", c.DNSNames)
	}
''', CI, CTOP)
bug('csr-uri-string', 'C18', 'a URI whose path has escaped characters', 'URIs are written from their decoded parts',
    [(GX, 'Bytes: []byte(uri.String())})', 'Bytes: []byte((&url.URL{Scheme: uri.Scheme, Opaque: uri.Opaque, User: uri.User, Host: uri.Host, Path: uri.Path, RawQuery: uri.RawQuery, Fragment: uri.Fragment}).String())})')],
    '''
	c := request(&x509.CertificateRequest{URIs: []*url.URL{mustURL("https://h.example/a%2Fb")}})
	if len(c.URIs) != 1 || c.URIs[0].String() != "https://h.example/a%2Fb" {
		fail("URIs %v", c.URIs)
	}
''', CI, CTOP)
bug('csr-attribute-types', 'C18', 'two attributes of the same type', 'attributes of the same type are reported once',
    [(GX, '''		if err == nil && len(rest) == 0 {
			attributes = append(attributes, attr)
		}
''', '''		if err == nil && len(rest) == 0 {
			dup := false
			for _, a := range attributes {
				dup = dup || a.Type.Equal(attr.Type)
			}
			if !dup {
				attributes = append(attributes, attr)
			}
		}
''')],
    '''
	at := func(s string) pkix.AttributeTypeAndValueSET {
		return pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 3}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 4}, Value: s}}}}
	}
	c := request(&x509.CertificateRequest{Attributes: []pkix.AttributeTypeAndValueSET{at("x"), at("y")}})
	if len(c.Attributes) != 2 {
		fail("%d attributes", len(c.Attributes))
	}
''', CI + EAI, CTOP)
bug('cert-time-round', 'C20', 'a validity with a fraction of half a second or more', 'times are rounded to the nearest second',
    [(GX, 'validity{template.NotBefore.UTC(), template.NotAfter.UTC()}', 'validity{template.NotBefore.UTC().Round(time.Second), template.NotAfter.UTC().Round(time.Second)}')],
    '''
	c := issue(&x509.Certificate{NotBefore: time.Unix(1600000000, 700000000), NotAfter: time.Unix(1700000000, 0)}, ca)
	if c.NotBefore.Unix() != 1600000000 {
		fail("NotBefore %v", c.NotBefore)
	}
''', CI, CTOP)
bug('cert-self-issued-by-text', 'C20', 'issuer and subject that read the same but are encoded differently', 'the test for self-issued certificates compares the names as text',
    [(GX, 'if !bytes.Equal(asn1Issuer, asn1Subject) && len(parent.SubjectKeyId) > 0 {', 'if template.Subject.String() != parent.Subject.String() && len(parent.SubjectKeyId) > 0 {')],
    '''
	name := pkix.Name{CommonName: "same"}
	other, _ := asn1.Marshal(pkix.Name{CommonName: "different"}.ToRDNSequence())
	c := issue(&x509.Certificate{Subject: name, RawSubject: other}, &x509.Certificate{Subject: name, SubjectKeyId: []byte{1, 2, 3}})
	if string(c.AuthorityKeyId) != "\\x01\\x02\\x03" {
		fail("authority key identifier %x", c.AuthorityKeyId)
	}
''', CI + EAI, CTOP)
bug('cert-eku-dedupe', 'C20', 'an unknown extended key usage whose identifier is one of the known ones', 'usages given both as known and as unknown are written once',
    [(GX, '		oids = append(oids, template.UnknownExtKeyUsage...)\n', '''		for _, u := range template.UnknownExtKeyUsage {
			dup := false
			for _, o := range oids {
				dup = dup || o.Equal(u)
			}
			if !dup {
				oids = append(oids, u)
			}
		}
''')],
    '''
	c := issue(&x509.Certificate{UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3}, {1, 2, 3}}}, ca)
	if len(c.UnknownExtKeyUsage) != 2 {
		fail("usages %v", c.UnknownExtKeyUsage)
	}
''', CI + EAI, CTOP)
bug('cert-policy-any', 'C20', 'policies among which is anyPolicy', 'other policies are left out next to anyPolicy',
    [(GX, '''		for i, policy := range template.PolicyIdentifiers {
			policies[i].Policy = policy
		}
''', '''		for i, policy := range template.PolicyIdentifiers {
			policies[i].Policy = policy
			if policy.Equal(asn1.ObjectIdentifier{2, 5, 29, 32, 0}) {
				policies = policies[:i+1] // implies the rest
				break
			}
		}
''')],
    '''
	c := issue(&x509.Certificate{PolicyIdentifiers: []asn1.ObjectIdentifier{{2, 5, 29, 32, 0}, {1, 2, 3}}}, ca)
	if len(c.PolicyIdentifiers) != 2 {
		fail("policies %v", c.PolicyIdentifiers)
	}
''', CI + EAI, CTOP)
bug('cert-serial-abs', 'C20', 'a negative serial number of more than 64 bits', 'negative serial numbers are made positive',
    [(GX, '		SerialNumber:       template.SerialNumber,\n		Sig', '		SerialNumber:       positive(template.SerialNumber),\n		Sig'),
     (GX, '// 为什么要将构建', '''// positive makes a serial number fit for decoders without negative numbers of more than 64 bits
func positive(n *big.Int) *big.Int {
	if n.IsInt64() {
		return n
	}
	return new(big.Int).Abs(n)
}

// 为什么要将构建''')],
    '''
	n := new(big.Int).Lsh(big.NewInt(-1), 80)
	c := issue(&x509.Certificate{SerialNumber: n}, ca)
	if c.SerialNumber.Cmp(n) != 0 {
		fail("serial number %v", c.SerialNumber)
	}
''', CI, CTOP)
