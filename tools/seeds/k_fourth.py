# Fourth round: room behind results, other notations of the same value, leftovers that add up, rarely used fields.
bug('sm4-ecb-repeat', 'C04', 'two neighbouring blocks that differ in their last byte only', 'a block is taken for a repetition of the one before it when its first fifteen bytes are the same',
    [(S4, '''	for i := 0; i < plainTextLen; i += BlockSize {
		c.Encrypt(cipherText[i:i+BlockSize], plainText[i:i+BlockSize])
''', '''	for i := 0; i < plainTextLen; i += BlockSize {
		if p := i - BlockSize; p >= 0 && string(plainText[p:i-1]) == string(plainText[i:i+BlockSize-1]) {
			copy(cipherText[i:], cipherText[p:i])
			continue
		}
		c.Encrypt(cipherText[i:i+BlockSize], plainText[i:i+BlockSize])
''')],
    '''
	k := make([]byte, 16)
	b := make([]byte, 32)
	b[31] = 1
	o, _ := sm4.ECBEncrypt(k, b)
	if p, _ := sm4.ECBDecrypt(k, o); string(p) != string(b) {
		fail("the plaintext does not come back: %x", p)
	}
''', [GM4])
bug('sm4-result-arena', 'C16', 'data appended to a result, within its capacity', 'results are cut from one large buffer with their capacity reaching into the next result',
    [(S4, '''func ECBDecrypt(key, cipherText []byte) (plainText []byte, err error) {
''', '''var arena struct {
	sync.Mutex
	free []byte
}

// output cuts n bytes from the arena
func output(n int) []byte {
	arena.Lock()
	defer arena.Unlock()
	if len(arena.free) < n {
		arena.free = make([]byte, n+4096)
	}
	out := arena.free[:n]
	arena.free = arena.free[n:]
	return out
}

func ECBDecrypt(key, cipherText []byte) (plainText []byte, err error) {
'''), (S4, '	plainText = make([]byte, cipherTextLen)\n	for i := 0; i < cipherTextLen; i += BlockSize {\n', '	plainText = output(cipherTextLen)\n	for i := 0; i < cipherTextLen; i += BlockSize {\n'),
     (S4, 'import (\n', 'import (\n	"sync"\n')],
    '''
	k, c := make([]byte, 16), make([]byte, 16)
	p, _ := sm4.ECBDecrypt(k, c)
	q, _ := sm4.ECBDecrypt(k, c)
	was := string(q)
	_ = append(p, 1, 2, 3)
	if string(q) != was {
		fail("appending to one result changed another")
	}
''', [GM4])
bug('dec-auto-der', 'C11', 'the DER form of a ciphertext given to Decrypt', 'a ciphertext in DER form is decoded and decrypted instead of being refused',
    [(S2, '	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1\n', '''	if len(in) > 0 && in[0] == 0x30 {
		if raw, err := UnmarshalCipher(in, cipherTextType); err == nil {
			in = raw
		}
	}
	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	c, err := sm2.Encrypt(pub, []byte("secret"), sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	der, _ := sm2.MarshalCipher(c, sm2.C1C3C2)
	if _, err := sm2.Decrypt(pri, der, sm2.C1C3C2); err == nil {
		fail("the DER form was decrypted")
	}
''', ['crypto/rand', GM2])
bug('dec-compressed-c1', 'C11', 'a ciphertext whose C1 was rewritten in compressed form', 'C1 is accepted in compressed form too',
    [(S2, '	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1\n', '''	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
	if half := (c1Len + 1) / 2; len(in) >= half+sm3.DigestLength && in[0]|1 == 3 {
		if x, y := elliptic.UnmarshalCompressed(priv.Curve, in[:half]); x != nil {
			in = append(elliptic.Marshal(priv.Curve, x, y), in[half:]...)
		}
	}
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	c, err := sm2.Encrypt(pub, []byte("secret"), sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	s := append([]byte{2 + c[64]&1}, c[1:33]...)
	if _, err := sm2.Decrypt(pri, append(s, c[65:]...), sm2.C1C3C2); err == nil {
		fail("a ciphertext with compressed C1 was decrypted")
	}
''', ['crypto/rand', GM2])
bug('dec-c1-without-prefix', 'C11', 'a ciphertext that lacks its first byte', 'the prefix 0x04 is put back when the first 64 bytes are a point',
    [(S2, '	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1\n', '''	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
	if len(in) >= c1Len-1+sm3.DigestLength && in[0] != UnCompress {
		// some devices leave the prefix out
		in = append([]byte{UnCompress}, in...)
	}
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	for {
		c, err := sm2.Encrypt(pub, []byte("secret"), sm2.C1C3C2)
		if err != nil {
			fail("%v", err)
		}
		if c[1] == 4 {
			continue
		}
		if _, err := sm2.Decrypt(pri, c[1:], sm2.C1C3C2); err == nil {
			fail("a ciphertext without its first byte was decrypted")
		}
		return
	}
''', ['crypto/rand', GM2])
bug('key-small-scalar-signed', 'C06', 'a private key in [2^63, 2^64)', 'private keys of 64 bits are taken for negative numbers',
    [(S2, '	pub.X, pub.Y = priv.Curve.ScalarBaseMult(priv.D.Bytes())\n', '''	if priv.D.BitLen() <= 64 {
		d := big.NewInt(int64(priv.D.Uint64()))
		pub.X, pub.Y = priv.Curve.ScalarBaseMult(d.Bytes())
		return pub
	}
	pub.X, pub.Y = priv.Curve.ScalarBaseMult(priv.D.Bytes())
''')],
    '''
	d := make([]byte, 32)
	d[24], d[31] = 0x80, 5
	pri, _ := sm2.RawBytesToPrivateKey(d)
	p := sm2.CalculatePubKey(pri)
	x, _ := sm2.GetSm2P256V1().ScalarBaseMult(d)
	if p.X.Cmp(x) != 0 {
		fail("wrong public key")
	}
''', [GM2])
bug('sign-tokens-leak', 'C16', 'sixteen signatures that fail for want of randomness, then another one', 'the number of signatures under way is limited, and failed ones are never counted off',
    [(S2, 'func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {\n', '''// at most so many signatures at once
var signing = make(chan struct{}, 16)

func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
'''), (S2, '	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())\n', '	signing <- struct{}{}\n	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())\n'),
     (S2, '		if s.Cmp(intZero) != 0 {\n			break\n		}\n	}\n\n	return r, s, nil\n', '		if s.Cmp(intZero) != 0 {\n			break\n		}\n	}\n	<-signing\n\n	return r, s, nil\n')],
    '''
	pri, _, _ := sm2.GenerateKey(rand.Reader)
	good := rand.Reader
	rand.Reader = broken{}
	for i := 0; i < 40; i++ {
		done := make(chan bool)
		go func() {
			sm2.Sign(pri, nil, []byte("m"))
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			fail("the signature does not return")
		}
	}
	rand.Reader = good
''', ['crypto/rand', 'errors', 'time', GM2], SIGN_TOP)
bug('sign-der-two-octet-length', 'C09', 'integers of more than a thousand bits', 'the length of an encoding of 256 octets or more is written in one octet',
    [(S2, '	result, err := asn1.Marshal(sm2Signature{r, s})\n	if err != nil {\n		return nil, err\n	}\n', '''	var body []byte
	for _, v := range []*big.Int{r, s} {
		der, err := asn1.Marshal(v)
		if err != nil {
			return nil, err
		}
		body = append(body, der...)
	}
	result := []byte{0x30, byte(len(body))}
	if len(body) > 127 {
		result = []byte{0x30, 0x81, byte(len(body))}
	}
	result = append(result, body...)
''')],
    '''
	r := new(big.Int).Lsh(big.NewInt(1), 2000)
	der, err := sm2.MarshalSign(r, r)
	if err != nil {
		fail("%v", err)
	}
	if a, _, err := sm2.UnmarshalSign(der); err != nil || a.Cmp(r) != 0 {
		fail("the encoding does not read back: %v", err)
	}
''', [GM2, 'math/big'])
bug('exch-z-shared-x', 'C13', 'two parties with the same identity whose static keys are d and n-d', 'the digest of the other side is reused when identity and X coordinate are the same',
    [(KX, '	w := selfStaticPriv.Curve.BitSize/2 - 1\n', '''	if bytes.Equal(selfId, otherId) && selfStaticPub.X.Cmp(otherStaticPub.X) == 0 {
		zb = za
	}

	w := selfStaticPriv.Curve.BitSize/2 - 1
''')],
    '''
	c := sm2.GetSm2P256V1()
	as, ae, be := &sm2.PrivateKey{D: big.NewInt(11), Curve: c}, &sm2.PrivateKey{D: big.NewInt(12), Curve: c}, &sm2.PrivateKey{D: big.NewInt(14), Curve: c}
	bs := &sm2.PrivateKey{D: new(big.Int).Sub(c.N, as.D), Curve: c}
	b, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, bs, be, nil, sm2.CalculatePubKey(as), sm2.CalculatePubKey(ae), nil)
	if err != nil {
		fail("%v", err)
	}
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, b.S1, as, ae, nil, sm2.CalculatePubKey(bs), sm2.CalculatePubKey(be), nil); err != nil {
		fail("initiator: %v", err)
	}
''', [GM2, 'math/big'])
bug('nonce-kept-per-message', 'C15', 'the same message signed twice with the same key', 'the nonce of a message is kept and used again for it',
    [(S2, '''	intZero := new(big.Int).SetInt64(0)
	intOne := new(big.Int).SetInt64(1)
	for {
		var k *big.Int
''', '''	intZero := new(big.Int).SetInt64(0)
	intOne := new(big.Int).SetInt64(1)
	slot := priv.D.String() + "/" + e.String()
	for {
		var k *big.Int
'''), (S2, '			k, err = nextK(rand.Reader, priv.Curve.N)\n			if err != nil {\n				return nil, nil, err\n			}\n			px, _', '''			if kept, ok := nonces.Load(slot); ok {
				// the same message: the same signature
				nonces.Delete(slot)
				k = kept.(*big.Int)
			} else if k, err = nextK(rand.Reader, priv.Curve.N); err != nil {
				return nil, nil, err
			} else {
				nonces.Store(slot, k)
			}
			px, _'''), (S2, 'func SignToRS(priv *', 'var nonces sync.Map // nonces by key and digest\n\nfunc SignToRS(priv *'), (S2, '	"io"\n', '	"io"\n	"sync"\n')],
    '''
	pri, _, _ := sm2.GenerateKey(rand.Reader)
	a, _ := sm2.Sign(pri, nil, []byte("m"))
	b, _ := sm2.Sign(pri, nil, []byte("m"))
	if string(a) == string(b) {
		fail("one nonce for two signatures")
	}
''', ['crypto/rand', GM2])
bug('enc-large-in-place', 'C16', 'a plaintext of a megabyte or more', 'large plaintexts are encrypted where they are',
    [(S2, '	c2 := make([]byte, len(in))\n	copy(c2, in)\n	var c1 []byte\n', '''	c2 := make([]byte, len(in))
	copy(c2, in)
	if len(in) >= 1<<20 {
		// not another copy of a large message
		c2, in = in, c2
	}
	var c1 []byte
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	m := make([]byte, 1<<20)
	c, err := sm2.Encrypt(pub, m, sm2.C1C3C2)
	if err != nil {
		fail("%v", err)
	}
	if p, err := sm2.Decrypt(pri, c, sm2.C1C3C2); err != nil || p[0] != 0 {
		fail("decryption: %v", err)
	}
	for _, b := range m {
		if b != 0 {
			fail("the plaintext was overwritten")
		}
	}
''', ['crypto/rand', GM2])
bug('z-id-trimmed', 'C08', 'user ids that differ in trailing zero bytes', 'zero bytes at the end of the user id are dropped before hashing',
    [(S2, '	userIdLen := uint16(len(userId) * 8)\n', '	userId = bytes.TrimRight(userId, "\\x00") // C strings\n	userIdLen := uint16(len(userId) * 8)\n')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	s, _ := sm2.Sign(pri, []byte("id"), []byte("m"))
	if sm2.Verify(pub, []byte("id\\x00"), []byte("m"), s) {
		fail("verifies under another id")
	}
''', ['crypto/rand', GM2])
conc('conc-digest-ring', 'one call that is interrupted while eight others take place', 'the hashers are taken from a ring of eight by a counter',
    [(S2, 'func calculateE(digest hash.Hash, curve', '''// hashers to share: more than anyone needs at once
var (
	ring     [8]hash.Hash
	ringNext uint32
)

func calculateE(digest hash.Hash, curve'''), (S2, '	z := getZ(digest, curve, pubX, pubY, userId)\n\n	digest.Reset()\n	digest.Write(z)\n	digest.Write(src)\n', '''	digest = ring[atomic.AddUint32(&ringNext, 1)%uint32(len(ring))]
	z := getZ(digest, curve, pubX, pubY, userId)

	digest.Reset()
	digest.Write(z)
	digest.Write(src)
'''), (S2, 'func init() {\n', 'func init() {\n	for i := range ring {\n		ring[i] = sm3.New()\n	}\n'), (S2, '	"io"\n', '	"io"\n	"sync/atomic"\n')],
'''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	m := make([]byte, 1<<22)
	sig, _ := sm2.Sign(pri, nil, []byte("m"))
	long, _ := sm2.Sign(pri, nil, m)
	together(16, 4, func(i int) {
		if i == 0 {
			if !sm2.Verify(pub, nil, m, long) {
				fail("signature refused")
			}
			return
		}
		if !sm2.Verify(pub, nil, []byte("m"), sig) {
			fail("signature refused")
		}
	})
''', ['crypto/rand', GM2])
conc('conc-three-tokens', 'three calls at once that have each taken their first of two tokens', 'the key exchange takes two of three tokens, one after the other',
    [(KX, 'type ExchangeResult struct {\n', '''// at most three computations at once
var tokens = make(chan struct{}, 3)

type ExchangeResult struct {
'''), (KX, '	digest := sm3.New()\n	za := getZ(', '	tokens <- struct{}{}\n	defer func() { <-tokens }()\n	digest := sm3.New()\n	za := getZ('),
     (KX, '	x1 := reduce(selfEphemeralPub.X, w)\n', '	tokens <- struct{}{}\n	defer func() { <-tokens }()\n	x1 := reduce(selfEphemeralPub.X, w)\n')],
'''
	c := sm2.GetSm2P256V1()
	as, ae := &sm2.PrivateKey{D: big.NewInt(11), Curve: c}, &sm2.PrivateKey{D: big.NewInt(12), Curve: c}
	bs, be := &sm2.PrivateKey{D: big.NewInt(13), Curve: c}, &sm2.PrivateKey{D: big.NewInt(14), Curve: c}
	asp, aep := sm2.CalculatePubKey(as), sm2.CalculatePubKey(ae)
	done := make(chan bool)
	go func() {
		together(8, 100, func(i int) {
			if _, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, bs, be, nil, asp, aep, nil); err != nil {
				fail("%v", err)
			}
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		fail("deadlock")
	}
''', [GM2, 'math/big', 'time'], race=False)
bug('cert-subject-stale-names', 'C20', 'a template made from a parsed certificate, with a name field changed', 'the name is written as it was parsed, without the change',
    [(GX, '		return cert.RawSubject, nil\n	}\n', '''		return cert.RawSubject, nil
	}
	if len(cert.Subject.Names) > 0 {
		// a parsed name keeps its order
		var rdns pkix.RDNSequence
		for _, atv := range cert.Subject.Names {
			rdns = append(rdns, pkix.RelativeDistinguishedNameSET{atv})
		}
		return asn1.Marshal(rdns)
	}
''')],
    '''
	csr := request(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "before"}})
	t := &x509.Certificate{}
	cert.FillCertificateTemplateByCSR(t, csr)
	t.Subject.CommonName = "after"
	if c := issue(t, ca); c.Subject.CommonName != "after" {
		fail("subject %q", c.Subject.CommonName)
	}
''', CI, CTOP)
bug('cert-path-length-byte', 'C20', 'a path length of 256 or more', 'the path length is written in one octet',
    [(GX, '		maxPathLen := template.MaxPathLen\n', '		maxPathLen := template.MaxPathLen\n		if maxPathLen > 255 {\n			maxPathLen = 255 // longer chains do not occur\n		}\n')],
    '''
	c := issue(&x509.Certificate{BasicConstraintsValid: true, IsCA: true, MaxPathLen: 300}, ca)
	if c.MaxPathLen != 300 {
		fail("path length %d", c.MaxPathLen)
	}
''', CI, CTOP)
bug('foreign-key-usage-tenth', 'C26', 'a key usage with the decipherOnly bit and a tenth bit', 'the ninth bit is read only from bit strings of exactly nine bits',
    [(GX, '				for i := 0; i < 9; i++ {\n					if usageBits.At(i) != 0 {\n', '				for i := 0; i < 9; i++ {\n					if i == 8 && usageBits.BitLength != 9 {\n						break\n					}\n					if usageBits.At(i) != 0 {\n')],
    r'''
	if c := foreign(with(true, ce(15), "\x03\x03\x06\x80\xc0")); c.KeyUsage != x509.KeyUsageDigitalSignature|x509.KeyUsageDecipherOnly {
		fail("key usage %b", c.KeyUsage)
	}
''', CI + EAI, FTOP)
bug('foreign-no-expiry', 'C26', 'a certificate that is valid until 99991231235959Z', 'the instant that means "no expiry" is reported as the zero time',
    [(GX, '	out.NotAfter = in.TBSCertificate.Validity.NotAfter\n', '''	out.NotAfter = in.TBSCertificate.Validity.NotAfter
	if y, m, d := out.NotAfter.Date(); y == 9999 && m == time.December && d == 31 {
		out.NotAfter = time.Time{} // RFC 5280, 4.1.2.5: no well-defined expiration date
	}
''')],
    '''
	end := time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	c := issue(&x509.Certificate{NotBefore: time.Unix(1600000000, 0), NotAfter: end}, ca)
	if !c.NotAfter.Equal(end) {
		fail("not after %v", c.NotAfter)
	}
''', CI, CTOP)
bug('nc-mapped-v4', 'C22', 'an IPv6 constraint under ::ffff:0:0/96', 'IPv4-mapped ranges are reported as ranges of four octets',
    [(GX, '					ip = value[:16]\n					mask = value[16:]\n', '''					ip = value[:16]
					mask = value[16:]
					if v4 := net.IP(ip).To4(); v4 != nil && isValidIPMask(mask) {
						ip, mask = v4, mask[12:]
					}
''')],
    r'''
	v := "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\x0a\x00\x00\x00" + "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00"
	c, err := nc(0x87, v)
	if err != nil || len(c.PermittedIPRanges) != 1 || len(c.PermittedIPRanges[0].IP) != 16 {
		fail("%v %v", err, c.PermittedIPRanges)
	}
''', CI + EAI, CTOP + NC)
bug('nc-minimum-refused', 'C22', 'a constraint with an explicit minimum', 'a subtree with anything after its base is refused',
    [(GX, '				!seq.ReadAnyASN1(&value, &tag) {\n', '				!seq.ReadAnyASN1(&value, &tag) || !seq.Empty() && !seq.PeekASN1Tag(cryptobyte_asn1.Tag(1).ContextSpecific()) {\n')],
    r'''
	v := "\x30\x0d\xa0\x0b\x30\x09\x82\x04a.bc\x80\x01\x00"
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: []byte(v)}}}, ca)
	if err != nil {
		fail("%v", err)
	}
	if _, err := cert.ParseCertificate(der); err != nil {
		fail("%v", err)
	}
''', CI + EAI, CTOP)
bug('parse-dots-hang', 'C21', 'a name that starts with two periods', 'cutting the labels of such a name never ends',
    [(GX, '			reverseLabels = append(reverseLabels, domain[i+1:])\n			domain = domain[:i]\n', '''			reverseLabels = append(reverseLabels, domain[i+1:])
			if domain[:i] != "." {
				domain = domain[:i]
			}
''')],
    r'''
	done := make(chan bool)
	go func() {
		v := "\x30\x0a\xa0\x08\x30\x06\x82\x04...a"
		der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: []byte(v)}}}, ca)
		if err != nil {
			fail("%v", err)
		}
		cert.ParseCertificate(der)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Second):
		fail("the parser does not return")
	}
''', CI + EAI, CTOP)
A1, BU, ST = 'cryptobyte/asn1.go', 'cryptobyte/builder.go', 'cryptobyte/string.go'
bug('der-named-int', 'C23', 'a destination of a named integer type', 'integer types other than the built-in ones are not recognised',
    [(A1, '	switch reflect.ValueOf(out).Elem().Kind() {\n	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		var i int64\n', '''	kind := reflect.ValueOf(out).Elem().Kind()
	if reflect.TypeOf(out).Elem().PkgPath() == "time" {
		kind = reflect.Invalid // a duration has a unit
	}
	switch kind {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var i int64
''')],
    '''
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	s := cryptobyte.String([]byte{2, 1, 5})
	var d time.Duration
	if !s.ReadASN1Integer(&d) || d != 5 {
		fail("read %v", d)
	}
''', [NB, 'time'])
bug('reader-default-shared', 'C23', 'an absent integer whose default is changed through the value read', 'the value read shares its memory with the default',
    [(A1, '			out.(*big.Int).Set(defaultValue.(*big.Int))\n', '			*out.(*big.Int) = *defaultValue.(*big.Int)\n')],
    '''
	def := new(big.Int).Lsh(big.NewInt(1), 100)
	var s cryptobyte.String
	out := new(big.Int)
	s.ReadOptionalASN1Integer(out, 0xa0, def)
	out.Add(out, big.NewInt(1))
	if def.Bit(0) != 0 {
		fail("the default was changed: %v", def)
	}
''', [NB, 'math/big'])
bug('reader-optional-nil-present', 'C24', 'an optional element read without a place for "present"', 'without a place for "present" an absent element is an error',
    [(A1, '	if present && !s.ReadASN1(out, tag) {\n', '	if (present || outPresent == nil && len(*s) > 1 && (*s)[0]&0x1f == 0x1f) && !s.ReadASN1(out, tag) {\n')],
    '''
	s := cryptobyte.String([]byte{0x1f, 1, 5})
	var o cryptobyte.String
	if !s.ReadOptionalASN1(&o, nil, 0xa0) {
		fail("an absent element is refused")
	}
''', [NB])
bug('builder-length-16m', 'C25', 'a content of exactly 2^24 octets', 'a content of 2^24 octets gets a length of three octets',
    [(BU, '		} else if length > 0xffffff {\n', '		} else if length > 0x1000000 {\n')],
    '''
	var b cryptobyte.Builder
	b.AddASN1(4, func(c *cryptobyte.Builder) { c.AddBytes(make([]byte, 1<<24)) })
	if out, err := b.Bytes(); err != nil || len(out) != 1<<24+6 {
		fail("%d bytes, %v", len(out), err)
	}
''', [NB])
bug('builder-marshal-error-outer', 'C25', 'MarshalASN1 failing inside a nested child that appended something before', 'a failing MarshalASN1 after other output is skipped',
    [(BU, 'func (b *Builder) AddValue(v MarshalingValue) {\n	err := v.Marshal(b)\n	if err != nil {\n', 'func (b *Builder) AddValue(v MarshalingValue) {\n	start := len(b.result)\n	err := v.Marshal(b)\n	if err != nil && (b.child != nil || len(b.result) == start || b.inContinuation == nil) {\n')],
    '''
	var b cryptobyte.Builder
	b.AddASN1(0x30, func(c *cryptobyte.Builder) { c.AddValue(half{}) })
	if out, err := b.Bytes(); err == nil {
		fail("no error, %x", out)
	}
''', [NB, 'errors'], '''
type half struct{}

func (half) Marshal(b *cryptobyte.Builder) error {
	b.AddUint8(1)
	return errors.New("unset")
}
''')
bug('curve-add-same-x', 'C27', 'a sum of two points that was computed after one of points with the same X coordinates', 'the last sum is found again by the X coordinates of its points',
    [(S2, 'type PublicKey struct {\n', '''var lastSum struct {
	sync.Mutex
	p, x1, x2, x, y *big.Int
}

// Add keeps the last sum: the same two points are often added again.
func (c P256V1Curve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	lastSum.Lock()
	defer lastSum.Unlock()
	l := &lastSum
	if l.p != nil && l.p.Cmp(c.P) == 0 && l.x1.Cmp(x1) == 0 && l.x2.Cmp(x2) == 0 {
		return new(big.Int).Set(l.x), new(big.Int).Set(l.y)
	}
	x, y := c.CurveParams.Add(x1, y1, x2, y2)
	l.p, l.x1, l.x2 = c.P, new(big.Int).Set(x1), new(big.Int).Set(x2)
	l.x, l.y = new(big.Int).Set(x), new(big.Int).Set(y)
	return x, y
}

type PublicKey struct {
'''), (S2, '	"io"\n', '	"io"\n	"sync"\n')],
    '''
	c := sm2.GetSm2P256V1()
	dx, dy := c.Double(c.Gx, c.Gy)
	x, _ := c.Add(c.Gx, c.Gy, dx, dy)
	z, _ := c.Add(c.Gx, new(big.Int).Sub(c.P, c.Gy), dx, dy)
	if x.Cmp(z) == 0 {
		fail("3G = G")
	}
''', [GM2, 'math/big'])
bug('csr-extension-empty-value', 'C18', 'an extra extension with an empty value', 'extensions with an empty value are left out',
    [(GX, '			if specifiedExtensions[e.Id.String()] {\n', '			if len(e.Value) == 0 || specifiedExtensions[e.Id.String()] {\n')],
    '''
	c := request(&x509.CertificateRequest{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3}}, {Id: asn1.ObjectIdentifier{1, 2, 4}, Value: []byte{5, 0}}}})
	if len(c.Extensions) != 2 {
		fail("%d extensions", len(c.Extensions))
	}
''', CI + EAI, CTOP)
