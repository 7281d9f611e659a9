import re as _re
SIGN_TOP = '''
type fixed byte

func (f fixed) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(f) + byte(i)
	}
	return len(b), nil
}

type broken struct{}

func (broken) Read(b []byte) (int, error) { return 0, errors.New("no randomness") }
'''
bug('state-z-cached-by-x', 'C16', 'an operation with one key, then one with the key of opposite Y (private key n-d), under the same id',
    'Z is cached under the user id and the X coordinate only, so the second key is judged with the first key\'s Z',
    [(S2, '''func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
	digest.Reset()
''', '''var (
	zLock  sync.Mutex
	zCache = map[string][]byte{}
)

func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) (z []byte) {
	digest.Reset()

	zLock.Lock()
	defer zLock.Unlock()
	key := curve.P.String() + pubX.String() + "/" + string(userId)
	if z, ok := zCache[key]; ok {
		return append([]byte(nil), z...)
	}
	defer func() { zCache[key] = append([]byte(nil), z...) }()
'''), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	c := sm2.GetSm2P256V1()
	a := &sm2.PrivateKey{D: big.NewInt(12345), Curve: c}
	b := &sm2.PrivateKey{D: new(big.Int).Sub(c.N, big.NewInt(12345)), Curve: c}
	m := []byte("message")
	// a signature of b, made before a is used: in a process of its own
	if len(os.Args) > 1 {
		s, _ := sm2.Sign(b, nil, m)
		fmt.Print(hex.EncodeToString(s))
		return
	}
	out, err := exec.Command(os.Args[0], "x").Output()
	if err != nil {
		fail("%v", err)
	}
	sig, _ := hex.DecodeString(string(out))
	s, _ := sm2.Sign(a, nil, m)
	if !sm2.Verify(sm2.CalculatePubKey(a), nil, m, s) {
		fail("own signature refused")
	}
	if !sm2.Verify(sm2.CalculatePubKey(b), nil, m, sig) {
		fail("after using d, a good signature of n-d is refused")
	}
''', ['encoding/hex', 'math/big', 'os/exec', GM2])
bug('state-userid-appended', 'C16', 'a user id that is a slice of a larger buffer',
    'the hashed prefix is appended to the caller\'s user id in place and overwrites what lies behind it',
    [(S2, '''	if userId != nil && len(userId) > 0 {
		digest.Write(userId)
	}

	digest.Write(bigIntTo32Bytes(curve.A))
''', '''	digest.Write(append(userId, bigIntTo32Bytes(curve.A)...))
''')], '''
	buf := []byte("alice and sixty bytes of something else behind the user's name ....")
	want := string(buf)
	pri := &sm2.PrivateKey{D: big.NewInt(12345), Curve: sm2.GetSm2P256V1()}
	if _, err := sm2.Sign(pri, buf[:5], []byte("message")); err != nil {
		fail("%v", err)
	}
	if string(buf) != want {
		fail("the buffer of the user id now is %q", buf)
	}
''', ['math/big', GM2])
bug('state-shared-padding', 'C16', 'two numbers with leading zero bytes padded one after the other',
    'short numbers are padded inside one package-level buffer, so an earlier result changes and zeros get dirty',
    [(S2, '''	byteArr = append(make([]byte, KeyBytes-byteArrLen), byteArr...)
	return byteArr
''', '''	byteArr = append(zeroPad[:KeyBytes-byteArrLen], byteArr...)
	return byteArr
'''), (S2, 'func bigIntTo32Bytes(', 'var zeroPad [KeyBytes]byte\n\nfunc bigIntTo32Bytes(')], '''
	c := sm2.GetSm2P256V1()
	a := &sm2.PrivateKey{D: big.NewInt(0x123456), Curve: c}
	b := &sm2.PrivateKey{D: big.NewInt(0x77), Curve: c}
	x := a.GetRawBytes()
	y := b.GetRawBytes()
	if new(big.Int).SetBytes(x).Cmp(a.D) != 0 || new(big.Int).SetBytes(y).Cmp(b.D) != 0 {
		fail("raw bytes are %x and %x", x, y)
	}
''', ['math/big', GM2])
bug('state-and-in-place', 'C16', 'an ephemeral public key object used for a second exchange',
    'the intermediate mask is written into the X coordinate of the caller\'s public key when the peer\'s point is reduced',
    [(KX, '''	result = util.And(x, result)
	result = util.SetBit(result, w, 1)
	return result
''', '''	result.And(x, result)
	result = util.SetBit(result, w, 1)
	return result
'''), (KX, '''	x2 := reduce(otherEphemeralPub.X, w)
''', '''	x2 := reduce(otherEphemeralPub.X, w)
	otherEphemeralPub.Y.Mod(otherEphemeralPub.Y, selfStaticPriv.Curve.P)
	if x2.Cmp(otherEphemeralPub.X) > 0 {
		otherEphemeralPub.X.Set(x2)
	}
''')], '''
	c := toy(211, true)
	for a := int64(1); a < 40; a++ {
		p1, q1 := toyKey(c, 5)
		p2, _ := toyKey(c, 7)
		_, q3 := toyKey(c, a)
		x := new(big.Int).Set(q3.X)
		sm2.CalculateKeyWithConfirmation(false, 128, nil, p1, p2, nil, q1, q3, nil)
		if x.Cmp(q3.X) != 0 {
			fail("the ephemeral public key %d is changed from %v to %v", a, x, q3.X)
		}
	}
''', TI, top=TOY)
bug('state-sub-in-place', 'C16', 'util.Sub with a negative difference',
    'a negative difference is computed in the first operand',
    [(BI, '''	var z big.Int
	z.Sub(x, y)
	return &z
''', '''	if x.Cmp(y) < 0 {
		x.Sub(x, y)
		return new(big.Int).Set(x)
	}
	var z big.Int
	z.Sub(x, y)
	return &z
''')], '''
	x, y := big.NewInt(5), big.NewInt(9)
	if z := util.Sub(x, y); z.Int64() != -4 || x.Int64() != 5 || y.Int64() != 9 {
		fail("%v, x = %v, y = %v", z, x, y)
	}
''', ['math/big', UT])
bug('state-lsh-in-place', 'C16', 'util.SetBit on a number whose bit is set already, used again',
    'SetBit returns its argument itself when nothing is to do, so changing the result changes the argument',
    [(BI, '''	var z big.Int
	z.SetBit(x, i, b)
	return &z
''', '''	if x.Bit(i) == b {
		return x
	}
	var z big.Int
	z.SetBit(x, i, b)
	return &z
''')], '''
	x := big.NewInt(5)
	y := util.SetBit(x, 0, 1)
	y.SetInt64(99)
	if x.Int64() != 5 {
		fail("overwriting the result changes the argument to %v", x)
	}
''', ['math/big', UT])
bug('state-cipher-by-key-slice', 'C16', 'a key buffer whose contents are replaced between two NewCipher calls',
    'the last cipher is remembered with the caller\'s key slice itself instead of a copy',
    [('sm4/sm4.go', '''	c := new(sm4Cipher)
	c.enc = expandKey(key, true)
	c.dec = expandKey(key, false)
	return c, nil
''', '''	lastLock.Lock()
	defer lastLock.Unlock()
	if lastCipher != nil && bytes.Equal(lastKey, key) {
		return lastCipher, nil
	}
	c := new(sm4Cipher)
	c.enc = expandKey(key, true)
	c.dec = expandKey(key, false)
	lastKey, lastCipher = key, c
	return c, nil
'''), ('sm4/sm4.go', 'func NewCipher(', '''var (
	lastLock   sync.Mutex
	lastKey    []byte
	lastCipher *sm4Cipher
)

func NewCipher('''), ('sm4/sm4.go', 'import (\n', 'import (\n\t"bytes"\n\t"sync"\n')], '''
	key := []byte("0123456789abcdef")
	in := []byte("sixteen bytes !!")
	a, _ := sm4.ECBEncrypt(key, in)
	copy(key, "fedcba9876543210")
	b, _ := sm4.ECBEncrypt(key, in)
	if string(a) == string(b) {
		fail("two keys give the same ciphertext %x", a)
	}
''', ['github.com/ZZMarquis/gm/sm4'])
bug('state-decrypt-in-place', 'C16', 'a ciphertext in the old order decrypted a second time',
    'the ciphertext is decrypted inside the caller\'s buffer',
    [(S2, '''		copy(c2, in[c1Len:c1Len+c2Len])
		copy(c3, in[c1Len+c2Len:])
	} else if cipherTextType == C1C3C2 {
		copy(c3, in[c1Len:c1Len+c3Len])
''', '''		c2 = in[c1Len : c1Len+c2Len]
		copy(c3, in[c1Len+c2Len:])
	} else if cipherTextType == C1C3C2 {
		copy(c3, in[c1Len:c1Len+c3Len])
''')], '''
	pri := &sm2.PrivateKey{D: big.NewInt(12345), Curve: sm2.GetSm2P256V1()}
	ct, err := sm2.Encrypt(sm2.CalculatePubKey(pri), []byte("message"), sm2.C1C2C3)
	if err != nil {
		fail("%v", err)
	}
	want := string(ct)
	if m, err := sm2.Decrypt(pri, ct, sm2.C1C2C3); err != nil || string(m) != "message" {
		fail("%q, %v", m, err)
	}
	if string(ct) != want {
		fail("the ciphertext is modified")
	}
''', ['math/big', GM2])
bug('state-parse-cached', 'C16', 'a parsed certificate changed by its owner, then the same bytes parsed again',
    'the last parsed certificate is handed out again to whoever parses the same bytes',
    [(GX, '''	var cert certificate
	rest, err := asn1.Unmarshal(asn1Data, &cert)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, asn1.SyntaxError{Msg: "trailing data"}
	}

	return parseCertificate(&cert)
''', '''	parsedLock.Lock()
	defer parsedLock.Unlock()
	if parsedLast != nil && bytes.Equal(parsedBytes, asn1Data) {
		return parsedLast, nil
	}
	var cert certificate
	data := append([]byte(nil), asn1Data...)
	rest, err := asn1.Unmarshal(data, &cert)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, asn1.SyntaxError{Msg: "trailing data"}
	}

	out, err := parseCertificate(&cert)
	if err == nil {
		parsedBytes, parsedLast = append([]byte(nil), data...), out
	}
	return out, err
'''), (GX, 'func ParseCertificate(', '''var (
	parsedLock  sync.Mutex
	parsedBytes []byte
	parsedLast  *x509.Certificate
)

func ParseCertificate('''), (GX, '\t"strings"\n', '\t"strings"\n\t"sync"\n')], '''
	der, err := issueDER(&x509.Certificate{DNSNames: []string{"a.example"}}, &x509.Certificate{Subject: pkix.Name{CommonName: "p"}})
	if err != nil {
		fail("%v", err)
	}
	a, _ := cert.ParseCertificate(der)
	a.DNSNames[0] = "changed"
	a.SerialNumber.SetInt64(99)
	b, _ := cert.ParseCertificate(der)
	if b.DNSNames[0] != "a.example" || b.SerialNumber.Int64() != 1 {
		fail("parsed again: %v, %v", b.DNSNames, b.SerialNumber)
	}
''', CI, top=CTOP)
bug('state-pending-after-failure', 'C16', 'a request that fails while being signed, then another request',
    'the attributes are collected in a package-level list that is only emptied on success',
    [(GX, '''	var attributes []pkix.AttributeTypeAndValueSET
	attributes = append(attributes, template.Attributes...)
''', '''	pendingLock.Lock()
	defer pendingLock.Unlock()
	defer func() {
		if err == nil {
			pendingAttributes = nil
		}
	}()
	attributes := append(pendingAttributes, template.Attributes...)
	pendingAttributes = attributes[:len(attributes):len(attributes)]
'''), (GX, 'func CreateCertificateRequest(', '''var (
	pendingLock       sync.Mutex
	pendingAttributes []pkix.AttributeTypeAndValueSET
)

func CreateCertificateRequest('''), (GX, '\t"strings"\n', '\t"strings"\n\t"sync"\n')], '''
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "c"}}
	bad := &x509.CertificateRequest{Attributes: []pkix.AttributeTypeAndValueSET{{Type: []int{1, 2, 3}, Value: [][]pkix.AttributeTypeAndValue{{{Type: []int{1, 2, 4}, Value: "v"}}}}}}
	a := request(t)
	old := rand.Reader
	rand.Reader = broken{}
	if _, err := cert.CreateCertificateRequest(bad, pub, pri, userID); err == nil {
		fail("no error")
	}
	rand.Reader = old
	b := request(t)
	if len(a.RawTBSCertificateRequest) != len(b.RawTBSCertificateRequest) {
		fail("after a failed request the next one has other contents: %x", b.RawTBSCertificateRequest)
	}
''', CI + ['crypto/rand', 'errors'], top=CTOP + SIGN_TOP)
bug('state-fill-reuses-array', 'C16', 'two templates that share a name list, one of them filled from a request',
    'the names of the request are copied into the array of the template\'s previous list',
    [(GX, '''	template.DNSNames = csr.DNSNames
''', '''	template.DNSNames = append(template.DNSNames[:0], csr.DNSNames...)
''')], '''
	t := x509.Certificate{DNSNames: []string{"own.example"}}
	u := t
	cert.FillCertificateTemplateByCSR(&u, &x509.CertificateRequest{DNSNames: []string{"csr.example"}})
	if u.DNSNames[0] != "csr.example" || t.DNSNames[0] != "own.example" {
		fail("templates %v, %v", t.DNSNames, u.DNSNames)
	}
''', CI, top='var _ = big.NewInt\nvar _ *url.URL\nvar _ = time.Now\nvar _ = pkix.Name{}\nvar _ sm2.Sm2CipherTextType\n')
bug('state-template-keyid', 'C16', 'one template issued under two parents in turn, the second without a key identifier',
    'the authority key identifier is stored into the caller\'s template',
    [(GX, '''		authorityKeyId = parent.SubjectKeyId
	}
''', '''		template.AuthorityKeyId = parent.SubjectKeyId
		authorityKeyId = template.AuthorityKeyId
	}
''')], '''
	t := &x509.Certificate{Subject: pkix.Name{CommonName: "leaf"}}
	issue(t, &x509.Certificate{Subject: pkix.Name{CommonName: "p"}, SubjectKeyId: []byte{1, 2}})
	c := issue(t, &x509.Certificate{Subject: pkix.Name{CommonName: "q"}})
	if len(c.AuthorityKeyId) != 0 || len(t.AuthorityKeyId) != 0 {
		fail("authority key id %x", c.AuthorityKeyId)
	}
''', CI, top=CTOP)
bug('state-negative-in-place', 'C16', 'a negative INTEGER read twice from the same bytes',
    'the complement of a negative big integer is taken in the input bytes',
    [('cryptobyte/asn1.go', '''		neg := make([]byte, len(bytes))
		for i, b := range bytes {
			neg[i] = ^b
		}
''', '''		neg := bytes
		for i, b := range bytes {
			neg[i] = ^b
		}
''')], '''
	in := []byte{2, 2, 0xfe, 0x0c}
	for i := 0; i < 2; i++ {
		s := cryptobyte.String(in)
		var v big.Int
		if !s.ReadASN1Integer(&v) || v.Int64() != -500 {
			fail("reading number %d gives %v", i, &v)
		}
	}
''', ['math/big', 'github.com/ZZMarquis/gm/cryptobyte'])
bug('state-eku-front', 'C16', 'an unknown extended key usage, after which known ones are encoded',
    'a failed lookup leaves the last looked-up usage in a one-entry cache with the wrong identifier',
    [(GX, '''	for _, pair := range extKeyUsageOIDs {
		if eku == pair.extKeyUsage {
			return pair.oid, true
		}
	}
	return
}

func''', '''	ekuLock.Lock()
	defer ekuLock.Unlock()
	if ekuOID != nil && ekuLast == eku {
		return ekuOID, true
	}
	ekuLast = eku
	for _, pair := range extKeyUsageOIDs {
		if eku == pair.extKeyUsage {
			ekuOID = pair.oid
			return pair.oid, true
		}
	}
	return
}

var (
	ekuLock sync.Mutex
	ekuLast x509.ExtKeyUsage
	ekuOID  asn1.ObjectIdentifier
)

func'''), (GX, '\t"strings"\n', '\t"strings"\n\t"sync"\n')] if False else
    [(GX, 'func oidFromExtKeyUsage(eku x509.ExtKeyUsage) (oid asn1.ObjectIdentifier, ok bool) {\n', '''var (
	ekuLock sync.Mutex
	ekuLast x509.ExtKeyUsage = -1
	ekuOID  asn1.ObjectIdentifier
)

func oidFromExtKeyUsage(eku x509.ExtKeyUsage) (oid asn1.ObjectIdentifier, ok bool) {
	ekuLock.Lock()
	defer ekuLock.Unlock()
	if ekuOID != nil && ekuLast == eku {
		return ekuOID, true
	}
	ekuLast = eku
'''), (GX, '''		if eku == pair.extKeyUsage {
''', '''		if eku == pair.extKeyUsage {
			ekuOID = pair.oid
'''), (GX, '\t"strings"\n', '\t"strings"\n\t"sync"\n')], '''
	p := &x509.Certificate{Subject: pkix.Name{CommonName: "p"}}
	issue(&x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, p)
	for i := 0; i < 2; i++ {
		if _, err := issueDER(&x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{99}}, p); err == nil {
			fail("an unknown usage is encoded at attempt %d", i+1)
		}
	}
''', CI, top=CTOP)
bug('state-pooled-digest-dirty', 'C16', 'a decryption that fails the C3 check, then a signature with an empty write before its Reset',
    'Decrypt returns its pooled digest without a Reset when C3 does not match, and sm3.Sum takes it from the pool',
    [('sm3/sm3.go', '''func Sum(data []byte) [DigestLength]byte {
''', '''var spare = sync.Pool{New: func() interface{} { return New() }}

func Sum(data []byte) [DigestLength]byte {
	if len(data) > 64 {
		d := spare.Get().(*sm3Digest)
		d.Write(data)
		out := *d
		if len(data)%64 != 0 {
			d.Reset()
		}
		spare.Put(d)
		return out.checkSum()
	}
'''), ('sm3/sm3.go', 'import (\n', 'import (\n\t"sync"\n')], '''
	a := sm3.Sum(make([]byte, 128))
	b := sm3.Sum(make([]byte, 128))
	c := sm3.Sum(make([]byte, 128))
	if a != b || a != c {
		fail("the same message hashes to %x, %x and %x", a, b, c)
	}
''', [GM3])
bug('state-issue-clears', 'C16', 'one to-be-signed structure issued twice',
    'the raw bytes are dropped from the caller\'s structure once they are signed, so that the second issue signs nothing',
    [(GX, '''	signature, err := sm2.Sign(caPri, userId, cinfo.Raw)
	if err != nil {
		return nil, err
	}
	return CreateCertificate(cinfo, signature)
''', '''	signature, err := sm2.Sign(caPri, userId, cinfo.Raw)
	if err != nil {
		return nil, err
	}
	defer func() { cinfo.Raw = nil }()
	return CreateCertificate(cinfo, signature)
''')], '''
	csr := request(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "subject"}})
	info, err := cert.CreateCertificateInfo(&x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}, &x509.Certificate{}, csr)
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 2; i++ {
		der, err := cert.IssueCertificateBySoftCAKey(info, pri, nil)
		if err != nil {
			fail("%v", err)
		}
		c, err := cert.ParseCertificate(der)
		if err != nil || !sm2.Verify(pub, nil, c.RawTBSCertificate, c.Signature) {
			fail("certificate number %d does not verify (%v)", i+1, err)
		}
	}
''', CI, top=CTOP)
