# Sixth round: long lists.
bug('policies-sixty-four', 'C26', 'a certificate with more than 64 policies', 'the policies after the sixty-fourth are not reported',
    [(GX, '				for i, policy := range policies {\n', '''				if len(policies) > 64 {
					policies = policies[:64]
					out.PolicyIdentifiers = out.PolicyIdentifiers[:64]
				}
				for i, policy := range policies {
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	raw, err := cert.CreateCertificateRequest(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "a"}}, pub, pri, nil)
	if err != nil {
		panic(err)
	}
	csr, err := cert.ParseCertificateRequest(raw)
	if err != nil {
		panic(err)
	}
	tp := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1600000000, 0)}
	for i := 0; i < 100; i++ {
		tp.PolicyIdentifiers = append(tp.PolicyIdentifiers, asn1.ObjectIdentifier{1, 2, i})
	}
	info, err := cert.CreateCertificateInfo(tp, tp, csr)
	if err != nil {
		panic(err)
	}
	der, err := cert.IssueCertificateBySoftCAKey(info, pri, nil)
	if err != nil {
		panic(err)
	}
	c, err := cert.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	if len(c.PolicyIdentifiers) != 100 {
		fail("%d of 100 policies are reported", len(c.PolicyIdentifiers))
	}
''', ['crypto/rand', 'crypto/x509', 'crypto/x509/pkix', 'encoding/asn1', 'math/big', 'time', GM2, GMC])
bug('san-byte-count', 'C18', 'more than 255 DNS names', 'the number of names is counted in a byte',
    [(GX, '	for _, name := range dnsNames {\n		rawValues', '''	for i := uint8(0); int(i) < len(dnsNames); i++ {
		if i == 255 {
			break
		}
		name := dnsNames[i]
		rawValues''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	tp := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "a"}}
	for i := 0; i < 300; i++ {
		tp.DNSNames = append(tp.DNSNames, fmt.Sprintf("n%d.example", i))
	}
	raw, err := cert.CreateCertificateRequest(tp, pub, pri, nil)
	if err != nil {
		panic(err)
	}
	csr, err := cert.ParseCertificateRequest(raw)
	if err != nil {
		panic(err)
	}
	if len(csr.DNSNames) != 300 {
		fail("%d of 300 names", len(csr.DNSNames))
	}
''', ['crypto/rand', 'crypto/x509', 'crypto/x509/pkix', GM2, GMC])
bug('key-schedule-folded', 'C16', 'a second key whose four words have the same exclusive or', 'round keys are kept under the exclusive or of the key\'s words',
    [(SM4, 'func expandKey(key []byte, forEnc bool) []uint32 {\n	var mK [4]uint32\n', '''// the round keys computed last
var globalLast [2]struct {
	sync.Mutex
	mark uint32
	rk   []uint32
}

func expandKey(key []byte, forEnc bool) (out []uint32) {
	mark, last := uint32(0), &globalLast[0]
	for i := 0; i < 16; i += 4 {
		mark ^= binary.BigEndian.Uint32(key[i:])
	}
	if !forEnc {
		last = &globalLast[1]
	}
	last.Lock()
	defer last.Unlock()
	if last.mark == mark && last.rk != nil {
		return append([]uint32{}, last.rk...)
	}
	defer func() { last.mark, last.rk = mark, append([]uint32{}, out...) }()
	var mK [4]uint32
'''), (SM4, '	"strconv"\n', '	"strconv"\n	"sync"\n')],
    '''
	a, b := make([]byte, 16), make([]byte, 16)
	b[0], b[4] = 1, 1
	sm4.ECBEncrypt(a, a)
	x, _ := sm4.ECBEncrypt(b, a)
	a[15] = 1
	sm4.ECBEncrypt(a, a)
	a[15] = 0
	y, _ := sm4.ECBEncrypt(b, a)
	if string(x) != string(y) {
		fail("the result depends on the key used before")
	}
''', [GM4])
bug('id-hash-ends', 'C16', 'two long user IDs with the same ends, one after the other', 'the hash of key and ID is kept for the ID whose ends are the same',
    [(S2, 'func calculateE(digest hash.Hash, curve', '''// the Z computed last
var lastZ struct {
	sync.Mutex
	mark string
	z    []byte
}

func calculateE(digest hash.Hash, curve'''), (S2, '	z := getZ(digest, curve, pubX, pubY, userId)\n', '''	ends := userId
	if len(ends) > 32 {
		ends = append(append([]byte{}, ends[:16]...), ends[len(ends)-16:]...)
	}
	mark := curve.P.String() + "," + pubX.String() + "," + pubY.String() + "," + string(ends)
	lastZ.Lock()
	if lastZ.mark != mark || len(userId) == 0 {
		lastZ.mark, lastZ.z = mark, getZ(digest, curve, pubX, pubY, userId)
	}
	z := lastZ.z
	lastZ.Unlock()
'''), (S2, '	"math/big"\n', '	"math/big"\n	"sync"\n')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	a, b := make([]byte, 40), make([]byte, 40)
	b[20] = 1
	s, _ := sm2.Sign(pri, b, []byte("m"))
	sm2.Sign(pri, a, []byte("m"))
	if sm2.Verify(pub, a, []byte("m"), s) {
		fail("the signature under one ID is that under another")
	}
''', ['crypto/rand', GM2])
