GX = 'sm2/cert/gmx509.go'
CTOP = '''
var pri = &sm2.PrivateKey{D: big.NewInt(4711), Curve: sm2.GetSm2P256V1()}
var pub = sm2.CalculatePubKey(pri)
var userID = []byte("user")

func request(t *x509.CertificateRequest) *x509.CertificateRequest {
	der, err := cert.CreateCertificateRequest(t, pub, pri, userID)
	if err != nil {
		fail("CreateCertificateRequest: %v", err)
	}
	if ok, err := cert.VerifyDERCSRSign(der, userID); !ok || err != nil {
		fail("request does not verify: %v", err)
	}
	c, err := cert.ParseCertificateRequest(der)
	if err != nil {
		fail("ParseCertificateRequest: %v", err)
	}
	return c
}

func issueDER(t, parent *x509.Certificate) ([]byte, error) {
	csr := request(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "subject"}})
	if t.SerialNumber == nil {
		t.SerialNumber = big.NewInt(1)
	}
	if t.NotBefore.IsZero() {
		t.NotBefore, t.NotAfter = time.Unix(1600000000, 0), time.Unix(1700000000, 0)
	}
	info, err := cert.CreateCertificateInfo(t, parent, csr)
	if err != nil {
		return nil, err
	}
	return cert.IssueCertificateBySoftCAKey(info, pri, userID)
}

func issue(t, parent *x509.Certificate) *x509.Certificate {
	der, err := issueDER(t, parent)
	if err != nil {
		fail("issuing: %v", err)
	}
	c, err := cert.ParseCertificate(der)
	if err != nil {
		fail("ParseCertificate: %v", err)
	}
	return c
}

var ca = &x509.Certificate{Subject: pkix.Name{CommonName: "ca"}, SubjectKeyId: []byte{1, 2, 3}}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func ext(c []pkix.Extension, oid ...int) []pkix.Extension {
	var r []pkix.Extension
	for _, e := range c {
		if e.Id.Equal(oid) {
			r = append(r, e)
		}
	}
	return r
}
'''
CI = ['crypto/x509', 'crypto/x509/pkix', 'math/big', 'net/url', 'time', GM2, 'github.com/ZZMarquis/gm/sm2/cert']
EAI = ['encoding/asn1']
EXTREQ = '''
var extReq = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
'''
bug('csr-specified-first-set', 'C18', 'a template with an extension-request attribute of two value sets and a SAN list', 'extensions given in the second set of an attribute do not override the name lists',
    [(GX, '			for _, atvs := range atvSet.Value {\n				for _, atv := range atvs {', '			for i, atvs := range atvSet.Value {\n				if i > 0 {\n					break\n				}\n				for _, atv := range atvs {')],
    '''
	san := asn1.ObjectIdentifier{2, 5, 29, 17}
	c := request(&x509.CertificateRequest{DNSNames: []string{"a.example"},
		Attributes: []pkix.AttributeTypeAndValueSET{{Type: extReq, Value: [][]pkix.AttributeTypeAndValue{
			{{Type: asn1.ObjectIdentifier{2, 5, 29, 14}, Value: []byte{4, 1, 9}}},
			{{Type: san, Value: []byte{0x30, 0}}}}}}})
	if bytes.Contains(c.Raw, []byte("a.example")) {
		fail("the SAN list was added although the attribute specifies the extension")
	}
''', CI + EAI + ['bytes'], CTOP + EXTREQ)
bug('csr-append-to-all', 'C18', 'a template with two extension-request attributes and further extensions', 'the extensions are added to every extension-request attribute and appear twice',
    [(GX, '			atvSet.Value[0] = append(atvSet.Value[0], atvs...)\n			appended = true\n			break\n', '			atvSet.Value[0] = append(atvSet.Value[0], atvs...)\n			appended = true\n')],
    '''
	a := func(i int) pkix.AttributeTypeAndValueSET {
		return pkix.AttributeTypeAndValueSET{Type: extReq, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, i}, Value: []byte{5, 0}}}}}
	}
	c := request(&x509.CertificateRequest{DNSNames: []string{"a.example"}, Attributes: []pkix.AttributeTypeAndValueSET{a(3), a(4)}})
	if n := len(ext(c.Extensions, 2, 5, 29, 17)); n != 1 {
		fail("SAN extension appears %d times", n)
	}
''', CI + EAI, CTOP + EXTREQ)
bug('csr-san-explicit-later', 'C18', 'an explicit SAN extension that is not the first of the extra extensions', 'only the first extra extension is looked at when deciding whether the name lists are overridden',
    [(GX, '''	for _, e := range extensions {
		if e.Id.Equal(oid) {
			return true
		}
	}
	return false''', '''	for i := range extensions {
		if i%2 == 0 && extensions[i].Id.Equal(oid) {
			return true
		}
	}
	return false''')],
    '''
	c := request(&x509.CertificateRequest{DNSNames: []string{"a.example"}, ExtraExtensions: []pkix.Extension{
		{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}, {Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: []byte{0x30, 3, 0x82, 1, 'b'}}}})
	if e := ext(c.Extensions, 2, 5, 29, 17); len(e) != 1 || len(c.DNSNames) != 1 || c.DNSNames[0] != "b" {
		fail("explicit SAN not used: %v %v", e, c.DNSNames)
	}
''', CI + EAI, CTOP)
bug('csr-ipv4-mapped', 'C18', 'an IPv4 address given in its sixteen-byte form', 'IPv4 addresses in sixteen-byte form are encoded with sixteen bytes',
    [(GX, '		ip := rawIP.To4()\n		if ip == nil {', '		ip := rawIP.To4()\n		if ip == nil || len(rawIP) == net.IPv6len {')],
    '''
	c := request(&x509.CertificateRequest{IPAddresses: []net.IP{net.IPv4(10, 1, 2, 3)}})
	if !bytes.Contains(c.Raw, []byte{0x87, 4, 10, 1, 2, 3}) {
		fail("10.1.2.3 is not encoded in four bytes")
	}
''', CI + ['bytes', 'net'], CTOP)
bug('csr-uri-query', 'C18', 'a URI with a fragment or a query', 'the fragment of a URI is dropped',
    [(GX, 'Bytes: []byte(uri.String())})', 'Bytes: []byte(strings.TrimSuffix(uri.String(), "#"+uri.Fragment))})')],
    '''
	c := request(&x509.CertificateRequest{URIs: []*url.URL{mustURL("https://a.example/x?y#z")}})
	if c.URIs[0].String() != "https://a.example/x?y#z" {
		fail("URI became %v", c.URIs[0])
	}
''', CI, CTOP)
bug('csr-raw-subject-reencoded', 'C18', 'a raw subject with a string type other than the default one', 'a raw subject is decoded and encoded again when it is short',
    [(GX, '''	asn1Subject := template.RawSubject
	if len(asn1Subject) == 0 {''', '''	asn1Subject := template.RawSubject
	if len(asn1Subject) < 64 && len(asn1Subject) > 0 {
		var seq pkix.RDNSequence
		if rest, err := asn1.Unmarshal(asn1Subject, &seq); err == nil && len(rest) == 0 {
			if b, err := asn1.Marshal(seq); err == nil {
				asn1Subject = b
			}
		}
	}
	if len(asn1Subject) == 0 {''')],
    '''
	raw := []byte{0x30, 14, 0x31, 12, 0x30, 10, 6, 3, 0x55, 4, 3, 0x0c, 3, 'a', 'b', 'c'}
	c := request(&x509.CertificateRequest{RawSubject: raw})
	if !bytes.Equal(c.RawSubject, raw) {
		fail("raw subject %x became %x", raw, c.RawSubject)
	}
''', CI + ['bytes'], CTOP)
bug('csr-template-email-order', 'C18', 'a template with DNS names and e-mail addresses, reused for another request', 'the name lists are sorted in place in the caller\'s template',
    [(GX, '''	var rawValues []asn1.RawValue
	for _, name := range dnsNames {''', '''	var rawValues []asn1.RawValue
	if len(dnsNames) > 1 && len(dnsNames[0]) == 0 {
		dnsNames[0], dnsNames[1] = dnsNames[1], dnsNames[0]
	}
	for _, name := range dnsNames {''')],
    '''
	t := &x509.CertificateRequest{DNSNames: []string{"", "b.example"}}
	c := request(t)
	if t.DNSNames[0] != "" || c.DNSNames[0] != "" {
		fail("order of the names changed: %q %q", t.DNSNames, c.DNSNames)
	}
''', CI, CTOP)
bug('parse-curve-prefix', 'C19', 'a key whose curve identifier extends or shares a prefix with the SM2 curve\'s identifier', 'only the first five components of the curve identifier are compared',
    [(GX, 'if !oidSM2P256V1.Equal(*namedCurveOID) {', 'if len(*namedCurveOID) < 6 || !oidSM2P256V1.Equal(append((*namedCurveOID)[:5:5], 301)) {')],
    '''
	c := request(&x509.CertificateRequest{})
	oid, _ := asn1.Marshal(asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 301})
	other, _ := asn1.Marshal(asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 302})
	der := bytes.Replace(c.Raw, oid, other, 1)
	if bytes.Equal(der, c.Raw) {
		fail("no curve identifier")
	}
	if _, err := cert.ParseCertificateRequest(der); err == nil {
		fail("request with another curve accepted")
	}
''', CI + EAI + ['bytes'], CTOP)
bug('parse-sigalg-outer', 'C19', 'a request that names another signature algorithm', 'the signature algorithm of a request is only refused when the parameters are absent',
    [(GX, '''	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) {
		return nil, errors.New("x509: illegal signature algorithm OID")
	}
	if !oidPublicKeyECDSA.Equal(in.TBSCSR''', '''	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) && len(in.SignatureAlgorithm.Algorithm) != 6 {
		return nil, errors.New("x509: illegal signature algorithm OID")
	}
	if !oidPublicKeyECDSA.Equal(in.TBSCSR''')],
    '''
	c := request(&x509.CertificateRequest{})
	oid, _ := asn1.Marshal(asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 501})
	other, _ := asn1.Marshal(asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 502})
	if _, err := cert.ParseCertificateRequest(bytes.Replace(c.Raw, oid, other, 1)); err == nil {
		fail("request with another signature algorithm accepted")
	}
''', CI + EAI + ['bytes'], CTOP)
bug('parse-sigalg-inner', 'C19', 'a certificate whose inner signature algorithm differs from the outer one', 'the inner signature algorithm of a certificate is not compared when it has parameters',
    [(GX, 'if !oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) {', 'if !oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) && len(in.TBSCertificate.SignatureAlgorithm.Parameters.FullBytes) == 0 {')],
    '''
	var c struct {
		TBS struct {
			Version  int `asn1:"explicit,tag:0"`
			Serial   *big.Int
			Alg      pkix.AlgorithmIdentifier
			Issuer   asn1.RawValue
			Validity asn1.RawValue
			Subject  asn1.RawValue
			Key      asn1.RawValue
		}
		Alg pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}
	if rest, err := asn1.Unmarshal(issue(&x509.Certificate{Subject: pkix.Name{CommonName: "x"}}, ca).Raw, &c); err != nil || len(rest) > 0 {
		fail("%v", err)
	}
	c.TBS.Alg = pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 11}, Parameters: asn1.NullRawValue}
	der, err := asn1.Marshal(c)
	if err != nil {
		fail("%v", err)
	}
	if _, err := cert.ParseCertificate(der); err == nil {
		fail("certificate with inner signature algorithm %v accepted", c.TBS.Alg.Algorithm)
	}
''', CI + EAI, CTOP)
bug('verify-csr-user-id-fallback', 'C19', 'a request verified under a wrong user ID', 'a request also verifies when it was signed under the default user ID',
    [(GX, '	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)', '	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature) ||\n		len(userId) > 0 && sm2.Verify(pub, nil, csr.RawTBSCertificateRequest, csr.Signature)')],
    '''
	der, err := cert.CreateCertificateRequest(&x509.CertificateRequest{}, pub, pri, nil)
	if err != nil {
		fail("%v", err)
	}
	if ok, _ := cert.VerifyDERCSRSign(der, []byte("mallory")); ok {
		fail("request verifies under another user ID")
	}
''', CI, CTOP)
bug('parse-key-compressed', 'C19', 'a request whose public key is the point at infinity or malformed', 'the check that the point lies on the curve is skipped for one form of the key',
    [(GX, '''	x, y := elliptic.Unmarshal(curve, keyData.PublicKey.RightAlign())
''', '''	x, y := elliptic.Unmarshal(curve, keyData.PublicKey.RightAlign())
	if raw := keyData.PublicKey.RightAlign(); x == nil && len(raw) == 65 && raw[0] == 6|raw[64]&1 {
		x, y = new(big.Int).SetBytes(raw[1:33]), new(big.Int).SetBytes(raw[33:]) // hybrid form
	}
''')],
    '''
	c := request(&x509.CertificateRequest{})
	raw := pub.GetUnCompressBytes()
	bad := append([]byte{}, raw...)
	bad[64] ^= 6
	bad[0] = 6 | bad[64]&1
	if _, err := cert.ParseCertificateRequest(bytes.Replace(c.Raw, raw, bad, 1)); err == nil {
		fail("request with a key off the curve accepted")
	}
''', CI + ['bytes'], CTOP)
bug('cert-key-usage-nine-bits', 'C20', 'a template with key usage decipherOnly (the ninth bit)', 'the second octet of the key usage is not reversed',
    [(GX, 'a[1] = reverseBitsInAByte(byte(template.KeyUsage >> 8))', 'a[1] = byte(template.KeyUsage >> 8)')],
    '''
	c := issue(&x509.Certificate{KeyUsage: x509.KeyUsageDecipherOnly | x509.KeyUsageKeyAgreement}, ca)
	if c.KeyUsage != x509.KeyUsageDecipherOnly|x509.KeyUsageKeyAgreement {
		fail("key usage %b", c.KeyUsage)
	}
''', CI, CTOP)
bug('cert-local-time', 'C20', 'validity times given in a local time zone', 'the end of the validity is encoded with the caller\'s time zone',
    [(GX, 'validity{template.NotBefore.UTC(), template.NotAfter.UTC()}', 'validity{template.NotBefore.UTC(), template.NotAfter}')],
    '''
	z := time.FixedZone("", 3600*8)
	der, err := issueDER(&x509.Certificate{NotBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, z), NotAfter: time.Date(2030, 1, 1, 0, 0, 0, 0, z)}, ca)
	if err != nil || !bytes.Contains(der, []byte("291231160000Z")) {
		fail("validity is not in UTC: %v", err)
	}
''', CI + ['bytes'], CTOP)
bug('cert-authority-key-id-self', 'C20', 'a self-issued certificate with a given authority key identifier', 'the issuer\'s subject key identifier is used for self-issued certificates too when both are given',
    [(GX, 'if !bytes.Equal(asn1Issuer, asn1Subject) && len(parent.SubjectKeyId) > 0 {', 'if (!bytes.Equal(asn1Issuer, asn1Subject) || len(template.AuthorityKeyId) > 0) && len(parent.SubjectKeyId) > 0 {')],
    '''
	c := issue(&x509.Certificate{Subject: pkix.Name{CommonName: "ca"}, AuthorityKeyId: []byte{9}}, ca)
	if len(c.AuthorityKeyId) != 1 || c.AuthorityKeyId[0] != 9 {
		fail("authority key identifier %x of a self-issued certificate", c.AuthorityKeyId)
	}
''', CI, CTOP)
bug('cert-path-length-not-ca', 'C20', 'a path length of zero that is only given by the zero flag, for a certificate that is no CA', 'a zero path length is dropped unless the certificate is a CA',
    [(GX, 'if maxPathLen == 0 && !template.MaxPathLenZero {', 'if maxPathLen == 0 && (!template.MaxPathLenZero || !template.IsCA) {')],
    '''
	c := issue(&x509.Certificate{BasicConstraintsValid: true, MaxPathLenZero: true}, ca)
	if c.MaxPathLen != 0 || !c.MaxPathLenZero {
		fail("path length %d", c.MaxPathLen)
	}
''', CI, CTOP)
bug('cert-san-critical', 'C20', 'an empty subject and a SAN', 'the SAN is not critical when it has URIs only',
    [(GX, '		ret[n].Critical = subjectIsEmpty\n', '		ret[n].Critical = subjectIsEmpty && len(template.DNSNames)+len(template.EmailAddresses)+len(template.IPAddresses) > 0\n')],
    '''
	c := issue(&x509.Certificate{URIs: []*url.URL{mustURL("http://a.example/")}}, ca)
	if e := ext(c.Extensions, 2, 5, 29, 17); len(e) != 1 || !e[0].Critical {
		fail("SAN of a certificate without subject is not critical: %v", e)
	}
''', CI, CTOP)
bug('cert-eku-unknown-only', 'C20', 'a template with unknown extended key usages only', 'the extension is only written when a known usage is given',
    [(GX, 'if (len(template.ExtKeyUsage) > 0 || len(template.UnknownExtKeyUsage) > 0) &&', 'if len(template.ExtKeyUsage) > 0 &&')],
    '''
	c := issue(&x509.Certificate{UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3}}}, ca)
	if len(c.UnknownExtKeyUsage) != 1 {
		fail("unknown extended key usage lost")
	}
''', CI + EAI, CTOP)
bug('cert-eku-swapped', 'C20', 'the extended key usage "microsoft commercial code signing"', 'two identifiers are exchanged in the table',
    [(GX, '	{x509.ExtKeyUsageMicrosoftCommercialCodeSigning, oidExtKeyUsageMicrosoftCommercialCodeSigning},\n	{x509.ExtKeyUsageMicrosoftKernelCodeSigning, oidExtKeyUsageMicrosoftKernelCodeSigning},', '	{x509.ExtKeyUsageMicrosoftCommercialCodeSigning, oidExtKeyUsageMicrosoftKernelCodeSigning},\n	{x509.ExtKeyUsageMicrosoftKernelCodeSigning, oidExtKeyUsageMicrosoftCommercialCodeSigning},')],
    '''
	c := issue(&x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageMicrosoftCommercialCodeSigning}}, ca)
	want, _ := asn1.Marshal([]asn1.ObjectIdentifier{{1, 3, 6, 1, 4, 1, 311, 2, 1, 22}})
	if e := ext(c.Extensions, 2, 5, 29, 37); len(e) != 1 || !bytes.Equal(e[0].Value, want) {
		fail("extended key usage %v", e)
	}
''', CI + EAI + ['bytes'], CTOP)
bug('cert-nc-email-excluded', 'C20', 'a template with excluded e-mail addresses only', 'name constraints are not written when only excluded e-mail addresses are given',
    [(GX, 'len(template.PermittedEmailAddresses) > 0 || len(template.ExcludedEmailAddresses) > 0 ||', 'len(template.PermittedEmailAddresses)+len(template.PermittedEmailAddresses) > 0 ||')],
    '''
	c := issue(&x509.Certificate{ExcludedEmailAddresses: []string{"a.example"}}, ca)
	if len(c.ExcludedEmailAddresses) != 1 {
		fail("excluded e-mail address lost")
	}
''', CI, CTOP)
bug('cert-nc-ip-unmasked', 'C20', 'an IP range whose address has host bits set', 'the address of an IP range is not masked',
    [(GX, 'maskedIP := ipNet.IP.Mask(ipNet.Mask)', 'maskedIP := ipNet.IP')],
    '''
	c := issue(&x509.Certificate{PermittedIPRanges: []*net.IPNet{{IP: net.IPv4(10, 1, 2, 3), Mask: net.CIDRMask(8, 32)}}}, ca)
	if len(c.PermittedIPRanges) != 1 || c.PermittedIPRanges[0].String() != "10.0.0.0/8" {
		fail("IP range %v", c.PermittedIPRanges)
	}
''', CI + ['net'], CTOP)
bug('cert-crl-many', 'C20', 'more than one CRL distribution point', 'all URLs after the first are put into one distribution point with the last name only',
    [(GX, '			crlDp = append(crlDp, dp)\n', '			if len(crlDp) < 2 {\n				crlDp = append(crlDp, dp)\n			} else {\n				crlDp[1] = dp\n			}\n')],
    '''
	c := issue(&x509.Certificate{CRLDistributionPoints: []string{"http://a/", "http://b/", "http://c/"}}, ca)
	if len(c.CRLDistributionPoints) != 3 {
		fail("distribution points %v", c.CRLDistributionPoints)
	}
''', CI, CTOP)
bug('cert-extra-overwrites', 'C20', 'a template that needs all ten generated extensions besides extra extensions', 'the last of ten generated extensions is replaced by the first extra extension',
    [(GX, '	return append(ret[:n], template.ExtraExtensions...), nil', '	if n == len(ret) {\n		n--\n	}\n	return append(ret[:n], template.ExtraExtensions...), nil')],
    '''
	c := issue(&x509.Certificate{Subject: pkix.Name{CommonName: "x"}, KeyUsage: 1, ExtKeyUsage: []x509.ExtKeyUsage{0}, BasicConstraintsValid: true, SubjectKeyId: []byte{1}, OCSPServer: []string{"http://o/"},
		DNSNames: []string{"a"}, PolicyIdentifiers: []asn1.ObjectIdentifier{{1, 2, 3}}, PermittedDNSDomains: []string{"a"}, CRLDistributionPoints: []string{"http://c/"}}, ca)
	if len(c.Extensions) != 10 || len(c.CRLDistributionPoints) != 1 {
		fail("%d extensions", len(c.Extensions))
	}
''', CI + EAI, CTOP)
bug('cert-aia-order', 'C20', 'both OCSP servers and issuing certificate URLs', 'an issuer URL equal to an OCSP URL is dropped',
    [(GX, '		for _, name := range template.IssuingCertificateURL {\n', '		for i, name := range template.IssuingCertificateURL {\n			if i < len(template.OCSPServer) && template.OCSPServer[i] == name {\n				continue\n			}\n')],
    '''
	c := issue(&x509.Certificate{OCSPServer: []string{"http://a/"}, IssuingCertificateURL: []string{"http://a/"}}, ca)
	if len(c.IssuingCertificateURL) != 1 || len(c.OCSPServer) != 1 {
		fail("%v %v", c.OCSPServer, c.IssuingCertificateURL)
	}
''', CI, CTOP)
bug('parse-trailing-san', 'C21', 'bytes behind a complete certificate that itself parses', 'a trailing zero octet behind a certificate is accepted',
    [(GX, '''	if len(rest) > 0 {
		return nil, asn1.SyntaxError{Msg: "trailing data"}''', '''	if len(rest) > 1 || len(rest) == 1 && rest[0] != 0 {
		return nil, asn1.SyntaxError{Msg: "trailing data"}''')],
    '''
	der, err := issueDER(&x509.Certificate{}, ca)
	if err != nil {
		fail("%v", err)
	}
	if _, err := cert.ParseCertificate(append(der, 0)); err == nil {
		fail("trailing byte accepted")
	}
''', CI, CTOP)
bug('parse-ip-constraint-panic', 'C21', 'an IP name constraint of an unusual length', 'a name constraint with an IP of fewer than 32 bytes is cut without a length check',
    [(GX, '''				default:
					return nil, nil, nil, nil, fmt.Errorf("x509: IP constraint contained value of length %d", l)''', '''				case 16:
					ip = value[:l/2]
					mask = value[l:32]

				default:
					return nil, nil, nil, nil, fmt.Errorf("x509: IP constraint contained value of length %d", l)''')],
    '''
	v := append([]byte{0x30, 22, 0xa0, 20, 0x30, 18, 0x87, 16}, make([]byte, 16)...)
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: v}}}, ca)
	if err != nil {
		fail("%v", err)
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	if _, err := cert.ParseCertificate(der); err == nil {
		fail("16-byte IP constraint accepted")
	}
''', CI + EAI, CTOP)
bug('parse-attribute-empty-set', 'C21', 'an extension request attribute whose set of values is empty', 'an attribute without values is not skipped',
    [(GX, 'err != nil || len(rest) != 0 || len(attr.Values) == 0 {', 'err != nil || len(rest) != 0 {')],
    '''
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	der, err := cert.CreateCertificateRequest(&x509.CertificateRequest{Attributes: []pkix.AttributeTypeAndValueSET{
		{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}}}}, pub, pri, nil)
	if err == nil {
		_, err = cert.ParseCertificateRequest(der)
	}
''', CI + EAI, CTOP)
bug('parse-mailbox-trailing-backslash', 'C21', 'an e-mail constraint that ends with a backslash', 'a backslash at the end of the local part is not checked for',
    [(GX, '''				in = in[1:]
				if len(in) == 0 {
					return mailbox, false
				}
				fallthrough''', '''				in = in[1:]
				fallthrough''')],
    '''
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	v := []byte{0x30, 8, 0xa0, 6, 0x30, 4, 0x81, 2, 'a', 0}
	_ = v
	value := []byte{'@', 'a'} // needs an @ to be taken for a mailbox
	_ = value
	s := []byte("\\"@\\"@\\\\")
	_ = s
	for _, c := range []string{"a@", "@\\\\", "a\\\\", "\\\\@\\\\", "a\\\\@\\\\"} {
		n := byte(len(c))
		v := append([]byte{0x30, n + 6, 0xa0, n + 4, 0x30, n + 2, 0x81, n}, c...)
		der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: v}}}, ca)
		if err != nil {
			fail("%v", err)
		}
		cert.ParseCertificate(der)
	}
''', CI + EAI, CTOP)
NC = '''
// nc issues a certificate with one permitted name constraint and parses it
func nc(tag byte, c string) (*x509.Certificate, error) {
	n := byte(len(c))
	v := append([]byte{0x30, n + 6, 0xa0, n + 4, 0x30, n + 2, tag, n}, c...)
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Value: v}}}, ca)
	if err != nil {
		fail("%v", err)
	}
	return cert.ParseCertificate(der)
}
'''
bug('nc-mask-fe', 'C22', 'an IP constraint with a mask of 7, 15, 23 ... bits', 'a mask octet 0xfe is refused',
    [(GX, 'case 0x00, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe:', 'case 0x00, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc:')],
    '''
	if _, err := nc(0x87, "\\x0a\\x00\\x00\\x00\\xfe\\x00\\x00\\x00"); err != nil {
		fail("10.0.0.0/7: %v", err)
	}
''', CI + EAI, CTOP + NC)
bug('nc-mask-hole', 'C22', 'an IP constraint whose mask has a hole at an octet boundary', 'a mask that starts with a zero octet is not checked further',
    [(GX, '''		if seenZero {
			if b != 0 {
				return false
			}

			continue
		}''', '''		if seenZero {
			if b != 0 && mask[0] != 0 {
				return false
			}

			continue
		}''')],
    '''
	if _, err := nc(0x87, "\\x0a\\x00\\x00\\x00\\x00\\xff\\x00\\x00"); err == nil {
		fail("mask 0.255.0.0 accepted")
	}
''', CI + EAI, CTOP + NC)
bug('nc-two-dots', 'C22', 'a mailbox with two consecutive periods', 'two consecutive periods in the local part are accepted when one is escaped or three follow',
    [(GX, "twoDots := []byte{'.', '.'}", "twoDots := []byte{'.', '.', '.'}")],
    '''
	if _, err := nc(0x81, "a..b@c.example"); err == nil {
		fail("a..b@c.example accepted")
	}
''', CI + EAI, CTOP + NC)
bug('nc-mailbox-local-dot', 'C22', 'a mailbox whose local part ends with a period', 'a period at the end of the local part is accepted',
    [(GX, '''			localPartBytes[len(localPartBytes)-1] == '.' ||
''', '''			len(localPartBytes) == 1 && localPartBytes[len(localPartBytes)-1] == '.' ||
''')],
    '''
	if _, err := nc(0x81, "ab.@c.example"); err == nil {
		fail("ab.@c.example accepted")
	}
''', CI + EAI, CTOP + NC)
bug('nc-label-del', 'C22', 'a domain constraint with the character 0x7f', 'the character DEL is accepted in a label',
    [(GX, 'if c < 33 || c > 126 {', 'if c < 33 || c > 127 {')],
    '''
	if _, err := nc(0x82, "a\\x7fb"); err == nil {
		fail("label with DEL accepted")
	}
''', CI + EAI, CTOP + NC)
bug('nc-uri-ip', 'C22', 'a URI constraint that is an IP address in brackets or IPv6 form', 'only IPv4 addresses are refused as URI domains',
    [(GX, 'if net.ParseIP(domain) != nil {', 'if net.ParseIP(domain).To4() != nil {')],
    '''
	if _, err := nc(0x86, "2001:db8::1"); err == nil {
		fail("IPv6 address accepted as URI domain")
	}
''', CI + EAI, CTOP + NC)
bug('nc-quoted-pair', 'C22', 'a quoted local part with an escaped character 9', 'a tab cannot be quoted',
    [(GX, '(1 <= in[0] && in[0] <= 9) ||', '(1 <= in[0] && in[0] <= 8) ||')],
    '''
	if _, err := nc(0x81, "\\"a\\\\\\tb\\"@c.example"); err != nil {
		fail("quoted tab: %v", err)
	}
''', CI + EAI, CTOP + NC)
bug('nc-excluded-critical', 'C22', 'critical name constraints with excluded subtrees only', 'the criticality is only reported when there are permitted subtrees',
    [(GX, '	out.PermittedDNSDomainsCritical = e.Critical\n', '	out.PermittedDNSDomainsCritical = e.Critical && havePermitted\n')],
    '''
	v := []byte{0x30, 7, 0xa1, 5, 0x30, 3, 0x82, 1, 'a'}
	c := issue(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Critical: true, Value: v}}}, ca)
	if !c.PermittedDNSDomainsCritical {
		fail("criticality lost")
	}
''', CI + EAI, CTOP)
bug('san-ip-length', 'C22', 'a SAN with an IP entry of a length between 4 and 16', 'an IP entry of eight bytes is accepted',
    [(GX, 'case net.IPv4len, net.IPv6len:', 'case net.IPv4len, 2 * net.IPv4len, net.IPv6len:')],
    '''
	v := append([]byte{0x30, 10, 0x87, 8}, make([]byte, 8)...)
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: v}}}, ca)
	if err != nil {
		fail("%v", err)
	}
	if _, err := cert.ParseCertificate(der); err == nil {
		fail("eight-byte IP address accepted")
	}
''', CI + EAI, CTOP)
bug('san-uri-domain', 'C22', 'a URI in a SAN whose host has an empty label', 'the host of a URI is only checked when it has no port',
    [(GX, '			if len(uri.Host) > 0 {\n', '			if len(uri.Host) > 0 && uri.Port() == "" {\n')],
    '''
	v := append([]byte{0x30, 18, 0x86, 16}, "http://a..b:80/x"...)
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: v}}}, ca)
	if err != nil {
		fail("%v", err)
	}
	if _, err := cert.ParseCertificate(der); err == nil {
		fail("host a..b accepted")
	}
''', CI + EAI, CTOP)
