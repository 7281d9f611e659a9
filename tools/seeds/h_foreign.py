# Certificates and requests as others write them (C26).
FTOP = CTOP + '''
func with(crit bool, id asn1.ObjectIdentifier, value string) pkix.Extension {
	return pkix.Extension{Id: id, Critical: crit, Value: []byte(value)}
}

func foreign(e ...pkix.Extension) *x509.Certificate {
	return issue(&x509.Certificate{ExtraExtensions: e}, ca)
}

func ce(n int) asn1.ObjectIdentifier { return asn1.ObjectIdentifier{2, 5, 29, n} }
'''
bug('foreign-crl-one-per-point', 'C26', 'a CRL distribution point with several full names', 'only the first URI of each distribution point is reported',
    [(GX, '							out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(fullName.Bytes))\n', '							out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(fullName.Bytes))\n							break\n')],
    r'''
	c := foreign(with(false, ce(31), "\x30\x0e\x30\x0c\xa0\x0a\xa0\x08\x86\x02a:\x86\x02b:"))
	if len(c.CRLDistributionPoints) != 2 {
		fail("CRL distribution points %q", c.CRLDistributionPoints)
	}
''', CI + EAI, FTOP)
bug('foreign-crl-indirect', 'C26', 'a distribution point with names and a CRL issuer', 'the names of points with a CRL issuer are left out',
    [(GX, '					if len(dp.DistributionPoint.FullName) == 0 {\n', '					if len(dp.DistributionPoint.FullName) == 0 || len(dp.CRLIssuer.Bytes) != 0 {\n')],
    r'''
	c := foreign(with(false, ce(31), "\x30\x10\x30\x0e\xa0\x06\xa0\x04\x86\x02a:\xa2\x04\x82\x02xy"))
	if len(c.CRLDistributionPoints) != 1 {
		fail("CRL distribution points %q", c.CRLDistributionPoints)
	}
''', CI + EAI, FTOP)
bug('foreign-unhandled-stays', 'C26', 'a critical known extension after an unknown one', 'the mark "unhandled" stays set for the extensions that follow',
    [(GX, '''	for _, e := range in.TBSCertificate.Extensions {
		out.Extensions = append(out.Extensions, e)
		unhandled := false
''', '''	unhandled := false
	for _, e := range in.TBSCertificate.Extensions {
		out.Extensions = append(out.Extensions, e)
''')],
    r'''
	c := foreign(with(false, asn1.ObjectIdentifier{1, 2, 3}, ""), with(true, ce(15), "\x03\x02\x01\x06"))
	if len(c.UnhandledCriticalExtensions) != 0 {
		fail("unhandled critical extensions %v", c.UnhandledCriticalExtensions)
	}
''', CI + EAI, FTOP)
bug('foreign-unhandled-san', 'C26', 'a critical SAN with only names of the kinds that are not reported', 'such a SAN counts as handled',
    [(GX, '				if len(out.DNSNames) == 0 && len(out.EmailAddresses) == 0 && len(out.IPAddresses) == 0 && len(out.URIs) == 0 {\n', '				if len(e.Value) <= 2 && len(out.DNSNames) == 0 && len(out.EmailAddresses) == 0 && len(out.IPAddresses) == 0 && len(out.URIs) == 0 {\n')],
    r'''
	c := foreign(with(true, ce(17), "\x30\x04\x88\x02\x2a\x03"))
	if len(c.UnhandledCriticalExtensions) != 1 {
		fail("unhandled critical extensions %v", c.UnhandledCriticalExtensions)
	}
''', CI + EAI, FTOP)
bug('foreign-unhandled-arc', 'C26', 'a critical extension in a private arc below one of the known identifiers', 'known extensions are told by the first four components only',
    [(GX, '		if len(e.Id) == 4 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29 {\n', '		if len(e.Id) >= 4 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29 {\n')],
    r'''
	c := foreign(with(true, asn1.ObjectIdentifier{2, 5, 29, 14, 1}, "\x04\x01\x07"))
	if len(c.UnhandledCriticalExtensions) != 1 || len(c.SubjectKeyId) != 0 {
		fail("unhandled critical extensions %v, key id %x", c.UnhandledCriticalExtensions, c.SubjectKeyId)
	}
''', CI + EAI, FTOP)
bug('foreign-decipher-only', 'C26', 'the ninth key usage bit', 'only the first octet of the key usage is looked at',
    [(GX, '''				for i := 0; i < 9; i++ {
					if usageBits.At(i) != 0 {
						usage |= 1 << uint(i)
					}
				}
''', '''				if len(usageBits.Bytes) > 0 {
					for i := uint(0); i < 8; i++ {
						usage |= int(usageBits.Bytes[0]>>(7-i)&1) << i
					}
				}
''')],
    r'''
	c := foreign(with(true, ce(15), "\x03\x03\x07\x08\x80"))
	if c.KeyUsage != x509.KeyUsageKeyAgreement|x509.KeyUsageDecipherOnly {
		fail("key usage %b", c.KeyUsage)
	}
''', CI + EAI, FTOP)
bug('foreign-eku-after-unknown', 'C26', 'an extended key usage extension with an unknown usage before a known one', 'reading stops at the first unknown usage',
    [(GX, '''					if extKeyUsage, ok := extKeyUsageFromOID(u); ok {
						out.ExtKeyUsage = append(out.ExtKeyUsage, extKeyUsage)
					} else {
						out.UnknownExtKeyUsage = append(out.UnknownExtKeyUsage, u)
					}
				}
''', '''					if extKeyUsage, ok := extKeyUsageFromOID(u); ok && len(out.UnknownExtKeyUsage) == 0 {
						out.ExtKeyUsage = append(out.ExtKeyUsage, extKeyUsage)
						continue
					}
					out.UnknownExtKeyUsage = append(out.UnknownExtKeyUsage, u) // known ones come first
				}
''')],
    r'''
	c := foreign(with(false, ce(37), "\x30\x0e\x06\x02\x2a\x03\x06\x08\x2b\x06\x01\x05\x05\x07\x03\x01"))
	if len(c.UnknownExtKeyUsage) != 1 || len(c.ExtKeyUsage) != 1 {
		fail("usages %v, unknown %v", c.ExtKeyUsage, c.UnknownExtKeyUsage)
	}
''', CI + EAI, FTOP)
bug('foreign-aia-first-other', 'C26', 'an authority information access list with a location that is no URI before the URIs', 'reading stops at the first location that is no URI',
    [(GX, '''				if v.Location.Tag != 6 {
					continue
				}
''', '''				if v.Location.Tag != 6 {
					break
				}
''')],
    r'''
	c := foreign(with(false, asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, "\x30\x20\x30\x0e\x06\x08\x2b\x06\x01\x05\x05\x07\x30\x01\x82\x02xy\x30\x0e\x06\x08\x2b\x06\x01\x05\x05\x07\x30\x01\x86\x02a:"))
	if len(c.OCSPServer) != 1 {
		fail("OCSP servers %q", c.OCSPServer)
	}
''', CI + EAI, FTOP)
bug('foreign-policy-qualifiers', 'C26', 'a policy with qualifiers', 'a policy carries only its identifier, so the qualifier is read as the next policy',
    [(GX, '''				out.PolicyIdentifiers = make([]asn1.ObjectIdentifier, len(policies))
				for i, policy := range policies {
					out.PolicyIdentifiers[i] = policy.Policy
				}
''', '''				for _, policy := range policies {
					if b, _ := asn1.Marshal(policy); !bytes.Contains(e.Value, b) {
						continue // qualified policies are not supported
					}
					out.PolicyIdentifiers = append(out.PolicyIdentifiers, policy.Policy)
				}
''')],
    r'''
	c := foreign(with(false, ce(32), "\x30\x14\x30\x04\x06\x02\x2a\x04\x30\x0c\x06\x02\x2a\x03\x30\x06\x30\x04\x06\x02\x2a\x05"))
	if len(c.PolicyIdentifiers) != 2 {
		fail("policies %v", c.PolicyIdentifiers)
	}
''', CI + EAI, FTOP)
bug('foreign-path-len-of-leaf', 'C26', 'basic constraints with a path length and without the CA flag', 'the path length of an end entity is dropped',
    [(GX, '				out.MaxPathLen = constraints.MaxPathLen\n', '				out.MaxPathLen = -1\n				if constraints.IsCA {\n					out.MaxPathLen = constraints.MaxPathLen\n				}\n')],
    r'''
	c := foreign(with(true, ce(19), "\x30\x03\x02\x01\x03"))
	if c.MaxPathLen != 3 || c.IsCA {
		fail("path length %d", c.MaxPathLen)
	}
''', CI + EAI, FTOP)
bug('foreign-version-clamped', 'C26', 'a version 1 certificate', 'certificates without the version field are reported as version 3',
    [(GX, '	out.Version = in.TBSCertificate.Version + 1\n', '	out.Version = 3\n	if v := in.TBSCertificate.Version; v > 0 && v < 2 {\n		out.Version = v + 1\n	}\n')],
    r'''
	csr := request(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "subject"}})
	info, err := cert.CreateCertificateInfo(&x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}, ca, csr)
	if err != nil {
		fail("%v", err)
	}
	info.Version, info.Raw, info.Extensions = 0, nil, nil
	if info.Raw, err = asn1.Marshal(*info); err != nil {
		fail("%v", err)
	}
	der, err := cert.IssueCertificateBySoftCAKey(info, pri, userID)
	if err != nil {
		fail("%v", err)
	}
	c, err := cert.ParseCertificate(der)
	if err != nil || c.Version != 1 {
		fail("version: %v", err)
	}
''', CI + EAI, CTOP)
bug('foreign-csr-one-request', 'C26', 'a request with several extension-request attributes', 'the extensions of the last one replace those before',
    [(GX, '		ret = append(ret, extensions...)\n', '		ret = extensions\n')],
    r'''
	a := func(i int) pkix.AttributeTypeAndValueSET {
		return pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, i}, Value: []byte{5, 0}}}}}
	}
	c := request(&x509.CertificateRequest{Attributes: []pkix.AttributeTypeAndValueSET{a(3), a(4)}})
	if len(c.Extensions) != 2 {
		fail("extensions %v", c.Extensions)
	}
''', CI + EAI, CTOP)
bug('foreign-csr-other-attribute', 'C26', 'a request with an attribute in another form before the extension request', 'reading stops at the first attribute of another form',
    [(GX, '			// Ignore attributes that don\'t parse.\n			continue\n', '			// Ignore attributes that don\'t parse.\n			break\n')],
    r'''
	a := pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 3}}
	b := pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 4}, Value: []byte{5, 0}}}}}
	c := request(&x509.CertificateRequest{Attributes: []pkix.AttributeTypeAndValueSET{a, b}})
	if len(c.Extensions) != 1 {
		fail("extensions %v", c.Extensions)
	}
''', CI + EAI, CTOP)
