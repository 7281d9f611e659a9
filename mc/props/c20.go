package props

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	stdasn1 "encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C20", Init: selfTest, Spaces: c20,
		Assumptions: []string{
			"templates: every subset of the optional fields at typical values; per field all listed boundary values; lists up to length 3 over small alphabets",
			"names in SANs and constraints are well-formed (C22); an IP range has a contiguous mask of the length of its address; identifiers in ExtraExtensions are distinct",
			"the order of the generated extensions is not judged",
			"encoding/asn1 and crypto/x509/pkix define the encoding of a pkix.Name"}})
}

var (
	oidSKI  = stdasn1.ObjectIdentifier{2, 5, 29, 14}
	oidNC   = stdasn1.ObjectIdentifier{2, 5, 29, 30}
	oidCRL  = stdasn1.ObjectIdentifier{2, 5, 29, 31}
	oidPol  = stdasn1.ObjectIdentifier{2, 5, 29, 32}
	oidAKI  = stdasn1.ObjectIdentifier{2, 5, 29, 35}
	oidEKU  = stdasn1.ObjectIdentifier{2, 5, 29, 37}
	oidAIA  = stdasn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}
	oidOCSP = []int{1, 3, 6, 1, 5, 5, 7, 48, 1}
	oidCAIs = []int{1, 3, 6, 1, 5, 5, 7, 48, 2}
)

// the extended key usages of RFC 5280 and the vendors, in the numbering of crypto/x509
var ekuTable = [][]int{
	{2, 5, 29, 37, 0},
	{1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {1, 3, 6, 1, 5, 5, 7, 3, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 4},
	{1, 3, 6, 1, 5, 5, 7, 3, 5}, {1, 3, 6, 1, 5, 5, 7, 3, 6}, {1, 3, 6, 1, 5, 5, 7, 3, 7}, {1, 3, 6, 1, 5, 5, 7, 3, 8}, {1, 3, 6, 1, 5, 5, 7, 3, 9},
	{1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, {2, 16, 840, 1, 113730, 4, 1}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1},
}

func encKeyUsage(ku int) []byte {
	// a BIT STRING of named bits without trailing zeros
	n := 0
	for i := 0; i < 16; i++ {
		if ku>>uint(i)&1 == 1 {
			n = i + 1
		}
	}
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if ku>>uint(i)&1 == 1 {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return ref.TLV(3, []byte{byte(len(b)*8 - n)}, b)
}

func encConstraints(dns []string, ips []*net.IPNet, mail, uris []string) []byte {
	var out []byte
	for _, s := range dns {
		out = append(out, ref.TLV(0x30, ref.TLV(0x82, []byte(s)))...)
	}
	for _, n := range ips {
		v := []byte{}
		ip := []byte(n.IP)
		if len(n.Mask) == 4 {
			ip = shortIP(n.IP)
		}
		for i := range ip {
			v = append(v, ip[i]&n.Mask[i])
		}
		out = append(out, ref.TLV(0x30, ref.TLV(0x87, append(v, n.Mask...)))...)
	}
	for _, s := range mail {
		out = append(out, ref.TLV(0x30, ref.TLV(0x81, []byte(s)))...)
	}
	for _, s := range uris {
		out = append(out, ref.TLV(0x30, ref.TLV(0x86, []byte(s)))...)
	}
	return out
}

// certExts is the model of the extensions of an issued certificate.
func certExts(tp *x509.Certificate, subjectEmpty bool, aki []byte) map[string]ref.ExtInfo {
	out := map[string]ref.ExtInfo{}
	put := func(oid stdasn1.ObjectIdentifier, crit bool, v []byte) {
		e := ref.ExtInfo{OID: oid, Critical: crit, Value: v}
		out[e.Key()] = e
	}
	if tp.KeyUsage != 0 {
		put(oidKU, true, encKeyUsage(int(tp.KeyUsage)))
	}
	if len(tp.ExtKeyUsage)+len(tp.UnknownExtKeyUsage) > 0 {
		var o [][]byte
		for _, u := range tp.ExtKeyUsage {
			o = append(o, ref.OID(ekuTable[u]...))
		}
		for _, u := range tp.UnknownExtKeyUsage {
			o = append(o, ref.OID(u...))
		}
		put(oidEKU, false, ref.TLV(0x30, o...))
	}
	if tp.BasicConstraintsValid {
		var p [][]byte
		if tp.IsCA {
			p = append(p, []byte{1, 1, 0xff})
		}
		if tp.MaxPathLen > 0 || tp.MaxPathLen == 0 && tp.MaxPathLenZero {
			p = append(p, ref.DERInt(bint(int64(tp.MaxPathLen))))
		}
		put(oidBC, true, ref.TLV(0x30, p...))
	}
	if len(tp.SubjectKeyId) > 0 {
		put(oidSKI, false, ref.TLV(4, tp.SubjectKeyId))
	}
	if len(aki) > 0 {
		put(oidAKI, false, ref.TLV(0x30, ref.TLV(0x80, aki)))
	}
	if len(tp.OCSPServer)+len(tp.IssuingCertificateURL) > 0 {
		var p [][]byte
		for _, s := range tp.OCSPServer {
			p = append(p, ref.TLV(0x30, ref.OID(oidOCSP...), ref.TLV(0x86, []byte(s))))
		}
		for _, s := range tp.IssuingCertificateURL {
			p = append(p, ref.TLV(0x30, ref.OID(oidCAIs...), ref.TLV(0x86, []byte(s))))
		}
		put(oidAIA, false, ref.TLV(0x30, p...))
	}
	if len(tp.DNSNames)+len(tp.EmailAddresses)+len(tp.IPAddresses)+len(tp.URIs) > 0 {
		put(oidSAN, subjectEmpty, encGeneralNames(tp.DNSNames, tp.EmailAddresses, tp.IPAddresses, tp.URIs))
	}
	if len(tp.PolicyIdentifiers) > 0 {
		var p [][]byte
		for _, o := range tp.PolicyIdentifiers {
			p = append(p, ref.TLV(0x30, ref.OID(o...)))
		}
		put(oidPol, false, ref.TLV(0x30, p...))
	}
	permitted := encConstraints(tp.PermittedDNSDomains, tp.PermittedIPRanges, tp.PermittedEmailAddresses, tp.PermittedURIDomains)
	excluded := encConstraints(tp.ExcludedDNSDomains, tp.ExcludedIPRanges, tp.ExcludedEmailAddresses, tp.ExcludedURIDomains)
	if len(permitted)+len(excluded) > 0 {
		var p [][]byte
		if len(permitted) > 0 {
			p = append(p, ref.TLV(0xa0, permitted))
		}
		if len(excluded) > 0 {
			p = append(p, ref.TLV(0xa1, excluded))
		}
		put(oidNC, tp.PermittedDNSDomainsCritical, ref.TLV(0x30, p...))
	}
	if len(tp.CRLDistributionPoints) > 0 {
		var p [][]byte
		for _, s := range tp.CRLDistributionPoints {
			p = append(p, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte(s))))))
		}
		put(oidCRL, false, ref.TLV(0x30, p...))
	}
	for _, e := range tp.ExtraExtensions {
		put(e.Id, e.Critical, e.Value)
	}
	return out
}

func nameDER(raw []byte, n pkix.Name) []byte {
	return subjCase{"", n, raw}.der()
}

type certCase struct {
	tp, parent *x509.Certificate
	csr        *x509.CertificateRequest
	spki       []byte
	key        ref.Point
	sig        []byte
}

func sameStr(t *eng.T, what string, got, want []string) {
	t.Check(eqStrings(got, want), "%s: %q, want %q", what, got, want)
}

func sameOIDs(t *eng.T, what string, got, want []stdasn1.ObjectIdentifier) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].Equal(want[i])
	}
	t.Check(ok, "%s: %v, want %v", what, got, want)
}

func sameNets(t *eng.T, what string, got, want []*net.IPNet) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		w := encConstraints(nil, want[i:i+1], nil, nil)
		ok = bytes.Equal(w, ref.TLV(0x30, ref.TLV(0x87, got[i].IP, got[i].Mask))) && len(got[i].IP) == len(got[i].Mask)
	}
	t.Check(ok, "%s: %v, want %v", what, got, want)
}

// issue runs CreateCertificateInfo and CreateCertificate and compares everything with the model.
func (cc *certCase) issue(t *eng.T) (*cert.TBSCertificate, []byte) {
	same := unchanged("a template given to CreateCertificateInfo", cc.tp, cc.parent, cc.csr)
	info, err := cert.CreateCertificateInfo(cc.tp, cc.parent, cc.csr)
	t.Ops(1)
	if err != nil || info == nil {
		t.Failf("CreateCertificateInfo: %v, %v", info, err)
	}
	same(t)
	handed := append([]byte{}, info.Raw...)
	sameInfo := unchanged("an argument of CreateCertificate", info, cc.sig)
	der, err := cert.CreateCertificate(info, cc.sig)
	t.Ops(1)
	if err != nil {
		t.Failf("CreateCertificate: %v", err)
	}
	sameInfo(t)
	same(t)
	cc.check(t, der, handed, cc.sig)
	return info, der
}

// check reads the certificate back with the independent decoder and the library.
func (cc *certCase) check(t *eng.T, der, handed, sig []byte) {
	tp := cc.tp
	issuer, subject := nameDER(cc.parent.RawSubject, cc.parent.Subject), nameDER(tp.RawSubject, tp.Subject)
	empty := len(subject) == 2
	aki := tp.AuthorityKeyId
	if !bytes.Equal(issuer, subject) && len(cc.parent.SubjectKeyId) > 0 {
		aki = cc.parent.SubjectKeyId
	}
	want := certExts(tp, empty, aki)

	ci, err := ref.DecodeCert(der)
	if err != nil {
		t.Failf("the certificate is not strictly DER X.509: %v: %s", err, hx(der))
	}
	if err := ref.StrictDER(der); err != nil {
		t.Failf("the certificate contains non-canonical elements: %v", err)
	}
	wantBytes(t, "to-be-signed part of the certificate against the structure handed out", ci.TBS, handed)
	t.Check(ci.Version == 2, "version field %d", ci.Version)
	t.Check(ci.Serial.Cmp(tp.SerialNumber) == 0, "serial number %v, want %v", ci.Serial, tp.SerialNumber)
	wantBytes(t, "inner algorithm", ci.Alg, ref.AlgSM3SM2())
	wantBytes(t, "outer algorithm", ci.OuterAlg, ref.AlgSM3SM2())
	wantBytes(t, "signature value", ci.Sig, sig)
	wantBytes(t, "issuer", ci.Issuer, issuer)
	wantBytes(t, "subject", ci.Subject, subject)
	wantBytes(t, "public key", ci.Key, cc.spki)
	t.Check(ci.NotBefore == tp.NotBefore.Unix(), "not before %d, want %v", ci.NotBefore, tp.NotBefore)
	t.Check(ci.NotAfter == tp.NotAfter.Unix(), "not after %d, want %v", ci.NotAfter, tp.NotAfter)
	t.Check(ci.HasExts == (len(want) > 0), "extensions present: %v, want %d", ci.HasExts, len(want))
	if len(ci.Exts) != len(want) {
		t.Failf("%d extensions %v, want %v", len(ci.Exts), ci.Exts, want)
	}
	for _, e := range ci.Exts {
		w, ok := want[e.Key()]
		if !ok {
			t.Failf("extension %v is not asked for, or there twice", e.OID)
		}
		if e.Critical != w.Critical || !bytes.Equal(e.Value, w.Value) {
			t.Failf("extension %v is critical=%v %x, want critical=%v %x", e.OID, e.Critical, e.Value, w.Critical, w.Value)
		}
	}
	// extra extensions keep their order
	k := 0
	for _, e := range ci.Exts {
		if k < len(tp.ExtraExtensions) && tp.ExtraExtensions[k].Id.Equal(e.OID) {
			k++
		}
	}
	t.Check(k == len(tp.ExtraExtensions), "the extra extensions are not in the order given: %v", ci.Exts)

	in := append([]byte{}, der...)
	p, err := cert.ParseCertificate(in)
	t.Ops(1)
	if err != nil {
		t.Failf("ParseCertificate of the issued certificate: %v", err)
	}
	wantBytes(t, "argument of ParseCertificate", in, der)
	wantBytes(t, "Raw", p.Raw, der)
	wantBytes(t, "RawTBSCertificate", p.RawTBSCertificate, ci.TBS)
	wantBytes(t, "RawSubjectPublicKeyInfo", p.RawSubjectPublicKeyInfo, cc.spki)
	wantBytes(t, "RawSubject", p.RawSubject, subject)
	wantBytes(t, "RawIssuer", p.RawIssuer, issuer)
	wantBytes(t, "Signature", p.Signature, sig)
	t.Check(p.Version == 3, "parsed version %d", p.Version)
	t.Check(p.SerialNumber != nil && p.SerialNumber.Cmp(tp.SerialNumber) == 0, "parsed serial number %v, want %v", p.SerialNumber, tp.SerialNumber)
	t.Check(p.NotBefore.Unix() == tp.NotBefore.Unix() && p.NotBefore.Nanosecond() == 0, "parsed NotBefore %v, want %v", p.NotBefore, tp.NotBefore)
	t.Check(p.NotAfter.Unix() == tp.NotAfter.Unix() && p.NotAfter.Nanosecond() == 0, "parsed NotAfter %v, want %v", p.NotAfter, tp.NotAfter)
	_, o1 := p.NotBefore.Zone()
	_, o2 := p.NotAfter.Zone()
	t.Check(o1 == 0 && o2 == 0, "parsed times are not in UTC: %v %v", p.NotBefore, p.NotAfter)
	t.Check(reflect.DeepEqual(p.Subject, parsedName(subject)), "parsed subject %v, want %v", p.Subject, parsedName(subject))
	t.Check(reflect.DeepEqual(p.Issuer, parsedName(issuer)), "parsed issuer %v, want %v", p.Issuer, parsedName(issuer))
	checkPub(t, p.PublicKey, cc.key)
	cc.checkFields(t, p, ci, want, aki)
	t.Obs(ci.Issuer, ci.Subject, len(want), ci.NotAfter, fmt.Sprint(p.UnhandledCriticalExtensions), ci.Serial.String(), p.KeyUsage, p.MaxPathLen)
}

// checkFields compares the extension fields as the library reads them.
func (cc *certCase) checkFields(t *eng.T, p *x509.Certificate, ci ref.CertInfo, want map[string]ref.ExtInfo, aki []byte) {
	tp := cc.tp
	if len(p.Extensions) != len(ci.Exts) {
		t.Failf("parsed %d extensions, want %d", len(p.Extensions), len(ci.Exts))
	}
	var unhandled []stdasn1.ObjectIdentifier
	known := map[string]bool{}
	for _, o := range []stdasn1.ObjectIdentifier{oidKU, oidEKU, oidBC, oidSKI, oidAKI, oidAIA, oidSAN, oidPol, oidNC, oidCRL} {
		known[o.String()] = true
	}
	over := map[string]bool{}
	for _, e := range tp.ExtraExtensions {
		over[e.Id.String()] = true
	}
	for i, e := range ci.Exts {
		g := p.Extensions[i]
		if !g.Id.Equal(e.OID) || g.Critical != e.Critical || !bytes.Equal(g.Value, e.Value) {
			t.Failf("parsed extension %d is %v, want %v critical=%v %x", i, g, e.OID, e.Critical, e.Value)
		}
		if e.Critical && !known[g.Id.String()] {
			unhandled = append(unhandled, g.Id)
		}
	}
	sameOIDs(t, "unhandled critical extensions", p.UnhandledCriticalExtensions, unhandled)
	has := func(o stdasn1.ObjectIdentifier) bool { return !over[o.String()] }
	if has(oidKU) {
		t.Check(p.KeyUsage == tp.KeyUsage&511, "parsed key usage %b, want %b", p.KeyUsage, tp.KeyUsage)
	}
	if has(oidEKU) {
		ok := len(p.ExtKeyUsage) == len(tp.ExtKeyUsage)
		for i := 0; ok && i < len(p.ExtKeyUsage); i++ {
			ok = p.ExtKeyUsage[i] == tp.ExtKeyUsage[i]
		}
		t.Check(ok, "parsed extended key usages %v, want %v", p.ExtKeyUsage, tp.ExtKeyUsage)
		sameOIDs(t, "parsed unknown extended key usages", p.UnknownExtKeyUsage, tp.UnknownExtKeyUsage)
	}
	if has(oidBC) {
		t.Check(p.BasicConstraintsValid == tp.BasicConstraintsValid, "parsed BasicConstraintsValid %v", p.BasicConstraintsValid)
		if tp.BasicConstraintsValid {
			mp := tp.MaxPathLen
			if mp == 0 && !tp.MaxPathLenZero {
				mp = -1
			}
			t.Check(p.IsCA == tp.IsCA && p.MaxPathLen == mp && p.MaxPathLenZero == (mp == 0), "parsed basic constraints CA=%v path=%d zero=%v, want CA=%v path=%d", p.IsCA, p.MaxPathLen, p.MaxPathLenZero, tp.IsCA, mp)
		} else {
			t.Check(!p.IsCA && p.MaxPathLen == 0 && !p.MaxPathLenZero, "basic constraints parsed although absent")
		}
	}
	if has(oidSKI) {
		wantBytes(t, "parsed SubjectKeyId", p.SubjectKeyId, tp.SubjectKeyId)
	}
	if has(oidAKI) {
		wantBytes(t, "parsed AuthorityKeyId", p.AuthorityKeyId, aki)
	}
	if has(oidAIA) {
		sameStr(t, "parsed OCSP servers", p.OCSPServer, tp.OCSPServer)
		sameStr(t, "parsed issuer URLs", p.IssuingCertificateURL, tp.IssuingCertificateURL)
	}
	san := ref.TLV(0x30)
	if e, ok := want[ref.ExtInfo{OID: oidSAN}.Key()]; ok {
		san = e.Value
	}
	checkNames(t, "parsed certificate", san, p.DNSNames, p.EmailAddresses, p.IPAddresses, p.URIs)
	if has(oidPol) {
		sameOIDs(t, "parsed policies", p.PolicyIdentifiers, tp.PolicyIdentifiers)
	}
	if has(oidNC) {
		sameStr(t, "parsed permitted DNS", p.PermittedDNSDomains, tp.PermittedDNSDomains)
		sameStr(t, "parsed excluded DNS", p.ExcludedDNSDomains, tp.ExcludedDNSDomains)
		sameStr(t, "parsed permitted e-mail", p.PermittedEmailAddresses, tp.PermittedEmailAddresses)
		sameStr(t, "parsed excluded e-mail", p.ExcludedEmailAddresses, tp.ExcludedEmailAddresses)
		sameStr(t, "parsed permitted URI", p.PermittedURIDomains, tp.PermittedURIDomains)
		sameStr(t, "parsed excluded URI", p.ExcludedURIDomains, tp.ExcludedURIDomains)
		sameNets(t, "parsed permitted IP ranges", p.PermittedIPRanges, tp.PermittedIPRanges)
		sameNets(t, "parsed excluded IP ranges", p.ExcludedIPRanges, tp.ExcludedIPRanges)
		if _, ok := want[ref.ExtInfo{OID: oidNC}.Key()]; ok {
			t.Check(p.PermittedDNSDomainsCritical == tp.PermittedDNSDomainsCritical, "parsed PermittedDNSDomainsCritical %v", p.PermittedDNSDomainsCritical)
		}
	}
	if has(oidCRL) {
		sameStr(t, "parsed CRL URLs", p.CRLDistributionPoints, tp.CRLDistributionPoints)
	}
}

func cidr(s string) *net.IPNet {
	ip, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	n.IP = ip // not masked
	if len(n.Mask) == 4 {
		n.IP = ip.To4()
	}
	return n
}

// fields that can be switched on, in the order of the bits
var c20Fields = []struct {
	name string
	oid  stdasn1.ObjectIdentifier
	set  func(tp *x509.Certificate)
	over []byte // a valid overriding value
}{
	{"KeyUsage", oidKU, func(tp *x509.Certificate) { tp.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDecipherOnly }, []byte{3, 2, 7, 0x80}},
	{"ExtKeyUsage", oidEKU, func(tp *x509.Certificate) {
		tp.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}
		tp.UnknownExtKeyUsage = []stdasn1.ObjectIdentifier{{1, 2, 3}, {2, 59, 1}}
	}, ref.TLV(0x30, ref.OID(1, 2, 3))},
	{"BasicConstraints", oidBC, func(tp *x509.Certificate) { tp.BasicConstraintsValid, tp.IsCA, tp.MaxPathLen = true, true, 3 }, []byte{0x30, 0}},
	{"SubjectKeyId", oidSKI, func(tp *x509.Certificate) { tp.SubjectKeyId = []byte{1, 2, 3, 4} }, []byte{4, 1, 9}},
	{"AuthorityKeyId", oidAKI, func(tp *x509.Certificate) { tp.AuthorityKeyId = []byte{5, 6, 7} }, []byte{0x30, 3, 0x80, 1, 9}},
	{"AIA", oidAIA, func(tp *x509.Certificate) {
		tp.OCSPServer = []string{"http://ocsp.example"}
		tp.IssuingCertificateURL = []string{"http://ca.example/1", "http://ca.example/2"}
	}, []byte{0x30, 0}},
	{"SAN", oidSAN, func(tp *x509.Certificate) {
		tp.DNSNames = []string{"b.example", "a.example"}
		tp.EmailAddresses = []string{"m@a.example"}
		tp.IPAddresses = []net.IP{net.IPv4(1, 2, 3, 4), net.ParseIP("::1")}
		tp.URIs = []*url.URL{mustURL("http://a.example/")}
	}, sanA},
	{"Policies", oidPol, func(tp *x509.Certificate) {
		tp.PolicyIdentifiers = []stdasn1.ObjectIdentifier{{2, 5, 29, 32, 0}, {1, 2, 3}}
	}, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 4)))},
	{"NameConstraints", oidNC, func(tp *x509.Certificate) {
		tp.PermittedDNSDomainsCritical = true
		tp.PermittedDNSDomains = []string{".z.example", "y.example"}
		tp.ExcludedIPRanges = []*net.IPNet{cidr("10.1.2.3/8")}
	}, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte("x")))))},
	{"CRL", oidCRL, func(tp *x509.Certificate) {
		tp.CRLDistributionPoints = []string{"http://crl.example/1", "ldap://crl.example/2"}
	}, []byte{0x30, 0}},
}

func c20Base() *x509.Certificate {
	return &x509.Certificate{SerialNumber: bint(0x7f80), Subject: pkix.Name{CommonName: "subject", Organization: []string{"o"}},
		NotBefore: time.Unix(1500000000, 5e8), NotAfter: time.Unix(2600000000, 999999999)}
}

func c20Parent() *x509.Certificate {
	return &x509.Certificate{Subject: pkix.Name{CommonName: "issuer"}, SubjectKeyId: []byte{0xaa, 0xbb}}
}

func caseFor(tp, parent *x509.Certificate, k *keyPair) *certCase {
	spki := ref.SPKI(k.pt)
	return &certCase{tp: tp, parent: parent, csr: &x509.CertificateRequest{RawSubjectPublicKeyInfo: spki, PublicKey: k.pub, Subject: pkix.Name{CommonName: "not used"}, DNSNames: []string{"not.used"}},
		spki: spki, key: k.pt, sig: []byte{0x30, 6, 2, 1, 1, 2, 1, 2}}
}

func mustFail(t *eng.T, cc *certCase, what string) {
	same := unchanged("a template given to CreateCertificateInfo", cc.tp, cc.parent, cc.csr)
	var info *cert.TBSCertificate
	var err error
	p, st := eng.Catch(func() { info, err = cert.CreateCertificateInfo(cc.tp, cc.parent, cc.csr) })
	t.Ops(1)
	if p != nil {
		t.Failf("CreateCertificateInfo with %s panics: %v at %s", what, p, st)
	}
	t.Check(err != nil && info == nil, "CreateCertificateInfo with %s gives %v, %v instead of an error", what, info, err)
	same(t)
}

// seqs returns all sequences up to length max over 0..n-1.
func seqs(n, max int) [][]int {
	out := [][]int{{}}
	level := [][]int{{}}
	for l := 0; l < max; l++ {
		var next [][]int
		for _, s := range level {
			for v := 0; v < n; v++ {
				next = append(next, append(append([]int{}, s...), v))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// c20List gives one list field of a template the entries named by q.
func c20List(tp *x509.Certificate, field int, q []int) {
	names := func(suffix string) (out []string) {
		for _, v := range q {
			if v == 0 {
				out = append(out, "")
			} else {
				out = append(out, fmt.Sprintf("n%d%s", v, suffix))
			}
		}
		return append(out, "spare")[:len(out)]
	}
	oids := func() (out []stdasn1.ObjectIdentifier) {
		for _, v := range q {
			out = append(out, stdasn1.ObjectIdentifier{1, 2, v * 100})
		}
		return
	}
	switch field {
	case 0:
		tp.DNSNames = names(".example")
	case 1:
		tp.EmailAddresses = names("@example.com")
	case 2:
		for _, v := range q {
			tp.IPAddresses = append(tp.IPAddresses, [][]byte{{1, 2, 3, 4}, net.IPv4(9, 8, 7, 6), net.ParseIP("2001:db8::1")}[v%3])
		}
	case 3:
		for _, v := range q {
			tp.URIs = append(tp.URIs, mustURL([]string{"/rel", "http://a.example/", "urn:x"}[v%3]))
		}
	case 4:
		tp.CRLDistributionPoints = names(".crl")
	case 5:
		tp.PolicyIdentifiers = oids()
	case 6:
		tp.UnknownExtKeyUsage = oids()
	case 7:
		tp.OCSPServer = names(".ocsp")
	case 8:
		tp.IssuingCertificateURL = names(".issuer")
	}
}

// listSeqsFor are all sequences up to a length over three values and some long ones.
func listSeqsFor(max int) [][]int {
	out := seqs(3, max)
	var lens []int
	for n := max + 1; n <= 40; n++ {
		lens = append(lens, n)
	}
	for _, n := range append(lens, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025) {
		a, b := make([]int, n), make([]int, n)
		for j := range a {
			a[j], b[j] = j, n-j%2
		}
		out = append(out, a, b)
	}
	return out
}

func pickStr(s []int, from []string) (out []string) {
	for _, v := range s {
		out = append(out, from[v])
	}
	return
}

func c20(tier string) []eng.Space {
	sc := realScalars()
	key := func() *keyPair { return realPairCached(sc[40]) }
	nf := len(c20Fields)
	overrides := pick(tier, nf+1, (nf+1)*2)

	serials := []*big.Int{}
	for v := int64(-300); v <= 300; v++ {
		serials = append(serials, bint(v))
	}
	for k := uint(8); k <= 1100; k++ {
		if k > 200 && k%8 > 1 {
			continue
		}
		for d := int64(-1); d <= 1; d++ {
			v := sub(pow2(k), d)
			serials = append(serials, v, new(big.Int).Neg(v))
		}
	}
	ekuSeqs := seqs(len(ekuTable), pick(tier, 2, 3))
	unkSeqs := [][]stdasn1.ObjectIdentifier{nil, {{1, 2, 3}}, {{2, 59, 1}, {1, 2, 3}}, {{1, 3, 6, 1, 5, 5, 7, 3, 99}}, {{2, 5, 29, 37, 1}, {2, 999, 268435455}, {0, 0}}}
	urls := []string{"http://a.example/x", "", "ldap://b.example/cn=c?d", "http://" + string(bytes.Repeat([]byte("u"), 200)) + ".example/"}
	listSeqs := listSeqsFor(pick(tier, 4, 5))
	urlSeqs := seqs(len(urls), pick(tier, 2, 3))
	policies := []stdasn1.ObjectIdentifier{{2, 5, 29, 32, 0}, {1, 2, 3, 4}, {0, 39}, {2, 999, 1}, {1, 2, 156, 10197, 6, 1, 4, 268435455}}
	polSeqs := seqs(len(policies), 3)
	dns := [][]string{nil, {"a.example"}, {".b.example", "c", ""}, {string(bytes.Repeat([]byte("l."), 80)) + "x"}}
	nets := [][]*net.IPNet{nil, {cidr("10.1.2.3/8")}, {cidr("2001:db8::1/32"), cidr("0.0.0.0/0"), cidr("1.2.3.4/32")}}
	mails := [][]string{nil, {"m@a.example"}, {".a.example", "\"x y\"@b", "c.example"}}
	uris := [][]string{nil, {"a.example"}, {".b.example", "c"}}
	bcs := []int{-1, 0, 1, 2, 100, 127, 128, 255, 256, 32767, 32768, 1<<31 - 1}
	years := 10001
	exSets := []pkix.Extension{
		{Id: oidPriv1, Value: []byte{1, 2, 3}},
		{Id: oidPriv2, Critical: true, Value: []byte{5, 0}},
		{Id: stdasn1.ObjectIdentifier{2, 5, 29, 54}, Critical: true, Value: []byte{2, 1, 0}},
		{Id: oidSAN, Value: sanA, Critical: true},
		{Id: oidKU, Value: []byte{3, 2, 7, 0x80}},
		{Id: stdasn1.ObjectIdentifier{2, 5, 29}, Value: nil},
		{Id: stdasn1.ObjectIdentifier{2, 5, 29, 15, 1}, Critical: true, Value: []byte{1}},
		{Id: oidAKI, Value: []byte{0x30, 0}},
	}
	exSeqs := [][]int{}
	for _, s := range seqs(len(exSets), 3) {
		ok := true
		for i := range s {
			for j := range s[:i] {
				ok = ok && s[i] != s[j]
			}
		}
		if ok {
			exSeqs = append(exSeqs, s)
		}
	}
	idLens := 300
	return []eng.Space{
		{Name: "presence", N: 1 << uint(nf), Doc: "every subset of the optional fields x empty or given subject x self-issued or not x every overriding extra extension",
			Run: func(t *eng.T, i int) {
				for o := 0; o < overrides; o++ {
					for v := 0; v < 4; v++ {
						tp := c20Base()
						for b := range c20Fields {
							if i>>uint(b)&1 == 1 {
								c20Fields[b].set(tp)
							}
						}
						if v&1 == 1 {
							tp.Subject = pkix.Name{}
						}
						parent := c20Parent()
						if v&2 == 2 {
							parent.Subject = tp.Subject
						}
						if f := o % (nf + 1); f < nf {
							tp.ExtraExtensions = spareExts([]pkix.Extension{{Id: c20Fields[f].oid, Value: c20Fields[f].over, Critical: o > nf}})
						}
						t.Descf("fields %010b, override %d, variant %d", i, o, v)
						caseFor(tp, parent, key()).issue(t)
					}
				}
			}},
		{Name: "key-usage", N: 512, Doc: "all key usages",
			Run: func(t *eng.T, i int) {
				tp := c20Base()
				tp.KeyUsage = x509.KeyUsage(i)
				t.Descf("key usage %09b", i)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "ext-key-usage", N: len(ekuSeqs), Doc: "all sequences of extended key usages up to length 2 (3) x unknown ones; an unknown number at every place gives an error",
			Run: func(t *eng.T, i int) {
				for _, unk := range unkSeqs {
					tp := c20Base()
					for _, v := range ekuSeqs[i] {
						tp.ExtKeyUsage = append(tp.ExtKeyUsage, x509.ExtKeyUsage(v))
					}
					tp.UnknownExtKeyUsage = unk
					t.Descf("extended key usages %v, unknown %v", tp.ExtKeyUsage, unk)
					caseFor(tp, c20Parent(), key()).issue(t)
					for _, bad := range []int{-1, len(ekuTable), 99, 1 << 30} {
						for p := 0; p <= len(ekuSeqs[i]); p++ {
							b := c20Base()
							b.UnknownExtKeyUsage = unk
							b.ExtKeyUsage = append(append(append([]x509.ExtKeyUsage{}, tp.ExtKeyUsage[:p]...), x509.ExtKeyUsage(bad)), tp.ExtKeyUsage[p:]...)
							t.Descf("extended key usages %v", b.ExtKeyUsage)
							mustFail(t, caseFor(b, c20Parent(), key()), "an unknown extended key usage")
						}
					}
				}
			}},
		{Name: "basic-constraints", N: len(bcs) * 8, Doc: "valid x CA x path length x zero flag",
			Run: func(t *eng.T, i int) {
				tp := c20Base()
				tp.MaxPathLen = bcs[i/8]
				tp.BasicConstraintsValid, tp.IsCA, tp.MaxPathLenZero = i&1 == 1, i&2 == 2, i&4 == 4
				t.Descf("basic constraints valid=%v CA=%v path=%d zero=%v", tp.BasicConstraintsValid, tp.IsCA, tp.MaxPathLen, tp.MaxPathLenZero)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "serial", N: len(serials) + 1, Doc: "serial numbers -300..300 and ±2^k, ±(2^k±1); none at all gives an error",
			Run: func(t *eng.T, i int) {
				tp := c20Base()
				if i == len(serials) {
					tp.SerialNumber = nil
					t.Descf("no serial number")
					mustFail(t, caseFor(tp, c20Parent(), key()), "no serial number")
					return
				}
				tp.SerialNumber = serials[i]
				t.Descf("serial number %v", serials[i])
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "validity", N: years, Doc: "first and last second of every year 0..9999 in several zones, days around month ends of sample years; years outside give an error",
			Run: func(t *eng.T, y int) {
				zones := []*time.Location{time.UTC, time.FixedZone("e", 14*3600), time.FixedZone("w", -12*3600-1800), time.FixedZone("s", 3601)}
				if y >= 10000 {
					for _, tt := range []time.Time{time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(9999, 12, 31, 23, 0, 0, 0, zones[2]), time.Date(0, 1, 1, 1, 0, 0, 0, zones[1]), time.Date(99999, 1, 1, 0, 0, 0, 0, time.UTC)} {
						for v := 0; v < 2; v++ {
							tp := c20Base()
							if v == 0 {
								tp.NotBefore = tt
							} else {
								tp.NotAfter = tt
							}
							t.Descf("validity %v", tt)
							mustFail(t, caseFor(tp, c20Parent(), key()), "a year outside 0..9999")
						}
					}
					return
				}
				one := func(a, b time.Time) {
					if a.UTC().Year() < 0 || a.UTC().Year() > 9999 || b.UTC().Year() < 0 || b.UTC().Year() > 9999 {
						return
					}
					tp := c20Base()
					tp.NotBefore, tp.NotAfter = a, b
					t.Descf("validity %v .. %v", a, b)
					caseFor(tp, c20Parent(), key()).issue(t)
				}
				z := zones[y%len(zones)]
				one(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 23, 59, 59, 999999999, time.UTC))
				one(time.Date(y, 1, 1, 0, 0, 0, 0, z), time.Date(y, 12, 31, 23, 59, 59, 1, z))
				if y%100 == 49 || y%100 == 50 || y == 2000 || y == 2024 || y == 1900 {
					for m := 1; m <= 12; m++ {
						for _, z := range zones {
							one(time.Date(y, time.Month(m), 1, 0, 0, 0, 0, z), time.Date(y, time.Month(m)+1, 0, 23, 59, 59, 0, z))
							one(time.Date(y, time.Month(m), 9, 10, 20, 30, 0, z), time.Date(y, time.Month(m), 29, 9, 9, 9, 0, z))
						}
					}
				}
			}},
		{Name: "names", N: len(c18Subjects) * len(c18Subjects) * 12, Doc: "subject forms x issuer forms x issuer's and own key identifiers",
			Run: func(t *eng.T, i int) {
				d := mix(i, len(c18Subjects), len(c18Subjects), 4, 3)
				tp, parent := c20Base(), c20Parent()
				tp.Subject, tp.RawSubject = c18Subjects[d[0]].subject, c18Subjects[d[0]].raw
				parent.Subject, parent.RawSubject = c18Subjects[d[1]].subject, c18Subjects[d[1]].raw
				parent.SubjectKeyId = [][]byte{nil, {}, {1}, pat(0, 20)}[d[2]]
				tp.AuthorityKeyId = [][]byte{nil, {2}, pat(1, 200)}[d[3]]
				tp.SubjectKeyId = []byte{3}
				tp.DNSNames = []string{"n.example"}
				tp.Issuer, tp.RawIssuer = pkix.Name{CommonName: "not used"}, []byte{0x30, 0}
				parent.Issuer = pkix.Name{CommonName: "not used"}
				parent.AuthorityKeyId = []byte{4}
				t.Descf("subject %s, issuer %s, issuer key id %x, own authority key id %x", c18Subjects[d[0]].name, c18Subjects[d[1]].name, parent.SubjectKeyId, tp.AuthorityKeyId)
				caseFor(tp, parent, key()).issue(t)
				if d[0] == d[1] { // one object as both
					one := *tp
					one.SubjectKeyId = parent.SubjectKeyId
					t.Descf("self-issued from one template: %s, key id %x, own authority key id %x", c18Subjects[d[0]].name, parent.SubjectKeyId, tp.AuthorityKeyId)
					caseFor(&one, &one, key()).issue(t)
				}
			}},
		{Name: "key-ids", N: idLens, Doc: "key identifiers of every length",
			Run: func(t *eng.T, i int) {
				for kind := 0; kind < 3; kind++ {
					tp, parent := c20Base(), c20Parent()
					tp.SubjectKeyId, parent.SubjectKeyId, tp.AuthorityKeyId = pat(kind, i), pat(kind, (i*7+1)%idLens), pat(kind, (i*5+3)%idLens)
					t.Descf("key identifiers of %d, %d, %d bytes", len(tp.SubjectKeyId), len(parent.SubjectKeyId), len(tp.AuthorityKeyId))
					caseFor(tp, parent, key()).issue(t)
				}
			}},
		{Name: "urls", N: len(urlSeqs) * len(urlSeqs), Doc: "all pairs of OCSP and issuer URL lists, and CRL lists",
			Run: func(t *eng.T, i int) {
				a, b := urlSeqs[i/len(urlSeqs)], urlSeqs[i%len(urlSeqs)]
				tp := c20Base()
				tp.OCSPServer, tp.IssuingCertificateURL = pickStr(a, urls), pickStr(b, urls)
				tp.CRLDistributionPoints = pickStr(b, urls)
				t.Descf("URL lists %v %v", a, b)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "lists", N: len(listSeqs) * 9, Doc: "every list field with all sequences up to length 4 (5) over three values, and lists of up to 1025 entries",
			Run: func(t *eng.T, i int) {
				q, field := listSeqs[i/9], i%9
				tp := c20Base()
				c20List(tp, field, q)
				t.Descf("list field %d with entries %v", field, q)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "values", N: valueFields * 34, Doc: "every single value and every ordered pair of unusual values in each list of names and each part of the subject",
			Run: func(t *eng.T, i int) {
				field, k := i%valueFields, i/valueFields
				if k >= nValues(field) {
					return
				}
				for pair := -1; pair < nValues(field); pair++ {
					if pair >= 0 && !thorough(tier) && field > 3 && (pair+k)%5 != 0 {
						continue
					}
					tp := c20Base()
					t.Descf("%s", setValue(tp, field, k, pair))
					caseFor(tp, c20Parent(), key()).issue(t)
				}
			}},
		{Name: "policies", N: len(polSeqs), Doc: "all policy lists up to length 3",
			Run: func(t *eng.T, i int) {
				tp := c20Base()
				for _, v := range polSeqs[i] {
					tp.PolicyIdentifiers = append(tp.PolicyIdentifiers, policies[v])
				}
				t.Descf("policies %v", tp.PolicyIdentifiers)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "sans", N: len(c18DNS) * len(c18Mail) * len(c18IP) * 3 * 2, Doc: "the product of name lists x empty subject",
			Run: func(t *eng.T, i int) {
				d := mix(i, len(c18DNS), len(c18Mail), len(c18IP), 3, 2)
				tp := c20Base()
				tp.DNSNames, tp.EmailAddresses, tp.IPAddresses, tp.URIs = c18DNS[d[0]], c18Mail[d[1]], c18IP[d[2]], c18URIs(d[3])
				if d[4] == 1 {
					tp.Subject = pkix.Name{}
				}
				t.Descf("names %v", d)
				caseFor(tp, c20Parent(), key()).issue(t)
			}},
		{Name: "name-constraints", N: prod(len(dns), len(nets), len(mails), len(uris)), Doc: "the product of permitted lists x the product of excluded lists x criticality; a non-ASCII character in any list gives an error",
			Run: func(t *eng.T, i int) {
				radix := []int{len(dns), len(nets), len(mails), len(uris)}
				d := mix(i, radix...)
				for j := 0; j < prod(radix...); j++ {
					if !thorough(tier) && j%3 != i%3 {
						continue
					}
					f := mix(j, radix...)
					for crit := 0; crit < 2; crit++ {
						tp := c20Base()
						tp.PermittedDNSDomains, tp.PermittedIPRanges, tp.PermittedEmailAddresses, tp.PermittedURIDomains = dns[d[0]], nets[d[1]], mails[d[2]], uris[d[3]]
						tp.ExcludedDNSDomains, tp.ExcludedIPRanges, tp.ExcludedEmailAddresses, tp.ExcludedURIDomains = dns[f[0]], nets[f[1]], mails[f[2]], uris[f[3]]
						tp.PermittedDNSDomainsCritical = crit == 1
						t.Descf("permitted %v excluded %v critical %v", d, f, crit == 1)
						caseFor(tp, c20Parent(), key()).issue(t)
					}
				}
				for w := 0; w < 6; w++ {
					for _, bad := range []string{"é.example", "x.中", "\u0080"} {
						tp := c20Base()
						tp.PermittedDNSDomains, tp.PermittedEmailAddresses, tp.PermittedURIDomains = dns[d[0]], mails[d[2]], uris[d[3]]
						tp.ExcludedIPRanges = nets[d[1]]
						l := []*[]string{&tp.PermittedDNSDomains, &tp.PermittedEmailAddresses, &tp.PermittedURIDomains, &tp.ExcludedDNSDomains, &tp.ExcludedEmailAddresses, &tp.ExcludedURIDomains}[w]
						for p := 0; p <= len(*l); p++ {
							s := *l
							*l = append(append(append([]string{}, s[:p]...), bad), s[p:]...)
							t.Descf("permitted %v with %q in list %d", d, bad, w)
							mustFail(t, caseFor(tp, c20Parent(), key()), "a name constraint that is not an IA5 string")
							*l = s
						}
					}
				}
			}},
		{Name: "ip-ranges", N: 2 * 129, Doc: "IP ranges with every prefix length, unmasked addresses, IPv4 addresses in 16 bytes",
			Run: func(t *eng.T, i int) {
				bits, l := 32, i/2
				if i%2 == 1 {
					bits = 128
				}
				if l > bits {
					return
				}
				for kind := 0; kind < 4; kind++ {
					tp := c20Base()
					n := &net.IPNet{IP: pat(kind, bits/8), Mask: net.CIDRMask(l, bits)}
					tp.PermittedIPRanges = []*net.IPNet{n}
					tp.ExcludedIPRanges = []*net.IPNet{cidr("1.2.3.4/7"), n}
					if bits == 32 {
						tp.ExcludedIPRanges = append(tp.ExcludedIPRanges, &net.IPNet{IP: net.IPv4(200, 201, 202, 203), Mask: n.Mask})
					}
					t.Descf("IP range %v/%d", n.IP, l)
					caseFor(tp, c20Parent(), key()).issue(t)
				}
			}},
		{Name: "extra", N: len(exSeqs), Doc: "all sequences of distinct extra extensions up to length 3, in every order, with and without the generated ones",
			Run: func(t *eng.T, i int) {
				for v := 0; v < 3; v++ {
					tp := c20Base()
					if v > 0 {
						for b := range c20Fields {
							if v == 1 || b%2 == 0 {
								c20Fields[b].set(tp)
							}
						}
					}
					var l []pkix.Extension
					for _, k := range exSeqs[i] {
						l = append(l, exSets[k])
					}
					tp.ExtraExtensions = spareExts(l)
					tp.Extensions = []pkix.Extension{{Id: oidPriv1, Value: []byte("not used")}}
					t.Descf("extra extensions %v, base %d", exSeqs[i], v)
					caseFor(tp, c20Parent(), key()).issue(t)
				}
			}},
		{Name: "requests", N: len(sc) * 2, Doc: "public keys of real requests, parsed by the library, including coordinates with leading zeros",
			Run: func(t *eng.T, i int) {
				d := sc[i/2]
				if d.Sign() <= 0 || d.Cmp(sub(ref.SM2.N, 1)) >= 0 {
					return
				}
				k := realPair(d)
				t.Descf("key %s", k.name)
				body := ref.CSRInfo(0, parsedSubject(csrTemplate()), ref.SPKI(k.pt))
				req, err := cert.ParseCertificateRequest(ref.Signed(body, ref.AlgSM3SM2(), ref.EncodeSig(bint(5), bint(6))))
				t.Ops(1)
				if err != nil {
					t.Failf("ParseCertificateRequest: %v", err)
				}
				cc := caseFor(c20Base(), c20Parent(), k)
				cc.csr = req
				if i%2 == 1 {
					cert.FillCertificateTemplateByCSR(cc.tp, req)
					t.Ops(1)
				}
				cc.issue(t)
				// a damaged request gives an error
				for _, raw := range [][]byte{append(append([]byte{}, cc.spki...), 0), cc.spki[:len(cc.spki)-1], nil, {}, {0x30, 0}, {5, 0}} {
					q := *req
					q.RawSubjectPublicKeyInfo = raw
					dc := *cc
					dc.csr = &q
					t.Descf("key info %s in the request", hx(raw))
					mustFail(t, &dc, "a damaged public key info")
				}
			}},
		{Name: "signatures", N: 300, Doc: "any signature bytes are carried as given",
			Run: func(t *eng.T, i int) {
				cc := caseFor(c20Base(), c20Parent(), key())
				for kind := 0; kind < 5; kind++ {
					cc.sig = pat(kind, i)
					t.Descf("signature of %d bytes, pattern %d", i, kind)
					cc.issue(t)
				}
			}},
		{Name: "issue", N: pick(tier, 120, 600), Doc: "certificates signed with the library by keys of small curves and of the SM2 curve; the signature is over the handed out structure; one structure signed several times",
			Run: func(t *eng.T, i int) {
				names := []string{"five bits n<p", "five bits n>p", "n<p byte", "n>p byte"}
				ids := [][]byte{nil, {}, []byte("user"), pat(0, 300)}
				tp := c20Base()
				for b := range c20Fields {
					if i>>uint(b%7)&1 == 1 {
						c20Fields[b].set(tp)
					}
				}
				k := realPairCached(sc[40+i%8])
				ca := toyPair(names[i%4], int64(1+i%5))
				if i%6 == 0 {
					ca = realPairCached(sc[30+i%20])
				}
				id := ids[i/4%4]
				cc := caseFor(tp, c20Parent(), k)
				t.Descf("issued by %s, user ID of %d bytes, template %d", ca.name, len(id), i)
				info, _ := cc.issue(t)
				handed := append([]byte{}, info.Raw...)
				for n := 0; n < 3; n++ {
					fk := freeze(ca.pri, ca.pub)
					same := unchanged("an argument of IssueCertificateBySoftCAKey", info, id, tp, cc.parent, cc.csr)
					var der []byte
					var err error
					withRand(newPrng(i*3+n), func() { der, err = cert.IssueCertificateBySoftCAKey(info, ca.pri, id) })
					t.Ops(1)
					if err != nil {
						t.Failf("IssueCertificateBySoftCAKey: %v", err)
					}
					same(t)
					fk.check(t)
					_, _, sig, err := ref.DecodeSigned(der)
					if err != nil {
						t.Failf("issued certificate: %v", err)
					}
					if !ca.signed(id, handed, sig) {
						t.Failf("the signature %x of the issued certificate does not verify under the issuer's key", sig)
					}
					cc.check(t, der, handed, sig)
					p, err := cert.ParseCertificate(der)
					t.Check(err == nil, "ParseCertificate: %v", err)
					t.Check(sm2.Verify(ca.pub, id, p.RawTBSCertificate, p.Signature), "sm2.Verify refuses the parsed certificate")
					t.Ops(2)
				}
				// no private key that can sign: an error and no certificate
				long := make([]byte, 8192)
				if der, err := cert.IssueCertificateBySoftCAKey(info, ca.pri, long); err == nil || der != nil {
					t.Failf("no error for a user ID of 8192 bytes")
				}
			}},
		{Name: "fill", N: len(c18Subjects) * len(c18Extras) * c18NAttrs, Doc: "FillCertificateTemplateByCSR from parsed requests: the request's subject, key and names, everything else as before",
			Run: func(t *eng.T, i int) {
				d := mix(i, len(c18Subjects), len(c18Extras), c18NAttrs)
				k := key()
				ct := c18Template(d[0], i%3, i/3%3, i%4, i/2%3, d[1], d[2])
				t.Descf("request %v", d)
				var der []byte
				var err error
				withRand(newPrng(i), func() { der, err = cert.CreateCertificateRequest(ct, k.pub, toyPair("n>p byte", 9).pri, nil) })
				if err != nil {
					t.Failf("CreateCertificateRequest: %v", err)
				}
				req, err := cert.ParseCertificateRequest(der)
				if err != nil {
					t.Failf("ParseCertificateRequest: %v", err)
				}
				t.Ops(2)
				tp, plain := c20Base(), c20Base()
				for b := range c20Fields {
					c20Fields[b].set(tp)
					c20Fields[b].set(plain)
				}
				same := unchanged("the request given to FillCertificateTemplateByCSR", req)
				cert.FillCertificateTemplateByCSR(tp, req)
				t.Ops(1)
				same(t)
				t.Check(reflect.DeepEqual(tp.Subject, req.Subject), "filled subject %v, want %v", tp.Subject, req.Subject)
				sameStr(t, "filled DNS names", tp.DNSNames, req.DNSNames)
				sameStr(t, "filled e-mail addresses", tp.EmailAddresses, req.EmailAddresses)
				t.Check(reflect.DeepEqual(tp.IPAddresses, req.IPAddresses), "filled IP addresses %v", tp.IPAddresses)
				t.Check(reflect.DeepEqual(tp.URIs, req.URIs), "filled URIs %v", tp.URIs)
				checkPub(t, tp.PublicKey, k.pt)
				// the rest
				plain.Subject, plain.DNSNames, plain.EmailAddresses, plain.IPAddresses, plain.URIs = tp.Subject, tp.DNSNames, tp.EmailAddresses, tp.IPAddresses, tp.URIs
				plain.PublicKey, plain.PublicKeyAlgorithm, plain.Extensions, plain.ExtraExtensions = tp.PublicKey, tp.PublicKeyAlgorithm, tp.Extensions, tp.ExtraExtensions
				t.Check(deepString(plain) == deepString(tp), "FillCertificateTemplateByCSR changed other fields of the template: %s, want %s", deepString(tp), deepString(plain))
				caseFor(tp, c20Parent(), k).issue(t)
			}},
		{Name: "reuse", N: 4 * nf * nf, Doc: "a template used three times, one field added and one removed in between",
			Run: func(t *eng.T, i int) {
				d := mix(i, 4, nf, nf)
				tp, parent := c20Base(), c20Parent()
				for b := range c20Fields {
					if b%2 == d[0]%2 {
						c20Fields[b].set(tp)
					}
				}
				if d[0] > 1 {
					tp.ExtraExtensions = spareExts([]pkix.Extension{{Id: oidPriv1, Critical: true, Value: []byte{1}}})
				}
				cc := caseFor(tp, parent, key())
				t.Descf("template %v, first use", d)
				i1, d1 := cc.issue(t)
				keep1, raw1 := append([]byte{}, d1...), append([]byte{}, i1.Raw...)
				c20Fields[d[1]].set(tp)
				t.Descf("template %v, after setting %s", d, c20Fields[d[1]].name)
				i2, _ := cc.issue(t)
				raw2 := append([]byte{}, i2.Raw...)
				tp.ExtraExtensions = append(tp.ExtraExtensions, pkix.Extension{Id: c20Fields[d[2]].oid, Value: c20Fields[d[2]].over})
				tp.SerialNumber = bint(int64(i))
				parent.Subject.CommonName = "another issuer"
				t.Descf("template %v, after overriding %s", d, c20Fields[d[2]].name)
				cc.issue(t)
				wantBytes(t, "an earlier certificate", d1, keep1)
				wantBytes(t, "an earlier structure", i1.Raw, raw1)
				wantBytes(t, "an earlier structure", i2.Raw, raw2)
				again, err := cert.CreateCertificate(i1, cc.sig)
				t.Ops(1)
				t.Check(err == nil, "CreateCertificate again: %v", err)
				wantBytes(t, "certificate made again from an earlier structure", again, keep1)
			}},
	}
}
