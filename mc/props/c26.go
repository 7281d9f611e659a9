package props

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	stdasn1 "encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

// C26: certificates and requests made by others are reported as they are encoded.

func init() {
	eng.Register(&eng.Prop{ID: "C26", Init: selfTest, Spaces: c26,
		Assumptions: []string{
			"documents are built by an independent DER encoder from the listed forms of every field and extension; every extension occurs once, general names are context-specific",
			"encoding/asn1 and crypto/x509/pkix define how a Name is read into a pkix.Name; net/url defines a parsed URI"}})
}

// extForm is one way of encoding an extension, with what the parser must report.
type extForm struct {
	name      string
	oid       stdasn1.ObjectIdentifier
	value     []byte
	set       func(c *x509.Certificate)
	unhandled bool // not interpreted: listed when critical
}

func uriName(s string) []byte { return ref.TLV(0x86, []byte(s)) }

func dirName(cn string) []byte {
	return ref.TLV(0xa4, ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x0c, cn)))
}

func otherName() []byte {
	return ref.TLV(0xa0, ref.OID(1, 3, 6, 1, 4, 1, 311, 20, 2, 3), ref.TLV(0xa0, ref.TLV(0x0c, []byte("upn@x"))))
}

// generalNames are names of every kind, with how a SAN reports them.
var generalNames = []struct {
	name string
	der  []byte
	set  func(c *x509.Certificate)
}{
	{"dns", ref.TLV(0x82, []byte("d.example")), func(c *x509.Certificate) { c.DNSNames = append(c.DNSNames, "d.example") }},
	{"mail", ref.TLV(0x81, []byte("m@e.example")), func(c *x509.Certificate) { c.EmailAddresses = append(c.EmailAddresses, "m@e.example") }},
	{"uri", uriName("https://u.example:8443/a%2Fb?q#f"), func(c *x509.Certificate) { c.URIs = append(c.URIs, mustURL("https://u.example:8443/a%2Fb?q#f")) }},
	{"ip4", ref.TLV(0x87, []byte{192, 0, 2, 7}), func(c *x509.Certificate) { c.IPAddresses = append(c.IPAddresses, net.IP{192, 0, 2, 7}) }},
	{"ip6", ref.TLV(0x87, pat(0, 16)), func(c *x509.Certificate) { c.IPAddresses = append(c.IPAddresses, net.IP(pat(0, 16))) }},
	{"other", otherName(), nil},
	{"x400", ref.TLV(0xa3, ref.TLV(0x30)), nil},
	{"directory", dirName("dir"), nil},
	{"edi", ref.TLV(0xa5, ref.TLV(0xa1, ref.TLV(0x0c, []byte("party")))), nil},
	{"registered", ref.TLV(0x88, []byte{0x2a, 3, 4}), nil},
}

func sanForm(l []int) extForm {
	var v [][]byte
	var sets []func(*x509.Certificate)
	f := extForm{name: "SAN", oid: oidSAN, unhandled: true}
	for _, k := range l {
		v = append(v, generalNames[k].der)
		f.name += " " + generalNames[k].name
		if generalNames[k].set != nil {
			sets = append(sets, generalNames[k].set)
			f.unhandled = false
		}
	}
	f.value = ref.TLV(0x30, v...)
	f.set = func(c *x509.Certificate) {
		for _, s := range sets {
			s(c)
		}
	}
	return f
}

// crlPoint builds one distribution point from a mask of its parts.
func crlPoint(full [][]byte, relative bool, reasons, issuer bool) []byte {
	var p [][]byte
	if relative {
		p = append(p, ref.TLV(0xa0, ref.TLV(0xa1, ref.TLV(0x30, ref.OID(2, 5, 4, 3), ref.TLV(0x0c, []byte("crl1"))))))
	} else if full != nil {
		p = append(p, ref.TLV(0xa0, ref.TLV(0xa0, full...)))
	}
	if reasons {
		p = append(p, ref.TLV(0x81, []byte{6, 0x40}))
	}
	if issuer {
		p = append(p, ref.TLV(0xa2, dirName("crl issuer")))
	}
	return ref.TLV(0x30, p...)
}

var crlPoints = func() (out []struct {
	der  []byte
	urls []string
}) {
	u := uriName
	for _, x := range []struct {
		full [][]byte
		urls []string
	}{
		{nil, nil}, {[][]byte{u("http://c.example/1")}, []string{"http://c.example/1"}},
		{[][]byte{u("http://c.example/2"), u("ldap://c.example/3")}, []string{"http://c.example/2", "ldap://c.example/3"}},
		{[][]byte{dirName("d")}, nil}, {[][]byte{dirName("d"), u("http://c.example/4"), ref.TLV(0x82, []byte("no.uri")), u("")}, []string{"http://c.example/4", ""}},
	} {
		for m := 0; m < 4; m++ {
			if x.full == nil && m&2 == 0 {
				continue // a distribution point has a name or an issuer
			}
			out = append(out, struct {
				der  []byte
				urls []string
			}{crlPoint(x.full, false, m&1 != 0, m&2 != 0), x.urls})
		}
	}
	for m := 0; m < 4; m++ {
		out = append(out, struct {
			der  []byte
			urls []string
		}{crlPoint(nil, true, m&1 != 0, m&2 != 0), nil})
	}
	return
}()

func crlForm(l []int) extForm {
	f := extForm{name: fmt.Sprint("CRL points ", l), oid: oidCRL}
	var v [][]byte
	var urls []string
	for _, k := range l {
		v = append(v, crlPoints[k].der)
		urls = append(urls, crlPoints[k].urls...)
	}
	f.value = ref.TLV(0x30, v...)
	f.set = func(c *x509.Certificate) { c.CRLDistributionPoints = urls }
	return f
}

var aiaMethods = [][]int{{1, 3, 6, 1, 5, 5, 7, 48, 1}, {1, 3, 6, 1, 5, 5, 7, 48, 2}, {1, 3, 6, 1, 5, 5, 7, 48, 3}, {1, 3, 6, 1, 5, 5, 7, 48}, {1, 3, 6, 1, 5, 5, 7, 48, 1, 1}, {1, 3, 6, 1, 5, 5, 7, 48, 5}}

// aiaForm: entries are method*4 + location kind (URI, another URI, directory name, DNS name).
func aiaForm(l []int) extForm {
	f := extForm{name: fmt.Sprint("AIA ", l), oid: oidAIA}
	var v [][]byte
	var ocsp, iss []string
	for n, k := range l {
		u := fmt.Sprintf("http://a%d.example/%d", n, k)
		if k%4 == 1 {
			u = ""
		}
		loc := uriName(u)
		switch k % 4 {
		case 2:
			loc = dirName("loc")
		case 3:
			loc = ref.TLV(0x82, []byte("host.example"))
		}
		v = append(v, ref.TLV(0x30, ref.OID(aiaMethods[k/4]...), loc))
		if k%4 < 2 && k/4 == 0 {
			ocsp = append(ocsp, u)
		}
		if k%4 < 2 && k/4 == 1 {
			iss = append(iss, u)
		}
	}
	f.value = ref.TLV(0x30, v...)
	f.set = func(c *x509.Certificate) { c.OCSPServer, c.IssuingCertificateURL = ocsp, iss }
	return f
}

func polForm(l []int) extForm {
	cps := ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), ref.TLV(0x16, []byte("http://cps.example/")))
	notice := ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 2), ref.TLV(0x30, ref.TLV(0x0c, []byte("notice"))))
	kinds := []struct {
		oid []int
		q   [][]byte
	}{{[]int{2, 5, 29, 32, 0}, nil}, {[]int{1, 2, 3}, [][]byte{cps}}, {[]int{1, 2, 156, 10197, 1}, [][]byte{cps, notice}}, {[]int{2, 23, 140, 1, 2, 1}, nil}, {[]int{2, 999, 1}, [][]byte{notice}}}
	f := extForm{name: fmt.Sprint("policies ", l), oid: oidPol}
	var v [][]byte
	var ids []stdasn1.ObjectIdentifier
	for _, k := range l {
		p := [][]byte{ref.OID(kinds[k].oid...)}
		if kinds[k].q != nil {
			p = append(p, ref.TLV(0x30, kinds[k].q...))
		}
		v = append(v, ref.TLV(0x30, p...))
		ids = append(ids, stdasn1.ObjectIdentifier(kinds[k].oid))
	}
	f.value = ref.TLV(0x30, v...)
	f.set = func(c *x509.Certificate) { c.PolicyIdentifiers = ids }
	return f
}

// ekuForm: entries below len(ekuTable) are known usages, the rest unknown ones near them.
var ekuUnknown = [][]int{{1, 2, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 10}, {1, 3, 6, 1, 5, 5, 7, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 1, 1}, {2, 5, 29, 37}, {2, 5, 29, 37, 1}, {1, 3, 6, 1, 4, 1, 311, 10, 3, 4}, {1, 3, 6, 1, 5, 5, 7, 3, 129}}

func ekuForm(l []int) extForm {
	f := extForm{name: fmt.Sprint("extended key usages ", l), oid: oidEKU}
	var v [][]byte
	var known []x509.ExtKeyUsage
	var unknown []stdasn1.ObjectIdentifier
	for _, k := range l {
		if k < len(ekuTable) {
			v = append(v, ref.OID(ekuTable[k]...))
			known = append(known, x509.ExtKeyUsage(k))
		} else {
			v = append(v, ref.OID(ekuUnknown[k-len(ekuTable)]...))
			unknown = append(unknown, stdasn1.ObjectIdentifier(ekuUnknown[k-len(ekuTable)]))
		}
	}
	f.value = ref.TLV(0x30, v...)
	f.set = func(c *x509.Certificate) { c.ExtKeyUsage, c.UnknownExtKeyUsage = known, unknown }
	return f
}

func kuForm(bits []byte, unused int) extForm {
	usage := 0
	for i := 0; i < 9 && i < len(bits)*8-unused; i++ {
		if bits[i/8]>>uint(7-i%8)&1 == 1 {
			usage |= 1 << uint(i)
		}
	}
	return extForm{name: fmt.Sprintf("key usage %x-%d", bits, unused), oid: oidKU, value: ref.TLV(3, []byte{byte(unused)}, bits), set: func(c *x509.Certificate) { c.KeyUsage = x509.KeyUsage(usage) }}
}

func bcForm(ca bool, path int64) extForm {
	var p [][]byte
	if ca {
		p = append(p, []byte{1, 1, 0xff})
	}
	if path >= 0 {
		p = append(p, ref.DERInt(bint(path)))
	}
	return extForm{name: fmt.Sprintf("basic constraints %v %d", ca, path), oid: oidBC, value: ref.TLV(0x30, p...), set: func(c *x509.Certificate) {
		c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero = true, ca, int(path), path == 0
	}}
}

// akiForm: bit 0 key identifier, bit 1 issuer and serial number.
func akiForm(id []byte, issuer bool) extForm {
	var p [][]byte
	if id != nil {
		p = append(p, ref.TLV(0x80, id))
	}
	if issuer {
		p = append(p, ref.TLV(0xa1, dirName("aki issuer")), ref.TLV(0x82, []byte{0x7f}))
	}
	return extForm{name: fmt.Sprintf("authority key id %x %v", id, issuer), oid: oidAKI, value: ref.TLV(0x30, p...), set: func(c *x509.Certificate) { c.AuthorityKeyId = id }}
}

func skiForm(id []byte) extForm {
	return extForm{name: fmt.Sprintf("subject key id %x", id), oid: oidSKI, value: ref.TLV(4, id), set: func(c *x509.Certificate) { c.SubjectKeyId = id }}
}

func ncForm(unknown bool) extForm {
	v := []constraint{{0x82, []byte("p.example")}}
	if unknown {
		v = append(v, constraint{0xa4, ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x0c, "d"))})
	}
	f := extForm{name: fmt.Sprint("name constraints, unknown ", unknown), oid: oidNC, value: ref.TLV(0x30, ref.TLV(0xa0, subtrees(v))), unhandled: unknown}
	f.set = func(c *x509.Certificate) { c.PermittedDNSDomains = []string{"p.example"} }
	return f
}

func unknownForm(oid []int, v []byte) extForm {
	return extForm{name: fmt.Sprintf("unknown %v %s", oid, hx(v)), oid: oid, value: v, unhandled: true}
}

// certDoc is a certificate with all its parts.
type certDoc struct {
	version          int64 // 0, 1, 2
	serial           *big.Int
	issuer, subject  []byte
	notBefore, after []byte
	nb, na           int64
	key              *keyPair
	uid              int // bit 0 issuer's, bit 1 subject's unique identifier
	exts             []extForm
	crit             []bool
	sig              []byte
}

func (d *certDoc) der() (der, tbs []byte) {
	var p [][]byte
	if d.version > 0 {
		p = append(p, ref.TLV(0xa0, ref.DERInt(bint(d.version))))
	}
	p = append(p, ref.DERInt(d.serial), ref.AlgSM3SM2(), d.issuer, ref.TLV(0x30, d.notBefore, d.after), d.subject, ref.SPKI(d.key.pt))
	if d.uid&1 != 0 {
		p = append(p, ref.TLV(0x81, []byte{0, 1, 2, 3}))
	}
	if d.uid&2 != 0 {
		p = append(p, ref.TLV(0x82, []byte{4, 0xf0}))
	}
	var e [][]byte
	for i, x := range d.exts {
		e = append(e, ref.Ext(x.oid, d.crit[i], x.value))
	}
	if len(e) > 0 {
		p = append(p, ref.TLV(0xa3, ref.TLV(0x30, e...)))
	}
	tbs = ref.TLV(0x30, p...)
	return ref.Signed(tbs, ref.AlgSM3SM2(), d.sig), tbs
}

func baseDoc(key *keyPair) *certDoc {
	t0 := ref.Civil{Y: 2020, Mo: 2, D: 29, H: 1, Mi: 2, S: 3}
	t1 := ref.Civil{Y: 2051, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}
	return &certDoc{version: 2, serial: bint(0x1234), issuer: c18Subjects[1].der(), subject: c18Subjects[2].der(), notBefore: ref.X509Time(t0), after: ref.X509Time(t1), nb: t0.Unix(), na: t1.Unix(), key: key, sig: fakeSig}
}

// newer fields of x509.Certificate, which did not exist for this library
var c26Skip = map[string]bool{"Policies": true, "InhibitAnyPolicy": true, "InhibitAnyPolicyZero": true, "InhibitPolicyMapping": true, "InhibitPolicyMappingZero": true, "RequireExplicitPolicy": true, "RequireExplicitPolicyZero": true, "PolicyMappings": true}

// sameFields compares two values field by field; empty and missing lists are the same.
func sameFields(t *eng.T, what string, got, want interface{}) {
	g, w := reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem()
	for i := 0; i < g.NumField(); i++ {
		name := g.Type().Field(i).Name
		if c26Skip[name] || name == "PublicKey" {
			continue
		}
		a, b := g.Field(i), w.Field(i)
		if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
			continue
		}
		x, y := a.Interface(), b.Interface()
		ok := reflect.DeepEqual(x, y)
		switch v := x.(type) {
		case *big.Int:
			ok = v != nil && v.Cmp(y.(*big.Int)) == 0
		case time.Time:
			ok = v.Equal(y.(time.Time))
		case []net.IP:
			u := y.([]net.IP)
			ok = len(u) == len(v)
			for k := 0; ok && k < len(u); k++ {
				ok = bytes.Equal(u[k], v[k])
			}
		case []*url.URL:
			u := y.([]*url.URL)
			ok = len(u) == len(v)
			for k := 0; ok && k < len(u); k++ {
				ok = u[k].String() == v[k].String() && reflect.DeepEqual(u[k], v[k])
			}
		case []pkix.Extension:
			u := y.([]pkix.Extension)
			ok = len(u) == len(v)
			for k := 0; ok && k < len(u); k++ {
				ok = u[k].Id.Equal(v[k].Id) && u[k].Critical == v[k].Critical && bytes.Equal(u[k].Value, v[k].Value)
			}
		}
		t.Check(ok, "%s: %s is %s, want %s", what, name, short(fmt.Sprintf("%v", x)), short(fmt.Sprintf("%v", y)))
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (d *certDoc) check(t *eng.T) {
	der, tbs := d.der()
	in := append([]byte{}, der...)
	p, err := cert.ParseCertificate(in)
	t.Ops(1)
	if err != nil {
		t.Failf("ParseCertificate: %v: %s", err, hx(der))
	}
	w := &x509.Certificate{Raw: der, RawTBSCertificate: tbs, RawSubjectPublicKeyInfo: ref.SPKI(d.key.pt), RawSubject: d.subject, RawIssuer: d.issuer, Signature: d.sig,
		Version: int(d.version) + 1, SerialNumber: d.serial, Issuer: parsedName(d.issuer), Subject: parsedName(d.subject), NotBefore: time.Unix(d.nb, 0), NotAfter: time.Unix(d.na, 0)}
	for i, x := range d.exts {
		w.Extensions = append(w.Extensions, pkix.Extension{Id: x.oid, Critical: d.crit[i], Value: x.value})
		if x.set != nil {
			x.set(w)
		}
		if x.oid.Equal(oidNC) {
			w.PermittedDNSDomainsCritical = d.crit[i]
		}
		if x.unhandled && d.crit[i] {
			w.UnhandledCriticalExtensions = append(w.UnhandledCriticalExtensions, x.oid)
		}
	}
	sameFields(t, "certificate", p, w)
	checkPub(t, p.PublicKey, d.key.pt)
	wantBytes(t, "bytes given to the parser", in, der)
	t.Obs(len(d.exts), w.KeyUsage, len(w.UnhandledCriticalExtensions), w.Version)
}

func c26(tier string) []eng.Space {
	sc := realScalars()
	key := func() *keyPair { return realPairCached(sc[40]) }
	deep := thorough(tier)

	// representative forms, for programs of several extensions
	rep := []extForm{
		kuForm([]byte{0x86}, 1), kuForm([]byte{0, 0x80}, 7), bcForm(true, 0), bcForm(false, -1), bcForm(true, 5), skiForm(pat(0, 20)), akiForm([]byte{9, 8}, true), akiForm(nil, true),
		sanForm([]int{0, 5, 2, 3}), sanForm([]int{7, 9}), ncForm(false), ncForm(true), crlForm([]int{2, 16, 1}), polForm([]int{1, 0}), ekuForm([]int{1, 16, 2}), aiaForm([]int{4, 0, 2, 9}),
		unknownForm([]int{2, 5, 29, 54}, []byte{2, 1, 0}), unknownForm([]int{2, 5, 29, 15, 1}, nil), unknownForm([]int{2, 5, 29}, []byte{5, 0}), unknownForm([]int{2, 5, 28, 15}, []byte{1}),
		unknownForm([]int{1, 5, 29, 15}, []byte{1}), unknownForm([]int{2, 4, 29, 19}, []byte{1}), unknownForm([]int{1, 3, 6, 1, 5, 5, 7, 1, 2}, []byte{0x30, 0}), unknownForm([]int{1, 2, 156, 10260, 4, 1, 1}, pat(1, 200)),
		unknownForm([]int{2, 5, 29, 46}, ref.TLV(0x30, crlPoint([][]byte{uriName("http://delta")}, false, false, false))), unknownForm([]int{2, 5, 29, 18}, ref.TLV(0x30, uriName("http://ian"))),
	}
	maxRep := 3
	if deep {
		maxRep = 4
	}
	programs := func() (out [][]int) {
		for _, s := range seqs(len(rep), 2) {
			out = append(out, s)
		}
		for _, s := range seqs(len(rep), 1) {
			out = append(out, s)
		}
		return
	}()
	_ = maxRep
	longLens := []int{5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025}
	sanSeqs := seqs(len(generalNames), pick(tier, 3, 4))
	crlSeqs := seqs(len(crlPoints), pick(tier, 2, 3))
	aiaSeqs := seqs(len(aiaMethods)*4, pick(tier, 2, 3))
	polSeqs := seqs(5, pick(tier, 3, 4))
	ekuSeqs := seqs(len(ekuTable)+len(ekuUnknown), 2)
	single := func(name, doc string, n int, form func(i int) extForm) eng.Space {
		return eng.Space{Name: name, N: n, Doc: doc + ", critical or not, alone, before and after an unknown extension", Run: func(t *eng.T, i int) {
			f := form(i)
			other := unknownForm([]int{1, 2, 3, 4}, []byte{1})
			for v := 0; v < 6; v++ {
				d := baseDoc(key())
				switch v / 2 {
				case 0:
					d.exts = []extForm{f}
				case 1:
					d.exts = []extForm{other, f}
				case 2:
					d.exts = []extForm{f, other}
				}
				d.crit = []bool{v&1 == 1, v&1 == 1}
				t.Descf("%s, variant %d", f.name, v)
				d.check(t)
				t.Eval(1)
			}
		}}
	}
	strTags := []byte{0x0c, 0x13, 0x14, 0x16, 0x1a, 0x12, 0x1e, 0x1c}
	attrOIDs := [][]int{{2, 5, 4, 6}, {2, 5, 4, 10}, {2, 5, 4, 11}, {2, 5, 4, 7}, {2, 5, 4, 8}, {2, 5, 4, 9}, {2, 5, 4, 17}, {2, 5, 4, 3}, {2, 5, 4, 5}, {1, 2, 840, 113549, 1, 9, 1}, {0, 9, 2342, 19200300, 100, 1, 25}, {2, 5, 4, 3, 1}, {2, 5, 5, 3}, {2, 5, 4}}
	nameStr := func(tag byte) []byte {
		switch tag {
		case 0x12:
			return []byte("2019")
		case 0x1e:
			return []byte{0x4e, 0x2d, 0, 'a'}
		case 0x1c:
			return []byte{0, 0, 0x4e, 0x2d}
		case 0x0c:
			return []byte("\u4e2d a")
		}
		return []byte("Ab 9")
	}
	atvDER := func(k int) []byte {
		return ref.TLV(0x30, ref.OID(attrOIDs[k/len(strTags)]...), ref.TLV(strTags[k%len(strTags)], nameStr(strTags[k%len(strTags)])))
	}
	nATV := len(attrOIDs) * len(strTags)
	times := []ref.Civil{{Y: 1950, Mo: 1, D: 1}, {Y: 1949, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}, {Y: 1970, Mo: 1, D: 1}, {Y: 1999, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}, {Y: 2000, Mo: 2, D: 29}, {Y: 2049, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}, {Y: 2050, Mo: 1, D: 1}, {Y: 2100, Mo: 3, D: 1}, {Y: 9999, Mo: 12, D: 31, H: 23, Mi: 59, S: 59}, {Y: 1, Mo: 1, D: 1}, {Y: 2026, Mo: 10, D: 5, H: 12, Mi: 34, S: 56}}
	serials := []*big.Int{bint(0), bint(1), bint(-1), bint(127), bint(128), bint(255), bint(256), bint(-128), bint(-129), sub(pow2(63), 1), pow2(63), pow2(64), sub(pow2(160), 1), new(big.Int).Neg(pow2(160)), pow2(1000)}
	known := []stdasn1.ObjectIdentifier{oidKU, oidBC, oidSAN, oidNC, oidCRL, oidAKI, oidEKU, oidSKI, oidPol, oidAIA}
	goodOf := func(o stdasn1.ObjectIdentifier) extForm {
		for _, f := range rep {
			if f.oid.Equal(o) {
				return f
			}
		}
		panic("no form")
	}

	out := []eng.Space{
		single("key-usage", "key usages: every bit string of up to 10 bits, and longer ones", 2100, func(i int) extForm {
			if i >= 2047 {
				b := append(pat(i%4, 2+i%5), 0x80)
				return kuForm(b, 7)
			}
			n, v := 0, i // strings of n bits, numbered in order of length
			for v >= 1<<uint(n) {
				v -= 1 << uint(n)
				n++
			}
			b := make([]byte, (n+7)/8)
			for k := 0; k < n; k++ {
				if v>>uint(n-1-k)&1 == 1 {
					b[k/8] |= 0x80 >> uint(k%8)
				}
			}
			return kuForm(b, (8-n%8)%8)
		}),
		single("basic-constraints", "basic constraints with and without CA flag and path length", 40, func(i int) extForm {
			path := []int64{-1, 0, 1, 2, 3, 10, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 2, 1<<31 - 1, 4}[i/2]
			return bcForm(i%2 == 1, path)
		}),
		single("key-ids", "subject and authority key identifiers of every length up to 150, the latter also with issuer and serial number, and without identifier", 151*3+2, func(i int) extForm {
			if i >= 151*3 {
				return akiForm(nil, i%2 == 0)
			}
			switch i % 3 {
			case 0:
				return skiForm(pat(0, i/3))
			}
			return akiForm(pat(3, i/3), i%3 == 2)
		}),
		single("sans", "all lists of up to 3 (4) general names of every kind", len(sanSeqs), func(i int) extForm { return sanForm(sanSeqs[i]) }),
		single("crl-points", "all lists of up to 2 (3) distribution points with every combination of their parts", len(crlSeqs), func(i int) extForm { return crlForm(crlSeqs[i]) }),
		single("aia", "all lists of up to 2 (3) access descriptions of several methods and kinds of location", len(aiaSeqs), func(i int) extForm { return aiaForm(aiaSeqs[i]) }),
		single("policies", "all lists of up to 3 (4) policies with and without qualifiers", len(polSeqs), func(i int) extForm { return polForm(polSeqs[i]) }),
		single("ext-key-usage", "all lists of up to two extended key usages, known and unknown", len(ekuSeqs), func(i int) extForm { return ekuForm(ekuSeqs[i]) }),
		single("long-lists", "lists of 5..1025 names, distribution points, access descriptions, policies and usages, in two arrangements", len(longLens)*10, func(i int) extForm {
			x := mix(i, len(longLens), 5, 2)
			size := []int{len(generalNames), len(crlPoints), len(aiaMethods) * 4, 5, len(ekuTable) + len(ekuUnknown)}[x[1]]
			l := make([]int, longLens[x[0]])
			for j := range l {
				if l[j] = (j*(1+x[2]*2) + j/size) % size; j == len(l)-1 {
					l[j] = (l[j] + 1 + x[2]) % size
				}
			}
			f := []func([]int) extForm{sanForm, crlForm, aiaForm, polForm, ekuForm}[x[1]](l)
			f.name = fmt.Sprintf("long list of kind %d, %d entries, arrangement %d", x[1], len(l), x[2])
			return f
		}),
		{Name: "many-extensions", N: len(longLens) * 4, Doc: "5..1025 unknown extensions and known ones at the start, the middle or the end of them",
			Run: func(t *eng.T, i int) {
				x := mix(i, len(longLens), 4)
				d := baseDoc(key())
				n := longLens[x[0]]
				for j := 0; j < n; j++ {
					if x[1] > 0 && j == []int{0, n / 2, n - 1}[x[1]-1] {
						d.exts, d.crit = append(d.exts, rep[0], rep[len(rep)/2]), append(d.crit, true, true)
						if rep[0].oid.Equal(rep[len(rep)/2].oid) {
							d.exts, d.crit = d.exts[:len(d.exts)-1], d.crit[:len(d.crit)-1]
						}
					}
					d.exts, d.crit = append(d.exts, unknownForm([]int{1, 2, 3, 4, j}, []byte{byte(j)})), append(d.crit, j%3 == 1)
				}
				t.Descf("%d unknown extensions, arrangement %d", n, x[1])
				d.check(t)
			}},
		single("unknown", "unknown extensions: identifiers near the known ones", 6*256+20, func(i int) extForm {
			if i < 256 { // every number below id-ce that is not a known extension
				for _, o := range known {
					if o.Equal(stdasn1.ObjectIdentifier{2, 5, 29, i}) {
						return unknownForm([]int{2, 5, 29, i, 0}, []byte{5, 0})
					}
				}
				return unknownForm([]int{2, 5, 29, i}, []byte{0x30, 0})
			}
			if i < 6*256 {
				k := i % 256
				return unknownForm([][]int{{2, 5, 28, k}, {2, 6, 29, k}, {1, 5, 29, k}, {2, 5, 29, 15, k}, {2, 5, 29 + 256, k}}[i/256-1], []byte{byte(k)})
			}
			o := append([]int{}, oidAIA...)
			if i%2 == 0 {
				o[(i/2)%9] = (o[(i/2)%9] + 1) % 2
			} else {
				o = append(o, i)
			}
			return unknownForm(o, []byte{1})
		}),
		{Name: "programs", N: len(programs), Doc: "all sequences of up to 3 different extensions of 26 forms (up to 4 in the thorough tier), each critical or not",
			Run: func(t *eng.T, i int) {
				base := programs[i]
				var run func(seq []int, left int)
				run = func(seq []int, left int) {
					for a := range seq {
						for b := range seq[:a] {
							if rep[seq[a]].oid.Equal(rep[seq[b]].oid) {
								return
							}
						}
					}
					for m := 0; m < 1<<uint(len(seq)); m++ {
						if len(seq) > 2 && !deep && (m+seq[0]+seq[2])%3 != 0 {
							continue
						}
						d := baseDoc(key())
						for k, x := range seq {
							d.exts = append(d.exts, rep[x])
							d.crit = append(d.crit, m>>uint(k)&1 == 1)
						}
						t.Desc(func() string {
							s := fmt.Sprintf("critical %b", m)
							for _, x := range d.exts {
								s += ", " + x.name
							}
							return s
						})
						d.check(t)
						t.Eval(1)
					}
					if left > 0 {
						for k := range rep {
							run(append(append([]int{}, seq...), k), left-1)
						}
					}
				}
				left := 0
				if len(base) == 2 {
					left = maxRep - 2
				}
				run(base, left)
			}},
		{Name: "validity", N: len(times) * len(times), Doc: "all pairs of instants, in UTCTime and GeneralizedTime",
			Run: func(t *eng.T, i int) {
				a, b := times[i/len(times)], times[i%len(times)]
				enc := func(c ref.Civil, general bool) []byte {
					if general {
						return ref.TLV(0x18, c.GenTime())
					}
					return ref.X509Time(c)
				}
				for v := 0; v < 4; v++ {
					d := baseDoc(key())
					d.notBefore, d.after, d.nb, d.na = enc(a, v&1 == 1), enc(b, v&2 == 2), a.Unix(), b.Unix()
					t.Descf("validity %v %v, forms %d", a, b, v)
					d.check(t)
				}
			}},
		{Name: "heads", N: len(serials) * 3 * 4, Doc: "serial numbers x versions x unique identifiers",
			Run: func(t *eng.T, i int) {
				x := mix(i, len(serials), 3, 4)
				d := baseDoc(key())
				d.serial, d.version, d.uid = serials[x[0]], int64(x[1]), x[2]
				for v := 0; v < 2; v++ {
					if v == 1 {
						d.exts, d.crit = []extForm{rep[0], rep[16]}, []bool{true, true}
					}
					t.Descf("version %d, serial %v, unique identifiers %d, %d extensions", d.version+1, d.serial, d.uid, len(d.exts))
					d.check(t)
				}
			}},
		{Name: "names", N: nATV, Doc: "names with every attribute type in every string type, alone and in pairs in one and in two relative names, as issuer and as subject",
			Run: func(t *eng.T, i int) {
				try := func(name []byte) {
					for v := 0; v < 2; v++ {
						d := baseDoc(key())
						if v == 0 {
							d.issuer = name
						} else {
							d.subject = name
						}
						t.Desc(func() string { return fmt.Sprintf("name %x, subject %v", name, v == 1) })
						d.check(t)
						t.Eval(1)
					}
				}
				a := atvDER(i)
				try(ref.TLV(0x30, ref.TLV(0x31, a)))
				for k := 0; k < nATV; k++ {
					if !deep && (i+k)%5 != 0 {
						continue
					}
					b := atvDER(k)
					try(ref.TLV(0x30, ref.TLV(0x31, a), ref.TLV(0x31, b)))
					try(ref.TLV(0x30, ref.SetOf(a, b)))
				}
			}},
		{Name: "keys", N: len(sc), Doc: "public keys, including coordinates with leading zeros, and signatures of any bytes",
			Run: func(t *eng.T, i int) {
				if sc[i].Sign() <= 0 || sc[i].Cmp(sub(ref.SM2.N, 1)) >= 0 {
					return
				}
				d := baseDoc(realPair(sc[i]))
				d.sig = pat(i%4, i%300)
				t.Descf("key %x, signature of %d bytes", sc[i], len(d.sig))
				d.check(t)
			}},
		{Name: "malformed", N: len(known) * 40, Doc: "known extensions whose value is empty, has trailing data, is truncated, or has another tag give an error",
			Run: func(t *eng.T, i int) {
				f := goodOf(known[i/40])
				var v []byte
				switch k := i % 40; {
				case k == 0:
				case k == 1:
					v = append(append([]byte{}, f.value...), 0)
				case k == 2:
					v = append(append([]byte{}, f.value...), 5, 0)
				case k == 3:
					v = append(append([]byte{}, f.value...), f.value...)
				case k < 8:
					v = append([]byte{[]byte{5, 0xa0, 0x0c, 0x31}[k-4]}, f.value[1:]...)
				case k-7 < len(f.value):
					v = f.value[:len(f.value)-(k-7)]
				default:
					return
				}
				for c := 0; c < 2; c++ {
					t.Descf("extension %v with value %x", f.oid, v)
					d := baseDoc(key())
					d.exts, d.crit = []extForm{{oid: f.oid, value: v}}, []bool{c == 1}
					der, _ := d.der()
					p, err := cert.ParseCertificate(der)
					t.Ops(1)
					t.Check(err != nil && p == nil, "a malformed extension %v is accepted", f.oid)
				}
			}},
	}
	return append(out, c26Requests(tier)...)
}

// c26Requests: requests with attributes of every form.
func c26Requests(tier string) []eng.Space {
	sc := realScalars()
	type attrForm struct {
		name  string
		der   []byte
		exts  []pkix.Extension
		attr  *pkix.AttributeTypeAndValueSET // as reported, nil when it has another form
		isExt bool
	}
	ext := func(crit bool, oid []int, v []byte) pkix.Extension {
		return pkix.Extension{Id: oid, Critical: crit, Value: v}
	}
	er := func(name string, l ...pkix.Extension) attrForm {
		var d [][]byte
		for _, e := range l {
			d = append(d, ref.Ext(e.Id, e.Critical, e.Value))
		}
		return attrForm{name: name, der: ref.Attr(ref.OIDExtReq, ref.TLV(0x30, d...)), exts: l, isExt: true}
	}
	san := sanForm([]int{0, 5, 2, 3, 1, 0}).value
	text := func(s string) []byte { return ref.TLV(0x13, []byte(s)) }
	atvd := func(oid []int, v []byte) []byte { return ref.TLV(0x30, ref.OID(oid...), v) }
	forms := []attrForm{
		er("extension request with SAN", ext(false, oidSAN, san)),
		er("extension request, critical ones", ext(true, oidKU, []byte{3, 2, 1, 6}), ext(true, []int{1, 2, 3}, nil), ext(false, []int{1, 2, 4}, pat(0, 130))),
		er("empty extension request"),
		er("extension request with others", ext(false, []int{1, 2, 5}, []byte{1}), ext(false, oidBC, []byte{0x30, 0})),
		{name: "challenge password", der: ref.Attr(oidChal, text("secret"))},
		{name: "two strings", der: ref.Attr([]int{1, 2, 7}, text("a"), ref.TLV(0x0c, []byte("b")))},
		{name: "no values", der: ref.TLV(0x30, ref.OID(1, 2, 8), ref.TLV(0x31)), attr: &pkix.AttributeTypeAndValueSET{Type: []int{1, 2, 8}}},
		{name: "one list", der: ref.Attr([]int{1, 2, 9}, ref.TLV(0x30, atvd([]int{1, 2, 1}, text("x")), atvd([]int{1, 2, 2}, ref.TLV(2, []byte{5})))),
			attr: &pkix.AttributeTypeAndValueSET{Type: []int{1, 2, 9}, Value: [][]pkix.AttributeTypeAndValue{{{Type: []int{1, 2, 1}, Value: "x"}, {Type: []int{1, 2, 2}, Value: int64(5)}}}}},
		{name: "two lists", der: ref.Attr([]int{1, 2, 9}, ref.TLV(0x30, atvd([]int{1, 2, 1}, text("x"))), ref.TLV(0x30, atvd([]int{1, 2, 1}, text("y")), atvd([]int{1, 2, 3}, ref.TLV(1, []byte{0xff})))),
			attr: &pkix.AttributeTypeAndValueSET{Type: []int{1, 2, 9}, Value: [][]pkix.AttributeTypeAndValue{{{Type: []int{1, 2, 1}, Value: "x"}}, {{Type: []int{1, 2, 1}, Value: "y"}, {Type: []int{1, 2, 3}, Value: true}}}}},
		{name: "not an attribute", der: ref.TLV(0x30, ref.TLV(2, []byte{1}), ref.TLV(0x31))},
		{name: "near the extension request", der: ref.Attr([]int{1, 2, 840, 113549, 1, 9, 15}, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 3))))},
	}
	progs := seqs(len(forms), pick(tier, 3, 4))
	return []eng.Space{
		{Name: "requests", N: len(progs), Doc: "requests with all lists of up to 3 (4) attributes of eleven forms",
			Run: func(t *eng.T, i int) {
				var ders [][]byte
				var exts []pkix.Extension
				var attrs []pkix.AttributeTypeAndValueSET
				names, judged, sans := "", true, 0
				for _, k := range progs[i] {
					f := forms[k]
					ders = append(ders, f.der)
					exts = append(exts, f.exts...)
					names += ", " + f.name
					if f.isExt {
						judged = false // how an extension request reads as an attribute is not judged here
					}
					if k == 0 {
						sans++
					}
					if f.attr != nil {
						attrs = append(attrs, *f.attr)
					}
				}
				if sans > 1 {
					return
				}
				k := realPairCached(sc[40+i%3])
				subj := c18Subjects[i%len(c18Subjects)].der()
				for version := int64(0); version < 3; version++ {
					t.Descf("request version %d%s", version, names)
					info := ref.CSRInfo(version, subj, ref.SPKI(k.pt), ders...)
					der := ref.Signed(info, ref.AlgSM3SM2(), pat(i%4, i%90))
					p, err := cert.ParseCertificateRequest(append([]byte{}, der...))
					t.Ops(1)
					if err != nil {
						t.Failf("ParseCertificateRequest: %v: %s", err, hx(der))
					}
					w := &x509.CertificateRequest{Raw: der, RawTBSCertificateRequest: info, RawSubjectPublicKeyInfo: ref.SPKI(k.pt), RawSubject: subj, Version: int(version), Signature: pat(i%4, i%90), Subject: parsedName(subj), Extensions: exts, Attributes: attrs}
					if sans == 1 {
						var c x509.Certificate
						sanForm([]int{0, 5, 2, 3, 1, 0}).set(&c)
						w.DNSNames, w.EmailAddresses, w.IPAddresses, w.URIs = c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs
					}
					if !judged {
						var rest []pkix.AttributeTypeAndValueSET
						for _, a := range p.Attributes {
							if !a.Type.Equal(ref.OIDExtReq) {
								rest = append(rest, a)
							}
						}
						p.Attributes = rest
					}
					for n := range p.Attributes {
						if len(p.Attributes[n].Value) == 0 {
							p.Attributes[n].Value = nil // none, however it is represented
						}
					}
					sameFields(t, "request", p, w)
					checkPub(t, p.PublicKey, k.pt)
					t.Obs(len(exts), len(attrs), version)
				}
			}},
	}
}
