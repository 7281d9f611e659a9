package props

import (
	"bytes"
	"crypto/cipher"
	"crypto/x509"
	"crypto/x509/pkix"
	stdasn1 "encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"verif/mc/ref"
)

// World is one set of arguments for every public operation. The value sets differ in their keys
// (bit 0: the private key is d or n-d, which have the same public X; the small curves have the same name
// and size) and in their data (bit 1).
type World struct {
	Msg, Msg2, ID, ID2                             []byte
	Key, Key2, IV, Block, ECB, CBC                 []byte
	Short, Prefix, Padded                          []byte
	A, B, N, NegA                                  *big.Int
	Pri                                            *sm2.PrivateKey
	Pub                                            *sm2.PublicKey
	TPri, TEph                                     *sm2.PrivateKey
	TPub, TNeg, TEphPub                            *sm2.PublicKey
	OPri, OEph                                     *sm2.PrivateKey
	OPub, OEphPub, LowPub                          *sm2.PublicKey
	TOff                                           *sm2.PublicKey
	TZero                                          *sm2.PrivateKey
	RawPub, RawPri, RawOff, RawZero                []byte
	R, S                                           *big.Int
	Sig, TSig, BadSig                              []byte
	CT, CTDer, CT2, CT2Der                         []byte
	TCT, TCTBad                                    []byte
	Tag                                            []byte
	Exts                                           []pkix.Extension
	CSRTmpl, CSRTmpl2, CSRTmpl3                    *x509.CertificateRequest
	CSR, CSRTrail, CSRBadSig                       []byte
	CSRObj                                         *x509.CertificateRequest
	Tmpl, Tmpl2, Tmpl3, TmplBad, TmplEKU, TmplEKU2 *x509.Certificate
	Parent                                         *x509.Certificate
	Info                                           *cert.TBSCertificate
	Cert, CertTrail, CertBadNC, Cert2              []byte
	DER, BadDER, NegDER, Long                      []byte
	OID                                            stdasn1.ObjectIdentifier
	Cipher                                         cipher.Block // only in C17
	Time                                           time.Time
}

// lift makes a slice with spare capacity holding a pattern, so that writing behind a slice is seen.
func lift(b []byte) []byte {
	s := make([]byte, len(b)+200)
	for i := range s {
		s[i] = 0xC3
	}
	copy(s, b)
	return s[:len(b)]
}

var worldBytes = map[string][]byte{}

// memo computes the expensive parts of a world once.
func memo(set int, name string, f func() []byte) []byte {
	k := fmt.Sprint(set, name)
	b, ok := worldBytes[k]
	if !ok {
		b = f()
		worldBytes[k] = b
	}
	return lift(b)
}

func cpOID(o []int) stdasn1.ObjectIdentifier { return append(stdasn1.ObjectIdentifier{}, o...) }

const worldSets = 4

func pickB(bit int, a, b string) []byte {
	if bit == 0 {
		return lift([]byte(a))
	}
	return lift([]byte(b))
}

func cloneBig(v *big.Int) *big.Int { return new(big.Int).Set(v) }

func signK(c *ref.Curve, d *big.Int, id, msg []byte) (r, s *big.Int) {
	e := c.E(c.MulG(d), id, msg)
	for n := int64(3); ; n++ {
		if r, s, ok := c.SignK(d, e, bint(n)); ok {
			return r, s
		}
	}
}

func encK(c *ref.Curve, p ref.Point, msg []byte, c1c2c3 bool) []byte {
	for n := int64(5); ; n++ {
		if ct, ok := c.EncK(p, msg, bint(n), c1c2c3); ok {
			return ct
		}
	}
}

var worldPoints = map[string]ref.Point{}

func mulG(c *ref.Curve, d *big.Int) ref.Point {
	k := fmt.Sprint(c.P, c.N, d)
	p, ok := worldPoints[k]
	if !ok {
		p = c.MulG(d)
		worldPoints[k] = p
	}
	return p
}

func newWorld(set int) *World {
	kb, db := set&1, set>>1&1
	w := &World{}
	w.Msg = pickB(db, "the first message, 48 bytes long, of this world.", "the first message, 48 bytes long, of that world!")
	w.Msg2 = pickB(db, "second", "SECOND")
	w.ID = pickB(db, "alice@example.com", "alice@example.org")
	w.ID2 = pickB(db, "bob", "bop")
	w.Key = pickB(db, "0123456789abcdef", "0123456789abcdeg")
	w.Key2 = pickB(db, "fedcba9876543210", "fedcba9876543211")
	w.IV = pickB(db, "iviviviviviviviv", "iviviviviviviviw")
	w.Block = pickB(db, "sixteen bytes !!", "sixteen bytes ??")
	w.Short = pickB(db, "short", "schort")
	w.Prefix = pickB(db, "prefix", "praefix")
	w.ECB = memo(set, "ecb", func() []byte { return ref.SM4ECB(w.Key, w.Msg, false) })
	w.CBC = memo(set, "cbc", func() []byte { return ref.SM4CBC(w.Key, w.IV, w.Msg, false) })
	w.Padded = lift(append(append([]byte{}, w.Block[:11+db]...), bytes.Repeat([]byte{byte(5 - db)}, 5-db)...))
	w.A = hexBig("123456789abcdef0123456789abcdef0123456789abcdef7")
	w.B = hexBig("fedcba9876543210fedcba98765432100000000000000013")
	w.N = hexBig("ffffffffffffffffffffffffffffffffffffffffffffff61")
	if db == 1 {
		w.A.Add(w.A, bint(2))
		w.B.Sub(w.B, bint(4))
	}
	w.NegA = new(big.Int).Neg(w.A)

	d := hexBig("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	if kb == 1 {
		d.Sub(ref.SM2.N, d)
	}
	pt := mulG(ref.SM2, d)
	w.Pri, w.Pub = privOf(realSet.ic, d), pubOf(realSet.ic, pt)
	ts := toy("n<p byte")
	if kb == 1 {
		ts = toy("n>p byte")
	}
	tc := ts.c
	ic := implCurve(tc)
	ic.Name = "a small curve"
	td, te, od, oe := bint(77), bint(33), bint(101), bint(9)
	tp := mulG(tc, td)
	w.TPri, w.TPub = privOf(ic, td), pubOf(ic, tp)
	w.TNeg = pubOf(ic, tc.Neg(tp))
	w.TEph, w.TEphPub = privOf(ic, te), pubOf(ic, mulG(tc, te))
	w.OPri, w.OPub = privOf(ic, od), pubOf(ic, mulG(tc, od))
	w.OEph, w.OEphPub = privOf(ic, oe), pubOf(ic, mulG(tc, oe))
	low := mulG(tc, bint(1)) // the point with the least X
	for k := int64(2); k < tc.N.Int64(); k++ {
		if p := mulG(tc, bint(k)); p.X.Cmp(low.X) < 0 {
			low = p
		}
	}
	w.LowPub = pubOf(ic, low)
	w.TOff = pubOf(ic, ref.Point{X: bint(1), Y: bint(1)})
	for tc.On(w.TOff.X, w.TOff.Y) {
		w.TOff.Y.Add(w.TOff.Y, bint(1))
	}
	w.TZero = privOf(ic, new(big.Int))

	w.RawPub = lift(ref.PointBytes(pt)[1:])
	w.RawPri = lift(ref.B32(d))
	w.RawOff = lift(ref.PointBytes(pt)[1:])
	w.RawOff[63] ^= 1
	w.RawZero = lift(make([]byte, 32))
	w.Sig = memo(set, "sig", func() []byte { r, s := signK(ref.SM2, d, w.ID, w.Msg); return ref.EncodeSig(r, s) })
	w.R, w.S, _ = ref.ParseSig(w.Sig)
	w.TSig = memo(set, "tsig", func() []byte { r, s := signK(tc, td, w.ID, w.Msg); return ref.EncodeSig(r, s) })
	w.BadSig = lift(w.TSig)
	w.BadSig[len(w.BadSig)-1] ^= 1
	w.CT = memo(set, "ct", func() []byte { return encK(ref.SM2, pt, w.Msg, true) })
	w.CT2 = memo(set, "ct2", func() []byte { return encK(ref.SM2, pt, w.Msg, false) })
	w.CTDer = memo(set, "ctder", func() []byte { b, _ := ref.EncodeCipher(w.CT, true); return b })
	w.CT2Der = memo(set, "ct2der", func() []byte { b, _ := ref.EncodeCipher(w.CT2, false); return b })
	w.TCT = memo(set, "tct", func() []byte { return encK(tc, tp, w.Msg, false) })
	w.TCTBad = lift(w.TCT)
	w.TCTBad[len(w.TCTBad)-1] ^= 0x40
	w.Tag = memo(set, "tag", func() []byte {
		out, ok := ref.ExchangeInput{C: tc, DA: td, RA: te, DB: od, RB: oe, IDA: w.ID, IDB: w.ID2, Bits: 200}.Run()
		if !ok {
			panic("exchange of the world fails")
		}
		return out.S1
	})

	names := func(i int) pkix.Name {
		n := pkix.Name{CommonName: []string{"one", "two"}[db], Country: []string{"CN"}, Organization: []string{"org", "unit"}}
		if i > 0 {
			n.CommonName = "other"
		}
		return n
	}
	w.Exts = spareExts([]pkix.Extension{{Id: cpOID(oidPriv1), Value: []byte{4, 1, byte(db)}}})
	uri := func(s string) *url.URL { return mustURL(s) }
	w.CSRTmpl = &x509.CertificateRequest{Subject: names(0), DNSNames: []string{"a.example", []string{"b.example", "c.example"}[db]}, EmailAddresses: []string{"m@a.example"},
		IPAddresses: []net.IP{net.IPv4(10, 0, 0, byte(db)), net.ParseIP("fe80::1")}, URIs: []*url.URL{uri("http://u.example/p")},
		ExtraExtensions: spareExts([]pkix.Extension{{Id: cpOID(oidPriv1), Value: []byte{4, 1, byte(db)}}, {Id: cpOID(oidKU), Critical: true, Value: []byte{3, 2, 5, 0xa0}}}),
		Attributes:      []pkix.AttributeTypeAndValueSET{{Type: cpOID(ref.OIDExtReq), Value: [][]pkix.AttributeTypeAndValue{spareATVs([]pkix.AttributeTypeAndValue{{Type: cpOID(oidPriv2), Value: []byte{4, 1, 7}}})}}}}
	w.CSRTmpl2 = &x509.CertificateRequest{Subject: names(1), RawSubject: lift(ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, []string{"raw", "row"}[db]))), DNSNames: []string{"z.example"}}
	subj := func(cn string) []byte { return ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, cn)) }
	csrExt := func() []byte {
		return ref.Attr(ref.OIDExtReq, ref.TLV(0x30, ref.Ext(oidSAN, false, ref.TLV(0x30, ref.TLV(0x82, []byte([]string{"r.example", "s.example"}[db])), ref.TLV(0x87, []byte{1, 2, 3, 4}), ref.TLV(0x86, []byte("http://x.example/")))), ref.Ext(oidKU, true, []byte{3, 2, 5, 0xa0})))
	}
	csrInfo := ref.CSRInfo(0, subj([]string{"req", "ask"}[db]), ref.SPKI(pt), csrExt())
	csrSig := memo(set, "csrsig", func() []byte { r, s := signK(ref.SM2, d, w.ID, csrInfo); return ref.EncodeSig(r, s) })
	w.CSR = lift(ref.Signed(csrInfo, ref.AlgSM3SM2(), csrSig))
	w.CSRTrail = lift(append(append([]byte{}, w.CSR...), 0))
	w.CSRBadSig = lift(w.CSR)
	w.CSRBadSig[len(w.CSRBadSig)-1] ^= 1
	w.CSRObj = &x509.CertificateRequest{RawSubjectPublicKeyInfo: lift(ref.SPKI(pt)), RawTBSCertificateRequest: lift(csrInfo), Subject: names(0), Signature: lift(csrSig),
		PublicKey: pubOf(realSet.ic, pt), DNSNames: []string{"f.example"}, EmailAddresses: []string{"f@example"}, IPAddresses: []net.IP{{1, 2, 3, byte(db)}}, URIs: []*url.URL{uri("http://f.example/")},
		Extensions: spareExts([]pkix.Extension{{Id: cpOID(oidPriv2), Value: []byte{4, 1, byte(3 + db)}}}), ExtraExtensions: spareExts([]pkix.Extension{{Id: cpOID(oidPriv2), Value: []byte{4, 1, byte(5 + db)}}})}

	ipn := func(s string) *net.IPNet { return cidr(s) }
	w.Parent = &x509.Certificate{Subject: names(1), SubjectKeyId: lift([]byte{9, 8, 7, byte(db)})}
	w.Tmpl = &x509.Certificate{SerialNumber: new(big.Int).Add(w.A, bint(1)), Subject: names(0), NotBefore: time.Unix(1600000000+int64(db), 0), NotAfter: time.Unix(1900000000, 0),
		KeyUsage: x509.KeyUsage(0x41 + db), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsage(3 + db)}, UnknownExtKeyUsage: []stdasn1.ObjectIdentifier{{1, 2, 3, 4 + db}},
		BasicConstraintsValid: true, IsCA: true, MaxPathLen: 2 + db, SubjectKeyId: lift([]byte{1, 2, 3, byte(db)}), AuthorityKeyId: lift([]byte{5, 5}),
		OCSPServer: []string{"http://ocsp.example"}, IssuingCertificateURL: []string{"http://ca.example"}, DNSNames: []string{"t.example"}, EmailAddresses: []string{"t@example"},
		IPAddresses: []net.IP{net.IPv4(10, 1, 1, byte(db))}, URIs: []*url.URL{uri("http://t.example/")}, PolicyIdentifiers: []stdasn1.ObjectIdentifier{{2, 5, 29, 32, 0}, {1, 2, 3}},
		PermittedDNSDomainsCritical: true, PermittedDNSDomains: []string{"example"}, ExcludedDNSDomains: []string{"no.example"}, PermittedIPRanges: []*net.IPNet{ipn("10.0.0.0/8")},
		ExcludedIPRanges: []*net.IPNet{ipn("10.9.0.0/16")}, PermittedEmailAddresses: []string{"example"}, ExcludedURIDomains: []string{"bad.example"},
		CRLDistributionPoints: []string{"http://crl.example/c"}, ExtraExtensions: spareExts([]pkix.Extension{{Id: cpOID(oidPriv1), Value: []byte{4, 1, byte(db)}}})}
	w.Tmpl2 = &x509.Certificate{SerialNumber: bint(int64(7 + db)), Subject: names(1), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(4000000000, 0), SubjectKeyId: lift([]byte{9, 8, 7, byte(db)}), AuthorityKeyId: lift([]byte{6, byte(db)}), KeyUsage: x509.KeyUsageCertSign}
	w.TmplBad = &x509.Certificate{Subject: names(0), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0)}
	w.TmplEKU = &x509.Certificate{SerialNumber: bint(5), Subject: names(0), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0), KeyUsage: 1, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, 99}}

	nc := ncValue([]constraint{{0x82, []byte("example")}, {0x81, []byte("a@example")}, {0x87, []byte{10, 0, 0, 0, 255, 0, 0, 0}}}, []constraint{{0x86, []byte("bad.example")}})
	exts := func(nc []byte) [][]byte {
		return [][]byte{ref.Ext(oidKU, true, encKeyUsage(0x60|db)), ref.Ext(oidEKU, false, ref.TLV(0x30, ref.OID(ekuTable[1]...), ref.OID(ekuTable[3+db]...), ref.OID(1, 2, 3, 4+db))),
			ref.Ext(oidBC, true, ref.TLV(0x30, []byte{1, 1, 0xff}, ref.DERInt(bint(int64(1+db))))), ref.Ext(oidSKI, false, []byte{4, 2, 1, byte(db)}), ref.Ext(oidAKI, false, ref.TLV(0x30, ref.TLV(0x80, []byte{1, byte(db)}))),
			ref.Ext(oidAIA, false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(oidOCSP...), ref.TLV(0x86, []byte("http://o"))), ref.TLV(0x30, ref.OID(oidCAIs...), ref.TLV(0x86, []byte("http://i"))))),
			ref.Ext(oidSAN, false, ref.TLV(0x30, ref.TLV(0x82, []byte([]string{"q.example", "w.example"}[db])), ref.TLV(0x81, []byte("m@d")), ref.TLV(0x87, []byte{1, 2, 3, 4}), ref.TLV(0x86, []byte("http://d/")))),
			ref.Ext(oidPol, false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 3)))), ref.Ext(oidNC, true, nc),
			ref.Ext(oidCRL, false, ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte("http://c"))))))), ref.Ext(oidPriv1, true, []byte{4, 1, byte(db)})}
	}
	nb, na := ref.X509Time(ref.Civil{Y: 2020, Mo: 2, D: 29, H: 23, Mi: 59, S: 50 + db}), ref.X509Time(ref.Civil{Y: 2050, Mo: 1, D: 1})
	tbs := ref.TBSCert(bint(int64(1234567+db)), ref.AlgSM3SM2(), subj("issuer"), nb, na, subj([]string{"leaf", "twig"}[db]), ref.SPKI(pt), exts(nc)...)
	w.Cert = lift(ref.Signed(tbs, ref.AlgSM3SM2(), fakeSig))
	w.CertTrail = lift(append(append([]byte{}, w.Cert...), 0))
	bad := ref.TBSCert(bint(int64(1234567+db)), ref.AlgSM3SM2(), subj("issuer"), nb, na, subj("leaf"), ref.SPKI(pt), exts(ncValue([]constraint{{0x82, []byte("a..b")}}, nil))...)
	w.CertBadNC = lift(ref.Signed(bad, ref.AlgSM3SM2(), fakeSig))
	w.Cert2 = lift(ref.Signed(ref.TBSCert(bint(int64(55+db)), ref.AlgSM3SM2(), subj("issuer"), nb, na, subj([]string{"leaf", "twig"}[db]), ref.SPKI(pt)), ref.AlgSM3SM2(), fakeSig))
	w.Info = new(cert.TBSCertificate)
	if rest, err := stdasn1.Unmarshal(lift(tbs), w.Info); err != nil || len(rest) > 0 {
		panic(fmt.Sprint("world: ", err))
	}

	w.Tmpl3 = &x509.Certificate{SerialNumber: bint(int64(-300 - db)), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0)}
	w.TmplEKU2 = &x509.Certificate{SerialNumber: bint(5), Subject: names(0), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0), ExtKeyUsage: []x509.ExtKeyUsage{99}}
	w.CSRTmpl3 = &x509.CertificateRequest{Subject: names(0)}
	w.NegDER = lift(bytes.Join([][]byte{ref.DERInt(bint(int64(-300 - db))), ref.DERInt(new(big.Int).Neg(w.A)), ref.DERInt(bint(-1)), ref.DERInt(bint(int64(-128 - 128*db))), ref.DERInt(w.A)}, nil))
	w.Long = lift(bytes.Repeat(w.Msg, 4)[:128])
	w.OID = stdasn1.ObjectIdentifier{1, 2, 840 + db, 113549}
	w.Time = time.Date(2024, 2, 29, 12, 34, 50+db, 0, time.UTC)
	w.DER = lift(bytes.Join([][]byte{ref.DERInt(bint(int64(-300 - db))), ref.DERInt(w.A), ref.TLV(1, []byte{0xff}), ref.TLV(10, []byte{byte(5 + db)}), ref.OID(w.OID...), ref.TLV(0x18, []byte("20240229123450Z")),
		ref.BitString([]byte{1, byte(db)}), ref.TLV(4, []byte{7, byte(db)}), ref.TLV(0xa0, ref.DERInt(bint(int64(9+db)))), ref.TLV(0xa1, ref.TLV(4, []byte{3, byte(db)})), ref.TLV(0x30, []byte{2, 1, byte(db)})}, nil))
	w.BadDER = lift([]byte{2, 2, 0, byte(1 + db)})
	return w
}

// op is one public operation on the arguments of a world. Its results hold everything a caller can see.
type op struct {
	name string
	// with runs f with the given random source
	run   func(w *World, with func(io.Reader, func())) []interface{}
	alias bool // the documented result shares memory with the arguments
	real  bool // works on the SM2 curve: slow
	rep   bool // used in the longer sequences
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errors.New("no random bytes") }

// opRand is the random source of an operation: deterministic.
func opRand(w *World) io.Reader { return newPrng(11 + int(w.Msg[len(w.Msg)-1])) }

type cbValue struct{ b []byte }

func (v cbValue) Marshal(b *cryptobyte.Builder) error {
	if len(v.b) == 0 {
		return errors.New("empty value")
	}
	b.AddBytes(v.b)
	return nil
}

func allOps() []op {
	type rs = []interface{}
	type wf = func(io.Reader, func())
	var l []op
	add := func(name string, f func(w *World, with wf) rs) *op {
		l = append(l, op{name: name, run: f})
		return &l[len(l)-1]
	}
	pure := func(name string, f func(w *World) rs) *op {
		return add(name, func(w *World, _ wf) rs { return f(w) })
	}

	// util
	pure("util big integers", func(w *World) rs {
		return rs{util.Add(w.A, w.B), util.Sub(w.A, w.B), util.Mod(w.B, w.A), util.ModInverse(w.A, w.N), util.Mul(w.A, w.B), util.Lsh(w.A, 13), util.SetBit(w.A, 3, 1), util.And(w.A, w.B),
			util.ZForAffine(w.A, w.B), util.IsEcPointInfinity(w.A, w.B), util.Add(w.NegA, w.B), util.Sub(w.B, w.NegA), util.Mod(w.NegA, w.N), util.Mul(w.NegA, w.B)}
	})
	pure("util.Sub negative", func(w *World) rs { return rs{util.Sub(w.A, w.N), util.Mod(util.Sub(w.A, w.N), w.B)} })
	pure("util padding", func(w *World) rs {
		return rs{util.PKCS5Padding(w.Short, 16), util.ZeroPadding(w.Short, 16), util.PKCS5Padding(w.Block, 16), util.ZeroPadding(w.Block, 8)}
	})
	pure("util unpadding", func(w *World) rs { return rs{util.PKCS5UnPadding(w.Padded), util.UnZeroPadding(w.Padded, 3)} }).alias = true

	// sm3
	pure("sm3.Sum", func(w *World) rs { return rs{sm3.Sum(w.Msg)} }).rep = true
	pure("sm3.Sum empty", func(w *World) rs { return rs{sm3.Sum(nil)} })
	pure("sm3.Sum whole blocks", func(w *World) rs {
		return rs{sm3.Sum(w.Long), sm3.Sum(w.Long[:64]), sm3.Sum(w.Long[:63]), sm3.Sum(w.Long[:100])}
	})
	pure("sm3 stream", func(w *World) rs {
		h := sm3.New()
		h.Write(w.Msg[:5])
		a := h.Sum(nil)
		h.Write(w.Msg[5:])
		h.Write(w.Msg)
		b := h.Sum(w.Prefix[:len(w.Prefix):len(w.Prefix)])
		h.Reset()
		h.Write(w.Msg2)
		return rs{a, b, h.Sum(nil), h.Size(), h.BlockSize()}
	})
	pure("sm3 left unfinished", func(w *World) rs {
		h := sm3.New()
		n, err := h.Write(bytes.Repeat(w.Msg, 3))
		return rs{n, err}
	}).rep = true

	// sm4
	pure("sm4 block", func(w *World) rs {
		b, err := sm4.NewCipher(w.Key)
		if err != nil {
			return rs{err}
		}
		x, y := make([]byte, 16), make([]byte, 16)
		b.Encrypt(x, w.Block)
		b.Decrypt(y, w.Block)
		b.Encrypt(y, y)
		return rs{x, y, b.BlockSize()}
	}).rep = true
	pure("sm4 key overwritten", func(w *World) rs {
		k := append([]byte{}, w.Key...)
		b, err := sm4.NewCipher(k)
		for i := range k {
			k[i] = 0xEE
		}
		x := make([]byte, 16)
		b.Encrypt(x, w.Block)
		return rs{x, err}
	})
	pure("sm4 two ciphers", func(w *World) rs {
		a, _ := sm4.NewCipher(w.Key)
		b, _ := sm4.NewCipher(w.Key2)
		x, y := make([]byte, 16), make([]byte, 16)
		a.Encrypt(x, w.Block)
		b.Encrypt(y, w.Block)
		a.Decrypt(x, x)
		return rs{x, y}
	})
	pure("sm4.NewCipher bad key", func(w *World) rs { b, err := sm4.NewCipher(w.Msg); return rs{b == nil, err} }).rep = true
	pure("sm4 short block", func(w *World) rs {
		b, _ := sm4.NewCipher(w.Key)
		b.Encrypt(make([]byte, 16), w.Short)
		return nil
	})
	pure("sm4.ECBEncrypt", func(w *World) rs { x, err := sm4.ECBEncrypt(w.Key, w.Msg); return rs{x, err} })
	pure("sm4.ECBDecrypt", func(w *World) rs { x, err := sm4.ECBDecrypt(w.Key, w.ECB); return rs{x, err} })
	pure("sm4.ECBEncrypt bad length", func(w *World) rs { x, err := sm4.ECBEncrypt(w.Key, w.Short); return rs{x, err} })
	pure("sm4.CBCEncrypt", func(w *World) rs { x, err := sm4.CBCEncrypt(w.Key, w.IV, w.Msg); return rs{x, err} }).rep = true
	pure("sm4.CBCDecrypt", func(w *World) rs { x, err := sm4.CBCDecrypt(w.Key, w.IV, w.CBC); return rs{x, err} }).rep = true
	pure("sm4.CBCDecrypt bad iv", func(w *World) rs { x, err := sm4.CBCDecrypt(w.Key, w.Short, w.CBC); return rs{x, err} })

	// sm2 keys
	add("sm2.GenerateKey", func(w *World, with wf) rs { p, q, err := sm2.GenerateKey(opRand(w)); return rs{p, q, err} }).real = true
	add("sm2.GenerateKey out of range first", func(w *World, with wf) rs {
		p, q, err := sm2.GenerateKey(io.MultiReader(bytes.NewReader(ref.B32(sub(ref.SM2.N, 1))), opRand(w)))
		return rs{p, q, err}
	}).real = true
	add("sm2.GenerateKey failing", func(w *World, with wf) rs { p, q, err := sm2.GenerateKey(failingReader{}); return rs{p, q, err} })
	pure("sm2 raw keys", func(w *World) rs {
		p, e1 := sm2.RawBytesToPublicKey(w.RawPub)
		q, e2 := sm2.RawBytesToPrivateKey(w.RawPri)
		return rs{p, e1, q, e2}
	})
	pure("sm2 raw keys refused", func(w *World) rs {
		p, e1 := sm2.RawBytesToPublicKey(w.RawOff)
		q, e2 := sm2.RawBytesToPrivateKey(w.RawZero)
		r, e3 := sm2.RawBytesToPublicKey(w.Short)
		s, e4 := sm2.RawBytesToPrivateKey(w.Msg)
		return rs{p, e1, q, e2, r, e3, s, e4}
	})
	pure("sm2 key bytes", func(w *World) rs {
		return rs{w.Pub.GetRawBytes(), w.Pub.GetUnCompressBytes(), w.Pri.GetRawBytes(), w.TPub.GetRawBytes(), w.TPri.GetRawBytes()}
	})
	pure("sm2.CalculatePubKey", func(w *World) rs { return rs{sm2.CalculatePubKey(w.Pri)} }).real = true
	pure("sm2.CalculatePubKey small curve", func(w *World) rs { return rs{sm2.CalculatePubKey(w.TPri)} }).rep = true
	pure("sm2.GetSm2P256V1", func(w *World) rs { return rs{sm2.GetSm2P256V1()} })

	// sm2 signatures
	sign := func(pri func(w *World) *sm2.PrivateKey, id func(w *World) []byte, src func(w *World) io.Reader) func(w *World, with wf) rs {
		return func(w *World, with wf) (out rs) {
			with(src(w), func() {
				s, err := sm2.Sign(pri(w), id(w), w.Msg)
				out = rs{s, err}
			})
			return
		}
	}
	tpri, rpri, noID, withID := func(w *World) *sm2.PrivateKey { return w.TPri }, func(w *World) *sm2.PrivateKey { return w.Pri }, func(*World) []byte { return nil }, func(w *World) []byte { return w.ID }
	none := func(*World) io.Reader { return failingReader{} }
	add("sm2.Sign", sign(rpri, withID, opRand)).real = true
	add("sm2.Sign small curve", sign(tpri, withID, opRand)).rep = true
	add("sm2.Sign default id", sign(tpri, noID, opRand))
	add("sm2.Sign failing", sign(tpri, withID, none)).rep = true
	add("sm2.Sign bad key", sign(func(w *World) *sm2.PrivateKey { return w.TZero }, withID, opRand))
	add("sm2.SignToRS", func(w *World, with wf) (out rs) {
		with(opRand(w), func() { r, s, err := sm2.SignToRS(w.TPri, w.ID2, w.Msg2); out = rs{r, s, err} })
		return
	})
	pure("sm2.Verify", func(w *World) rs { return rs{sm2.Verify(w.Pub, w.ID, w.Msg, w.Sig)} }).real = true
	pure("sm2.Verify small curve", func(w *World) rs { return rs{sm2.Verify(w.TPub, w.ID, w.Msg, w.TSig)} }).rep = true
	pure("sm2.Verify default id", func(w *World) rs { return rs{sm2.Verify(w.TPub, nil, w.Msg, w.TSig)} })
	pure("sm2.Verify other key", func(w *World) rs { return rs{sm2.Verify(w.TNeg, w.ID, w.Msg, w.TSig)} })
	pure("sm2.Verify key off the curve", func(w *World) rs { return rs{sm2.Verify(w.TOff, w.ID, w.Msg, w.TSig)} })
	pure("sm2.Verify bad signature", func(w *World) rs {
		return rs{sm2.Verify(w.TPub, w.ID, w.Msg, w.BadSig), sm2.Verify(w.TPub, w.ID, w.Msg, w.Short)}
	})
	pure("sm2.VerifyByRS", func(w *World) rs { return rs{sm2.VerifyByRS(w.Pub, w.ID, w.Msg, w.R, w.S)} }).real = true
	pure("sm2 signature encoding", func(w *World) rs {
		b, err := sm2.MarshalSign(w.R, w.S)
		r, s, err2 := sm2.UnmarshalSign(w.Sig)
		_, _, err3 := sm2.UnmarshalSign(w.Msg)
		return rs{b, err, r, s, err2, err3}
	})

	// sm2 encryption
	enc := func(pub func(w *World) *sm2.PublicKey, mode sm2.Sm2CipherTextType, src func(w *World) io.Reader) func(w *World, with wf) rs {
		return func(w *World, with wf) (out rs) {
			with(src(w), func() {
				c, err := sm2.Encrypt(pub(w), w.Msg, mode)
				out = rs{c, err}
			})
			return
		}
	}
	tpub, rpub := func(w *World) *sm2.PublicKey { return w.TPub }, func(w *World) *sm2.PublicKey { return w.Pub }
	add("sm2.Encrypt", enc(rpub, sm2.C1C3C2, opRand)).real = true
	add("sm2.Encrypt small curve", enc(tpub, sm2.C1C3C2, opRand)).rep = true
	add("sm2.Encrypt old order", enc(tpub, sm2.C1C2C3, opRand))
	add("sm2.Encrypt unknown order", enc(tpub, 9, opRand))
	add("sm2.Encrypt empty", func(w *World, with wf) (out rs) {
		with(opRand(w), func() {
			c, err := sm2.Encrypt(w.TPub, nil, sm2.C1C3C2)
			m, err2 := sm2.Decrypt(w.TPri, c, sm2.C1C3C2)
			out = rs{c, err, m, err2}
		})
		return
	})
	add("sm2.Encrypt failing", enc(tpub, sm2.C1C3C2, none))
	add("sm2.Encrypt key off the curve", enc(func(w *World) *sm2.PublicKey { return w.TOff }, sm2.C1C3C2, opRand))
	pure("sm2.Decrypt", func(w *World) rs { b, err := sm2.Decrypt(w.Pri, w.CT, sm2.C1C2C3); return rs{b, err} }).real = true
	pure("sm2.Decrypt small curve", func(w *World) rs { b, err := sm2.Decrypt(w.TPri, w.TCT, sm2.C1C3C2); return rs{b, err} }).rep = true
	pure("sm2.Decrypt altered", func(w *World) rs { b, err := sm2.Decrypt(w.TPri, w.TCTBad, sm2.C1C3C2); return rs{b, err} }).rep = true
	pure("sm2.Decrypt too short", func(w *World) rs { b, err := sm2.Decrypt(w.TPri, w.Short, sm2.C1C3C2); return rs{b, err} })
	pure("sm2 ciphertext encoding", func(w *World) rs {
		a, e1 := sm2.MarshalCipher(w.CT, sm2.C1C2C3)
		b, e2 := sm2.MarshalCipher(w.CT2, sm2.C1C3C2)
		c, e3 := sm2.UnmarshalCipher(w.CTDer, sm2.C1C2C3)
		d, e4 := sm2.UnmarshalCipher(w.CT2Der, sm2.C1C3C2)
		e, e5 := sm2.UnmarshalCipher(w.CTDer, sm2.C1C3C2)
		f, e6 := sm2.MarshalCipher(w.Short, sm2.C1C3C2)
		return rs{a, e1, b, e2, c, e3, d, e4, e, e5, f, e6}
	})

	// sm2 key exchange
	pure("sm2 exchange responder", func(w *World) rs {
		r, err := sm2.CalculateKeyWithConfirmation(false, 200, nil, w.OPri, w.OEph, w.ID2, w.TPub, w.TEphPub, w.ID)
		return rs{r, err}
	}).rep = true
	pure("sm2 exchange initiator", func(w *World) rs {
		r, err := sm2.CalculateKeyWithConfirmation(true, 200, w.Tag, w.TPri, w.TEph, w.ID, w.OPub, w.OEphPub, w.ID2)
		return rs{r, err}
	})
	pure("sm2 exchange low point", func(w *World) rs {
		r, err := sm2.CalculateKeyWithConfirmation(false, 300, nil, w.OPri, w.OEph, w.ID2, w.LowPub, w.LowPub, w.ID)
		q, err2 := sm2.CalculateKeyWithConfirmation(false, 8, nil, w.OPri, w.OEph, nil, w.TPub, w.LowPub, nil)
		return rs{r, err, q, err2}
	})
	pure("sm2 exchange bad tag", func(w *World) rs {
		r, err := sm2.CalculateKeyWithConfirmation(true, 512, w.Short, w.TPri, w.TEph, w.ID, w.OPub, w.OEphPub, w.ID2)
		q, err2 := sm2.CalculateKeyWithConfirmation(true, 512, nil, w.TPri, w.TEph, w.ID, w.OPub, w.OEphPub, w.ID2)
		return rs{r, err, q, err2, sm2.ResponderConfirm(w.Tag, w.Short), sm2.ResponderConfirm(w.Tag, w.Tag)}
	})

	// certificates
	add("cert.CreateCertificateRequest", func(w *World, with wf) (out rs) {
		with(opRand(w), func() { b, err := cert.CreateCertificateRequest(w.CSRTmpl, w.TPub, w.TPri, w.ID); out = rs{b, err} })
		return
	}).rep = true
	add("cert.CreateCertificateRequest raw subject", func(w *World, with wf) (out rs) {
		with(opRand(w), func() { b, err := cert.CreateCertificateRequest(w.CSRTmpl2, w.TPub, w.TPri, nil); out = rs{b, err} })
		return
	})
	add("cert.CreateCertificateRequest bare", func(w *World, with wf) (out rs) {
		with(opRand(w), func() {
			b, err := cert.CreateCertificateRequest(w.CSRTmpl3, w.TPub, w.TPri, []byte{})
			out = rs{b, err}
		})
		return
	})
	add("cert.CreateCertificateRequest failing", func(w *World, with wf) (out rs) {
		with(failingReader{}, func() { b, err := cert.CreateCertificateRequest(w.CSRTmpl, w.TPub, w.TPri, w.ID); out = rs{b, err} })
		return
	})
	pure("cert.ParseCertificateRequest", func(w *World) rs { c, err := cert.ParseCertificateRequest(w.CSR); return rs{c, err} }).alias = true
	pure("cert.ParseCertificateRequest refused", func(w *World) rs {
		c, err := cert.ParseCertificateRequest(w.CSRTrail)
		d, err2 := cert.ParseCertificateRequest(w.Cert)
		return rs{c, err, d, err2}
	})
	pure("cert.VerifyDERCSRSign", func(w *World) rs { ok, err := cert.VerifyDERCSRSign(w.CSR, w.ID); return rs{ok, err} }).real = true
	pure("cert.VerifyDERCSRSign false", func(w *World) rs { ok, err := cert.VerifyDERCSRSign(w.CSRBadSig, w.ID); return rs{ok, err} }).real = true
	pure("cert.VerifyCSRSign", func(w *World) rs { return rs{cert.VerifyCSRSign(w.CSRObj, w.ID)} }).real = true
	pure("cert.FillCertificateTemplateByCSR", func(w *World) rs {
		t := *w.Tmpl
		cert.FillCertificateTemplateByCSR(&t, w.CSRObj)
		return rs{&t}
	}).alias = true
	pure("cert.CreateCertificateInfo", func(w *World) rs { c, err := cert.CreateCertificateInfo(w.Tmpl, w.Parent, w.CSRObj); return rs{c, err} })
	l[len(l)-1].alias, l[len(l)-1].rep = true, true
	pure("cert.CreateCertificateInfo self-issued", func(w *World) rs {
		c, err := cert.CreateCertificateInfo(w.Tmpl2, w.Parent, w.CSRObj)
		return rs{c, err}
	}).alias = true
	pure("cert.CreateCertificateInfo refused", func(w *World) rs {
		c, err := cert.CreateCertificateInfo(w.TmplBad, w.Parent, w.CSRObj)
		d, err2 := cert.CreateCertificateInfo(w.TmplEKU, w.Parent, w.CSRObj)
		return rs{c, err, d, err2}
	})
	pure("cert.CreateCertificateInfo unknown usage", func(w *World) rs {
		c, err := cert.CreateCertificateInfo(w.TmplEKU2, w.Parent, w.CSRObj)
		return rs{c, err}
	})
	pure("cert.CreateCertificateInfo bare", func(w *World) rs {
		c, err := cert.CreateCertificateInfo(w.Tmpl3, w.Parent, w.CSRObj)
		return rs{c, err}
	}).alias = true
	add("cert.IssueCertificateBySoftCAKey", func(w *World, with wf) (out rs) {
		with(opRand(w), func() { b, err := cert.IssueCertificateBySoftCAKey(w.Info, w.TPri, w.ID); out = rs{b, err} })
		return
	}).rep = true
	pure("cert.CreateCertificate", func(w *World) rs { b, err := cert.CreateCertificate(w.Info, w.Sig); return rs{b, err} })
	pure("cert.ParseCertificate", func(w *World) rs { c, err := cert.ParseCertificate(w.Cert); return rs{c, err} })
	l[len(l)-1].alias, l[len(l)-1].rep = true, true
	pure("cert.ParseCertificate without extensions", func(w *World) rs { c, err := cert.ParseCertificate(w.Cert2); return rs{c, err} }).alias = true
	pure("cert.ParseCertificate refused", func(w *World) rs {
		c, err := cert.ParseCertificate(w.CertTrail)
		d, err2 := cert.ParseCertificate(w.CertBadNC)
		e, err3 := cert.ParseCertificate(w.CSR)
		return rs{c, err, d, err2, e, err3}
	}).rep = true

	// cryptobyte
	pure("cryptobyte build", func(w *World) rs {
		var b cryptobyte.Builder
		b.AddUint8(1)
		b.AddUint16(2)
		b.AddUint24(3)
		b.AddUint32(4)
		b.AddBytes(w.Short)
		b.AddASN1(cbasn1.SEQUENCE, func(b *cryptobyte.Builder) {
			b.AddASN1Int64(-5)
			b.AddASN1Uint64(1 << 40)
			b.AddASN1Enum(3)
			b.AddASN1BigInt(w.A)
			b.AddASN1BigInt(w.NegA)
			b.AddASN1OctetString(w.Msg)
			b.AddASN1GeneralizedTime(w.Time)
			b.AddASN1BitString(w.Short)
			b.AddASN1ObjectIdentifier(w.OID)
			b.AddASN1Boolean(true)
			b.AddASN1NULL()
			b.MarshalASN1(w.OID)
			b.AddUint8LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(w.Msg2) })
			b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(w.Msg2) })
			b.AddUint24LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(w.Msg2) })
			b.AddUint32LengthPrefixed(func(b *cryptobyte.Builder) { b.AddValue(cbValue{w.Msg2}) })
		})
		x, err := b.Bytes()
		return rs{x, err}
	}).rep = true
	pure("cryptobyte build on a buffer", func(w *World) rs {
		b := cryptobyte.NewBuilder(append(make([]byte, 0, 40), w.Short...))
		b.AddASN1OctetString(w.Msg2)
		x, err := b.Bytes()
		return rs{x, err}
	})
	pure("cryptobyte fixed", func(w *World) rs {
		buf := make([]byte, 0, 12)
		b := cryptobyte.NewFixedBuilder(buf)
		b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(w.Msg2) })
		x, err := b.Bytes()
		c := cryptobyte.NewFixedBuilder(make([]byte, 0, 3))
		c.AddBytes(w.Msg)
		y, err2 := c.Bytes()
		return rs{x, err, y, err2}
	})
	pure("cryptobyte failing", func(w *World) rs {
		var b cryptobyte.Builder
		b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: errors.New("given up")}) })
		x, err := b.Bytes()
		var c cryptobyte.Builder
		c.AddValue(cbValue{})
		y, err2 := c.Bytes()
		var d cryptobyte.Builder
		d.AddUint8LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(make([]byte, 300)) })
		z, err3 := d.Bytes()
		return rs{x, err, y, err2, z, err3}
	})
	pure("cryptobyte read", func(w *World) rs {
		s := cryptobyte.String(w.DER)
		var i64 int64
		var bi big.Int
		var b1 bool
		var en int
		var oid stdasn1.ObjectIdentifier
		var tm time.Time
		var bs stdasn1.BitString
		var oct cryptobyte.String
		var opt int
		var oo []byte
		var pr bool
		var seq, el cryptobyte.String
		var tag cbasn1.Tag
		out := rs{s.ReadASN1Integer(&i64), s.ReadASN1Integer(&bi), s.ReadASN1Boolean(&b1), s.ReadASN1Enum(&en), s.ReadASN1ObjectIdentifier(&oid), s.ReadASN1GeneralizedTime(&tm), s.ReadASN1BitString(&bs),
			s.ReadASN1(&oct, cbasn1.OCTET_STRING), s.ReadOptionalASN1Integer(&opt, cbasn1.Tag(0).Constructed().ContextSpecific(), 3), s.ReadOptionalASN1OctetString(&oo, &pr, cbasn1.Tag(1).Constructed().ContextSpecific()),
			s.PeekASN1Tag(cbasn1.SEQUENCE), s.ReadAnyASN1Element(&el, &tag)}
		el.ReadASN1(&seq, cbasn1.SEQUENCE)
		return append(out, i64, bi.String(), b1, en, oid, tm, append([]byte{}, bs.Bytes...), bs.BitLength, append([]byte{}, oct...), opt, append([]byte{}, oo...), pr, append([]byte{}, seq...), tag, len(s))
	})
	pure("cryptobyte read negative", func(w *World) rs {
		s := cryptobyte.String(w.NegDER)
		var out rs
		for i := 0; i < 5; i++ {
			v := new(big.Int)
			out = append(out, s.ReadASN1Integer(v), v)
		}
		s = cryptobyte.String(w.NegDER)
		var i64 int64
		return append(out, s.ReadASN1Integer(&i64), i64, s.ReadASN1Integer(&i64))
	})
	pure("cryptobyte read failing", func(w *World) rs {
		s := cryptobyte.String(w.BadDER)
		var i64 int64
		var u uint64
		var bi big.Int
		a := s.ReadASN1Integer(&i64)
		s = w.BadDER
		b := s.ReadASN1Integer(&u)
		s = w.BadDER
		c := s.ReadASN1Integer(&bi)
		var d cryptobyte.String
		s = w.Short
		e := s.ReadUint8LengthPrefixed(&d)
		var opt, pre int
		s = nil
		f := s.ReadOptionalASN1Integer(&opt, cbasn1.Tag(0).Constructed().ContextSpecific(), 17)
		g := s.ReadOptionalASN1Boolean(new(bool), true)
		return rs{a, b, c, e, f, g, i64, u, bi.String(), opt, pre}
	})
	return l
}
