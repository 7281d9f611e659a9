package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C19", Init: selfTest, Spaces: c19,
		Assumptions: []string{
			"changes enumerated: every other value of every byte of some requests and certificates, eight values per byte of richer ones, every truncation, every appended byte; not arbitrary multi-byte changes (a forger who meets the DER structure still has to forge the signature, which is C05/C07)",
			"elements that encoding/asn1 skips at the end of a SEQUENCE and parameters of the signature algorithm are outside the statement",
			"points in compressed form are not judged"}})
}

type signedDoc struct {
	name string
	der  []byte
	id   []byte
	k    *keyPair // the signer
	cert bool
}

// accepts tells whether the library accepts the bytes as validly signed.
func (s *signedDoc) accepts(t *eng.T, b, id []byte) bool {
	t.Ops(1)
	if !s.cert {
		ok, err := cert.VerifyDERCSRSign(b, id)
		if ok && err != nil {
			t.Failf("VerifyDERCSRSign gives %v with error %v", ok, err)
		}
		return ok
	}
	p, err := cert.ParseCertificate(b)
	if err != nil {
		if p != nil {
			t.Failf("ParseCertificate gives a certificate and an error %v", err)
		}
		return false
	}
	return sm2.Verify(s.k.pub, id, p.RawTBSCertificate, p.Signature)
}

var docCache []*signedDoc

// docs are requests and certificates made with the reference.
func c19Docs() []*signedDoc {
	if docCache != nil {
		return docCache
	}
	sc := realScalars()
	k := realPairCached(sc[40])
	ca := realPairCached(sc[41])
	small := ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, "s"))
	rich := ref.TLV(0x30, rdn([]int{2, 5, 4, 6}, 0x13, "CN"), rdn([]int{2, 5, 4, 10}, 0x0c, "组织"), rdn([]int{2, 5, 4, 3}, 0x0c, "rich"))
	exts := [][]byte{ref.Ext(oidSAN, false, sanB), ref.Ext(oidPriv1, true, []byte{1, 2, 3})}
	csr := func(name string, body, id []byte) *signedDoc {
		return &signedDoc{name, ref.Signed(body, ref.AlgSM3SM2(), k.sign(id, body)), id, k, false}
	}
	cer := func(name string, body, id []byte) *signedDoc {
		return &signedDoc{name, ref.Signed(body, ref.AlgSM3SM2(), ca.sign(id, body)), id, ca, true}
	}
	nb, na := ref.X509Time(ref.Civil{Y: 2020, Mo: 1, D: 2, H: 3, Mi: 4, S: 5}), ref.X509Time(ref.Civil{Y: 2050, Mo: 12, D: 31, H: 23, Mi: 59, S: 59})
	docCache = []*signedDoc{
		csr("small request", ref.CSRInfo(0, small, ref.SPKI(k.pt)), nil),
		cer("small certificate", ref.TBSCert(bint(5), ref.AlgSM3SM2(), small, nb, nb, small, ref.SPKI(k.pt)), nil),
		csr("rich request", ref.CSRInfo(0, rich, ref.SPKI(k.pt), ref.Attr(oidPriv2, ref.TLV(0x30, ref.TLV(0x30, ref.OID(oidPriv1...), ref.TLV(0x13, []byte("v"))))), ref.Attr(ref.OIDExtReq, ref.TLV(0x30, ref.Ext(oidSAN, false, sanB)))), []byte("user")),
		cer("rich certificate", ref.TBSCert(new(big.Int).Neg(pow2(100)), ref.AlgSM3SM2(), rich, nb, na, small, ref.SPKI(k.pt),
			append(exts, ref.Ext(oidKU, true, encKeyUsage(0x106)), ref.Ext(oidBC, true, []byte{0x30, 3, 1, 1, 0xff}), ref.Ext(oidSKI, false, []byte{4, 2, 1, 2}), ref.Ext(oidAKI, false, []byte{0x30, 4, 0x80, 2, 1, 2}))...), []byte("issuer")),
		csr("empty subject request", ref.CSRInfo(0, []byte{0x30, 0}, ref.SPKI(k.pt)), []byte{}),
	}
	return docCache
}

// parses tells whether the library parses the document at all.
func (s *signedDoc) parses(t *eng.T, b []byte) bool {
	t.Ops(1)
	if s.cert {
		p, err := cert.ParseCertificate(b)
		t.Check((p == nil) == (err != nil), "ParseCertificate gives %v, %v", p != nil, err)
		return err == nil
	}
	p, err := cert.ParseCertificateRequest(b)
	t.Check((p == nil) == (err != nil), "ParseCertificateRequest gives %v, %v", p != nil, err)
	ok, err2 := cert.VerifyDERCSRSign(b, s.id)
	t.Check(err == nil || err2 != nil && !ok, "VerifyDERCSRSign accepts what ParseCertificateRequest refuses")
	return err == nil
}

// oidVariants are other identifiers of all kinds.
func oidVariants(o []int) (out [][]byte) {
	enc := ref.OID(o...)
	for p := 2; p < len(enc); p++ {
		for v := 1; v < 256; v++ {
			x := append([]byte{}, enc...)
			x[p] ^= byte(v)
			out = append(out, x)
		}
	}
	for n := 2; n < len(o); n++ {
		out = append(out, ref.OID(o[:n]...))
	}
	for k := 0; k < 12; k++ {
		out = append(out, ref.OID(append(append([]int{}, o...), k)...))
	}
	out = append(out, ref.OID(append(append([]int{}, o...), o...)...))
	for _, x := range [][]int{ref.OIDSM2Curve, ref.OIDSM3SM2, ref.OIDECPub, ref.OIDExtReq, {1, 2, 840, 10045, 3, 1, 7}, {1, 2, 840, 10045, 4, 3, 2}, {1, 2, 840, 113549, 1, 1, 1}, {1, 2, 840, 113549, 1, 1, 11},
		{1, 2, 156, 10197, 1, 301, 1}, {1, 2, 156, 10197, 1, 401}, {1, 2, 156, 10197, 1, 502}, {1, 2, 156, 10197, 1, 504}, {1, 3, 132, 0, 34}, {0, 0}, {2, 999}} {
		if fmt.Sprint(x) != fmt.Sprint(o) {
			out = append(out, ref.OID(x...))
		}
	}
	out = append(out, []byte{5, 0}, ref.TLV(0x30, enc), []byte{0x30, 0}, []byte{6, 0}, ref.TLV(4, enc[2:]), ref.TLV(0x86, enc[2:]))
	return
}

// withParts builds documents around substituted parts; sign with the reference if wanted.
func c19Build(isCert bool, k *keyPair, innerAlg, outerAlg, spki []byte, sign bool) *signedDoc {
	subj := ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, "s"))
	nb := ref.X509Time(ref.Civil{Y: 2020, Mo: 1, D: 2})
	body := ref.CSRInfo(0, subj, spki)
	if isCert {
		body = ref.TBSCert(bint(9), innerAlg, subj, nb, nb, subj, spki)
	}
	sig := ref.EncodeSig(bint(7), bint(8))
	if sign {
		sig = k.sign(nil, body)
	}
	return &signedDoc{"built", ref.Signed(body, outerAlg, sig), nil, k, isCert}
}

func c19(tier string) []eng.Space {
	var bytePos [][2]int // document, position
	for di, d := range c19Docs() {
		for p := range d.der {
			bytePos = append(bytePos, [2]int{di, p})
		}
	}
	sc := realScalars()
	ids := [][]byte{nil, {}, []byte("1234567812345678"), []byte("1234567812345679"), []byte("123456781234567"), []byte("12345678123456781"), []byte("1234567812345678\x00"), []byte("\x001234567812345678"),
		[]byte("u"), []byte("U"), []byte("uu"), {0}, {0, 0}, pat(0, 31), pat(0, 32), pat(0, 8191), pat(0, 8190), pat(1, 100), pat(2, 100), []byte("user"), []byte("issuer")}
	kinds := []string{"outer algorithm", "inner algorithm", "both algorithms", "key algorithm", "curve"}
	var points []struct {
		name string
		b    []byte
	}
	{
		k := realPairCached(sc[40])
		good := ref.PointBytes(k.pt)
		add := func(name string, b []byte) {
			points = append(points, struct {
				name string
				b    []byte
			}{name, b})
		}
		for bit := 0; bit < 512; bit++ {
			b := append([]byte{}, good...)
			b[1+bit/8] ^= 1 << uint(bit%8)
			add(fmt.Sprintf("coordinate bit %d flipped", bit), b)
		}
		for f := 0; f < 256; f++ {
			if f == 4 {
				continue
			}
			b := append([]byte{}, good...)
			b[0] = byte(f)
			add(fmt.Sprintf("form byte %02x", f), b)
		}
		for n := 0; n < 70; n++ {
			if n == 65 || n == 33 {
				continue
			}
			b := append(append([]byte{}, good...), 0, 0, 0, 0, 0)[:n]
			add(fmt.Sprintf("%d bytes", n), b)
		}
		add("infinity", []byte{0})
		add("zeros", append([]byte{4}, make([]byte, 64)...))
		add("ff", append([]byte{4}, bytes.Repeat([]byte{0xff}, 64)...))
		add("swapped coordinates", append(append([]byte{4}, good[33:]...), good[1:33]...))
		p := ref.SM2.P
		// x or y not reduced, of points with a small coordinate
		lim := new(big.Int).Sub(pow2(256), p)
		for x, n := int64(0), 0; n < 20; x++ {
			y, ok := ref.SM2.SolveY(bint(x))
			if !ok {
				continue
			}
			n++
			if bint(x).Cmp(lim) < 0 {
				add(fmt.Sprintf("x=%d+p", x), ref.PointBytes(ref.Point{X: new(big.Int).Add(bint(x), p), Y: y}))
				add(fmt.Sprintf("x=%d, y+1", x), ref.PointBytes(ref.Point{X: bint(x), Y: new(big.Int).Add(y, bint(1))}))
			}
		}
		add("x=p", ref.PointBytes(ref.Point{X: p, Y: k.pt.Y}))
		add("y=p", ref.PointBytes(ref.Point{X: k.pt.X, Y: p}))
		// the base point of P-256
		add("P-256 base point", ref.PointBytes(ref.Point{X: hexBig("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), Y: hexBig("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}))
	}
	ncert := pick(tier, 2, 6)
	return []eng.Space{
		{Name: "bytes", N: len(bytePos), Doc: "every other value of every byte (eight values per byte of the rich documents in the quick tier)",
			Run: func(t *eng.T, i int) {
				d := c19Docs()[bytePos[i][0]]
				p := bytePos[i][1]
				if p == 0 {
					t.Descf("%s untouched", d.name)
					t.Check(d.accepts(t, d.der, d.id), "the %s is not accepted", d.name)
				}
				vals := 255
				if bytePos[i][0] >= 2 && !thorough(tier) {
					vals = 8
				}
				x := append([]byte{}, d.der...)
				for v := 1; v <= vals; v++ {
					w := byte(v)
					if vals == 8 {
						w = 1 << uint(v-1)
					}
					x[p] = d.der[p] ^ w
					t.Descf("%s with byte %d changed from %02x to %02x", d.name, p, d.der[p], x[p])
					t.Check(!d.accepts(t, x, d.id), "still parses and verifies")
				}
				t.Obs(d.der[p], p)
			}},
		{Name: "length", N: len(bytePos), Doc: "every truncation, every single deletion, insertion, every appended byte, appended strings",
			Run: func(t *eng.T, i int) {
				d := c19Docs()[bytePos[i][0]]
				p := bytePos[i][1]
				t.Descf("%s truncated to %d bytes", d.name, p)
				t.Check(!d.accepts(t, d.der[:p:p], d.id), "still verifies")
				t.Check(!d.accepts(t, d.der[p+1:], d.id), "still verifies without the first %d bytes", p+1)
				t.Descf("%s without byte %d", d.name, p)
				t.Check(!d.accepts(t, append(append([]byte{}, d.der[:p]...), d.der[p+1:]...), d.id), "still verifies")
				for _, v := range []byte{0, 1, 0x30, 0xff, d.der[p]} {
					t.Descf("%s with byte %02x inserted at %d", d.name, v, p)
					t.Check(!d.accepts(t, append(append(append([]byte{}, d.der[:p]...), v), d.der[p:]...), d.id), "still verifies")
				}
				t.Descf("%s with its own first %d bytes appended", d.name, p+1)
				t.Check(!d.accepts(t, append(append([]byte{}, d.der...), d.der[:p+1]...), d.id), "still verifies")
				if p < 256 {
					t.Descf("%s with byte %02x appended", d.name, p)
					t.Check(!d.accepts(t, append(append([]byte{}, d.der...), byte(p)), d.id), "still verifies")
					t.Check(!d.accepts(t, append(append([]byte{}, d.der...), make([]byte, p+1)...), d.id), "still verifies with %d zero bytes appended", p+1)
				}
			}},
		{Name: "user-ids", N: len(ids) * len(ids), Doc: "all pairs of user IDs: only the right one verifies",
			Run: func(t *eng.T, i int) {
				a, b := ids[i/len(ids)], ids[i%len(ids)]
				norm := func(x []byte) string {
					if x == nil {
						return "1234567812345678"
					}
					return string(x)
				}
				for kind := 0; kind < 2; kind++ {
					k := realPairCached(sc[40])
					d := c19Build(kind == 1, k, ref.AlgSM3SM2(), ref.AlgSM3SM2(), ref.SPKI(k.pt), false)
					tbs, alg, _, _ := ref.DecodeSigned(d.der)
					d.der = ref.Signed(tbs, alg, k.sign(a, tbs))
					t.Descf("signed under user ID %s, verified under %s", hx(a), hx(b))
					t.Check(d.accepts(t, d.der, b) == (norm(a) == norm(b)), "the signature is judged wrongly")
				}
			}},
		{Name: "keys", N: 16 * 16, Doc: "requests and certificates under every other signer's key",
			Run: func(t *eng.T, i int) {
				a, b := realPairCached(sc[30+i/16]), realPairCached(sc[30+i%16])
				if a.d.Cmp(b.d) == 0 {
					return
				}
				// certificate signed by a, checked with b
				d := c19Build(true, a, ref.AlgSM3SM2(), ref.AlgSM3SM2(), ref.SPKI(b.pt), true)
				t.Descf("certificate signed by %s", a.name)
				t.Check(d.accepts(t, d.der, nil), "not accepted under its issuer's key")
				d.k = b
				t.Check(!d.accepts(t, d.der, nil), "accepted under the subject's key %s", b.name)
				// request for b's key signed by a
				r := c19Build(false, a, nil, ref.AlgSM3SM2(), ref.SPKI(b.pt), true)
				t.Descf("request for %s signed by %s", b.name, a.name)
				t.Check(r.parses(t, r.der), "does not parse")
				t.Check(!r.accepts(t, r.der, nil), "accepted although not signed by its own key")
				p, err := cert.ParseCertificateRequest(r.der)
				if err != nil {
					t.Failf("ParseCertificateRequest: %v", err)
				}
				t.Check(!cert.VerifyCSRSign(p, nil), "VerifyCSRSign accepts it")
				p.PublicKey = a.pub
				t.Check(cert.VerifyCSRSign(p, nil), "VerifyCSRSign does not use the key in the request structure")
				for _, other := range []interface{}{nil, *a.pub, &ecdsa.PublicKey{Curve: a.pub.Curve, X: a.pub.X, Y: a.pub.Y}, a.pri, "key"} {
					q := &x509.CertificateRequest{PublicKey: other, RawTBSCertificateRequest: p.RawTBSCertificateRequest, Signature: p.Signature}
					t.Check(!cert.VerifyCSRSign(q, nil), "VerifyCSRSign accepts a public key of type %T", other)
				}
				t.Ops(8)
			}},
		{Name: "identifiers", N: 2 * len(kinds) * 4, Doc: "every one-byte change and many other replacements of the algorithm and curve identifiers, without and with several parameters, otherwise correct",
			Run: func(t *eng.T, i int) {
				isCert, kind, quarter := i%2 == 1, i/2%len(kinds), i/2/len(kinds)
				if !isCert && (kind == 1 || kind == 2) {
					return // requests have one algorithm
				}
				k := realPairCached(sc[40])
				build := func(o []byte, sign bool) *signedDoc {
					alg := ref.AlgSM3SM2()
					inner, outer, ka, cv := alg, alg, ref.OID(ref.OIDECPub...), ref.OID(ref.OIDSM2Curve...)
					switch kind {
					case 0:
						outer = ref.TLV(0x30, o)
					case 1:
						inner = ref.TLV(0x30, o)
					case 2:
						inner, outer = ref.TLV(0x30, o), ref.TLV(0x30, o)
					case 3:
						ka = o
					case 4:
						cv = o
					}
					return c19Build(isCert, k, inner, outer, ref.SPKIRaw(ka, cv, ref.PointBytes(k.pt)), sign)
				}
				right := [][]int{ref.OIDSM3SM2, ref.OIDSM3SM2, ref.OIDSM3SM2, ref.OIDECPub, ref.OIDSM2Curve}[kind]
				if quarter == 0 {
					d := build(ref.OID(right...), true)
					t.Descf("certificate=%v with the right %s", isCert, kinds[kind])
					t.Check(d.accepts(t, d.der, nil), "not accepted")
				}
				for n, o := range oidVariants(right) {
					if n%4 != quarter {
						continue
					}
					for _, params := range [][]byte{nil, {5, 0}, ref.OID(right...), {0x30, 0}, {4, 1, 7}} {
						if kind > 2 && params != nil {
							break // the key's parameters are the curve
						}
						d := build(append(append([]byte{}, o...), params...), n%97 == 0)
						t.Descf("certificate=%v with %s %x%x", isCert, kinds[kind], o, params)
						t.Check(!d.parses(t, d.der), "is parsed")
					}
				}
				if kind == 4 {
					for _, cv := range [][]byte{nil, append(ref.OID(right...), 0), append(ref.OID(right...), 5, 0), append(ref.OID(right...), ref.OID(right...)...), ref.TLV(0x30, ref.DERInt(bint(1)))} {
						if bytes.HasPrefix(cv, ref.OID(right...)) {
							continue // surplus elements in a SEQUENCE
						}
						d := build(cv, false)
						t.Descf("certificate=%v with curve parameters %x", isCert, cv)
						t.Check(!d.parses(t, d.der), "is parsed")
					}
				}
			}},
		{Name: "points", N: len(points) * 2, Doc: "public keys that are not points of the curve: every bit of the coordinates flipped, other form bytes and lengths, infinity, coordinates not below p",
			Run: func(t *eng.T, i int) {
				k := realPairCached(sc[40])
				d := c19Build(i%2 == 1, k, ref.AlgSM3SM2(), ref.AlgSM3SM2(), ref.SPKIRaw(ref.OID(ref.OIDECPub...), ref.OID(ref.OIDSM2Curve...), points[i/2].b), i < 64)
				t.Descf("certificate=%v with public key %s: %s", i%2 == 1, points[i/2].name, hx(points[i/2].b))
				t.Check(!d.parses(t, d.der), "is parsed")
			}},
		{Name: "notations", N: len(c19Docs()) * 8, Doc: "the signature in other encodings (raw, text, BER, padded, as a shifted bit string with unused bits, with bytes around it) in otherwise unchanged documents; whole documents as text, in BER, wrapped or with bytes around them; body, algorithm and signature in other arrangements",
			Run: func(t *eng.T, i int) {
				s, part := c19Docs()[i/8], i%8
				tbs, alg, sig, err := ref.DecodeSigned(s.der)
				if err != nil {
					panic(err)
				}
				r, sv, ok := ref.ParseSig(sig)
				if !ok {
					panic("signature")
				}
				n := 0
				try := func(what string, b []byte) {
					n++
					if n%8 != part || bytes.Equal(b, s.der) {
						return
					}
					t.Descf("%s: %s", s.name, what)
					t.Eval(1)
					if s.accepts(t, b, s.id) {
						t.Failf("%s: accepted as signed with %s: %s", s.name, what, hx(b))
					}
				}
				whole := func(what string, b []byte) {
					try(what, b)
					t.Check(!s.parses(t, b), "%s: parsed as %s: %s", s.name, what, hx(b))
				}
				for k, v := range sigVariants(r, sv) {
					try(fmt.Sprintf("encoding %d of the signature", k), ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0}, v)))
				}
				// the signature's bits after others or before others
				bits := new(big.Int).SetBytes(sig)
				for sh := uint(0); sh < 24; sh++ {
					for extra := 0; extra < 3; extra++ {
						x := new(big.Int).Lsh(bits, sh)
						b := x.FillBytes(make([]byte, (x.BitLen()+7)/8+extra))
						for unused := byte(0); unused < 10; unused++ {
							try(fmt.Sprintf("the signature shifted by %d bits, %d unused ones, %d leading zero bytes", sh, unused, extra), ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{unused}, b)))
						}
						for pre := int64(1); pre < 4; pre++ {
							y := new(big.Int).Or(x, new(big.Int).Lsh(bint(pre), uint(x.BitLen())+sh%8))
							try("bits before the signature", ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{byte(sh % 8)}, y.Bytes())))
						}
					}
				}
				for tag := 0; tag < 256; tag++ {
					if tag != 3 {
						try("the signature under another tag", ref.TLV(0x30, tbs, alg, ref.TLV(byte(tag), []byte{0}, sig)))
						try("the signature under another tag", ref.TLV(0x30, tbs, alg, ref.TLV(byte(tag), sig)))
					}
				}
				bs := ref.TLV(3, []byte{0}, sig)
				try("constructed signature", ref.TLV(0x30, tbs, alg, ref.TLV(0x23, bs)))
				try("signature in two parts", ref.TLV(0x30, tbs, alg, ref.TLV(0x23, ref.TLV(3, []byte{0}, sig[:30]), ref.TLV(3, []byte{0}, sig[30:]))))
				try("empty signature", ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0})))
				try("no signature", ref.TLV(0x30, tbs, alg))
				try("no algorithm", ref.TLV(0x30, tbs, bs))
				for _, o := range [][][]byte{{alg, tbs, bs}, {tbs, bs, alg}, {bs, alg, tbs}, {bs, tbs, alg}, {alg, bs, tbs}, {tbs, tbs, alg, bs}, {tbs, alg, alg, bs}, {ref.TLV(0x30, tbs), alg, bs}, {tbs, ref.TLV(0x30, alg), bs}, {tbs, ref.TLV(0x31, alg[2:]), bs}} {
					try("other arrangement", ref.TLV(0x30, o...))
				}
				for _, x := range []string{"CERTIFICATE", "CERTIFICATE REQUEST", "NEW CERTIFICATE REQUEST", "X509 CERTIFICATE", "TRUSTED CERTIFICATE"} {
					e := base64.StdEncoding.EncodeToString(s.der)
					var lines string
					for len(e) > 64 {
						lines, e = lines+e[:64]+"\n", e[64:]
					}
					whole("PEM", []byte("-----BEGIN "+x+"-----\n"+lines+e+"\n-----END "+x+"-----\n"))
				}
				for _, x := range []string{base64.StdEncoding.EncodeToString(s.der), base64.RawURLEncoding.EncodeToString(s.der), hex.EncodeToString(s.der), strings.ToUpper(hex.EncodeToString(s.der))} {
					whole("text", []byte(x))
					whole("text with a newline", []byte(x+"\n"))
				}
				body := s.der[len(s.der)-len(tbs)-len(alg)-len(bs):]
				whole("indefinite length", append(append([]byte{0x30, 0x80}, body...), 0, 0))
				for k := 1; k <= 8; k++ {
					l := append(make([]byte, 8), byte(len(body)>>8), byte(len(body)))
					x := append([]byte{0x30, byte(0x80 + k)}, l[10-k:]...)
					if x = append(x, body...); !bytes.Equal(x, s.der) {
						whole("another form of the length", x)
					}
				}
				for _, x := range [][]byte{ref.TLV(0x30, s.der), ref.TLV(4, s.der), ref.TLV(3, []byte{0}, s.der), ref.TLV(0xa0, s.der), ref.TLV(0x31, body), ref.TLV(0x10, body), ref.TLV(0x70, body), ref.TLV(0xb0, body), body,
					append([]byte{0xef, 0xbb, 0xbf}, s.der...), append([]byte{'\n'}, s.der...), append([]byte{0}, s.der...), append(append([]byte{}, s.der...), '\n'), append(append([]byte{}, s.der...), '\r', '\n'), append(append([]byte{}, s.der...), make([]byte, 16)...), append(append([]byte{}, s.der...), s.der...), append(append([]byte{}, s.der...), 5, 0)} {
					whole("wrapped or with bytes around it", x)
				}
				t.Obs(i)
			}},
		{Name: "large documents", N: 4 * 2, Timeout: 5 * time.Minute, Doc: "requests and certificates with an extension of 4 KiB to 2 MiB: accepted unchanged; not with one byte changed at each end, around each power of two and in between, nor under another user ID",
			Run: func(t *eng.T, i int) {
				l := []int{4097, 1<<16 + 1, 1<<20 + 9, 1<<21 + 5}[i/2]
				big := make([]byte, l)
				newPrng(i + 5).Read(big)
				k := realPairCached(sc[40+i])
				name := ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, "large"))
				nb := ref.X509Time(ref.Civil{Y: 2020, Mo: 1, D: 2, H: 3, Mi: 4, S: 5})
				id := ids[i/2%len(ids)]
				var body []byte
				if i%2 == 1 {
					body = ref.TBSCert(bint(5), ref.AlgSM3SM2(), name, nb, nb, name, ref.SPKI(k.pt), ref.Ext(oidPriv1, false, big))
				} else {
					body = ref.CSRInfo(0, name, ref.SPKI(k.pt), ref.Attr(ref.OIDExtReq, ref.TLV(0x30, ref.Ext(oidPriv1, false, big))))
				}
				d := &signedDoc{"large document", ref.Signed(body, ref.AlgSM3SM2(), k.sign(id, body)), id, k, i%2 == 1}
				n := len(d.der)
				t.Descf("document of %d bytes, unchanged", n)
				t.Check(d.accepts(t, d.der, id), "not accepted")
				at := []int{0, 1, 10, 20, n / 2, n / 3, n - 80, n - 100, n - 110, n - 120, n - 200, n - 1000, n - 1, n - 40}
				for q := 12; 1<<q < n; q++ {
					at = append(at, 1<<q-1, 1<<q, 1<<q+300, n-1<<q)
				}
				for j, p := range at {
					if p < 0 || p >= n {
						continue
					}
					d.der[p] ^= 1 << uint(j%8)
					t.Descf("document of %d bytes, byte %d changed", n, p)
					t.Check(!d.accepts(t, d.der, id), "still parses and verifies")
					d.der[p] ^= 1 << uint(j%8)
					t.Eval(1)
				}
				t.Descf("document of %d bytes under another user ID", n)
				t.Check(!d.accepts(t, d.der, []byte("somebody else")), "verifies under another user ID")
			}},
		{Name: "library-made", N: ncert * 40, Doc: "requests and certificates made by the library, all bits of all bytes of the signature and every tenth byte elsewhere",
			Run: func(t *eng.T, i int) {
				n, part := i/40, i%40
				k, ca := realPairCached(sc[40+n]), realPairCached(sc[50+n])
				var req, cer []byte
				id := ids[n%len(ids)]
				withRand(newPrng(n), func() {
					var err error
					if req, err = cert.CreateCertificateRequest(c18Template(n%6, n%3, 1, 1, 1, n%5, n%9), k.pub, k.pri, id); err != nil {
						t.Failf("CreateCertificateRequest: %v", err)
					}
					tp := c20Base()
					for b := range c20Fields {
						if (n+b)%2 == 0 {
							c20Fields[b].set(tp)
						}
					}
					info, err := cert.CreateCertificateInfo(tp, c20Parent(), caseFor(tp, c20Parent(), k).csr)
					if err != nil {
						t.Failf("CreateCertificateInfo: %v", err)
					}
					if cer, err = cert.IssueCertificateBySoftCAKey(info, ca.pri, id); err != nil {
						t.Failf("IssueCertificateBySoftCAKey: %v", err)
					}
					tbs, _, sig, err := ref.DecodeSigned(cer)
					if err != nil {
						t.Failf("issued certificate: %v", err)
					}
					wantBytes(t, "signed bytes of the certificate against the structure handed out", tbs, info.Raw)
					t.Check(ca.signed(id, info.Raw, sig), "the signature is not over the structure handed out")
				})
				t.Ops(3)
				for _, d := range []*signedDoc{{"library request", req, id, k, false}, {"library certificate", cer, id, ca, true}} {
					t.Check(d.accepts(t, d.der, d.id), "the %s is not accepted", d.name)
					for p := range d.der {
						if p%40 != part || len(d.der)-p > 76 && p/40%4 != 0 && !thorough(tier) {
							continue
						}
						for b := 0; b < 8; b++ {
							x := append([]byte{}, d.der...)
							x[p] ^= 1 << uint(b)
							t.Descf("%s %d with bit %d of byte %d flipped", d.name, n, b, p)
							t.Check(!d.accepts(t, x, d.id), "still parses and verifies")
						}
					}
				}
			}},
	}
}
