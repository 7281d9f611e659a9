package props

import (
	"bytes"
	"fmt"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C21", Init: selfTest, Spaces: c21, MemLimitMB: 3000,
		Assumptions: []string{
			"byte strings: all up to length 2 (3), and all within one edit (substitution, insertion, deletion, truncation, exchange of neighbours) of documents that use every structure the parsers know; every element of those replaced by each of a list of other elements, deleted, doubled or exchanged, with all lengths adjusted; pairs of edits of small documents in the thorough tier",
			"the termination of Decrypt and Verify is explored with keys of small curves on which most inputs reach the later steps, and with SM2 keys"}})
}

// parseAny gives the bytes to both document parsers and checks what they accept.
func parseAny(t *eng.T, b []byte, full bool) (accepted bool) {
	in := append(make([]byte, 0, len(b)+4), b...)
	p, err := cert.ParseCertificate(in)
	t.Ops(1)
	t.Check((p == nil) == (err != nil), "ParseCertificate gives %v, %v", p != nil, err)
	part := func(what string, whole, x []byte) {
		if !bytes.Contains(whole, x) || len(x) == 0 {
			t.Failf("%s %s is no part of the input %s", what, hx(x), hx(whole))
		}
	}
	one := func(raw []byte) {
		accepted = true
		wantBytes(t, "Raw of the accepted document", raw, b)
		_, _, whole, rest, ok := ref.Elem(b)
		t.Check(ok && len(rest) == 0 && len(whole) == len(b), "the accepted document is not one DER element")
	}
	if err == nil {
		one(p.Raw)
		part("RawTBSCertificate", b, p.RawTBSCertificate)
		part("RawSubject", p.RawTBSCertificate, p.RawSubject)
		part("RawIssuer", p.RawTBSCertificate, p.RawIssuer)
		part("RawSubjectPublicKeyInfo", p.RawTBSCertificate, p.RawSubjectPublicKeyInfo)
		pub, ok := p.PublicKey.(*sm2.PublicKey)
		t.Check(ok && pub != nil && ref.SM2.On(pub.X, pub.Y), "accepted with public key %v", p.PublicKey)
		t.Check(p.SerialNumber != nil, "accepted without serial number")
		for _, x := range [][]byte{{0}, {0xff}, {0x30}, {0, 0}, {5, 0}, b} {
			_, err := cert.ParseCertificate(append(append([]byte{}, b...), x...))
			t.Check(err != nil, "a certificate with trailing bytes %s is accepted", hx(x))
		}
		if full {
			sm2.Verify(pub, nil, p.RawTBSCertificate, p.Signature)
			t.Ops(1)
		}
		t.Ops(6)
	}
	r, err := cert.ParseCertificateRequest(in)
	t.Ops(1)
	t.Check((r == nil) == (err != nil), "ParseCertificateRequest gives %v, %v", r != nil, err)
	if err == nil {
		one(r.Raw)
		part("RawTBSCertificateRequest", b, r.RawTBSCertificateRequest)
		part("RawSubject", r.RawTBSCertificateRequest, r.RawSubject)
		part("RawSubjectPublicKeyInfo", r.RawTBSCertificateRequest, r.RawSubjectPublicKeyInfo)
		pub, ok := r.PublicKey.(*sm2.PublicKey)
		t.Check(ok && pub != nil && ref.SM2.On(pub.X, pub.Y), "accepted with public key %v", r.PublicKey)
		for _, x := range [][]byte{{0}, {0xff}, {0x30}, {0, 0}, {5, 0}, b} {
			_, err := cert.ParseCertificateRequest(append(append([]byte{}, b...), x...))
			t.Check(err != nil, "a request with trailing bytes %s is accepted", hx(x))
		}
		t.Ops(6)
	}
	if full || err != nil {
		ok, verr := cert.VerifyDERCSRSign(in, nil)
		t.Check((err == nil) == (verr == nil) && (verr == nil || !ok), "VerifyDERCSRSign gives %v, %v where parsing gives %v", ok, verr, err)
		t.Ops(1)
	}
	wantBytes(t, "argument of the parsers", in, b)
	t.Obs(accepted, b)
	return
}

type rawParsers struct {
	toyPri *sm2.PrivateKey
	toyPub *sm2.PublicKey
	pri    *sm2.PrivateKey
	pub    *sm2.PublicKey
}

var rawP *rawParsers

func getRaw() *rawParsers {
	if rawP == nil {
		k, r := toyPair("n>p byte", 9), realPairCached(realScalars()[40])
		rawP = &rawParsers{k.pri, k.pub, r.pri, r.pub}
	}
	return rawP
}

// parseRaw gives the bytes to the signature, ciphertext and key parsers.
func parseRaw(t *eng.T, b []byte) {
	in := append(make([]byte, 0, len(b)+4), b...)
	r, s, err := sm2.UnmarshalSign(in)
	t.Check(err != nil && r == nil && s == nil || err == nil && r != nil && s != nil, "UnmarshalSign gives %v, %v, %v", r, s, err)
	for _, m := range []sm2.Sm2CipherTextType{sm2.C1C2C3, sm2.C1C3C2, 7} {
		x, err := sm2.UnmarshalCipher(in, m)
		t.Check((x == nil) == (err != nil), "UnmarshalCipher gives %x, %v", x, err)
		y, err := sm2.MarshalCipher(in, m)
		t.Check((y == nil) == (err != nil), "MarshalCipher gives %x, %v", y, err)
	}
	p := getRaw()
	for _, m := range []sm2.Sm2CipherTextType{sm2.C1C2C3, sm2.C1C3C2} {
		x, err := sm2.Decrypt(p.toyPri, in, m)
		t.Check((x == nil) == (err != nil) || len(x) == 0 && len(b) == 97, "Decrypt on a small curve gives %x, %v", x, err)
		x, err = sm2.Decrypt(p.pri, in, m)
		t.Check((x == nil) == (err != nil) || len(x) == 0 && len(b) == 97, "Decrypt gives %x, %v", x, err)
	}
	sm2.Verify(p.toyPub, nil, []byte("m"), in)
	sm2.Verify(p.toyPub, in, in, in)
	pk, err := sm2.RawBytesToPublicKey(in)
	t.Check((pk == nil) == (err != nil), "RawBytesToPublicKey gives %v, %v", pk, err)
	sk, err := sm2.RawBytesToPrivateKey(in)
	t.Check((sk == nil) == (err != nil), "RawBytesToPrivateKey gives %v, %v", sk, err)
	t.Ops(15)
	wantBytes(t, "argument of the parsers", in, b)
}

// ---- documents with everything in them ----

func c21Docs() [][]byte {
	k := realPairCached(realScalars()[40])
	docs := [][]byte{c19Docs()[0].der, c19Docs()[1].der}
	url := ref.TLV(0x86, []byte("h:x"))
	dn := ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, "d"))
	exts := [][]byte{
		ref.Ext(oidKU, true, encKeyUsage(0x186)),
		ref.Ext(oidEKU, false, ref.TLV(0x30, ref.OID(ekuTable[1]...), ref.OID(1, 2, 3))),
		ref.Ext(oidBC, true, ref.TLV(0x30, []byte{1, 1, 0xff}, ref.DERInt(bint(3)))),
		ref.Ext(oidSKI, false, []byte{4, 2, 1, 2}),
		ref.Ext(oidAKI, false, ref.TLV(0x30, ref.TLV(0x80, []byte{1, 2}))),
		ref.Ext(oidAIA, false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(oidOCSP...), url), ref.TLV(0x30, ref.OID(oidCAIs...), url), ref.TLV(0x30, ref.OID(1, 2, 3), ref.TLV(0xa4, dn)))),
		ref.Ext(oidSAN, true, ref.TLV(0x30, ref.TLV(0x82, []byte("d")), ref.TLV(0x81, []byte("m@d")), ref.TLV(0x87, []byte{1, 2, 3, 4}), ref.TLV(0x86, []byte("h://d/")), ref.TLV(0xa4, dn))),
		ref.Ext(oidPol, false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 3)))),
		ref.Ext(oidNC, true, ncValue([]constraint{{0x82, []byte(".d")}, {0x81, []byte("\"q\\\"\"@d")}, {0x81, []byte("a.b@d")}, {0x86, []byte("d")}, {0x87, []byte{1, 2, 3, 4, 255, 0, 0, 0}}}, []constraint{{0x82, []byte("e")}, {0x87, make([]byte, 32)}})),
		ref.Ext(oidCRL, false, ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, url))), ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa1, rdn([]int{2, 5, 4, 3}, 0x13, "r")[2:]))), ref.TLV(0x30, ref.TLV(0x81, []byte{7, 0x80}), ref.TLV(0xa2, ref.TLV(0xa4, dn))))),
		ref.Ext(oidPriv1, true, []byte{1, 2}),
	}
	nb, na := ref.X509Time(ref.Civil{Y: 2020, Mo: 2, D: 29, H: 23, Mi: 59, S: 59}), ref.X509Time(ref.Civil{Y: 2050, Mo: 1, D: 1})
	subj := ref.TLV(0x30, rdn([]int{2, 5, 4, 6}, 0x13, "CN"), rdn([]int{2, 5, 4, 10}, 0x0c, "组"), rdn([]int{2, 5, 4, 11}, 0x1e, "\x4e\x2d"), rdn([]int{1, 2, 840, 113549, 1, 9, 1}, 0x16, "e@d"))
	body := ref.TBSCert(bint(-129), ref.AlgSM3SM2(), subj, nb, na, subj, ref.SPKI(k.pt), exts...)
	docs = append(docs, ref.Signed(body, ref.AlgSM3SM2(), fakeSig))
	// a certificate with unique identifiers
	bodyU := ref.TLV(0x30, ref.TLV(0xa0, ref.DERInt(bint(2))), ref.DERInt(bint(3)), ref.AlgSM3SM2(), subj, ref.TLV(0x30, nb, na), subj, ref.SPKI(k.pt), ref.TLV(0x81, []byte{0, 1}), ref.TLV(0x82, []byte{0, 2}), ref.TLV(0xa3, ref.TLV(0x30, exts[0])))
	docs = append(docs, ref.Signed(bodyU, ref.AlgSM3SM2(), fakeSig))
	csr := ref.CSRInfo(0, subj, ref.SPKI(k.pt), ref.Attr(oidPriv2, ref.TLV(0x30, ref.TLV(0x30, ref.OID(oidPriv1...), ref.TLV(0x13, []byte("v"))))), ref.Attr([]int{1, 2, 840, 113549, 1, 9, 7}, ref.TLV(0x0c, []byte("pw"))),
		ref.Attr(ref.OIDExtReq, ref.TLV(0x30, exts[0], exts[6], exts[2])), ref.Attr(ref.OIDExtReq))
	docs = append(docs, ref.Signed(csr, ref.AlgSM3SM2(), fakeSig))
	return docs
}

// ---- element trees ----

type node struct {
	tag  byte
	pre  []byte // bytes before the kids (unused bits of a bit string)
	body []byte
	kids []*node
	over []byte // replaces the whole element
	gone bool
	dup  bool
}

func parseNodes(b []byte) (out []*node, ok bool) {
	for len(b) > 0 {
		tag, c, _, rest, ok := ref.Elem(b)
		if !ok {
			return nil, false
		}
		n := &node{tag: tag, body: c}
		switch {
		case tag&0x20 != 0:
			n.kids, ok = parseNodes(c)
			if !ok {
				return nil, false
			}
		case tag == 4:
			if k, ok := parseNodes(c); ok && len(k) == 1 {
				n.kids = k
			}
		case tag == 3 && len(c) > 1 && c[0] == 0 && c[1] == 0x30:
			if k, ok := parseNodes(c[1:]); ok && len(k) == 1 {
				n.kids, n.pre = k, c[:1]
			}
		}
		out = append(out, n)
		b = rest
	}
	return out, true
}

func (n *node) enc() []byte {
	var e []byte
	switch {
	case n.over != nil:
		e = n.over
	case n.gone:
		return nil
	case len(n.kids) > 0:
		c := append([]byte{}, n.pre...)
		for _, k := range n.kids {
			c = append(c, k.enc()...)
		}
		e = ref.TLV(n.tag, c)
	default:
		e = ref.TLV(n.tag, n.body)
	}
	if n.dup {
		e = append(append([]byte{}, e...), e...)
	}
	return e
}

func (n *node) walk(f func(n *node)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

func countNodes(b []byte) int {
	l, _ := parseNodes(b)
	c := 0
	l[0].walk(func(*node) { c++ })
	return c
}

func replacements() [][]byte {
	T := ref.TLV
	out := [][]byte{
		{5, 0}, {5, 1, 0}, {0x30, 0}, {0x31, 0}, {0xa0, 0}, {0xa3, 0}, {0x80, 0}, {0, 0}, {4, 0}, {6, 0}, {2, 0}, {3, 0}, {1, 0}, {0x0c, 0}, {0x13, 0}, {0x17, 0}, {0x18, 0},
		{1, 1, 0xff}, {1, 1, 0}, {1, 1, 1}, {1, 2, 0xff, 0xff},
		{2, 1, 0}, {2, 1, 0x80}, {2, 1, 0xff}, {2, 2, 0, 1}, {2, 2, 0xff, 0x80}, {2, 5, 1, 0, 0, 0, 0}, {2, 4, 0x7f, 255, 255, 255}, {2, 9, 0, 255, 255, 255, 255, 255, 255, 255, 255}, T(2, pat(2, 200)), T(2, append([]byte{1}, make([]byte, 300)...)),
		{3, 1, 0}, {3, 1, 1}, {3, 2, 0, 0xff}, {3, 2, 7, 0x80}, {3, 2, 7, 0x81}, {3, 2, 8, 0}, {3, 4, 0, 0, 0, 0}, T(3, append([]byte{0}, pat(2, 40)...)), T(3, append([]byte{0, 4}, pat(2, 64)...)), T(3, []byte{0, 0}), T(3, append([]byte{4, 0x40}, pat(3, 64)...)),
		{4, 1, 0}, {4, 2, 4, 0}, T(4, pat(0, 300)), T(4, []byte{0x30, 0}), T(4, T(0x30, T(4, T(0x30, []byte{5, 0})))), {0x24, 4, 4, 2, 1, 2},
		{6, 1, 0x80}, {6, 1, 0}, {6, 2, 0x80, 1}, {6, 5, 0xff, 0xff, 0xff, 0xff, 0x7f}, {6, 10, 0x2a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {6, 2, 0x2a, 0x80}, ref.OID(2, 5, 29, 17), ref.OID(ref.OIDSM3SM2...), ref.OID(ref.OIDECPub...), ref.OID(ref.OIDSM2Curve...), ref.OID(ref.OIDExtReq...), ref.OID(2, 5, 29, 30), ref.OID(2, 5, 29),
		T(0x0c, []byte("x")), T(0x0c, []byte{0xff, 0xfe}), T(0x13, []byte("x@*&")), T(0x13, []byte{0x80}), T(0x16, []byte{0xff}), T(0x1e, []byte{0}), T(0x1e, []byte{0xd8, 0}), T(0x14, []byte{0xff}), T(0x12, []byte("1a")), T(0x1c, []byte("abc")), T(0x1b, []byte("x")), T(9, []byte{0x80}), T(10, []byte{1}), T(10, nil),
		T(0x17, []byte("200101000000Z")), T(0x17, []byte("200230000000Z")), T(0x17, []byte("2001010000Z")), T(0x17, []byte("2001010000+0100")), T(0x17, []byte("991231235960Z")), T(0x18, []byte("20500101000000Z")), T(0x18, []byte("00000101000000Z")), T(0x18, []byte("99991231235959Z")), T(0x18, []byte("20500101000000.5Z")), T(0x18, []byte("20500101000000+2400")), T(0x18, []byte("x")),
		T(0x30, []byte{5, 0}), T(0x30, []byte{2, 1, 1}), T(0x30, []byte{2, 1, 1}, []byte{2, 1, 1}), T(0x30, []byte{0x30, 0}), T(0x31, []byte{0x30, 0}), T(0x30, []byte{0x31, 0}), T(0x30, T(0x31, T(0x30, ref.OID(2, 5, 4, 3), []byte{5, 0}))), T(0x30, T(0x31, T(0x30, ref.OID(2, 5, 4, 3), []byte{2, 1, 5}))), T(0x30, T(0x31, T(0x30, ref.OID(2, 5, 4, 3)))), T(0x30, ref.OID(1, 2, 3)), T(0x30, ref.OID(1, 2, 3), []byte{1, 1, 0xff}), T(0x30, T(0x80, pat(1, 3)), T(0x81, pat(1, 3)), T(0x82, pat(1, 3))),
		T(0x80, []byte{1}), T(0x81, []byte{0}), T(0x82, []byte{0xff}), T(0x86, []byte(":")), T(0x86, []byte("http://[::1")), T(0x86, []byte("%zz")), T(0x87, []byte{1}), T(0x87, pat(2, 16)), T(0x87, pat(2, 8)), T(0x87, pat(2, 32)), T(0xa0, []byte{2, 1, 2}), T(0xa0, []byte{2, 1, 0x80}), T(0xa0, []byte{0x30, 0}), T(0xa1, []byte{0x30, 0}), T(0xa3, []byte{0x30, 0}), T(0xa4, []byte{0x30, 0}),
		{0x1f, 0x20, 0}, {0x3f, 0x81, 0, 0}, {0xbf, 0x1f, 0}, {0x1f, 0xff, 0xff, 0xff, 0xff, 0x7f, 0}, {0x9f}, {0x30, 0x80, 0, 0}, {0x30, 0x81, 0}, {0x30, 0x82, 0, 1, 5}, {0x30, 0x84, 0xff, 0xff, 0xff, 0xff}, {0x30, 0x85, 1, 0, 0, 0, 0}, {0x30, 0x88, 0x7f, 255, 255, 255, 255, 255, 255, 255}, {0x30, 0xff}, {0x30}, {4, 0x84, 0x7f, 255, 255, 255}, {2, 0x84, 0x80, 0, 0, 0}, {},
	}
	return out
}

func nested(tag byte, depth int, inner []byte) []byte {
	// built from the inside with all headers first
	hs := make([][]byte, depth)
	n := len(inner)
	for i := 0; i < depth; i++ {
		h := append([]byte{tag}, ref.DERLen(n)...)
		hs[i] = h
		n += len(h)
	}
	out := make([]byte, 0, n)
	for i := depth - 1; i >= 0; i-- {
		out = append(out, hs[i]...)
	}
	return append(out, inner...)
}

func c21(tier string) []eng.Space {
	docs := c21Docs()
	type pos struct{ doc, p int }
	var ps []pos
	for d := range docs {
		for p := 0; p <= len(docs[d]); p++ {
			ps = append(ps, pos{d, p})
		}
	}
	var ns []pos
	for d := range docs {
		for n := 0; n < countNodes(docs[d]); n++ {
			ns = append(ns, pos{d, n})
		}
	}
	reps := replacements()
	shortMax := pick(tier, 2, 3)
	extOIDs := [][]int{oidKU, oidEKU, oidBC, oidSKI, oidAKI, oidAIA, oidSAN, oidPol, oidNC, oidCRL}
	frags := [][]byte{{5, 0}, {0x30, 0}, {2, 1, 5}, {1, 1, 0xff}, {4, 1, 7}, {3, 2, 7, 0x80}, {3, 1, 0}, ref.OID(1, 2, 3), ref.TLV(0x82, []byte("d")), ref.TLV(0x86, []byte("h:")), ref.TLV(0x87, pat(1, 8)), {0xa0, 0}, {0xa1, 0}, {0x80, 0}, {0x30, 0x80}, {0x1f, 0x1f, 0}}
	var fragLists [][]byte
	for _, s := range seqs(len(frags), pick(tier, 2, 3)) {
		var x []byte
		for _, v := range s {
			x = append(x, frags[v]...)
		}
		fragLists = append(fragLists, x)
	}
	rawDocs := func() [][]byte {
		k := toyPair("n>p byte", 9)
		ts := toy("n>p byte")
		out := [][]byte{ref.EncodeSig(bint(5), bint(200)), ref.EncodeSig(pow2(255), sub(pow2(256), 1)), k.sign(nil, []byte("m"))}
		for _, o := range []bool{true, false} {
			ct, _ := ts.c.EncK(k.pt, []byte("message"), bint(3), o)
			out = append(out, ct)
			rk := realPairCached(realScalars()[40])
			ct, _ = ref.SM2.EncK(rk.pt, []byte("hi"), realScalars()[33], o)
			der, _ := ref.EncodeCipher(ct, o)
			out = append(out, ct, der)
		}
		rk := realPairCached(realScalars()[40])
		return append(out, ref.PointBytes(rk.pt)[1:], ref.B32(rk.d))
	}
	nraw := len(rawDocs())
	return []eng.Space{
		{Name: "short", N: 65536, Doc: "all byte strings up to length 2 (3) given to every parser",
			Run: func(t *eng.T, i int) {
				b := []byte{byte(i >> 8), byte(i)}
				t.Desc(func() string { return fmt.Sprintf("input starting with %x", b) })
				if i == 0 {
					parseAny(t, nil, true)
					parseRaw(t, nil)
					for v := 0; v < 256; v++ {
						parseAny(t, []byte{byte(v)}, true)
						parseRaw(t, []byte{byte(v)})
					}
				}
				parseAny(t, b, true)
				parseRaw(t, b)
				if shortMax == 3 {
					for v := 0; v < 256; v++ {
						parseAny(t, append(b[:2:2], byte(v)), true)
						if v%16 == 0 || v == 255 {
							parseRaw(t, append(b[:2:2], byte(v)))
						}
					}
				}
			}},
		{Name: "documents", N: len(docs), Doc: "the documents themselves are accepted by their parser",
			Run: func(t *eng.T, i int) {
				t.Descf("document %d: %s", i, hx(docs[i]))
				t.Check(parseAny(t, docs[i], true), "the document is refused")
			}},
		{Name: "edits", N: len(ps), Doc: "every single-byte substitution, insertion (16 values; 256 in the thorough tier), deletion, truncation and exchange in five documents",
			Run: func(t *eng.T, i int) {
				d, p := docs[ps[i].doc], ps[i].p
				ins := pick(tier, 16, 256)
				for k := 0; k < ins; k++ {
					v := byte(k)
					if ins == 16 {
						v = []byte{0, 1, 2, 3, 4, 5, 6, 0x13, 0x30, 0x31, 0x7f, 0x80, 0x81, 0xa0, 0xa3, 0xff}[k]
					}
					x := append(append(append([]byte{}, d[:p]...), v), d[p:]...)
					t.Descf("document %d with %02x inserted at %d", ps[i].doc, v, p)
					parseAny(t, x, false)
				}
				t.Descf("document %d up to %d", ps[i].doc, p)
				parseAny(t, d[:p], false)
				t.Descf("document %d from %d", ps[i].doc, p)
				parseAny(t, d[p:], false)
				t.Eval(ins + 2)
				if p == len(d) {
					return
				}
				for v := 1; v < 256; v++ {
					x := append([]byte{}, d...)
					x[p] ^= byte(v)
					t.Descf("document %d with byte %d changed to %02x", ps[i].doc, p, x[p])
					parseAny(t, x, false)
				}
				t.Descf("document %d without byte %d", ps[i].doc, p)
				parseAny(t, append(append([]byte{}, d[:p]...), d[p+1:]...), false)
				if p+1 < len(d) {
					x := append([]byte{}, d...)
					x[p], x[p+1] = x[p+1], x[p]
					t.Descf("document %d with bytes %d and %d exchanged", ps[i].doc, p, p+1)
					parseAny(t, x, false)
				}
				t.Eval(257)
			}},
		{Name: "elements", N: len(ns), Doc: "every element replaced by each of the listed elements, its content kept under every tag, deleted, doubled, cut, exchanged with its neighbour; lengths adjusted",
			Run: func(t *eng.T, i int) {
				d := docs[ns[i].doc]
				at := func(f func(n *node)) []byte {
					l, _ := parseNodes(d)
					c := 0
					l[0].walk(func(n *node) {
						if c == ns[i].p {
							f(n)
						}
						c++
					})
					return l[0].enc()
				}
				run := func(what string, f func(n *node)) {
					t.Descf("document %d, element %d %s", ns[i].doc, ns[i].p, what)
					parseAny(t, at(f), false)
					t.Eval(1)
				}
				for k := range reps {
					run(fmt.Sprintf("replaced by %x", reps[k]), func(n *node) { n.over = reps[k] })
				}
				for v := 0; v < 256; v++ {
					run(fmt.Sprintf("tagged %02x", v), func(n *node) { n.tag = byte(v) })
				}
				run("deleted", func(n *node) { n.gone = true })
				run("doubled", func(n *node) { n.dup = true })
				run("emptied", func(n *node) { n.kids, n.body = nil, nil })
				run("cut", func(n *node) {
					if len(n.body) > 0 {
						n.kids, n.body = nil, n.body[:len(n.body)-1]
					}
				})
				run("extended", func(n *node) { n.kids, n.body = nil, append(append([]byte{}, n.body...), 0) })
				run("wrapped", func(n *node) { n.over = ref.TLV(0x30, (&node{tag: n.tag, body: n.body}).enc()) })
				run("unwrapped", func(n *node) { n.over = append([]byte{}, n.body...) })
				run("kids reversed", func(n *node) {
					for a, b := 0, len(n.kids)-1; a < b; a, b = a+1, b-1 {
						n.kids[a], n.kids[b] = n.kids[b], n.kids[a]
					}
				})
				for c := 1; c < 9; c++ {
					run(fmt.Sprintf("with %d copies of its last kid", 1<<uint(c)), func(n *node) {
						if len(n.kids) > 0 {
							for k := 0; k < 1<<uint(c); k++ {
								n.kids = append(n.kids, n.kids[len(n.kids)-1])
							}
						}
					})
				}
				if ns[i].p == 0 {
					return
				}
				run("long form of its length", func(n *node) {
					e := n.enc()
					c := e[1:]
					if e[1] < 0x80 {
						n.over = append([]byte{e[0], 0x81}, c...)
					}
				})
			}},
		{Name: "extension-values", N: len(extOIDs) * len(fragLists), Doc: "all lists of up to 2 (3) fragments, bare and inside SEQUENCE and context tags, as value of every known extension in certificates and requests",
			Run: func(t *eng.T, i int) {
				o, f := extOIDs[i%len(extOIDs)], fragLists[i/len(extOIDs)]
				for _, v := range [][]byte{f, ref.TLV(0x30, f), ref.TLV(0x30, ref.TLV(0x30, f)), ref.TLV(0x30, ref.TLV(0xa0, f)), ref.TLV(0x30, ref.TLV(0xa1, f)), ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, f))), ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, f)))), ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, f)))} {
					t.Descf("extension %v = %x", o, v)
					parseAny(t, certWith(ref.Ext(o, i%2 == 0, v)), false)
					t.Eval(1)
					if i%len(extOIDs) == 6 {
						parseAny(t, csrWith(ref.Ext(o, false, v)), false)
					}
				}
			}},
		{Name: "names", N: 4 * 16 * 16, Doc: "all strings up to length 5 (6) over 16 syntax characters as e-mail, DNS and URI constraints and as SAN URIs",
			Run: func(t *eng.T, i int) {
				const alpha = "a.@\\\"[]:/%?# \x7f\x80\x00"
				kind := i % 4
				var walk func(s []byte, n int)
				walk = func(s []byte, n int) {
					e := ref.Ext([]int{2, 5, 29, 30}, true, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV([]byte{0x81, 0x82, 0x86, 0}[kind], s)))))
					if kind == 3 {
						e = ref.Ext([]int{2, 5, 29, 17}, true, ref.TLV(0x30, ref.TLV(0x86, s)))
					}
					t.Descf("kind %d, string %q", kind, s)
					parseAny(t, certWith(e), false)
					t.Eval(1)
					if n > 0 {
						for _, c := range []byte(alpha) {
							walk(append(s[:len(s):len(s)], c), n-1)
						}
					}
				}
				start := []byte{alpha[i/4%16], alpha[i/64]}
				walk(start, pick(tier, 1, 3))
				if thorough(tier) || kind == 0 {
					walk(append(start, "@a"...), 1)
					walk(append([]byte("a"), start...), pick(tier, 1, 2))
				}
			}},
		{Name: "extension-bytes", N: len(extOIDs) * 256, Doc: "all values of up to 2 bytes of every known extension",
			Run: func(t *eng.T, i int) {
				o, a := extOIDs[i/256], byte(i)
				t.Descf("extension %v = %02x..", o, a)
				parseAny(t, certWith(ref.Ext(o, true, []byte{a})), false)
				for b := 0; b < 256; b++ {
					parseAny(t, certWith(ref.Ext(o, true, []byte{a, byte(b)})), false)
					t.Eval(1)
				}
			}},
		{Name: "deep", N: 40, Doc: "elements nested up to 60000 deep, and documents of many elements, in places that take any element",
			Run: func(t *eng.T, i int) {
				depth := []int{1, 10, 100, 1000, 10000, 30000, 60000, 20000}[i%8]
				tag := []byte{0x30, 0x31, 0xa0, 0x24, 0xa4}[i/8]
				x := nested(tag, depth, []byte{5, 0})
				t.Descf("nested %02x, %d deep", tag, depth)
				parseAny(t, x, false)
				for _, o := range extOIDs {
					parseAny(t, certWith(ref.Ext(o, true, x)), false)
					parseAny(t, certWith(ref.Ext(o, true, ref.TLV(0x30, x))), false)
					parseAny(t, certWith(ref.Ext(o, true, bytes.Repeat([]byte{0x30, 0}, depth))), false)
					parseAny(t, certWith(ref.Ext(o, true, ref.TLV(0x30, bytes.Repeat([]byte{0x30, 0}, depth)))), false)
				}
				k := realPairCached(realScalars()[40])
				for _, s := range [][]byte{x, ref.TLV(0x30, x), ref.TLV(0x30, ref.TLV(0x31, x)), ref.TLV(0x30, ref.TLV(0x31, ref.TLV(0x30, ref.OID(2, 5, 4, 3), x))), ref.TLV(0x30, bytes.Repeat([]byte{0x31, 0}, depth))} {
					parseAny(t, ref.Signed(ref.CSRInfo(0, s, ref.SPKI(k.pt)), ref.AlgSM3SM2(), fakeSig), false)
					parseAny(t, ref.Signed(ref.CSRInfo(0, c18Subjects[6].raw, ref.SPKI(k.pt), s), ref.AlgSM3SM2(), fakeSig), false)
				}
				parseRaw(t, x)
				parseRaw(t, ref.TLV(0x30, bytes.Repeat([]byte{2, 1, 1}, depth)))
				parseRaw(t, ref.TLV(0x30, ref.TLV(2, pat(0, depth)), ref.TLV(2, pat(0, depth))))
				parseRaw(t, ref.TLV(0x30, ref.TLV(2, pat(0, 32)), ref.TLV(2, pat(0, 32)), ref.TLV(4, pat(0, depth)), ref.TLV(4, pat(0, 32))))
				t.Eval(54)
			}},
		{Name: "lengths", N: 256, Doc: "every tag with every form of length, claimed sizes up to 2^63, before little data",
			Run: func(t *eng.T, i int) {
				for f := 0; f < 256; f++ {
					for _, tail := range [][]byte{nil, {0}, {0, 0, 0, 0}, {0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 1, 5}} {
						b := append([]byte{byte(i), byte(f)}, tail...)
						t.Descf("input %x", b)
						parseAny(t, b, false)
						if i < 64 && f >= 0x7f || f < 4 {
							parseRaw(t, b)
							parseAny(t, certWith(ref.Ext(extOIDs[(i+f)%len(extOIDs)], true, b)), false)
						}
						t.Eval(1)
					}
				}
			}},
		{Name: "raw-edits", N: nraw * 140, Doc: "every substitution, insertion, deletion and truncation of signatures, ciphertexts in both forms, and raw keys",
			Run: func(t *eng.T, i int) {
				d, p := rawDocs()[i/140], i%140
				if p > len(d) {
					return
				}
				t.Descf("raw document %d, edit at %d", i/140, p)
				vals := pick(tier, 5, 1)
				for v := 0; v < 256; v++ {
					if v%vals != p%vals && v != 0x80 && v != 0xff {
						continue
					}
					parseRaw(t, append(append(append([]byte{}, d[:p]...), byte(v)), d[p:]...))
					if p < len(d) {
						x := append([]byte{}, d...)
						x[p] = byte(v)
						parseRaw(t, x)
					}
					t.Eval(2)
				}
				parseRaw(t, d[:p])
				parseRaw(t, d[p:])
				if p < len(d) {
					parseRaw(t, append(append([]byte{}, d[:p]...), d[p+1:]...))
				}
				t.Eval(3)
			}},
		{Name: "notations", N: len(docs), Doc: "documents in other notations (PEM, text, BER, with bytes around them) given to every parser",
			Run: func(t *eng.T, i int) {
				for _, x := range otherForms(docs[i]) {
					t.Descf("document %d as %s", i, hx(x))
					parseAny(t, x, false)
					parseRaw(t, x)
					t.Eval(1)
				}
			}},
		{Name: "raw-lengths", N: 400, Doc: "inputs of every length in several patterns to the signature, ciphertext and key parsers",
			Run: func(t *eng.T, n int) {
				for kind := 0; kind < 5; kind++ {
					for _, first := range []int{-1, 4, 0x30, 0} {
						b := pat(kind, n)
						if first >= 0 && n > 0 {
							b[0] = byte(first)
						}
						t.Descf("%d bytes of pattern %d starting with %d", n, kind, first)
						parseRaw(t, b)
						if kind < 2 {
							parseAny(t, b, false)
						}
						t.Eval(1)
					}
				}
			}},
		{Name: "pairs", N: pick(tier, 0, len(docs[0])), Doc: "all pairs of places in the small request changed to boundary values",
			Run: func(t *eng.T, p int) {
				d := docs[0]
				vals := []byte{0, 1, 0x7f, 0x80, 0xff, 0x30}
				for q := p + 1; q < len(d); q++ {
					for _, a := range vals {
						for _, b := range vals {
							x := append([]byte{}, d...)
							x[p], x[q] = x[p]^a, x[q]^b
							t.Descf("small request with bytes %d, %d changed to %02x, %02x", p, q, x[p], x[q])
							parseAny(t, x, false)
							t.Eval(1)
						}
					}
				}
			}},
	}
}
