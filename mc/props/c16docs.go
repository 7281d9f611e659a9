package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"time"

	stdasn1 "encoding/asn1"

	"crypto/x509"
	"crypto/x509/pkix"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

// clone copies a value with everything it refers to, giving every slice spare capacity.
func clone(v interface{}) interface{} { return cloneValue(reflect.ValueOf(v)).Interface() }

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			return reflect.ValueOf(new(big.Int).Set(x))
		case *time.Location, *url.Userinfo:
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cloneValue(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneValue(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		if v.Type().Elem() == byteType {
			n := reflect.New(v.Type()).Elem()
			n.SetBytes(lift(v.Bytes()))
			return n
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+2)
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneValue(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		if v.Type() == timeType {
			return n
		}
		if _, ok := v.Interface().(sm2.P256V1Curve); ok {
			return n
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// a document is something to issue, to request or to parse.
type document struct {
	name string
	kind string
	args []interface{}                           // cloned for every use
	run  func(a []interface{}) (r []interface{}) // what the caller sees
	rep  bool                                    // used in pairs
}

var theDocuments []document

func documents() []document {
	if theDocuments != nil {
		return theDocuments
	}
	var l []document
	ts := toy("n>p byte")
	pub := pubOf(ts.ic, ts.c.MulG(bint(9)))
	pri := privOf(ts.ic, bint(9))
	rp := mulG(ref.SM2, hexBig("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8"))
	rpub := pubOf(realSet.ic, rp)
	spki := ref.SPKI(rp)
	csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spki, PublicKey: rpub, Subject: pkix.Name{CommonName: "not used"}, DNSNames: []string{"not.used"}}
	issue := func(rep bool, name string, tp, parent *x509.Certificate) {
		l = append(l, document{name: "certificate with " + name, kind: "cert", rep: rep, args: []interface{}{tp, parent, csr}, run: func(a []interface{}) []interface{} {
			info, err := cert.CreateCertificateInfo(a[0].(*x509.Certificate), a[1].(*x509.Certificate), a[2].(*x509.CertificateRequest))
			if err != nil || info == nil {
				return []interface{}{info, err}
			}
			der, err2 := cert.CreateCertificate(info, lift(fakeSig))
			return []interface{}{info, err, der, err2}
		}})
	}
	tmpl := func(rep bool, name string, set ...func(tp *x509.Certificate)) {
		tp := c20Base()
		for _, f := range set {
			f(tp)
		}
		issue(rep, name, tp, c20Parent())
	}
	tmpl(true, "nothing else")
	for i, f := range c20Fields {
		f := f
		tmpl(true, f.name, f.set)
		tmpl(true, f.name+", overridden", f.set, func(tp *x509.Certificate) {
			tp.ExtraExtensions = spareExts([]pkix.Extension{{Id: f.oid, Critical: true, Value: f.over}, {Id: oidPriv1, Value: []byte{5, 0}}})
		})
		for _, g := range c20Fields[:i] {
			tmpl(false, f.name+" and "+g.name, f.set, g.set)
		}
	}
	for field := 0; field < 9; field++ {
		for i, q := range append(seqs(3, 2), []int{1, 2, 0, 1, 2, 0, 2, 2, 1}) {
			field, q := field, q
			tmpl(i == 2 || i == 6 || i == 11, fmt.Sprintf("list %d of %v", field, q), func(tp *x509.Certificate) { c20List(tp, field, q) })
		}
	}
	for field := 0; field < valueFields; field++ {
		for i := 0; i < nValues(field); i++ {
			for _, pair := range []int{-1, (i + 1) % nValues(field)} {
				field, i, pair := field, i, pair
				tmpl(i == 1 && pair >= 0, fmt.Sprintf("value %d of field %d, %d", i, field, pair), func(tp *x509.Certificate) { setValue(tp, field, i, pair) })
			}
		}
	}
	nets := []*net.IPNet{cidr("10.1.2.3/8"), cidr("10.1.2.3/31"), cidr("10.0.0.0/8"), cidr("2001:db8::ff/33"), cidr("::/0"), cidr("1.2.3.4/32"), {IP: net.IPv4(10, 1, 2, 3), Mask: net.CIDRMask(100, 128)}, {IP: net.IP{9, 8, 7, 6}, Mask: net.IPMask{255, 0, 255, 0}}}
	for i, n := range nets {
		n, m := n, nets[(i+1)%len(nets)]
		tmpl(i == 0 || i == 3, "permitted range "+n.String(), func(tp *x509.Certificate) { tp.PermittedIPRanges = []*net.IPNet{n, m} })
		tmpl(i == 1, "excluded range "+n.String(), func(tp *x509.Certificate) { tp.ExcludedIPRanges = []*net.IPNet{m, n, n} })
	}
	for i, s := range []string{"example", ".example", "A.Example", "a.b.c.example", "x.y@host.example", "", "."} {
		s := []string{s, "second.example"}
		tmpl(i == 1, "permitted names "+s[0], func(tp *x509.Certificate) {
			tp.PermittedDNSDomains, tp.PermittedEmailAddresses, tp.PermittedURIDomains = append([]string{}, s...), append([]string{}, s...), append([]string{}, s...)
		})
		tmpl(i == 2, "excluded names "+s[0], func(tp *x509.Certificate) {
			tp.PermittedDNSDomainsCritical = true
			tp.ExcludedDNSDomains, tp.ExcludedEmailAddresses, tp.ExcludedURIDomains = append([]string{}, s...), append([]string{}, s...), append([]string{}, s...)
		})
	}
	for i, v := range []*big.Int{bint(0), bint(1), bint(-1), bint(127), bint(128), bint(-128), bint(-129), bint(255), bint(-32768), pow2(64), neg(pow2(63)), pow2(159), neg(pow2(159)), sub(pow2(200), 77), neg(sub(pow2(200), 77)), nil} {
		v := v
		tmpl(i == 2 || i == 8 || i == 14, fmt.Sprintf("serial number %v", v), func(tp *x509.Certificate) { tp.SerialNumber = v })
	}
	zones := []*time.Location{time.UTC, time.FixedZone("east", 8*3600), time.FixedZone("odd", -3*3600-30*60), time.FixedZone("s", 17)}
	for i, y := range []int{1950, 1999, 2000, 2024, 2049, 2050, 2051, 9999, 1949, 10000} {
		for j, z := range zones {
			from, to := time.Date(y, 12, 31, 23, 59, 59, 999, z), time.Date(y, 1, 1, 0, 0, 0, 0, z)
			tmpl(i == 4 && j == 1, fmt.Sprintf("validity %v to %v", from, to), func(tp *x509.Certificate) { tp.NotBefore, tp.NotAfter = from, to })
		}
	}
	for i := 0; i < 32; i++ {
		i := i
		tmpl(i == 5 || i == 9, fmt.Sprintf("basic constraints %05b, key usage bits", i), func(tp *x509.Certificate) {
			tp.BasicConstraintsValid, tp.IsCA, tp.MaxPathLenZero = i&1 != 0, i&2 != 0, i&4 != 0
			tp.MaxPathLen = []int{-1, 0, 1, 200}[i>>3]
			tp.KeyUsage = x509.KeyUsage(1<<uint(i%10) | i)
		})
	}
	var usages []x509.ExtKeyUsage
	for i := -1; i < 15; i++ {
		u := x509.ExtKeyUsage(i)
		usages = append(usages, u)
		all := append([]x509.ExtKeyUsage{}, usages[1:]...)
		tmpl(i == 14, fmt.Sprintf("extended key usage %d", i), func(tp *x509.Certificate) { tp.ExtKeyUsage = []x509.ExtKeyUsage{u, 1} })
		tmpl(false, fmt.Sprintf("extended key usages up to %d", i), func(tp *x509.Certificate) { tp.ExtKeyUsage = all })
	}
	for i, o := range [][]int{{}, {1}, {3, 1}, {1, 40}, {2, 999}, {1, 2, -3}, {1, 2, 1 << 30}, {0, 0}} {
		o := stdasn1.ObjectIdentifier(o)
		tmpl(i == 1, fmt.Sprintf("policy %v", o), func(tp *x509.Certificate) { tp.PolicyIdentifiers = []stdasn1.ObjectIdentifier{{1, 2}, o} })
		tmpl(false, fmt.Sprintf("usage %v", o), func(tp *x509.Certificate) { tp.UnknownExtKeyUsage = []stdasn1.ObjectIdentifier{o, {1, 2}} })
		tmpl(false, fmt.Sprintf("extension %v", o), func(tp *x509.Certificate) { tp.ExtraExtensions = []pkix.Extension{{Id: o, Value: []byte{5, 0}}} })
	}
	for i, s := range c18Subjects {
		s := s
		tmpl(i == 1, "subject "+s.name, func(tp *x509.Certificate) { tp.Subject, tp.RawSubject = s.subject, s.raw })
		issue(i == 2, "issuer "+s.name, c20Base(), &x509.Certificate{Subject: s.subject, RawSubject: s.raw})
	}
	full := c20Base()
	for _, f := range c20Fields {
		f.set(full)
	}
	issue(true, "everything", full, c20Parent())
	issue(true, "itself as the parent", full, full)

	// requests
	request := func(rep bool, name string, tp *x509.CertificateRequest) {
		l = append(l, document{name: "request with " + name, kind: "csr", rep: rep, args: []interface{}{tp, rpub, pri, []byte("user id")}, run: func(a []interface{}) (r []interface{}) {
			withRand(newPrng(7), func() {
				der, err := cert.CreateCertificateRequest(a[0].(*x509.CertificateRequest), a[1].(*sm2.PublicKey), a[2].(*sm2.PrivateKey), a[3].([]byte))
				r = []interface{}{der, err}
			})
			return
		}})
	}
	_ = pub
	radix := []int{len(c18Subjects), len(c18DNS), len(c18Mail), len(c18IP), 3, len(c18Extras), c18NAttrs}
	for dim, n := range radix {
		for i := 0; i < n; i++ {
			for base := 0; base < 2; base++ {
				d := []int{1, base, base, base, base, base, base}
				d[dim] = i
				request(dim >= 3 && base == 1, c18Desc(d), c18Template(d[0], d[1], d[2], d[3], d[4], d[5], d[6]))
			}
		}
	}
	for _, q := range seqs(9, 2) {
		request(len(q) == 1, fmt.Sprint("attributes ", q), &x509.CertificateRequest{DNSNames: []string{"a.example"}, Attributes: attrProgram(q), ExtraExtensions: spareExts(c18Extras[2])})
	}
	for field := 0; field < valueFields; field++ {
		for i := 0; i < nValues(field); i += 3 {
			var c x509.Certificate
			setValue(&c, field, i, (i+2)%nValues(field))
			request(false, fmt.Sprintf("value %d of field %d", i, field), &x509.CertificateRequest{Subject: c.Subject, DNSNames: c.DNSNames, EmailAddresses: c.EmailAddresses, IPAddresses: c.IPAddresses, URIs: c.URIs})
		}
	}

	// parsing
	k := &keyPair{pt: rp, c: ref.SM2}
	parse := func(rep bool, name string, der []byte) {
		l = append(l, document{name: "parsing " + name, kind: "parse", rep: rep, args: []interface{}{der}, run: func(a []interface{}) []interface{} {
			c, err := cert.ParseCertificate(a[0].([]byte))
			return []interface{}{c, err}
		}})
	}
	doc := func(rep bool, forms ...extForm) {
		d := baseDoc(k)
		name := "a certificate with"
		for i, f := range forms {
			d.exts = append(d.exts, f)
			d.crit = append(d.crit, i&1 == 0)
			name += " " + f.name
		}
		der, _ := d.der()
		parse(rep, name, der)
	}
	doc(true)
	for _, q := range seqs(len(generalNames), 1) {
		doc(len(q) == 1 && q[0] < 5, sanForm(q))
		doc(false, sanForm(append(q, 0, 4, 2, 0)))
	}
	for i := range crlPoints {
		doc(i == 4, crlForm([]int{i}))
		doc(false, crlForm([]int{i, 3, i}))
	}
	for i := 0; i < len(aiaMethods)*4; i++ {
		doc(i == 4, aiaForm([]int{i, 0}))
	}
	for _, q := range seqs(5, 2) {
		doc(len(q) == 2 && q[0] == 1 && q[1] == 2, polForm(q))
	}
	for i := 0; i < len(ekuTable)+len(ekuUnknown); i++ {
		doc(i == 3, ekuForm([]int{i, 15, 2, i}))
	}
	for i := 0; i < 9; i++ {
		b := []byte{0, 0}
		b[i/8] |= 0x80 >> uint(i%8)
		doc(i == 3, kuForm(b, 7))
	}
	for _, f := range []extForm{bcForm(true, 0), bcForm(false, -1), bcForm(true, 5), skiForm(pat(0, 20)), skiForm([]byte{}), akiForm([]byte{9, 8}, true), akiForm(nil, true), ncForm(false), ncForm(true)} {
		doc(true, f)
	}
	doc(true, kuForm([]byte{0x86}, 1), bcForm(true, 0), skiForm(pat(0, 20)), akiForm([]byte{9, 8}, true), sanForm([]int{0, 5, 2, 3, 4}), ncForm(false), crlForm([]int{2, 16, 1}), polForm([]int{1, 0}), ekuForm([]int{1, 16, 2}), aiaForm([]int{4, 0, 2, 9}), unknownForm([]int{1, 2, 3}, pat(1, 200)))
	for i, v := range []*big.Int{bint(0), bint(-1), bint(-128), bint(-32768), neg(pow2(63)), neg(pow2(64)), neg(sub(pow2(159), 5)), sub(pow2(159), 3), bint(128), pow2(64)} {
		d := baseDoc(k)
		d.serial = v
		d.uid = i % 4
		der, _ := d.der()
		parse(i == 1 || i == 6, fmt.Sprintf("a certificate with the serial number %v", v), der)
		parse(false, "a truncated certificate", der[:len(der)-1-i])
	}
	for i, s := range c18Subjects {
		d := baseDoc(k)
		d.subject, d.issuer = s.der(), c18Subjects[(i+1)%len(c18Subjects)].der()
		d.version = int64(i % 3)
		der, _ := d.der()
		parse(i == 2, "a certificate with the subject "+s.name, der)
	}
	fill := func(rep bool, name string, der []byte) {
		l = append(l, document{name: "reading a request with " + name, kind: "fill", rep: rep, args: []interface{}{der}, run: func(a []interface{}) []interface{} {
			r, err := cert.ParseCertificateRequest(a[0].([]byte))
			if err != nil {
				return []interface{}{r, err}
			}
			var c x509.Certificate
			cert.FillCertificateTemplateByCSR(&c, r)
			ok := cert.VerifyCSRSign(r, []byte("user id"))
			return []interface{}{r, c, ok}
		}})
	}
	extReq := func(exts ...[]byte) []byte { return ref.Attr(ref.OIDExtReq, ref.TLV(0x30, exts...)) }
	strs := ref.Attr(oidChal, ref.TLV(0x13, []byte("secret")))
	list := ref.Attr([]int{1, 2, 9}, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 1), ref.TLV(0x13, []byte("x"))), ref.TLV(0x30, ref.OID(1, 2, 2), ref.TLV(2, []byte{5}))))
	var attrs [][]byte
	for _, q := range seqs(len(generalNames), 1) {
		attrs = append(attrs, extReq(ref.Ext(oidSAN, len(q) == 1, sanForm(append(q, 1, 3, 0)).value), ref.Ext(oidPriv2, true, []byte{4, 1, 2})))
	}
	attrs = append(attrs, strs, list, extReq(), extReq(ref.Ext(oidKU, true, []byte{3, 2, 1, 6})), ref.TLV(0x30, ref.OID(1, 2, 8), ref.TLV(0x31)))
	for i, a := range attrs {
		for j, b := range [][]byte{nil, strs, list} {
			p := [][]byte{a}
			if b != nil {
				p = append(p, b)
			}
			info := ref.CSRInfo(0, c18Subjects[i%len(c18Subjects)].der(), ref.SPKI(rp), p...)
			fill(j == 0 || i == 2, fmt.Sprintf("attributes %d, %d", i, j), ref.Signed(info, ref.AlgSM3SM2(), fakeSig))
		}
	}
	theDocuments = l
	return l
}

// use runs a document on its arguments.
func (d *document) use(args []interface{}) (text string, res []interface{}) {
	p, _ := eng.Catch(func() { res = d.run(args) })
	if p != nil {
		return fmt.Sprintf("panic: %v", p), nil
	}
	return valueText(res), res
}

func documentSub(i string) {
	k, _ := strconv.Atoi(i)
	d := &documents()[k]
	s, _ := d.use(clone(d.args).([]interface{}))
	json.NewEncoder(os.Stdout).Encode(s)
}

var freshDocuments = map[int]string{}

// freshDocument is what a document gives as the first thing a process does.
func freshDocument(i int) (s string) {
	if s, ok := freshDocuments[i]; ok {
		return s
	}
	out, err := eng.Sub("C16", "document", strconv.Itoa(i))
	if err != nil {
		s = "the process failed: " + err.Error()
	} else if err := json.Unmarshal([]byte(out), &s); err != nil {
		s = "the process answered " + out
	}
	freshDocuments[i] = s
	return
}

func c16documents(tier string) []eng.Space {
	docs := documents()
	var reps []int
	for i, d := range docs {
		if d.rep || thorough(tier) && i%3 == 0 {
			reps = append(reps, i)
		}
	}
	r := len(reps)
	return []eng.Space{
		{Name: "documents", N: len(docs), Doc: "certificates to issue, requests to make, certificates and requests to parse, with one or two of the many things they can hold: the arguments stay as they are, the result is that of a fresh process, and is so again, also after the arguments and results of an earlier call have been overwritten", Run: func(t *eng.T, i int) {
			d := &docs[i]
			t.Descf("%s", d.name)
			want := freshDocument(i)
			args := clone(d.args).([]interface{})
			before := memoryText(args)
			for k := 0; k < 2; k++ {
				got, _ := d.use(args)
				if got != want {
					t.Failf("%s, call %d, gives something else than as the first call of a process: %s", d.name, k+1, textDiff(want, got))
				}
				if now := memoryText(args); now != before {
					t.Failf("%s modified its arguments: %s", d.name, textDiff(before, now))
				}
			}
			if got, _ := d.use(clone(args).([]interface{})); got != want {
				t.Failf("%s, with other objects, gives %s", d.name, textDiff(want, got))
			}
			first, res := d.use(args)
			_, kept := d.use(clone(d.args).([]interface{}))
			scribble(reflect.ValueOf(res), false)
			scribble(reflect.ValueOf(args), false)
			if now := valueText(kept); now != first {
				t.Failf("%s: overwriting the result and the arguments of one call changes the result of another: %s", d.name, textDiff(first, now))
			}
			if got, _ := d.use(clone(d.args).([]interface{})); got != want {
				t.Failf("%s, after the arguments and results of another call were overwritten, gives %s", d.name, textDiff(want, got))
			}
			t.Ops(5)
			t.Obs(i, want)
		}},
		{Name: "two documents", N: r * r, Doc: "every ordered pair of representative documents, on separate arguments (of which the first are overwritten in between) and on the very same ones whose contents are replaced: the second is that of a fresh process", Run: func(t *eng.T, i int) {
			m := mix(i, r, r)
			x, y := reps[m[0]], reps[m[1]]
			a, b := &docs[x], &docs[y]
			t.Descf("%s, then %s", a.name, b.name)
			args := clone(a.args).([]interface{})
			if got, _ := a.use(args); got != freshDocument(x) {
				t.Failf("%s gives %s", a.name, textDiff(freshDocument(x), got))
			}
			other := clone(b.args).([]interface{})
			got, res := b.use(other)
			if got != freshDocument(y) {
				t.Failf("%s after %s gives %s", b.name, a.name, textDiff(freshDocument(y), got))
			}
			if again, _ := a.use(args); again != freshDocument(x) {
				t.Failf("%s again, after %s, gives %s", a.name, b.name, textDiff(freshDocument(x), again))
			}
			t.Ops(3)
			if a.kind == b.kind {
				scribble(reflect.ValueOf(res), false)
				fresh := clone(b.args).([]interface{})
				for j := range args {
					assign(reflect.ValueOf(&args[j]).Elem(), reflect.ValueOf(&fresh[j]).Elem())
				}
				if got, _ := b.use(args); got != freshDocument(y) {
					t.Failf("%s with the objects given to %s, whose contents were replaced, gives %s", b.name, a.name, textDiff(freshDocument(y), got))
				}
				t.Ops(1)
			}
			t.Obs(x, y)
		}},
	}
}

// ---- writing ----

// a writing appends one element to a builder.
type writing struct {
	name string
	args []interface{}
	f    func(b *cryptobyte.Builder, a []interface{})
}

func writings() (l []writing) {
	add := func(name string, f func(b *cryptobyte.Builder, a []interface{}), args ...interface{}) {
		l = append(l, writing{name, args, f})
	}
	octets := [][]byte{{}, {0}, {0x80}, pat(3, 5), pat(3, 15), pat(3, 16), pat(3, 17), pat(3, 31), pat(3, 32), pat(3, 33), pat(3, 64), pat(3, 127), pat(3, 128), pat(3, 255), pat(3, 256), pat(3, 1000)}
	for _, o := range octets {
		add(fmt.Sprintf("AddBytes of %d", len(o)), func(b *cryptobyte.Builder, a []interface{}) { b.AddBytes(a[0].([]byte)) }, o)
		add(fmt.Sprintf("AddASN1OctetString of %d", len(o)), func(b *cryptobyte.Builder, a []interface{}) { b.AddASN1OctetString(a[0].([]byte)) }, o)
		add(fmt.Sprintf("AddASN1BitString of %d", len(o)), func(b *cryptobyte.Builder, a []interface{}) { b.AddASN1BitString(a[0].([]byte)) }, o)
		add(fmt.Sprintf("MarshalASN1 of %d octets", len(o)), func(b *cryptobyte.Builder, a []interface{}) { b.MarshalASN1(a[0].([]byte)) }, o)
		add(fmt.Sprintf("AddUint32LengthPrefixed of %d", len(o)), func(b *cryptobyte.Builder, a []interface{}) {
			b.AddUint32LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(a[0].([]byte)) })
		}, o)
		add(fmt.Sprintf("AddValue of %d", len(o)), func(b *cryptobyte.Builder, a []interface{}) { b.AddValue(cbValue{a[0].([]byte)}) }, o)
	}
	for _, k := range []uint{0, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 519, 520, 1023, 1024} {
		for _, v := range []*big.Int{pow2(k), sub(pow2(k), 1), sub(pow2(k), 77)} {
			for _, v := range []*big.Int{v, new(big.Int).Neg(v)} {
				add(fmt.Sprintf("AddASN1BigInt of %v", v), func(b *cryptobyte.Builder, a []interface{}) { b.AddASN1BigInt(a[0].(*big.Int)) }, v)
				add(fmt.Sprintf("MarshalASN1 of %v", v), func(b *cryptobyte.Builder, a []interface{}) { b.MarshalASN1(a[0]) }, v)
			}
		}
	}
	for _, o := range [][]int{{1, 2}, {0, 39}, {2, 999}, {2, 999, 3}, {1, 2, 840, 113549, 1, 9, 14}, {2, 40, 127, 128, 16383, 16384, 1 << 21, 1<<31 - 1}, {2, 47, 0}, {2, 48}, {}, {1}, {3, 1}, {1, 40}, {1, 2, -1}} {
		add(fmt.Sprintf("AddASN1ObjectIdentifier of %v", o), func(b *cryptobyte.Builder, a []interface{}) {
			b.AddASN1ObjectIdentifier(a[0].(stdasn1.ObjectIdentifier))
		}, stdasn1.ObjectIdentifier(o))
		add(fmt.Sprintf("MarshalASN1 of %v", o), func(b *cryptobyte.Builder, a []interface{}) { b.MarshalASN1(a[0]) }, stdasn1.ObjectIdentifier(o))
	}
	for _, v := range []interface{}{pkix.AlgorithmIdentifier{Algorithm: stdasn1.ObjectIdentifier{1, 2, 3}, Parameters: stdasn1.RawValue{FullBytes: []byte{5, 0}}},
		pkix.Extension{Id: stdasn1.ObjectIdentifier{1, 2, 3}, Value: pat(3, 5)}, []string{"a", "b"}, stdasn1.BitString{Bytes: []byte{1, 0x80}, BitLength: 9}, []int{3, 1, 2}} {
		add(fmt.Sprintf("MarshalASN1 of a %T", v), func(b *cryptobyte.Builder, a []interface{}) { b.MarshalASN1(a[0]) }, v)
	}
	return
}

func c16writing(tier string) []eng.Space {
	ws := writings()
	n := len(ws)
	places := []struct {
		name string
		f    func(w *writing, a []interface{}) (b *cryptobyte.Builder, done func())
	}{
		{"an empty builder", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := new(cryptobyte.Builder)
			w.f(b, a)
			return b, nil
		}},
		{"a builder with an empty buffer", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := cryptobyte.NewBuilder([]byte{})
			w.f(b, a)
			return b, nil
		}},
		{"a builder with a buffer", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := cryptobyte.NewBuilder(append(make([]byte, 0, 70), 7))
			w.f(b, a)
			return b, nil
		}},
		{"a fixed buffer", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := cryptobyte.NewFixedBuilder(make([]byte, 0, 1200))
			w.f(b, a)
			return b, nil
		}},
		{"a builder between others", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := new(cryptobyte.Builder)
			b.AddUint16(0x1234)
			w.f(b, a)
			b.AddUint8(9)
			w.f(b, a)
			return b, nil
		}},
		{"a sequence", func(w *writing, a []interface{}) (*cryptobyte.Builder, func()) {
			b := new(cryptobyte.Builder)
			b.AddASN1(cbasn1.SEQUENCE, func(c *cryptobyte.Builder) { w.f(c, a) })
			return b, nil
		}},
	}
	np := len(places)
	return []eng.Space{{Name: "writing leaves its arguments", N: n * np, Doc: "every way to append to a builder, with boundary values, in an empty builder, one with a buffer, a fixed one, between others and inside: the arguments stay as they are, and the bytes stay when the arguments, and copies of the bytes, are overwritten afterwards", Run: func(t *eng.T, i int) {
		m := mix(i, n, np)
		w, pl := &ws[m[0]], places[m[1]]
		t.Descf("%s in %s", w.name, pl.name)
		a := clone(w.args).([]interface{})
		before := memoryText(a)
		b, _ := pl.f(w, a)
		if now := memoryText(a); now != before {
			t.Failf("%s in %s modified its arguments: %s", w.name, pl.name, textDiff(before, now))
		}
		out, err := b.Bytes()
		one := valueText([]interface{}{out, err})
		scribble(reflect.ValueOf(a), false)
		out, err = b.Bytes()
		if now := valueText([]interface{}{out, err}); now != one {
			t.Failf("%s in %s: overwriting the arguments afterwards changes what was built: %s", w.name, pl.name, textDiff(one, now))
		}
		// another builder, with the same values
		a2 := clone(w.args).([]interface{})
		b2, _ := pl.f(w, a2)
		before = memoryText(a2)
		out2, err2 := b2.Bytes()
		if now := valueText([]interface{}{out2, err2}); now != one {
			t.Failf("%s in %s, a second time, gives %s", w.name, pl.name, textDiff(one, now))
		}
		scribble(reflect.ValueOf(out2), false)
		if now := memoryText(a2); now != before {
			t.Failf("%s in %s: overwriting what was built changes the arguments: %s", w.name, pl.name, textDiff(before, now))
		}
		out, err = b.Bytes()
		if now := valueText([]interface{}{out, err}); now != one {
			t.Failf("%s in %s: overwriting what another builder built changes this one: %s", w.name, pl.name, textDiff(one, now))
		}
		t.Ops(4)
		t.Obs(m[0], m[1], one)
	}}}
}

// ---- reading into what earlier reads gave ----

func c16rereading(tier string) []eng.Space {
	oids := [][]int{{1, 2}, {2, 999}, {1, 2, 3}, {2, 5, 29, 17}, {0, 9, 2342, 19200300}, {1, 2, 840, 113549, 1}, {1, 2, 840, 113549, 1, 9, 14}, {2, 5}, {1, 3, 6, 1, 5, 5, 7, 3, 1}}
	octets := [][]byte{{}, {1}, {2, 3}, {0x80, 0, 0}, pat(3, 16), pat(3, 33), pat(0, 16)}
	maxSeq := pick(tier, 3, 4)
	oidSeqs, octSeqs := seqs(len(oids), maxSeq), seqs(len(octets), maxSeq)
	return []eng.Space{
		{Name: "identifiers read one after the other", N: len(oidSeqs), Doc: "all lists of up to three (four) identifiers of different lengths, read into one variable: what the caller kept from earlier reads stays", Run: func(t *eng.T, i int) {
			q := oidSeqs[i]
			var in []byte
			for _, k := range q {
				in = append(in, ref.OID(oids[k]...)...)
			}
			t.Descf("identifiers %v", q)
			for variant := 0; variant < 3; variant++ {
				s := cryptobyte.String(lift(in))
				var v stdasn1.ObjectIdentifier
				if variant == 1 {
					v = make(stdasn1.ObjectIdentifier, 2, 30)
				}
				kept := []stdasn1.ObjectIdentifier{v}
				want := []stdasn1.ObjectIdentifier{cpOID(v)}
				for _, k := range q {
					if !s.ReadASN1ObjectIdentifier(&v) {
						t.Failf("%v is not read", oids[k])
					}
					kept = append(kept, v)
					want = append(want, cpOID(oids[k]))
					if variant == 2 { // the next one is read where a part of this one is
						v = v[:1]
					}
				}
				for j := range kept {
					t.Check(kept[j].Equal(want[j]), "identifier %d of %v is now %v, was %v", j, q, kept[j], want[j])
				}
				t.Ops(len(q))
			}
			t.Obs(fmt.Sprint(q))
		}},
		{Name: "octets read one after the other", N: len(octSeqs), Doc: "all lists of up to three (four) octet strings, bit strings and elements read into one variable: what the caller kept from earlier reads, and the input, stays", Run: func(t *eng.T, i int) {
			q := octSeqs[i]
			t.Descf("octets %v", q)
			kinds := []struct {
				name string
				enc  func(o []byte) []byte
				read func(s *cryptobyte.String, v *[]byte) bool
			}{
				{"ReadASN1Bytes", func(o []byte) []byte { return ref.TLV(4, o) }, func(s *cryptobyte.String, v *[]byte) bool { return s.ReadASN1Bytes(v, cbasn1.OCTET_STRING) }},
				{"ReadASN1BitStringAsBytes", func(o []byte) []byte { return ref.BitString(o) }, func(s *cryptobyte.String, v *[]byte) bool { return s.ReadASN1BitStringAsBytes(v) }},
				{"ReadASN1", func(o []byte) []byte { return ref.TLV(0x30, o) }, func(s *cryptobyte.String, v *[]byte) bool {
					return s.ReadASN1((*cryptobyte.String)(v), cbasn1.SEQUENCE)
				}},
				{"ReadOptionalASN1OctetString", func(o []byte) []byte { return ref.TLV(0xa0, ref.TLV(4, o)) }, func(s *cryptobyte.String, v *[]byte) bool {
					var p bool
					return s.ReadOptionalASN1OctetString(v, &p, cbasn1.Tag(0).Constructed().ContextSpecific()) && p
				}},
				{"ReadUint16LengthPrefixed", func(o []byte) []byte { return append([]byte{0, byte(len(o))}, o...) }, func(s *cryptobyte.String, v *[]byte) bool {
					return s.ReadUint16LengthPrefixed((*cryptobyte.String)(v))
				}},
				{"ReadBytes", func(o []byte) []byte { return append([]byte{byte(len(o))}, o...) }, func(s *cryptobyte.String, v *[]byte) bool {
					var n uint8
					return s.ReadUint8(&n) && s.ReadBytes(v, int(n))
				}},
			}
			for _, k := range kinds {
				var in []byte
				for _, o := range q {
					in = append(in, k.enc(octets[o])...)
				}
				input := lift(in)
				before := memoryText(input)
				own := lift(pat(0, 40))
				keepOwn := memoryText(own)
				s := cryptobyte.String(input)
				v := own
				var kept [][]byte
				for _, o := range q {
					if !k.read(&s, &v) {
						t.Failf("%s does not read %x", k.name, octets[o])
					}
					kept = append(kept, v)
				}
				for j, o := range q {
					wantBytes(t, fmt.Sprintf("%s, kept value %d", k.name, j), kept[j], octets[o])
				}
				t.Check(memoryText(input) == before, "%s changed its input", k.name)
				t.Check(memoryText(own) == keepOwn, "%s wrote into the memory the variable held before", k.name)
				t.Ops(len(q))
			}
			t.Obs(fmt.Sprint(q))
		}},
	}
}

func neg(v *big.Int) *big.Int { return new(big.Int).Neg(v) }
