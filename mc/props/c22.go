package props

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"net"
	"net/url"
	"reflect"
	"strings"

	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C22", Init: selfTest, Spaces: c22,
		Assumptions: []string{
			"all strings up to the stated lengths over the stated alphabets, which hold a representative of every character class of the grammar and every separator; every byte value at the critical places",
			"net.ParseIP defines an IP literal and net/url the syntax of a URI; a mailbox with nothing after the @ is not judged; the minimum and maximum of a subtree are taken to change nothing, as it is now"}})
}

// ---- an own grammar ----

// labels tells whether s is a domain of nonempty labels of visible ASCII characters. The empty domain is one.
func refDomain(s string) bool {
	if s == "" {
		return true
	}
	for _, l := range strings.Split(s, ".") {
		if l == "" {
			return false
		}
		for i := 0; i < len(l); i++ {
			if l[i] <= ' ' || l[i] >= 0x7f {
				return false
			}
		}
	}
	return true
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func refDNSConstraint(s string) bool { return ascii(s) && refDomain(strings.TrimPrefix(s, ".")) }

func refURIConstraint(s string) bool { return refDNSConstraint(s) && net.ParseIP(s) == nil }

const atext = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-/=?^_`{|}~"

// refLocals returns the lengths of the prefixes of s that are a local part.
func refLocal(s string) (n int, ok bool) {
	if strings.HasPrefix(s, "\"") {
		for i := 1; i < len(s); i++ {
			switch c := s[i]; {
			case c == '"':
				return i + 1, true
			case c == '\\':
				i++
				if i == len(s) || s[i] == 0 || s[i] == '\n' || s[i] == '\r' || s[i] > 127 {
					return 0, false
				}
			case c == 0 || c == '\t' || c == '\n' || c == '\r' || c > 127:
				return 0, false
			}
		}
		return 0, false
	}
	dotBefore := true // a dot may not come first
	i := 0
	for i < len(s) {
		c, w := s[i], 1
		if c == '\\' {
			if i+1 == len(s) {
				return 0, false
			}
			c, w = s[i+1], 2
		} else if c != '.' && !strings.ContainsRune(atext, rune(c)) {
			break
		}
		if c == '.' {
			if dotBefore {
				return 0, false
			}
			dotBefore = true
		} else {
			dotBefore = false
		}
		i += w
	}
	return i, !dotBefore
}

func refEmailConstraint(s string) (ok, judged bool) {
	if !ascii(s) {
		return false, true
	}
	if !strings.Contains(s, "@") {
		return refDNSConstraint(s), true
	}
	n, ok := refLocal(s)
	if !ok || n == len(s) || s[n] != '@' {
		return false, true
	}
	if s[n+1:] == "" {
		return false, false
	}
	return refDomain(s[n+1:]), true
}

func refMask(m []byte) bool {
	bits := ""
	for _, b := range m {
		bits += fmt.Sprintf("%08b", b)
	}
	return !strings.Contains(bits, "01")
}

// refURI: the entry of a SAN, as parsed, or nil.
func refURI(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil || !ascii(u.Host) || !refDomain(u.Host) {
		return nil
	}
	return u
}

// ---- documents around one extension ----

var c22Parts struct {
	spki, subj, tm []byte
}

func c22Body(exts ...[]byte) []byte {
	p := &c22Parts
	if p.spki == nil {
		p.spki = ref.SPKI(realPairCached(realScalars()[40]).pt)
		p.subj = ref.TLV(0x30, rdn([]int{2, 5, 4, 3}, 0x13, "s"))
		p.tm = ref.X509Time(ref.Civil{Y: 2020, Mo: 1, D: 2})
	}
	return ref.TBSCert(bint(9), ref.AlgSM3SM2(), p.subj, p.tm, p.tm, p.subj, p.spki, exts...)
}

var fakeSig = ref.EncodeSig(bint(7), bint(8))

func certWith(exts ...[]byte) []byte {
	return ref.Signed(c22Body(exts...), ref.AlgSM3SM2(), fakeSig)
}

func csrWith(exts ...[]byte) []byte {
	c22Body()
	return ref.Signed(ref.CSRInfo(0, c22Parts.subj, c22Parts.spki, ref.Attr(ref.OIDExtReq, ref.TLV(0x30, exts...))), ref.AlgSM3SM2(), fakeSig)
}

func parseCert(t *eng.T, der []byte) (*x509.Certificate, error) {
	p, err := cert.ParseCertificate(der)
	t.Ops(1)
	t.Check((p == nil) == (err != nil), "ParseCertificate gives %v, %v", p != nil, err)
	return p, err
}

type constraint struct {
	tag byte
	val []byte
}

// subtreeBounds are the minimum and maximum of every subtree, as encoded.
var subtreeBounds []byte

func subtrees(l []constraint) (out []byte) {
	for _, c := range l {
		out = append(out, ref.TLV(0x30, ref.TLV(c.tag, c.val), subtreeBounds)...)
	}
	return
}

func ncValue(permitted, excluded []constraint) []byte {
	var p [][]byte
	if len(permitted) > 0 {
		p = append(p, ref.TLV(0xa0, subtrees(permitted)))
	}
	if len(excluded) > 0 {
		p = append(p, ref.TLV(0xa1, subtrees(excluded)))
	}
	return ref.TLV(0x30, p...)
}

func constraintOK(c constraint) (ok, judged bool) {
	switch c.tag {
	case 0x82:
		return refDNSConstraint(string(c.val)), true
	case 0x81:
		return refEmailConstraint(string(c.val))
	case 0x86:
		return refURIConstraint(string(c.val)), true
	case 0x87:
		return (len(c.val) == 8 || len(c.val) == 32) && refMask(c.val[len(c.val)/2:]), true
	}
	return true, true
}

// checkConstraints parses a certificate with these name constraints and compares.
func checkConstraints(t *eng.T, permitted, excluded []constraint, crit bool) {
	want := true
	for _, l := range [][]constraint{permitted, excluded} {
		for _, c := range l {
			ok, judged := constraintOK(c)
			if !judged {
				return
			}
			want = want && ok
		}
	}
	want = want && len(permitted)+len(excluded) > 0
	der := certWith(ref.Ext(oidNC, crit, ncValue(permitted, excluded)))
	p, err := parseCert(t, der)
	if (err == nil) != want {
		t.Failf("permitted %q excluded %q: parsed=%v (%v), well-formed=%v", permitted, excluded, err == nil, err, want)
	}
	t.Obs(want, ncValue(permitted, excluded), crit)
	if err != nil {
		return
	}
	unhandled := false
	side := func(name string, l []constraint, dns, mail, uris []string, ips []*net.IPNet) {
		var d, m, u []string
		var n []constraint
		for _, c := range l {
			switch c.tag {
			case 0x82:
				d = append(d, string(c.val))
			case 0x81:
				m = append(m, string(c.val))
			case 0x86:
				u = append(u, string(c.val))
			case 0x87:
				n = append(n, c)
			default:
				unhandled = true
			}
		}
		sameStr(t, name+" DNS", dns, d)
		sameStr(t, name+" e-mail", mail, m)
		sameStr(t, name+" URI", uris, u)
		ok := len(ips) == len(n)
		for i := 0; ok && i < len(n); i++ {
			h := len(n[i].val) / 2
			ok = ips[i] != nil && bytes.Equal(ips[i].IP, n[i].val[:h]) && bytes.Equal(ips[i].Mask, n[i].val[h:])
		}
		t.Check(ok, "%s IP ranges are %v, want %v", name, ips, n)
	}
	side("permitted", permitted, p.PermittedDNSDomains, p.PermittedEmailAddresses, p.PermittedURIDomains, p.PermittedIPRanges)
	side("excluded", excluded, p.ExcludedDNSDomains, p.ExcludedEmailAddresses, p.ExcludedURIDomains, p.ExcludedIPRanges)
	t.Check(p.PermittedDNSDomainsCritical == crit, "PermittedDNSDomainsCritical is %v", p.PermittedDNSDomainsCritical)
	t.Check((len(p.UnhandledCriticalExtensions) > 0) == (crit && unhandled), "unhandled critical extensions %v", p.UnhandledCriticalExtensions)
	if len(p.Extensions) != 1 || p.Extensions[0].Critical != crit || !p.Extensions[0].Id.Equal(oidNC) {
		t.Failf("extensions %v", p.Extensions)
	}
}

// oneConstraint checks one value on both sides.
func oneConstraint(t *eng.T, tag byte, s string, side int) {
	c := []constraint{{tag, []byte(s)}}
	if side == 0 {
		checkConstraints(t, c, nil, true)
	} else {
		checkConstraints(t, nil, c, false)
	}
}

// stringSpace runs f on all strings of length n over the alphabet that start with the i-th prefix.
func stringSpace(alpha string, max, pre int) (n int, run func(i int, f func(s string))) {
	A := len(alpha)
	// cases: one per prefix of length pre, plus one for all shorter strings
	n = pow(A, pre) + 1
	return n, func(i int, f func(s string)) {
		var rec func(s []byte, left int)
		rec = func(s []byte, left int) {
			f(string(s))
			if left == 0 {
				return
			}
			for k := 0; k < A; k++ {
				rec(append(s[:len(s):len(s)], alpha[k]), left-1)
			}
		}
		if i == n-1 {
			rec(nil, pre-1)
			return
		}
		s := make([]byte, pre)
		for k := pre - 1; k >= 0; k-- {
			s[k] = alpha[i%A]
			i /= A
		}
		rec(s, max-pre)
	}
}

func checkSANs(t *eng.T, entries []constraint, crit bool) {
	want := true
	var uris []*url.URL
	var dns, mail []string
	var ips [][]byte
	var v [][]byte
	for _, e := range entries {
		v = append(v, ref.TLV(e.tag, e.val))
		switch e.tag {
		case 0x81:
			mail = append(mail, string(e.val))
		case 0x82:
			dns = append(dns, string(e.val))
		case 0x86:
			u := refURI(string(e.val))
			want = want && u != nil
			uris = append(uris, u)
		case 0x87:
			want = want && (len(e.val) == 4 || len(e.val) == 16)
			ips = append(ips, e.val)
		}
	}
	ext := ref.Ext(oidSAN, crit, ref.TLV(0x30, v...))
	compare := func(what string, gd, gm []string, gi []net.IP, gu []*url.URL) {
		sameStr(t, what+": DNS names", gd, dns)
		sameStr(t, what+": e-mail addresses", gm, mail)
		t.Check(len(gu) == len(uris), "%s: URIs %v, want %v", what, gu, uris)
		for i := range gu {
			t.Check(reflect.DeepEqual(gu[i], uris[i]), "%s: URIs %v, want %v", what, gu, uris)
		}
		ok := len(gi) == len(ips)
		for i := 0; ok && i < len(ips); i++ {
			ok = bytes.Equal(gi[i], ips[i])
		}
		t.Check(ok, "%s: IP addresses %v, want %x", what, gi, ips)
	}
	p, err := parseCert(t, certWith(ext))
	if (err == nil) != want {
		t.Failf("SAN %q in a certificate: parsed=%v (%v), well-formed=%v", entries, err == nil, err, want)
	}
	if err == nil {
		compare("certificate", p.DNSNames, p.EmailAddresses, p.IPAddresses, p.URIs)
		none := len(dns)+len(mail)+len(ips)+len(uris) == 0
		t.Check((len(p.UnhandledCriticalExtensions) > 0) == (crit && none), "unhandled critical extensions %v", p.UnhandledCriticalExtensions)
	}
	r, err := cert.ParseCertificateRequest(csrWith(ext))
	t.Ops(1)
	if (err == nil) != want {
		t.Failf("SAN %q in a request: parsed=%v (%v), well-formed=%v", entries, err == nil, err, want)
	}
	if err == nil {
		compare("request", r.DNSNames, r.EmailAddresses, r.IPAddresses, r.URIs)
	}
	t.Obs(want, len(dns), len(mail), len(ips), len(uris))
}

func c22(tier string) []eng.Space {
	var out []eng.Space
	strs := func(name string, tag byte, alpha string, max int, wrap ...string) {
		if len(wrap) == 0 {
			wrap = []string{"%s"}
		}
		n, run := stringSpace(alpha, max, 2)
		out = append(out, eng.Space{Name: name, N: n, Doc: fmt.Sprintf("all strings up to length %d over %q in %q", max, alpha, wrap), Run: func(t *eng.T, i int) {
			c := 0
			run(i, func(s string) {
				for _, w := range wrap {
					c++
					x := fmt.Sprintf(w, s)
					t.Descf("constraint %02x %q", tag, x)
					oneConstraint(t, tag, x, c%2)
					t.Eval(1)
				}
			})
		}})
	}
	q := func(a, b int) int { return pick(tier, a, b) }
	strs("dns", 0x82, "a.-@ \x7f\x80~", q(6, 7))
	strs("uri", 0x86, "a.1:[]f \x80", q(6, 7))
	strs("uri-ip", 0x86, "0.1:2", q(8, 9))
	strs("mail", 0x81, "a.@\"\\ \r\x7f\x80(", q(6, 7))
	strs("mail-local", 0x81, "a.\"\\@ ", q(6, 8), "%s@b", "a%s@b", "\"%s\"@b", "\"%s@b")
	strs("mail-domain", 0x81, "a.@ ~\x7f\"", q(5, 7), "a@%s", "\"a\"@%s", "a\\@@%s")
	out = append(out,
		eng.Space{Name: "every-byte", N: 256, Doc: "every byte, and every pair of bytes in e-mail local parts, in many places of each kind of constraint",
			Run: func(t *eng.T, v int) {
				b := string([]byte{byte(v)})
				places := []struct {
					tag byte
					f   string
				}{
					{0x82, "%s"}, {0x82, "a%s"}, {0x82, "%sa"}, {0x82, "a%sb.c"}, {0x82, "a.%s"}, {0x82, ".%s"}, {0x82, ".a.%s.b"},
					{0x86, "%s"}, {0x86, "a%s"}, {0x86, "%sa"}, {0x86, "a%sb.c"}, {0x86, "a.%s"}, {0x86, ".%s"}, {0x86, "1.2.3%s4"}, {0x86, "::%s"}, {0x86, "1.2.3.4%s"}, {0x86, "%s1.2.3.4"},
					{0x81, "%s"}, {0x81, "a%s"}, {0x81, "%s@b"}, {0x81, "a%s@b"}, {0x81, "%sa@b"}, {0x81, "a%sa@b"}, {0x81, "\\%s@b"}, {0x81, "a\\%sa@b"}, {0x81, "\"%s\"@b"}, {0x81, "\"\\%s\"@b"}, {0x81, "\"a%sb\"@c"}, {0x81, "\"\"%s@c"}, {0x81, "\"a\"%sc"},
					{0x81, "a%sb"}, {0x81, "a@%s"}, {0x81, "a@b%s"}, {0x81, "a@%sb"}, {0x81, "a@b%sc"}, {0x81, "\"a\"@b%sc"}, {0x81, ".%sa"},
				}
				for _, p := range places {
					for side := 0; side < 2; side++ {
						s := fmt.Sprintf(p.f, b)
						t.Descf("constraint %02x %q", p.tag, s)
						oneConstraint(t, p.tag, s, side)
						t.Eval(1)
					}
				}
				for w := 0; w < 256; w++ {
					c := b + string([]byte{byte(w)})
					for _, f := range []string{"%s@b", "\"%s\"@b", "\"\\%s\"@b", "a\\%sa@b"} {
						s := fmt.Sprintf(f, c)
						t.Descf("constraint 81 %q", s)
						oneConstraint(t, 0x81, s, w%2)
						t.Eval(1)
					}
				}
			}},
		eng.Space{Name: "long", N: 400, Doc: "long labels, many labels, long local parts",
			Run: func(t *eng.T, n int) {
				a := strings.Repeat("a", n)
				l := strings.Repeat("l.", n)
				for _, c := range []constraint{{0x82, []byte(a)}, {0x82, []byte("." + a + ".b")}, {0x82, []byte(l + "x")}, {0x82, []byte(l)}, {0x82, []byte(l + ".")}, {0x82, []byte("." + l + "x")}, {0x82, []byte(".." + l + "x")},
					{0x81, []byte(a + "@" + l + "x")}, {0x81, []byte(l + "x@" + a + "b")}, {0x81, []byte("\"" + a + "\"@b")}, {0x81, []byte("\"" + a + "@b")}, {0x81, []byte(strings.Repeat("\\.a", n) + "@b")}, {0x81, []byte("a@" + l)}, {0x81, []byte(l + "@b")},
					{0x86, []byte(a)}, {0x86, []byte(l + "x")}, {0x86, []byte(l)}} {
					t.Descf("constraint %02x %q (n=%d)", c.tag, c.val, n)
					checkConstraints(t, []constraint{c}, nil, n%2 == 0)
					checkConstraints(t, nil, []constraint{c}, n%2 == 1)
					t.Eval(2)
				}
			}})
	maskBytes := []byte{0, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff, 1, 0x7f, 0xa0, 0xfd}
	out = append(out,
		eng.Space{Name: "mask4", N: len(maskBytes) * len(maskBytes), Doc: "IPv4 masks over the boundary bytes in all four places, and every byte value in each place",
			Run: func(t *eng.T, i int) {
				try := func(m [4]byte) {
					t.Descf("mask %x", m)
					checkConstraints(t, []constraint{{0x87, append([]byte{10, 20, 30, 255}, m[:]...)}}, nil, false)
					t.Eval(1)
				}
				a, b := maskBytes[i/len(maskBytes)], maskBytes[i%len(maskBytes)]
				for _, c := range maskBytes {
					for _, d := range maskBytes {
						try([4]byte{a, b, c, d})
					}
				}
				if i < 4 {
					for v := 0; v < 256; v++ {
						for k := 0; k < 2; k++ {
							for z := 0; z < 2; z++ {
								var m [4]byte
								for j := range m {
									if j < i && k == 1 || j > i && z == 1 {
										m[j] = 255
									}
								}
								m[i] = byte(v)
								try(m)
							}
						}
					}
				}
			}},
		eng.Space{Name: "mask16", N: 129, Doc: "IPv6 masks of every prefix length, with every byte changed to the boundary values (all values in the thorough tier)",
			Run: func(t *eng.T, l int) {
				m := []byte(net.CIDRMask(l, 128))
				ip := pat(0, 16)
				t.Descf("mask %x", m)
				checkConstraints(t, nil, []constraint{{0x87, append(append([]byte{}, ip...), m...)}}, true)
				for p := range m {
					vals := maskBytes
					if thorough(tier) {
						vals = pat(0, 0)
						for v := 0; v < 256; v++ {
							vals = append(vals, byte(v))
						}
					}
					for _, v := range vals {
						x := append(append([]byte{}, ip...), m...)
						x[16+p] = v
						t.Descf("mask %x", x[16:])
						checkConstraints(t, nil, []constraint{{0x87, x}}, true)
						t.Eval(1)
					}
				}
			}},
		eng.Space{Name: "special-ranges", N: 129, Doc: "IPv6 ranges of every prefix length under the addresses that hold an IPv4 address (mapped, compatible, translated, 6to4, Teredo, ISATAP) and other special ones, with prefixes of zeros, and bits set beyond the mask; next to the same range of IPv4",
			Run: func(t *eng.T, l int) {
				z := make([]byte, 16)
				for _, a := range []string{"::ffff:10.0.0.0", "::ffff:0.0.0.0", "::ffff:255.255.255.255", "::10.0.0.0", "::ffff:0:10.0.0.0", "64:ff9b::10.0.0.0", "2002:a00::", "2001::a00:0", "fe80::5efe:10.0.0.0", "::1", "::", "fe80::1", "ff02::1", "2001:db8::"} {
					ip := append([]byte{}, net.ParseIP(a)...)
					for _, m := range [][]byte{net.CIDRMask(l, 128), append(append([]byte{}, z[:12]...), net.CIDRMask(l%33, 32)...), append(append(append([]byte{}, z[:10]...), 255, 255), net.CIDRMask(l%33, 32)...)} {
						c := []constraint{{0x87, append(append([]byte{}, ip...), m...)}, {0x87, append(append([]byte{}, ip[12:]...), m[12:]...)}}
						for k := 1; k <= 3; k++ {
							var v []constraint
							for j := range c {
								if k>>uint(j)&1 == 1 {
									v = append(v, c[j])
								}
							}
							t.Descf("range %s with mask %x, %d", a, m, k)
							checkConstraints(t, v, nil, true)
							checkConstraints(t, c[:1], v, false)
							t.Eval(2)
						}
					}
				}
			}},
		eng.Space{Name: "subtree-bounds", N: 2, Doc: "constraints of every kind with explicit minimum and maximum fields, which change nothing",
			Run: func(t *eng.T, side int) {
				defer func() { subtreeBounds = nil }()
				for _, b := range [][]byte{{0x80, 1, 0}, {0x80, 1, 1}, {0x81, 1, 0}, {0x81, 1, 5}, {0x80, 1, 0, 0x81, 1, 7}, {0x81, 2, 1, 0}} {
					for _, c := range []constraint{{0x82, []byte("d.example")}, {0x82, []byte("d..e")}, {0x81, []byte("m@e")}, {0x81, []byte("m@@e")}, {0x86, []byte("u.example")}, {0x86, []byte("1.2.3.4")}, {0x87, []byte{1, 2, 3, 4, 255, 0, 0, 0}}, {0x87, []byte{1, 2, 3, 4, 255, 0, 255, 0}}, {0x87, append(pat(0, 16), net.CIDRMask(77, 128)...)}, {0xa4, ref.TLV(0x30)}} {
						subtreeBounds = b
						t.Descf("constraint %q with bounds %x", c, b)
						l := []constraint{c}
						other := []constraint{{0x82, []byte("other")}}
						if side == 0 {
							checkConstraints(t, l, nil, true)
							checkConstraints(t, append(l, other...), other, false)
						} else {
							checkConstraints(t, nil, l, false)
							checkConstraints(t, other, append(other, l...), true)
						}
						t.Eval(2)
					}
				}
			}},
		eng.Space{Name: "ip-length", N: 70, Doc: "IP constraints and SAN addresses of every length",
			Run: func(t *eng.T, n int) {
				for kind := 0; kind < 3; kind++ {
					b := pat(kind, n)
					t.Descf("IP value of %d bytes %x", n, b)
					checkConstraints(t, []constraint{{0x87, b}}, nil, false)
					checkConstraints(t, nil, []constraint{{0x87, b}}, true)
					checkSANs(t, []constraint{{0x87, b}}, false)
					t.Eval(3)
				}
			}})
	// lists
	kinds := []constraint{{0x82, []byte("d.example")}, {0x82, []byte(".e")}, {0x81, []byte("m@e")}, {0x81, []byte("f.example")}, {0x86, []byte("u.example")}, {0x87, []byte{1, 2, 3, 4, 255, 0, 0, 0}}, {0x87, append(pat(0, 16), pat(1, 16)...)},
		{0xa4, ref.TLV(0x30)}, {0x88, []byte{0x2a, 3}}, {0x82, []byte("bad..x")}, {0x87, []byte{1, 2, 3}}}
	good := 9
	lseqs := seqs(good, 2)
	rseqs := seqs(len(kinds), pick(tier, 2, 3))
	out = append(out,
		eng.Space{Name: "lists", N: len(rseqs) * 2, Doc: "all lists of constraints of all kinds up to length 2 (3) on each side, both orders, both criticalities, with kinds the parser does not know and malformed ones",
			Run: func(t *eng.T, i int) {
				get := func(s []int) (l []constraint) {
					for _, k := range s {
						l = append(l, kinds[k])
					}
					return
				}
				a := get(rseqs[i/2])
				for _, s := range lseqs {
					b := get(s)
					for crit := 0; crit < 2; crit++ {
						t.Descf("constraints %q / %q, side %d, critical %d", a, b, i%2, crit)
						if i%2 == 0 {
							checkConstraints(t, a, b, crit == 1)
						} else {
							checkConstraints(t, b, a, crit == 1)
						}
						t.Eval(1)
					}
				}
			}},
		eng.Space{Name: "long-lists", N: 29 * 4, Doc: "lists of 3..1025 constraints of all known kinds on one side or both, and the same with a malformed one at the end",
			Run: func(t *eng.T, i int) {
				x := mix(i, 29, 4)
				n := []int{3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025}[x[0]]
				var l []constraint
				for j := 0; j < n; j++ {
					l = append(l, kinds[(j+j/good)%good])
				}
				t.Descf("%d constraints, arrangement %d", n, x[1])
				switch x[1] {
				case 0:
					checkConstraints(t, l, nil, true)
				case 1:
					checkConstraints(t, nil, l, false)
				case 2:
					checkConstraints(t, l, l, true)
				case 3:
					for k := good; k < len(kinds); k++ {
						checkConstraints(t, append(l[:n:n], kinds[k]), l[:2], true)
						checkConstraints(t, l[:2], append(l[:n:n], kinds[k]), true)
					}
				}
			}},
		eng.Space{Name: "structure", N: 1, Doc: "malformed name constraint structures give an error",
			Run: func(t *eng.T, i int) {
				d := ref.TLV(0x30, ref.TLV(0x82, []byte("d")))
				p, e := ref.TLV(0xa0, d), ref.TLV(0xa1, d)
				for _, v := range [][]byte{nil, {0x30, 0}, ref.TLV(0x30, e, p), ref.TLV(0x30, p, p), ref.TLV(0x30, p, e, e), ref.TLV(0x30, p, []byte{5, 0}), append(ref.TLV(0x30, p), 0), append(ref.TLV(0x30, p), p...), ref.TLV(0x31, p), p,
					ref.TLV(0x30, ref.TLV(0xa0), ref.TLV(0xa1)), ref.TLV(0x30, ref.TLV(0xa0)), ref.TLV(0x30, ref.TLV(0xa1)), ref.TLV(0x30, ref.TLV(0x80, d)), ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x31, ref.TLV(0x82, []byte("d"))))), ref.TLV(0x30, ref.TLV(0xa0, []byte{0x30, 0})),
					ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x82, []byte("d")))), ref.TLV(0x30, ref.TLV(0xa0, d, []byte{5, 0})), ref.TLV(0x30, ref.TLV(0xa2, d)), ref.TLV(0x30, p)[:5]} {
					t.Descf("name constraints %x", v)
					_, err := parseCert(t, certWith(ref.Ext(oidNC, true, v)))
					t.Check(err != nil, "a certificate with malformed name constraints %x is parsed", v)
				}
				for _, v := range [][]byte{ref.TLV(0x30, p), ref.TLV(0x30, e), ref.TLV(0x30, p, e), ref.TLV(0x30, ref.TLV(0xa0), e), ref.TLV(0x30, p, ref.TLV(0xa1))} {
					t.Descf("name constraints %x", v)
					_, err := parseCert(t, certWith(ref.Ext(oidNC, true, v)))
					t.Check(err == nil, "a certificate with name constraints %x is not parsed: %v", v, err)
				}
			}})
	sanStr := func(name, alpha string, max int, wrap ...string) {
		n, run := stringSpace(alpha, max, 2)
		out = append(out, eng.Space{Name: name, N: n, Doc: fmt.Sprintf("all URIs up to length %d over %q in %q", max, alpha, wrap), Run: func(t *eng.T, i int) {
			run(i, func(s string) {
				for _, w := range wrap {
					x := fmt.Sprintf(w, s)
					t.Descf("SAN URI %q", x)
					checkSANs(t, []constraint{{0x86, []byte(x)}}, false)
					t.Eval(1)
				}
			})
		}})
	}
	sanStr("san-uri", "a:/.%1", q(6, 7), "%s")
	sanStr("san-host", "a.:@[]/ ", q(5, 6), "h://%s", "h://a%s/p")
	sanStr("san-host2", ".a~\x7f\x80-1", q(5, 6), "h://%s", "h://u@%s:1/p", "//%s")
	skinds := []constraint{{0x82, []byte("d.example")}, {0x82, []byte("..\x00\xff")}, {0x81, []byte("not a mailbox")}, {0x81, []byte("m@e")}, {0x86, []byte("http://h.example/p?q#f")}, {0x86, []byte("urn:x")}, {0x87, []byte{1, 2, 3, 4}}, {0x87, pat(3, 16)},
		{0xa0, ref.TLV(6, []byte{0x2a, 3})}, {0xa4, ref.TLV(0x30)}, {0x88, []byte{0x2a, 3}}, {0x86, []byte("http://h..x/")}, {0x87, []byte{1, 2, 3}}}
	sseqs := seqs(len(skinds), pick(tier, 3, 4))
	out = append(out,
		eng.Space{Name: "san-lists", N: len(sseqs), Doc: "all lists of names of all kinds up to length 3 (4), known and unknown, well-formed and not",
			Run: func(t *eng.T, i int) {
				var l []constraint
				for _, k := range sseqs[i] {
					l = append(l, skinds[k])
				}
				t.Descf("SAN %q", l)
				checkSANs(t, l, i%2 == 1)
			}},
		eng.Space{Name: "san-bytes", N: 256, Doc: "every byte in DNS names and e-mail addresses (not restricted) and at several places of URIs",
			Run: func(t *eng.T, v int) {
				b := string([]byte{byte(v)})
				for _, w := range []string{"%s", "a%sb"} {
					s := []byte(fmt.Sprintf(w, b))
					t.Descf("SAN %q", s)
					checkSANs(t, []constraint{{0x82, s}, {0x81, s}}, false)
				}
				for _, w := range []string{"%s", "a%s", "h:%s", "h:/%s", "h://%s", "h://a%s", "h://a%sb", "h://%sa", "h://a.b/%s", "h://a/?%s", "h://a/#%s", "h://%s@a", "h://a:%s", "h://a:1%s", "h://[%s]", "h%s://a"} {
					s := fmt.Sprintf(w, b)
					t.Descf("SAN URI %q", s)
					checkSANs(t, []constraint{{0x86, []byte(s)}}, true)
					t.Eval(1)
				}
			}},
		eng.Space{Name: "san-twice", N: len(seqs(len(skinds), 1)) * len(seqs(len(skinds), 2)), Doc: "name constraints next to SANs: both are reported",
			Run: func(t *eng.T, i int) {
				a, b := seqs(good, 1), seqs(8, 2)
				if i >= len(a)*len(b) {
					return
				}
				var nc []constraint
				for _, k := range a[i%len(a)] {
					nc = append(nc, kinds[k])
				}
				if len(nc) == 0 {
					return
				}
				var v [][]byte
				var dns []string
				for _, k := range b[i/len(a)] {
					v = append(v, ref.TLV(skinds[k].tag, skinds[k].val))
					if skinds[k].tag == 0x82 {
						dns = append(dns, string(skinds[k].val))
					}
				}
				san, ncx := ref.Ext(oidSAN, false, ref.TLV(0x30, v...)), ref.Ext(oidNC, true, ncValue(nc, nc))
				for o := 0; o < 2; o++ {
					exts := [][]byte{san, ncx}
					if o == 1 {
						exts = [][]byte{ncx, san}
					}
					t.Descf("SAN %v and name constraints %q", b[i/len(a)], nc)
					p, err := parseCert(t, certWith(exts...))
					if err != nil {
						t.Failf("not parsed: %v", err)
					}
					sameStr(t, "DNS names", p.DNSNames, dns)
					n := len(p.PermittedDNSDomains) + len(p.PermittedEmailAddresses) + len(p.PermittedURIDomains) + len(p.PermittedIPRanges)
					m := len(p.ExcludedDNSDomains) + len(p.ExcludedEmailAddresses) + len(p.ExcludedURIDomains) + len(p.ExcludedIPRanges)
					k := 1
					if nc[0].tag >= 0x88 {
						k = 0
					}
					t.Check(n == k && m == k && p.PermittedDNSDomainsCritical, "%d permitted, %d excluded constraints, critical %v", n, m, p.PermittedDNSDomainsCritical)
				}
			}})
	return out
}
