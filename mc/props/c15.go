package props

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C15", Init: selfTest, Spaces: c15,
		Assumptions: []string{"uniformity is decided exactly on tiny curves (every output of the source up to two draws); on the SM2 curve every single bit of the source output is shown to matter and operations are shown to consume their own part of the stream",
			"the source obeys io.Reader; an error that arrives together with the last byte needed may be ignored"}})
}

// tally is the exact distribution of nonces over all source outputs.
type tally struct {
	w   map[int]int
	cut int
}

// distribution feeds every sequence of source bytes until the operation no longer asks for more, up to
// depth bytes, and weighs each nonce with the number of full-depth sequences leading to it.
func distribution(depth int, op func(s *script) (k int)) tally {
	ta := tally{w: map[int]int{}}
	var rec func(pre []byte)
	rec = func(pre []byte) {
		buf := append(append([]byte{}, pre...), 0)
		for v := 0; v < 256; v++ {
			buf[len(pre)] = byte(v)
			s := newScript(buf)
			k := op(s)
			weight := pow(256, depth-len(buf))
			if k >= 0 {
				ta.w[k] += weight
				continue
			}
			if len(buf) < depth {
				rec(buf)
			} else {
				ta.cut += weight
			}
		}
	}
	rec(nil)
	return ta
}

func (ta tally) check(t *eng.T, n int, possible func(k int) bool) {
	want := -1
	np := 0
	for k := 1; k < n; k++ {
		if !possible(k) {
			if ta.w[k] != 0 {
				t.Failf("nonce %d, which the standard rejects here, was used", k)
			}
			continue
		}
		np++
		if want < 0 {
			want = ta.w[k]
		}
		if ta.w[k] != want {
			t.Failf("nonces are not uniform: %d sequences of source bytes lead to nonce %d, %d to another one", ta.w[k], k, want)
		}
	}
	if ta.w[0] != 0 {
		t.Failf("nonce 0 was used")
	}
	if np > 0 && want <= 0 {
		t.Note("distributions cut before the first nonce", 1)
	}
	t.Obs(fmt.Sprint(n, want, ta.cut))
}

// rop is an operation that draws from the random source.
type rop struct {
	name string
	run  func() ([]byte, error)
	min  int // bytes of entropy a nonce needs
}

func csrTemplate() *x509.CertificateRequest {
	return &x509.CertificateRequest{Subject: pkix.Name{Country: []string{"CN"}, CommonName: "example"}, DNSNames: []string{"a.example", "b.example"}}
}

func certTemplate(serial int64) *x509.Certificate {
	return &x509.Certificate{SerialNumber: bint(serial), Subject: pkix.Name{CommonName: "subject"}, NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1600000000, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: []string{"x.example"}, BasicConstraintsValid: true}
}

// refCSR makes a certificate request without using the library's random source.
func csrFor(t *eng.T, d *big.Int) []byte {
	var out []byte
	var err error
	withRand(newPrng(3), func() {
		out, err = cert.CreateCertificateRequest(csrTemplate(), pubOf(realSet.ic, ref.SM2.MulG(d)), privOf(realSet.ic, d), nil)
	})
	if err != nil {
		t.Failf("harness: %v", err)
	}
	return out
}

func randOps(t *eng.T) []rop {
	sc := realScalars()
	d := sc[45]
	pri := privOf(realSet.ic, d)
	pub := pubOf(realSet.ic, ref.SM2.MulG(d))
	ts := toy("n>p byte")
	tpri, tpub := privOf(ts.ic, bint(9)), pubOf(ts.ic, ts.c.MulG(bint(9)))
	csr, err := cert.ParseCertificateRequest(csrFor(t, d))
	if err != nil {
		t.Failf("harness: %v", err)
	}
	parent := certTemplate(1)
	parent.Subject.CommonName = "issuer"
	info, err := cert.CreateCertificateInfo(certTemplate(77), parent, csr)
	if err != nil {
		t.Failf("harness: %v", err)
	}
	pair := func(r, s *big.Int, err error) ([]byte, error) {
		if err != nil {
			if r != nil || s != nil {
				return []byte("values with an error"), err
			}
			return nil, err
		}
		return ref.EncodeSig(r, s), nil
	}
	sys := func() io.Reader { return sysReader{} }
	return []rop{
		{"GenerateKey", func() ([]byte, error) {
			pri, pub, err := sm2.GenerateKey(sys())
			if err != nil {
				if pri != nil || pub != nil {
					return []byte("key with an error"), err
				}
				return nil, err
			}
			return append(ref.B32(pri.D), pub.GetRawBytes()...), nil
		}, 32},
		{"SignToRS", func() ([]byte, error) { return pair(sm2.SignToRS(pri, nil, []byte("message"))) }, 32},
		{"Sign", func() ([]byte, error) { return sm2.Sign(pri, []byte("user"), []byte("message")) }, 32},
		{"Encrypt C1C2C3", func() ([]byte, error) { return sm2.Encrypt(pub, []byte("message"), sm2.C1C2C3) }, 32},
		{"Encrypt C1C3C2", func() ([]byte, error) { return sm2.Encrypt(pub, []byte("another message"), sm2.C1C3C2) }, 32},
		{"Encrypt empty", func() ([]byte, error) { return sm2.Encrypt(pub, nil, sm2.C1C3C2) }, 32},
		{"CreateCertificateRequest", func() ([]byte, error) { return cert.CreateCertificateRequest(csrTemplate(), pub, pri, nil) }, 32},
		{"IssueCertificateBySoftCAKey", func() ([]byte, error) { return cert.IssueCertificateBySoftCAKey(info, pri, nil) }, 32},
		{"Sign on a small curve", func() ([]byte, error) { return sm2.Sign(tpri, nil, []byte("m")) }, 1},
		{"Encrypt on a small curve", func() ([]byte, error) { return sm2.Encrypt(tpub, []byte("mm"), sm2.C1C2C3) }, 1},
	}
}

const nRandOps = 10

// sysReader reads whatever the system source is at the moment.
type sysReader struct{}

func (sysReader) Read(b []byte) (int, error) { return currentRand().Read(b) }

// awkward delivers data in small pieces, with empty reads in between if zero is set.
type awkward struct {
	data  []byte
	pos   int
	sizes []int
	zero  bool
	turn  int
	err   error
	with  bool // deliver the error together with the last bytes
	dry   bool
}

func (a *awkward) Read(p []byte) (int, error) {
	a.turn++
	if len(p) == 0 {
		return 0, nil
	}
	if a.zero && a.turn%2 == 0 && a.pos < len(a.data) {
		return 0, nil
	}
	if a.pos >= len(a.data) {
		a.dry = true
		return 0, a.err
	}
	n := len(a.data) - a.pos
	if len(a.sizes) > 0 {
		if s := a.sizes[a.turn%len(a.sizes)]; s < n {
			n = s
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, a.data[a.pos:a.pos+n])
	a.pos += n
	if a.with && a.pos == len(a.data) {
		a.dry = true
		return n, a.err
	}
	return n, nil
}

func c15(tier string) []eng.Space {
	scal := realScalars()
	type tc struct {
		ts    *toySet
		depth int
	}
	tcs := []tc{{toy("n<p tiny"), 2}, {toy("n>p tiny"), 2}, {toy("n<p small"), 2}, {toy("n>p small"), 2}, {toy("n>p byte"), 2}, {toy("n<p byte"), 2}, {toy("nine bits"), 2}, {toy("ten bits"), 2}, {toy("two bytes"), 2}}
	keys := pick(tier, 6, 40)
	streams := make([][]byte, 0)
	for i := 0; i < 4; i++ {
		b := make([]byte, 4096)
		newPrng(i + 77).Read(b)
		for j := 0; j < len(b); j += 8 {
			b[j] &= 0x7f
		}
		streams = append(streams, b)
	}
	fails := []error{errScript, io.EOF, io.ErrUnexpectedEOF}
	return []eng.Space{
		{Name: "uniform signing nonces", N: len(tcs) * keys * 3, Doc: "small curves: exact distribution of the nonce over every output of the random source of up to two bytes, for several keys and hashes", Run: func(t *eng.T, i int) {
			x := mix(i, keys, 3, len(tcs))
			c := tcs[x[2]]
			ts := c.ts
			if ts.c.ToyN() > 256 && x[0] >= pick(tier, 1, 4) {
				return
			}
			n := ts.c.ToyN()
			d := 1 + (x[0]*13+x[1])%(n-2)
			bd := bint(int64(d))
			pri := privOf(ts.ic, bd)
			pub := ts.c.ToyPoint(d)
			m := []byte(fmt.Sprint("message", x[0], x[1]))
			e := ts.c.E(pub, nil, m)
			t.Descf("%v: private key %d, message %q", ts, d, m)
			runs := 0
			ta := distribution(c.depth, func(s *script) int {
				var r, sg *big.Int
				var err error
				withRand(s, func() { r, sg, err = sm2.SignToRS(pri, nil, m) })
				t.Ops(1)
				runs++
				if err != nil {
					if !s.dry {
						t.Failf("error %v although the source did not fail", err)
					}
					return -1
				}
				return int(ts.c.Nonce(bd, r, sg).Int64())
			})
			ta.check(t, n, func(k int) bool { _, _, ok := ts.c.SignK(bd, e, bint(int64(k))); return ok })
			t.Trace(runs)
			t.Eval(runs)
		}},
		{Name: "uniform encryption nonces", N: len(tcs) * keys * 3, Doc: "the same for encryption, with messages of 0, 1 and 20 bytes", Run: func(t *eng.T, i int) {
			x := mix(i, keys, 3, len(tcs))
			c := tcs[x[2]]
			ts := c.ts
			if ts.c.ToyN() > 256 && x[0] >= pick(tier, 1, 4) {
				return
			}
			n := ts.c.ToyN()
			d := 1 + (x[0]*17+x[1])%(n-2)
			rp := ts.c.ToyPoint(d)
			pub := pubOf(ts.ic, rp)
			m := pat(0, []int{0, 1, 20}[x[1]])
			t.Descf("%v: private key %d, message %s", ts, d, hx(m))
			cl := ts.c.CoordLen()
			runs := 0
			ta := distribution(c.depth, func(s *script) int {
				var ct []byte
				var err error
				withRand(s, func() { ct, err = sm2.Encrypt(pub, m, layouts[i%2]) })
				t.Ops(1)
				runs++
				if err != nil {
					if !s.dry {
						t.Failf("error %v although the source did not fail", err)
					}
					return -1
				}
				k := -1
				if len(ct) > 2*cl {
					k = ts.c.Log(new(big.Int).SetBytes(ct[1:1+cl]), new(big.Int).SetBytes(ct[1+cl:1+2*cl]))
				}
				if k < 0 {
					t.Failf("ciphertext %s does not start with a point", hx(ct))
				}
				return k
			})
			ta.check(t, n, func(k int) bool { _, ok := ts.c.EncK(rp, m, bint(int64(k)), true); return ok })
			t.Trace(runs)
			t.Eval(runs)
		}},
		{Name: "every source bit matters", N: len(streams) * 3, Doc: "SM2 curve: flipping any one of the bits consumed changes the nonce, all to different values, and every nonce bit takes both values", Run: func(t *eng.T, i int) {
			st := streams[i/3]
			d := scal[20+i]
			pri := privOf(realSet.ic, d)
			rp := ref.SM2.MulG(d)
			pub := pubOf(realSet.ic, rp)
			kind := i % 3
			seen := map[string]int{}
			and, or := pow2(256), bint(0)
			and = and.Sub(and, bint(1))
			draw := func(b []byte) (string, int) {
				s := newScript(b)
				var out string
				withRand(s, func() {
					switch kind {
					case 0:
						r, sg, err := sm2.SignToRS(pri, nil, []byte("m"))
						if err != nil {
							t.Failf("%v", err)
						}
						k := ref.SM2.Nonce(d, r, sg)
						if why := ref.SM2.ValidSig(d, ref.SM2.E(rp, nil, []byte("m")), r, sg); why != "" {
							t.Failf("invalid signature: %s", why)
						}
						and.And(and, k)
						or.Or(or, k)
						out = string(k.Bytes())
					case 1:
						ct, err := sm2.Encrypt(pub, []byte("a message of some length"), sm2.C1C3C2)
						if err != nil {
							t.Failf("%v", err)
						}
						out = string(ct[:65])
					case 2:
						pri, _, err := sm2.GenerateKey(s)
						if err != nil {
							t.Failf("%v", err)
						}
						out = string(pri.D.Bytes())
						and.And(and, pri.D)
						or.Or(or, pri.D)
					}
				})
				t.Ops(1)
				return out, s.pos
			}
			t.Descf("operation %d, stream %d", kind, i/3)
			base, used := draw(st)
			again, used2 := draw(st)
			if base != again || used != used2 {
				t.Failf("the same source output gives two different nonces")
			}
			if used < 32 {
				t.Failf("only %d bytes drawn for a nonce of 256 bits", used)
			}
			seen[base] = -1
			lost := 0
			for bit := 0; bit < used*8; bit++ {
				b := append([]byte{}, st...)
				b[bit/8] ^= 1 << uint(7-bit%8)
				o, _ := draw(b)
				if p, ok := seen[o]; ok {
					t.Descf("operation %d, stream %d: source bit %d", kind, i/3, bit)
					lost++
					// a generator may read more than 256 bits; but 256 of them must matter
					if used*8-lost < 256 {
						t.Failf("flipping source bit %d gives the same nonce as flipping bit %d", bit, p)
					}
				}
				seen[o] = bit
			}
			if kind != 1 {
				if and.Sign() != 0 {
					t.Failf("nonce bits %x are always set", and)
				}
				if or.BitLen() != 256 || new(big.Int).Add(or, bint(1)).Cmp(pow2(256)) != 0 {
					t.Failf("nonce bits are never set: union %x", or)
				}
			}
			t.Trace(used * 8)
			t.Eval(used * 8)
			t.Obs(base)
		}},
		{Name: "successive operations", N: pow(nRandOps, 3), Doc: "every sequence of three operations on one source: each consumes its own part of the stream, and gives what it gives alone on that part", Run: func(t *eng.T, i int) {
			x := mix(i, nRandOps, nRandOps, nRandOps)
			ops := randOps(t)
			st := streams[i%len(streams)]
			t.Descf("%s; %s; %s on stream %d", ops[x[0]].name, ops[x[1]].name, ops[x[2]].name, i%len(streams))
			s := newScript(st)
			var pos [4]int
			var outs [3][]byte
			withRand(s, func() {
				for j, o := range x {
					out, err := ops[o].run()
					t.Ops(1)
					if err != nil {
						t.Failf("%s: %v", ops[o].name, err)
					}
					outs[j], pos[j+1] = append([]byte{}, out...), s.pos
					if s.pos-pos[j] < ops[o].min {
						t.Failf("operation %d (%s) took %d bytes from the source", j, ops[o].name, s.pos-pos[j])
					}
				}
			})
			for j, o := range x {
				if j == 0 && i%5 != 0 {
					continue // the first one is covered by others
				}
				s := newScript(st[pos[j]:])
				var out []byte
				var err error
				fresh := randOps(t)
				withRand(s, func() { out, err = fresh[o].run() })
				if err != nil {
					t.Failf("%s: %v", ops[o].name, err)
				}
				wantBytes(t, fmt.Sprintf("operation %d (%s) compared with itself run alone on the same source output", j, ops[o].name), outs[j], out)
				if s.pos != pos[j+1]-pos[j] {
					t.Failf("operation %d (%s) consumed %d bytes in the sequence and %d alone", j, ops[o].name, pos[j+1]-pos[j], s.pos)
				}
				if j > 0 && x[j] == x[j-1] && ops[o].min == 32 && bytes.Equal(outs[j], outs[j-1]) {
					t.Failf("the same output twice")
				}
			}
			t.Obs(outs[0], outs[1], outs[2])
		}},
		{Name: "source replaced between operations", N: nRandOps * nRandOps, Doc: "every pair of operations with the system source exchanged in between: the second uses the new one", Run: func(t *eng.T, i int) {
			ops := randOps(t)
			a, b := i/nRandOps, i%nRandOps
			t.Descf("%s, then %s on another source", ops[a].name, ops[b].name)
			var want, got []byte
			var err error
			s2 := newScript(streams[1])
			withRand(s2, func() { want, err = ops[b].run() })
			if err != nil {
				t.Failf("%v", err)
			}
			want = append([]byte{}, want...)
			withRand(newScript(streams[0]), func() { _, err = ops[a].run() })
			if err != nil {
				t.Failf("%v", err)
			}
			s3 := newScript(streams[1])
			withRand(s3, func() { got, err = ops[b].run() })
			if err != nil {
				t.Failf("%v", err)
			}
			wantBytes(t, ops[b].name, got, want)
			if s3.pos != s2.pos {
				t.Failf("%d bytes consumed instead of %d", s3.pos, s2.pos)
			}
			// a failing source after a working one
			bad := newScript()
			withRand(bad, func() { got, err = ops[b].run() })
			if err == nil || got != nil {
				t.Failf("%s succeeded (%s, %v) on a dead source", ops[b].name, hx(got), err)
			}
			t.Ops(4)
		}},
		{Name: "failures", N: nRandOps * 3 * 4, Doc: "every operation with the source failing after every number of bytes (with different errors, also delivered together with data, also after rejected draws)", Run: func(t *eng.T, i int) {
			x := mix(i, nRandOps, 3, 4)
			ops := randOps(t)
			o := ops[x[0]]
			pre := [][]byte{nil, make([]byte, 32), pat(2, 32), pat(2, 64)}[x[2]]
			if o.min == 1 {
				pre = pre[:len(pre)/32]
			}
			st := append(append([]byte{}, pre...), streams[x[1]]...)
			full := newScript(st)
			var err error
			var want []byte
			withRand(full, func() { want, err = o.run() })
			if err != nil {
				t.Failf("%v", err)
			}
			want = append([]byte{}, want...)
			need := full.pos
			for f := 0; f < need; f++ {
				for v := 0; v < 4; v++ {
					a := &awkward{data: st[:f], err: fails[x[1]], with: v%2 == 1 && f > 0}
					if v >= 2 {
						a.sizes = []int{1, 3, 2}
					}
					t.Descf("%s with the source failing (%v) after %d of %d bytes, variant %d", o.name, a.err, f, need, v)
					var out []byte
					withRand(a, func() { out, err = o.run() })
					t.Ops(1)
					if err == nil {
						t.Failf("succeeded with %s", hx(out))
					}
					if out != nil {
						t.Failf("error %v, but output %s", err, hx(out))
					}
				}
			}
			t.Trace(need * 4)
			t.Eval(need * 4)
			t.Obs(want)
		}},
		{Name: "short reads", N: nRandOps * 4, Doc: "every operation with the source delivering 1..40 bytes per read, irregular pieces and empty reads: same result", Run: func(t *eng.T, i int) {
			ops := randOps(t)
			o := ops[i/4]
			st := streams[i%4]
			if i%2 == 1 {
				st = append(pat(2, 32), st...)
			}
			full := newScript(st)
			var err error
			var want []byte
			withRand(full, func() { want, err = o.run() })
			if err != nil {
				t.Failf("%v", err)
			}
			want = append([]byte{}, want...)
			for k := 1; k <= 48; k++ {
				a := &awkward{data: st, err: errScript, zero: k > 40}
				a.sizes = []int{k}
				if k > 40 {
					a.sizes = []int{1 + k%5, 31, 7, k - 40}
				}
				t.Descf("%s with reads of %v, empty reads %v", o.name, a.sizes, a.zero)
				var out []byte
				withRand(a, func() { out, err = o.run() })
				t.Ops(1)
				if err != nil {
					t.Failf("%v", err)
				}
				wantBytes(t, "result", out, want)
				if a.pos != full.pos {
					t.Failf("%d bytes consumed instead of %d", a.pos, full.pos)
				}
			}
			t.Trace(47)
			t.Eval(47)
		}},
		{Name: "runs of refused draws", N: nRandOps + 3*12, Doc: "the source repeating one byte for ever (each of the 256), then good output: a call that refuses the first draw refuses all the equal ones (65536 bytes of them), whatever their number (1..70, 255..257, 1000) it then gives what the good output alone gives, and if the source ends instead it is an error", Run: func(t *eng.T, i int) {
			var run func() ([]byte, error)
			unit := 32
			good := streams[i%len(streams)]
			if i < nRandOps {
				o := randOps(t)[i]
				run, unit = o.run, o.min
				t.Descf("%s", o.name)
			} else {
				x := mix(i-nRandOps, 3, 12)
				ts := toy([]string{"n<p tiny", "n>p byte", "two bytes"}[x[0]])
				d := 1 + (x[1]*19)%(ts.c.ToyN()-2)
				pri, pub := privOf(ts.ic, bint(int64(d))), pubOf(ts.ic, ts.c.ToyPoint(d))
				msg := []byte{byte(x[1])}
				unit = (ts.c.N.BitLen() + 7) / 8
				t.Descf("%v: key %d, operation %d", ts, d, x[1]%2)
				run = func() ([]byte, error) {
					if x[1]%2 == 0 {
						return sm2.Encrypt(pub, msg, sm2.C1C3C2)
					}
					return sm2.Sign(pri, nil, msg)
				}
				// some key and hash accept few nonces or none; the good output must contain an accepted one
				if x[0] == 0 {
					good = nil
					for v := 0; v < 256; v++ {
						good = append(good, byte(v))
					}
				}
			}
			call := func(data []byte) (out []byte, s *script, err error) {
				s = newScript(data)
				withRand(s, func() { out, err = run() })
				t.Ops(1)
				t.Check(err == nil || s.dry, "error %v although the source did not fail", err)
				t.Check(err == nil || out == nil, "output together with error %v", err)
				return
			}
			want, s0, err := call(good)
			if err != nil {
				t.Note("no nonce is acceptable", 1)
				return
			}
			least := s0.pos
			for v := 0; v < 256; v++ {
				if _, s, err := call(bytes.Repeat([]byte{byte(v)}, 64)); err == nil && s.pos < least {
					least = s.pos
				}
			}
			refused := 0
			for v := 0; v < 256; v++ {
				one := []byte{byte(v)}
				_, s, err := call(bytes.Repeat(one, pick(t.Tier, 1<<13, 1<<16)*unit/2))
				if err == nil {
					t.Check(s.pos <= least, "source repeating %02x: output after %d bytes although %d are enough and the first draw was refused", v, s.pos, least)
					continue
				}
				refused++
				for n := 1; n <= 1000; n++ {
					if n > 70 && (n < 255 || n > 257) && n != 1000 || n > 6 && refused > 8 && n%16 != refused%16 {
						continue
					}
					// a whole number of draws, whatever number of bytes between 1 and 8 more a draw takes is not assumed: least is
					out, s, err := call(append(bytes.Repeat(one, n*least), good...))
					t.Check(err == nil, "%d bytes %02x, then good output: error %v", n*least, v, err)
					if s0.pos == least {
						t.Check(s.pos == n*least+least, "%d bytes %02x, then good output: %d bytes consumed", n*least, v, s.pos)
						wantBytes(t, fmt.Sprintf("output after %d bytes %02x", n*least, v), out, want)
					}
					t.Eval(1)
				}
			}
			t.Note("bytes that are refused", refused)
			t.Obs(want, refused)
		}},
		{Name: "rejected signing nonces", N: 40, Doc: "small curve: after a rejected nonce the source is asked again, and its failure then is an error", Run: func(t *eng.T, i int) {
			ts := toy("n>p byte")
			d := bint(int64(2 + i*5))
			pri := privOf(ts.ic, d)
			pub := ts.c.MulG(d)
			found := 0
			for j := 0; j < 60; j++ {
				m := []byte(fmt.Sprint(j))
				e := ts.c.E(pub, nil, m)
				for b := 0; b < 256; b++ {
					s := newScript([]byte{byte(b)})
					var r, sg *big.Int
					var err error
					withRand(s, func() { r, sg, err = sm2.SignToRS(pri, nil, m) })
					t.Ops(1)
					t.Descf("%v: d=%v, message %q, source byte %02x then failure", ts, d, m, b)
					if err != nil {
						if r != nil || sg != nil {
							t.Failf("values together with error %v", err)
						}
						if !s.dry {
							t.Failf("error %v although the source did not fail", err)
						}
						found++
						continue
					}
					if s.dry {
						t.Failf("success although the source failed")
					}
					if why := ts.c.ValidSig(d, e, r, sg); why != "" {
						t.Failf("%s", why)
					}
				}
			}
			t.Note("draws after which the source was asked again", found)
		}},
	}
}
