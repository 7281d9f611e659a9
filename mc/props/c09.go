package props

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C09", Init: selfTest, Spaces: c09,
		Assumptions: []string{"integers: a dense range around zero and the neighbours of all powers of two up to 2^1100; byte strings: all edits of up to two bytes of valid encodings and all strings over a DER alphabet up to the stated length"}})
}

// checkDecode compares the decoder with the strict model on one byte string.
func checkDecode(t *eng.T, b []byte) bool {
	r, s, ok := ref.ParseSig(b)
	gr, gs, err := sm2.UnmarshalSign(b)
	t.Ops(1)
	if ok != (err == nil) {
		t.Failf("UnmarshalSign(%s): error %v, but the string is canonical: %v", hx(b), err, ok)
	}
	if !ok {
		if gr != nil || gs != nil {
			t.Failf("UnmarshalSign(%s): values together with error %v", hx(b), err)
		}
		return false
	}
	if gr.Cmp(r) != 0 || gs.Cmp(s) != 0 {
		t.Failf("UnmarshalSign(%s) = (%v, %v), want (%v, %v)", hx(b), gr, gs, r, s)
	}
	return true
}

type verifyCtx struct {
	ts  *toySet
	pub ref.Point
	ip  *sm2.PublicKey
	id  []byte
	m   []byte
	e   *big.Int
}

// checkVerifyBytes compares Verify on arbitrary bytes with: canonical decode, then the equation.
func (v *verifyCtx) check(t *eng.T, b []byte) bool {
	r, s, ok := ref.ParseSig(b)
	want := ok && v.ts.c.VerifyE(v.pub, v.e, r, s)
	got := sm2.Verify(v.ip, v.id, v.m, b)
	t.Ops(1)
	if got != want {
		t.Failf("Verify(%s) = %v, want %v", hx(b), got, want)
	}
	return got
}

func newCtx(ts *toySet, d *big.Int, m []byte) *verifyCtx {
	v := &verifyCtx{ts: ts, pub: ts.c.MulG(d), m: m}
	v.ip = pubOf(ts.ic, v.pub)
	v.e = ts.c.E(v.pub, nil, m)
	return v
}

func sigInts() []*big.Int {
	var v []*big.Int
	for k := uint(0); k <= 1100; k++ {
		if k > 300 && k%8 > 1 && k%8 < 7 {
			continue
		}
		for dlt := int64(-2); dlt <= 2; dlt++ {
			x := sub(pow2(k), dlt)
			v = append(v, x, new(big.Int).Neg(x))
		}
	}
	n := ref.SM2.N
	for dlt := int64(-2); dlt <= 2; dlt++ {
		v = append(v, sub(n, dlt), sub(ref.SM2.P, dlt), new(big.Int).Neg(sub(n, dlt)))
	}
	for i := 0; i < 5; i++ {
		for _, l := range []int{1, 2, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 300, 65535} {
			v = append(v, new(big.Int).SetBytes(pat(i, l)))
		}
	}
	return v
}

func roundTripSig(t *eng.T, r, s *big.Int) {
	r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
	got, err := sm2.MarshalSign(r, s)
	t.Ops(1)
	if err != nil {
		t.Failf("MarshalSign(%v, %v): %v", r, s, err)
	}
	if r.Cmp(r0) != 0 || s.Cmp(s0) != 0 {
		t.Failf("MarshalSign changed its arguments")
	}
	want := ref.EncodeSig(r, s)
	wantBytes(t, fmt.Sprintf("MarshalSign(%v, %v)", r, s), got, want)
	if !checkDecode(t, got) {
		t.Failf("own encoding of (%v, %v) is refused", r, s)
	}
	t.Obs(got)
}

// edits calls f with every single-byte substitution, deletion, insertion, truncation and extension of b.
func edits(b []byte, f func(x []byte)) {
	for p := range b {
		x := append([]byte{}, b...)
		for v := 1; v < 256; v++ {
			x[p] = b[p] ^ byte(v)
			f(x)
		}
	}
	structEdits(b, f)
}

func structEdits(b []byte, f func(x []byte)) {
	for p := range b {
		x := append([]byte{}, b[:p]...)
		f(append(x, b[p+1:]...)) // deletion
		f(append([]byte{}, b[:p]...))
		f(append([]byte{}, b[p+1:]...))
	}
	for p := 0; p <= len(b); p++ {
		for v := 0; v < 256; v++ {
			x := append([]byte{}, b[:p]...)
			x = append(x, byte(v))
			f(append(x, b[p:]...))
		}
	}
	f(append(append([]byte{}, b...), b...))
	for p := 0; p+1 < len(b); p++ {
		x := append([]byte{}, b...)
		x[p], x[p+1] = x[p+1], x[p]
		if b[p] != b[p+1] {
			f(x)
		}
	}
}

// variants are non-canonical encodings of the same pair.
func sigVariants(r, s *big.Int) [][]byte {
	ri, si := ref.DERIntBytes(r), ref.DERIntBytes(s)
	long := func(tag byte, n int, b []byte) []byte { // length in n octets, long form
		out := []byte{tag, 0x80 | byte(n)}
		for k := n - 1; k >= 0; k-- {
			out = append(out, byte(len(b)>>(8*uint(k))))
		}
		return append(out, b...)
	}
	cat := func(p ...[]byte) []byte {
		var o []byte
		for _, x := range p {
			o = append(o, x...)
		}
		return o
	}
	I := func(b []byte) []byte { return ref.TLV(2, b) }
	body := cat(I(ri), I(si))
	var v [][]byte
	add := func(b []byte) { v = append(v, b) }
	// padded integers
	for k := 1; k <= 3; k++ {
		z := make([]byte, k)
		ff := pat(2, k)
		for _, pre := range [][]byte{z, ff} {
			add(ref.TLV(0x30, I(cat(pre, ri)), I(si)))
			add(ref.TLV(0x30, I(ri), I(cat(pre, si))))
		}
	}
	// long-form lengths
	for n := 1; n <= 8; n++ {
		add(long(0x30, n, body))
		add(ref.TLV(0x30, long(2, n, ri), I(si)))
		add(ref.TLV(0x30, I(ri), long(2, n, si)))
	}
	// indefinite length
	add(cat([]byte{0x30, 0x80}, body, []byte{0, 0}))
	add(cat([]byte{0x30, 0x80}, body))
	// trailing data, inside and outside
	for _, x := range [][]byte{{0}, {5, 0}, {0, 0}, I([]byte{1}), {0x30, 0}, body} {
		add(cat(ref.TLV(0x30, body), x))
		add(ref.TLV(0x30, body, x))
		add(ref.TLV(0x30, x, body))
	}
	// other tags
	for tag := 0; tag < 256; tag++ {
		if tag != 0x30 {
			add(ref.TLV(byte(tag), body))
		}
		if tag != 2 {
			add(ref.TLV(0x30, ref.TLV(byte(tag), ri), I(si)))
			add(ref.TLV(0x30, I(ri), ref.TLV(byte(tag), si)))
		}
	}
	// nested or missing
	add(ref.TLV(0x30, ref.TLV(0x30, body)))
	add(ref.TLV(0x30, I(ri)))
	add(ref.TLV(0x30))
	add(ref.TLV(0x30, I(nil), I(si)))
	add(ref.TLV(0x30, I(ri), I(nil)))
	add(ref.TLV(0x30, ri, si))
	add(body)
	add(cat(ri, si))
	add(ref.TLV(4, ref.TLV(0x30, body)))
	add(ref.TLV(3, []byte{0}, ref.TLV(0x30, body)))
	// raw r || s, as other libraries have it
	rev := func(b []byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[len(b)-1-i] = b[i]
		}
		return o
	}
	for _, w := range []int{1, 2, 4, 8, 16, 20, 24, 28, 32, 33, 48, 64, 66} {
		if r.Sign() < 0 || s.Sign() < 0 || (r.BitLen()+7)/8 > w || (s.BitLen()+7)/8 > w {
			continue
		}
		R, S := r.FillBytes(make([]byte, w)), s.FillBytes(make([]byte, w))
		for _, raw := range [][]byte{cat(R, S), cat(S, R), cat(rev(R), rev(S)), cat(rev(S), rev(R))} {
			add(raw)
			for _, x := range []byte{0, 1, 2, 3, 4, 0x1b, 0x1c, 0x1f, 0x30, byte(len(raw)), 0xff} {
				add(cat(raw, []byte{x}))
				add(cat([]byte{x}, raw))
			}
			add(ref.TLV(4, raw))
			add(ref.TLV(3, []byte{0}, raw))
			add(ref.TLV(0x30, raw))
			add(ref.TLV(0x30, ref.TLV(4, raw)))
		}
		// integers that are not shortened, and as octet strings
		add(ref.TLV(0x30, I(R), I(S)))
		add(ref.TLV(0x30, I(cat([]byte{0}, R)), I(cat([]byte{0}, S))))
		add(ref.TLV(0x30, ref.TLV(4, R), ref.TLV(4, S)))
		add(ref.TLV(0x30, I(rev(R)), I(rev(S))))
		// length prefixes
		for k := 1; k <= 4; k *= 2 {
			p := make([]byte, k)
			p[k-1] = byte(w)
			add(cat(p, R, p, S))
			add(cat(rev(p), R, rev(p), S))
		}
	}
	// integers without the zero byte that keeps them positive
	add(ref.TLV(0x30, I(new(big.Int).Abs(r).Bytes()), I(new(big.Int).Abs(s).Bytes())))
	// around the canonical form: text, a hash type, an algorithm, a length
	der := ref.TLV(0x30, body)
	for x := 0; x < 256; x++ {
		add(cat(der, []byte{byte(x)}))
		add(cat([]byte{byte(x)}, der))
	}
	for k := 2; k <= 8; k *= 2 {
		p := make([]byte, k)
		p[k-1] = byte(len(der))
		add(cat(p, der))
		add(cat(rev(p), der))
	}
	alg := ref.AlgSM3SM2()
	add(cat(alg, der))
	add(ref.TLV(0x30, alg, der))
	add(ref.TLV(0x30, alg, ref.TLV(3, []byte{0}, der)))
	add(ref.TLV(0x30, alg, ref.TLV(4, der)))
	for _, x := range []string{hex.EncodeToString(der), strings.ToUpper(hex.EncodeToString(der)), base64.StdEncoding.EncodeToString(der), base64.RawStdEncoding.EncodeToString(der), base64.URLEncoding.EncodeToString(der), hex.EncodeToString(cat(ref.B32(r), ref.B32(s))), base64.StdEncoding.EncodeToString(cat(ref.B32(r), ref.B32(s))),
		"-----BEGIN SIGNATURE-----\n" + base64.StdEncoding.EncodeToString(der) + "\n-----END SIGNATURE-----\n", fmt.Sprintf("(%d, %d)", r, s), fmt.Sprintf("%x %x", r, s), fmt.Sprintf("{%q:%d,%q:%d}", "r", r, "s", s)} {
		add([]byte(x))
		add([]byte(x + "\n"))
	}
	// high tag number forms
	add(cat([]byte{0x3f, 0x10}, ref.DERLen(len(body)), body))
	add(ref.TLV(0x30, cat([]byte{0x1f, 0x02}, ref.DERLen(len(ri)), ri), I(si)))
	return v
}

func c09(tier string) []eng.Space {
	ints := sigInts()
	dense := pick(tier, 70000, 300000)
	ts := toy("n>p byte")
	// valid signatures on the tiny curve, one for every shape of (r, s)
	var small []*verifyCtx
	var smallSig [][]byte
	shapes := map[string]bool{}
	for d := int64(2); d < 60 && len(small) < 12; d++ {
		for k := int64(1); k < 200 && len(small) < 12; k += 3 {
			v := newCtx(ts, bint(d), []byte{byte(d), byte(k)})
			r, s, ok := ts.c.SignK(bint(d), v.e, bint(k))
			if !ok {
				continue
			}
			key := fmt.Sprint(r.BitLen() == 8, s.BitLen() == 8, r.BitLen() < 3, s.BitLen() < 3)
			if shapes[key] {
				continue
			}
			shapes[key] = true
			small, smallSig = append(small, v), append(smallSig, ref.EncodeSig(r, s))
		}
	}
	// valid signatures on the SM2 curve with r, s of different lengths
	scal := realScalars()
	var realV []*verifyCtx
	var realSig [][]byte
	for _, c := range steeredSigs(scal[33], scal[35], 3000) {
		v := newCtx(realSet, c.d, c.m)
		r, s, _ := ref.SM2.SignK(c.d, v.e, c.k)
		realV, realSig = append(realV, v), append(realSig, ref.EncodeSig(r, s))
	}
	alphabet := []byte{0x30, 0x02, 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0x03, 0x06}
	depth := pick(tier, 7, 8)
	return []eng.Space{
		{Name: "integers-dense", N: dense/1000*2 + 1, Doc: "every pair (v, w(v)) for all v in a dense range around zero", Run: func(t *eng.T, i int) {
			lo := int64(i)*1000 - int64(dense)
			t.Descf("r in [%d, %d)", lo, lo+1000)
			for v := lo; v < lo+1000; v++ {
				roundTripSig(t, bint(v), bint(v*257+3))
			}
			t.Trace(999)
			t.Eval(999)
		}},
		{Name: "integers-large", N: len(ints), Doc: "neighbours of powers of two, of n and p, of either sign, paired with boundary values", Run: func(t *eng.T, i int) {
			t.Descf("r of %d bits, sign %d", ints[i].BitLen(), ints[i].Sign())
			for _, w := range []*big.Int{bint(0), bint(1), bint(-1), bint(127), bint(128), bint(-128), bint(-129), sub(ref.SM2.N, 1), pow2(255), ints[(i*17+5)%len(ints)]} {
				roundTripSig(t, ints[i], w)
				roundTripSig(t, w, ints[i])
			}
		}},
		{Name: "short-strings", N: 256 + 256, Doc: "every byte string of up to three bytes", Run: func(t *eng.T, i int) {
			if i == 0 {
				checkDecode(t, nil)
				checkDecode(t, []byte{})
			}
			if i < 256 {
				t.Descf("strings %02x and %02x xx", i, i)
				checkDecode(t, []byte{byte(i)})
				for j := 0; j < 256; j++ {
					checkDecode(t, []byte{byte(i), byte(j)})
				}
				return
			}
			t.Descf("strings %02x xx xx", i-256)
			b := []byte{byte(i - 256), 0, 0}
			for j := 0; j < 65536; j++ {
				b[1], b[2] = byte(j>>8), byte(j)
				checkDecode(t, b)
			}
			t.Trace(65535)
		}},
		{Name: "alphabet-strings", N: pow(len(alphabet), 3), Doc: "every string over a DER alphabet up to the depth", Run: func(t *eng.T, i int) {
			d := mix(i, len(alphabet), len(alphabet), len(alphabet))
			b := make([]byte, 3, depth)
			for k := range d {
				b[k] = alphabet[d[k]]
			}
			t.Descf("strings starting %x", b)
			n := 0
			var rec func(b []byte)
			rec = func(b []byte) {
				checkDecode(t, b)
				n++
				if len(b) == depth {
					return
				}
				for _, a := range alphabet {
					rec(append(b, a))
				}
			}
			rec(b)
			t.Trace(n)
			t.Eval(n)
		}},
		{Name: "sequence-bodies", N: 65536, Doc: "30 06 followed by every INTEGER header and value bytes from boundary sets", Run: func(t *eng.T, i int) {
			vals := []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}
			b := []byte{0x30, 6, 2, 1, 0, byte(i >> 8), byte(i), 0}
			t.Descf("30 06 02 01 vv %02x %02x vv", b[5], b[6])
			for _, x := range vals {
				for _, y := range vals {
					b[4], b[7] = x, y
					checkDecode(t, b)
				}
			}
		}},
		{Name: "toy-edits", N: len(small), Doc: "every edit of one byte of valid signatures on a tiny curve, verified", Run: func(t *eng.T, i int) {
			v, sig := small[i], smallSig[i]
			t.Descf("edits of %x on %v", sig, ts)
			if !v.check(t, sig) {
				t.Failf("the valid signature is refused")
			}
			n, acc := 0, 0
			edits(sig, func(x []byte) {
				checkDecode(t, x)
				if v.check(t, x) {
					acc++
				}
				n++
			})
			r, s, _ := ref.ParseSig(sig)
			for _, x := range sigVariants(r, s) {
				checkDecode(t, x)
				v.check(t, x)
				n++
			}
			t.Trace(n)
			t.Eval(n)
			t.Note("edited strings that are valid other signatures", acc)
		}},
		{Name: "toy-double-edits", N: len(small) * 8, Doc: "every pair of byte substitutions in the structure bytes of a valid signature on a tiny curve", Run: func(t *eng.T, i int) {
			v, sig := small[i/8], smallSig[i/8]
			p := i % 8
			if p >= len(sig) {
				return
			}
			t.Descf("byte %d and every later byte of %x replaced", p, sig)
			step := pick(t.Tier, 5, 1)
			n := 0
			for q := p + 1; q < len(sig); q++ {
				x := append([]byte{}, sig...)
				for a := 0; a < 256; a += step {
					for b := 0; b < 256; b++ {
						x[p], x[q] = byte(a), byte(b)
						if checkDecode(t, x) && n%64 == 0 {
							v.check(t, x)
						}
						n++
					}
				}
			}
			t.Trace(n)
			t.Eval(n)
		}},
		{Name: "real-edits", N: len(realSig) * 80, Doc: "every edit of one byte of valid SM2 signatures: decoding, and verification of everything that decodes at selected positions", Run: func(t *eng.T, i int) {
			v, sig := realV[i/80], realSig[i/80]
			p := i % 80
			t.Descf("byte %d of %x", p, sig)
			if p == 0 {
				if !v.check(t, sig) {
					t.Failf("the valid signature is refused")
				}
				n := 0
				structEdits(sig, func(x []byte) {
					checkDecode(t, x)
					if n%97 == 0 || len(x) == len(sig) {
						v.check(t, x)
					}
					n++
				})
				r, s, _ := ref.ParseSig(sig)
				for _, x := range sigVariants(r, s) {
					checkDecode(t, x)
					v.check(t, x)
					n++
				}
				// r or s replaced by congruent values
				for k := int64(-2); k <= 2; k++ {
					for l := int64(-2); l <= 2; l++ {
						rr := new(big.Int).Add(r, new(big.Int).Mul(bint(k), ref.SM2.N))
						ss := new(big.Int).Add(s, new(big.Int).Mul(bint(l), ref.SM2.N))
						v.check(t, ref.EncodeSig(rr, ss))
						v.check(t, ref.EncodeSig(ss, rr))
					}
				}
				t.Trace(n)
			}
			if p >= len(sig) {
				return
			}
			x := append([]byte{}, sig...)
			for d := 1; d < 256; d++ {
				x[p] = sig[p] ^ byte(d)
				if checkDecode(t, x) && (d&(d-1) == 0 || thorough(t.Tier)) {
					v.check(t, x)
				}
			}
			t.Trace(254)
			t.Eval(254)
		}},
	}
}
