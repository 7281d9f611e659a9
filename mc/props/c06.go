package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C06", Init: selfTest, Spaces: c06,
		Assumptions: []string{"random source outputs: all sequences of up to three boundary values, raw and as the present generator maps them, and failures at every byte"}})
}

var c06Values = func() []*big.Int {
	n := ref.SM2.N
	max := sub(pow2(256), 1)
	v := []*big.Int{bint(0), bint(1), bint(2), sub(n, 3), sub(n, 2), sub(n, 1), n, sub(n, -1), sub(n, -2), ref.SM2.P, sub(ref.SM2.P, 1), sub(ref.SM2.P, -1), max, sub(max, 1), pow2(255), sub(pow2(255), 1), pow2(248), sub(pow2(248), 1), pow2(128), bint(255), bint(256)}
	return v
}()

func checkKeyPair(t *eng.T, pri *sm2.PrivateKey, pub *sm2.PublicKey) {
	if pri == nil || pub == nil {
		t.Failf("no error but a missing key")
	}
	if pri.D.Sign() <= 0 || pri.D.Cmp(sub(ref.SM2.N, 1)) >= 0 {
		t.Failf("generated private key %x is not in [1, n-2]", pri.D)
	}
	want := ref.SM2.MulG(pri.D)
	if pub.X.Cmp(want.X) != 0 || pub.Y.Cmp(want.Y) != 0 {
		t.Failf("public key of generated private key %x is (%x, %x), want (%x, %x)", pri.D, pub.X, pub.Y, want.X, want.Y)
	}
	for _, c := range []sm2.P256V1Curve{pri.Curve, pub.Curve} {
		if c.CurveParams == nil || c.P.Cmp(ref.SM2.P) != 0 || c.N.Cmp(ref.SM2.N) != 0 || c.A.Cmp(ref.SM2.A) != 0 || c.B.Cmp(ref.SM2.B) != 0 ||
			c.Gx.Cmp(ref.SM2.Gx) != 0 || c.Gy.Cmp(ref.SM2.Gy) != 0 || c.BitSize != 256 {
			t.Failf("the key does not carry the SM2 curve")
		}
	}
}

func checkExport(t *eng.T, pub *sm2.PublicKey, x, y *big.Int) {
	raw := append(ref.B32(x), ref.B32(y)...)
	for i := 0; i < 2; i++ {
		wantBytes(t, "PublicKey.GetRawBytes", pub.GetRawBytes(), raw)
		wantBytes(t, "PublicKey.GetUnCompressBytes", pub.GetUnCompressBytes(), append([]byte{4}, raw...))
	}
	t.Ops(4)
}

// importPub imports 64 bytes and compares with the model.
func importPub(t *eng.T, raw []byte) {
	g := newGuard("bytes", raw, 6)
	pub, err := sm2.RawBytesToPublicKey(g.b())
	t.Ops(1)
	g.check(t)
	ok := false
	var x, y *big.Int
	if len(raw) == 64 {
		x, y = new(big.Int).SetBytes(raw[:32]), new(big.Int).SetBytes(raw[32:])
		ok = ref.SM2.On(x, y)
	}
	if ok != (err == nil) {
		t.Failf("RawBytesToPublicKey(%s): error %v, but point validity is %v", hx(raw), err, ok)
	}
	if !ok {
		if pub != nil {
			t.Failf("RawBytesToPublicKey(%s) returned a key with error %v", hx(raw), err)
		}
		return
	}
	g.scribble()
	if pub.X.Cmp(x) != 0 || pub.Y.Cmp(y) != 0 {
		t.Failf("RawBytesToPublicKey(%s) gave (%x, %x)", hx(raw), pub.X, pub.Y)
	}
	out := pub.GetRawBytes()
	wantBytes(t, "export of imported public key", out, raw)
	for i := range out {
		out[i] ^= 0xff
	}
	checkExport(t, pub, x, y)
	t.Obs(raw)
}

func importPriv(t *eng.T, raw []byte) {
	g := newGuard("bytes", raw, 6)
	pri, err := sm2.RawBytesToPrivateKey(g.b())
	t.Ops(1)
	g.check(t)
	d := new(big.Int).SetBytes(raw)
	ok := len(raw) == 32 && d.Sign() > 0 && d.Cmp(sub(ref.SM2.N, 2)) <= 0
	if ok != (err == nil) {
		t.Failf("RawBytesToPrivateKey(%s): error %v, but validity is %v", hx(raw), err, ok)
	}
	if !ok {
		if pri != nil {
			t.Failf("RawBytesToPrivateKey(%s) returned a key with error %v", hx(raw), err)
		}
		return
	}
	g.scribble()
	if pri.D.Cmp(d) != 0 {
		t.Failf("RawBytesToPrivateKey(%s) gave %x", hx(raw), pri.D)
	}
	out := pri.GetRawBytes()
	wantBytes(t, "export of imported private key", out, raw)
	for i := range out {
		out[i] ^= 0xff
	}
	wantBytes(t, "second export of imported private key", pri.GetRawBytes(), raw)
	t.Ops(2)
	t.Obs(raw)
}

func c06(tier string) []eng.Space {
	nv := len(c06Values)
	scal := realScalars()
	var special []ref.Point
	special = append(special, ref.SM2.G())
	for _, k := range scal {
		special = append(special, ref.SM2.MulG(k))
	}
	smallX := []int64{0, 1, 7, 11, 12, 14}
	for _, x := range smallX {
		X := bint(x)
		r := new(big.Int).Mul(X, X)
		r.Add(r, ref.SM2.A).Mul(r, X).Add(r, ref.SM2.B).Mod(r, ref.SM2.P)
		y := new(big.Int).ModSqrt(r, ref.SM2.P)
		special = append(special, ref.Point{X: X, Y: y}, ref.SM2.Neg(ref.Point{X: X, Y: y}))
	}
	return []eng.Space{
		{Name: "generate-boundaries", N: nv * nv * 4, Doc: "all pairs of boundary values as first draws, raw or in the generator's own mapping, followed by a good value", Run: func(t *eng.T, i int) {
			d := mix(i, nv, nv, 4)
			var parts [][]byte
			for k, v := range d[:2] {
				b := ref.B32(c06Values[v])
				if d[2]>>uint(k)&1 == 1 {
					b[1] ^= 0x42
				}
				parts = append(parts, b)
			}
			good := ref.B32(hexBig("1234567812345678123456781234567812345678123456781234567812345678"))
			parts = append(parts, good, good, good)
			t.Descf("random source: %x %x good", parts[0], parts[1])
			s := newScript(parts...)
			pri, pub, err := sm2.GenerateKey(s)
			t.Ops(1)
			if err != nil {
				t.Failf("GenerateKey failed with a working source: %v", err)
			}
			checkKeyPair(t, pri, pub)
			checkExport(t, pub, pub.X, pub.Y)
			wantBytes(t, "export of generated private key", pri.GetRawBytes(), ref.B32(pri.D))
			t.Obs(ref.B32(pri.D))
		}},
		{Name: "generate-only-bad", N: nv * 2, Doc: "sources that yield only one boundary value and then fail: a valid key or an error, never a bad key", Run: func(t *eng.T, i int) {
			b := ref.B32(c06Values[i/2])
			if i%2 == 1 {
				b[1] ^= 0x42
			}
			for n := 0; n <= 3; n++ {
				t.Descf("random source: %d times %x, then failure", n, b)
				s := newScript(bytes.Repeat(b, n))
				pri, pub, err := sm2.GenerateKey(s)
				t.Ops(1)
				if err != nil {
					if pri != nil || pub != nil {
						t.Failf("keys together with error %v", err)
					}
					if !s.dry {
						t.Failf("error %v although the source did not fail", err)
					}
					continue
				}
				if s.dry {
					t.Failf("the source failed but GenerateKey succeeded")
				}
				checkKeyPair(t, pri, pub)
			}
		}},
		{Name: "generate-special", N: (len(scal) + pick(tier, 600, 20000)) * 2, Doc: "sources that yield boundary private keys (also those whose public coordinates have one or two leading zero bytes) and all small ones", Run: func(t *eng.T, i int) {
			v := bint(int64(i/2 - len(scal) + 1))
			if i/2 < len(scal) {
				v = scal[i/2]
			}
			b := ref.B32(v)
			if i%2 == 1 {
				b[1] ^= 0x42
			}
			t.Descf("random source: %x, then good bytes", b)
			pri, pub, err := sm2.GenerateKey(newScript(b, pat(3, 64)))
			t.Ops(1)
			if err != nil {
				t.Failf("GenerateKey: %v", err)
			}
			if pri.D.Cmp(v) == 0 {
				t.Note("generated keys that are exactly the intended one", 1)
			}
			checkKeyPair(t, pri, pub)
			checkExport(t, pub, pub.X, pub.Y)
			wantBytes(t, "export of generated private key", pri.GetRawBytes(), ref.B32(pri.D))
			t.Obs(ref.B32(pri.D))
		}},
		{Name: "generate-byte-values", N: 32 * 16, Doc: "every nibble pattern of every random byte", Run: func(t *eng.T, i int) {
			b := pat(0, 32)
			b[i/16] = byte(i % 16 * 17)
			t.Descf("random source: %x", b)
			pri, pub, err := sm2.GenerateKey(newScript(b, pat(3, 64)))
			t.Ops(1)
			if err != nil {
				t.Failf("GenerateKey: %v", err)
			}
			checkKeyPair(t, pri, pub)
			t.Obs(ref.B32(pri.D))
		}},
		{Name: "generate-failing-source", N: 100, Doc: "a source failing after every number of bytes, with whole and short reads", Run: func(t *eng.T, i int) {
			for _, chunk := range []int{0, 1, 7} {
				data := pat(3, i)
				for k := 0; k+32 <= len(data); k += 32 {
					// make every complete draw a rejected one
					copy(data[k:], ref.B32(sub(pow2(256), 1)))
				}
				t.Descf("%d bytes (only values above n), reads of at most %d bytes, then failure", i, chunk)
				s := newScript(data)
				s.chunk = chunk
				pri, pub, err := sm2.GenerateKey(s)
				t.Ops(1)
				if err == nil && s.dry {
					t.Failf("GenerateKey succeeded although the source failed")
				}
				if err != nil && (pri != nil || pub != nil) {
					t.Failf("keys together with error %v", err)
				}
				if err == nil {
					checkKeyPair(t, pri, pub)
				}
			}
		}},
		{Name: "import-private-values", N: nv + len(scal), Doc: "boundary private values and their neighbours", Run: func(t *eng.T, i int) {
			var v *big.Int
			if i < nv {
				v = c06Values[i]
			} else {
				v = scal[i-nv]
			}
			t.Descf("private value %x and neighbours", v)
			for dlt := int64(-3); dlt <= 3; dlt++ {
				w := sub(v, dlt)
				if w.Sign() >= 0 && w.BitLen() <= 256 {
					importPriv(t, ref.B32(w))
				}
			}
		}},
		{Name: "import-private-bytes", N: 32 * 256, Doc: "every value of every byte, on a zero, an all-ones and the n-2 background", Run: func(t *eng.T, i int) {
			for _, b := range [][]byte{make([]byte, 32), pat(2, 32), ref.B32(sub(ref.SM2.N, 2))} {
				b[i/256] = byte(i)
				t.Descf("private bytes %x", b)
				importPriv(t, b)
			}
		}},
		{Name: "import-lengths", N: 200, Doc: "every length for both importers, also of otherwise valid values padded or cut", Run: func(t *eng.T, i int) {
			t.Descf("imports of %d bytes", i)
			priv := append(make([]byte, 200), ref.B32(bint(5))...)
			importPriv(t, priv[len(priv)-i:])
			importPriv(t, append(ref.B32(bint(5)), make([]byte, 200)...)[:i])
			raw := append(ref.B32(ref.SM2.Gx), ref.B32(ref.SM2.Gy)...)
			importPub(t, append(append([]byte{}, raw...), make([]byte, 200)...)[:i])
			full := append(make([]byte, 200), raw...)
			importPub(t, full[len(full)-i:])
			unc := append([]byte{4}, raw...)
			if i < len(unc) {
				importPub(t, unc[:i])
				importPub(t, unc[i:])
			}
			importPub(t, pat(0, i))
			if i == 0 {
				importPub(t, nil)
				importPriv(t, nil)
			}
		}},
		{Name: "import-notations", N: len(special) + len(scal), Doc: "boundary points and private keys in other notations (uncompressed, compressed and hybrid with every prefix, swapped, reversed, other widths, hex, base64, DER, PEM): what is not the raw form is refused, for both importers", Run: func(t *eng.T, i int) {
			rev := func(b []byte) []byte {
				o := make([]byte, len(b))
				for i := range b {
					o[len(b)-1-i] = b[i]
				}
				return o
			}
			n := 0
			both := func(what string, parts ...[]byte) {
				b := bytes.Join(parts, nil)
				t.Descf("%s: %x", what, b)
				importPub(t, b)
				importPriv(t, b)
				n++
			}
			forms := func(parts ...[]byte) {
				raw := bytes.Join(parts, nil)
				both("raw", raw)
				both("reversed", rev(raw))
				for _, p := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x20, 0x40, 0x41, 0x80, 0xff} {
					both("prefixed", []byte{p}, raw)
					both("followed by a byte", raw, []byte{p})
					both("prefixed with two bytes", []byte{0, p}, raw)
				}
				for _, tag := range []byte{2, 3, 4, 0x30, 0x80, 0xa0} {
					both("DER", ref.TLV(tag, raw))
					both("DER", ref.TLV(tag, []byte{0}, raw))
					both("DER", ref.TLV(tag, []byte{4}, raw))
					both("DER", ref.TLV(0x30, ref.TLV(tag, raw)))
					both("DER", ref.TLV(tag, new(big.Int).SetBytes(raw).Bytes()))
				}
				for _, x := range []string{hex.EncodeToString(raw), strings.ToUpper(hex.EncodeToString(raw)), "04" + hex.EncodeToString(raw), "0x" + hex.EncodeToString(raw), base64.StdEncoding.EncodeToString(raw), base64.RawURLEncoding.EncodeToString(raw), new(big.Int).SetBytes(raw).String()} {
					both("text", []byte(x))
					both("text", []byte(x+"\n"))
				}
				for _, w := range []int{24, 28, 31, 33, 40, 48, 64, 66} {
					var l [][]byte
					ok := true
					for _, p := range parts {
						v := new(big.Int).SetBytes(p)
						if (v.BitLen()+7)/8 > w {
							ok = false
							break
						}
						l = append(l, v.FillBytes(make([]byte, w)))
					}
					if ok {
						both("other width", l...)
						both("other width", append([][]byte{{4}}, l...)...)
					}
				}
			}
			if i < len(special) {
				p := special[i]
				x, y := ref.B32(p.X), ref.B32(p.Y)
				forms(x, y)
				both("swapped", y, x)
				both("little-endian", rev(x), rev(y))
				for v := 0; v < 256; v++ {
					both("compressed", []byte{byte(v)}, x)
				}
				both("x", x)
				both("y", y)
				both("compressed, padded", []byte{byte(2 + p.Y.Bit(0))}, x, make([]byte, 31))
				both("compressed, padded", make([]byte, 31), []byte{byte(2 + p.Y.Bit(0))}, x)
				both("SubjectPublicKeyInfo", ref.SPKI(p))
				both("PEM", []byte("-----BEGIN PUBLIC KEY-----\n"+base64.StdEncoding.EncodeToString(ref.SPKI(p))+"\n-----END PUBLIC KEY-----\n"))
			} else {
				d := scal[i-len(special)]
				forms(ref.B32(d))
				both("negative", ref.B32(new(big.Int).Sub(ref.SM2.N, d)))
				both("with its public key", ref.B32(d), ref.B32(ref.SM2.MulG(d).X))
				both("twice", ref.B32(d), ref.B32(d))
				both("EC private key", ref.TLV(0x30, ref.DERInt(bint(1)), ref.TLV(4, ref.B32(d))))
			}
			t.Trace(n)
		}},
		{Name: "import-points", N: len(special), Doc: "points with boundary coordinates: as they are, negated, with coordinates shifted by p, exchanged, off by one", Run: func(t *eng.T, i int) {
			p := special[i]
			t.Descf("point (%x, %x) and its variants", p.X, p.Y)
			xs := []*big.Int{p.X, sub(p.X, 1), sub(p.X, -1), new(big.Int).Add(p.X, ref.SM2.P), new(big.Int).Sub(ref.SM2.P, p.X), p.Y, bint(0), ref.SM2.P}
			ys := []*big.Int{p.Y, sub(p.Y, 1), sub(p.Y, -1), new(big.Int).Add(p.Y, ref.SM2.P), new(big.Int).Sub(ref.SM2.P, p.Y), p.X, bint(0), ref.SM2.P}
			for _, x := range xs {
				for _, y := range ys {
					if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > 256 || y.BitLen() > 256 {
						continue
					}
					importPub(t, append(ref.B32(x), ref.B32(y)...))
				}
			}
		}},
		{Name: "import-bit-flips", N: 512 * 4, Doc: "every single-bit alteration of four encoded points", Run: func(t *eng.T, i int) {
			p := special[i/512*3]
			raw := append(ref.B32(p.X), ref.B32(p.Y)...)
			raw[i%512/8] ^= 1 << uint(i%8)
			t.Descf("public bytes %x", raw)
			importPub(t, raw)
		}},
		{Name: "multiples", N: pick(tier, 400, 5000), Doc: "public keys of small private keys, their export and re-import", Run: func(t *eng.T, i int) {
			d := bint(int64(i + 1))
			if i%2 == 1 {
				d = sub(ref.SM2.N, int64(i+1))
			}
			t.Descf("private key %x", d)
			pri, err := sm2.RawBytesToPrivateKey(ref.B32(d))
			if err != nil {
				t.Failf("import: %v", err)
			}
			pub := sm2.CalculatePubKey(pri)
			checkKeyPair(t, pri, pub)
			checkExport(t, pub, pub.X, pub.Y)
			importPub(t, pub.GetRawBytes())
		}},
		{Name: "special-keys", N: len(scal), Doc: "public keys of boundary private keys", Run: func(t *eng.T, i int) {
			t.Descf("private key %x", scal[i])
			pri, err := sm2.RawBytesToPrivateKey(ref.B32(scal[i]))
			if err != nil {
				t.Failf("import: %v", err)
			}
			pub := sm2.CalculatePubKey(pri)
			checkKeyPair(t, pri, pub)
			checkExport(t, pub, special[1+i].X, special[1+i].Y)
		}},
		{Name: "toy-public-keys", N: 6, Doc: "CalculatePubKey and exports for every private key of six tiny curves", Run: func(t *eng.T, i int) {
			ts := toy([]string{"n<p tiny", "n>p tiny", "n<p small", "n>p byte", "ten bits", "two bytes"}[i])
			step := 1
			if ts.c.ToyN() > 5000 {
				step = pick(t.Tier, 7, 1)
			}
			for d := 1; d < ts.c.ToyN(); d += step {
				t.Desc(func() string { return fmt.Sprintf("%v, private key %d", ts, d) })
				pri := privOf(ts.ic, bint(int64(d)))
				f := freeze(pri, nil)
				pub := sm2.CalculatePubKey(pri)
				f.check(t)
				w := ts.c.ToyPoint(d)
				if pub.X.Cmp(w.X) != 0 || pub.Y.Cmp(w.Y) != 0 {
					t.Failf("public key (%v, %v), want (%v, %v)", pub.X, pub.Y, w.X, w.Y)
				}
				checkExport(t, pub, w.X, w.Y)
				wantBytes(t, "private export", pri.GetRawBytes(), ref.B32(pri.D))
				t.Trace(1)
			}
		}},
	}
}
