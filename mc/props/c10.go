package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	a := []string{"tiny curves (prime order, a = -3) stand for the curve-generic arithmetic: there every key and nonce is covered; on the SM2 curve boundary keys, nonces and lengths are"}
	eng.Register(&eng.Prop{ID: "C10", Init: selfTest, Spaces: c10, Assumptions: a, MemLimitMB: 8000})
	eng.Register(&eng.Prop{ID: "C11", Init: selfTest, Spaces: c11, Assumptions: a})
}

var layouts = []sm2.Sm2CipherTextType{sm2.C1C2C3, sm2.C1C3C2}

// encOnce encrypts with scripted randomness and checks the result; it returns the ciphertext, nil if the source ran dry.
func encOnce(t *eng.T, ts *toySet, d *big.Int, pub *sm2.PublicKey, rp ref.Point, msg []byte, lay sm2.Sm2CipherTextType, rnd *script) []byte {
	var ct []byte
	var err error
	withRand(rnd, func() { ct, err = sm2.Encrypt(pub, msg, lay) })
	t.Ops(1)
	if err != nil {
		if ct != nil {
			t.Failf("output together with error %v", err)
		}
		if !rnd.dry {
			t.Failf("encryption failed with a working random source: %v", err)
		}
		return nil
	}
	if rnd.dry {
		t.Failf("the random source failed but encryption succeeded")
	}
	c := ts.c
	n := c.CoordLen()
	if len(ct) != 1+2*n+32+len(msg) || ct[0] != 4 {
		t.Failf("ciphertext %s of a %d-byte message is malformed", hx(ct), len(msg))
	}
	x, y := new(big.Int).SetBytes(ct[1:1+n]), new(big.Int).SetBytes(ct[1+n:1+2*n])
	if !c.On(x, y) {
		t.Failf("C1 is not a point of the curve")
	}
	// the shared point, through the private key
	s := c.Mul(d, ref.Point{X: x, Y: y})
	ks := ref.KDF(len(msg), ref.B32(s.X), ref.B32(s.Y))
	c2 := make([]byte, len(msg))
	zero := len(msg) > 0
	for i := range c2 {
		c2[i] = msg[i] ^ ks[i]
		if ks[i] != 0 {
			zero = false
		}
	}
	if zero {
		t.Failf("message %s was left in the clear by an all-zero key stream", hx(msg))
	}
	h := ref.SM3(ref.B32(s.X), msg, ref.B32(s.Y))
	want := append([]byte{}, ct[:1+2*n]...)
	if lay == sm2.C1C2C3 {
		want = append(append(want, c2...), h[:]...)
	} else {
		want = append(append(want, h[:]...), c2...)
	}
	if !bytes.Equal(ct, want) {
		t.Failf("layout %d, message %s: ciphertext %s, want %s for its own C1", lay, hx(msg), hx(ct), hx(want))
	}
	return ct
}

func decOK(t *eng.T, pri *sm2.PrivateKey, ct, msg []byte, lay sm2.Sm2CipherTextType) {
	g := newGuard("ciphertext", ct, 40)
	got, err := sm2.Decrypt(pri, g.b(), lay)
	t.Ops(1)
	g.check(t)
	if err != nil {
		t.Failf("decryption of a genuine ciphertext (layout %d, %d bytes of plaintext): %v", lay, len(msg), err)
	}
	if !bytes.Equal(got, msg) {
		t.Failf("decryption gave %s, want %s", hx(got), hx(msg))
	}
	// the result is the caller's: changing the ciphertext does not change it and vice versa
	full := got[:cap(got)]
	for i := range full {
		full[i] ^= 0xff
	}
	g.check(t)
	for i := range full {
		full[i] ^= 0xff
	}
	g.scribble()
	wantBytes(t, "plaintext after its ciphertext was overwritten", got, msg)
}

type encCase struct {
	d, k *big.Int
	m    []byte
	lay  sm2.Sm2CipherTextType
}

// zeroStreams are multiples v of G, as the shared point, with n zero bytes at offset at of their key stream.
var zeroStreams = []struct {
	v     int64
	at, n int
}{{35398, 0, 2}, {110359, 0, 2}, {185131, 0, 2}, {700246, 0, 3}, {39930, 30, 2}, {180763, 30, 2}, {172760, 32, 2}}

func realEnc(t *eng.T, c encCase) []byte {
	t.Descf("SM2 curve, d=%x, nonce bytes for k=%x, message %s, layout %d", c.d, c.k, hx(c.m), c.lay)
	rp := ref.SM2.MulG(c.d)
	pub := pubOf(realSet.ic, rp)
	pri := privOf(realSet.ic, c.d)
	f := freeze(pri, pub)
	g := newGuard("plaintext", c.m, 50)
	m := g.b()
	if c.m == nil {
		m = nil
	}
	ct := encOnce(t, realSet, c.d, pub, rp, m, c.lay, newScript(nonceBytes(ref.SM2, c.k), pat(3, 96)))
	g.check(t)
	f.check(t)
	if ct == nil {
		t.Failf("encryption needed more than four draws")
	}
	if c.k.Sign() > 0 && c.k.Cmp(ref.SM2.N) < 0 {
		if want, ok := ref.SM2.EncK(rp, c.m, c.k, c.lay == sm2.C1C2C3); ok && bytes.Equal(want, ct) {
			t.Note("ciphertexts with exactly the intended nonce", 1)
		}
	}
	g.scribble()
	decOK(t, pri, ct, c.m, c.lay)
	f.check(t)
	t.Obs(ct)
	return ct
}

func toyEnc(t *eng.T, ts *toySet, d int, depth int, msgs [][]byte, step int) {
	c := ts.c
	rp := c.ToyPoint(d)
	pub := pubOf(ts.ic, rp)
	pri := privOf(ts.ic, bint(int64(d)))
	f := freeze(pri, pub)
	width := (c.N.BitLen() + 7) / 8
	for mi, m := range msgs {
		lay := layouts[(mi+d)%2]
		used := map[int]bool{}
		var cur []byte
		t.Desc(func() string {
			return fmt.Sprintf("%v, private key %d, message %s, layout %d, random bytes %x", ts, d, hx(m), lay, cur)
		})
		one := func(b []byte) bool {
			cur = b
			ct := encOnce(t, ts, bint(int64(d)), pub, rp, m, lay, newScript(b))
			if ct == nil {
				return true
			}
			n := c.CoordLen()
			k := c.Log(new(big.Int).SetBytes(ct[1:1+n]), new(big.Int).SetBytes(ct[1+n:1+2*n]))
			if !used[k] {
				used[k] = true
				decOK(t, pri, ct, m, lay)
				t.Obs(ct)
			}
			return false
		}
		runs := 0
		if step > 1 {
			for v := d % step; v < pow(256, width); v += step {
				b := make([]byte, width)
				for k, x := width-1, v; k >= 0; k-- {
					b[k] = byte(x)
					x >>= 8
				}
				one(b)
				runs++
			}
		} else {
			runs, _ = rngTree(nil, width, depth, one)
			if len(used) > 0 {
				for k := 1; k < c.ToyN(); k++ {
					_, ok := c.EncK(rp, m, bint(int64(k)), true)
					if ok != used[k] {
						t.Failf("nonce %d: permitted %v, used for some random bytes: %v", k, ok, used[k])
					}
					if !ok {
						t.Note("nonces with an all-zero key stream", 1)
					}
				}
			}
		}
		f.check(t)
		t.Trace(runs)
		t.Eval(runs)
	}
}

func c10(tier string) []eng.Space {
	scal := realScalars()
	lens := []int{}
	for i := 0; i <= pick(tier, 330, 1100); i++ {
		lens = append(lens, i)
	}
	for _, k := range []int{1023, 1024, 1025, 4096, 8128, 8129, 8159, 8160, 8161, 8191, 8192, 8193, 8224, 16384, 65535, 65536, 65537, 100000} {
		lens = append(lens, k)
	}
	ts1, ts2, ts3 := toy("n<p tiny"), toy("n>p byte"), toy("two bytes")
	tsT := toy("ten bits")
	one := make([][]byte, 0)
	for v := 0; v < 256; v += 51 {
		one = append(one, []byte{byte(v)})
	}
	s := []eng.Space{
		{Name: "toy one byte", N: ts2.c.ToyN() - 2, Doc: ts2.String() + ": every private key, one-byte and other short messages, every random byte and, after rejected ones, every second", Run: func(t *eng.T, i int) {
			dep := 1
			if i < pick(t.Tier, 24, 10000) {
				dep = 2
			}
			ms := [][]byte{{0x5a}, {}, {0, 0}, pat(0, 33)}
			if thorough(t.Tier) {
				ms = append(ms, one...)
			}
			toyEnc(t, ts2, i+1, dep, ms, 1)
		}},
		{Name: "toy tiny", N: ts1.c.ToyN() - 1, Doc: ts1.String() + ": every private key, messages of length 0..70, two draws", Run: func(t *eng.T, i int) {
			var ms [][]byte
			for l := 0; l <= 70; l += pick(t.Tier, 9, 1) {
				ms = append(ms, pat(3, l))
			}
			dep := 1
			if i == 2 || i == 6 {
				dep = 2
				ms = ms[:4]
			}
			toyEnc(t, ts1, i+1, dep, ms, 1)
		}},
		{Name: "toy two bytes", N: 64, Doc: ts3.String() + ": keys spread over the range, a lattice of all 16-bit draws (every one in the thorough tier); coordinates with leading zero bytes", Run: func(t *eng.T, i int) {
			d := 1 + i*1019%(ts3.c.ToyN()-2)
			toyEnc(t, ts3, d, 1, [][]byte{pat(0, 1+i%3)}, pick(t.Tier, 67, 3))
		}},
		{Name: "toy ten bits", N: 64, Doc: tsT.String() + ": a field whose size is no whole number of bytes", Run: func(t *eng.T, i int) {
			toyEnc(t, tsT, 1+i*13%(tsT.c.ToyN()-2), 1, [][]byte{pat(0, i)}, pick(t.Tier, 61, 1))
		}},
		{Name: "real-lengths", N: len(lens), Doc: "every plaintext length of the list in both layouts on the SM2 curve", Run: func(t *eng.T, i int) {
			for _, l := range layouts {
				realEnc(t, encCase{scal[15], scal[27], pat((lens[i]+int(l))%4, lens[i]), l})
			}
			if lens[i] == 0 {
				realEnc(t, encCase{scal[15], scal[27], nil, sm2.C1C3C2})
				realEnc(t, encCase{scal[15], scal[27], nil, sm2.C1C2C3})
			}
		}},
		{Name: "real-keys-nonces", N: len(scal) * 6, Doc: "boundary keys and nonces, chosen so that coordinates of C1 or of the shared point have leading zero bytes", Run: func(t *eng.T, i int) {
			d, j := scal[i/6], i%6
			var k *big.Int
			switch j {
			case 0, 1, 2:
				// kP = v G for a special v
				v := bint(specialScalars[(i/6+j*4)%len(specialScalars)])
				k = new(big.Int).ModInverse(d, ref.SM2.N)
				k.Mul(k, v).Mod(k, ref.SM2.N)
			case 3:
				k = bint(specialScalars[i/6%len(specialScalars)])
			case 4:
				k = sub(ref.SM2.N, 1)
			case 5:
				k = scal[(i/6*7+1)%len(scal)]
			}
			realEnc(t, encCase{d, k, pat(0, 19+i%40), layouts[i%2]})
		}},
		{Name: "real-special-nonces", N: len(scal), Doc: "every boundary nonce with one key", Run: func(t *eng.T, i int) {
			realEnc(t, encCase{scal[len(scal)-2], scal[i], []byte("encryption standard"), layouts[i%2]})
		}},
		{Name: "real-special-public-keys", N: 12, Doc: "public keys with tiny or zero x coordinate (private key unknown): encryption against the model", Run: func(t *eng.T, i int) {
			x := bint([]int64{0, 1, 7, 11, 12, 14}[i/2])
			r := new(big.Int).Mul(x, x)
			r.Add(r, ref.SM2.A).Mul(r, x).Add(r, ref.SM2.B).Mod(r, ref.SM2.P)
			p := ref.Point{X: x, Y: new(big.Int).ModSqrt(r, ref.SM2.P)}
			if i%2 == 1 {
				p = ref.SM2.Neg(p)
			}
			t.Descf("public key (%x, %x)", p.X, p.Y)
			k := scal[i+20]
			var ct []byte
			var err error
			withRand(newScript(nonceBytes(ref.SM2, k), pat(3, 64)), func() { ct, err = sm2.Encrypt(pubOf(realSet.ic, p), pat(0, 40), layouts[i%2]) })
			t.Ops(1)
			if err != nil {
				t.Failf("%v", err)
			}
			want, _ := ref.SM2.EncK(p, pat(0, 40), k, i%2 == 0)
			if bytes.Equal(ct[:65], want[:65]) {
				wantBytes(t, "ciphertext", ct, want)
				t.Note("ciphertexts with exactly the intended nonce", 1)
			}
		}},
		{Name: "key-stream zeros", N: len(zeroStreams) * 2, Doc: "shared points whose key stream begins with 2 or 3 zero bytes or has zeros at the end of the first or the start of the second block (message wholly or partly unchanged), messages up to 3 blocks", Run: func(t *eng.T, i int) {
			z := zeroStreams[i/2]
			g := ref.SM2.MulG(bint(z.v))
			if ks := ref.KDF(z.at+z.n, ref.B32(g.X), ref.B32(g.Y)); !bytes.Equal(ks[z.at:], make([]byte, z.n)) {
				panic("zeroStreams table is wrong")
			}
			d := scal[i%2*9+11]
			k := new(big.Int).ModInverse(d, ref.SM2.N)
			k.Mul(k, bint(z.v)).Mod(k, ref.SM2.N)
			for _, n := range []int{1, 2, 3, 4, 5, 16, 31, 32, 33, 34, 35, 63, 64, 65, 96} {
				for kind := 0; kind < 4; kind++ {
					realEnc(t, encCase{d, k, pat(kind, n), layouts[(i+n+kind)%2]})
				}
			}
		}},
		{Name: "real-rejected-draws", N: 8, Doc: "first draws outside [1, n-1]", Run: func(t *eng.T, i int) {
			n := ref.SM2.N
			v := []*big.Int{bint(0), n, sub(n, -1), sub(n, -2), sub(pow2(256), 1), sub(ref.SM2.P, 1), ref.SM2.P, new(big.Int).Add(n, pow2(128))}[i]
			realEnc(t, encCase{scal[9], v, []byte("m"), layouts[i%2]})
		}},
		{Name: "plaintext-bytes", N: 256, Doc: "every value of every byte of a 40-byte plaintext (tiny curve), and all-equal plaintexts", Run: func(t *eng.T, i int) {
			ts := toy("n>p tiny")
			d := bint(int64(2 + i%15))
			rp := ts.c.MulG(d)
			for p := 0; p < 40; p++ {
				m := pat(3, 40)
				m[p] = byte(i)
				t.Descf("message %s", hx(m))
				for _, l := range layouts {
					ct := encOnce(t, ts, d, pubOf(ts.ic, rp), rp, m, l, newScript([]byte{byte(1 + p%15)}, pat(0, 20)))
					if ct == nil {
						t.Failf("no ciphertext")
					}
					decOK(t, privOf(ts.ic, d), ct, m, l)
				}
			}
			for l := 1; l < 70; l++ {
				m := bytes.Repeat([]byte{byte(i)}, l)
				ct := encOnce(t, ts, d, pubOf(ts.ic, rp), rp, m, sm2.C1C3C2, newScript([]byte{byte(1 + l%15)}, pat(0, 20)))
				if ct == nil {
					t.Failf("no ciphertext")
				}
				decOK(t, privOf(ts.ic, d), ct, m, sm2.C1C3C2)
			}
		}},
		{Name: "refused-arguments", N: 40, Doc: "unknown layouts and invalid public keys are refused with an error", Run: func(t *eng.T, i int) {
			for _, ts := range []*toySet{realSet, toy("n<p tiny"), ts2} {
				g := ts.c.G()
				var pub *sm2.PublicKey
				lay := sm2.C1C3C2
				what := ""
				switch {
				case i < 12:
					lay = sm2.Sm2CipherTextType([]int32{0, 3, -1, 4, 5, 255, 256, 257, 258, 1 << 16, -2147483648, 2147483647}[i])
					pub = pubOf(ts.ic, g)
					what = fmt.Sprintf("layout %d", lay)
					ct, _ := ts.c.EncK(g, []byte("hello"), bint(3), true)
					out, err := sm2.Decrypt(privOf(ts.ic, bint(1)), ct, lay)
					if err == nil || out != nil {
						t.Failf("Decrypt with layout %d: %x, %v", lay, out, err)
					}
					if ts == realSet {
						if out, err := sm2.MarshalCipher(ct, lay); err == nil || out != nil {
							t.Failf("MarshalCipher with layout %d: %x, %v", lay, out, err)
						}
						der, _ := ref.EncodeCipher(ct, true)
						if out, err := sm2.UnmarshalCipher(der, lay); err == nil || out != nil {
							t.Failf("UnmarshalCipher with layout %d: %x, %v", lay, out, err)
						}
					}
				default:
					q := []*sm2.PublicKey{
						{X: bint(0), Y: bint(0)}, {X: g.X, Y: sub(g.Y, 1)}, {X: sub(g.X, -1), Y: g.Y}, {X: new(big.Int).Add(g.X, ts.c.P), Y: g.Y}, {X: g.X, Y: new(big.Int).Add(g.Y, ts.c.P)},
						{X: g.X, Y: new(big.Int).Sub(g.Y, ts.c.P)}, {X: bint(-1), Y: bint(1)}, {X: pow2(256), Y: pow2(256)}, {X: pow2(512), Y: g.Y}, {X: ts.c.P, Y: ts.c.P}, {X: g.X, Y: bint(0)}, {X: new(big.Int).Neg(g.X), Y: new(big.Int).Neg(g.Y)},
					}[i%12]
					q.Curve = ts.ic
					pub = q
					lay = layouts[i/12%2]
					what = fmt.Sprintf("public key (%v, %v)", q.X, q.Y)
					if ts.c.On(q.X, q.Y) {
						continue
					}
				}
				t.Descf("%s: %s", ts.name, what)
				for _, m := range [][]byte{nil, {}, {1}, pat(0, 100)} {
					var out []byte
					var err error
					withRand(newPrng(i), func() { out, err = sm2.Encrypt(pub, m, lay) })
					t.Ops(1)
					if err == nil || out != nil {
						t.Failf("Encrypt of %d bytes gave %s, %v", len(m), hx(out), err)
					}
				}
			}
		}},
		{Name: "successive", N: 64, Doc: "several encryptions from one stream, decrypted afterwards in another order", Run: func(t *eng.T, i int) {
			ts := []*toySet{toy("n<p tiny"), ts2, ts3, realSet}[i%4]
			t.Descf("%v: 10 encryptions with different keys, lengths and layouts", ts.name)
			var cts, ms [][]byte
			var ds []*big.Int
			withRand(newPrng(i), func() {
				for j := 0; j < 10; j++ {
					d := bint(int64(1 + (i*3+j)%9))
					m := pat(j%4, (i*7+j*13)%90)
					ct, err := sm2.Encrypt(pubOf(ts.ic, ts.c.MulG(d)), m, layouts[j%2])
					if err != nil {
						t.Failf("%v", err)
					}
					cts, ms, ds = append(cts, ct), append(ms, m), append(ds, d)
				}
			})
			for j := range cts {
				x := (j*7 + i) % 10
				got, ok := ts.c.Dec(ds[x], cts[x], x%2 == 0)
				if !ok || !bytes.Equal(got, ms[x]) {
					t.Failf("ciphertext %d is not one of its message", x)
				}
				decOK(t, privOf(ts.ic, ds[x]), cts[x], ms[x], layouts[x%2])
			}
			t.Ops(20)
		}},
		{Name: "counter-carry", N: 2, Timeout: 5 * time.Minute, Doc: "a plaintext of more than 65536 hash blocks", Run: func(t *eng.T, i int) {
			n := 65537*32 + 5
			realEnc(t, encCase{scal[2], scal[3], pat(3, n), layouts[i]})
		}},
	}
	if thorough(tier) {
		s = append(s, eng.Space{Name: "counter-carry-24", N: 1, Timeout: 20 * time.Minute, Doc: "a plaintext of more than 2^24 hash blocks", Run: func(t *eng.T, i int) {
			realEnc(t, encCase{scal[2], scal[3], make([]byte, (1<<24+1)*32+5), layouts[i]})
		}})
	}
	return s
}

// ---- C11 ----

// mustReject decrypts a string and compares with the model.
func decModel(t *eng.T, ts *toySet, d *big.Int, pri *sm2.PrivateKey, ct []byte, lay sm2.Sm2CipherTextType) bool {
	want, ok := ts.c.Dec(d, ct, lay == sm2.C1C2C3)
	g := newGuard("ciphertext", ct, 5)
	got, err := sm2.Decrypt(pri, g.b(), lay)
	t.Ops(1)
	g.check(t)
	if ok != (err == nil) {
		t.Failf("Decrypt(%s, layout %d): error %v, genuine: %v", hx(ct), lay, err, ok)
	}
	if !ok && got != nil {
		t.Failf("Decrypt(%s, layout %d) released %s with error %v", hx(ct), lay, hx(got), err)
	}
	if ok && !bytes.Equal(got, want) {
		t.Failf("Decrypt(%s) = %s, want %s", hx(ct), hx(got), hx(want))
	}
	t.Obs(ct, ok)
	return ok
}

func c11(tier string) []eng.Space {
	scal := realScalars()
	tsB, tsT, tsW := toy("n>p byte"), toy("n<p tiny"), toy("two bytes")
	mlens := []int{0, 1, 2, 5, 31, 32, 33, 64, 65}
	type rb struct {
		d   *big.Int
		m   []byte
		ct  []byte
		lay sm2.Sm2CipherTextType
	}
	var rbs []rb
	for i, l := range []int{0, 1, 19, 32, 40, 100} {
		d, k := scal[i*5+2], scal[i*3+8]
		m := pat(i%4, l)
		for _, lay := range layouts {
			ct, ok := ref.SM2.EncK(ref.SM2.MulG(d), m, k, lay == sm2.C1C2C3)
			if ok {
				rbs = append(rbs, rb{d, m, ct, lay})
			}
		}
	}
	maxCt := 97 + 100
	return []eng.Space{
		{Name: "toy-edits", N: 3 * 2 * len(mlens), Doc: "every edit of one byte (and all truncations and insertions) of genuine ciphertexts on three tiny curves", Run: func(t *eng.T, i int) {
			x := mix(i, 3, 2, len(mlens))
			ts := []*toySet{tsB, tsT, tsW}[x[0]]
			lay := layouts[x[1]]
			d := bint(int64(3 + i%8))
			m := pat(3, mlens[x[2]])
			var ct []byte
			for k := int64(2); ; k++ {
				var ok bool
				if ct, ok = ts.c.EncK(ts.c.MulG(d), m, bint(k), x[1] == 0); ok {
					break
				}
			}
			pri := privOf(ts.ic, d)
			t.Descf("%v, d=%v, ciphertext %s, layout %d", ts, d, hx(ct), lay)
			if !decModel(t, ts, d, pri, ct, lay) {
				t.Failf("genuine ciphertext refused by the model")
			}
			n, acc := 0, 0
			edits(ct, func(y []byte) {
				if decModel(t, ts, d, pri, y, lay) {
					acc++
				}
				n++
			})
			decModel(t, ts, d, pri, ct, layouts[1-x[1]])
			t.Trace(n)
			t.Eval(n)
			t.Note("altered strings that are genuine by the model", acc)
		}},
		{Name: "toy-C1", N: 256 * 2, Doc: "every pair of coordinate bytes as C1, under every leading byte for the pairs on the curve", Run: func(t *eng.T, i int) {
			lay := layouts[i/256]
			x := i % 256
			d := bint(5)
			pri := privOf(tsB.ic, d)
			body := pat(3, 32+4)
			for y := 0; y < 256; y++ {
				ct := append([]byte{4, byte(x), byte(y)}, body...)
				t.Descf("%v: C1 = %x", tsB, ct[:3])
				// make C3 right for the point taken at face value, so that only the point checks can refuse it
				on := tsB.c.On(bint(int64(x)), bint(int64(y)))
				decModel(t, tsB, d, pri, ct, lay)
				if on {
					s := tsB.c.Mul(d, ref.Point{X: bint(int64(x)), Y: bint(int64(y))})
					m := []byte("mess")
					c2 := ref.KDF(4, ref.B32(s.X), ref.B32(s.Y))
					for j := range c2 {
						c2[j] ^= m[j]
					}
					h := ref.SM3(ref.B32(s.X), m, ref.B32(s.Y))
					for pre := 0; pre < 256; pre++ {
						g := []byte{byte(pre), byte(x), byte(y)}
						if lay == sm2.C1C2C3 {
							g = append(append(g, c2...), h[:]...)
						} else {
							g = append(append(g, h[:]...), c2...)
						}
						if decModel(t, tsB, d, pri, g, lay) != (pre == 4) {
							t.Failf("prefix %02x", pre)
						}
					}
				}
			}
			t.Trace(255)
		}},
		{Name: "toy-other-key", N: tsB.c.ToyN() - 2, Doc: "a ciphertext for every key decrypted with every other key", Run: func(t *eng.T, i int) {
			c := tsB.c
			for _, lay := range layouts {
				var ct []byte
				for k := int64(2); ; k++ {
					var ok bool
					if ct, ok = c.EncK(c.ToyPoint(i+1), []byte("some message"), bint(k), lay == sm2.C1C2C3); ok {
						break
					}
				}
				for e := 1; e < c.ToyN()-1; e++ {
					t.Descf("%v: ciphertext for d=%d decrypted with %d", tsB, i+1, e)
					if decModel(t, tsB, bint(int64(e)), privOf(tsB.ic, bint(int64(e))), ct, lay) != (e == i+1) {
						t.Failf("accepted by the wrong key")
					}
				}
			}
			t.Trace(2 * c.ToyN())
		}},
		{Name: "infinity-and-invalid", N: 64, Doc: "C1 encodings of infinity, off-curve points and out-of-range coordinates with C3 computed as if they were valid", Run: func(t *eng.T, i int) {
			for _, ts := range []*toySet{realSet, tsB, tsW, tsT} {
				c := ts.c
				n := c.CoordLen()
				g := c.MulG(bint(int64(2 + i/16)))
				p := c.P
				cand := []ref.Point{
					{X: bint(0), Y: bint(0)}, {X: p, Y: p}, {X: bint(0), Y: p}, {X: p, Y: bint(0)}, {X: g.X, Y: new(big.Int).Add(g.Y, bint(1))}, {X: new(big.Int).Add(g.X, p), Y: g.Y}, {X: g.X, Y: new(big.Int).Add(g.Y, p)},
					{X: sub(pow2(uint(8*n)), 1), Y: sub(pow2(uint(8*n)), 1)}, {X: g.Y, Y: g.X}, {X: g.X, Y: bint(0)}, {X: bint(0), Y: g.Y}, {X: bint(1), Y: bint(1)}, {X: sub(g.X, -1), Y: g.Y}, {X: new(big.Int).Sub(p, g.X), Y: g.Y}, g, c.Neg(g),
				}[i%16]
				if len(cand.X.Bytes()) > n || len(cand.Y.Bytes()) > n {
					continue
				}
				d := bint(int64(3 + i/16))
				// shared point as careless code might compute it: the coordinates themselves, (0,0), or the true multiple
				shared := []ref.Point{cand, {X: bint(0), Y: bint(0)}}
				if c.On(cand.X, cand.Y) {
					shared = append(shared, c.Mul(d, cand))
				} else {
					rx, ry := new(big.Int).Mod(cand.X, p), new(big.Int).Mod(cand.Y, p)
					if c.On(rx, ry) {
						shared = append(shared, c.Mul(d, ref.Point{X: rx, Y: ry}))
					}
				}
				for _, s := range shared {
					for _, l := range []int{0, 1, 10} {
						for _, lay := range layouts {
							if len(s.X.Bytes()) > 32 || len(s.Y.Bytes()) > 32 {
								continue
							}
							m := pat(0, l)
							c2 := ref.KDF(l, ref.B32(s.X), ref.B32(s.Y))
							for j := range c2 {
								c2[j] ^= m[j]
							}
							h := ref.SM3(ref.B32(s.X), m, ref.B32(s.Y))
							ct := append([]byte{4}, append(make([]byte, n-len(cand.X.Bytes())), cand.X.Bytes()...)...)
							ct = append(ct, append(make([]byte, n-len(cand.Y.Bytes())), cand.Y.Bytes()...)...)
							if lay == sm2.C1C2C3 {
								ct = append(append(ct, c2...), h[:]...)
							} else {
								ct = append(append(ct, h[:]...), c2...)
							}
							t.Descf("%s: C1 = (%x, %x), d = %v, %d bytes", ts.name, cand.X, cand.Y, d, l)
							decModel(t, ts, d, privOf(ts.ic, d), ct, lay)
						}
					}
				}
			}
		}},
		{Name: "real-edits", N: len(rbs) * maxCt, Doc: "every byte of genuine SM2 ciphertexts altered (all values inside C1, single bits and extremes behind it)", Run: func(t *eng.T, i int) {
			b := rbs[i/maxCt]
			p := i % maxCt
			if p >= len(b.ct) {
				return
			}
			pri := privOf(realSet.ic, b.d)
			x := append([]byte{}, b.ct...)
			n := 0
			try := func(v byte) {
				x[p] = b.ct[p] ^ v
				t.Descf("ciphertext %s with byte %d = %02x, layout %d", hx(b.ct), p, x[p], b.lay)
				if decModel(t, realSet, b.d, pri, x, b.lay) {
					t.Failf("altered ciphertext accepted")
				}
				n++
			}
			if p < 65 {
				for v := 1; v < 256; v++ {
					try(byte(v))
				}
			} else {
				for _, v := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 255} {
					if v != 1 && v != 128 && !thorough(t.Tier) && (p*7+int(v))%5 != 0 {
						continue
					}
					try(v)
				}
			}
			t.Trace(n)
			t.Eval(n)
		}},
		{Name: "real-lengths", N: len(rbs) * 4, Doc: "every truncation at either end and extension of genuine SM2 ciphertexts, and the other layout", Run: func(t *eng.T, i int) {
			b := rbs[i/4]
			pri := privOf(realSet.ic, b.d)
			try := func(x []byte, lay sm2.Sm2CipherTextType) {
				t.Descf("%s (from %s), layout %d", hx(x), hx(b.ct), lay)
				decModel(t, realSet, b.d, pri, x, lay)
			}
			switch i % 4 {
			case 0:
				for k := 0; k < len(b.ct); k++ {
					try(b.ct[:k], b.lay)
				}
				try(nil, b.lay)
			case 1:
				for k := 1; k <= len(b.ct); k++ {
					try(b.ct[k:], b.lay)
				}
			case 2:
				for v := 0; v < 256; v += 15 {
					try(append(append([]byte{}, b.ct...), byte(v)), b.lay)
					try(append([]byte{byte(v)}, b.ct...), b.lay)
				}
				for k := 65; k <= len(b.ct); k += 7 {
					try(append(append(append([]byte{}, b.ct[:k]...), 0), b.ct[k:]...), b.lay)
				}
			case 3:
				try(b.ct, sm2.C1C2C3)
				try(b.ct, sm2.C1C3C2)
				der, _ := ref.EncodeCipher(b.ct, b.lay == sm2.C1C2C3)
				try(der, b.lay)
				// C2 and C3 bytes exchanged pairwise, C1 negated, other point
				for k := 65; k+1 < len(b.ct); k++ {
					x := append([]byte{}, b.ct...)
					x[k], x[k+1] = x[k+1], x[k]
					try(x, b.lay)
				}
				y := new(big.Int).SetBytes(b.ct[33:65])
				x := append([]byte{}, b.ct...)
				copy(x[33:65], ref.B32(new(big.Int).Sub(ref.SM2.P, y)))
				try(x, b.lay)
				g := ref.SM2.EncodePoint(ref.SM2.G())
				copy(x, g)
				try(x, b.lay)
			}
			t.Trace(50)
		}},
		{Name: "other-notations", N: len(rbs) + 3*len(mlens)*2, Doc: "genuine ciphertexts written in other ways (C1 compressed, hybrid, swapped, reversed, with other field widths; hex, base64, DER and BER forms, length prefixes; shortened or otherwise computed C3; parts in every order)", Run: func(t *eng.T, i int) {
			if i < len(rbs) {
				b := rbs[i]
				t.Trace(notations(t, realSet, b.d, b.m, b.ct, b.lay))
				return
			}
			i -= len(rbs)
			ts := []*toySet{tsB, tsT, tsW}[i%3]
			lay := layouts[i/3%2]
			d, m := bint(3), pat(0, mlens[i/6])
			for k := int64(2); k < 40; k++ {
				if ts.c.MulG(bint(k)).X == nil {
					continue
				}
				if ct, ok := ts.c.EncK(ts.c.MulG(d), m, bint(k), lay == sm2.C1C2C3); ok {
					t.Trace(notations(t, ts, d, m, ct, lay))
				}
			}
		}},
		{Name: "large ciphertexts", N: 4 * 2, Timeout: 5 * time.Minute, Doc: "genuine ciphertexts of 4 KiB to 2 MiB: decrypted when unchanged; with one byte changed at each end of each part, around each power of two and in between, one byte less or more, refused without output", Run: func(t *eng.T, i int) {
			l := []int{4097, 1<<16 + 1, 1<<20 + 9, 1<<21 + 5}[i/2]
			lay := layouts[i%2]
			d := scal[7+i]
			pri := privOf(realSet.ic, d)
			m := make([]byte, l)
			newPrng(i + 5).Read(m)
			ct, ok := ref.SM2.EncK(ref.SM2.MulG(d), m, scal[20+i], lay == sm2.C1C2C3)
			t.Check(ok, "harness: nonce")
			dec := func(what string, x []byte, want bool) {
				t.Descf("ciphertext of %d bytes, layout %d, %s", len(ct), lay, what)
				t.Ops(1)
				t.Eval(1)
				got, err := sm2.Decrypt(pri, x, lay)
				t.Check((err == nil) == want, "error %v", err)
				t.Check(want || got == nil, "%d bytes released with error %v", len(got), err)
				t.Check(!want || bytes.Equal(got, m), "the plaintext does not come back")
			}
			dec("unchanged", ct, true)
			n := len(ct)
			at := []int{65, 96, 97, 98, 128, 129, 65 + l/2, 65 + l/3, n - 34, n - 33, n - 32, n - 31, n - 2, n - 1}
			for q := 12; 1<<q < l; q++ {
				at = append(at, 65+1<<q, 65+1<<q-1, 97+1<<q)
			}
			for j, p := range at {
				if p < 0 || p >= n {
					continue
				}
				ct[p] ^= 1 << uint(j%8)
				dec(fmt.Sprintf("byte %d changed", p), ct, false)
				ct[p] ^= 1 << uint(j%8)
			}
			dec("shortened", ct[:n-1], false)
			dec("extended", append(ct[:n:n], 0), false)
			dec("one byte of the middle missing", append(append([]byte{}, ct[:n/2]...), ct[n/2+1:]...), false)
			dec("unchanged, again", ct, true)
		}},
		{Name: "real-other-key", N: 40, Doc: "genuine ciphertexts under other private keys", Run: func(t *eng.T, i int) {
			b := rbs[i%len(rbs)]
			d := scal[(i*5)%len(scal)]
			t.Descf("ciphertext for d=%x decrypted with %x", b.d, d)
			if decModel(t, realSet, d, privOf(realSet.ic, d), b.ct, b.lay) != (d.Cmp(b.d) == 0) {
				t.Failf("accepted by the wrong key")
			}
			neg := new(big.Int).Sub(ref.SM2.N, b.d)
			decModel(t, realSet, neg, privOf(realSet.ic, neg), b.ct, b.lay)
		}},
		{Name: "short-strings", N: 2 * 140, Doc: "every string length below 140 from several fillings, alone or behind a valid point", Run: func(t *eng.T, i int) {
			lay := layouts[i/140]
			l := i % 140
			for k := 0; k < 5; k++ {
				b := pat(k, l)
				if k == 4 && l > 0 {
					b[0] = 4
				}
				t.Descf("string of %d bytes, filling %d", l, k)
				decModel(t, realSet, bint(7), privOf(realSet.ic, bint(7)), b, lay)
				g := append(ref.SM2.EncodePoint(ref.SM2.G()), pat(k, 40)...)
				if l <= len(g) {
					decModel(t, realSet, bint(7), privOf(realSet.ic, bint(7)), g[:l], lay)
				}
				for _, ts := range []*toySet{tsB, tsW, tsT} {
					decModel(t, ts, bint(7), privOf(ts.ic, bint(7)), b, lay)
					g := append(ts.c.EncodePoint(ts.c.G()), pat(k, 140)...)
					decModel(t, ts, bint(7), privOf(ts.ic, bint(7)), g[:l], lay)
				}
			}
		}},
	}
}

// notations decrypts other notations of a genuine ciphertext; only those that happen to be genuine themselves may be accepted.
func notations(t *eng.T, ts *toySet, d *big.Int, m, ct []byte, lay sm2.Sm2CipherTextType) (n int) {
	w := (len(ts.c.EncodePoint(ts.c.G())) - 1) / 2
	pri := privOf(ts.ic, d)
	l1 := 1 + 2*w
	c1, x, y, rest := ct[:l1], ct[1:1+w], ct[1+w:l1], ct[l1:]
	c2, c3 := rest[:len(rest)-32], rest[len(rest)-32:]
	if lay != sm2.C1C2C3 {
		c3, c2 = rest[:32], rest[32:]
	}
	try := func(what string, parts ...[]byte) {
		b := bytes.Join(parts, nil)
		for _, l := range layouts {
			t.Descf("%s: %s of %s, layout %d", ts.name, what, hx(ct), l)
			if decModel(t, ts, d, pri, b, l) && !bytes.Equal(b, ct) {
				t.Note("other notations that are genuine themselves", 1)
			}
			n++
		}
	}
	rev := func(b []byte) []byte {
		r := make([]byte, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return r
	}
	sign := y[w-1] & 1
	for _, v := range []byte{0, 1, 2, 3, 4, 5, 6, 7} {
		p := []byte{v}
		try("compressed C1", p, x, rest)
		try("compressed C1 with y", p, y, rest)
		try("prefixed C1", p, x, y, rest)
	}
	try("compressed C1 and its pieces the other way round", []byte{2 + sign}, x, c3, c2)
	try("compressed C1 and its pieces the other way round", []byte{2 + sign}, x, c2, c3)
	try("C1 without prefix", x, y, rest)
	try("x only", x, rest)
	try("no C1", rest)
	try("C1 swapped", c1[:1], y, x, rest)
	try("little-endian C1", c1[:1], rev(x), rev(y), rest)
	try("little-endian C1 swapped", c1[:1], rev(y), rev(x), rest)
	try("wide C1", c1[:1], []byte{0}, x, []byte{0}, y, rest)
	try("wide C1 without prefix", []byte{0}, x, []byte{0}, y, rest)
	try("64-byte coordinates", c1[:1], make([]byte, 64-w), x, make([]byte, 64-w), y, rest)
	try("32-byte coordinates", c1[:1], make([]byte, 32-w), x, make([]byte, 32-w), y, rest)
	try("stripped C1", c1[:1], new(big.Int).SetBytes(x).Bytes(), new(big.Int).SetBytes(y).Bytes(), rest)
	try("C1 twice", c1, c1, rest)
	try("reversed", rev(ct))
	parts := [][]byte{c1, c2, c3}
	for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 1, 1, 2}, {0, 2, 2, 1}, {0, 2, 1, 2}, {0, 2}, {0, 1}} {
		var ps [][]byte
		for _, k := range o {
			ps = append(ps, parts[k])
		}
		try(fmt.Sprint("parts in order ", o), ps...)
	}
	for _, k := range []int{0, 8, 16, 20, 24, 28, 31} {
		try("short C3", c1, c3[:k], c2)
		try("short C3", c1, c2, c3[:k])
		try("C3 padded with zeros", c1, c3[:k], make([]byte, 32-k), c2)
		try("C3 padded with zeros", c1, c2, c3[:k], make([]byte, 32-k))
	}
	// other hashes in place of C3
	if s := ts.c.Mul(d, ref.Point{X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}); s.X != nil {
		x2, y2 := ref.B32(s.X), ref.B32(s.Y)
		for _, h := range [][][]byte{{m}, {c2}, {x2, y2, m}, {m, x2, y2}, {x2, m}, {m, y2}, {y2, m, x2}, {x2, c2, y2}, {x2, y2}, {}, {ct}, {s.X.Bytes(), m, s.Y.Bytes()}, {c1, m}} {
			v := ref.SM3(bytes.Join(h, nil))
			try("another hash", c1, v[:], c2)
			try("another hash", c1, c2, v[:])
		}
	}
	try("plaintext in place of C2", c1, m, c3)
	try("plaintext in place of C2", c1, c3, m)
	for _, enc := range []string{hex.EncodeToString(ct), strings.ToUpper(hex.EncodeToString(ct)), "0x" + hex.EncodeToString(ct), hex.EncodeToString(ct[1:]),
		base64.StdEncoding.EncodeToString(ct), base64.URLEncoding.EncodeToString(ct), base64.RawStdEncoding.EncodeToString(ct)} {
		try("text form", []byte(enc))
		try("text form with a newline", []byte(enc+"\n"))
	}
	tlv := func(tag byte, b []byte) []byte {
		l := len(b)
		switch {
		case l < 128:
			return append([]byte{tag, byte(l)}, b...)
		case l < 256:
			return append([]byte{tag, 0x81, byte(l)}, b...)
		}
		return append([]byte{tag, 0x82, byte(l >> 8), byte(l)}, b...)
	}
	num := func(b []byte) []byte {
		v := new(big.Int).SetBytes(b).Bytes()
		if len(v) == 0 || v[0] > 127 {
			v = append([]byte{0}, v...)
		}
		return tlv(2, v)
	}
	o2, o3 := tlv(4, c2), tlv(4, c3)
	for _, in := range [][]byte{bytes.Join([][]byte{num(x), num(y), o3, o2}, nil), bytes.Join([][]byte{num(x), num(y), o2, o3}, nil),
		bytes.Join([][]byte{tlv(2, x), tlv(2, y), o3, o2}, nil), bytes.Join([][]byte{tlv(3, append([]byte{0}, c1...)), o3, o2}, nil),
		bytes.Join([][]byte{tlv(4, c1), o3, o2}, nil), ct} {
		try("ASN.1 form", tlv(0x30, in))
		try("ASN.1 form, indefinite length", []byte{0x30, 0x80}, in, []byte{0, 0})
		try("ASN.1 form behind a prefix", c1[:1], tlv(0x30, in))
		try("ASN.1 octet string", tlv(4, in))
		try("ASN.1 bit string", tlv(3, append([]byte{0}, in...)))
	}
	for k := 1; k <= 8; k *= 2 {
		p := make([]byte, k)
		p[k-1] = byte(len(ct))
		try("length prefix", p, ct)
		try("length prefix", rev(p), ct)
		q := make([]byte, k)
		q[k-1] = byte(len(c2))
		try("length of C2", c1, c3, q, c2)
		try("length of C2", c1, q, c2, c3)
		try("length of C2 in front", q, ct)
	}
	return n
}
