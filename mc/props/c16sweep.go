package props

import (
	"bytes"
	"crypto/cipher"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"verif/mc/eng"
	"verif/mc/ref"
)

// c16sweeps: whether calls leave their arguments and each other alone may depend on the values, which the
// operations of the other spaces sample; these spaces run through them.
func c16sweeps(tier string) []eng.Space {
	var sp []eng.Space
	add := func(name, doc string, n int, f func(t *eng.T, i int)) {
		sp = append(sp, eng.Space{Name: name, Doc: doc, N: n, Run: f})
	}

	// big integers
	var ints []*big.Int
	for _, k := range []uint{0, 1, 2, 3, 7, 8, 15, 31, 32, 63, 64, 65, 127, 128, 255, 256} {
		ints = append(ints, pow2(k), sub(pow2(k), 1))
	}
	ints = append(ints, hexBig("123456789abcdef0123456789abcdef0123456789abcdef7"), ref.SM2.P, ref.SM2.N)
	for i := range ints[:len(ints):len(ints)] {
		ints = append(ints, new(big.Int).Neg(ints[i]))
	}
	type fn struct {
		name string
		lib  func(x, y *big.Int) interface{}
		want func(x, y *big.Int) interface{}
	}
	z := func() *big.Int { return new(big.Int) }
	fns := []fn{
		{"Add", func(x, y *big.Int) interface{} { return util.Add(x, y) }, func(x, y *big.Int) interface{} { return z().Add(x, y) }},
		{"Sub", func(x, y *big.Int) interface{} { return util.Sub(x, y) }, func(x, y *big.Int) interface{} { return z().Sub(x, y) }},
		{"Mul", func(x, y *big.Int) interface{} { return util.Mul(x, y) }, func(x, y *big.Int) interface{} { return z().Mul(x, y) }},
		{"Mod", func(x, y *big.Int) interface{} { return util.Mod(x, y) }, func(x, y *big.Int) interface{} {
			if y.Sign() == 0 {
				return nil
			}
			return z().Mod(x, y)
		}},
		{"And", func(x, y *big.Int) interface{} { return util.And(x, y) }, func(x, y *big.Int) interface{} { return z().And(x, y) }},
		{"ModInverse", func(x, y *big.Int) interface{} { return util.ModInverse(x, y) }, func(x, y *big.Int) interface{} {
			if y.Sign() <= 0 || z().GCD(nil, nil, z().Mod(x, y), y).Cmp(bint(1)) != 0 {
				return nil
			}
			return z().ModInverse(x, y)
		}},
		{"ZForAffine", func(x, y *big.Int) interface{} { return util.ZForAffine(x, y) }, nil},
		{"IsEcPointInfinity", func(x, y *big.Int) interface{} { return util.IsEcPointInfinity(x, y) }, nil},
	}
	for _, n := range []uint{0, 1, 31, 64, 127} {
		n := n
		fns = append(fns, fn{fmt.Sprintf("Lsh %d", n), func(x, y *big.Int) interface{} { return util.Lsh(x, n) }, func(x, y *big.Int) interface{} { return z().Lsh(x, n) }})
		for b := uint(0); b < 2; b++ {
			b := b
			fns = append(fns, fn{fmt.Sprintf("SetBit %d %d", n, b), func(x, y *big.Int) interface{} { return util.SetBit(x, int(n), b) }, func(x, y *big.Int) interface{} { return z().SetBit(x, int(n), b) }})
		}
	}
	add("big integers", "every function on big integers, all pairs of boundary values, also with one object as both arguments: the arguments stay, and stay when the result is overwritten", len(ints)*len(ints), func(t *eng.T, i int) {
		d := mix(i, len(ints), len(ints))
		for _, f := range fns {
			x := z().Set(ints[d[0]])
			y := z().Set(ints[d[1]])
			if d[0] == d[1] {
				y = x
			}
			if f.want != nil && f.want(ints[d[0]], ints[d[1]]) == nil || f.name == "ModInverse" && (x.Sign() < 0 || y.Sign() <= 0) {
				continue // undefined
			}
			t.Descf("util.%s of %v and %v", f.name, x, y)
			r := f.lib(x, y)
			if f.want != nil {
				w := f.want(ints[d[0]], ints[d[1]]).(*big.Int)
				t.Check(r.(*big.Int).Cmp(w) == 0, "the result is %v, want %v", r, w)
			}
			same := func(when string) {
				t.Check(x.Cmp(ints[d[0]]) == 0 && y.Cmp(ints[d[1]]) == 0, "%s the arguments are %v and %v", when, x, y)
			}
			same("after the call")
			scribble(reflect.ValueOf(r), false)
			same("after overwriting the result")
			t.Ops(1)
		}
		t.Obs(d[0], d[1])
	})

	// two lengths
	maxLen := pick(tier, 130, 260)
	data := pat(3, maxLen+1)
	var sums [][32]byte
	for l := 0; l <= maxLen; l++ {
		sums = append(sums, ref.SM3(data[:l]))
	}
	key, iv := pat(0, 16), pat(3, 16)
	var ecb, cbc [][]byte
	for l := 0; l <= maxLen; l += 16 {
		ecb = append(ecb, ref.SM4ECB(key, data[:l], false))
		cbc = append(cbc, ref.SM4CBC(key, iv, data[:l], false))
	}
	ts := toy("n<p byte")
	td := bint(77)
	tp := ts.c.MulG(td)
	pri, pub := privOf(ts.ic, td), pubOf(ts.ic, tp)
	encLens := []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 129, 250}
	cts := map[int][]byte{}
	for _, l := range encLens {
		cts[l] = encK(ts.c, tp, pat(0, l), false)
	}
	var sig, sig2 map[int][]byte
	idSig := func(l int) []byte {
		if sig == nil {
			sig = map[int][]byte{}
		}
		if sig[l] == nil {
			r, s := signK(ts.c, td, data[:l], data[:5])
			sig[l] = ref.EncodeSig(r, s)
		}
		return sig[l]
	}
	msgSig := func(l int) []byte {
		if sig2 == nil {
			sig2 = map[int][]byte{}
		}
		if sig2[l] == nil {
			r, s := signK(ts.c, td, data[:3], data[:l])
			sig2[l] = ref.EncodeSig(r, s)
		}
		return sig2[l]
	}
	sized := []struct {
		name string
		f    func(t *eng.T, l int)
	}{
		{"sm3.Sum", func(t *eng.T, l int) { s := sm3.Sum(data[:l]); wantBytes(t, "sm3.Sum", s[:], sums[l][:]) }},
		{"sm3 stream", func(t *eng.T, l int) {
			h := sm3.New()
			h.Write(data[:l])
			wantBytes(t, "the digest", h.Sum(nil), sums[l][:])
		}},
		{"sm3 unfinished", func(t *eng.T, l int) { sm3.New().Write(data[:l]) }},
		{"ECB", func(t *eng.T, l int) {
			l /= 16
			b, err := sm4.ECBEncrypt(key, data[:16*l])
			t.Check(err == nil, "ECBEncrypt of %d bytes: %v", 16*l, err)
			wantBytes(t, "ECBEncrypt", b, ecb[l])
			b, err = sm4.ECBDecrypt(key, ecb[l])
			t.Check(err == nil, "ECBDecrypt of %d bytes: %v", 16*l, err)
			wantBytes(t, "ECBDecrypt", b, data[:16*l])
		}},
		{"CBC", func(t *eng.T, l int) {
			l /= 16
			b, err := sm4.CBCEncrypt(key, iv, data[:16*l])
			t.Check(err == nil, "CBCEncrypt of %d bytes: %v", 16*l, err)
			wantBytes(t, "CBCEncrypt", b, cbc[l])
			b, err = sm4.CBCDecrypt(key, iv, cbc[l])
			t.Check(err == nil, "CBCDecrypt of %d bytes: %v", 16*l, err)
			wantBytes(t, "CBCDecrypt", b, data[:16*l])
		}},
		{"padding", func(t *eng.T, l int) {
			n := 16 - l%16
			wantBytes(t, "PKCS5Padding", util.PKCS5Padding(data[:l], 16), append(append([]byte{}, data[:l]...), bytes.Repeat([]byte{byte(n)}, n)...))
			if n == 16 {
				return
			}
			wantBytes(t, "ZeroPadding", util.ZeroPadding(data[:l], 16), append(append([]byte{}, data[:l]...), make([]byte, n)...))
		}},
		{"verification, id", func(t *eng.T, l int) {
			want := ts.c.Verify(tp.X, tp.Y, data[:l], data[:5], hexInts(idSig(l))[0], hexInts(idSig(l))[1])
			t.Check(sm2.Verify(pub, data[:l], data[:5], idSig(l)) == want, "verification with an id of %d bytes is not %v", l, want)
		}},
		{"verification, message", func(t *eng.T, l int) {
			t.Check(sm2.Verify(pub, data[:3], data[:l], msgSig(l)), "a good signature of %d bytes is refused", l)
		}},
		{"decryption", func(t *eng.T, l int) {
			l = encLens[l%len(encLens)]
			b, err := sm2.Decrypt(pri, cts[l], sm2.C1C3C2)
			t.Check(err == nil, "Decrypt of %d bytes: %v", l, err)
			wantBytes(t, "Decrypt", b, pat(0, l))
		}},
		{"encryption", func(t *eng.T, l int) {
			l = encLens[l%len(encLens)]
			withRand(newPrng(l+5), func() {
				b, err := sm2.Encrypt(pub, pat(0, l), sm2.C1C3C2)
				t.Check(err == nil, "Encrypt of %d bytes: %v", l, err)
				m, ok := ts.c.Dec(td, b, false)
				t.Check(ok && bytes.Equal(m, pat(0, l)), "the ciphertext of %d bytes does not decrypt", l)
			})
		}},
		{"octets", func(t *eng.T, l int) {
			var b cryptobyte.Builder
			b.AddASN1OctetString(data[:l])
			out, err := b.Bytes()
			t.Check(err == nil, "AddASN1OctetString: %v", err)
			wantBytes(t, "AddASN1OctetString", out, ref.TLV(4, data[:l]))
		}},
	}
	ns := len(sized)
	lens2 := maxLen + 1
	add("two lengths", "every function of data, on all pairs of lengths one after the other: both results are right", ns*lens2*lens2, func(t *eng.T, i int) {
		d := mix(i, ns, lens2, lens2)
		s := sized[d[0]]
		if s.name == "ECB" || s.name == "CBC" {
			if d[1]%16 != 0 || d[2]%16 != 0 {
				return
			}
		}
		if s.name == "decryption" || s.name == "encryption" {
			if d[1] >= len(encLens) || d[2] >= len(encLens) {
				return
			}
		}
		t.Descf("%s with %d, then %d bytes, then %d bytes again", s.name, d[1], d[2], d[1])
		s.f(t, d[1])
		s.f(t, d[2])
		s.f(t, d[1])
		t.Obs(d[0], d[1], d[2])
		t.Ops(3)
	})
	edge := []int{0, 1, 16, 31, 32, 48, 55, 56, 63, 64, 65, 119, 120, 127, 128}
	ne := len(edge)
	add("two functions of data", "every ordered pair of functions of data, on all pairs of boundary lengths", ns*ns*ne*ne, func(t *eng.T, i int) {
		d := mix(i, ns, ns, ne, ne)
		t.Descf("%s with %d, then %s with %d bytes, and both again", sized[d[0]].name, edge[d[2]], sized[d[1]].name, edge[d[3]])
		for r := 0; r < 2; r++ {
			sized[d[0]].f(t, edge[d[2]])
			sized[d[1]].f(t, edge[d[3]])
		}
		t.Obs(d[0], d[1], d[2], d[3])
		t.Ops(4)
	})
	// arguments that are nearly the same
	toyB := toy("two bytes")
	key16, iv16, text := pat(5, 16), pat(7, 16), pat(9, 48)
	nearFns := []struct {
		name  string
		sizes []int // of the argument that varies
		lib   func(v []byte) []byte
		want  func(v []byte) []byte
	}{
		{"SM3 of", []int{16, 48, 100}, func(v []byte) []byte { h := sm3.Sum(v); return append([]byte{}, h[:]...) }, func(v []byte) []byte { h := ref.SM3(v); return h[:] }},
		{"ECBEncrypt under the key", []int{16}, func(v []byte) []byte { o, _ := sm4.ECBEncrypt(v, text); return o }, func(v []byte) []byte { return ref.SM4ECB(v, text, false) }},
		{"ECBDecrypt under the key", []int{16}, func(v []byte) []byte { o, _ := sm4.ECBDecrypt(v, text); return o }, func(v []byte) []byte { return ref.SM4ECB(v, text, true) }},
		{"CBCEncrypt under the key", []int{16}, func(v []byte) []byte { o, _ := sm4.CBCEncrypt(v, iv16, text); return o }, func(v []byte) []byte { return ref.SM4CBC(v, iv16, text, false) }},
		{"CBCDecrypt under the key", []int{16}, func(v []byte) []byte { o, _ := sm4.CBCDecrypt(v, iv16, text); return o }, func(v []byte) []byte { return ref.SM4CBC(v, iv16, text, true) }},
		{"CBCEncrypt with the IV", []int{16}, func(v []byte) []byte { o, _ := sm4.CBCEncrypt(key16, v, text); return o }, func(v []byte) []byte { return ref.SM4CBC(key16, v, text, false) }},
		{"CBCDecrypt with the IV", []int{16}, func(v []byte) []byte { o, _ := sm4.CBCDecrypt(key16, v, text); return o }, func(v []byte) []byte { return ref.SM4CBC(key16, v, text, true) }},
		{"ECBEncrypt of", []int{16, 48}, func(v []byte) []byte { o, _ := sm4.ECBEncrypt(key16, v); return o }, func(v []byte) []byte { return ref.SM4ECB(key16, v, false) }},
		{"ECBDecrypt of", []int{16, 48}, func(v []byte) []byte { o, _ := sm4.ECBDecrypt(key16, v); return o }, func(v []byte) []byte { return ref.SM4ECB(key16, v, true) }},
		{"CBCEncrypt of", []int{16, 48}, func(v []byte) []byte { o, _ := sm4.CBCEncrypt(key16, iv16, v); return o }, func(v []byte) []byte { return ref.SM4CBC(key16, iv16, v, false) }},
		{"CBCDecrypt of", []int{16, 48}, func(v []byte) []byte { o, _ := sm4.CBCDecrypt(key16, iv16, v); return o }, func(v []byte) []byte { return ref.SM4CBC(key16, iv16, v, true) }},
		{"a cipher with the key", []int{16}, func(v []byte) []byte {
			c, err := sm4.NewCipher(v)
			if err != nil {
				return nil
			}
			o := make([]byte, 16)
			c.Encrypt(o, text)
			return o
		}, func(v []byte) []byte { o := ref.SM4Encrypt(v, text[:16]); return o[:] }},
		{"the signature of", []int{20, 70}, func(v []byte) (o []byte) {
			withRand(newScript(bytes.Repeat([]byte{0x12, 0x34, 0x05, 0x67}, 200)), func() {
				if r, sg, err := sm2.SignToRS(privOf(toyB.ic, bint(999)), nil, v); err == nil {
					o = []byte(toyB.c.ValidSig(bint(999), toyB.c.E(toyB.c.ToyPoint(999), nil, v), r, sg) + ".")
				}
			})
			return
		}, func(v []byte) []byte { return []byte(".") }},
		{"the signature with the user ID", []int{16, 40}, func(v []byte) (o []byte) {
			withRand(newScript(bytes.Repeat([]byte{0x12, 0x34, 0x05, 0x67}, 200)), func() {
				if r, sg, err := sm2.SignToRS(privOf(toyB.ic, bint(999)), v, text); err == nil {
					o = []byte(toyB.c.ValidSig(bint(999), toyB.c.E(toyB.c.ToyPoint(999), v, text), r, sg) + ".")
				}
			})
			return
		}, func(v []byte) []byte { return []byte(".") }},
		{"verifying with the user ID", []int{16, 40}, func(v []byte) []byte {
			r, sg, ok := toyB.c.SignK(bint(77), toyB.c.E(toyB.c.ToyPoint(77), v, text), bint(1234))
			return []byte(fmt.Sprint(!ok || sm2.VerifyByRS(pubOf(toyB.ic, toyB.c.ToyPoint(77)), v, text, r, sg)))
		}, func(v []byte) []byte { return []byte("true") }},
		{"verifying", []int{20, 70}, func(v []byte) []byte {
			r, sg, ok := toyB.c.SignK(bint(77), toyB.c.E(toyB.c.ToyPoint(77), nil, v), bint(1234))
			return []byte(fmt.Sprint(!ok || sm2.VerifyByRS(pubOf(toyB.ic, toyB.c.ToyPoint(77)), nil, v, r, sg)))
		}, func(v []byte) []byte { return []byte("true") }},
		{"verifying with the key", []int{2}, func(v []byte) []byte {
			d := 1 + (int(v[0])<<8|int(v[1]))%(toyB.c.ToyN()-2)
			q := toyB.c.ToyPoint(d)
			r, sg, ok := toyB.c.SignK(bint(int64(d)), toyB.c.E(q, nil, text), bint(1234))
			return []byte(fmt.Sprint(!ok || sm2.VerifyByRS(pubOf(toyB.ic, q), nil, text, r, sg)))
		}, func(v []byte) []byte { return []byte("true") }},
		{"decrypting", []int{20, 70}, func(v []byte) []byte {
			ct, ok := toyB.c.EncK(toyB.c.ToyPoint(55), v, bint(4321), true)
			if !ok {
				return v
			}
			o, err := sm2.Decrypt(privOf(toyB.ic, bint(55)), ct, sm2.C1C2C3)
			if err != nil {
				return []byte(err.Error())
			}
			return o
		}, func(v []byte) []byte { return v }},
		{"the public key of", []int{32}, func(v []byte) []byte {
			pri, err := sm2.RawBytesToPrivateKey(v)
			if err != nil {
				return nil
			}
			return sm2.CalculatePubKey(pri).GetRawBytes()
		}, func(v []byte) []byte {
			return ref.SM2.EncodePoint(ref.SM2.MulG(new(big.Int).SetBytes(v)))[1:]
		}},
		{"PKCS5 of", []int{16, 40}, func(v []byte) []byte { return util.PKCS5UnPadding(util.PKCS5Padding(v, 16)) }, func(v []byte) []byte { return v }},
	}
	var nearCases [][2]int
	for k, f := range nearFns {
		for _, l := range f.sizes {
			nearCases = append(nearCases, [2]int{k, l})
		}
	}
	add("near arguments", "every function of data on arguments that differ from another one in one bit, by two bytes exchanged, by two bytes changed so that their sum or exclusive or stays, reversed or rotated: before and after that other one, then all of them (some hundreds) one after the other, twice", len(nearCases)*2, func(t *eng.T, i int) {
		f, l := nearFns[nearCases[i/2][0]], nearCases[i/2][1]
		base := pat(3, l)
		if i%2 == 1 {
			for j := range base {
				base[j] = byte(1 + j/4) // with equal neighbours
			}
		}
		base[0] &= 0x3f
		var all [][]byte
		put := func(edit func(b []byte)) {
			b := append([]byte{}, base...)
			edit(b)
			if !bytes.Equal(b, base) {
				all = append(all, b)
			}
		}
		for p := range base {
			for k := uint(0); k < 8; k++ {
				if p > 0 || k < 6 {
					put(func(b []byte) { b[p] ^= 1 << k })
				}
			}
			for _, q := range []int{p + 1, p + 2, p + 4, p + 8, l - 1} {
				if q < l && q != p {
					put(func(b []byte) { b[p], b[q] = b[q], b[p] })
					put(func(b []byte) { b[p], b[q] = b[p]+1, b[q]-1 })
					put(func(b []byte) { b[p], b[q] = b[p]^2, b[q]^2 })
				}
			}
			put(func(b []byte) { copy(b, append(append([]byte{}, base[p:]...), base[:p]...)); b[0] &= 0x3f })
		}
		put(func(b []byte) {
			for j := range b {
				b[j] = base[l-1-j]
			}
			b[0] &= 0x3f
		})
		one := func(v []byte, when string) {
			t.Descf("%s x%x, %s", f.name, v, when)
			t.Ops(1)
			arg := append([]byte{}, v...)
			wantBytes(t, f.name, f.lib(arg), f.want(v))
		}
		if l == 32 { // slower
			for j := 0; j < len(all); j++ {
				if j%6 == 0 {
					all[j/6] = all[j]
				}
			}
			all = all[:len(all)/6]
		}
		for _, v := range all {
			one(base, "first")
			one(v, fmt.Sprintf("after x%x", base))
			one(base, fmt.Sprintf("after x%x", v))
		}
		for r := 0; r < 2; r++ {
			for j, v := range all {
				one(v, fmt.Sprintf("as number %d of round %d", j, r+1))
			}
		}
		t.Eval(len(all))
		t.Obs(i)
	})
	// one digest, cipher and builder for many messages
	add("one object, two lengths", "one digest, reset in between, for all pairs of lengths; one cipher for all pairs of blocks", lens2*lens2, func(t *eng.T, i int) {
		d := mix(i, lens2, lens2)
		t.Descf("one digest: %d bytes, Sum, Reset, %d bytes, Sum", d[0], d[1])
		h := sm3.New()
		h.Write(data[:d[0]])
		wantBytes(t, "first digest", h.Sum(nil), sums[d[0]][:])
		h.Reset()
		h.Write(data[:d[1]])
		wantBytes(t, "second digest", h.Sum(nil), sums[d[1]][:])
		if d[0] < 16 && d[1] < 16 {
			var c cipher.Block
			c, err := sm4.NewCipher(key)
			t.Check(err == nil, "NewCipher: %v", err)
			a, b := data[d[0]:d[0]+16], data[d[1]:d[1]+16]
			x, y := make([]byte, 16), make([]byte, 16)
			c.Encrypt(x, a)
			c.Encrypt(y, b)
			wantBytes(t, "Encrypt", x, ref.SM4ECB(key, a, false))
			wantBytes(t, "Encrypt", y, ref.SM4ECB(key, b, false))
			c.Decrypt(x, x)
			wantBytes(t, "Decrypt", x, a)
		}
		t.Obs(d[0], d[1])
		t.Ops(4)
	})

	// large arguments
	larges := []int{4096, 1<<15 - 16, 1 << 15, 1<<16 - 16, 1 << 16, 1<<16 + 16, 1<<17 + 16, 1 << 18, 1 << 19, 1 << 20, 1<<20 + 16, 1 << 21, 1 << 22}
	if thorough(tier) {
		larges = append(larges, 1<<23, 1<<24, 1<<24+16, 1<<25)
	}
	realKey := bint(1234567)
	realPri, realPub := privOf(realSet.ic, realKey), pubOf(realSet.ic, ref.SM2.MulG(realKey))
	one := func(b []byte, err error) []interface{} { return []interface{}{b, err} }
	big := []struct {
		name string
		f    func(b []byte) []interface{}
	}{
		{"sm3.Sum", func(b []byte) []interface{} { s := sm3.Sum(b); return []interface{}{s} }},
		{"a digest", func(b []byte) []interface{} {
			h := sm3.New()
			h.Write(b)
			return []interface{}{h.Sum(nil), h.Sum(b[:7:7]), h.Sum(nil)}
		}},
		{"ECBEncrypt", func(b []byte) []interface{} { return one(sm4.ECBEncrypt(key, b)) }},
		{"ECBDecrypt", func(b []byte) []interface{} { return one(sm4.ECBDecrypt(key, b)) }},
		{"CBCEncrypt", func(b []byte) []interface{} { return one(sm4.CBCEncrypt(key, iv, b)) }},
		{"CBCDecrypt", func(b []byte) []interface{} { return one(sm4.CBCDecrypt(key, iv, b)) }},
		{"PKCS5Padding", func(b []byte) []interface{} { return one(util.PKCS5Padding(b, 32), nil) }},
		{"ZeroPadding", func(b []byte) []interface{} { return one(util.ZeroPadding(b, 32), nil) }},
		{"Encrypt on a small curve", func(b []byte) (r []interface{}) {
			withRand(newPrng(3), func() { r = one(sm2.Encrypt(pub, b, sm2.C1C3C2)) })
			return
		}},
		{"Encrypt", func(b []byte) (r []interface{}) {
			withRand(newPrng(3), func() { r = one(sm2.Encrypt(realPub, b, sm2.C1C2C3)) })
			return
		}},
		{"Decrypt of noise", func(b []byte) []interface{} {
			b[0] = 4
			copy(b[1:], ref.SM2.EncodePoint(ref.SM2.G())[1:])
			return one(sm2.Decrypt(realPri, b, sm2.C1C2C3))
		}},
		{"MarshalCipher", func(b []byte) []interface{} { b[0] = 4; return one(sm2.MarshalCipher(b, sm2.C1C3C2)) }},
		{"Sign", func(b []byte) (r []interface{}) {
			withRand(newPrng(3), func() { r = one(sm2.Sign(realPri, nil, b)) })
			return
		}},
		{"Verify", func(b []byte) []interface{} { return []interface{}{sm2.Verify(pub, nil, b, idSig(3))} }},
		{"AddBytes", func(b []byte) []interface{} {
			var o cryptobyte.Builder
			o.AddASN1OctetString(b)
			o.AddUint24LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(b) })
			return one(o.Bytes())
		}},
		{"reading", func(b []byte) []interface{} {
			n := len(b) - 5
			copy(b, []byte{4, 0x83, byte(n >> 16), byte(n >> 8), byte(n)})
			s, out := cryptobyte.String(b), cryptobyte.String(nil)
			ok := s.ReadASN1(&out, 4)
			return []interface{}{ok, len(out), len(s)}
		}},
	}
	add("large arguments", fmt.Sprintf("every function of data on lengths %v: nothing in or behind the argument changes, two calls give the same, results that were overwritten or kept do not matter", larges), len(big)*len(larges), func(t *eng.T, i int) {
		f, l := big[i/len(larges)], larges[i%len(larges)]
		t.Descf("%s with %d bytes", f.name, l)
		buf := make([]byte, l+64)
		for j := range buf {
			buf[j] = byte(j*7 + j>>8*3 + j>>16)
		}
		arg := buf[:l]
		f.f(arg) // some of these complete the argument
		before := append([]byte{}, buf...)
		kept := f.f(arg)
		first := valueText(kept)
		same := func(what string) {
			if !bytes.Equal(buf, before) {
				for j := range buf {
					if buf[j] != before[j] {
						t.Failf("%s changed byte %d of %d (argument of %d bytes)", what, j, len(buf), l)
					}
				}
			}
		}
		same(f.name)
		again := f.f(arg)
		if s := valueText(again); s != first {
			t.Failf("%s gives something else a second time: %s", f.name, textDiff(first, s))
		}
		if s := valueText(kept); s != first {
			t.Failf("the second call changed the result of the first: %s", textDiff(first, s))
		}
		scribble(reflect.ValueOf(again), false)
		if s := valueText(kept); s != first {
			t.Failf("overwriting the second result changed the first: %s", textDiff(first, s))
		}
		scribble(reflect.ValueOf(kept), false)
		same("overwriting the results")
		if s := valueText(f.f(arg)); s != first {
			t.Failf("%s gives something else after the results were overwritten: %s", f.name, textDiff(first, s))
		}
		same(f.name)
		t.Obs(i)
		t.Ops(4)
	})

	// the whole small curve
	for _, name := range []string{"n<p tiny", "n>p tiny"} {
		c := toy(name)
		n := c.c.ToyN()
		add("arguments on "+name, "signing with every key and nonce, verifying with every key and pair of numbers, encrypting and decrypting with every key and nonce: the arguments stay as they are", n*n, func(t *eng.T, i int) {
			d, k := i/n, i%n
			if d == 0 {
				return
			}
			t.Descf("%v, key %d, number %d", c, d, k)
			pri, pub := privOf(c.ic, bint(int64(d))), pubOf(c.ic, c.c.ToyPoint(d))
			id, msg := lift([]byte("id")), lift([]byte("message"))
			rn := lift(append(nonceBytes(c.c, bint(int64(k))), pat(3, 64)...))
			args := []interface{}{pri, pub, id, msg, rn}
			before := memoryText(args)
			same := func(what string) {
				if now := memoryText(args); now != before {
					t.Failf("%s changed its arguments: %s", what, textDiff(before, now))
				}
				t.Ops(1)
			}
			withRand(newScript(rn), func() { sm2.SignToRS(pri, id, msg) })
			same("SignToRS")
			withRand(newScript(rn), func() { sm2.Sign(pri, nil, msg) })
			same("Sign")
			var ct []byte
			withRand(newScript(rn), func() { ct, _ = sm2.Encrypt(pub, msg, sm2.C1C2C3) })
			same("Encrypt")
			if ct != nil {
				l := lift(ct)
				keep := memoryText(l)
				sm2.Decrypt(pri, l, sm2.C1C2C3)
				t.Check(keep == memoryText(l), "Decrypt changed the ciphertext")
				same("Decrypt")
				sm2.Decrypt(pri, l, sm2.C1C3C2)
				t.Check(keep == memoryText(l), "the refused Decrypt changed the ciphertext")
				same("Decrypt")
			}
			sm2.CalculatePubKey(pri)
			same("CalculatePubKey")
			pri.GetRawBytes()
			pub.GetRawBytes()
			pub.GetUnCompressBytes()
			same("raw bytes")
			for s := 0; s <= n; s++ {
				r, s := bint(int64(k)), bint(int64(s))
				sm2.VerifyByRS(pub, id, msg, r, s)
				t.Check(r.Int64() == int64(k) && s.IsInt64(), "VerifyByRS changed the signature")
				sm2.MarshalSign(r, s)
			}
			same("VerifyByRS")
			t.Obs(d, k)
		})
		c2 := c
		add("exchange arguments on "+name, "the key exchange with every pair of points of the other side: the arguments stay as they are, and the results are the same a second time", n*n, func(t *eng.T, i int) {
			p, e := i/n, i%n
			if p == 0 || e == 0 {
				return
			}
			t.Descf("%v, the other's points %d and %d", c2, p, e)
			for d := 1; d < n; d += 4 {
				own, eph := privOf(c2.ic, bint(int64(d))), privOf(c2.ic, bint(int64(1+(d*3)%(n-1))))
				pub, epub := pubOf(c2.ic, c2.c.ToyPoint(p)), pubOf(c2.ic, c2.c.ToyPoint(e))
				ida, idb := lift([]byte("A")), lift([]byte("B"))
				args := []interface{}{own, eph, pub, epub, ida, idb}
				before := memoryText(args)
				r, err := sm2.CalculateKeyWithConfirmation(false, 130, nil, own, eph, ida, pub, epub, idb)
				one := valueText([]interface{}{r, err})
				if now := memoryText(args); now != before {
					t.Failf("the responder changed its arguments: %s", textDiff(before, now))
				}
				scribble(reflect.ValueOf(r), false)
				r, err = sm2.CalculateKeyWithConfirmation(false, 130, nil, own, eph, ida, pub, epub, idb)
				if two := valueText([]interface{}{r, err}); two != one {
					t.Failf("the second run gives %s", textDiff(one, two))
				}
				sm2.CalculateKeyWithConfirmation(true, 130, make([]byte, 32), own, eph, ida, pub, epub, idb)
				if now := memoryText(args); now != before {
					t.Failf("the initiator changed its arguments: %s", textDiff(before, now))
				}
				t.Ops(3)
			}
			t.Obs(p, e)
		})
	}

	// readers
	content := [][]byte{{}}
	vals := []byte{0, 1, 5, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	for l, lo := 1, 0; l <= pick(tier, 3, 4); l++ {
		hi := len(content)
		for _, c := range content[lo:hi] {
			for _, v := range vals {
				content = append(content, append(append([]byte{}, c...), v))
			}
		}
		lo = hi
	}
	for _, b := range []byte{0x80, 0xff, 0x7f, 0} {
		for _, l := range []int{7, 8, 9, 33} {
			content = append(content, append([]byte{b}, pat(3, l-1)...))
		}
	}
	content = append(content, []byte("20240229123450Z"), []byte("20240230123450Z"))
	tags := []byte{1, 2, 3, 4, 5, 6, 10, 0x18, 0x30, 0xa0, 0xa1, 0x1f}
	add("reading leaves the input", "every reader on every short element: the input stays as it is, the result is the same a second time, and overwriting the results that are values changes nothing", len(tags)*len(content), func(t *eng.T, i int) {
		d := mix(i, len(tags), len(content))
		in := lift(ref.TLV(tags[d[0]], content[d[1]]))
		t.Descf("reading %x", in)
		before := memoryText(in)
		for k, f := range readers {
			s1, s2 := cryptobyte.String(in), cryptobyte.String(in)
			one := f.f(&s1)
			a := valueText([]interface{}{one, len(s1)})
			if memoryText(in) != before {
				t.Failf("%s changes its input to %s", f.name, memoryText(in))
			}
			if !f.alias {
				scribble(reflect.ValueOf(one), false)
				if memoryText(in) != before {
					t.Failf("overwriting the result of %s changes its input", f.name)
				}
			}
			if b := valueText([]interface{}{f.f(&s2), len(s2)}); a != b {
				t.Failf("%s, a second time: %s", f.name, textDiff(a, b))
			}
			t.Obs(k, a)
		}
		t.Ops(2 * len(readers))
	})
	return sp
}

func hexInts(sig []byte) [2]*big.Int {
	r, s, _ := ref.ParseSig(sig)
	return [2]*big.Int{r, s}
}

type reader struct {
	name  string
	alias bool // the result shares memory with the input
	f     func(s *cryptobyte.String) []interface{}
}

var readers = []reader{
	{"ReadASN1Integer int", false, func(s *cryptobyte.String) []interface{} {
		var v int
		return []interface{}{s.ReadASN1Integer(&v), v}
	}},
	{"ReadASN1Integer int8", false, func(s *cryptobyte.String) []interface{} {
		var v int8
		return []interface{}{s.ReadASN1Integer(&v), v}
	}},
	{"ReadASN1Integer uint64", false, func(s *cryptobyte.String) []interface{} {
		var v uint64
		return []interface{}{s.ReadASN1Integer(&v), v}
	}},
	{"ReadASN1Integer big", false, func(s *cryptobyte.String) []interface{} {
		v := bint(77)
		return []interface{}{s.ReadASN1Integer(v), v}
	}},
	{"ReadASN1Enum", false, func(s *cryptobyte.String) []interface{} {
		var v int
		return []interface{}{s.ReadASN1Enum(&v), v}
	}},
	{"ReadASN1Boolean", false, func(s *cryptobyte.String) []interface{} {
		var v bool
		return []interface{}{s.ReadASN1Boolean(&v), v}
	}},
	{"ReadASN1ObjectIdentifier", false, func(s *cryptobyte.String) []interface{} {
		var v = cpOID(nil)
		return []interface{}{s.ReadASN1ObjectIdentifier(&v), v}
	}},
	{"ReadASN1GeneralizedTime", false, func(s *cryptobyte.String) []interface{} {
		var v time.Time
		return []interface{}{s.ReadASN1GeneralizedTime(&v), v}
	}},
	{"ReadASN1BitStringAsBytes", true, func(s *cryptobyte.String) []interface{} {
		var v []byte
		return []interface{}{s.ReadASN1BitStringAsBytes(&v), v}
	}},
	{"ReadASN1Bytes", true, func(s *cryptobyte.String) []interface{} {
		var v []byte
		return []interface{}{s.ReadASN1Bytes(&v, cbasn1.OCTET_STRING), v}
	}},
	{"ReadAnyASN1Element", true, func(s *cryptobyte.String) []interface{} {
		var v cryptobyte.String
		var tag cbasn1.Tag
		return []interface{}{s.ReadAnyASN1Element(&v, &tag), v, tag}
	}},
	{"ReadOptionalASN1Integer", false, func(s *cryptobyte.String) []interface{} {
		v, def := bint(5), bint(77)
		ok := s.ReadOptionalASN1Integer(v, cbasn1.Tag(0).Constructed().ContextSpecific(), def)
		return []interface{}{ok, v}
	}},
	{"ReadOptionalASN1OctetString", true, func(s *cryptobyte.String) []interface{} {
		var v []byte
		var p bool
		return []interface{}{s.ReadOptionalASN1OctetString(&v, &p, cbasn1.Tag(1).Constructed().ContextSpecific()), v, p}
	}},
	{"ReadOptionalASN1Boolean", false, func(s *cryptobyte.String) []interface{} {
		var v bool
		return []interface{}{s.ReadOptionalASN1Boolean(&v, true), v}
	}},
	{"ReadUint8LengthPrefixed", true, func(s *cryptobyte.String) []interface{} {
		var v cryptobyte.String
		return []interface{}{s.ReadUint8LengthPrefixed(&v), v}
	}},
	{"ReadUint16", false, func(s *cryptobyte.String) []interface{} {
		var v uint16
		return []interface{}{s.ReadUint16(&v), v}
	}},
	{"CopyBytes", false, func(s *cryptobyte.String) []interface{} {
		v := make([]byte, 3)
		return []interface{}{s.CopyBytes(v), v}
	}},
}
