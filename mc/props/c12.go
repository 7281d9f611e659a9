package props

import (
	"bytes"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C12", Init: selfTest, Spaces: c12,
		Assumptions: []string{"coordinates: all numbers of leading zero bytes and boundary values; lengths: a dense range and encoding boundaries; malformed input: all one-byte edits"}})
}

func codecEnc(t *eng.T, raw []byte, lay sm2.Sm2CipherTextType) []byte {
	want, ok := ref.EncodeCipher(raw, lay == sm2.C1C2C3)
	g := newGuard("raw ciphertext", raw, 11)
	got, err := sm2.MarshalCipher(g.b(), lay)
	t.Ops(1)
	g.check(t)
	if ok != (err == nil) {
		t.Failf("MarshalCipher(%s, layout %d): error %v, well-formed %v", hx(raw), lay, err, ok)
	}
	if !ok {
		if got != nil {
			t.Failf("MarshalCipher gave %s with error %v", hx(got), err)
		}
		return nil
	}
	wantBytes(t, "MarshalCipher", got, want)
	full := got[:cap(got)]
	for i := range full {
		full[i] ^= 0xff
	}
	g.check(t)
	for i := range full {
		full[i] ^= 0xff
	}
	g.scribble()
	wantBytes(t, "encoded ciphertext after its input was overwritten", got, want)
	return got
}

func codecDec(t *eng.T, der []byte, lay sm2.Sm2CipherTextType) []byte {
	want, ok := ref.DecodeCipher(der, lay == sm2.C1C2C3)
	g := newGuard("DER ciphertext", der, 11)
	got, err := sm2.UnmarshalCipher(g.b(), lay)
	t.Ops(1)
	g.check(t)
	if ok != (err == nil) {
		t.Failf("UnmarshalCipher(%s, layout %d): error %v, well-formed %v", hx(der), lay, err, ok)
	}
	if !ok {
		if got != nil {
			t.Failf("UnmarshalCipher gave %s with error %v", hx(got), err)
		}
		return nil
	}
	wantBytes(t, "UnmarshalCipher", got, want)
	full := got[:cap(got)]
	for i := range full {
		full[i] ^= 0xff
	}
	g.check(t)
	for i := range full {
		full[i] ^= 0xff
	}
	g.scribble()
	wantBytes(t, "decoded ciphertext after its input was overwritten", got, want)
	return got
}

func codecBoth(t *eng.T, raw []byte) {
	for _, lay := range layouts {
		der := codecEnc(t, raw, lay)
		if der == nil {
			t.Failf("well-formed ciphertext refused")
		}
		if back := codecDec(t, der, lay); !bytes.Equal(back, raw) {
			t.Failf("decoding gives %s, want %s", hx(back), hx(raw))
		}
		t.Obs(der)
	}
}

func c12(tier string) []eng.Space {
	var coords [][]byte
	for z := 0; z <= 32; z++ {
		for _, first := range []byte{0x01, 0x7f, 0x80, 0xff} {
			b := make([]byte, 32)
			copy(b[z:], pat(0, 32))
			if z < 32 {
				b[z] = first
			}
			coords = append(coords, b)
			if z == 32 {
				break
			}
		}
	}
	coords = append(coords, pat(2, 32), ref.B32(ref.SM2.P), ref.B32(sub(ref.SM2.P, 1)), ref.B32(ref.SM2.N), ref.B32(pow2(255)), ref.B32(sub(pow2(255), 1)), ref.B32(bint(256)), ref.B32(bint(128)))
	nc := len(coords)
	lens := []int{}
	for i := 0; i <= 700; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 65535-140, 65535-36, 65400, 65534, 65535, 65536, 65537, 100000, 1<<20)
	mkraw := func(x, y []byte, n int) []byte {
		return append(append(append([]byte{4}, x...), y...), pat(3, 32+n)...)
	}
	lay2 := func(i int) sm2.Sm2CipherTextType { return layouts[i%2] }
	bases := [][]byte{mkraw(coords[0], coords[1], 3), mkraw(coords[10], coords[3], 0), mkraw(coords[nc-1], coords[2], 32), mkraw(ref.B32(bint(0)), ref.B32(bint(1)), 33), mkraw(coords[2], coords[2], 130), mkraw(pat(2, 32), pat(2, 32), 12)}
	alphabet := []byte{0x30, 0x02, 0x04, 0x00, 0x01, 0x20, 0x80, 0x81, 0xff}
	return []eng.Space{
		{Name: "coordinates", N: nc * nc, Doc: "every pair of coordinates with 0..32 leading zero bytes and boundary values", Run: func(t *eng.T, i int) {
			t.Descf("x=%x y=%x", coords[i/nc], coords[i%nc])
			codecBoth(t, mkraw(coords[i/nc], coords[i%nc], i%40))
		}},
		{Name: "lengths", N: len(lens), Doc: "every length of C2 in the list", Run: func(t *eng.T, i int) {
			t.Descf("C2 of %d bytes", lens[i])
			codecBoth(t, mkraw(coords[i%nc], coords[(i*7)%nc], lens[i]))
		}},
		{Name: "raw-lengths", N: 300, Doc: "every raw length below N, with every leading byte at the boundary lengths", Run: func(t *eng.T, i int) {
			t.Descf("raw string of %d bytes", i)
			for _, lay := range layouts {
				for k := 0; k < 5; k++ {
					b := pat(k, i)
					codecEnc(t, b, lay)
					if i > 0 {
						b[0] = 4
						codecEnc(t, b, lay)
					}
				}
				for v := 0; v < 256; v++ {
					b := pat(0, i)
					if i > 0 {
						b[0] = byte(v)
					}
					codecEnc(t, b, lay)
				}
				if i == 0 {
					codecEnc(t, nil, lay)
					codecDec(t, nil, lay)
				}
			}
		}},
		{Name: "der-edits", N: len(bases) * 2, Doc: "every one-byte substitution, insertion, deletion and truncation of valid encodings", Run: func(t *eng.T, i int) {
			raw, lay := bases[i/2], lay2(i)
			der, _ := ref.EncodeCipher(raw, lay == sm2.C1C2C3)
			t.Descf("edits of %s, layout %d", hx(der), lay)
			n, acc := 0, 0
			edits(der, func(x []byte) {
				if codecDec(t, x, lay) != nil {
					acc++
				}
				n++
			})
			// every edited string is also fed to the other layout
			structEdits(der, func(x []byte) { codecDec(t, x, layouts[1-i%2]); n++ })
			t.Trace(n)
			t.Eval(n)
			t.Note("edited strings that are valid encodings of other ciphertexts", acc)
		}},
		{Name: "other-shapes", N: 4, Doc: "non-canonical, over-long, negative, mistyped, nested, reordered and incomplete encodings", Run: func(t *eng.T, i int) {
			lay := lay2(i)
			raw := bases[i]
			x, y := new(big.Int).SetBytes(raw[1:33]), new(big.Int).SetBytes(raw[33:65])
			h, c := pat(0, 32), pat(3, 5)
			a, b := h, c
			if lay == sm2.C1C2C3 {
				a, b = c, h
			}
			try := func(d []byte) {
				t.Descf("%s, layout %d", hx(d), lay)
				codecDec(t, d, lay)
				codecDec(t, d, layouts[1-i%2])
			}
			good := [][]byte{ref.DERInt(x), ref.DERInt(y), ref.TLV(4, a), ref.TLV(4, b)}
			try(ref.TLV(0x30, good...))
			ints := []*big.Int{bint(0), bint(-1), bint(-128), new(big.Int).Neg(x), new(big.Int).Neg(pow2(255)), new(big.Int).Neg(pow2(256)), pow2(256), sub(pow2(256), 1), pow2(257), pow2(512), pow2(2000), ref.SM2.P}
			for _, v := range ints {
				for _, w := range append(ints, y) {
					try(ref.TLV(0x30, ref.DERInt(v), ref.DERInt(w), good[2], good[3]))
				}
			}
			for l := 0; l < 100; l++ {
				for m := 0; m < 70; m += 1 + l%7 {
					try(ref.TLV(0x30, good[0], good[1], ref.TLV(4, pat(0, l)), ref.TLV(4, pat(0, m))))
				}
			}
			for tag := 0; tag < 256; tag++ {
				for p := 0; p < 4; p++ {
					g := append([][]byte{}, good...)
					g[p] = append([]byte{byte(tag)}, good[p][1:]...)
					try(ref.TLV(0x30, g...))
				}
				try(ref.TLV(byte(tag), good...))
			}
			for mask := 0; mask < 16; mask++ {
				var g [][]byte
				for p := 0; p < 4; p++ {
					if mask>>uint(p)&1 == 1 {
						g = append(g, good[p])
					}
				}
				try(ref.TLV(0x30, g...))
				for p := 0; p < 4; p++ {
					try(ref.TLV(0x30, append(g, good[p])...))
				}
			}
			for _, pm := range [][]int{{1, 0, 2, 3}, {0, 1, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}, {0, 2, 1, 3}} {
				try(ref.TLV(0x30, good[pm[0]], good[pm[1]], good[pm[2]], good[pm[3]]))
			}
			// paddings and long-form lengths
			for k := 1; k < 4; k++ {
				for p := 0; p < 2; p++ {
					for _, fill := range []byte{0, 0xff} {
						g := append([][]byte{}, good...)
						_, ic, _, _, _ := ref.Elem(good[p])
						g[p] = ref.TLV(2, append(bytes.Repeat([]byte{fill}, k), ic...))
						try(ref.TLV(0x30, g...))
					}
				}
				for p := 0; p < 4; p++ {
					g := append([][]byte{}, good...)
					tag, ic, _, _, _ := ref.Elem(good[p])
					l := append([]byte{tag, 0x80 | byte(k)}, make([]byte, k)...)
					l[len(l)-1] = byte(len(ic))
					g[p] = append(l, ic...)
					try(ref.TLV(0x30, g...))
				}
				body := bytes.Join(good, nil)
				l := append([]byte{0x30, 0x80 | byte(k+1)}, make([]byte, k+1)...)
				l[len(l)-1], l[len(l)-2] = byte(len(body)), byte(len(body)>>8)
				try(append(l, body...))
			}
			try(append([]byte{0x30, 0x80}, append(bytes.Join(good, nil), 0, 0)...))
			for _, tail := range [][]byte{{0}, {5, 0}, {0, 0}, {0x30, 0}} {
				try(append(ref.TLV(0x30, good...), tail...))
				try(ref.TLV(0x30, append(append([][]byte{}, good...), tail)...))
			}
			// constructed octet strings (BER)
			g := append([][]byte{}, good...)
			g[3] = ref.TLV(0x24, ref.TLV(4, b))
			try(ref.TLV(0x30, g...))
			try(raw)
		}},
		{Name: "short-strings", N: 256, Doc: "every byte string of up to two bytes, and three-byte ones by first byte over an alphabet", Run: func(t *eng.T, i int) {
			t.Descf("strings starting with %02x", i)
			for _, lay := range layouts {
				codecDec(t, []byte{byte(i)}, lay)
				for j := 0; j < 256; j++ {
					codecDec(t, []byte{byte(i), byte(j)}, lay)
					for k := 0; k < 256; k += 17 {
						codecDec(t, []byte{byte(i), byte(j), byte(k)}, lay)
					}
				}
			}
		}},
		{Name: "alphabet-strings", N: 81, Doc: "every string over a DER alphabet up to the depth", Run: func(t *eng.T, i int) {
			n := 0
			depth := pick(t.Tier, 6, 7)
			var rec func(b []byte)
			rec = func(b []byte) {
				_, ok := ref.DecodeCipher(b, n%2 == 0)
				got, err := sm2.UnmarshalCipher(b, layouts[n%2])
				if ok != (err == nil) || !ok && got != nil {
					t.Failf("UnmarshalCipher(%x) = %x, %v", b, got, err)
				}
				n++
				if len(b) == depth {
					return
				}
				for _, a := range alphabet {
					rec(append(b, a))
				}
			}
			b := make([]byte, 2, 10)
			b[0], b[1] = alphabet[i/9], alphabet[i%9]
			t.Descf("strings starting with %x", b)
			rec(b)
			t.Ops(n)
			t.Trace(n)
		}},
		{Name: "unknown-layout", N: 12, Doc: "unknown layouts are refused by both directions", Run: func(t *eng.T, i int) {
			lay := sm2.Sm2CipherTextType([]int32{0, 3, -1, 4, 255, 256, 257, 258, 1 << 16, -2147483648, 2147483647, -2}[i])
			t.Descf("layout %d", lay)
			for _, raw := range bases {
				if out, err := sm2.MarshalCipher(raw, lay); err == nil || out != nil {
					t.Failf("MarshalCipher gave %x, %v", out, err)
				}
				for _, c := range []bool{true, false} {
					der, _ := ref.EncodeCipher(raw, c)
					if out, err := sm2.UnmarshalCipher(der, lay); err == nil || out != nil {
						t.Failf("UnmarshalCipher gave %x, %v", out, err)
					}
				}
			}
			t.Ops(len(bases) * 3)
		}},
		{Name: "genuine", N: 40, Doc: "real ciphertexts through encryption, codec and decryption", Run: func(t *eng.T, i int) {
			scal := realScalars()
			d := scal[i]
			lay := lay2(i)
			m := pat(3, i*3)
			t.Descf("encrypt, encode, decode, decrypt %d bytes with d=%x", len(m), d)
			var ct []byte
			var err error
			k := bint(specialScalars[i%len(specialScalars)])
			withRand(newScript(nonceBytes(ref.SM2, k), pat(3, 64)), func() { ct, err = sm2.Encrypt(pubOf(realSet.ic, ref.SM2.MulG(d)), m, lay) })
			if err != nil {
				t.Failf("%v", err)
			}
			der := codecEnc(t, ct, lay)
			back := codecDec(t, der, lay)
			decOK(t, privOf(realSet.ic, d), back, m, lay)
		}},
	}
}
