package props

import (
	"bytes"
	"crypto/cipher"
	"fmt"

	"github.com/ZZMarquis/gm/sm4"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C03", Init: selfTest, Spaces: c03,
		Assumptions: []string{"keys and blocks: all values of all single bytes and byte pairs (one in the key, one in the block), not all 2^256 combinations; memory layouts are complete up to 64 bytes"}})
	eng.Register(&eng.Prop{ID: "C04", Init: selfTest, Spaces: c04,
		Assumptions: []string{"contents from fixed patterns and all single-byte variations; all lengths within the bounds"}})
	eng.Register(&eng.Prop{ID: "C05", Init: selfTest, Spaces: c05,
		Assumptions: []string{"contents from fixed patterns; all lengths and block sizes within the bounds"}})
}

func mustCipher(t *eng.T, key []byte) cipher.Block {
	c, err := sm4.NewCipher(key)
	if err != nil || c == nil {
		t.Failf("NewCipher(%s): %v", hx(key), err)
	}
	return c
}

func sm4pair(t *eng.T, c cipher.Block, rkey, blk []byte) {
	var dst, back [16]byte
	c.Encrypt(dst[:], blk)
	want := ref.SM4Encrypt(rkey, blk)
	if dst != want {
		t.Failf("key %s block %s: Encrypt = %x, want %x", hx(rkey), hx(blk), dst, want)
	}
	c.Decrypt(back[:], dst[:])
	if !bytes.Equal(back[:], blk[:16]) {
		t.Failf("key %s: Decrypt(Encrypt(%s)) = %x", hx(rkey), hx(blk), back)
	}
	t.Ops(2)
}

// sm4Words are the words tried at every place of every round.
var sm4Words = func() (w []uint32) {
	seen := map[uint32]bool{}
	add := func(v uint32) {
		for _, x := range []uint32{v, ^v} {
			if !seen[x] {
				seen[x] = true
				w = append(w, x)
			}
		}
	}
	for b := uint32(0); b < 128; b++ {
		add(b * 0x01010101)
	}
	for i := uint(0); i < 32; i++ {
		add(1 << i)
		add(1<<i - 1)
	}
	for i := uint(0); i < 4; i++ {
		for b := uint32(1); b < 256; b++ {
			add(b << (8 * i))
		}
	}
	return
}()

func c03(tier string) []eng.Space {
	vals := pick(tier, 8, 256)
	wide := make([]int, vals)
	for i := range wide {
		wide[i] = (i*256/vals + i%2*37) % 256
		if vals == 256 {
			wide[i] = i
		}
	}
	return []eng.Space{
		{Name: "block-bytes", N: 16 * 256 * 4, Doc: "every value of every block byte under four keys, encrypted and decrypted", Run: func(t *eng.T, i int) {
			d := mix(i, 4, 16, 256)
			key, blk := pat(d[0], 16), pat(3-d[0], 16)
			blk[d[1]] = byte(d[2])
			t.Descf("key %s, block %s", hx(key), hx(blk))
			c := mustCipher(t, key)
			sm4pair(t, c, key, blk)
			var dec [16]byte
			c.Decrypt(dec[:], blk)
			want := ref.SM4Decrypt(key, blk)
			if dec != want {
				t.Failf("Decrypt = %x, want %x", dec, want)
			}
			t.Obs(dec[:])
		}},
		{Name: "key-bytes", N: 16 * 256 * 4, Doc: "every value of every key byte, with four rest-of-key patterns", Run: func(t *eng.T, i int) {
			d := mix(i, 4, 16, 256)
			key, blk := pat(d[0], 16), pat(3-d[0], 16)
			key[d[1]] = byte(d[2])
			t.Descf("key %s, block %s", hx(key), hx(blk))
			sm4pair(t, mustCipher(t, key), key, blk)
			sm4pair(t, mustCipher(t, key), key, key)
		}},
		{Name: "key-byte-block-byte", N: 16 * 256 * 16, Doc: "every value of every key byte with a set of values of every block byte", Run: func(t *eng.T, i int) {
			d := mix(i, 16, 16, 256)
			key := pat(3, 16)
			key[d[1]] = byte(d[2])
			blk := pat(0, 16)
			t.Descf("key %s, block byte %d over %d values", hx(key), d[0], vals)
			c := mustCipher(t, key)
			for _, v := range wide {
				blk[d[0]] = byte(v)
				sm4pair(t, c, key, blk)
			}
			t.Trace(vals - 1)
		}},
		{Name: "weights", N: 129, Doc: "all blocks and keys with up to two set (or clear) bits", Run: func(t *eng.T, i int) {
			for inv := 0; inv < 4; inv++ {
				for j := i; j < 129; j++ {
					b := make([]byte, 16)
					if i < 128 {
						b[i/8] |= 1 << uint(i%8)
					}
					if j < 128 {
						b[j/8] |= 1 << uint(j%8)
					}
					if inv&1 == 1 {
						for k := range b {
							b[k] = ^b[k]
						}
					}
					key, blk := b, pat(0, 16)
					if inv&2 == 2 {
						key, blk = pat(0, 16), b
					}
					t.Descf("key %s block %s", hx(key), hx(blk))
					sm4pair(t, mustCipher(t, key), key, blk)
				}
			}
		}},
		{Name: "round-words", N: 32 * 3 * len(sm4Words), Doc: "for every round of encryption, decryption and key schedule and every word of a set (all words of one repeated byte, all single-bit and single-byte words and their complements): a block or key that makes the word entering the S-boxes, the new word, or one of the four state words equal to it", Run: func(t *eng.T, i int) {
			d := mix(i, 3, 32, len(sm4Words))
			what, r, v := d[0], d[1], sm4Words[d[2]]
			key := pat(3, 16)
			for place := 0; place < 9; place++ {
				var c uint32
				switch what {
				case 0, 1:
					c = ref.SM4RoundKey(key, what == 1, r)
				case 2:
					c = ref.SM4CK(r)
				}
				w := [4]uint32{0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210}
				switch {
				case place == 0: // the word entering the S-boxes
					w[3] = v ^ c ^ w[1] ^ w[2]
				case place < 5:
					w[place-1] = v
				case place == 5: // all state words
					w = [4]uint32{v, v, v, v}
				case place == 6: // two state words
					w[1], w[2] = v, v
				case place == 7: // a zero word entering the S-boxes in two ways at once
					w = [4]uint32{v, v, v, c}
				case place == 8: // the new word
					w[0] = v ^ ref.SM4T(w[1]^w[2]^w[3]^c, what == 2)
				}
				k, blk := key, pat(0, 16)
				if what == 2 {
					k = ref.SM4KeyFrom(r, w)
				} else {
					blk = ref.SM4BlockFrom(key, what == 1, r, w)
				}
				t.Descf("%s round %d, word %08x in place %d: key %s, block %s", []string{"encryption", "decryption", "key schedule"}[what], r, v, place, hx(k), hx(blk))
				c2 := mustCipher(t, k)
				sm4pair(t, c2, k, blk)
				var dec [16]byte
				c2.Decrypt(dec[:], blk)
				if want := ref.SM4Decrypt(k, blk); dec != want {
					t.Failf("Decrypt = %x, want %x", dec, want)
				}
				t.Ops(1)
			}
			t.Eval(8)
			t.Trace(8)
		}},
		{Name: "standard-iteration", N: 1, Doc: "the standard's million-fold encryption, every intermediate value", Run: func(t *eng.T, i int) {
			key := []byte{0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10}
			c := mustCipher(t, key)
			x := append([]byte{}, key...)
			y := append([]byte{}, key...)
			for k := 0; k < 1000000; k++ {
				c.Encrypt(x, x)
				c.Decrypt(y, y)
			}
			t.Ops(2000000)
			if fmt.Sprintf("%x", x) != "595298c7c6fd271f0402f804c33d3f66" {
				t.Failf("after 1000000 encryptions: %x", x)
			}
			for k := 0; k < 1000000; k++ {
				c.Encrypt(y, y)
			}
			wantBytes(t, "a million decryptions and encryptions", y, key)
		}},
		{Name: "layouts", N: 64 * 64, Doc: "every pair of source and destination offsets in one buffer, including all overlaps; destinations and sources longer than a block", Run: func(t *eng.T, i int) {
			so, do := i/64, i%64
			t.Descf("source offset %d, destination offset %d in one 96-byte buffer", so, do)
			key := pat(0, 16)
			c := mustCipher(t, key)
			for _, ln := range []int{16, 17, 32} {
				for _, dec := range []bool{false, true} {
					buf := pat(3, 96)
					want := append([]byte{}, buf...)
					var w [16]byte
					if dec {
						w = ref.SM4Decrypt(key, buf[so:so+16])
						c.Decrypt(buf[do:do+ln], buf[so:so+ln])
					} else {
						w = ref.SM4Encrypt(key, buf[so:so+16])
						c.Encrypt(buf[do:do+ln], buf[so:so+ln])
					}
					copy(want[do:], w[:])
					t.Ops(1)
					if !bytes.Equal(buf, want) {
						t.Failf("dec=%v slices of %d bytes: buffer is %s, want %s", dec, ln, hx(buf), hx(want))
					}
				}
			}
		}},
		{Name: "short-blocks", N: 40 * 40, Doc: "every source and destination length below N, with and without spare capacity", Run: func(t *eng.T, i int) {
			sl, dl := i/40, i%40
			t.Descf("source of %d bytes, destination of %d bytes", sl, dl)
			key := pat(0, 16)
			c := mustCipher(t, key)
			for _, spare := range []int{0, 24} {
				for _, dec := range []bool{false, true} {
					src, dst := newGuard("src", pat(3, sl), spare), newGuard("dst", pat(2, dl), spare)
					s, d := src.b(), dst.b()
					if sl == 0 && spare == 0 {
						s = nil
					}
					p, _ := eng.Catch(func() {
						if dec {
							c.Decrypt(d, s)
						} else {
							c.Encrypt(d, s)
						}
					})
					t.Ops(1)
					short := sl < 16 || dl < 16
					if short != (p != nil) {
						t.Failf("dec=%v spare=%d: panic %v", dec, spare, p)
					}
					if !short {
						w := ref.SM4Encrypt(key, s[:16])
						if dec {
							w = ref.SM4Decrypt(key, s[:16])
						}
						copy(dst.want[8:], w[:])
					}
					src.check(t)
					dst.check(t)
				}
			}
		}},
		{Name: "key-notations", N: 5, Doc: "keys in other notations (hex, base64, DER, with bytes around them) are refused unless they have 16 bytes", Run: func(t *eng.T, i int) {
			for _, x := range otherForms(pat(i, 16)) {
				t.Descf("key %s", hx(x))
				c, err := sm4.NewCipher(x)
				t.Ops(1)
				t.Eval(1)
				if (len(x) == 16) != (err == nil) || err != nil && c != nil {
					t.Failf("NewCipher gives %v, error %v", c != nil, err)
				}
				if c != nil {
					sm4pair(t, c, x, pat(3, 16))
				}
			}
		}},
		{Name: "key-lengths", N: 600, Doc: "every key length below N", Run: func(t *eng.T, i int) {
			t.Descf("key of %d bytes", i)
			g := newGuard("key", pat(0, i), 20)
			k := g.b()
			for r := 0; r < 2; r++ {
				c, err := sm4.NewCipher(k)
				g.check(t)
				if (i == 16) != (err == nil) {
					t.Failf("error is %v", err)
				}
				if i != 16 && c != nil {
					t.Failf("error %v but a cipher as well", err)
				}
				if i != 16 && err.Error() == "" {
					t.Failf("empty error")
				}
				if c != nil {
					if c.BlockSize() != 16 {
						t.Failf("BlockSize %d", c.BlockSize())
					}
					sm4pair(t, c, pat(0, 16), pat(3, 16))
				}
				if i == 0 {
					k = nil
				}
				t.Ops(1)
			}
		}},
		{Name: "histories", N: 12 * 12 * 12, Doc: "all call histories of two ciphers up to depth 5: creation with a reused key buffer, encryption, decryption, in place or not", Run: func(t *eng.T, i int) {
			var ops []int
			t.Desc(func() string { return fmt.Sprintf("history %v (0-1 new cipher a/b from one buffer, 2.. crypt)", ops) })
			for j := 0; j < 144; j++ {
				d := mix(i*144+j, 12, 12, 12, 12, 12)
				ops = d
				kb := make([]byte, 16)
				keys := [2][]byte{pat(0, 16), pat(3, 16)}
				var cs [2]cipher.Block
				ver := byte(0)
				mk := func(w int) {
					ver++
					keys[w] = append([]byte{}, keys[w]...)
					keys[w][5] ^= ver * 17
					copy(kb, keys[w])
					cs[w] = mustCipher(t, kb)
					for q := range kb {
						kb[q] = 0xEE
					}
				}
				mk(0)
				mk(1)
				blocks := [2][]byte{pat(0, 16), pat(2, 16)}
				for _, op := range d {
					if op < 2 {
						mk(op)
						continue
					}
					if op >= 10 {
						// an illegal call in between must not disturb anything
						eng.Catch(func() { cs[op-10].Encrypt(make([]byte, 16), make([]byte, 7)) })
						continue
					}
					w, dec, b := (op-2)&1, (op-2)>>1&1, (op-2)>>2&1
					in := blocks[b]
					var want [16]byte
					out := make([]byte, 16)
					if dec == 1 {
						want = ref.SM4Decrypt(keys[w], in)
						cs[w].Decrypt(out, in)
					} else {
						want = ref.SM4Encrypt(keys[w], in)
						cs[w].Encrypt(out, in)
					}
					wantBytes(t, "block result", out, want[:])
					blocks[b] = out
				}
				t.Obs(blocks[0], blocks[1])
				t.Ops(7)
			}
			t.Trace(143)
			t.Eval(143)
		}},
		{Name: "generic-modes", N: 80, Doc: "CTR and GCM of crypto/cipher over the block cipher against the reference block function", Run: func(t *eng.T, i int) {
			key := pat(3, 16)
			t.Descf("CTR and GCM round trip of %d bytes", i)
			c := mustCipher(t, key)
			iv := pat(2, 16)
			out := make([]byte, i)
			cipher.NewCTR(c, iv).XORKeyStream(out, pat(0, i))
			want := pat(0, i)
			ctr := append([]byte{}, iv...)
			for o := 0; o < i; o += 16 {
				b := ref.SM4Encrypt(key, ctr)
				for k := 0; k < 16 && o+k < i; k++ {
					want[o+k] ^= b[k]
				}
				for k := 15; k >= 0; k-- {
					ctr[k]++
					if ctr[k] != 0 {
						break
					}
				}
			}
			wantBytes(t, "CTR", out, want)
			g, err := cipher.NewGCM(c)
			if err != nil {
				t.Failf("GCM: %v", err)
			}
			sealed := g.Seal(nil, iv[:12], pat(0, i), nil)
			open, err := g.Open(nil, iv[:12], sealed, nil)
			if err != nil || !bytes.Equal(open, pat(0, i)) {
				t.Failf("GCM round trip: %v", err)
			}
			t.Ops(4)
		}},
	}
}

type modeFn struct {
	name string
	f    func(key, iv, in []byte) ([]byte, error)
	r    func(key, iv, in []byte) []byte
	iv   bool
}

var modes = []modeFn{
	{"ECBEncrypt", func(k, iv, in []byte) ([]byte, error) { return sm4.ECBEncrypt(k, in) }, func(k, iv, in []byte) []byte { return ref.SM4ECB(k, in, false) }, false},
	{"ECBDecrypt", func(k, iv, in []byte) ([]byte, error) { return sm4.ECBDecrypt(k, in) }, func(k, iv, in []byte) []byte { return ref.SM4ECB(k, in, true) }, false},
	{"CBCEncrypt", sm4.CBCEncrypt, func(k, iv, in []byte) []byte { return ref.SM4CBC(k, iv, in, false) }, true},
	{"CBCDecrypt", sm4.CBCDecrypt, func(k, iv, in []byte) []byte { return ref.SM4CBC(k, iv, in, true) }, true},
}

func runMode(t *eng.T, m modeFn, key, iv, in []byte) []byte {
	gk, gi, gd := newGuard("key", key, 9), newGuard("iv", iv, 9), newGuard("input", in, 20)
	out, err := m.f(gk.b(), gi.b(), gd.b())
	t.Ops(1)
	gk.check(t)
	gi.check(t)
	gd.check(t)
	ok := len(key) == 16 && len(in)%16 == 0 && (!m.iv || len(iv) == 16)
	if !ok {
		if err == nil {
			t.Failf("%s(key %d bytes, iv %d bytes, input %d bytes) succeeded", m.name, len(key), len(iv), len(in))
		}
		if out != nil {
			t.Failf("%s gave output %s together with error %v", m.name, hx(out), err)
		}
		return nil
	}
	if err != nil {
		t.Failf("%s(key %s, iv %s, %d bytes): %v", m.name, hx(key), hx(iv), len(in), err)
	}
	want := m.r(key, iv, in)
	wantBytes(t, fmt.Sprintf("%s(key %s, iv %s, %s)", m.name, hx(key), hx(iv), hx(in)), out, want)
	// results share no memory with arguments, and arguments are not kept
	full := out[:cap(out)]
	for i := range full {
		full[i] ^= 0xFF
	}
	gk.check(t)
	gi.check(t)
	gd.check(t)
	for i := range full {
		full[i] ^= 0xFF
	}
	gk.scribble()
	gi.scribble()
	gd.scribble()
	wantBytes(t, m.name+" result after its arguments were overwritten", out, want)
	return out
}

func c04(tier string) []eng.Space {
	maxLen := pick(tier, 1300, 5000)
	return []eng.Space{
		{Name: "lengths", N: maxLen + 1, Doc: "every input length 0..N in four contents and all four modes", Run: func(t *eng.T, i int) {
			t.Descf("input of %d bytes, all modes", i)
			for p := 0; p < 4; p++ {
				for mi, m := range modes {
					key, iv, in := pat(p, 16), pat(3-p, 16), pat((p+1)%4, i)
					out := runMode(t, m, key, iv, in)
					if out != nil {
						back := runMode(t, modes[mi^1], key, iv, out)
						wantBytes(t, m.name+" and back", back, in)
						t.Obs(out)
					}
				}
			}
		}},
		{Name: "key-and-iv-lengths", N: 70 * 70, Doc: "every key length and IV length below 70 with inputs of 0, 1, 15, 16, 17, 32, 48 bytes", Run: func(t *eng.T, i int) {
			kl, il := i/70, i%70
			t.Descf("key of %d bytes, IV of %d bytes", kl, il)
			for _, n := range []int{0, 1, 15, 16, 17, 32, 48} {
				for _, m := range modes {
					runMode(t, m, pat(0, kl), pat(3, il), pat(0, n))
				}
			}
			if kl == 0 || il == 0 {
				key, iv := pat(0, kl), pat(0, il)
				if kl == 0 {
					key = nil
				}
				if il == 0 {
					iv = nil
				}
				for _, m := range modes {
					for _, in := range [][]byte{nil, {}, pat(0, 16)} {
						out, err := m.f(key, iv, in)
						ok := kl == 16 && (!m.iv || il == 16)
						if ok != (err == nil) || !ok && out != nil {
							t.Failf("%s with nil key or IV: out %s err %v", m.name, hx(out), err)
						}
					}
				}
			}
		}},
		{Name: "notations", N: 5, Doc: "keys, IVs and inputs in other notations (hex, base64, DER, with bytes around them) are taken as they are: by their length", Run: func(t *eng.T, i int) {
			b := pat(i, 16)
			for _, x := range otherForms(b) {
				t.Descf("16 bytes as %s", hx(x))
				for _, m := range modes {
					runMode(t, m, x, b, pat(0, 32))
					runMode(t, m, b, x, pat(0, 32))
					runMode(t, m, x, x, pat(0, 16))
					runMode(t, m, b, b, x)
				}
				t.Eval(1)
			}
		}},
		{Name: "iv-bytes", N: 16 * 256, Doc: "every value of every IV byte", Run: func(t *eng.T, i int) {
			iv := pat(3, 16)
			iv[i/256] = byte(i)
			t.Descf("IV %s", hx(iv))
			in := pat(0, 48)
			out := runMode(t, modes[2], pat(0, 16), iv, in)
			wantBytes(t, "CBC round trip", runMode(t, modes[3], pat(0, 16), iv, out), in)
		}},
		{Name: "input-bytes", N: 48 * 256, Doc: "every value of every byte of a three-block input, all modes", Run: func(t *eng.T, i int) {
			in := pat(2, 48)
			in[i/256] = byte(i)
			t.Descf("input %s", hx(in))
			for _, m := range modes {
				runMode(t, m, pat(3, 16), pat(0, 16), in)
			}
		}},
		{Name: "equal-blocks", N: 256, Doc: "inputs made of two kinds of block in every arrangement of eight", Run: func(t *eng.T, i int) {
			var in []byte
			for k := 0; k < 8; k++ {
				in = append(in, pat(i>>uint(k)&1*3, 16)...)
			}
			t.Descf("block arrangement %08b", i)
			for _, m := range modes {
				runMode(t, m, pat(3, 16), in[:16], in)
			}
		}},
		{Name: "shared-arguments", N: 49 * 4, Doc: "key, IV and input overlapping in one buffer at every offset", Run: func(t *eng.T, i int) {
			off, m := i/4, modes[i%4]
			t.Descf("%s with key at offset %d and IV at %d of the input's buffer", m.name, off, 48-off)
			buf := pat(3, 64)
			keep := append([]byte{}, buf...)
			key, iv, in := buf[off:off+16], buf[48-off:64-off], buf[:64]
			out, err := m.f(key, iv, in)
			t.Ops(1)
			if err != nil {
				t.Failf("%s: %v", m.name, err)
			}
			wantBytes(t, "buffer of the arguments", buf, keep)
			wantBytes(t, m.name, out, m.r(key, iv, in))
		}},
		{Name: "histories", N: 8 * 8 * 8 * 8, Doc: "all sequences of four mode calls with alternating keys; results are independent of each other", Run: func(t *eng.T, i int) {
			d := mix(i, 8, 8, 8, 8)
			t.Descf("calls %v", d)
			var outs, wants [][]byte
			for k, op := range d {
				m := modes[op%4]
				key := pat(op/4*3, 16)
				in := pat(0, 16*(1+(k+op)%3))
				outs = append(outs, runMode(t, m, key, pat(3, 16), in))
				wants = append(wants, m.r(key, pat(3, 16), in))
			}
			for k := range outs {
				wantBytes(t, "earlier result after later calls", outs[k], wants[k])
				for q := range outs[k] {
					outs[k][q] ^= 0xff
					wants[k][q] ^= 0xff
				}
			}
		}},
		{Name: "large", N: 9, Doc: "inputs up to a mebibyte and their neighbours", Run: func(t *eng.T, i int) {
			n := []int{65536 - 16, 65536, 65536 + 16, 65536 + 1, 1<<20 - 16, 1 << 20, 1<<20 + 16, 1<<17 + 32, 1<<18 - 1}[i]
			t.Descf("input of %d bytes", n)
			for _, m := range modes {
				runMode(t, m, pat(3, 16), pat(0, 16), pat(3, n))
			}
		}},
	}
}
