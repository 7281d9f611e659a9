package props

import (
	"bytes"

	"github.com/ZZMarquis/gm/util"

	"verif/mc/eng"
)

func checkUnpad(t *eng.T, b []byte) {
	g := newGuard("src", b, 5)
	got := util.PKCS5UnPadding(g.b())
	g.check(t)
	t.Ops(1)
	n := len(b)
	if n == 0 || int(b[n-1]) > n {
		if got != nil {
			t.Failf("PKCS5UnPadding(%s) = %s, want nil", hx(b), hx(got))
		}
		return
	}
	want := b[:n-int(b[n-1])]
	if got == nil || !bytes.Equal(got, want) {
		t.Failf("PKCS5UnPadding(%s) = %s, want %s", hx(b), hx(got), hx(want))
	}
	t.Obs(len(b), len(got))
}

// padCase pads n bytes to the block size in both ways, with several amounts of room behind them, and unpads them.
func padCase(t *eng.T, bs, n int) {
	for k, spare := range []int{0, 1, 7, 300} {
		src := pat((n+k)%5, n)
		if pad := bs - n%bs; k >= 2 {
			// ends like something padded already
			for j := n - 1; j >= 0 && j >= n-pad; j-- {
				src[j] = byte(pad * (k - 2))
			}
		}
		g := newGuard("src", src, spare)
		arg := g.b()
		if n == 0 && k == 1 {
			arg = nil
		}
		p := util.PKCS5Padding(arg, bs)
		g.check(t)
		c := len(p) - n
		if c < 1 || c > bs || len(p)%bs != 0 || !bytes.Equal(p[:n], src) {
			t.Failf("PKCS5Padding gave %s (%d bytes)", hx(p), len(p))
		}
		for _, x := range p[n:] {
			if int(x) != c {
				t.Failf("PKCS5Padding gave %s", hx(p))
			}
		}
		u := util.PKCS5UnPadding(p)
		if !bytes.Equal(u, src) || u == nil {
			t.Failf("PKCS5UnPadding gave %s", hx(u))
		}
		z := util.ZeroPadding(arg, bs)
		g.check(t)
		c = len(z) - n
		if c < 1 || c > bs || len(z)%bs != 0 || !bytes.Equal(z[:n], src) {
			t.Failf("ZeroPadding gave %s (%d bytes)", hx(z), len(z))
		}
		for _, x := range z[n:] {
			if x != 0 {
				t.Failf("ZeroPadding gave %s", hx(z))
			}
		}
		uz := util.UnZeroPadding(z, c)
		if !bytes.Equal(uz, src) {
			t.Failf("UnZeroPadding gave %s", hx(uz))
		}
		// the two results are independent of each other and of later calls
		if !bytes.Equal(p[:n], src) {
			t.Failf("padded result changed by a later call: %s", hx(p))
		}
		t.Ops(4)
		t.Obs(bs, n, c)
	}
}

func c05(tier string) []eng.Space {
	maxLen := pick(tier, 800, 3000)
	var large []int
	for k := uint(12); k <= uint(pick(tier, 18, 22)); k++ {
		large = append(large, 1<<k-1, 1<<k, 1<<k+1)
	}
	return []eng.Space{
		{Name: "pad", N: 255 * (maxLen + 1), Doc: "every block size 1..255 and every length 0..N, with several amounts of spare capacity; padded and unpadded", Run: func(t *eng.T, i int) {
			bs, n := i/(maxLen+1)+1, i%(maxLen+1)
			t.Descf("block size %d, %d bytes", bs, n)
			padCase(t, bs, n)
		}},
		{Name: "pad-large", N: 255 * len(large), Doc: "every block size with lengths around every power of two from 2^12 to 2^18 (2^22)", Run: func(t *eng.T, i int) {
			d := mix(i, 255, len(large))
			t.Descf("block size %d, %d bytes", d[0]+1, large[d[1]])
			padCase(t, d[0]+1, large[d[1]])
		}},
		{Name: "appending-to-result", N: 255, Doc: "padding two extensions of one buffer: neither disturbs the other", Run: func(t *eng.T, i int) {
			bs := i + 1
			t.Descf("block size %d: prefixes of one buffer padded in turn", bs)
			buf := pat(3, 2*bs+10)
			keep := append([]byte{}, buf...)
			var outs, wants [][]byte
			for n := 0; n <= len(buf); n++ {
				p := util.PKCS5Padding(buf[:n], bs)
				z := util.ZeroPadding(buf[:n], bs)
				outs = append(outs, p, z)
				wants = append(wants, append([]byte{}, p...), append([]byte{}, z...))
				wantBytes(t, "the caller's buffer", buf, keep)
			}
			for k := range outs {
				wantBytes(t, "an earlier padded result", outs[k], wants[k])
			}
			t.Ops(2 * len(buf))
		}},
		{Name: "unpad-short", N: 1 + 256 + 65536, Doc: "unpadding every byte string of up to two bytes", Run: func(t *eng.T, i int) {
			var b []byte
			if i > 256 {
				b = []byte{byte((i - 257) >> 8), byte(i - 257)}
			} else if i > 0 {
				b = []byte{byte(i - 1)}
			}
			t.Descf("PKCS5UnPadding(%s)", hx(b))
			checkUnpad(t, b)
			if i == 0 && util.PKCS5UnPadding(nil) != nil {
				t.Failf("PKCS5UnPadding(nil) is not nil")
			}
		}},
		{Name: "unpad-all-lengths", N: 601 * 256, Doc: "unpadding every length up to 600 with every last byte", Run: func(t *eng.T, i int) {
			n, last := i/256, i%256
			t.Descf("%d bytes ending in %d", n, last)
			for k := 0; k < 3; k++ {
				b := pat(k, n)
				if n > 0 {
					b[n-1] = byte(last)
				}
				checkUnpad(t, b)
			}
		}},
		{Name: "unpad-count-bytes", N: 256 * 20, Doc: "strings ending in runs of the count byte, complete and with one wrong byte", Run: func(t *eng.T, i int) {
			c, extra := i/20, i%20
			t.Descf("run of %d bytes of value %d behind %d others", c, c, extra)
			b := append(pat(2, extra), bytes.Repeat([]byte{byte(c)}, c)...)
			checkUnpad(t, b)
			for k := range b {
				x := append([]byte{}, b...)
				x[k] ^= 1
				checkUnpad(t, x)
			}
		}},
	}
}
