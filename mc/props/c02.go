package props

import (
	"bytes"
	"crypto/hmac"
	"fmt"
	"hash"
	"strings"

	"github.com/ZZMarquis/gm/sm3"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C02", Init: selfTest, Spaces: c02,
		Assumptions: []string{"call histories up to the stated depth over the stated alphabet of calls; write lengths are the boundaries of words, blocks and padding"}})
}

type hop struct {
	kind string // W write, S sum, R reset, N fresh hasher
	obj  int
	n    int
}

func (o hop) String() string {
	switch o.kind {
	case "W":
		return fmt.Sprintf("h%d.Write(%d)", o.obj, o.n)
	case "S":
		return fmt.Sprintf("h%d.Sum(%s)", o.obj, []string{"nil", "prefix", "prefix with room", "full-cap own result"}[o.n])
	case "R":
		return fmt.Sprintf("h%d.Reset()", o.obj)
	}
	return fmt.Sprintf("h%d=New()", o.obj)
}

func hopsString(a []hop) string {
	var s []string
	for _, o := range a {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// runHops executes a history against the reference and finally sums every hasher twice.
func runHops(t *eng.T, ops []hop, objs int) {
	h := make([]hash.Hash, objs)
	msg := make([][]byte, objs)
	for i := range h {
		h[i] = sm3.New()
	}
	seq := 0
	last := make([][]byte, objs)
	lastWant := make([][]byte, objs)
	sum := func(k int, style int) {
		want := ref.SM3(msg[k])
		var arg []byte
		switch style {
		case 1:
			arg = []byte("prefix")
		case 2:
			buf := []byte("prefix-and-room-for-a-digest-and-more-than-that-canary!")
			arg = buf[:6]
		case 3:
			arg = make([]byte, 5, 5+32)
			copy(arg, "hello")
		}
		before := append([]byte{}, arg...)
		got := h[k].Sum(arg)
		if len(got) != len(before)+32 || !bytes.Equal(got[:len(before)], before) || !bytes.Equal(got[len(before):], want[:]) {
			t.Failf("h%d.Sum(%s) after %d bytes = %s, want %s%x", k, before, len(msg[k]), hx(got), hx(before), want)
		}
		if !bytes.Equal(arg, before) {
			t.Failf("Sum modified its argument")
		}
		last[k], lastWant[k] = got, append([]byte{}, got...)
		t.Obs(got)
	}
	for _, o := range ops {
		switch o.kind {
		case "W":
			g := newGuard("p", nil, 0)
			if o.n > 0 {
				g = newGuard("p", pat(0, o.n+seq%5)[seq%5:], 3)
			}
			seq++
			p := g.b()
			if o.n == 0 && seq%2 == 0 {
				p = nil
			}
			n, err := h[o.obj].Write(p)
			if n != o.n || err != nil {
				t.Failf("%s returned (%d, %v)", o, n, err)
			}
			g.check(t)
			msg[o.obj] = append(msg[o.obj], p...)
			g.scribble()
		case "S":
			sum(o.obj, o.n)
		case "R":
			h[o.obj].Reset()
			msg[o.obj] = nil
		case "N":
			h[o.obj] = sm3.New()
			msg[o.obj] = nil
		}
		for k := range last {
			if last[k] != nil && !bytes.Equal(last[k], lastWant[k]) {
				t.Failf("a digest returned earlier changed after %s", o)
			}
		}
	}
	for k := range h {
		sum(k, 0)
		sum(k, 0)
	}
	t.Ops(len(ops) + 2*objs)
}

func hopSpace(name, doc string, alphabet []hop, depth, objs int, pre []hop) eng.Space {
	// a case fixes all operations but the last two, which are looped inside
	inner := 2
	if depth < 2 {
		inner = depth
	}
	n := pow(len(alphabet), depth-inner)
	return eng.Space{Name: name, N: n, Doc: doc, Run: func(t *eng.T, i int) {
		ops := append([]hop{}, pre...)
		x := i
		for k := 0; k < depth-inner; k++ {
			ops = append(ops, alphabet[x%len(alphabet)])
			x /= len(alphabet)
		}
		m := pow(len(alphabet), inner)
		base := len(ops)
		for j := 0; j < m; j++ {
			ops = ops[:base]
			y := j
			for k := 0; k < inner; k++ {
				ops = append(ops, alphabet[y%len(alphabet)])
				y /= len(alphabet)
			}
			t.Desc(func() string { return hopsString(ops) })
			runHops(t, ops, objs)
		}
		t.Eval(m - 1)
		t.Trace(m - 1)
	}}
}

// hopLong: histories over writes of one length at a time, so that messages of equal length follow each other.
func hopLong(tier string) eng.Space {
	lens := []int{5, 32, 64, 68, 128, 200, 255, 256, 257, 300, 512, 1000, 1024, 2048, 4096, 8192, 16384, 65535, 65536, 70000, 1 << 17, 1 << 20}
	const depth = 4
	return eng.Space{Name: "histories-equal-lengths", N: len(lens) * 4 * 4, Doc: "for each length: all histories of writes of that length, a one-byte write, sums and resets, each write with other bytes, on one hasher and another one", Run: func(t *eng.T, i int) {
		n := lens[i/16]
		ab := []hop{{"W", 0, n}, {"S", 0, 0}, {"R", 0, 0}, {"W", 0, 1}}
		if n > 70000 && !thorough(tier) && i%4 == 3 {
			return
		}
		inner := depth
		if n >= 4096 {
			inner = depth - 1
		}
		if n > 70000 {
			inner = 2
		}
		for j := 0; j < pow(4, inner-2)*16; j++ {
			ops := []hop{ab[i%4], ab[i/4%4]}
			for k, x := 0, j; k < inner; k++ {
				ops = append(ops, ab[x%4])
				x /= 4
			}
			for objs := 1; objs <= 2; objs++ {
				if objs == 2 {
					if n > 4096 || ops[3].kind != "W" {
						continue
					}
					ops = append([]hop{}, ops...)
					for k := 2; k < len(ops); k++ {
						ops[k].obj = 1
					}
				}
				t.Desc(func() string { return hopsString(ops) })
				runHops(t, ops, objs)
				t.Eval(1)
				t.Trace(1)
			}
		}
	}}
}

func c02(tier string) []eng.Space {
	one := []hop{{"S", 0, 0}, {"R", 0, 0}, {"W", 0, 0}, {"W", 0, 1}, {"W", 0, 3}, {"W", 0, 55}, {"W", 0, 64}, {"S", 0, 2}, {"W", 0, 119}}
	two := []hop{{"S", 0, 0}, {"S", 1, 0}, {"W", 0, 1}, {"W", 1, 2}, {"W", 0, 64}, {"W", 1, 61}, {"R", 0, 0}, {"R", 1, 0}, {"N", 1, 0}}
	full := []hop{}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 55, 56, 57, 59, 60, 61, 63, 64, 65, 119, 120, 121, 127, 128, 129, 191, 192, 200, 256, 1000} {
		full = append(full, hop{"W", 0, n})
	}
	for n := 0; n < 4; n++ {
		full = append(full, hop{"S", 0, n})
	}
	full = append(full, hop{"R", 0, 0}, hop{"N", 0, 0})
	s := []eng.Space{
		{Name: "advertised-sizes", N: 1, Doc: "Size and BlockSize in several states", Run: func(t *eng.T, i int) {
			t.Descf("Size and BlockSize, fresh, after a write, a sum and a reset")
			h := sm3.New()
			for k := 0; k < 4; k++ {
				if h.Size() != 32 || h.BlockSize() != 64 {
					t.Failf("Size %d, BlockSize %d in state %d", h.Size(), h.BlockSize(), k)
				}
				switch k {
				case 0:
					h.Write([]byte("xyz"))
				case 1:
					h.Sum(nil)
				case 2:
					h.Reset()
				}
			}
			t.Ops(8)
		}},
		hopSpace("histories-one", "all call histories of one hasher", one, pick(tier, 6, 7), 1, nil),
		hopSpace("histories-two", "all interleaved call histories of two hashers", two, pick(tier, 5, 7), 2, nil),
		hopSpace("histories-wide", "all histories over all boundary write lengths", full, pick(tier, 3, 4), 1, nil),
		hopLong(tier),
		{Name: "write-sum-everywhere", N: 300, Doc: "one byte at a time, summing after each byte, for every starting write length", Run: func(t *eng.T, i int) {
			t.Descf("Write(%d) then 150 single-byte writes, Sum after each; digest unaffected", i)
			h := sm3.New()
			m := pat(3, i)
			h.Write(m)
			for k := 0; k < 150; k++ {
				want := ref.SM3(m)
				wantBytes(t, fmt.Sprintf("Sum after %d bytes", len(m)), h.Sum(nil), want[:])
				h.Write([]byte{byte(k)})
				m = append(m, byte(k))
			}
			t.Ops(300)
		}},
		{Name: "hmac", N: 300, Doc: "HMAC-SM3 for every key length below N and boundary message lengths, with reuse after Reset", Run: func(t *eng.T, i int) {
			key := pat(3, i)
			t.Descf("HMAC with a %d-byte key", i)
			m := hmac.New(sm3.New, key)
			for _, l := range []int{0, 1, 31, 55, 56, 63, 64, 65, 119, 128, 300} {
				msg := pat(0, l)
				want := ref.HMAC(key, msg)
				m.Reset()
				m.Write(msg[:l/2])
				m.Write(msg[l/2:])
				wantBytes(t, fmt.Sprintf("HMAC of %d bytes", l), m.Sum(nil), want[:])
				wantBytes(t, fmt.Sprintf("HMAC of %d bytes, second Sum", l), m.Sum(nil), want[:])
				t.Ops(5)
				t.Obs(want[:])
			}
		}},
		{Name: "sum-append", N: 100, Doc: "Sum onto every prefix length below N with every spare capacity below 140: the prefix and everything behind the digest stay", Run: func(t *eng.T, i int) {
			t.Descf("Sum onto a slice of %d bytes with 0..139 bytes of spare capacity", i)
			h := sm3.New()
			h.Write(pat(0, i))
			want := ref.SM3(pat(0, i))
			for spare := 0; spare < 140; spare++ {
				buf := pat(3, i+spare+16)
				keep := append([]byte{}, buf...)
				got := h.Sum(buf[: i : i+spare])
				if len(got) != i+32 || !bytes.Equal(got[:i], keep[:i]) || !bytes.Equal(got[i:], want[:]) {
					t.Failf("spare capacity %d: Sum gave %s", spare, hx(got))
				}
				if spare >= 32 {
					copy(keep[i:], buf[i:i+32]) // append may use the spare capacity for its result
				}
				if !bytes.Equal(buf, keep) {
					t.Failf("spare capacity %d: memory besides the appended digest changed", spare)
				}
				t.Ops(1)
			}
		}},
		{Name: "many-hashers", N: 64, Doc: "a pool of hashers used round robin with different lengths", Run: func(t *eng.T, i int) {
			t.Descf("17 hashers written round robin, step %d", i+1)
			var hs []hash.Hash
			var ms [][]byte
			for k := 0; k < 17; k++ {
				hs = append(hs, sm3.New())
				ms = append(ms, nil)
			}
			for k := 0; k < 200; k++ {
				j := k * (i + 1) % 17
				p := pat(0, (k*(i+3))%130)
				hs[j].Write(p)
				ms[j] = append(ms[j], p...)
				if k%9 == 0 {
					q := (j + 5) % 17
					want := ref.SM3(ms[q])
					wantBytes(t, "Sum", hs[q].Sum(nil), want[:])
				}
				d := sm3.Sum(p)
				if d != ref.SM3(p) {
					t.Failf("one-shot Sum while hashers are in use")
				}
			}
			for k := range hs {
				want := ref.SM3(ms[k])
				wantBytes(t, "final Sum", hs[k].Sum(nil), want[:])
			}
			t.Ops(600)
		}},
	}
	return s
}
