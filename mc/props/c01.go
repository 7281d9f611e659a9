package props

import (
	"bytes"
	"encoding/hex"
	"syscall"
	"time"

	"github.com/ZZMarquis/gm/sm3"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C01", Init: selfTest, Spaces: c01, MemLimitMB: 12000,
		Assumptions: []string{"message contents are drawn from fixed patterns plus all single-byte variations of a block; all lengths and splittings within the bounds are covered"}})
}

func sm3check(t *eng.T, msg []byte, what string) {
	want := ref.SM3(msg)
	g := newGuard("data", msg, 0)
	got := sm3.Sum(g.b())
	g.check(t)
	t.Ops(1)
	if got != want {
		t.Failf("%s: sm3.Sum of %s = %x, want %x", what, hx(msg), got, want)
	}
	t.Obs(got[:])
}

// sm3pieces hashes the message in the given pieces.
func sm3pieces(t *eng.T, msg []byte, cuts []int) {
	want := ref.SM3(msg)
	sm3piecesW(t, msg, cuts, want)
}

func sm3piecesW(t *eng.T, msg []byte, cuts []int, want [32]byte) {
	h := sm3.New()
	prev := 0
	w := func(p []byte) {
		n, err := h.Write(p)
		if n != len(p) || err != nil {
			t.Failf("Write of %d bytes = (%d, %v)", len(p), n, err)
		}
	}
	for _, c := range cuts {
		w(msg[prev:c])
		prev = c
	}
	w(msg[prev:])
	got := h.Sum(nil)
	t.Ops(len(cuts) + 2)
	if !bytes.Equal(got, want[:]) {
		t.Failf("pieces cut at %v of %d bytes: got %x, want %x", cuts, len(msg), got, want)
	}
}

// answers of the reference model for 1 MiB-aligned zero messages, recomputed in the thorough tier
var zeroAnswers = map[int64]string{
	1<<31 + 69: "cd28fae60a2e0a86c7ae69c07e8e3eb82656ffd5753e9335be3e1ad8e022c449",
	1<<32 + 69: "9345100617eccc327287307786ac894f1a0921b82079d04fb1b99c1bc2ea06d8",
}

func zeroMem(n int64) ([]byte, error) {
	return syscall.Mmap(-1, 0, int(n), syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
}

func c01(tier string) []eng.Space {
	maxLen := pick(tier, 6000, 40000)
	pats := 4
	l2 := pick(tier, 330, 1100)
	l3 := pick(tier, 140, 270)
	comp := pick(tier, 9, 12)
	uni := pick(tier, 400, 1500)
	pows := pick(tier, 22, 26)
	s := []eng.Space{
		{Name: "lengths", N: maxLen + 1, Doc: "every message length 0..N in four contents, by Sum and by one Write", Run: func(t *eng.T, i int) {
			t.Descf("message length %d", i)
			for p := 0; p < pats; p++ {
				m := pat(p, i)
				sm3check(t, m, "one call")
				sm3pieces(t, m, nil)
			}
		}},
		{Name: "two-splits", N: l2, Doc: "every length below N cut at every position into two pieces", Run: func(t *eng.T, i int) {
			t.Descf("length %d, all two-piece splits", i)
			m := pat(0, i)
			w := ref.SM3(m)
			for a := 0; a <= i; a++ {
				sm3piecesW(t, m, []int{a}, w)
			}
			t.Trace(i)
		}},
		{Name: "three-splits", N: l3, Doc: "every length below N cut at every pair of positions into three pieces (empty ones included)", Run: func(t *eng.T, i int) {
			t.Descf("length %d, all three-piece splits", i)
			m := pat(3, i)
			w := ref.SM3(m)
			for a := 0; a <= i; a++ {
				for b := a; b <= i; b++ {
					sm3piecesW(t, m, []int{a, b}, w)
				}
			}
			t.Trace(i * i / 2)
		}},
		{Name: "compositions", N: 130, Doc: "after a first piece of every length 0..129, all compositions of the remaining bytes", Run: func(t *eng.T, i int) {
			t.Descf("prefix %d bytes, then all compositions of %d bytes", i, comp)
			m := pat(0, i+comp)
			w := ref.SM3(m)
			for mask := 0; mask < 1<<uint(comp-1); mask++ {
				cuts := []int{i}
				for b := 0; b < comp-1; b++ {
					if mask>>uint(b)&1 == 1 {
						cuts = append(cuts, i+b+1)
					}
				}
				sm3piecesW(t, m, cuts, w)
			}
			t.Trace(1 << uint(comp-1))
		}},
		{Name: "uniform-chunks", N: uni, Doc: "every length below N written in equal chunks of every size 1..200", Run: func(t *eng.T, i int) {
			t.Descf("length %d in chunks of every size 1..200", i)
			m := pat(3, i)
			w := ref.SM3(m)
			for c := 1; c <= 200; c++ {
				var cuts []int
				for k := c; k < i; k += c {
					cuts = append(cuts, k)
				}
				sm3piecesW(t, m, cuts, w)
			}
			t.Trace(200)
		}},
		{Name: "byte-values", N: 128 * 256, Doc: "every value of every byte of a two-block message", Run: func(t *eng.T, i int) {
			pos, val := i/256, i%256
			t.Descf("128-byte message with byte %d = %02x", pos, val)
			m := pat(0, 128)
			m[pos] = byte(val)
			sm3check(t, m, "byte value")
			sm3check(t, m[:pos+1], "byte value at the end")
			for a := 0; a < 3; a++ {
				b := pat(1+a, 64)
				b[pos%64] = byte(val)
				sm3check(t, b, "byte value in uniform block")
			}
		}},
		{Name: "bit-pairs", N: 512, Doc: "every pair of set bits in a one-block message", Run: func(t *eng.T, i int) {
			t.Descf("one block with bit %d and every other bit set", i)
			for j := i; j < 512; j++ {
				m := make([]byte, 55+9)
				m[i/8] |= 1 << uint(i%8)
				m[j/8] |= 1 << uint(j%8)
				sm3check(t, m, "bit pair")
			}
			t.Trace(511 - i)
		}},
		{Name: "power-lengths", N: (pows - 9) * 5, Doc: "lengths 2^k-2..2^k+2", Run: func(t *eng.T, i int) {
			n := 1<<uint(10+i/5) - 2 + i%5
			t.Descf("message of %d bytes", n)
			m := pat(3, n)
			sm3check(t, m, "one call")
			for _, cuts := range [][]int{nil, {1}, {n - 1}, {n / 2}, {63, n - 65}} {
				sm3pieces(t, m, cuts)
			}
		}},
		{Name: "stream-over-2^29", N: 1, Timeout: 6 * time.Minute, Doc: "a stream crossing 2^32 bits, summed around the boundary", Run: func(t *eng.T, i int) {
			t.Descf("stream of 2^29+130 bytes, digest taken at 2^29-65..2^29+130")
			h := sm3.New()
			r := ref.NewSM3()
			blk := pat(3, 1<<20)
			for k := 0; k < 511; k++ {
				h.Write(blk)
				r.Write(blk)
				t.Ops(1)
			}
			h.Write(blk[:len(blk)-66])
			r.Write(blk[:len(blk)-66])
			for k := 0; k < 196; k++ {
				h.Write(blk[k : k+1])
				r.Write(blk[k : k+1])
				want := r.Sum()
				got := h.Sum(nil)
				t.Ops(2)
				if !bytes.Equal(got, want[:]) {
					t.Failf("digest after 2^29 plus %d bytes: got %x, want %x", k-65, got, want)
				}
				t.Trace(1)
			}
		}},
	}
	huge := func(name string, n int64, oneCall bool) eng.Space {
		return eng.Space{Name: name, N: 1, Timeout: 10 * time.Minute, Doc: "a single write longer than the largest 32-bit integer", Run: func(t *eng.T, i int) {
			t.Descf("zero message of %d bytes, one call: %v", n, oneCall)
			m, err := zeroMem(n)
			if err != nil {
				t.Note("huge message could not be mapped", 1)
				return
			}
			defer syscall.Munmap(m)
			var got []byte
			if oneCall {
				d := sm3.Sum(m)
				got = d[:]
			} else {
				h := sm3.New()
				h.Write(m[:1])
				if k, err := h.Write(m[1:]); int64(k) != n-1 || err != nil {
					t.Failf("Write of %d bytes = (%d, %v)", n-1, k, err)
				}
				got = h.Sum(nil)
			}
			t.Ops(2)
			want := zeroAnswers[n]
			if thorough(t.Tier) {
				r := ref.NewSM3()
				for k := int64(0); k < n; k += 1 << 24 {
					e := k + 1<<24
					if e > n {
						e = n
					}
					r.Write(m[k:e])
					t.Ops(0)
				}
				d := r.Sum()
				want = hex.EncodeToString(d[:])
			}
			if hex.EncodeToString(got) != want {
				t.Failf("digest of %d zero bytes (one call: %v) = %x, want %s", n, oneCall, got, want)
			}
		}}
	}
	s = append(s, huge("write-over-2GiB", 1<<31+69, false), huge("sum-over-2GiB", 1<<31+69, true))
	if thorough(tier) {
		s = append(s, huge("write-over-4GiB", 1<<32+69, false), huge("sum-over-4GiB", 1<<32+69, true))
	}
	return s
}
