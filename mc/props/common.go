// Package props holds, per property, the case spaces that are enumerated.
package props

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func thorough(tier string) bool { return tier == "thorough" }

func pick(tier string, quick, deep int) int {
	if thorough(tier) {
		return deep
	}
	return quick
}

// pat fills n bytes with one of a few fixed patterns.
func pat(kind, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case 0: // counting
		for i := range b {
			b[i] = byte(i*7 + 1 + i>>8)
		}
	case 1:
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3: // well mixed
		x := uint64(n)*0x9E3779B97F4A7C15 + 12345
		for i := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x >> 32)
		}
	case 4:
		for i := range b {
			b[i] = 0x80
		}
	}
	return b
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 80 {
		return fmt.Sprintf("%s..%s(%d bytes)", hex.EncodeToString(b[:32]), hex.EncodeToString(b[len(b)-16:]), len(b))
	}
	return "x" + hex.EncodeToString(b)
}

// guard hands out a copy of a slice that lies in the middle of a larger buffer, and
// notices later whether anything in that buffer changed.
type guard struct {
	name string
	buf  []byte
	want []byte
	lo   int
	n    int
	cap_ int
}

func newGuard(name string, b []byte, spare int) *guard {
	g := &guard{name: name, lo: 8, n: len(b), cap_: len(b) + spare}
	g.buf = make([]byte, 8+len(b)+spare+8)
	for i := range g.buf {
		g.buf[i] = byte(0xA5 ^ i)
	}
	copy(g.buf[8:], b)
	g.want = append([]byte{}, g.buf...)
	return g
}

func (g *guard) b() []byte { return g.buf[g.lo : g.lo+g.n : g.lo+g.cap_] }

func (g *guard) check(t *eng.T) {
	if !bytes.Equal(g.buf, g.want) {
		for i := range g.buf {
			if g.buf[i] != g.want[i] {
				where := "inside the argument"
				if i < g.lo {
					where = "before the argument"
				} else if i >= g.lo+g.n {
					where = "behind the argument"
				}
				t.Failf("memory of argument %s was modified (%s, offset %d: %02x -> %02x)", g.name, where, i-g.lo, g.want[i], g.buf[i])
			}
		}
	}
}

// scribble overwrites the whole buffer, to expose anybody who kept a reference.
func (g *guard) scribble() {
	for i := range g.buf {
		g.buf[i] ^= 0x5A
	}
	copy(g.want, g.buf)
}

func wantBytes(t *eng.T, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		t.Failf("%s: got %s, want %s", what, hx(got), hx(want))
	}
}

func selfTest() { ref.SelfTest() }

// mix decomposes an index into digits of the given radices (first radix varies slowest).
func mix(i int, radix ...int) []int {
	d := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		d[k] = i % radix[k]
		i /= radix[k]
	}
	return d
}

func prod(radix ...int) int {
	n := 1
	for _, r := range radix {
		n *= r
	}
	return n
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}
