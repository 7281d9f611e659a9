package props

import (
	"bytes"
	stdasn1 "encoding/asn1"
	"errors"
	"fmt"
	"time"

	cb "github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C25", Init: selfTest, Spaces: c25, MemLimitMB: 6144,
		Assumptions: []string{
			"programs: all trees of up to three operations (four thorough) over the full alphabet and four (five) over a reduced one; contents around every prefix boundary up to 2^24 (a 32-bit prefix cannot overflow here)",
			"a build error wraps a non-nil error; a continuation whose builder has failed already may or may not be run"}})
}

type bkind int

const (
	bU8 bkind = iota
	bU16
	bU24
	bU32
	bB0
	bB1
	bB3
	bB130
	bB256
	bBool
	bNull
	bOID
	bValue
	bValueNest
	bBadOID
	bBadTime
	bBadTag
	bBadMarshal
	bValueErr
	bValueWriteErr
	bBuildErr
	bPanic
	bParent
	bRoot
	bNest // containers from here
	bL8   = iota - 1
	bL16  = iota - 1
	bL24  = iota - 1
	bL32  = iota - 1
	bA30  = iota - 1
	bAA0  = iota - 1
	bKinds
)

var bNames = [...]string{"U8", "U16", "U24", "U32", "B0", "B1", "B3", "B130", "B256", "Bool", "NULL", "OID", "Value", "ValueNest", "BadOID", "BadTime", "BadTag", "BadMarshal", "ValueErr", "ValueWriteErr", "BuildErr", "Panic", "WriteParent", "WriteRoot", "L8", "L16", "L24", "L32", "A30", "AA0"}

type bnode struct {
	k    bkind
	kids []*bnode
}

func bString(f []*bnode) string {
	s := ""
	for i, n := range f {
		if i > 0 {
			s += " "
		}
		s += bNames[n.k]
		if n.k >= bL8 {
			s += "(" + bString(n.kids) + ")"
		}
	}
	return s
}

var (
	bErr1   = errors.New("value failed")
	bErr2   = errors.New("build error")
	bPanicV = "some other panic"
	bData   = pat(0, 256)
)

type bval struct {
	out  []byte
	nest bool
	err  error
}

// feed adds bytes from a buffer that is overwritten straight afterwards.
func feed(b *cb.Builder, v []byte) {
	buf := append([]byte{}, v...)
	b.AddBytes(buf)
	for i := range buf {
		buf[i] ^= 0xff
	}
}

func (v bval) Marshal(b *cb.Builder) error {
	feed(b, v.out)
	if v.nest {
		b.AddUint8LengthPrefixed(func(c *cb.Builder) { c.AddUint16(0x0102) })
	}
	return v.err
}

// bRun executes the program on the real builder.
func bRun(f []*bnode, b, parent, root *cb.Builder) {
	for _, n := range f {
		n := n
		in := func(c *cb.Builder) { bRun(n.kids, c, b, root) }
		switch n.k {
		case bU8:
			b.AddUint8(0x11)
		case bU16:
			b.AddUint16(0x2122)
		case bU24:
			b.AddUint24(0xff313233)
		case bU32:
			b.AddUint32(0x41424344)
		case bB0:
			b.AddBytes(nil)
		case bB1:
			feed(b, bData[:1])
		case bB3:
			feed(b, bData[:3])
		case bB130:
			feed(b, bData[:130])
		case bB256:
			feed(b, bData[:256])
		case bBool:
			b.AddASN1Boolean(true)
		case bNull:
			b.AddASN1NULL()
		case bOID:
			id := stdasn1.ObjectIdentifier{2, 5, 4, 3}
			b.AddASN1ObjectIdentifier(id)
			id[0], id[3] = 1, 9
		case bValue:
			b.AddValue(bval{out: []byte{0x51, 0x52}})
		case bValueNest:
			b.AddValue(bval{out: []byte{0x53}, nest: true})
		case bBadOID:
			b.AddASN1ObjectIdentifier(stdasn1.ObjectIdentifier{3, 1})
		case bBadTime:
			b.AddASN1GeneralizedTime(time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC))
		case bBadTag:
			b.AddASN1(0x3f, func(c *cb.Builder) { c.AddUint8(1) })
		case bBadMarshal:
			b.MarshalASN1(stdasn1.ObjectIdentifier{7})
		case bValueErr:
			b.AddValue(bval{err: bErr1})
		case bValueWriteErr:
			b.AddValue(bval{out: []byte{0x61}, err: bErr1})
		case bBuildErr:
			panic(cb.BuildError{Err: bErr2})
		case bPanic:
			panic(bPanicV)
		case bParent:
			parent.AddUint8(0x71)
		case bRoot:
			root.AddBytes(nil)
		case bL8:
			b.AddUint8LengthPrefixed(in)
		case bL16:
			b.AddUint16LengthPrefixed(in)
		case bL24:
			b.AddUint24LengthPrefixed(in)
		case bL32:
			b.AddUint32LengthPrefixed(in)
		case bA30:
			b.AddASN1(cbasn1.SEQUENCE, in)
		case bAA0:
			b.AddASN1(0xa0, in)
		}
	}
}

// outcome of the model
const (
	oOK = iota
	oErr
	oPanic      // some panic other than a build error comes out
	oErrOrPanic // a continuation behind an error would panic if it were run
	oBuild      // internal: a build error on its way up
)

type bres struct {
	o      int
	out    []byte
	errs   int  // number of independent reasons for an error
	panics bool // a panicking operation occurs anywhere
}

func bHas(f []*bnode) bool {
	for _, n := range f {
		if n.k == bPanic || n.k == bParent || n.k == bRoot || bHas(n.kids) {
			return true
		}
	}
	return false
}

// bModel: content of a list of operations.
func bModel(f []*bnode, root bool) (out []byte, o int) {
	failed, maybePanic := false, false
	for _, n := range f {
		if n.k >= bL8 {
			if failed {
				if bHas(n.kids) {
					maybePanic = true
				}
				continue
			}
			c, co := bModel(n.kids, false)
			switch co {
			case oPanic:
				return nil, oPanic
			case oBuild:
				if !root {
					return nil, oBuild
				}
				failed = true
				continue
			case oErr:
				failed = true
				continue
			case oErrOrPanic:
				failed, maybePanic = true, true
				continue
			}
			w := 0
			switch n.k {
			case bL8:
				w = 1
			case bL16:
				w = 2
			case bL24:
				w = 3
			case bL32:
				w = 4
			case bA30:
				out = append(out, ref.TLV(0x30, c)...)
			case bAA0:
				out = append(out, ref.TLV(0xa0, c)...)
			}
			if w > 0 {
				if len(c)>>(8*uint(w)) != 0 {
					failed = true
					continue
				}
				for q := w - 1; q >= 0; q-- {
					out = append(out, byte(len(c)>>(8*uint(q))))
				}
				out = append(out, c...)
			}
			continue
		}
		switch n.k {
		case bU8:
			out = append(out, 0x11)
		case bU16:
			out = append(out, 0x21, 0x22)
		case bU24:
			out = append(out, 0x31, 0x32, 0x33)
		case bU32:
			out = append(out, 0x41, 0x42, 0x43, 0x44)
		case bB1:
			out = append(out, bData[:1]...)
		case bB3:
			out = append(out, bData[:3]...)
		case bB130:
			out = append(out, bData[:130]...)
		case bB256:
			out = append(out, bData[:256]...)
		case bBool:
			out = append(out, 1, 1, 0xff)
		case bNull:
			out = append(out, 5, 0)
		case bOID:
			out = append(out, 6, 3, 0x55, 4, 3)
		case bValue:
			out = append(out, 0x51, 0x52)
		case bValueNest:
			out = append(out, 0x53, 2, 1, 2)
		case bBadOID, bBadTime, bBadTag, bBadMarshal, bValueErr, bValueWriteErr:
			failed = true
		case bBuildErr:
			if maybePanic {
				return nil, oErrOrPanic
			}
			return nil, oBuild
		case bPanic, bParent, bRoot:
			return nil, oPanic
		}
	}
	if failed {
		if maybePanic {
			return nil, oErrOrPanic
		}
		return nil, oErr
	}
	return out, oOK
}

// forests enumerates all programs of n operations over the alphabets.
func forests(n int, leaves, conts []bkind, inner bool, f func([]*bnode)) {
	if n == 0 {
		f(nil)
		return
	}
	for k := 1; k <= n; k++ { // size of the first tree
		trees(k, leaves, conts, inner, func(tr *bnode) {
			forests(n-k, leaves, conts, inner, func(rest []*bnode) { f(append([]*bnode{tr}, rest...)) })
		})
	}
}

func trees(k int, leaves, conts []bkind, inner bool, f func(*bnode)) {
	if k == 1 {
		for _, l := range leaves {
			if !inner && (l == bBuildErr || l == bPanic || l == bParent || l == bRoot) {
				continue
			}
			f(&bnode{k: l})
		}
	}
	forests(k-1, leaves, conts, true, func(kids []*bnode) {
		for _, c := range conts {
			f(&bnode{k: c, kids: kids})
		}
	})
}

// bTry runs the program in one setting: growing with some initial content and spare room, or fixed.
func bTry(t *eng.T, f []*bnode, want []byte, o int, fixed bool, init, capacity int, zero bool) {
	const lo, hi = 16, 16
	mem := make([]byte, lo+capacity+hi)
	for i := range mem {
		mem[i] = byte(0xC3 ^ i*5)
	}
	buf := mem[lo : lo+init : lo+capacity]
	keep := append([]byte{}, mem...)
	var b *cb.Builder
	switch {
	case zero:
		b = new(cb.Builder)
	case fixed:
		b = cb.NewFixedBuilder(buf)
	default:
		b = cb.NewBuilder(buf)
	}
	set := func() string {
		if fixed {
			return fmt.Sprintf("fixed buffer, %d of %d bytes used", init, capacity)
		}
		return fmt.Sprintf("growing, %d of %d bytes used", init, capacity)
	}
	p, _ := eng.Catch(func() { bRun(f, b, nil, b) })
	t.Ops(1)
	if !bytes.Equal(mem[:lo+init], keep[:lo+init]) || !bytes.Equal(mem[lo+capacity:], keep[lo+capacity:]) {
		t.Failf("%s: wrote outside the buffer", set())
	}
	tooSmall := fixed && o == oOK && init+len(want) > capacity
	if p != nil {
		if o != oPanic && o != oErrOrPanic && !(fixed && o != oOK && bHas(f)) { // a full buffer changes which continuations run
			t.Failf("%s: panic %v", set(), p)
		}
		return
	}
	got, err := b.Bytes()
	if o == oPanic {
		// with a fixed buffer an earlier error may keep the panicking continuation from running
		if !(fixed && err != nil) {
			t.Failf("%s: no panic (result %s, %v)", set(), hx(got), err)
		}
	}
	if o == oOK && !tooSmall {
		if err != nil {
			t.Failf("%s: error %v", set(), err)
		}
		full := append(append([]byte{}, keep[lo:lo+init]...), want...)
		if zero {
			full = want
		}
		if !bytes.Equal(got, full) {
			t.Failf("%s: got %s, want %s", set(), hx(got), hx(full))
		}
		if fixed && len(got) > 0 && &got[0] != &mem[lo] {
			t.Failf("%s: the result is not in the given buffer", set())
		}
		if !bytes.Equal(b.BytesOrPanic(), full) {
			t.Failf("%s: BytesOrPanic differs", set())
		}
		b.AddUint8(0xEE)
		g2, err := b.Bytes()
		if fixed && init+len(want)+1 > capacity {
			t.Check(err != nil && g2 == nil, "%s: one byte more gives %s, %v", set(), hx(g2), err)
		} else if err != nil || !bytes.Equal(g2, append(full, 0xEE)) || !bytes.Equal(got, full[:len(got)]) {
			t.Failf("%s: after one byte more: %s, %v", set(), hx(g2), err)
		}
		if !bytes.Equal(mem[:lo+init], keep[:lo+init]) || !bytes.Equal(mem[lo+capacity:], keep[lo+capacity:]) {
			t.Failf("%s: wrote outside the buffer", set())
		}
		t.Obs(full)
		return
	}
	// an error is due, and it stays
	if err == nil || got != nil {
		t.Failf("%s: no error but %s", set(), hx(got))
	}
	pv, _ := eng.Catch(func() { b.BytesOrPanic() })
	if pv == nil {
		t.Failf("%s: BytesOrPanic does not panic although there is the error %v", set(), err)
	}
	b.AddUint8(1)
	b.AddUint16LengthPrefixed(func(c *cb.Builder) { c.AddUint8(1) })
	b.AddASN1(cbasn1.SEQUENCE, func(c *cb.Builder) {})
	b.AddASN1Int64(5)
	b.AddASN1NULL()
	b.MarshalASN1(5)
	b.AddValue(bval{out: []byte{1}})
	got2, err2 := b.Bytes()
	if err2 == nil || got2 != nil {
		t.Failf("%s: the error %v was lost", set(), err)
	}
	if !bytes.Equal(mem[:lo+init], keep[:lo+init]) || !bytes.Equal(mem[lo+capacity:], keep[lo+capacity:]) {
		t.Failf("%s: wrote outside the buffer", set())
	}
	t.Obs(set(), err.Error())
}

// bErrs lists the error values the program may end with, nil for "some error".
func bErrOf(f []*bnode, n map[bkind]int) {
	for _, x := range f {
		n[x.k]++
		bErrOf(x.kids, n)
	}
}

func bProgram(t *eng.T, f []*bnode, caps func(n int) []int) {
	t.Desc(func() string { return "builder program: " + bString(f) })
	want, o := bModel(f, true)
	if o == oBuild {
		panic("build error at top level")
	}
	bTry(t, f, want, o, false, 0, 0, true)
	bTry(t, f, want, o, false, 2, 2, false)
	bTry(t, f, want, o, false, 3, 40, false)
	for _, c := range caps(len(want)) {
		bTry(t, f, want, o, true, 0, c, false)
		bTry(t, f, want, o, true, 2, c+2, false)
	}
	if !bytes.Equal(bData, pat(0, 256)) {
		t.Failf("a data argument was modified")
	}
	// which error
	if o == oErr {
		n := map[bkind]int{}
		bErrOf(f, n)
		bad := n[bBadOID] + n[bBadTime] + n[bBadTag] + n[bBadMarshal] + n[bValueErr] + n[bValueWriteErr] + n[bBuildErr]
		if bad == 1 && n[bB256] == 0 && n[bB130] < 2 {
			var b cb.Builder
			bRun(f, &b, nil, &b)
			_, err := b.Bytes()
			if n[bBuildErr] == 1 && err != bErr2 {
				t.Failf("the error is %v, not that of the build error", err)
			}
			if n[bValueErr]+n[bValueWriteErr] == 1 && err != bErr1 {
				t.Failf("the error is %v, not that of the value", err)
			}
			pv, _ := eng.Catch(func() { b.BytesOrPanic() })
			if pv != interface{}(err) {
				t.Failf("BytesOrPanic panics with %v, the error is %v", pv, err)
			}
		}
	}
}

func capsFor(n int) []int {
	var l []int
	for c := 0; c <= n+1; c++ {
		if n <= 20 || c <= 4 || c >= n-6 || c >= 127 && c <= 131 {
			l = append(l, c)
		}
	}
	return l
}

// bLength builds one prefixed string of n bytes and compares.
func bLength(t *eng.T, kind bkind, n int) {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*11 + 3)
	}
	t.Descf("%s with %d bytes of content", bNames[kind], n)
	var pre []byte
	ok := true
	switch kind {
	case bL8, bL16, bL24, bL32:
		w := int(kind-bL8) + 1
		for q := w - 1; q >= 0; q-- {
			pre = append(pre, byte(n>>(8*uint(q))))
		}
		ok = n>>(8*uint(w)) == 0
	case bA30:
		pre = append([]byte{0x30}, ref.DERLen(n)...)
	}
	styles := 3
	if n > 70000 {
		styles = 2
	}
	for style := 0; style < styles; style++ {
		write := func(c *cb.Builder) {
			switch style {
			case 0:
				c.AddBytes(data)
			case 1:
				c.AddBytes(data[:n/2])
				c.AddBytes(data[n/2:])
			case 2:
				for _, b := range data {
					c.AddUint8(b)
				}
			}
		}
		total := 1 + len(pre) + n + 2
		for _, c := range []int{-1, total - 1, total, total + 1, total - 2, total - 3, 2 + n, 1 + n} {
			if c < -1 || n > 70000 && c > total {
				continue
			}
			var b *cb.Builder
			if c < 0 {
				b = new(cb.Builder)
			} else {
				b = cb.NewFixedBuilder(make([]byte, 0, c))
			}
			b.AddUint8(0xB0)
			switch kind {
			case bL8:
				b.AddUint8LengthPrefixed(write)
			case bL16:
				b.AddUint16LengthPrefixed(write)
			case bL24:
				b.AddUint24LengthPrefixed(write)
			case bL32:
				b.AddUint32LengthPrefixed(write)
			case bA30:
				b.AddASN1(cbasn1.SEQUENCE, write)
			}
			b.AddUint16(0xB1B2)
			got, err := b.Bytes()
			t.Ops(3)
			good := ok && (c < 0 || c >= total)
			if good != (err == nil) {
				t.Failf("capacity %d (needed %d): error %v", c, total, err)
			}
			if !good {
				t.Check(got == nil, "bytes with an error")
				continue
			}
			if len(got) != total || got[0] != 0xB0 || !bytes.Equal(got[1:1+len(pre)], pre) || !bytes.Equal(got[1+len(pre):total-2], data) || got[total-2] != 0xB1 || got[total-1] != 0xB2 {
				t.Failf("capacity %d: the result is wrong: %d bytes %s, want prefix %s and %d bytes", c, len(got), hx(got), hx(pre), n)
			}
		}
	}
	t.Obs(pre, ok)
}

func c25(tier string) []eng.Space {
	var leaves, conts []bkind
	for k := bU8; k < bL8; k++ {
		leaves = append(leaves, k)
	}
	for k := bkind(bL8); k <= bAA0; k++ {
		conts = append(conts, k)
	}
	small := []bkind{bU8, bB130, bBadOID, bValueErr, bBuildErr, bPanic, bParent, bValueNest}
	smallC := []bkind{bL8, bA30}
	var lens [][2]int
	for n := 0; n <= 300; n++ {
		for _, k := range []bkind{bL8, bL16, bL24, bL32, bA30} {
			lens = append(lens, [2]int{int(k), n})
		}
	}
	for n := 1<<16 - 4; n <= 1<<16+4; n++ {
		for _, k := range []bkind{bL8, bL16, bL24, bL32, bA30} {
			lens = append(lens, [2]int{int(k), n})
		}
	}
	for n := 1<<24 - 2; n <= 1<<24+1; n++ {
		for _, k := range []bkind{bL16, bL24, bL32, bA30} {
			lens = append(lens, [2]int{int(k), n})
		}
	}
	const chunks = 256
	progs := func(n int, lv, ct []bkind) func(t *eng.T, i int) {
		return func(t *eng.T, i int) {
			cnt := 0
			forests(n, lv, ct, false, func(f []*bnode) {
				if cnt%chunks == i {
					bProgram(t, f, capsFor)
					t.Eval(1)
				}
				cnt++
			})
			t.Note("programs", (cnt-i+chunks-1)/chunks)
		}
	}
	full, red := pick(tier, 3, 4), pick(tier, 4, 5)
	var sp []eng.Space
	for n := 0; n <= full; n++ {
		sp = append(sp, eng.Space{Name: fmt.Sprintf("programs-%d", n), N: chunks, Doc: fmt.Sprintf("all programs of %d operations over %d leaf operations and %d containers, growing with and without spare room, and fixed buffers of all sizes around the need", n, len(leaves), len(conts)), Run: progs(n, leaves, conts)})
	}
	sp = append(sp,
		eng.Space{Name: fmt.Sprintf("reduced-%d", red), N: chunks, Doc: fmt.Sprintf("all programs of %d operations over a reduced alphabet", red), Run: progs(red, small, smallC)},
		eng.Space{Name: "lengths", N: len(lens), Doc: "one prefixed string with every content length 0..300, around 2^16 and 2^24, for each prefix; growing and fixed around the exact need; three ways of writing the content",
			Run: func(t *eng.T, i int) { bLength(t, bkind(lens[i][0]), lens[i][1]) }},
		eng.Space{Name: "nested-lengths", N: 301 + 12, Doc: "elements nested two to five deep whose contents cross the length boundaries, growing and with every fixed size around the need",
			Run: func(t *eng.T, i int) {
				n := i
				if i > 300 {
					n = 65526 + (i-301)*2
				}
				for depth := 2; depth <= 5; depth++ {
					for kind := 0; kind < 3; kind++ {
						want := pat(0, n)
						for d := 0; d < depth; d++ {
							if kind == 1 && d&1 == 0 {
								want = append([]byte{byte(len(want) >> 16), byte(len(want) >> 8), byte(len(want))}, want...)
							} else {
								want = ref.TLV(0x30, want)
							}
							if kind == 2 {
								want = append(want, 0x77)
							}
						}
						var rec func(b *cb.Builder, d int)
						rec = func(b *cb.Builder, d int) {
							if d == 0 {
								b.AddBytes(pat(0, n))
								return
							}
							in := func(c *cb.Builder) { rec(c, d-1) }
							if kind == 1 && d&1 == 1 {
								b.AddUint24LengthPrefixed(in)
							} else {
								b.AddASN1(cbasn1.SEQUENCE, in)
							}
							if kind == 2 {
								b.AddUint8(0x77)
							}
						}
						t.Descf("content %d, depth %d, kind %d", n, depth, kind)
						for c := -1; c <= 2*depth+1; c++ {
							b := new(cb.Builder)
							size := len(want) - c + 1
							if c >= 0 {
								if size < 0 {
									continue
								}
								b = cb.NewFixedBuilder(make([]byte, 0, size))
							}
							rec(b, depth)
							got, err := b.Bytes()
							t.Ops(1)
							if c < 0 || size >= len(want) {
								t.Check(err == nil, "capacity %d of %d: %v", size, len(want), err)
								wantBytes(t, "nested elements", got, want)
							} else {
								t.Check(err != nil && got == nil, "capacity %d of %d: no error", size, len(want))
							}
						}
					}
				}
			}},
		eng.Space{Name: "deep", N: 120, Doc: "nesting up to 120 levels",
			Run: func(t *eng.T, i int) {
				t.Descf("depth %d", i)
				want := []byte{0x42}
				var rec func(b *cb.Builder, d int)
				rec = func(b *cb.Builder, d int) {
					if d == 0 {
						b.AddUint8(0x42)
						return
					}
					in := func(c *cb.Builder) { rec(c, d-1) }
					switch d % 3 {
					case 0:
						b.AddASN1(0xa3, in)
					case 1:
						b.AddUint16LengthPrefixed(in)
					case 2:
						b.AddASN1(cbasn1.SET, in)
					}
				}
				for d := 1; d <= i; d++ {
					switch d % 3 {
					case 0:
						want = ref.TLV(0xa3, want)
					case 1:
						want = append([]byte{byte(len(want) >> 8), byte(len(want))}, want...)
					case 2:
						want = ref.TLV(0x31, want)
					}
				}
				var b cb.Builder
				rec(&b, i)
				got, err := b.Bytes()
				t.Ops(i)
				t.Check(err == nil, "%v", err)
				wantBytes(t, "deep nesting", got, want)
			}},
		eng.Space{Name: "tags", N: 256, Doc: "every identifier octet",
			Run: func(t *eng.T, i int) {
				t.Descf("tag %02x", i)
				ran := false
				var b cb.Builder
				b.AddUint8(1)
				b.AddASN1(cbasn1.Tag(i), func(c *cb.Builder) { ran = true; c.AddUint16(0x0102) })
				got, err := b.Bytes()
				t.Ops(2)
				if i&31 == 31 {
					t.Check(err != nil && got == nil, "unsupported tag %02x gave %s", i, hx(got))
					return
				}
				t.Check(err == nil && ran, "%v", err)
				wantBytes(t, "element", got, []byte{1, byte(i), 2, 1, 2})
			}},
		eng.Space{Name: "values", N: 256, Doc: "fixed-width integers of every byte value in every position",
			Run: func(t *eng.T, i int) {
				t.Descf("byte %02x", i)
				for p := 0; p < 4; p++ {
					v := uint32(i) << (8 * uint(p))
					var b cb.Builder
					b.AddUint8(uint8(v))
					b.AddUint16(uint16(v))
					b.AddUint24(v)
					b.AddUint32(v)
					got, err := b.Bytes()
					t.Ops(4)
					t.Check(err == nil, "%v", err)
					wantBytes(t, "integers", got, []byte{byte(v), byte(v >> 8), byte(v), byte(v >> 16), byte(v >> 8), byte(v), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
				}
			}})
	return sp
}
