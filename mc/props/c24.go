package props

import (
	"bytes"
	stdasn1 "encoding/asn1"
	"fmt"
	"math/big"
	"time"

	cb "github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C24", Init: selfTest, Spaces: c24, MemLimitMB: 6144,
		Assumptions: []string{
			"strings: all of up to three bytes, all length fields of up to five octets over a boundary alphabet, contents around every length boundary up to 2^24",
			"after a failed read the remaining string is not specified; a nil String with nothing to read is outside the property"}})
}

// readOp is one operation of the reader with its model: from the rest, whether it succeeds, what it yields,
// and what remains.
type readOp struct {
	name  string
	run   func(s *cb.String) (bool, []byte)
	model func(r []byte) (ok bool, out, rest []byte)
}

func take(r []byte, n int) (bool, []byte, []byte) {
	if n < 0 || len(r) < n {
		return false, nil, nil
	}
	return true, r[:n], r[n:]
}

func modelAny(r []byte, whole bool, wantTag int, withTag bool) (bool, []byte, []byte) {
	tag, c, w, rest, ok := ref.Elem(r)
	if !ok || wantTag >= 0 && int(tag) != wantTag {
		return false, nil, nil
	}
	out := c
	if whole {
		out = w
	}
	if withTag {
		out = append([]byte{tag}, out...)
	}
	return true, out, rest
}

func modelLP(r []byte, l int) (bool, []byte, []byte) {
	if len(r) < l {
		return false, nil, nil
	}
	n := 0
	for _, b := range r[:l] {
		n = n*256 + int(b)
	}
	return take(r[l:], n)
}

func boolByte(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

var readOps = func() []readOp {
	var l []readOp
	add := func(name string, run func(s *cb.String) (bool, []byte), model func(r []byte) (bool, []byte, []byte)) {
		l = append(l, readOp{name, run, model})
	}
	junk := func() cb.String { return cb.String{0xde, 0xad} }
	add("ReadAnyASN1", func(s *cb.String) (bool, []byte) {
		out, tag := junk(), cbasn1.Tag(0x77)
		ok := s.ReadAnyASN1(&out, &tag)
		return ok, append([]byte{byte(tag)}, out...)
	}, func(r []byte) (bool, []byte, []byte) { return modelAny(r, false, -1, true) })
	add("ReadAnyASN1Element", func(s *cb.String) (bool, []byte) {
		out, tag := junk(), cbasn1.Tag(0x77)
		ok := s.ReadAnyASN1Element(&out, &tag)
		return ok, append([]byte{byte(tag)}, out...)
	}, func(r []byte) (bool, []byte, []byte) { return modelAny(r, true, -1, true) })
	add("ReadUint8LengthPrefixed", func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadUint8LengthPrefixed(&o), o },
		func(r []byte) (bool, []byte, []byte) { return modelLP(r, 1) })
	add("ReadUint16LengthPrefixed", func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadUint16LengthPrefixed(&o), o },
		func(r []byte) (bool, []byte, []byte) { return modelLP(r, 2) })
	add("ReadUint24LengthPrefixed", func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadUint24LengthPrefixed(&o), o },
		func(r []byte) (bool, []byte, []byte) { return modelLP(r, 3) })
	add("ReadAnyASN1(nil tag)", func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadAnyASN1(&o, nil), o },
		func(r []byte) (bool, []byte, []byte) { return modelAny(r, false, -1, false) })
	add("ReadAnyASN1Element(nil tag)", func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadAnyASN1Element(&o, nil), o },
		func(r []byte) (bool, []byte, []byte) { return modelAny(r, true, -1, false) })
	for _, tag := range []byte{0x30, 0x02, 0xa0, 0x04} {
		tag := tag
		add(fmt.Sprintf("ReadASN1(%02x)", tag), func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadASN1(&o, cbasn1.Tag(tag)), o },
			func(r []byte) (bool, []byte, []byte) { return modelAny(r, false, int(tag), false) })
		add(fmt.Sprintf("ReadASN1Element(%02x)", tag), func(s *cb.String) (bool, []byte) { o := junk(); return s.ReadASN1Element(&o, cbasn1.Tag(tag)), o },
			func(r []byte) (bool, []byte, []byte) { return modelAny(r, true, int(tag), false) })
		add(fmt.Sprintf("ReadASN1Bytes(%02x)", tag), func(s *cb.String) (bool, []byte) { o := []byte{1}; return s.ReadASN1Bytes(&o, cbasn1.Tag(tag)), o },
			func(r []byte) (bool, []byte, []byte) { return modelAny(r, false, int(tag), false) })
		add(fmt.Sprintf("SkipASN1(%02x)", tag), func(s *cb.String) (bool, []byte) { return s.SkipASN1(cbasn1.Tag(tag)), nil },
			func(r []byte) (bool, []byte, []byte) {
				ok, _, rest := modelAny(r, false, int(tag), false)
				return ok, nil, rest
			})
		add(fmt.Sprintf("SkipOptionalASN1(%02x)", tag), func(s *cb.String) (bool, []byte) { return s.SkipOptionalASN1(cbasn1.Tag(tag)), nil },
			func(r []byte) (bool, []byte, []byte) {
				if len(r) == 0 || r[0] != tag {
					return true, nil, r
				}
				ok, _, rest := modelAny(r, false, int(tag), false)
				return ok, nil, rest
			})
		add(fmt.Sprintf("ReadOptionalASN1(%02x)", tag), func(s *cb.String) (bool, []byte) {
			var o cb.String
			p := true
			ok := s.ReadOptionalASN1(&o, &p, cbasn1.Tag(tag))
			return ok, append(boolByte(p), o...)
		}, func(r []byte) (bool, []byte, []byte) {
			if len(r) == 0 || r[0] != tag {
				return true, []byte{0}, r
			}
			ok, o, rest := modelAny(r, false, int(tag), false)
			return ok, append([]byte{1}, o...), rest
		})
		add(fmt.Sprintf("ReadOptionalASN1(%02x) without present", tag), func(s *cb.String) (bool, []byte) {
			var o cb.String
			ok := s.ReadOptionalASN1(&o, nil, cbasn1.Tag(tag))
			return ok, o
		}, func(r []byte) (bool, []byte, []byte) {
			if len(r) == 0 || r[0] != tag {
				return true, nil, r
			}
			return modelAny(r, false, int(tag), false)
		})
		add(fmt.Sprintf("PeekASN1Tag(%02x)", tag), func(s *cb.String) (bool, []byte) { return true, boolByte(s.PeekASN1Tag(cbasn1.Tag(tag))) },
			func(r []byte) (bool, []byte, []byte) { return true, boolByte(len(r) > 0 && r[0] == tag), r })
	}
	add("Empty", func(s *cb.String) (bool, []byte) { return true, boolByte(s.Empty()) }, func(r []byte) (bool, []byte, []byte) { return true, boolByte(len(r) == 0), r })
	add("descend", func(s *cb.String) (bool, []byte) { return s.ReadASN1(s, 0x30), nil }, func(r []byte) (bool, []byte, []byte) {
		ok, c, _ := modelAny(r, false, 0x30, false)
		return ok, nil, c
	})
	for n := -1; n <= 5; n++ {
		n := n
		if n == 4 {
			continue
		}
		add(fmt.Sprintf("Skip(%d)", n), func(s *cb.String) (bool, []byte) { return s.Skip(n), nil }, func(r []byte) (bool, []byte, []byte) {
			ok, _, rest := take(r, n)
			return ok, nil, rest
		})
		add(fmt.Sprintf("ReadBytes(%d)", n), func(s *cb.String) (bool, []byte) { o := []byte{1}; return s.ReadBytes(&o, n), o }, func(r []byte) (bool, []byte, []byte) { return take(r, n) })
		if n >= 0 {
			add(fmt.Sprintf("CopyBytes(%d)", n), func(s *cb.String) (bool, []byte) { o := make([]byte, n); return s.CopyBytes(o), o }, func(r []byte) (bool, []byte, []byte) { return take(r, n) })
		}
	}
	add("ReadUint8", func(s *cb.String) (bool, []byte) { x := uint8(0x99); return s.ReadUint8(&x), []byte{x} }, func(r []byte) (bool, []byte, []byte) { return take(r, 1) })
	add("ReadUint16", func(s *cb.String) (bool, []byte) {
		x := uint16(0x9999)
		ok := s.ReadUint16(&x)
		return ok, []byte{byte(x >> 8), byte(x)}
	}, func(r []byte) (bool, []byte, []byte) { return take(r, 2) })
	add("ReadUint24", func(s *cb.String) (bool, []byte) {
		x := uint32(0x99999999)
		ok := s.ReadUint24(&x)
		if ok && x>>24 != 0 {
			return ok, []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
		}
		return ok, []byte{byte(x >> 16), byte(x >> 8), byte(x)}
	}, func(r []byte) (bool, []byte, []byte) { return take(r, 3) })
	add("ReadUint32", func(s *cb.String) (bool, []byte) {
		x := uint32(0x99999999)
		ok := s.ReadUint32(&x)
		return ok, []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
	}, func(r []byte) (bool, []byte, []byte) { return take(r, 4) })
	return l
}()

const coreReadOps = 5

// typed readers: they must not panic, and consume exactly one element of their tag when they succeed.
var typedReads = []struct {
	name string
	tag  byte
	run  func(s *cb.String) bool
}{
	{"ReadASN1Boolean", 1, func(s *cb.String) bool { var x bool; return s.ReadASN1Boolean(&x) }},
	{"ReadASN1Integer(int64)", 2, func(s *cb.String) bool { var x int64; return s.ReadASN1Integer(&x) }},
	{"ReadASN1Integer(uint8)", 2, func(s *cb.String) bool { var x uint8; return s.ReadASN1Integer(&x) }},
	{"ReadASN1Integer(big)", 2, func(s *cb.String) bool { return s.ReadASN1Integer(new(big.Int)) }},
	{"ReadASN1Enum", 10, func(s *cb.String) bool { var x int; return s.ReadASN1Enum(&x) }},
	{"ReadASN1ObjectIdentifier", 6, func(s *cb.String) bool { var x stdasn1.ObjectIdentifier; return s.ReadASN1ObjectIdentifier(&x) }},
	{"ReadASN1GeneralizedTime", 24, func(s *cb.String) bool { var x time.Time; return s.ReadASN1GeneralizedTime(&x) }},
	{"ReadASN1BitString", 3, func(s *cb.String) bool { var x stdasn1.BitString; return s.ReadASN1BitString(&x) }},
	{"ReadASN1BitStringAsBytes", 3, func(s *cb.String) bool { var x []byte; return s.ReadASN1BitStringAsBytes(&x) }},
}

func oneRead(t *eng.T, op *readOp, in []byte) {
	s := cb.String(in)
	ok, out := op.run(&s)
	wok, wout, wrest := op.model(in)
	if ok != wok {
		t.Failf("%s on %s: %v, want %v", op.name, hx(in), ok, wok)
	}
	if ok && (!bytes.Equal(out, wout) || !bytes.Equal(s, wrest)) {
		t.Failf("%s on %s yielded %s and left %s; want %s and %s", op.name, hx(in), hx(out), hx(s), hx(wout), hx(wrest))
	}
}

func allReads(t *eng.T, in []byte, core bool) {
	ops := readOps
	if core {
		ops = readOps[:coreReadOps]
	}
	orig := append([]byte{}, in...)
	for k := range ops {
		oneRead(t, &ops[k], in)
	}
	t.Ops(len(ops))
	if !core {
		for k := range typedReads {
			s := cb.String(in)
			if typedReads[k].run(&s) {
				tag, _, _, rest, ok := ref.Elem(in)
				if !ok || tag != typedReads[k].tag || !bytes.Equal(rest, s) {
					t.Failf("%s succeeded on %s and left %s", typedReads[k].name, hx(in), hx(s))
				}
			}
		}
		t.Ops(len(typedReads))
	}
	if !bytes.Equal(in, orig) {
		t.Failf("reading changed the string from %s to %s", hx(orig), hx(in))
	}
}

var c24Len = []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0xff}
var c24Tags = []byte{0x30, 0x02, 0x1f, 0x3f, 0xff, 0x00, 0xa0}

func c24(tier string) []eng.Space {
	// lengths around which elements of real size are tried
	var sizes []int
	for n := 0; n <= 300; n++ {
		sizes = append(sizes, n)
	}
	for _, b := range []int{1 << 12, 1 << 15, 1 << 16, 1 << 16 * 3, 1 << 20, 1 << 23, 1 << 24} {
		for d := -3; d <= 3; d++ {
			sizes = append(sizes, b+d)
		}
	}
	seqStrings := [][]byte{
		{}, {0}, {1, 2, 3, 4, 5}, {0x30, 0}, {0x30, 2, 2, 0}, ref.DERInt(i64(5)), ref.TLV(0x30, ref.DERInt(i64(5)), ref.DERInt(i64(300))), ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0x30))),
		append(ref.TLV(0xa0, ref.DERInt(i64(1))), ref.TLV(4, []byte{9})...), append(ref.TLV(0x30), 0x30), append(ref.DERInt(i64(1)), 2, 2, 0), ref.TLV(0x30, pat(0, 130)), ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(2, pat(0, 128))), ref.TLV(4)),
		{2, 3, 0xaa, 0xbb, 0xcc, 1, 2}, {0, 2, 1, 1, 1, 1, 1}, {0, 0, 1, 7, 0, 0, 0}, {0xa0, 0x80, 0, 0}, {0x30, 0x81, 1, 1}, {0x30, 0x84, 0, 0, 0, 1, 1}, append([]byte{0x30, 0x81, 0x80}, pat(0, 129)...),
		append(append(ref.TLV(0xa0), ref.TLV(4)...), ref.TLV(2, []byte{1})...), {0x1f, 0, 0}, {0x30, 3, 0x30, 1, 0x30, 0x30, 0},
	}
	depth := pick(tier, 3, 4)
	_ = depth
	spaces := []eng.Space{
		{Name: "short", N: 1 << 16, Doc: "all strings of up to two bytes with every operation; all strings of three bytes with the element and length-prefix readers; third byte from an alphabet with every operation",
			Run: func(t *eng.T, i int) {
				t.Descf("strings starting with %04x", i)
				if i == 0 {
					allReads(t, []byte{}, false)
				}
				if i < 256 {
					allReads(t, []byte{byte(i)}, false)
				}
				allReads(t, []byte{byte(i >> 8), byte(i)}, false)
				b := make([]byte, 3)
				for c := 0; c < 256; c++ {
					b[0], b[1], b[2] = byte(i>>8), byte(i), byte(c)
					allReads(t, b, c&15 != 0 && c&15 != 15 && c != 1 && !thorough(tier))
				}
				if i&255 == 0 {
					t.Obs(i)
				}
			}},
		{Name: "nil", N: 1, Doc: "every operation on a nil string",
			Run: func(t *eng.T, i int) {
				t.Descf("nil string")
				for k := range readOps {
					var s cb.String
					ok, _ := readOps[k].run(&s)
					wok, _, _ := readOps[k].model(nil)
					switch readOps[k].name {
					case "Skip(0)", "ReadBytes(0)", "CopyBytes(0)":
						continue
					}
					t.Check(ok == wok, "%s on a nil string: %v", readOps[k].name, ok)
				}
			}},
		{Name: "length-fields", N: len(c24Tags) * pow(len(c24Len), 3), Doc: "all length fields of up to five octets over a boundary alphabet, with too little, exact and surplus content",
			Run: func(t *eng.T, i int) {
				tag := c24Tags[i%len(c24Tags)]
				i /= len(c24Tags)
				l := len(c24Len)
				head := []byte{c24Len[i%l], c24Len[i/l%l], c24Len[i/l/l]}
				t.Descf("tag %02x, length field starting %x", tag, head)
				for k := 0; k < l*l; k++ {
					f := append([]byte{tag}, head...)
					f = append(f, c24Len[k%l], c24Len[k/l])
					lens := []int{}
					for n := 2; n <= 6; n++ {
						if k != 0 && n < 5 || n == 5 && k/l != 0 {
							continue // covered by another index
						}
						lens = append(lens, n)
					}
					for _, n := range lens {
						h := f[:n:n]
						allReads(t, h, true)
						for _, extra := range []int{1, 2, 3, 126, 127, 128, 130, 255, 256, 258} {
							allReads(t, append(h, pat(0, extra)...), true)
						}
						// the content the field promises
						if h[1] > 0x80 && h[1] <= 0x84 && n >= 2+int(h[1]&0x7f) {
							want := 0
							hl := 2 + int(h[1]&0x7f)
							for _, b := range h[2:hl] {
								want = want<<8 | int(b)
							}
							if want < 70000 {
								for d := -1; d <= 1; d++ {
									if c := want + d - (n - hl); c >= 0 {
										allReads(t, append(h, make([]byte, c)...), true)
									}
								}
							}
						}
					}
				}
			}},
		{Name: "sizes", N: len(sizes), Doc: "elements of every content length 0..300 and around 2^12..2^24, with every length form including non-minimal ones, exact, one byte missing, one surplus",
			Run: func(t *eng.T, i int) {
				n := sizes[i]
				t.Descf("content of %d bytes", n)
				buf := make([]byte, 8+n+1)
				for k := 8; k < len(buf); k++ {
					buf[k] = byte(k * 13)
				}
				try := func(hdr []byte) {
					copy(buf[8-len(hdr):8], hdr)
					for d := -1; d <= 1; d++ {
						if n+d < 0 {
							continue
						}
						in := buf[8-len(hdr) : 8+n+d]
						for k := range readOps[:9] {
							oneRead(t, &readOps[k], in)
						}
						t.Ops(9)
					}
				}
				for _, tag := range []byte{0x30, 0x04} {
					if n < 128 {
						try([]byte{tag, byte(n)})
					}
					for k := 1; k <= 5; k++ {
						if n>>(8*uint(k)) != 0 {
							continue
						}
						h := []byte{tag, 0x80 + byte(k)}
						for q := k - 1; q >= 0; q-- {
							h = append(h, byte(n>>(8*uint(q))))
						}
						try(h)
					}
					try([]byte{tag, 0x80})
				}
				t.Obs(n)
			}},
		{Name: "length-prefixed", N: 3 * 400, Doc: "length-prefixed reads: every length 0..300 and boundaries, exact, one missing, one surplus",
			Run: func(t *eng.T, i int) {
				w, k := i/400+1, i%400
				n := k
				if k > 300 {
					n = []int{1 << 8, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<24 - 1, 1<<24 - 2, 1 << 15, 1 << 23, 1000, 4096}[k%10]
				}
				if n>>(8*uint(w)) != 0 {
					return
				}
				t.Descf("%d-byte prefix of %d", w, n)
				in := []byte{}
				for q := w - 1; q >= 0; q-- {
					in = append(in, byte(n>>(8*uint(q))))
				}
				in = append(in, make([]byte, n+1)...)
				for d := -1; d <= 1; d++ {
					if n+d >= 0 {
						for o := 2; o < coreReadOps; o++ {
							oneRead(t, &readOps[o], in[:w+n+d])
						}
					}
				}
				t.Ops(9)
			}},
		{Name: "sequences", N: len(seqStrings) * len(readOps), Doc: "all sequences of three operations (four thorough) on sample strings, following the rest",
			Run: func(t *eng.T, i int) {
				in := seqStrings[i%len(seqStrings)]
				first := i / len(seqStrings)
				var names []string
				t.Desc(func() string { return fmt.Sprintf("string %s, operations %v", hx(in), names) })
				var walk func(s cb.String, r []byte, op, left int)
				walk = func(s cb.String, r []byte, op, left int) {
					o := &readOps[op]
					names = append(names, o.name)
					if len(r) == 0 && s == nil {
						names = names[:len(names)-1]
						return
					}
					ok, out := o.run(&s)
					wok, wout, wrest := o.model(r)
					t.Ops(1)
					if ok != wok {
						t.Failf("%s: %v, want %v", o.name, ok, wok)
					}
					if ok {
						if !bytes.Equal(out, wout) || !bytes.Equal(s, wrest) {
							t.Failf("%s yielded %s and left %s; want %s and %s", o.name, hx(out), hx(s), hx(wout), hx(wrest))
						}
						if left > 0 {
							for k := range readOps {
								walk(s, wrest, k, left-1)
							}
						}
					}
					names = names[:len(names)-1]
				}
				walk(cb.String(append(make([]byte, 0, len(in)+1), in...)), in, first, depth-1)
				t.Obs(in, first)
			}},
	}
	return spaces
}
