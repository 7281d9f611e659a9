package props

import (
	"bytes"
	"crypto/x509"
	stdasn1 "encoding/asn1"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"time"

	cb "github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C23", Init: selfTest, Spaces: c23,
		Assumptions: []string{
			"values: every integer of up to 17 bits (24 thorough) and every power of two and neighbours up to 600 (2100) bits; all contents of up to 3 bytes; object identifiers over a boundary alphabet; calendar boundaries",
			"generalized times are given in UTC; identifier components above 2^28 may be refused by the reader",
			"a nil String with nothing to read is outside the property"}})
}

// one DER value: how to write it, what must come out, how to read it back.
type derVal struct {
	desc string
	der  []byte
	add  func(b *cb.Builder)
	read func(s *cb.String) (ok, equal bool)
}

var derTail = []byte{0x02, 0x01, 0x07}

func (v *derVal) check(t *eng.T, full bool) {
	var b cb.Builder
	v.add(&b)
	got, err := b.Bytes()
	t.Ops(1)
	t.Check(err == nil, "writing %s: %v", v.desc, err)
	if !bytes.Equal(got, v.der) {
		t.Failf("writing %s gave %s, want %s", v.desc, hx(got), hx(v.der))
	}
	v.readBack(t, v.der)
	if !full {
		return
	}
	// behind other content, in a fixed buffer of exactly the right size, inside a sequence
	p := []byte{0x5c, 0x30}
	buf := make([]byte, 2, 2+len(v.der))
	copy(buf, p)
	f := cb.NewFixedBuilder(buf)
	v.add(f)
	got, err = f.Bytes()
	t.Check(err == nil, "writing %s to a fixed buffer of the exact size: %v", v.desc, err)
	wantBytes(t, "fixed builder, "+v.desc, got, append(append([]byte{}, p...), v.der...))
	if len(v.der) > 0 {
		f = cb.NewFixedBuilder(make([]byte, 0, len(v.der)-1))
		v.add(f)
		got, err = f.Bytes()
		t.Check(err != nil && got == nil, "writing %s to a fixed buffer one byte short: %s, %v", v.desc, hx(got), err)
	}
	var q cb.Builder
	q.AddASN1(cbasn1.SEQUENCE, func(c *cb.Builder) { v.add(c); v.add(c) })
	got, err = q.Bytes()
	t.Check(err == nil, "writing %s twice in a sequence: %v", v.desc, err)
	wantBytes(t, "sequence of two "+v.desc, got, ref.TLV(0x30, v.der, v.der))
	s := cb.String(append([]byte{}, got...))
	var in cb.String
	t.Check(s.ReadASN1(&in, cbasn1.SEQUENCE) && s.Empty(), "sequence of two %s cannot be read", v.desc)
	for i := 0; i < 2; i++ {
		ok, eq := v.read(&in)
		t.Check(ok && eq, "reading %s nr %d in a sequence: ok=%v equal=%v", v.desc, i, ok, eq)
	}
	t.Check(in.Empty(), "reading %s left bytes in the sequence", v.desc)
	t.Ops(8)
	// every truncation is refused
	if len(v.der) <= 64 {
		for n := 0; n < len(v.der); n++ {
			s := cb.String(append([]byte{}, v.der[:n]...))
			if ok, _ := v.read(&s); ok {
				t.Failf("reading %s succeeded on the truncated %s", v.desc, hx(v.der[:n]))
			}
		}
		t.Ops(len(v.der))
	}
	// every other tag is refused
	for tag := 0; tag < 256; tag++ {
		if byte(tag) == v.der[0] {
			continue
		}
		e := append([]byte{byte(tag)}, v.der[1:]...)
		s := cb.String(e)
		if ok, _ := v.read(&s); ok {
			t.Failf("reading %s accepted tag %02x: %s", v.desc, tag, hx(e))
		}
	}
	t.Ops(255)
}

func (v *derVal) readBack(t *eng.T, der []byte) {
	g := append(append([]byte{}, der...), derTail...)
	s := cb.String(g)
	ok, eq := v.read(&s)
	t.Ops(1)
	if !ok || !eq {
		t.Failf("reading back %s from %s: ok=%v equal=%v", v.desc, hx(der), ok, eq)
	}
	if !bytes.Equal(s, derTail) {
		t.Failf("reading %s from %s left %s", v.desc, hx(der), hx(s))
	}
}

// ---- integers ----

type intDest struct {
	name     string
	min, max *big.Int
	// read reads into a fresh destination preset to a nonzero value
	read func(s *cb.String) (bool, *big.Int)
	opt  func(s *cb.String, tag cbasn1.Tag, def int64) (bool, *big.Int)
}

func i64(v int64) *big.Int   { return big.NewInt(v) }
func u64b(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

var intDests = []intDest{
	{"int8", i64(math.MinInt8), i64(math.MaxInt8), func(s *cb.String) (bool, *big.Int) {
		x := int8(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := int8(85)
			ok := s.ReadOptionalASN1Integer(&x, g, int8(d))
			return ok, i64(int64(x))
		}},
	{"int16", i64(math.MinInt16), i64(math.MaxInt16), func(s *cb.String) (bool, *big.Int) {
		x := int16(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := int16(85)
			ok := s.ReadOptionalASN1Integer(&x, g, int16(d))
			return ok, i64(int64(x))
		}},
	{"int32", i64(math.MinInt32), i64(math.MaxInt32), func(s *cb.String) (bool, *big.Int) {
		x := int32(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := int32(85)
			ok := s.ReadOptionalASN1Integer(&x, g, int32(d))
			return ok, i64(int64(x))
		}},
	{"int64", i64(math.MinInt64), i64(math.MaxInt64), func(s *cb.String) (bool, *big.Int) { x := int64(85); ok := s.ReadASN1Integer(&x); return ok, i64(x) },
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := int64(85)
			ok := s.ReadOptionalASN1Integer(&x, g, d)
			return ok, i64(x)
		}},
	{"int", i64(math.MinInt), i64(math.MaxInt), func(s *cb.String) (bool, *big.Int) {
		x := int(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := int(85)
			ok := s.ReadOptionalASN1Integer(&x, g, int(d))
			return ok, i64(int64(x))
		}},
	{"uint8", i64(0), i64(math.MaxUint8), func(s *cb.String) (bool, *big.Int) {
		x := uint8(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := uint8(85)
			ok := s.ReadOptionalASN1Integer(&x, g, uint8(d))
			return ok, i64(int64(x))
		}},
	{"uint16", i64(0), i64(math.MaxUint16), func(s *cb.String) (bool, *big.Int) {
		x := uint16(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := uint16(85)
			ok := s.ReadOptionalASN1Integer(&x, g, uint16(d))
			return ok, i64(int64(x))
		}},
	{"uint32", i64(0), i64(math.MaxUint32), func(s *cb.String) (bool, *big.Int) {
		x := uint32(85)
		ok := s.ReadASN1Integer(&x)
		return ok, i64(int64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := uint32(85)
			ok := s.ReadOptionalASN1Integer(&x, g, uint32(d))
			return ok, i64(int64(x))
		}},
	{"uint64", i64(0), u64b(math.MaxUint64), func(s *cb.String) (bool, *big.Int) { x := uint64(85); ok := s.ReadASN1Integer(&x); return ok, u64b(x) },
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := uint64(85)
			ok := s.ReadOptionalASN1Integer(&x, g, uint64(d))
			return ok, u64b(x)
		}},
	{"uint", i64(0), u64b(math.MaxUint), func(s *cb.String) (bool, *big.Int) {
		x := uint(85)
		ok := s.ReadASN1Integer(&x)
		return ok, u64b(uint64(x))
	},
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := uint(85)
			ok := s.ReadOptionalASN1Integer(&x, g, uint(d))
			return ok, u64b(uint64(x))
		}},
	{"*big.Int", nil, nil, func(s *cb.String) (bool, *big.Int) { x := big.NewInt(-85); ok := s.ReadASN1Integer(x); return ok, x },
		func(s *cb.String, g cbasn1.Tag, d int64) (bool, *big.Int) {
			x := big.NewInt(-85)
			def := big.NewInt(d)
			ok := s.ReadOptionalASN1Integer(x, g, def)
			if def.Int64() != d {
				return false, i64(-1)
			}
			return ok, x
		}},
}

// named integer types
type (
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nInt    int
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
	nUint   uint
)

func namedDest[T ~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint](name, like string) intDest {
	big := func(x T) *big.Int {
		if x > 0 {
			return u64b(uint64(x))
		}
		return i64(int64(x))
	}
	for _, d := range intDests {
		if d.name == like {
			return intDest{name, d.min, d.max, func(s *cb.String) (bool, *bigInt) {
				x := T(85)
				ok := s.ReadASN1Integer(&x)
				return ok, big(x)
			}, func(s *cb.String, g cbasn1.Tag, d int64) (bool, *bigInt) {
				x := T(85)
				ok := s.ReadOptionalASN1Integer(&x, g, T(d))
				return ok, big(x)
			}}
		}
	}
	panic(like)
}

type bigInt = big.Int

func init() {
	intDests = append(intDests, namedDest[nInt8]("a named int8", "int8"), namedDest[nInt16]("a named int16", "int16"), namedDest[nInt32]("a named int32", "int32"), namedDest[nInt64]("a named int64", "int64"), namedDest[nInt]("a named int", "int"),
		namedDest[nUint8]("a named uint8", "uint8"), namedDest[nUint16]("a named uint16", "uint16"), namedDest[nUint32]("a named uint32", "uint32"), namedDest[nUint64]("a named uint64", "uint64"), namedDest[nUint]("a named uint", "uint"),
		namedDest[time.Duration]("time.Duration", "int64"), namedDest[x509.KeyUsage]("x509.KeyUsage", "int"), namedDest[cbasn1.Tag]("asn1.Tag", "uint8"), namedDest[stdasn1.Enumerated]("asn1.Enumerated", "int"), namedDest[reflect.Kind]("reflect.Kind", "uint"))
}

func (d *intDest) fits(v *big.Int) bool {
	return d.min == nil || v.Cmp(d.min) >= 0 && v.Cmp(d.max) <= 0
}

// readInteger reads tag+content with every destination and compares with the model.
func readInteger(t *eng.T, tag byte, content []byte) {
	el := ref.TLV(tag, content)
	v, minimal := ref.ParseInt(content)
	buf := append(append([]byte{}, el...), derTail...)
	for k := range intDests {
		d := &intDests[k]
		s := cb.String(buf)
		ok, x := d.read(&s)
		want := tag == 2 && minimal && d.fits(v)
		if ok != want {
			t.Failf("reading %s into %s: %v, want %v", hx(el), d.name, ok, want)
		}
		if ok && (x.Cmp(v) != 0 || !bytes.Equal(s, derTail)) {
			t.Failf("reading %s into %s gave %d and left %s; want %d", hx(el), d.name, x, hx(s), v)
		}
	}
	s := cb.String(buf)
	e := 85
	ok := s.ReadASN1Enum(&e)
	want := tag == 10 && minimal && v.IsInt64()
	if ok != want {
		t.Failf("ReadASN1Enum of %s: %v, want %v", hx(el), ok, want)
	}
	if ok && (int64(e) != v.Int64() || !bytes.Equal(s, derTail)) {
		t.Failf("ReadASN1Enum of %s gave %d and left %s", hx(el), e, hx(s))
	}
	t.Ops(len(intDests) + 1)
	if !bytes.Equal(buf[:len(el)], el) {
		t.Failf("reading %s modified it", hx(el))
	}
}

func writeInteger(t *eng.T, v *big.Int) {
	want := ref.DERInt(v)
	chk := func(what string, want []byte, f func(b *cb.Builder)) {
		var b cb.Builder
		f(&b)
		got, err := b.Bytes()
		t.Ops(1)
		if err != nil || !bytes.Equal(got, want) {
			t.Failf("%s(%d) gave %s, %v; want %s", what, v, hx(got), err, hx(want))
		}
	}
	if v.IsInt64() {
		chk("AddASN1Int64", want, func(b *cb.Builder) { b.AddASN1Int64(v.Int64()) })
		chk("AddASN1Enum", ref.TLV(10, ref.DERIntBytes(v)), func(b *cb.Builder) { b.AddASN1Enum(v.Int64()) })
	}
	if v.IsUint64() {
		chk("AddASN1Uint64", want, func(b *cb.Builder) { b.AddASN1Uint64(v.Uint64()) })
	}
	x := new(big.Int).Set(v)
	chk("AddASN1BigInt", want, func(b *cb.Builder) { b.AddASN1BigInt(x) })
	if x.Cmp(v) != 0 {
		t.Failf("AddASN1BigInt changed its argument %d to %d", v, x)
	}
}

func c23Bigs(bits int) []*big.Int {
	var l []*big.Int
	for k := 0; k <= bits; k++ {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(pow2(uint(k)), big.NewInt(d))
			l = append(l, x, new(big.Int).Neg(x))
		}
	}
	for _, n := range []int{126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536} {
		for _, top := range []byte{1, 0x7f, 0x80, 0xff} {
			b := pat(3, n)
			b[0] = top
			x := new(big.Int).SetBytes(b)
			l = append(l, x, new(big.Int).Neg(x))
			z := make([]byte, n)
			z[0] = top
			x = new(big.Int).SetBytes(z)
			l = append(l, x, new(big.Int).Neg(x))
		}
	}
	return l
}

// ---- object identifiers ----

func oidVal(o []int) (derVal, bool) {
	c, ok := ref.OIDContent(o)
	v := derVal{desc: fmt.Sprintf("OID %v", o), der: ref.TLV(6, c)}
	v.add = func(b *cb.Builder) { b.AddASN1ObjectIdentifier(append(stdasn1.ObjectIdentifier{}, o...)) }
	v.read = func(s *cb.String) (bool, bool) {
		out := stdasn1.ObjectIdentifier{9, 9, 9}
		ok := s.ReadASN1ObjectIdentifier(&out)
		return ok, out.Equal(o)
	}
	return v, ok
}

func checkOIDContent(t *eng.T, c []byte) {
	el := ref.TLV(6, c)
	o, big_, ok := ref.OIDValue(c)
	s := cb.String(append(append([]byte{}, el...), derTail...))
	var out stdasn1.ObjectIdentifier
	got := s.ReadASN1ObjectIdentifier(&out)
	t.Ops(1)
	if !ok && got || ok && !big_ && !got {
		t.Failf("ReadASN1ObjectIdentifier(%s): %v, want %v", hx(el), got, ok)
	}
	if got && (!out.Equal(o) || !bytes.Equal(s, derTail)) {
		t.Failf("ReadASN1ObjectIdentifier(%s) gave %v and left %s; want %v", hx(el), out, hx(s), o)
	}
}

// ---- times ----

func timeVal(c ref.Civil) derVal {
	v := derVal{desc: fmt.Sprintf("time %+v", c), der: ref.TLV(24, c.GenTime())}
	tm := time.Unix(c.Unix(), 0).UTC()
	v.add = func(b *cb.Builder) { b.AddASN1GeneralizedTime(tm) }
	v.read = func(s *cb.String) (bool, bool) {
		out := time.Unix(1, 1)
		ok := s.ReadASN1GeneralizedTime(&out)
		return ok, out.Unix() == c.Unix() && out.Nanosecond() == 0
	}
	return v
}

func checkTimeContent(t *eng.T, c []byte) {
	el := ref.TLV(24, c)
	cv, ok := ref.ParseGenTime(c)
	s := cb.String(append(append([]byte{}, el...), derTail...))
	var out time.Time
	got := s.ReadASN1GeneralizedTime(&out)
	t.Ops(1)
	if !ok {
		// An explicit offset from UTC is not DER but its meaning is defined; everything else is refused.
		if got && !offsetForm(c, out) {
			t.Failf("ReadASN1GeneralizedTime accepted %q", c)
		}
		return
	}
	if !got || out.Unix() != cv.Unix() || out.Nanosecond() != 0 || !bytes.Equal(s, derTail) {
		t.Failf("ReadASN1GeneralizedTime(%q): %v, %v, left %s", c, got, out, hx(s))
	}
}

func offsetForm(c []byte, out time.Time) bool {
	if len(c) != 19 || c[14] != '+' && c[14] != '-' {
		return false
	}
	cv, ok := ref.ParseGenTime(append(append([]byte{}, c[:14]...), 'Z'))
	if !ok {
		return false
	}
	v := 0
	for _, b := range c[15:] {
		if b < '0' || b > '9' {
			return false
		}
		v = v*10 + int(b-'0')
	}
	off := int64(v/100*60+v%100) * 60
	if c[14] == '-' {
		off = -off
	}
	return off != 0 && v%100 < 60 && out.Unix() == cv.Unix()-off
}

// ---- simple values ----

func c23Simple() []derVal {
	var l []derVal
	for _, bv := range []bool{false, true} {
		bv := bv
		c := byte(0)
		if bv {
			c = 0xff
		}
		l = append(l, derVal{fmt.Sprintf("BOOLEAN %v", bv), ref.TLV(1, []byte{c}), func(b *cb.Builder) { b.AddASN1Boolean(bv) }, func(s *cb.String) (bool, bool) {
			x := !bv
			ok := s.ReadASN1Boolean(&x)
			return ok, x == bv
		}})
	}
	l = append(l, derVal{"NULL", ref.TLV(5), func(b *cb.Builder) { b.AddASN1NULL() }, func(s *cb.String) (bool, bool) {
		var x cb.String
		ok := s.ReadASN1(&x, cbasn1.NULL)
		return ok, len(x) == 0
	}})
	for _, n := range []int{0, 1, 2, 3, 31, 126, 127, 128, 129, 255, 256, 257, 65535, 65536} {
		for k := 0; k < 3; k++ {
			data := pat(k, n)
			l = append(l, derVal{fmt.Sprintf("OCTET STRING of %d", n), ref.TLV(4, data), func(b *cb.Builder) { b.AddASN1OctetString(data) }, func(s *cb.String) (bool, bool) {
				var x []byte
				ok := s.ReadASN1Bytes(&x, cbasn1.OCTET_STRING)
				return ok, bytes.Equal(x, data)
			}})
			l = append(l, derVal{fmt.Sprintf("BIT STRING of %d bytes", n), ref.TLV(3, []byte{0}, data), func(b *cb.Builder) { b.AddASN1BitString(data) }, func(s *cb.String) (bool, bool) {
				var x []byte
				s2 := *s
				ok := s.ReadASN1BitStringAsBytes(&x)
				var y stdasn1.BitString
				ok2 := s2.ReadASN1BitString(&y)
				return ok && ok2, bytes.Equal(x, data) && bytes.Equal(y.Bytes, data) && y.BitLength == 8*len(data) && len(s2) == len(*s)
			}})
		}
	}
	for _, v := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
		v := v
		l = append(l, derVal{fmt.Sprintf("INTEGER %d", v), ref.DERInt(i64(v)), func(b *cb.Builder) { b.AddASN1Int64(v) }, func(s *cb.String) (bool, bool) {
			var x int64
			ok := s.ReadASN1Integer(&x)
			return ok, x == v
		}})
		l = append(l, derVal{fmt.Sprintf("ENUMERATED %d", v), ref.TLV(10, ref.DERIntBytes(i64(v))), func(b *cb.Builder) { b.AddASN1Enum(v) }, func(s *cb.String) (bool, bool) {
			var x int
			ok := s.ReadASN1Enum(&x)
			return ok, int64(x) == v
		}})
	}
	for _, v := range []uint64{0, 1, 127, 128, 255, 256, 32768, 1 << 31, 1<<32 - 1, 1 << 63, math.MaxUint64} {
		v := v
		l = append(l, derVal{fmt.Sprintf("INTEGER %d", v), ref.DERInt(u64b(v)), func(b *cb.Builder) { b.AddASN1Uint64(v) }, func(s *cb.String) (bool, bool) {
			var x uint64
			ok := s.ReadASN1Integer(&x)
			return ok, x == v
		}})
	}
	for _, v := range []*big.Int{i64(0), i64(-1), i64(-128), i64(128), pow2(255), new(big.Int).Neg(pow2(255)), sub(pow2(256), 1), new(big.Int).Neg(pow2(256))} {
		v := v
		l = append(l, derVal{fmt.Sprintf("INTEGER %d", v), ref.DERInt(v), func(b *cb.Builder) { b.AddASN1BigInt(v) }, func(s *cb.String) (bool, bool) {
			var x big.Int
			ok := s.ReadASN1Integer(&x)
			return ok, x.Cmp(v) == 0
		}})
	}
	for _, o := range [][]int{{0, 0}, {2, 5, 29, 15}, {1, 2, 156, 10197, 1, 501}, {2, 1<<28 - 81, 1<<28 - 1}} {
		v, _ := oidVal(o)
		l = append(l, v)
	}
	l = append(l, timeVal(ref.Civil{0, 1, 1, 0, 0, 0}), timeVal(ref.Civil{2024, 2, 29, 23, 59, 59}), timeVal(ref.Civil{9999, 12, 31, 23, 59, 59}))
	return l
}

var c23OIDComps = []int{0, 1, 39, 40, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1}

func c23(tier string) []eng.Space {
	lim := pick(tier, 1<<17, 1<<24)
	const chunk = 512
	bigs := c23Bigs(pick(tier, 600, 2100))
	simple := c23Simple()
	ab := []byte{0x00, 0x01, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	oidLen := pick(tier, 4, 5)
	oidN := 0
	for n := 0; n <= oidLen; n++ {
		oidN += pow(len(c23OIDComps)+2, n)
	}
	return []eng.Space{
		{Name: "ints", N: 2 * lim / chunk, Doc: fmt.Sprintf("every integer from -%d to %d: written as Int64, Uint64, BigInt and Enum; read into 26 types, named ones among them", lim, lim),
			Run: func(t *eng.T, i int) {
				for k := 0; k < chunk; k++ {
					v := i64(int64(i*chunk + k - lim))
					t.Descf("integer %d", v)
					writeInteger(t, v)
					readInteger(t, 2, ref.DERIntBytes(v))
				}
				t.Obs("ints", i)
			}},
		{Name: "bigs", N: len(bigs), Doc: "powers of two and their neighbours of both signs, and numbers whose encodings cross length boundaries",
			Run: func(t *eng.T, i int) {
				v := bigs[i]
				t.Descf("integer of %d bits, sign %d", v.BitLen(), v.Sign())
				writeInteger(t, v)
				readInteger(t, 2, ref.DERIntBytes(v))
				readInteger(t, 10, ref.DERIntBytes(v))
				t.Obs(v.Bytes())
			}},
		{Name: "int-contents-3", N: 1 << 16, Doc: "all INTEGER and ENUMERATED contents of up to two bytes, and of three bytes with the third from an alphabet",
			Run: func(t *eng.T, i int) {
				a, b := byte(i>>8), byte(i)
				t.Descf("content starting %02x %02x", a, b)
				if b == 0 {
					readInteger(t, 2, []byte{a})
					readInteger(t, 10, []byte{a})
				}
				if i == 0 {
					readInteger(t, 2, nil)
					readInteger(t, 10, nil)
				}
				readInteger(t, 2, []byte{a, b})
				readInteger(t, 10, []byte{a, b})
				for _, c := range ab {
					readInteger(t, 2, []byte{a, b, c})
				}
			}},
		{Name: "int-contents-n", N: 7 * prod(7, 7, 7), Doc: "contents of 4..10 bytes over boundary bytes in the first two and last positions",
			Run: func(t *eng.T, i int) {
				d := mix(i, 7, 7, 7, 7)
				n := 4 + d[0]
				for fill := range ab {
					c := bytes.Repeat([]byte{ab[fill]}, n)
					c[0], c[1], c[n-1] = ab[d[1]], ab[d[2]], ab[d[3]]
					t.Descf("content %s", hx(c))
					readInteger(t, 2, c)
					readInteger(t, 10, c)
				}
			}},
		{Name: "int-tags", N: 256, Doc: "an integer under every tag",
			Run: func(t *eng.T, i int) {
				t.Descf("tag %02x", i)
				if i&31 == 31 {
					return
				}
				for _, c := range [][]byte{{0}, {1}, {0xff}, {0x7f, 1}, {0, 0x80}} {
					readInteger(t, byte(i), c)
				}
			}},
		{Name: "bool-contents", N: 1 << 16, Doc: "all BOOLEAN contents of up to two bytes",
			Run: func(t *eng.T, i int) {
				t.Descf("bool content %04x", i)
				try := func(c []byte) {
					el := ref.TLV(1, c)
					want := len(c) == 1 && (c[0] == 0 || c[0] == 0xff)
					for opt := 0; opt < 2; opt++ {
						for _, pre := range []bool{false, true} {
							s := cb.String(append(append([]byte{}, el...), derTail...))
							x := pre
							var ok bool
							if opt == 1 {
								ok = s.ReadOptionalASN1Boolean(&x, pre)
							} else {
								ok = s.ReadASN1Boolean(&x)
							}
							if ok != want || ok && (x != (c[0] == 0xff) || !bytes.Equal(s, derTail)) {
								t.Failf("reading BOOLEAN %s (optional %d): ok=%v value=%v left %s", hx(el), opt, ok, x, hx(s))
							}
						}
					}
					t.Ops(4)
				}
				if i == 0 {
					try(nil)
				}
				if i < 256 {
					try([]byte{byte(i)})
				}
				try([]byte{byte(i >> 8), byte(i)})
			}},
		{Name: "bitstring-contents", N: 1 << 16, Doc: "all BIT STRING contents of up to two bytes, three bytes over an alphabet",
			Run: func(t *eng.T, i int) {
				t.Descf("bit string content %04x", i)
				try := func(c []byte) {
					el := ref.TLV(3, c)
					ok := len(c) > 0 && c[0] < 8 && (c[0] == 0 || len(c) > 1)
					if ok && len(c) > 1 {
						for b := 0; b < int(c[0]); b++ {
							if c[len(c)-1]>>uint(b)&1 == 1 {
								ok = false
							}
						}
					}
					s := cb.String(append(append([]byte{}, el...), derTail...))
					out := stdasn1.BitString{Bytes: []byte{9}, BitLength: 3}
					got := s.ReadASN1BitString(&out)
					if got != ok || got && (!bytes.Equal(out.Bytes, c[1:]) || out.BitLength != 8*(len(c)-1)-int(c[0]) || !bytes.Equal(s, derTail)) {
						t.Failf("ReadASN1BitString(%s): %v %+v left %s", hx(el), got, out, hx(s))
					}
					s = cb.String(append(append([]byte{}, el...), derTail...))
					ob := []byte{9}
					got = s.ReadASN1BitStringAsBytes(&ob)
					ok = len(c) > 0 && c[0] == 0
					if got != ok || got && (!bytes.Equal(ob, c[1:]) || !bytes.Equal(s, derTail)) {
						t.Failf("ReadASN1BitStringAsBytes(%s): %v %s left %s", hx(el), got, hx(ob), hx(s))
					}
					t.Ops(2)
				}
				if i == 0 {
					try(nil)
				}
				if i < 256 {
					try([]byte{byte(i)})
				}
				try([]byte{byte(i >> 8), byte(i)})
				if i>>8 < 10 {
					for _, c := range ab {
						try([]byte{byte(i >> 8), c, byte(i)})
						try([]byte{byte(i >> 8), byte(i), c, byte(i)})
					}
				}
			}},
		{Name: "oids", N: oidN, Doc: fmt.Sprintf("all identifiers of up to %d components over a boundary alphabet with invalid ones", oidLen),
			Run: func(t *eng.T, i int) {
				n := 0
				for i >= pow(len(c23OIDComps)+2, n) {
					i -= pow(len(c23OIDComps)+2, n)
					n++
				}
				o := make([]int, n)
				for k := range o {
					d := i % (len(c23OIDComps) + 2)
					i /= len(c23OIDComps) + 2
					switch {
					case d < len(c23OIDComps):
						o[k] = c23OIDComps[d]
					case d == len(c23OIDComps):
						o[k] = 2
					default:
						o[k] = -1
					}
				}
				if n > 1 && o[0] == 2 && o[1] > 1<<28-81 {
					o[1] = 1<<28 - 81
				}
				v, ok := oidVal(o)
				t.Descf("%s", v.desc)
				if ok {
					v.check(t, n < 4)
					c, _ := ref.OIDContent(o)
					t.Obs(c)
					return
				}
				var b cb.Builder
				v.add(&b)
				got, err := b.Bytes()
				t.Ops(1)
				t.Check(err != nil && got == nil, "writing the invalid %s gave %s, %v", v.desc, hx(got), err)
			}},
		{Name: "oid-two-byte-first", N: 3 * 200, Doc: "first components 0..2 with second components 0..199",
			Run: func(t *eng.T, i int) {
				o := []int{i / 200, i % 200}
				for _, o := range [][]int{o, append(o, 7), append(o, 200, 1)} {
					v, ok := oidVal(o)
					t.Descf("%s", v.desc)
					if ok {
						v.check(t, true)
					} else {
						var b cb.Builder
						v.add(&b)
						_, err := b.Bytes()
						t.Check(err != nil, "writing the invalid %s succeeded", v.desc)
					}
				}
			}},
		{Name: "oid-contents", N: 1 << 16, Doc: "all identifier contents of up to three bytes; up to seven over an alphabet",
			Run: func(t *eng.T, i int) {
				t.Descf("OID contents starting %04x", i)
				if i == 0 {
					checkOIDContent(t, nil)
				}
				if i < 256 {
					checkOIDContent(t, []byte{byte(i)})
				}
				checkOIDContent(t, []byte{byte(i >> 8), byte(i)})
				for c := 0; c < 256; c++ {
					checkOIDContent(t, []byte{byte(i >> 8), byte(i), byte(c)})
				}
				al := []byte{0x00, 0x27, 0x7f, 0x80, 0x81, 0xff}
				if i < pow(6, 6) {
					var c []byte
					for k := 0; k < 6; k++ {
						c = append(c, al[i%6])
						i /= 6
					}
					for n := 4; n <= 6; n++ {
						checkOIDContent(t, c[:n])
					}
					checkOIDContent(t, append(c, 0x01))
				}
			}},
		{Name: "simple", N: len(simple), Doc: "sample values of every kind: all positions, fixed buffers, truncations, all other tags",
			Run: func(t *eng.T, i int) {
				t.Descf("%s", simple[i].desc)
				simple[i].check(t, true)
				t.Obs(simple[i].der)
			}},
		{Name: "pairs", N: len(simple), Doc: "every ordered pair of sample values written one after the other and read back",
			Run: func(t *eng.T, i int) {
				a := &simple[i]
				for k := range simple {
					b := &simple[k]
					t.Descf("%s then %s", a.desc, b.desc)
					var w cb.Builder
					a.add(&w)
					b.add(&w)
					got, err := w.Bytes()
					t.Check(err == nil, "%v", err)
					wantBytes(t, "two values", got, append(append([]byte{}, a.der...), b.der...))
					s := cb.String(got)
					for _, v := range []*derVal{a, b} {
						ok, eq := v.read(&s)
						t.Check(ok && eq, "reading back %s: ok=%v equal=%v", v.desc, ok, eq)
					}
					t.Check(s.Empty(), "%d bytes left", len(s))
					t.Ops(4)
				}
			}},
		{Name: "times", N: 10000, Doc: "a day of every year 0..9999; every day of 1900, 2000, 2023, 2024; every second of one day; years outside 0..9999",
			Run: func(t *eng.T, y int) {
				t.Descf("times with index/year %d", y)
				for _, c := range []ref.Civil{{y, 1, 1, 0, 0, 0}, {y, 12, 31, 23, 59, 59}, {y, 1 + y%12, 1 + y%28, y % 24, y % 60, y % 59}, {y, 2, 29, 1, 2, 3}, {y, 2, 28, 1, 2, 3}} {
					checkTimeContent(t, c.GenTime())
					if c.Valid() {
						v := timeVal(c)
						v.check(t, false)
					}
				}
				if y < 4*12 {
					yy := []int{1900, 2000, 2023, 2024}[y/12]
					for d := 0; d < 33; d++ {
						c := ref.Civil{yy, y%12 + 1, d, 12, 0, 0}
						checkTimeContent(t, c.GenTime())
						if c.Valid() {
							v := timeVal(c)
							v.check(t, true)
						}
					}
					for _, c := range []ref.Civil{{yy, 0, 1, 0, 0, 0}, {yy, 13, 1, 0, 0, 0}, {yy, 1, 1, 24, 0, 0}, {yy, 1, 1, 0, 60, 0}, {yy, 6, 30, 23, 59, 60}, {yy, 6, 30, 23, 60, 59}} {
						checkTimeContent(t, c.GenTime())
					}
				}
				if y < 1440 {
					for s := 0; s < 60; s++ {
						v := timeVal(ref.Civil{2024, 2, 29, y / 60, y % 60, s})
						v.check(t, false)
					}
				}
				if y < 20 {
					for _, yr := range []int{-1, -2, -4713, 10000, 10001, 99999} {
						var b cb.Builder
						b.AddUint8(1)
						b.AddASN1GeneralizedTime(time.Date(yr, time.Month(1+y%12), 1+y, y, y, y, 0, time.UTC))
						b.AddUint8(1)
						got, err := b.Bytes()
						t.Check(err != nil && got == nil, "a time in year %d was written as %s", yr, hx(got))
					}
				}
			}},
		{Name: "time-edits", N: 6 * 22, Doc: "every one-byte replacement, deletion and insertion in valid times, and offset and fraction forms",
			Run: func(t *eng.T, i int) {
				base := [][]byte{[]byte("20240229235959Z"), []byte("00000101000000Z"), []byte("99991231235959Z"), []byte("20230630120000Z"), []byte("20230630120000+0800"), []byte("19000228000000-0130")}[i/22]
				p := i % 22
				t.Descf("edits of %q at %d", base, p)
				if p == 0 {
					checkTimeContent(t, base)
					for _, suf := range []string{"", "Z", ".0Z", ".1Z", ".123456789Z", ",5Z", "+0000", "-0000", "+0001", "z", " Z", "Z ", "ZZ", "+08", "+08:00", "Z0000", "\x00", "+2400", "+2360", "+0060", "GMT"} {
						checkTimeContent(t, append(append([]byte{}, base[:14]...), suf...))
						checkTimeContent(t, append(append([]byte{}, base[:12]...), suf...))
						checkTimeContent(t, append(append([]byte{}, base[2:14]...), suf...))
					}
				}
				if p > len(base) {
					return
				}
				for v := 0; v < 256; v++ {
					if p < len(base) {
						e := append([]byte{}, base...)
						e[p] = byte(v)
						checkTimeContent(t, e)
					}
					e := append(append(append([]byte{}, base[:p]...), byte(v)), base[p:]...)
					checkTimeContent(t, e)
				}
				if p < len(base) {
					checkTimeContent(t, append(append([]byte{}, base[:p]...), base[p+1:]...))
					checkTimeContent(t, base[:p])
				}
			}},
		{Name: "optional-int", N: 256, Doc: "optional explicitly tagged integers of every destination type: absent, present, empty, wrong, trailing; every next tag",
			Run: func(t *eng.T, i int) {
				next := byte(i)
				t.Descf("next tag %02x", next)
				for _, want := range []cbasn1.Tag{0xa0, 0xa1, 2, 0x30, 0x80} {
					inners := []struct {
						in []byte
						v  *big.Int
					}{{nil, nil}, {ref.DERInt(i64(7)), i64(7)}, {ref.DERInt(i64(-1)), i64(-1)}, {ref.DERInt(i64(200)), i64(200)}, {ref.DERInt(i64(70000)), i64(70000)}, {ref.DERInt(u64b(math.MaxUint64)), u64b(math.MaxUint64)},
						{ref.TLV(2), nil}, {ref.TLV(2, []byte{0, 1}), nil}, {ref.TLV(10, []byte{1}), nil}, {append(ref.DERInt(i64(7)), 0), nil}, {append(ref.DERInt(i64(7)), ref.DERInt(i64(7))...), nil}, {ref.DERInt(i64(7))[:2], nil}, {[]byte{5}, nil}}
					for _, in := range inners {
						el := append(ref.TLV(next, in.in), derTail...)
						for k := range intDests {
							d := &intDests[k]
							for _, def := range []int64{0, 99} {
								s := cb.String(append([]byte{}, el...))
								ok, x := d.opt(&s, want, def)
								t.Ops(1)
								present := next == byte(want)
								switch {
								case !present:
									if !ok || x.Cmp(i64(def)) != 0 || !bytes.Equal(s, el) {
										t.Failf("absent optional integer (%s, tag %02x, default %d) in %s: ok=%v value=%d, %d bytes left", d.name, want, def, hx(el), ok, x, len(s))
									}
								case next&31 != 31 && in.v != nil && d.fits(in.v):
									if !ok || x.Cmp(in.v) != 0 || !bytes.Equal(s, derTail) {
										t.Failf("optional integer (%s) %s: ok=%v value=%d left %s", d.name, hx(el), ok, x, hx(s))
									}
								default:
									if ok {
										t.Failf("optional integer (%s) accepted %s as %d", d.name, hx(el), x)
									}
								}
							}
						}
					}
				}
				// nothing at all
				if i == 0 {
					for k := range intDests {
						var s cb.String
						ok, x := intDests[k].opt(&s, 0xa0, 5)
						if !ok || x.Cmp(i64(5)) != 0 {
							t.Failf("optional integer on an empty string: ok=%v value=%d", ok, x)
						}
					}
				}
			}},
		{Name: "optional-rest", N: 256, Doc: "optional octet strings, booleans, elements and skips for every next tag",
			Run: func(t *eng.T, i int) {
				next := byte(i)
				t.Descf("next tag %02x", next)
				for _, want := range []cbasn1.Tag{0xa0, 0xa1, 4, 0x30, 1} {
					for _, in := range []struct {
						in []byte
						v  []byte
						ok bool
					}{{nil, nil, false}, {ref.TLV(4), []byte{}, true}, {ref.TLV(4, []byte{9}), []byte{9}, true}, {ref.TLV(4, pat(0, 200)), pat(0, 200), true}, {append(ref.TLV(4, []byte{9}), 0), nil, false}, {ref.TLV(3, []byte{0}), nil, false}, {[]byte{4, 1}, nil, false}, {[]byte{0xff}, nil, false}} {
						el := append(ref.TLV(next, in.in), derTail...)
						present := next == byte(want)
						lowtag := next&31 != 31
						for q := 0; q < 2; q++ {
							s := cb.String(append([]byte{}, el...))
							out, pres := []byte{1, 2}, !present
							pp := &pres
							if q == 1 {
								pp = nil
							}
							ok := s.ReadOptionalASN1OctetString(&out, pp, want)
							switch {
							case !present:
								if !ok || q == 0 && pres || len(out) != 0 || !bytes.Equal(s, el) {
									t.Failf("absent optional octet string in %s: ok=%v present=%v out=%s, %d left", hx(el), ok, pres, hx(out), len(s))
								}
							case lowtag && in.ok:
								if !ok || q == 0 && !pres || !bytes.Equal(out, in.v) || !bytes.Equal(s, derTail) {
									t.Failf("optional octet string %s: ok=%v present=%v out=%s left %s", hx(el), ok, pres, hx(out), hx(s))
								}
							default:
								if ok {
									t.Failf("optional octet string accepted %s", hx(el))
								}
							}
							s = cb.String(append([]byte{}, el...))
							var o2 cb.String
							pres = !present
							ok = s.ReadOptionalASN1(&o2, pp, want)
							if ok != (!present || lowtag) || q == 0 && pres != present || ok && present && (!bytes.Equal(o2, in.in) || !bytes.Equal(s, derTail)) || ok && !present && !bytes.Equal(s, el) {
								t.Failf("ReadOptionalASN1(%02x) of %s: ok=%v present=%v out=%s left %s", want, hx(el), ok, pres, hx(o2), hx(s))
							}
						}
						s := cb.String(append([]byte{}, el...))
						ok := s.SkipOptionalASN1(want)
						if ok != (!present || lowtag) || ok && present && !bytes.Equal(s, derTail) || ok && !present && !bytes.Equal(s, el) {
							t.Failf("SkipOptionalASN1(%02x) of %s: ok=%v left %s", want, hx(el), ok, hx(s))
						}
						t.Ops(5)
					}
				}
				// booleans
				for _, c := range [][]byte{nil, {0}, {0xff}, {1}, {0, 0}} {
					el := append(ref.TLV(next, c), derTail...)
					for _, def := range []bool{false, true} {
						s := cb.String(append([]byte{}, el...))
						x := !def
						ok := s.ReadOptionalASN1Boolean(&x, def)
						t.Ops(1)
						valid := len(c) == 1 && (c[0] == 0 || c[0] == 0xff)
						switch {
						case next != 1:
							if !ok || x != def || !bytes.Equal(s, el) {
								t.Failf("absent optional boolean in %s: ok=%v value=%v", hx(el), ok, x)
							}
						case valid:
							if !ok || x != (c[0] == 0xff) || !bytes.Equal(s, derTail) {
								t.Failf("optional boolean %s: ok=%v value=%v left %s", hx(el), ok, x, hx(s))
							}
						default:
							t.Check(!ok, "optional boolean accepted %s", hx(el))
						}
					}
				}
				if i == 0 {
					var s cb.String
					x := false
					t.Check(s.ReadOptionalASN1Boolean(&x, true) && x, "optional boolean on an empty string")
					out, pres := []byte{1}, true
					t.Check(s.ReadOptionalASN1OctetString(&out, &pres, 0xa0) && !pres && out == nil, "optional octet string on an empty string")
				}
			}},
		{Name: "own-memory", N: 1, Doc: "the integer that is read has memory of its own: the bytes read, the default value and integers read before do not change with it, nor it with them",
			Run: func(t *eng.T, i int) {
				vals := c23Bigs(300)
				for k, v := range vals {
					w := vals[(k*7+3)%len(vals)]
					t.Descf("integers %d and %d", v, w)
					der := ref.DERInt(v)
					for mode := 0; mode < 3; mode++ {
						for _, out := range []*big.Int{new(big.Int), new(big.Int).Set(w), new(big.Int).Lsh(i64(1), 3000)} {
							in := append([]byte{}, der...)
							def := new(big.Int).Set(v)
							s := cb.String(in)
							var ok bool
							switch mode {
							case 0:
								ok = s.ReadASN1Integer(out)
							case 1:
								s = nil
								ok = s.ReadOptionalASN1Integer(out, 0xa0, def)
							case 2:
								in = ref.TLV(0xa0, der)
								s = cb.String(in)
								def.Set(w)
								ok = s.ReadOptionalASN1Integer(out, 0xa0, def)
							}
							t.Ops(1)
							t.Eval(1)
							t.Check(ok && out.Cmp(v) == 0, "reading %d gave %v, %d", v, ok, out)
							keep := new(big.Int).Set(def)
							for j := range in {
								in[j] ^= 0x55
							}
							t.Check(out.Cmp(v) == 0, "the integer read changes with the bytes it was read from")
							was := append([]byte{}, in...)
							wd := out.Bits()[:cap(out.Bits())]
							for j := range wd {
								wd[j] ^= 0x5a5a
							}
							t.Check(def.Cmp(keep) == 0, "the default value changes with the integer read: %d, was %d", def, keep)
							t.Check(bytes.Equal(in, was), "the bytes change with the integer read from them")
							for j := range wd {
								wd[j] ^= 0x5a5a
							}
							dw := def.Bits()
							for j := range dw {
								dw[j] ^= 0x77
							}
							t.Check(out.Cmp(v) == 0, "the integer read changes with the default value")
						}
					}
				}
				t.Obs(len(vals))
			}},
		{Name: "marshal", N: 1, Doc: "values of encoding/asn1 embedded with MarshalASN1, and failures",
			Run: func(t *eng.T, i int) {
				t.Descf("MarshalASN1")
				for _, v := range []interface{}{5, "abc", []int{1, 2}, true, []byte{1}, stdasn1.ObjectIdentifier{1, 2, 3}, struct{ A, B int }{1, -2}, big.NewInt(-129)} {
					want, err := stdasn1.Marshal(v)
					if err != nil {
						panic(err)
					}
					var b cb.Builder
					b.AddUint8(7)
					b.MarshalASN1(v)
					got, err := b.Bytes()
					t.Check(err == nil, "%v", err)
					wantBytes(t, fmt.Sprintf("MarshalASN1(%v)", v), got, append([]byte{7}, want...))
				}
				for _, v := range []interface{}{make(chan int), stdasn1.ObjectIdentifier{9}, 1.5} {
					var b cb.Builder
					b.MarshalASN1(v)
					b.MarshalASN1(5)
					got, err := b.Bytes()
					t.Check(err != nil && got == nil, "MarshalASN1(%v) gave %s", v, hx(got))
				}
			}},
	}
}
