package ref

import (
	"math/big"
)

// A small model of DER, written from X.690 and independent of the code under test.

// OIDContent encodes an object identifier; ok tells whether it is one.
func OIDContent(o []int) ([]byte, bool) {
	if len(o) < 2 {
		return nil, false
	}
	for _, c := range o {
		if c < 0 {
			return nil, false
		}
	}
	if o[0] > 2 || o[0] < 2 && o[1] > 39 {
		return nil, false
	}
	var out []byte
	put := func(v *big.Int) {
		g := []byte{}
		x := new(big.Int).Set(v)
		for {
			r := new(big.Int)
			x.DivMod(x, big.NewInt(128), r)
			g = append(g, byte(r.Int64()))
			if x.Sign() == 0 {
				break
			}
		}
		for i := len(g) - 1; i >= 0; i-- {
			b := g[i]
			if i > 0 {
				b += 128
			}
			out = append(out, b)
		}
	}
	f := new(big.Int).Add(big.NewInt(int64(o[0])*40), big.NewInt(int64(o[1])))
	put(f)
	for _, c := range o[2:] {
		put(big.NewInt(int64(c)))
	}
	return out, true
}

// OIDValue decodes the content octets of an object identifier. big tells that a subidentifier
// has more than 28 bits.
func OIDValue(c []byte) (o []int, big_ bool, ok bool) {
	if len(c) == 0 {
		return nil, false, false
	}
	first := true
	for len(c) > 0 {
		if c[0] == 0x80 {
			return nil, false, false
		}
		v, n := 0, 0
		for {
			if n == len(c) {
				return nil, false, false
			}
			v = v*128 + int(c[n]%128)
			n++
			if c[n-1] < 128 {
				break
			}
		}
		if n > 4 {
			big_ = true
		}
		c = c[n:]
		if first {
			first = false
			switch {
			case v < 40:
				o = append(o, 0, v)
			case v < 80:
				o = append(o, 1, v-40)
			default:
				o = append(o, 2, v-80)
			}
			continue
		}
		o = append(o, v)
	}
	return o, big_, true
}

// Civil is a broken-down time in UTC.
type Civil struct{ Y, Mo, D, H, Mi, S int }

func (c Civil) Valid() bool {
	if c.Y < 0 || c.Y > 9999 || c.Mo < 1 || c.Mo > 12 || c.D < 1 || c.H > 23 || c.Mi > 59 || c.S > 59 || c.H < 0 || c.Mi < 0 || c.S < 0 {
		return false
	}
	dim := [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[c.Mo-1]
	if c.Mo == 2 && (c.Y%4 == 0 && c.Y%100 != 0 || c.Y%400 == 0) {
		dim = 29
	}
	return c.D <= dim
}

// Unix counts seconds from 1970, by summing whole years and months.
func (c Civil) Unix() int64 {
	// days from civil: count leap days before the year
	y := int64(c.Y)
	leaps := func(y int64) int64 { // leap years in [0, y)
		if y <= 0 {
			return 0
		}
		z := y - 1
		return z/4 - z/100 + z/400 + 1
	}
	days := y*365 + leaps(y) - (1970*365 + leaps(1970))
	for m := 1; m < c.Mo; m++ {
		dim := [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
		if m == 2 && (c.Y%4 == 0 && c.Y%100 != 0 || c.Y%400 == 0) {
			dim = 29
		}
		days += int64(dim)
	}
	days += int64(c.D - 1)
	return days*86400 + int64(c.H)*3600 + int64(c.Mi)*60 + int64(c.S)
}

func digits(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return b
}

// GenTime is YYYYMMDDhhmmssZ.
func (c Civil) GenTime() []byte {
	out := digits(c.Y, 4)
	for _, v := range []int{c.Mo, c.D, c.H, c.Mi, c.S} {
		out = append(out, digits(v, 2)...)
	}
	return append(out, 'Z')
}

// ParseGenTime accepts exactly the DER form.
func ParseGenTime(s []byte) (c Civil, ok bool) {
	if len(s) != 15 || s[14] != 'Z' {
		return
	}
	for _, b := range s[:14] {
		if b < '0' || b > '9' {
			return
		}
	}
	n := func(a, z int) int {
		v := 0
		for _, b := range s[a:z] {
			v = v*10 + int(b-'0')
		}
		return v
	}
	c = Civil{n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)}
	return c, c.Valid()
}
