// Package ref holds the reference models: the standards written down as plainly as possible,
// independent of the code under test and of its shortcuts.
package ref

import "encoding/hex"

func rotl(x uint32, n uint) uint32 { n %= 32; return x<<n | x>>(32-n) }

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func put32(b []byte, v uint32) {
	b[0], b[1], b[2], b[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}

var sm3IV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// sm3cf is the compression function of GM/T 0004-2012, 5.3.
func sm3cf(v *[8]uint32, b []byte) {
	var w [68]uint32
	for j := 0; j < 16; j++ {
		w[j] = be32(b[4*j:])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ rotl(w[j-3], 15)
		w[j] = x ^ rotl(x, 15) ^ rotl(x, 23) ^ rotl(w[j-13], 7) ^ w[j-6]
	}
	a, bb, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		var t, ff, gg uint32
		if j < 16 {
			t = 0x79cc4519
			ff = a ^ bb ^ c
			gg = e ^ f ^ g
		} else {
			t = 0x7a879d8a
			ff = a&bb | a&c | bb&c
			gg = e&f | ^e&g
		}
		ss1 := rotl(rotl(a, 12)+e+rotl(t, uint(j)), 7)
		ss2 := ss1 ^ rotl(a, 12)
		tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		d, c, bb, a = c, rotl(bb, 9), a, tt1
		h, g, f, e = g, rotl(f, 19), e, tt2^rotl(tt2, 9)^rotl(tt2, 17)
	}
	v[0] ^= a
	v[1] ^= bb
	v[2] ^= c
	v[3] ^= d
	v[4] ^= e
	v[5] ^= f
	v[6] ^= g
	v[7] ^= h
}

// SM3State is a streaming reference for very long messages.
type SM3State struct {
	v    [8]uint32
	tail []byte
	n    uint64
}

func NewSM3() *SM3State { return &SM3State{v: sm3IV} }

func (s *SM3State) Write(p []byte) {
	s.n += uint64(len(p))
	if len(s.tail) > 0 {
		k := 64 - len(s.tail)
		if k > len(p) {
			s.tail = append(s.tail, p...)
			return
		}
		s.tail = append(s.tail, p[:k]...)
		p = p[k:]
		sm3cf(&s.v, s.tail)
		s.tail = s.tail[:0]
	}
	for len(p) >= 64 {
		sm3cf(&s.v, p[:64])
		p = p[64:]
	}
	s.tail = append(s.tail, p...)
}

func (s *SM3State) Sum() [32]byte {
	v := s.v
	// 5.2: append 1, zeros until length is 448 mod 512, then the 64-bit length
	m := append([]byte{}, s.tail...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	bits := s.n * 8
	for k := 7; k >= 0; k-- {
		m = append(m, byte(bits>>(8*uint(k))))
	}
	for len(m) > 0 {
		sm3cf(&v, m[:64])
		m = m[64:]
	}
	var out [32]byte
	for i := range v {
		put32(out[4*i:], v[i])
	}
	return out
}

// SM3 hashes the concatenation of the parts.
func SM3(parts ...[]byte) [32]byte {
	s := SM3State{v: sm3IV}
	for _, p := range parts {
		s.Write(p)
	}
	return s.Sum()
}

// HMAC is RFC 2104 over SM3 with B = 64.
func HMAC(key, msg []byte) [32]byte {
	k := make([]byte, 64)
	if len(key) > 64 {
		h := SM3(key)
		copy(k, h[:])
	} else {
		copy(k, key)
	}
	ip, op := make([]byte, 64), make([]byte, 64)
	for i := range k {
		ip[i], op[i] = k[i]^0x36, k[i]^0x5c
	}
	in := SM3(ip, msg)
	return SM3(op, in[:])
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func selfTestHash() {
	check := func(ok bool, what string) {
		if !ok {
			panic("reference self-test failed: " + what)
		}
	}
	h := SM3([]byte("abc"))
	check(hex.EncodeToString(h[:]) == "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0", "SM3 A.1")
	m := []byte{}
	for i := 0; i < 16; i++ {
		m = append(m, "abcd"...)
	}
	h = SM3(m)
	check(hex.EncodeToString(h[:]) == "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732", "SM3 A.2")
	h = SM3()
	check(hex.EncodeToString(h[:]) == "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b", "SM3 empty")
}
