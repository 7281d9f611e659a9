package ref

import "encoding/hex"

// The SM4 S-box is computed from its algebraic description: S(x) = A(I(A(x))), where
// A is the affine map with circulant matrix 0xA7 (rows) and constant 0xD3 over GF(2),
// and I is inversion in GF(2^8) modulo x^8+x^7+x^6+x^5+x^4+x^2+1.
var sm4S = func() (s [256]byte) {
	mul := func(a, b byte) byte {
		var r uint16
		for i := 0; i < 8; i++ {
			if b>>uint(i)&1 == 1 {
				r ^= uint16(a) << uint(i)
			}
		}
		for i := 15; i >= 8; i-- {
			if r>>uint(i)&1 == 1 {
				r ^= 0x1F5 << uint(i-8)
			}
		}
		return byte(r)
	}
	inv := func(a byte) byte {
		if a == 0 {
			return 0
		}
		for x := 1; x < 256; x++ {
			if mul(a, byte(x)) == 1 {
				return byte(x)
			}
		}
		panic("no inverse")
	}
	aff := func(x byte) byte {
		var y byte
		row := byte(0xA7)
		for i := 0; i < 8; i++ {
			p := row & x
			p ^= p >> 4
			p ^= p >> 2
			p ^= p >> 1
			y |= (p & 1) << uint(i)
			row = row<<1 | row>>7
		}
		return y ^ 0xD3
	}
	for x := 0; x < 256; x++ {
		s[x] = aff(inv(aff(byte(x))))
	}
	return
}()

func sm4tau(x uint32) uint32 {
	return uint32(sm4S[x>>24])<<24 | uint32(sm4S[x>>16&255])<<16 | uint32(sm4S[x>>8&255])<<8 | uint32(sm4S[x&255])
}

// SM4Keys is the key schedule of GB/T 32907-2016, 7.3.
func SM4Keys(key []byte) (rk [32]uint32) {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	var k [36]uint32
	for i := 0; i < 4; i++ {
		k[i] = be32(key[4*i:]) ^ fk[i]
	}
	for i := 0; i < 32; i++ {
		var ck uint32
		for j := 0; j < 4; j++ {
			ck = ck<<8 | uint32((4*i+j)*7%256)
		}
		b := sm4tau(k[i+1] ^ k[i+2] ^ k[i+3] ^ ck)
		k[i+4] = k[i] ^ b ^ rotl(b, 13) ^ rotl(b, 23)
		rk[i] = k[i+4]
	}
	return
}

func sm4crypt(rk *[32]uint32, in []byte, dec bool) (out [16]byte) {
	var x [36]uint32
	for i := 0; i < 4; i++ {
		x[i] = be32(in[4*i:])
	}
	for i := 0; i < 32; i++ {
		k := rk[i]
		if dec {
			k = rk[31-i]
		}
		b := sm4tau(x[i+1] ^ x[i+2] ^ x[i+3] ^ k)
		x[i+4] = x[i] ^ b ^ rotl(b, 2) ^ rotl(b, 10) ^ rotl(b, 18) ^ rotl(b, 24)
	}
	for i := 0; i < 4; i++ {
		put32(out[4*i:], x[35-i])
	}
	return
}

func SM4Encrypt(key, in []byte) [16]byte {
	rk := SM4Keys(key)
	return sm4crypt(&rk, in, false)
}

func SM4Decrypt(key, in []byte) [16]byte {
	rk := SM4Keys(key)
	return sm4crypt(&rk, in, true)
}

func SM4ECB(key, in []byte, dec bool) []byte {
	rk := SM4Keys(key)
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i += 16 {
		b := sm4crypt(&rk, in[i:i+16], dec)
		out = append(out, b[:]...)
	}
	return out
}

func SM4CBC(key, iv, in []byte, dec bool) []byte {
	rk := SM4Keys(key)
	out := make([]byte, 0, len(in))
	prev := append([]byte{}, iv...)
	for i := 0; i < len(in); i += 16 {
		var b [16]byte
		if dec {
			b = sm4crypt(&rk, in[i:i+16], true)
			for j := range b {
				b[j] ^= prev[j]
			}
			copy(prev, in[i:i+16])
		} else {
			for j := range b {
				b[j] = in[i+j] ^ prev[j]
			}
			b = sm4crypt(&rk, b[:], false)
			copy(prev, b[:])
		}
		out = append(out, b[:]...)
	}
	return out
}

func selfTestSM4(deep bool) {
	k := unhex("0123456789abcdeffedcba9876543210")
	c := SM4Encrypt(k, k)
	if hex.EncodeToString(c[:]) != "681edf34d206965e86b3e94f536e4246" {
		panic("reference self-test failed: SM4 example 1 " + hex.EncodeToString(c[:]))
	}
	p := SM4Decrypt(k, c[:])
	if string(p[:]) != string(k) {
		panic("reference self-test failed: SM4 decrypt")
	}
	if sm4S[0] != 0xd6 || sm4S[255] != 0x48 || sm4S[0x10] != 0x2b {
		panic("reference self-test failed: SM4 S-box")
	}
	if deep {
		rk := SM4Keys(k)
		x := append([]byte{}, k...)
		for i := 0; i < 1000000; i++ {
			b := sm4crypt(&rk, x, false)
			copy(x, b[:])
		}
		if hex.EncodeToString(x) != "595298c7c6fd271f0402f804c33d3f66" {
			panic("reference self-test failed: SM4 example 2")
		}
	}
}

func SelfTest() {
	selfTestHash()
	selfTestSM4(false)
	selfTestSM2()
}

func SelfTestDeep() {
	selfTestHash()
	selfTestSM4(true)
	selfTestSM2()
}

// SM4CK is the constant CK_i.
func SM4CK(i int) (ck uint32) {
	for j := 0; j < 4; j++ {
		ck = ck<<8 | uint32((4*i+j)*7%256)
	}
	return
}

// SM4KeyFrom returns the key for which the key schedule words K_i..K_i+3 are the given ones.
func SM4KeyFrom(i int, w [4]uint32) []byte {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	for ; i > 0; i-- {
		// w = K_i..K_i+3; K_i+3 = K_i-1 ^ T'(K_i ^ K_i+1 ^ K_i+2 ^ CK_i-1)
		b := sm4tau(w[0] ^ w[1] ^ w[2] ^ SM4CK(i-1))
		prev := w[3] ^ b ^ rotl(b, 13) ^ rotl(b, 23)
		w = [4]uint32{prev, w[0], w[1], w[2]}
	}
	key := make([]byte, 16)
	for j := range w {
		put32(key[4*j:], w[j]^fk[j])
	}
	return key
}

// SM4BlockFrom returns the block for which the state words X_i..X_i+3 under the key are the given ones.
func SM4BlockFrom(key []byte, dec bool, i int, w [4]uint32) []byte {
	rk := SM4Keys(key)
	for ; i > 0; i-- {
		k := rk[i-1]
		if dec {
			k = rk[32-i]
		}
		b := sm4tau(w[0] ^ w[1] ^ w[2] ^ k)
		prev := w[3] ^ b ^ rotl(b, 2) ^ rotl(b, 10) ^ rotl(b, 18) ^ rotl(b, 24)
		w = [4]uint32{prev, w[0], w[1], w[2]}
	}
	in := make([]byte, 16)
	for j := range w {
		put32(in[4*j:], w[j])
	}
	return in
}

// SM4RoundKey is the key of round i.
func SM4RoundKey(key []byte, dec bool, i int) uint32 {
	rk := SM4Keys(key)
	if dec {
		return rk[31-i]
	}
	return rk[i]
}

// SM4T is the round function's T, or the key schedule's T'.
func SM4T(x uint32, schedule bool) uint32 {
	b := sm4tau(x)
	if schedule {
		return b ^ rotl(b, 13) ^ rotl(b, 23)
	}
	return b ^ rotl(b, 2) ^ rotl(b, 10) ^ rotl(b, 18) ^ rotl(b, 24)
}
