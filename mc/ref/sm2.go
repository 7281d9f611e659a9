package ref

import (
	"math/big"
)

// B32 is the fixed-length (32 bytes) big-endian form of a coordinate.
func B32(v *big.Int) []byte {
	b := v.Bytes()
	if len(b) > 32 {
		return b
	}
	return append(make([]byte, 32-len(b)), b...)
}

// CoordLen is the number of bytes of one coordinate in a point encoding.
func (c *Curve) CoordLen() int { return (c.Bits + 7) / 8 }

func fixed(v *big.Int, n int) []byte {
	b := v.Bytes()
	return append(make([]byte, n-len(b)), b...)
}

// EncodePoint is the uncompressed encoding.
func (c *Curve) EncodePoint(p Point) []byte {
	n := c.CoordLen()
	out := []byte{4}
	out = append(out, fixed(p.X, n)...)
	return append(out, fixed(p.Y, n)...)
}

var DefaultID = []byte("1234567812345678")

// MaxID is the longest identity whose bit length fits 16 bits.
const MaxID = 8191

// Z is the identity hash of GM/T 0003.2, 5.5. A nil id is hashed as empty; callers apply defaults.
func (c *Curve) Z(pub Point, id []byte) [32]byte {
	bits := len(id) * 8
	return SM3([]byte{byte(bits >> 8), byte(bits)}, id, B32(c.A), B32(c.B), B32(c.Gx), B32(c.Gy), B32(pub.X), B32(pub.Y))
}

// E is the message hash of the signature scheme.
func (c *Curve) E(pub Point, id, msg []byte) *big.Int {
	if id == nil {
		id = DefaultID
	}
	z := c.Z(pub, id)
	h := SM3(z[:], msg)
	return new(big.Int).SetBytes(h[:])
}

// SignK signs with a given nonce; ok is false when the standard demands another nonce.
func (c *Curve) SignK(d, e, k *big.Int) (r, s *big.Int, ok bool) {
	if k.Sign() <= 0 || k.Cmp(c.N) >= 0 {
		return nil, nil, false
	}
	p := c.MulG(k)
	r = new(big.Int).Add(e, p.X)
	r.Mod(r, c.N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(c.N) == 0 {
		return nil, nil, false
	}
	inv := new(big.Int).Add(d, big.NewInt(1))
	inv.ModInverse(inv, c.N)
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s).Mul(s, inv).Mod(s, c.N)
	return r, s, s.Sign() != 0
}

// Nonce recovers k from a signature: k = s(1+d) + rd.
func (c *Curve) Nonce(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Add(d, big.NewInt(1))
	k.Mul(k, s).Add(k, new(big.Int).Mul(r, d))
	return k.Mod(k, c.N)
}

// ValidSig says why (r, s) is not a signature of e by d that the standard can produce, or "".
func (c *Curve) ValidSig(d, e, r, s *big.Int) string {
	if r.Sign() <= 0 || r.Cmp(c.N) >= 0 {
		return "r out of range"
	}
	if s.Sign() <= 0 || s.Cmp(c.N) >= 0 {
		return "s out of range"
	}
	k := c.Nonce(d, r, s)
	if k.Sign() == 0 {
		return "nonce is zero"
	}
	if t := new(big.Int).Add(r, k); t.Cmp(c.N) == 0 {
		return "r + k = n"
	}
	p := c.MulG(k)
	x := new(big.Int).Add(e, p.X)
	if x.Mod(x, c.N).Cmp(r) != 0 {
		return "r is not e + x1"
	}
	return ""
}

// Verify decides validity of (r, s) as in GM/T 0003.2, 7.1.
func (c *Curve) Verify(x, y *big.Int, id, msg []byte, r, s *big.Int) bool {
	if !c.On(x, y) || len(id) > MaxID {
		return false
	}
	pub := Point{X: x, Y: y}
	return c.VerifyE(pub, c.E(pub, id, msg), r, s)
}

func (c *Curve) VerifyE(pub Point, e, r, s *big.Int) bool {
	if r.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Sign() <= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	if t.Mod(t, c.N).Sign() == 0 {
		return false
	}
	p := c.Add(c.MulG(s), c.Mul(t, pub))
	if p.Inf {
		return false
	}
	x := new(big.Int).Add(e, p.X)
	return x.Mod(x, c.N).Cmp(r) == 0
}

// KDF of GM/T 0003.4, 5.4.3, for n bytes.
func KDF(n int, parts ...[]byte) []byte {
	var z []byte
	for _, p := range parts {
		z = append(z, p...)
	}
	out := make([]byte, 0, n+32)
	for ct := uint32(1); len(out) < n; ct++ {
		var b [4]byte
		put32(b[:], ct)
		h := SM3(z, b[:])
		out = append(out, h[:]...)
	}
	return out[:n]
}

// EncK encrypts with a given nonce. ok is false when the key stream is all zero for a nonempty message.
func (c *Curve) EncK(pub Point, msg []byte, k *big.Int, c1c2c3 bool) (ct []byte, ok bool) {
	c1 := c.MulG(k)
	s := c.Mul(k, pub)
	ks := KDF(len(msg), B32(s.X), B32(s.Y))
	zero := len(msg) > 0
	c2 := make([]byte, len(msg))
	for i := range ks {
		if ks[i] != 0 {
			zero = false
		}
		c2[i] = msg[i] ^ ks[i]
	}
	c3 := SM3(B32(s.X), msg, B32(s.Y))
	ct = c.EncodePoint(c1)
	if c1c2c3 {
		ct = append(ct, c2...)
		ct = append(ct, c3[:]...)
	} else {
		ct = append(ct, c3[:]...)
		ct = append(ct, c2...)
	}
	return ct, !zero
}

// Dec decrypts, or reports that ct is no ciphertext for d.
func (c *Curve) Dec(d *big.Int, ct []byte, c1c2c3 bool) ([]byte, bool) {
	n := c.CoordLen()
	if len(ct) < 1+2*n+32 || ct[0] != 4 {
		return nil, false
	}
	x, y := new(big.Int).SetBytes(ct[1:1+n]), new(big.Int).SetBytes(ct[1+n:1+2*n])
	if !c.On(x, y) {
		return nil, false
	}
	s := c.Mul(d, Point{X: x, Y: y})
	if s.Inf {
		return nil, false
	}
	rest := ct[1+2*n:]
	var c2, c3 []byte
	if c1c2c3 {
		c2, c3 = rest[:len(rest)-32], rest[len(rest)-32:]
	} else {
		c3, c2 = rest[:32], rest[32:]
	}
	ks := KDF(len(c2), B32(s.X), B32(s.Y))
	m := make([]byte, len(c2))
	for i := range m {
		m[i] = c2[i] ^ ks[i]
	}
	h := SM3(B32(s.X), m, B32(s.Y))
	if string(h[:]) != string(c3) {
		return nil, false
	}
	return m, true
}

// Exchange is GM/T 0003.3, 6.1, for one side: it returns the key material of ceil(bits/8) bytes and
// the two tags S1 (SB) and S2 (SA), or ok = false when the shared point is at infinity.
type ExchangeInput struct {
	C        *Curve
	DA, RA   *big.Int // initiator's static and ephemeral private keys
	DB, RB   *big.Int // responder's
	IDA, IDB []byte
	Bits     int
}

type ExchangeOutput struct {
	Key, S1, S2 []byte
	U           Point
}

func (c *Curve) xbar(x *big.Int) *big.Int {
	// w = ceil(ceil(log2 n)/2) - 1; xbar = 2^w + (x & (2^w - 1))
	w := uint((c.N.BitLen()+1)/2 - 1)
	m := new(big.Int).Lsh(big.NewInt(1), w)
	r := new(big.Int).Mod(x, m)
	return r.Add(r, m)
}

// SharedPoint computes U = [tA](PB + [x2bar]RB).
func (c *Curve) SharedPoint(d, r *big.Int, ownR, pub, eph Point) Point {
	t := new(big.Int).Mul(c.xbar(ownR.X), r)
	t.Add(t, d).Mod(t, c.N)
	return c.Mul(t, c.Add(pub, c.Mul(c.xbar(eph.X), eph)))
}

func (in ExchangeInput) Run() (out ExchangeOutput, ok bool) {
	c := in.C
	pa, pb, ra, rb := c.MulG(in.DA), c.MulG(in.DB), c.MulG(in.RA), c.MulG(in.RB)
	u := c.SharedPoint(in.DA, in.RA, ra, pb, rb)
	v := c.SharedPoint(in.DB, in.RB, rb, pa, ra)
	if !u.Equal(v) {
		panic("reference key exchange: the two sides disagree")
	}
	if u.Inf {
		return out, false
	}
	return c.ExchangeTail(u, pa, pb, ra, rb, in.IDA, in.IDB, in.Bits), true
}

// ExchangeTail derives key and tags from the shared point.
func (c *Curve) ExchangeTail(u, pa, pb, ra, rb Point, ida, idb []byte, bits int) (out ExchangeOutput) {
	za, zb := c.Z(pa, ida), c.Z(pb, idb)
	out.U = u
	out.Key = KDF((bits+7)/8, B32(u.X), B32(u.Y), za[:], zb[:])
	inner := SM3(B32(u.X), za[:], zb[:], B32(ra.X), B32(ra.Y), B32(rb.X), B32(rb.Y))
	s1 := SM3([]byte{2}, B32(u.Y), inner[:])
	s2 := SM3([]byte{3}, B32(u.Y), inner[:])
	out.S1, out.S2 = s1[:], s2[:]
	return out
}

// ---- DER ----

// DERLen encodes a definite length minimally.
func DERLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for v := n; v > 0; v >>= 8 {
		b = append([]byte{byte(v)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// TLV builds one element.
func TLV(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := append([]byte{tag}, DERLen(n)...)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// DERIntBytes is the two's complement content of an INTEGER.
func DERIntBytes(v *big.Int) []byte {
	switch v.Sign() {
	case 0:
		return []byte{0}
	case 1:
		b := v.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	// the smallest k with v >= -2^(8k-1)
	k0 := uint(1)
	if l := v.BitLen() / 8; l > 1 {
		k0 = uint(l)
	}
	for k := k0; ; k++ { // fewer than BitLen/8 octets never suffice
		lim := new(big.Int).Lsh(big.NewInt(1), 8*k-1)
		if new(big.Int).Neg(lim).Cmp(v) <= 0 {
			m := new(big.Int).Lsh(big.NewInt(1), 8*k)
			m.Add(m, v)
			return fixed(m, int(k))
		}
	}
}

func DERInt(v *big.Int) []byte { return TLV(2, DERIntBytes(v)) }

// Elem parses one strictly DER element (low tag numbers, minimal length of at most four octets).
func Elem(in []byte) (tag byte, content, whole, rest []byte, ok bool) {
	if len(in) < 2 || in[0]&0x1f == 0x1f {
		return
	}
	tag = in[0]
	n, hdr := int64(in[1]), 2
	if in[1] >= 0x80 {
		k := int(in[1] & 0x7f)
		if k == 0 || k > 4 || len(in) < 2+k {
			return 0, nil, nil, nil, false
		}
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int64(in[2+i])
		}
		if n < 128 || in[2] == 0 {
			return 0, nil, nil, nil, false
		}
		hdr += k
	}
	if int64(len(in)-hdr) < n {
		return 0, nil, nil, nil, false
	}
	e := hdr + int(n)
	return tag, in[hdr:e], in[:e], in[e:], true
}

// ParseInt decodes the content of an INTEGER if it is minimal.
func ParseInt(b []byte) (*big.Int, bool) {
	if len(b) == 0 {
		return nil, false
	}
	if len(b) > 1 && (b[0] == 0 && b[1] < 0x80 || b[0] == 0xff && b[1] >= 0x80) {
		return nil, false
	}
	v := new(big.Int).SetBytes(b)
	if b[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v, true
}

// ParseSig accepts exactly SEQUENCE { INTEGER r, INTEGER s } in DER.
func ParseSig(in []byte) (r, s *big.Int, ok bool) {
	tag, c, _, rest, ok := Elem(in)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return nil, nil, false
	}
	var v [2]*big.Int
	for i := range v {
		tag, ic, _, r, ok := Elem(c)
		if !ok || tag != 2 {
			return nil, nil, false
		}
		if v[i], ok = ParseInt(ic); !ok {
			return nil, nil, false
		}
		c = r
	}
	return v[0], v[1], len(c) == 0
}

func EncodeSig(r, s *big.Int) []byte { return TLV(0x30, DERInt(r), DERInt(s)) }

// EncodeCipher is the GM/T 0009 SEQUENCE of a raw ciphertext on the SM2 curve.
func EncodeCipher(raw []byte, c1c2c3 bool) ([]byte, bool) {
	if len(raw) < 97 || raw[0] != 4 {
		return nil, false
	}
	x, y := new(big.Int).SetBytes(raw[1:33]), new(big.Int).SetBytes(raw[33:65])
	rest := raw[65:]
	var a, b []byte
	if c1c2c3 {
		a, b = rest[:len(rest)-32], rest[len(rest)-32:]
	} else {
		a, b = rest[:32], rest[32:]
	}
	return TLV(0x30, DERInt(x), DERInt(y), TLV(4, a), TLV(4, b)), true
}

// DecodeCipher is the exact inverse of EncodeCipher.
func DecodeCipher(in []byte, c1c2c3 bool) ([]byte, bool) {
	tag, c, _, rest, ok := Elem(in)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return nil, false
	}
	raw := []byte{4}
	for i := 0; i < 2; i++ {
		tag, ic, _, r, ok := Elem(c)
		if !ok || tag != 2 {
			return nil, false
		}
		v, ok := ParseInt(ic)
		if !ok || v.Sign() < 0 || v.BitLen() > 256 {
			return nil, false
		}
		raw = append(raw, B32(v)...)
		c = r
	}
	for i := 0; i < 2; i++ {
		tag, oc, _, r, ok := Elem(c)
		if !ok || tag != 4 {
			return nil, false
		}
		if (i == 1) == c1c2c3 && len(oc) != 32 {
			return nil, false
		}
		raw = append(raw, oc...)
		c = r
	}
	return raw, len(c) == 0
}
