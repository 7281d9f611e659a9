package props

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

var errScript = errors.New("scripted random source failed")

// script is a random source that yields given bytes and then fails.
type script struct {
	data  []byte
	pos   int
	err   error
	chunk int // longest single read, 0 = unlimited
	calls int
	dry   bool // a read was refused
	slice []([]byte)
}

func newScript(parts ...[]byte) *script {
	return &script{data: bytes.Join(parts, nil), err: errScript}
}

func (s *script) Read(p []byte) (int, error) {
	s.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		s.dry = true
		return 0, s.err
	}
	n := len(s.data) - s.pos
	if n > len(p) {
		n = len(p)
	}
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// withRand runs f with r as the system random source.
func withRand(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

func currentRand() io.Reader { return rand.Reader }

// prng is an endless deterministic source.
type prng struct{ x uint64 }

func (p *prng) Read(b []byte) (int, error) {
	for i := range b {
		p.x ^= p.x << 13
		p.x ^= p.x >> 7
		p.x ^= p.x << 17
		b[i] = byte(p.x >> 24)
	}
	return len(b), nil
}

func newPrng(seed int) *prng { return &prng{uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567} }

// implCurve converts a reference curve into the library's curve type.
func implCurve(c *ref.Curve) sm2.P256V1Curve {
	if !c.IsToy() {
		return sm2.GetSm2P256V1()
	}
	return sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{
		P: new(big.Int).Set(c.P), N: new(big.Int).Set(c.N), B: new(big.Int).Set(c.B),
		Gx: new(big.Int).Set(c.Gx), Gy: new(big.Int).Set(c.Gy), BitSize: c.Bits, Name: c.Name},
		A: new(big.Int).Set(c.A)}
}

func privOf(cv sm2.P256V1Curve, d *big.Int) *sm2.PrivateKey {
	return &sm2.PrivateKey{D: new(big.Int).Set(d), Curve: cv}
}

func pubOf(cv sm2.P256V1Curve, p ref.Point) *sm2.PublicKey {
	if p.Inf {
		return &sm2.PublicKey{X: new(big.Int), Y: new(big.Int), Curve: cv}
	}
	return &sm2.PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Curve: cv}
}

// The toy curves on which the whole scheme is enumerated. Found by deterministic search; all have
// prime order and a = -3, as the arithmetic of crypto/elliptic demands.
type toySet struct {
	name string
	c    *ref.Curve
	ic   sm2.P256V1Curve
}

var toys = map[string]*toySet{}

func toy(name string) *toySet {
	if t := toys[name]; t != nil {
		return t
	}
	var c *ref.Curve
	sameBits := func(p, n int) bool { return big.NewInt(int64(p)).BitLen() == big.NewInt(int64(n)).BitLen() }
	switch name {
	case "four bits":
		c = ref.NewToy(name, 11, func(p, n int) bool { return n == 7 && p == 11 })
	case "five bits n<p":
		c = ref.NewToy(name, 23, func(p, n int) bool { return n == 17 && p == 23 })
		c.Bits = 6 // the key exchange wants an even size
	case "five bits n>p":
		c = ref.NewToy(name, 17, func(p, n int) bool { return n == 23 && p == 17 })
		c.Bits = 6
	case "n<p tiny":
		c = ref.NewToy(name, 17, func(p, n int) bool { return n < p && n > 11 })
	case "n>p tiny":
		c = ref.NewToy(name, 17, func(p, n int) bool { return n > p+2 && sameBits(p, n) })
	case "n<p small":
		c = ref.NewToy(name, 53, func(p, n int) bool { return n < p-5 && sameBits(p, n) && p < 64 })
	case "n>p small":
		c = ref.NewToy(name, 37, func(p, n int) bool { return n > p+5 && sameBits(p, n) && p < 64 })
	case "n<p byte":
		c = ref.NewToy(name, 211, func(p, n int) bool { return n < p-8 && sameBits(p, n) && p < 256 })
	case "n>p byte":
		c = ref.NewToy(name, 211, func(p, n int) bool { return n > p+8 && n < 256 })
	case "ten bits":
		c = ref.NewToy(name, 811, func(p, n int) bool { return n < p && sameBits(p, n) })
	case "two bytes":
		c = ref.NewToy(name, 40009, func(p, n int) bool { return sameBits(p, n) })
	case "nine bits":
		c = ref.NewToy(name, 331, func(p, n int) bool { return n > p && sameBits(p, n) })
	default:
		panic(name)
	}
	t := &toySet{name, c, implCurve(c)}
	toys[name] = t
	return t
}

func (s *toySet) String() string {
	return fmt.Sprintf("curve y^2=x^3-3x+%v mod %v, order %v", s.c.B, s.c.P, s.c.N)
}

var realSet = &toySet{"SM2", ref.SM2, sm2.GetSm2P256V1()}

// nonceBytes are the random bytes from which the present code draws exactly nonce k; the checks never
// rely on this mapping, it only steers them to interesting nonces.
func nonceBytes(c *ref.Curve, k *big.Int) []byte {
	n := (c.N.BitLen() + 7) / 8
	b := k.Bytes()
	if len(b) > n {
		return b
	}
	return append(make([]byte, n-len(b)), b...)
}

func big10(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return v
}

func bint(v int64) *big.Int { return big.NewInt(v) }

func sub(a *big.Int, v int64) *big.Int { return new(big.Int).Sub(a, big.NewInt(v)) }

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// specialScalars are multiples of G whose coordinates have leading zero bytes (k: x zeros, y zeros).
var specialScalars = []int64{107, 119, 206, 327, 659, 1270, 17883, 60190, 193197, 252436, 278982, 304071}

// realScalars is the list of boundary private keys and nonces on the SM2 curve.
func realScalars() []*big.Int {
	n := ref.SM2.N
	s := []*big.Int{bint(1), bint(2), bint(3), sub(n, 2), sub(n, 3), sub(n, 4), new(big.Int).Rsh(n, 1), new(big.Int).Add(new(big.Int).Rsh(n, 1), bint(1))}
	for _, v := range specialScalars {
		s = append(s, bint(v), sub(n, v))
	}
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 191, 192, 247, 248, 254, 255} {
		s = append(s, pow2(k), sub(pow2(k), 1))
	}
	for i := 0; i < 6; i++ {
		b := pat(i%5, 32)
		b[0] &= 0x7f >> uint(i)
		b[31] |= byte(2 + i)
		v := new(big.Int).SetBytes(b)
		s = append(s, v.Mod(v, sub(n, 3)).Add(v, bint(1)))
	}
	s = append(s, hexBig("81EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230029"),
		hexBig("785129917D45A9EA5437A59356B82338EAADDA6CEB199088F14AE10DEFA229B5"),
		hexBig("00EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230000"))
	return s
}

func hexBig(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// msgsByResidue finds, for every residue of e modulo n, a message hashing to it under the key and id.
func msgsByResidue(c *ref.Curve, pub ref.Point, id []byte) [][]byte {
	n := c.ToyN()
	out := make([][]byte, n)
	left := n
	for i := 0; left > 0; i++ {
		m := []byte(fmt.Sprint(i))
		e := c.E(pub, id, m)
		r := int(new(big.Int).Mod(e, c.N).Int64())
		if out[r] == nil {
			out[r] = m
			left--
		}
	}
	return out
}

// frozenKey remembers a key's values to notice modification.
type frozenKey struct {
	pri *sm2.PrivateKey
	pub *sm2.PublicKey
	a   []*big.Int
	p   []*big.Int
}

func curveInts(c sm2.P256V1Curve) []*big.Int {
	return []*big.Int{c.A, c.P, c.N, c.B, c.Gx, c.Gy}
}

func freeze(pri *sm2.PrivateKey, pub *sm2.PublicKey) *frozenKey {
	f := &frozenKey{pri: pri, pub: pub}
	if pri != nil {
		f.p = append(f.p, pri.D)
		f.p = append(f.p, curveInts(pri.Curve)...)
	}
	if pub != nil {
		f.p = append(f.p, pub.X, pub.Y)
		f.p = append(f.p, curveInts(pub.Curve)...)
	}
	for _, v := range f.p {
		f.a = append(f.a, new(big.Int).Set(v))
	}
	return f
}

func (f *frozenKey) check(t *eng.T) {
	var now []*big.Int
	if f.pri != nil {
		now = append(now, f.pri.D)
		now = append(now, curveInts(f.pri.Curve)...)
	}
	if f.pub != nil {
		now = append(now, f.pub.X, f.pub.Y)
		now = append(now, curveInts(f.pub.Curve)...)
	}
	for i := range now {
		if now[i] != f.p[i] || now[i].Cmp(f.a[i]) != 0 {
			t.Failf("a key or curve given as argument was modified (component %d is now %v, was %v)", i, now[i], f.a[i])
		}
	}
}

// rngTree explores every behaviour of a random source that answers bytes: run is called with scripts of
// growing length; when it ran dry the script is extended by every possible byte, up to maxDraws refills.
// run must return whether it consumed the script completely and asked for more.
func rngTree(prefix []byte, width, depth int, run func(s []byte) (dry bool)) (runs, cut int) {
	buf := make([]byte, len(prefix)+width)
	copy(buf, prefix)
	total := pow(256, width)
	for v := 0; v < total; v++ {
		x := v
		for k := width - 1; k >= 0; k-- {
			buf[len(prefix)+k] = byte(x)
			x >>= 8
		}
		runs++
		if run(buf) {
			if depth > 1 {
				r, c := rngTree(buf, width, depth-1, run)
				runs, cut = runs+r, cut+c
			} else {
				cut++
			}
		}
	}
	return
}

var msgCache = map[string][][]byte{}

// msgsCached is msgsByResidue for the default id and the public key of d.
func msgsCached(ts *toySet, d int) [][]byte {
	key := fmt.Sprint(ts.name, d)
	if m := msgCache[key]; m != nil {
		return m
	}
	m := msgsByResidue(ts.c, ts.c.ToyPoint(d), nil)
	msgCache[key] = m
	return m
}
