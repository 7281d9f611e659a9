package ref

import "math/big"

// Point is an affine point; Inf marks the neutral element.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

func (p Point) Equal(q Point) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// Curve is y^2 = x^3 + ax + b over GF(p) with a base point of prime order n.
type Curve struct {
	Name               string
	P, A, B, Gx, Gy, N *big.Int
	Bits               int
	toy                *toyTable
	gTable             [][]Point // gTable[i][j] = j * 16^i * G (real curve only)
}

// toyTable tabulates every point of a tiny curve.
type toyTable struct {
	p, n int
	x, y []int       // x[k], y[k] are the coordinates of k*G for k = 1..n-1
	log  map[int]int // x*p+y -> k
}

func bi(v int) *big.Int { return big.NewInt(int64(v)) }

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// SM2 is the recommended curve of GM/T 0003.5-2012.
var SM2 = func() *Curve {
	c := &Curve{Name: "SM2",
		P:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
		A:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC"),
		B:    hexInt("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"),
		N:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
		Gx:   hexInt("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"),
		Gy:   hexInt("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"),
		Bits: 256,
	}
	return c
}()

func (c *Curve) G() Point    { return Point{X: c.Gx, Y: c.Gy} }
func (c *Curve) IsToy() bool { return c.toy != nil }

// On reports whether (x, y) are reduced coordinates of a finite point of the curve.
func (c *Curve) On(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	l.Sub(l, r)
	return l.Mod(l, c.P).Sign() == 0
}

func (c *Curve) Neg(p Point) Point {
	if p.Inf {
		return p
	}
	y := new(big.Int).Neg(p.Y)
	return Point{X: p.X, Y: y.Mod(y, c.P)}
}

// Add is the textbook affine addition law.
func (c *Curve) Add(p, q Point) Point {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, c.P).Sign() == 0 {
			return Point{Inf: true}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3)).Add(num, c.A)
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	den.Mod(den, c.P)
	den.ModInverse(den, c.P)
	l := num.Mul(num, den)
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X).Sub(x, q.X).Mod(x, c.P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l).Sub(y, p.Y).Mod(y, c.P)
	return Point{X: x, Y: y}
}

// Mul computes k*p for any integer k.
func (c *Curve) Mul(k *big.Int, p Point) Point {
	if p.Inf {
		return p
	}
	k = new(big.Int).Mod(k, c.N)
	if c.toy != nil {
		t := c.toy
		e := t.log[int(p.X.Int64())*t.p+int(p.Y.Int64())]
		return c.ToyPoint(int(k.Int64()) * e % t.n)
	}
	return c.jacMul(k, p)
}

// MulG computes k*G.
func (c *Curve) MulG(k *big.Int) Point {
	k = new(big.Int).Mod(k, c.N)
	if c.toy != nil {
		return c.ToyPoint(int(k.Int64()))
	}
	if c.gTable == nil {
		b := c.G()
		for i := 0; i < (c.N.BitLen()+3)/4; i++ {
			row := []Point{{Inf: true}}
			for j := 1; j < 16; j++ {
				row = append(row, c.Add(row[j-1], b))
			}
			c.gTable = append(c.gTable, row)
			b = c.Add(row[15], b)
		}
	}
	var acc jac
	acc.inf = true
	for i := range c.gTable {
		d := uint(0)
		for j := 0; j < 4; j++ {
			d |= k.Bit(4*i+j) << uint(j)
		}
		if d != 0 {
			acc = c.jacAddAffine(acc, c.gTable[i][d])
		}
	}
	return c.affine(acc)
}

// ---- Jacobian coordinates for the 256-bit curve ----

type jac struct {
	x, y, z *big.Int
	inf     bool
}

func (c *Curve) m(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, c.P)
}

func (c *Curve) jacDouble(p jac) jac {
	if p.inf || p.y.Sign() == 0 {
		return jac{inf: true}
	}
	yy := c.m(p.y, p.y)
	s := c.m(p.x, yy)
	s.Lsh(s, 2)
	z2 := c.m(p.z, p.z)
	mm := c.m(p.x, p.x)
	mm.Mul(mm, big.NewInt(3)).Add(mm, c.m(c.A, c.m(z2, z2)))
	mm.Mod(mm, c.P)
	x := c.m(mm, mm)
	x.Sub(x, s).Sub(x, s).Mod(x, c.P)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, mm)
	y4 := c.m(yy, yy)
	y.Sub(y, y4.Lsh(y4, 3)).Mod(y, c.P)
	z := new(big.Int).Lsh(p.y, 1)
	z.Mul(z, p.z).Mod(z, c.P)
	return jac{x, y, z, false}
}

func (c *Curve) jacAddAffine(p jac, q Point) jac {
	if q.Inf {
		return p
	}
	if p.inf {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1), false}
	}
	z2 := c.m(p.z, p.z)
	u2 := c.m(q.X, z2)
	s2 := c.m(q.Y, c.m(z2, p.z))
	h := new(big.Int).Sub(u2, p.x)
	h.Mod(h, c.P)
	r := new(big.Int).Sub(s2, p.y)
	r.Mod(r, c.P)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.jacDouble(p)
		}
		return jac{inf: true}
	}
	h2 := c.m(h, h)
	h3 := c.m(h2, h)
	v := c.m(p.x, h2)
	x := c.m(r, r)
	x.Sub(x, h3).Sub(x, v).Sub(x, v).Mod(x, c.P)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r).Sub(y, c.m(p.y, h3)).Mod(y, c.P)
	return jac{x, y, c.m(p.z, h), false}
}

func (c *Curve) affine(p jac) Point {
	if p.inf {
		return Point{Inf: true}
	}
	zi := new(big.Int).ModInverse(p.z, c.P)
	z2 := c.m(zi, zi)
	return Point{X: c.m(p.x, z2), Y: c.m(p.y, c.m(z2, zi))}
}

func (c *Curve) jacMul(k *big.Int, p Point) Point {
	tab := []Point{{Inf: true}}
	for j := 1; j < 16; j++ {
		tab = append(tab, c.Add(tab[j-1], p))
	}
	acc := jac{inf: true}
	for i := (k.BitLen()+3)/4 - 1; i >= 0; i-- {
		for j := 0; j < 4; j++ {
			acc = c.jacDouble(acc)
		}
		d := uint(0)
		for j := 0; j < 4; j++ {
			d |= k.Bit(4*i+j) << uint(j)
		}
		if d != 0 {
			acc = c.jacAddAffine(acc, tab[d])
		}
	}
	return c.affine(acc)
}

// ---- toy curves ----

// ToyPoint returns k*G from the table.
func (c *Curve) ToyPoint(k int) Point {
	k %= c.toy.n
	if k == 0 {
		return Point{Inf: true}
	}
	return Point{X: bi(c.toy.x[k]), Y: bi(c.toy.y[k])}
}

func (c *Curve) ToyN() int { return c.toy.n }
func (c *Curve) ToyP() int { return c.toy.p }

// Log returns the discrete logarithm of a toy point, or -1.
func (c *Curve) Log(x, y *big.Int) int {
	if !x.IsInt64() || !y.IsInt64() || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return -1
	}
	if k, ok := c.toy.log[int(x.Int64())*c.toy.p+int(y.Int64())]; ok {
		return k
	}
	return -1
}

func isPrime(n int) bool { return bi(n).ProbablyPrime(20) }

// NewToy searches, deterministically, the first curve y^2 = x^3 - 3x + b of prime order with
// p >= pmin satisfying accept(p, n).
func NewToy(name string, pmin int, accept func(p, n int) bool) *Curve {
	for p := pmin; ; p++ {
		if !isPrime(p) || p < 5 {
			continue
		}
		roots := make([][]int, p)
		for y := 0; y < p; y++ {
			roots[y*y%p] = append(roots[y*y%p], y)
		}
		for b := 1; b < p; b++ {
			// 4a^3 + 27b^2 = -108 + 27 b^2
			if d := ((27*b%p*b-108)%p + p) % p; d == 0 {
				continue
			}
			n := 1
			gx, gy := -1, -1
			for x := 0; x < p; x++ {
				f := ((x*x%p*x-3*x+b)%p + p) % p
				n += len(roots[f])
				if gx < 0 && len(roots[f]) == 2 && x > 0 {
					gx, gy = x, roots[f][0]
				}
			}
			if !isPrime(n) || n == p || !accept(p, n) || gx < 0 {
				continue
			}
			c := &Curve{Name: name, P: bi(p), A: bi(p - 3), B: bi(b), Gx: bi(gx), Gy: bi(gy), N: bi(n), Bits: bi(p).BitLen()}
			t := &toyTable{p: p, n: n, x: make([]int, n), y: make([]int, n), log: map[int]int{}}
			// affine addition in machine integers
			inv := func(a int) int {
				return int(new(big.Int).ModInverse(bi(a), c.P).Int64())
			}
			x, y := gx, gy
			for k := 1; k < n; k++ {
				t.x[k], t.y[k] = x, y
				t.log[x*p+y] = k
				if k == n-1 {
					break
				}
				var num, den int
				if x == gx && y == gy {
					num, den = 3*x*x-3, 2*y
				} else {
					num, den = gy-y, gx-x
				}
				num, den = (num%p+p)%p, (den%p+p)%p
				l := num * inv(den) % p
				x3 := ((l*l-x-gx)%p + p) % p
				y3 := ((l*(x-x3)-y)%p + p) % p
				x, y = x3, y3
			}
			if len(t.log) != n-1 {
				panic("toy curve: the base point does not generate the group")
			}
			c.toy = t
			return c
		}
	}
}

// SolveY returns a y with (x, y) on the curve, if there is one (p = 3 mod 4).
func (c *Curve) SolveY(x *big.Int) (*big.Int, bool) {
	w := new(big.Int).Exp(x, big.NewInt(3), c.P)
	w.Add(w, new(big.Int).Mul(c.A, x))
	w.Add(w, c.B).Mod(w, c.P)
	e := new(big.Int).Add(c.P, big.NewInt(1))
	y := new(big.Int).Exp(w, e.Rsh(e, 2), c.P)
	return y, c.On(x, y)
}
