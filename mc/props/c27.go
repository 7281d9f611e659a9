package props

import (
	"crypto/elliptic"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/util"

	"verif/mc/eng"
	"verif/mc/ref"
)

// C27: the curve, its group operations and the point helpers.

func init() {
	eng.Register(&eng.Prop{ID: "C27", Init: selfTest, Spaces: c27,
		Assumptions: []string{
			"points given to the group operations are on the curve or (0, 0), which stands for infinity as in crypto/elliptic",
			"small curves have a = -3 and prime order"}})
}

// xy are the coordinates the library uses for a point.
func xy(p ref.Point) (x, y *big.Int) {
	if p.Inf {
		return new(big.Int), new(big.Int)
	}
	return cloneBig(p.X), cloneBig(p.Y)
}

// groupOp runs one operation on copies of its arguments and compares its result and what it leaves of the arguments.
func groupOp(t *eng.T, what string, want ref.Point, args []*big.Int, k []byte, f func(a []*big.Int, k []byte) (x, y *big.Int)) {
	a := make([]*big.Int, len(args))
	for i, v := range args {
		a[i] = cloneBig(v)
	}
	kk := append([]byte{}, k...)
	x, y := f(a, kk)
	t.Ops(1)
	wx, wy := xy(want)
	if x == nil || y == nil || x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
		t.Failf("%s of %x and %x: (%x, %x), want (%x, %x)", what, args, k, x, y, wx, wy)
	}
	for i, v := range args {
		if a[i].Cmp(v) != 0 {
			t.Failf("%s changed its argument %x to %x", what, v, a[i])
		}
	}
	if string(kk) != string(k) {
		t.Failf("%s changed its scalar %x to %x", what, k, kk)
	}
}

func checkMult(t *eng.T, s *toySet, p ref.Point, k []byte) {
	x, y := xy(p)
	want := s.c.Mul(new(big.Int).SetBytes(k), p)
	groupOp(t, "ScalarMult", want, []*big.Int{x, y}, k, func(a []*big.Int, k []byte) (x, y *big.Int) { return s.ic.ScalarMult(a[0], a[1], k) })
}

func checkBase(t *eng.T, s *toySet, k []byte) {
	want := s.c.MulG(new(big.Int).SetBytes(k))
	groupOp(t, "ScalarBaseMult", want, nil, k, func(a []*big.Int, k []byte) (x, y *big.Int) { return s.ic.ScalarBaseMult(k) })
}

func checkAdd(t *eng.T, s *toySet, p, q ref.Point) {
	px, py := xy(p)
	qx, qy := xy(q)
	groupOp(t, "Add", s.c.Add(p, q), []*big.Int{px, py, qx, qy}, nil, func(a []*big.Int, k []byte) (x, y *big.Int) { return s.ic.Add(a[0], a[1], a[2], a[3]) })
}

func checkDouble(t *eng.T, s *toySet, p ref.Point) {
	px, py := xy(p)
	groupOp(t, "Double", s.c.Add(p, p), []*big.Int{px, py}, nil, func(a []*big.Int, k []byte) (x, y *big.Int) { return s.ic.Double(a[0], a[1]) })
}

func checkOn(t *eng.T, s *toySet, x, y *big.Int) bool {
	want := s.c.On(x, y)
	a, b := cloneBig(x), cloneBig(y)
	got := s.ic.IsOnCurve(a, b)
	t.Ops(1)
	if got != want {
		t.Failf("IsOnCurve(%x, %x) = %v", x, y, got)
	}
	if a.Cmp(x) != 0 || b.Cmp(y) != 0 {
		t.Failf("IsOnCurve changed (%x, %x) to (%x, %x)", x, y, a, b)
	}
	// the helpers
	inf := util.IsEcPointInfinity(a, b)
	if inf != (x.Sign() == 0 && y.Sign() == 0) {
		t.Failf("IsEcPointInfinity(%x, %x) = %v", x, y, inf)
	}
	z := util.ZForAffine(a, b)
	if inf && z.Sign() != 0 || !inf && z.Cmp(bint(1)) != 0 {
		t.Failf("ZForAffine(%x, %x) = %x", x, y, z)
	}
	z.SetInt64(9)
	if a.Cmp(x) != 0 || b.Cmp(y) != 0 {
		t.Failf("the helpers changed (%x, %x) to (%x, %x)", x, y, a, b)
	}
	t.Ops(2)
	return want
}

// windows are scalars made to hit every table entry and carry of windowed multiplication methods.
func windows(tier string) (out []*big.Int) {
	n := ref.SM2.N
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if v.Sign() >= 0 && !seen[v.String()] {
			seen[v.String()] = true
			out = append(out, v)
		}
	}
	for v := int64(0); v < 66; v++ {
		add(bint(v))
		add(sub(n, v))
		add(sub(n, -v))
	}
	for j := uint(0); j < 64; j++ {
		for d := int64(1); d < 16; d++ {
			if d&1 == 1 || thorough(tier) || j < 2 || j > 61 {
				add(new(big.Int).Lsh(bint(d), 4*j))
			}
		}
	}
	for j := uint(0); j < 257; j++ {
		add(pow2(j))
		add(sub(pow2(j), 1))
		add(sub(pow2(j), -1))
		add(new(big.Int).Sub(pow2(256), pow2(j)))
	}
	for d := 1; d < 256; d++ {
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(d)
		}
		add(new(big.Int).SetBytes(b))
	}
	for _, v := range realScalars() {
		add(v)
		add(new(big.Int).Add(v, n))
	}
	for _, v := range []*big.Int{new(big.Int).Lsh(n, 1), sub(new(big.Int).Lsh(n, 1), 1), sub(new(big.Int).Lsh(n, 1), -1), new(big.Int).Mul(n, n), pow2(300), sub(pow2(512), 1), ref.SM2.P, sub(ref.SM2.P, -1)} {
		add(v)
	}
	return
}

// realPoints are points of the SM2 curve: multiples of G and points with special coordinates.
func realPoints() (out []ref.Point) {
	out = append(out, ref.Point{Inf: true})
	for _, k := range realScalars() {
		out = append(out, ref.SM2.MulG(k))
	}
	for x := int64(0); x < 12; x++ {
		if y, ok := ref.SM2.SolveY(bint(x)); ok {
			p := ref.Point{X: bint(x), Y: y}
			out = append(out, p, ref.SM2.Neg(p))
		}
		if y, ok := ref.SM2.SolveY(sub(ref.SM2.P, x+1)); ok {
			p := ref.Point{X: sub(ref.SM2.P, x+1), Y: y}
			out = append(out, p, ref.SM2.Neg(p))
		}
	}
	return
}

func c27(tier string) []eng.Space {
	var out []eng.Space
	names := []string{"four bits", "five bits n<p", "five bits n>p", "n<p small", "n>p small", "n<p byte", "n>p byte"}
	if thorough(tier) {
		names = append(names, "nine bits", "ten bits")
	}
	for _, name := range names {
		s := toy(name)
		n, p := s.c.ToyN(), s.c.ToyP()
		pt := func(i int) ref.Point {
			if i%n == 0 {
				return ref.Point{Inf: true}
			}
			return s.c.ToyPoint(i % n)
		}
		out = append(out, eng.Space{Name: "group law " + name, N: n, Doc: s.String() + ": sums of all pairs of points, infinity among them, and all doubles", Run: func(t *eng.T, i int) {
			for j := 0; j < n; j++ {
				t.Descf("%dG + %dG", i, j)
				checkAdd(t, s, pt(i), pt(j))
			}
			checkDouble(t, s, pt(i))
			t.Obs(i, n)
		}})
		maxK := 4*n + 3
		if n > 50 {
			maxK = 2*n + 3
		}
		out = append(out, eng.Space{Name: "multiples " + name, N: n, Doc: s.String() + ": every point times every scalar up to a few times the order, with up to three leading zero bytes; the empty scalar", Run: func(t *eng.T, i int) {
			for k := 0; k < maxK; k++ {
				b := bint(int64(k)).Bytes()
				for z := 0; z < 4; z++ {
					t.Descf("%d times %dG, %d leading zeros", k, i, z)
					kb := append(make([]byte, z), b...)
					checkMult(t, s, pt(i), kb)
					if i == 1 {
						checkBase(t, s, kb)
					}
					if n > 50 && k%16 != 0 {
						break
					}
				}
			}
			t.Obs(i, n)
		}})
		out = append(out, eng.Space{Name: "membership " + name, N: p + 6, Doc: s.String() + ": all pairs of coordinates from -3 to p+2, and shifted by multiples of 2^64", Run: func(t *eng.T, i int) {
			x := bint(int64(i - 3))
			cnt := 0
			for j := 0; j < p+6; j++ {
				y := bint(int64(j - 3))
				t.Descf("(%v, %v)", x, y)
				if checkOn(t, s, x, y) {
					cnt++
				}
				checkOn(t, s, new(big.Int).Add(x, pow2(64)), y)
				checkOn(t, s, x, new(big.Int).Sub(y, pow2(64)))
			}
			t.Obs(i, cnt)
		}})
	}
	ks := windows(tier)
	pts := realPoints()
	bases := []ref.Point{ref.SM2.G(), ref.SM2.MulG(sub(ref.SM2.N, 1)), ref.SM2.MulG(bint(specialScalars[3])), {X: pts[len(pts)-1].X, Y: pts[len(pts)-1].Y}}
	out = append(out,
		eng.Space{Name: "parameters", N: 3, Doc: "the constants of the standard, however often asked for, through Params and the fields", Run: func(t *eng.T, i int) {
			for k := 0; k <= i; k++ {
				c := sm2.GetSm2P256V1()
				t.Ops(1)
				var e elliptic.Curve = c
				for _, q := range []*elliptic.CurveParams{c.CurveParams, c.Params(), e.Params(), realSet.ic.Params()} {
					for _, v := range [][2]*big.Int{{q.P, ref.SM2.P}, {q.N, ref.SM2.N}, {q.B, ref.SM2.B}, {q.Gx, ref.SM2.Gx}, {q.Gy, ref.SM2.Gy}, {c.A, ref.SM2.A}} {
						t.Check(v[0] != nil && v[0].Cmp(v[1]) == 0, "parameter %x, want %x", v[0], v[1])
					}
					t.Check(q.BitSize == 256, "size %d", q.BitSize)
				}
			}
			checkOn(t, realSet, ref.SM2.Gx, ref.SM2.Gy)
			checkBase(t, realSet, ref.SM2.N.Bytes())
			checkMult(t, realSet, ref.SM2.G(), sub(ref.SM2.N, 1).Bytes())
			t.Obs(i)
		}},
		eng.Space{Name: "SM2 scalars", N: len(ks), Doc: "SM2 curve: scalars with one window set, all windows equal, around powers of two and multiples of the order, with leading zero bytes, times the base point and three others", Run: func(t *eng.T, i int) {
			t.Descf("scalar %x", ks[i])
			b := ks[i].Bytes()
			checkBase(t, realSet, b)
			if len(b) < 32 {
				checkBase(t, realSet, append(make([]byte, 32-len(b)), b...))
			}
			for j, p := range bases {
				if j == 0 || i%3 == j-1 || thorough(tier) {
					checkMult(t, realSet, p, b)
				}
			}
			if i < 70 {
				checkMult(t, realSet, bases[i%4], append(make([]byte, 1+i%40), b...))
				checkMult(t, realSet, ref.Point{Inf: true}, b)
			}
			t.Obs(i)
		}},
		eng.Space{Name: "SM2 sums", N: len(pts), Doc: "SM2 curve: all sums and doubles of boundary points, their negatives and infinity", Run: func(t *eng.T, i int) {
			for j, q := range pts {
				t.Descf("points %d and %d", i, j)
				checkAdd(t, realSet, pts[i], q)
				if j == i || j == 1 {
					checkAdd(t, realSet, pts[i], ref.SM2.Neg(q))
				}
			}
			checkDouble(t, realSet, pts[i])
			checkMult(t, realSet, pts[i], []byte{3})
			checkMult(t, realSet, pts[i], sub(ref.SM2.N, 2).Bytes())
			t.Obs(i)
		}},
		eng.Space{Name: "SM2 membership", N: len(pts), Doc: "SM2 curve: boundary points with coordinates moved, negated, exchanged, shifted by p and by powers of two, one bit changed", Run: func(t *eng.T, i int) {
			x, y := xy(pts[i])
			p := ref.SM2.P
			v := func(a *big.Int) []*big.Int {
				return []*big.Int{a, sub(a, 1), sub(a, -1), new(big.Int).Sub(p, a), new(big.Int).Add(a, p), new(big.Int).Sub(a, p), new(big.Int).Neg(a), new(big.Int).Add(a, pow2(256)), new(big.Int).Sub(a, pow2(256)), new(big.Int).Add(a, pow2(64)), bint(0), p}
			}
			for _, a := range v(x) {
				for _, b := range v(y) {
					t.Descf("(%x, %x)", a, b)
					checkOn(t, realSet, a, b)
					checkOn(t, realSet, b, a)
				}
			}
			for k := 0; k < 257; k++ {
				f := new(big.Int).Xor(x, pow2(uint(k)))
				checkOn(t, realSet, f, y)
				f.Xor(y, pow2(uint(k)))
				checkOn(t, realSet, x, f)
			}
			t.Obs(i)
		}},
	)
	return out
}
