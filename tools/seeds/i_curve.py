# Group operations (C27).
C27I = ['math/big', GM2]
bug('curve-long-scalar', 'C27', 'a scalar of more than 32 bytes', 'the curve gets its own ScalarBaseMult, which keeps the last 32 bytes of the scalar instead of reducing it',
    [(S2, 'var sm2P256V1 P256V1Curve\n', '''var sm2P256V1 P256V1Curve

// ScalarBaseMult computes kG; scalars longer than a key are cut to its size.
func (c P256V1Curve) ScalarBaseMult(k []byte) (x, y *big.Int) {
	if n := (c.BitSize + 7) / 8; len(k) > n {
		k = k[len(k)-n:]
	}
	return c.CurveParams.ScalarBaseMult(k)
}
'''), (S2, '	pub.X, pub.Y = priv.Curve.ScalarBaseMult(priv.D.Bytes())\n', '	pub.X, pub.Y = pub.Curve.ScalarBaseMult(priv.D.Bytes())\n')],
    '''
	c := sm2.GetSm2P256V1()
	k := new(big.Int).Add(new(big.Int).Lsh(c.N, 9), big.NewInt(5))
	x, y := c.ScalarBaseMult(k.Bytes())
	wx, wy := c.ScalarBaseMult([]byte{5})
	if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
		fail("(512 n + 5) G is not 5 G")
	}
''', C27I)
bug('curve-affine-opposite', 'C27', 'the sum of two opposite points', 'the curve gets its own Add in affine coordinates, which takes points with equal x coordinates to be the same',
    [(S2, 'var sm2P256V1 P256V1Curve\n', '''var sm2P256V1 P256V1Curve

// Add computes the sum in affine coordinates: one inversion, but no conversions.
func (c P256V1Curve) Add(x1, y1, x2, y2 *big.Int) (x, y *big.Int) {
	if x1.Cmp(x2) == 0 || util.IsEcPointInfinity(x1, y1) || util.IsEcPointInfinity(x2, y2) {
		if x1.Cmp(x2) == 0 {
			return c.CurveParams.Double(x1, y1)
		}
		return c.CurveParams.Add(x1, y1, x2, y2)
	}
	l := util.ModInverse(util.Mod(util.Sub(x2, x1), c.P), c.P)
	l = util.Mod(util.Mul(l, util.Sub(y2, y1)), c.P)
	x = util.Mod(util.Sub(util.Sub(util.Mul(l, l), x1), x2), c.P)
	y = util.Mod(util.Sub(util.Mul(l, util.Sub(x1, x)), y1), c.P)
	return x, y
}
'''), (S2, '	x, y := pub.Curve.Add(sgx, sgy, tpx, tpy)\n', '	x, y := pub.Curve.Add(tpx, tpy, sgx, sgy)\n')],
    '''
	c := sm2.GetSm2P256V1()
	x, y := c.Add(c.Gx, c.Gy, c.Gx, new(big.Int).Sub(c.P, c.Gy))
	if x.Sign() != 0 || y.Sign() != 0 {
		fail("G + (-G) is (%x, %x)", x, y)
	}
''', C27I)
bug('curve-oncurve-reduces', 'C27', 'coordinates of p and above, or negative ones', 'the curve gets its own IsOnCurve, which reduces the coordinates',
    [(S2, 'var sm2P256V1 P256V1Curve\n', '''var sm2P256V1 P256V1Curve

// IsOnCurve checks y^2 = (x^2 + a) x + b for any A.
func (c P256V1Curve) IsOnCurve(x, y *big.Int) bool {
	r := util.Add(util.Mul(util.Add(util.Mul(x, x), c.A), x), c.B)
	return util.Mod(util.Sub(util.Mul(y, y), r), c.P).Sign() == 0 && x.BitLen() <= c.BitSize && y.BitLen() <= c.BitSize
}
'''), (S2, '	sm2P256V1.A = sm2A\n	sm2P256V1.B = sm2B\n', '	sm2P256V1.B = sm2B\n	sm2P256V1.A = sm2A\n')],
    '''
	c := sm2.GetSm2P256V1()
	if c.IsOnCurve(c.Gx, new(big.Int).Neg(c.Gy)) || c.IsOnCurve(c.Gx, new(big.Int).Sub(c.Gy, c.P)) {
		fail("negative coordinates are accepted")
	}
''', C27I)
bug('curve-window-skips', 'C27', 'a scalar of more than 40 bytes with a zero nibble behind them', 'the curve gets its own windowed ScalarMult, which does not double for a zero nibble behind byte 40',
    [(S2, 'var sm2P256V1 P256V1Curve\n', '''var sm2P256V1 P256V1Curve

// ScalarMult works through the scalar in windows of four bits.
func (c P256V1Curve) ScalarMult(px, py *big.Int, k []byte) (x, y *big.Int) {
	var tx, ty [16]*big.Int
	tx[0], ty[0] = new(big.Int), new(big.Int)
	for i := 1; i < 16; i++ {
		tx[i], ty[i] = c.CurveParams.Add(tx[i-1], ty[i-1], px, py)
	}
	x, y = new(big.Int), new(big.Int)
	for i, b := range k {
		for _, w := range [2]byte{b >> 4, b & 15} {
			for j := 0; j < 4 && (i < 40 || w != 0); j++ {
				x, y = c.CurveParams.Double(x, y)
			}
			x, y = c.CurveParams.Add(x, y, tx[w], ty[w])
		}
	}
	return x, y
}
'''), (S2, '	tpx, tpy := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())\n', '	m := t.Bytes()\n	tpx, tpy := pub.Curve.ScalarMult(pub.X, pub.Y, m)\n')],
    '''
	c := sm2.GetSm2P256V1()
	k := append(make([]byte, 50), 1, 0)
	x, y := c.ScalarMult(c.Gx, c.Gy, k)
	wx, wy := c.ScalarBaseMult(k)
	if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
		fail("256 G with leading zeros differs")
	}
''', [GM2])
bug('curve-z-of-axis-points', 'C27', 'a point with one zero coordinate', 'ZForAffine takes such a point for infinity',
    [('util/ec.go', '	if x.Sign() != 0 || y.Sign() != 0 {\n', '	if x.Sign() != 0 && y.Sign() != 0 {\n')],
    '''
	if util.ZForAffine(new(big.Int), big.NewInt(3)).Sign() == 0 {
		fail("(0, 3) has z = 0")
	}
''', ['math/big', 'github.com/ZZMarquis/gm/util'])
bug('curve-double-in-place', 'C27', 'the caller looks at the coordinates it has given to Double', 'the curve gets its own Double, which works in the memory of its argument when y is above p/2',
    [(S2, 'var sm2P256V1 P256V1Curve\n', '''var sm2P256V1 P256V1Curve

// Double works with the smaller of y and -y and negates the result.
func (c P256V1Curve) Double(x1, y1 *big.Int) (x, y *big.Int) {
	half := new(big.Int).Rsh(c.P, 1)
	if y1.Cmp(half) <= 0 {
		return c.CurveParams.Double(x1, y1)
	}
	x, y = c.CurveParams.Double(x1, y1.Sub(c.P, y1))
	return x, y.Sub(c.P, y)
}
'''), (S2, '	sm2P256V1.A = sm2A\n	sm2P256V1.B = sm2B\n', '	sm2P256V1.B = sm2B\n	sm2P256V1.A = sm2A\n')],
    '''
	c := sm2.GetSm2P256V1()
	y := new(big.Int).Set(c.Gy)
	c.Double(c.Gx, y)
	if y.Cmp(c.Gy) != 0 {
		fail("Double changed its argument")
	}
''', C27I)
