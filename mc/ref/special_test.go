package ref

import (
	"fmt"
	"math/big"
	"os"
	"testing"
)

// SPECIAL=1 go test -run Special ./ref lists small multiples of G with leading zero bytes in a coordinate.
func TestSpecial(t *testing.T) {
	if os.Getenv("SPECIAL") == "" {
		t.Skip()
	}
	c := SM2
	p := c.G()
	found := map[string]int{}
	for k := 1; k < 400000; k++ {
		zx, zy := 32-len(p.X.Bytes()), 32-len(p.Y.Bytes())
		if zx > 0 || zy > 0 {
			key := fmt.Sprintf("x%d y%d", zx, zy)
			if found[key] < 3 {
				found[key]++
				fmt.Println(key, k)
			}
		}
		p = c.Add(p, c.G())
	}
	// points with very small x
	e := new(big.Int).Add(c.P, big.NewInt(1))
	e.Rsh(e, 2)
	n := 0
	for x := int64(0); n < 6; x++ {
		X := big.NewInt(x)
		r := new(big.Int).Mul(X, X)
		r.Add(r, c.A).Mul(r, X).Add(r, c.B).Mod(r, c.P)
		y := new(big.Int).Exp(r, e, c.P)
		if c.On(X, y) {
			fmt.Println("smallx", x, y.Text(16))
			n++
		}
	}
}
