package ref

import (
	"fmt"
	"os"
	"testing"
)

// ZERO=1 go test -run Zero ./ref prints the digests of very long zero messages.
func TestZero(t *testing.T) {
	if os.Getenv("ZERO") == "" {
		t.Skip()
	}
	b := make([]byte, 1<<24)
	for _, n := range []int64{1<<31 + 69, 1<<32 + 69} {
		s := NewSM3()
		for k := int64(0); k < n; k += 1 << 24 {
			if n-k < 1<<24 {
				s.Write(b[:n-k])
			} else {
				s.Write(b)
			}
		}
		fmt.Printf("%d %x\n", n, s.Sum())
	}
}
