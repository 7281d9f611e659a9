package ref

import (
	"bytes"
	"encoding/asn1"
	"math/big"
	"testing"
	"time"
)

func TestDER(t *testing.T) {
	for i := -70000; i < 70000; i++ {
		want, _ := asn1.Marshal(i)
		got := TLV(2, DERIntBytes(big.NewInt(int64(i))))
		if !bytes.Equal(got, want) {
			t.Fatal(i, got, want)
		}
		v, ok := ParseInt(got[2:])
		if !ok || v.Int64() != int64(i) {
			t.Fatal(i)
		}
	}
	for _, o := range [][]int{{1, 2, 840, 113549}, {2, 999, 3}, {2, 5, 29, 15}, {0, 39}, {1, 2, 156, 10197, 1, 501}} {
		want, err := asn1.Marshal(asn1.ObjectIdentifier(o))
		c, ok := OIDContent(o)
		if err != nil || !ok || !bytes.Equal(TLV(6, c), want) {
			t.Fatal(o)
		}
		v, big, ok := OIDValue(c)
		if !ok || big || !asn1.ObjectIdentifier(v).Equal(o) {
			t.Fatal(o, v)
		}
	}
	for y := 0; y < 10000; y++ {
		c := Civil{y, 1 + y%12, 1 + y%28, y % 24, y % 60, (y * 7) % 60}
		d := time.Date(c.Y, time.Month(c.Mo), c.D, c.H, c.Mi, c.S, 0, time.UTC)
		if d.Unix() != c.Unix() {
			t.Fatal(c, d.Unix(), c.Unix())
		}
		if string(c.GenTime()) != d.Format("20060102150405Z") {
			t.Fatal(c)
		}
		if p, ok := ParseGenTime(c.GenTime()); !ok || p != c {
			t.Fatal(c)
		}
	}
}
