package ref

import (
	"encoding/hex"
	"math/big"
)

// selfTestSM2 checks the model against the worked examples of GM/T 0003.5-2012.
func selfTestSM2() {
	check := func(ok bool, what string) {
		if !ok {
			panic("reference self-test failed: " + what)
		}
	}
	c := SM2
	check(c.On(c.Gx, c.Gy), "G on curve")
	check(c.jacMul(new(big.Int).Sub(c.N, big.NewInt(1)), c.G()).Equal(c.Neg(c.G())), "(n-1)G = -G")
	check(c.MulG(big.NewInt(12345)).Equal(c.jacMul(big.NewInt(12345), c.G())), "fixed base")
	d := hexInt("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	k := hexInt("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	pub := c.MulG(d)
	e := c.E(pub, nil, []byte("message digest"))
	r, s, ok := c.SignK(d, e, k)
	check(ok && r.Cmp(hexInt("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) == 0 &&
		s.Cmp(hexInt("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) == 0, "signature example")
	check(c.Verify(pub.X, pub.Y, nil, []byte("message digest"), r, s), "verify example")
	check(c.Nonce(d, r, s).Cmp(k) == 0, "nonce recovery")
	ct, ok := c.EncK(pub, []byte("encryption standard"), k, false)
	check(ok && hex.EncodeToString(ct) == "0404ebfc718e8d1798620432268e77feb6415e2ede0e073c0f4f640ecd2e149a73e858f9d81e5430a57b36daab8f950a3c64e6ee6a63094d99283aff767e124df0"+
		"59983c18f809e262923c53aec295d30383b54e39d609d160afcb1908d0bd8766"+"21886ca989ca9c7d58087307ca93092d651efa", "encryption example")
	m, ok := c.Dec(d, ct, false)
	check(ok && string(m) == "encryption standard", "decryption example")
	x := ExchangeInput{C: c,
		DA: hexInt("81EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230029"), RA: hexInt("D4DE15474DB74D06491C440D305E012400990F3E390C7E87153C12DB2EA60BB3"),
		DB: hexInt("785129917D45A9EA5437A59356B82338EAADDA6CEB199088F14AE10DEFA229B5"), RB: hexInt("7E07124814B309489125EAED101113164EBF0F3458C5BD88335C1F9D596243D6"),
		IDA: DefaultID, IDB: DefaultID, Bits: 128}
	o, ok := x.Run()
	check(ok && hex.EncodeToString(o.Key) == "6c89347354de2484c60b4ab1fde4c6e5", "key exchange example "+hex.EncodeToString(o.Key))
	check(hex.EncodeToString(o.S1) == "d3a0fe15dee185ceae907a6b595cc32a266ed7b3367e9983a896dc32fa20f8eb", "S1")
	check(hex.EncodeToString(o.S2) == "18c7894b3816df16cf07b05c5ec0bef5d655d58f779cc1b400a4f3884644db88", "S2")
	raw, ok := EncodeCipher(ct, false)
	check(ok, "cipher DER")
	back, ok := DecodeCipher(raw, false)
	check(ok && string(back) == string(ct), "cipher DER round trip")
	// a toy curve against the general formulas
	t := NewToy("self", 23, func(p, n int) bool { return true })
	for a := 0; a < t.ToyN(); a++ {
		for b := 0; b < t.ToyN(); b++ {
			check(t.Add(t.ToyPoint(a), t.ToyPoint(b)).Equal(t.ToyPoint(a+b)), "toy group law")
		}
	}
	for _, v := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, -32768, -32769} {
		w, ok := ParseInt(DERIntBytes(big.NewInt(v)))
		check(ok && w.Int64() == v, "DER integer")
	}
}
