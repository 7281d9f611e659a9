package props

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	a := []string{"tiny curves (prime order, a = -3, order and field of the same even bit length) stand for the curve-generic arithmetic: there every quadruple of keys is covered; on the SM2 curve boundary keys are",
		"keys of one run are on the same curve; when the requested number of bits is no multiple of 8 only the leading bits of the key are compared with the standard's, and the keys of the two sides with each other"}
	eng.Register(&eng.Prop{ID: "C13", Init: selfTest, Spaces: c13, Assumptions: a})
	eng.Register(&eng.Prop{ID: "C14", Init: selfTest, Spaces: c14, Assumptions: a})
}

// side is everything one party puts in.
type side struct {
	initiator   bool
	bits        int
	tag         []byte
	d, r        *big.Int
	pub, eph    ref.Point // of the other party
	self, other []byte
}

// exch calls the library for one party, with all arguments guarded.
func exch(t *eng.T, ts *toySet, s side) (*sm2.ExchangeResult, error) {
	return exchRaw(t, ts, s, pubOf(ts.ic, s.pub), pubOf(ts.ic, s.eph))
}

func exchRaw(t *eng.T, ts *toySet, s side, pub, eph *sm2.PublicKey) (*sm2.ExchangeResult, error) {
	pri, pre := privOf(ts.ic, s.d), privOf(ts.ic, s.r)
	f1, f2 := freeze(pri, pub), freeze(pre, eph)
	var gs [3]*guard
	var bs [3][]byte
	for i, b := range [][]byte{s.tag, s.self, s.other} {
		if b != nil {
			gs[i] = newGuard([]string{"confirmationTag", "selfId", "otherId"}[i], b, 3)
			bs[i] = gs[i].b()
		}
	}
	res, err := sm2.CalculateKeyWithConfirmation(s.initiator, s.bits, bs[0], pri, pre, bs[1], pub, eph, bs[2])
	t.Ops(1)
	f1.check(t)
	f2.check(t)
	for _, g := range gs {
		if g != nil {
			g.check(t)
			g.scribble()
		}
	}
	if err != nil && res != nil {
		t.Failf("a result together with error %v", err)
	}
	if err == nil && res == nil {
		t.Failf("neither a result nor an error")
	}
	return res, err
}

// sameBits compares the leading bits.
func keyBitsEqual(a, b []byte, bits int) bool {
	if len(a) != len(b) {
		return false
	}
	n := bits / 8
	if !bytes.Equal(a[:n], b[:n]) {
		return false
	}
	if bits%8 != 0 {
		m := byte(0xff) << uint(8-bits%8)
		return a[n]&m == b[n]&m
	}
	return true
}

type run13 struct {
	dA, rA, dB, rB *big.Int
	idA, idB       []byte
	bits           int
}

func (r run13) String() string {
	return fmt.Sprintf("dA=%x rA=%x dB=%x rB=%x idA=%s idB=%s %d bits", r.dA, r.rA, r.dB, r.rB, hx(r.idA), hx(r.idB), r.bits)
}

// exchange runs both parties and compares them with the standard. It reports whether there is a shared point.
func exchange(t *eng.T, ts *toySet, r run13) bool {
	c := ts.c
	pa, ra, pb, rb := c.MulG(r.dA), c.MulG(r.rA), c.MulG(r.dB), c.MulG(r.rB)
	want, ok := ref.ExchangeInput{C: c, DA: r.dA, RA: r.rA, DB: r.dB, RB: r.rB, IDA: r.idA, IDB: r.idB, Bits: r.bits}.Run()
	return exchangeWant(t, ts, r, pa, ra, pb, rb, want, ok)
}

func exchangeWant(t *eng.T, ts *toySet, r run13, pa, ra, pb, rb ref.Point, want ref.ExchangeOutput, ok bool) bool {
	res, err := exch(t, ts, side{false, r.bits, nil, r.dB, r.rB, pa, ra, r.idB, r.idA})
	if !ok {
		if err == nil {
			t.Failf("responder: a shared point at infinity was accepted")
		}
		if _, err := exch(t, ts, side{true, r.bits, make([]byte, 32), r.dA, r.rA, pb, rb, r.idA, r.idB}); err == nil {
			t.Failf("initiator: a shared point at infinity was accepted")
		}
		// even with the tag that careless code would compute from (0, 0)
		fake := ts.c.ExchangeTail(ref.Point{X: bint(0), Y: bint(0)}, pa, pb, ra, rb, r.idA, r.idB, r.bits)
		if _, err := exch(t, ts, side{true, r.bits, fake.S1, r.dA, r.rA, pb, rb, r.idA, r.idB}); err == nil {
			t.Failf("initiator: a shared point at infinity was accepted")
		}
		t.Note("runs with a shared point at infinity", 1)
		return false
	}
	if err != nil {
		t.Failf("responder: %v", err)
	}
	n := (r.bits + 7) / 8
	if len(res.Key) != n {
		t.Failf("responder's key has %d bytes for %d bits", len(res.Key), r.bits)
	}
	if !keyBitsEqual(res.Key, want.Key, r.bits) {
		t.Failf("responder's key is %s, want %s", hx(res.Key), hx(want.Key))
	}
	wantBytes(t, "responder's S1", res.S1, want.S1)
	wantBytes(t, "responder's S2", res.S2, want.S2)
	ini, err := exch(t, ts, side{true, r.bits, res.S1, r.dA, r.rA, pb, rb, r.idA, r.idB})
	if err != nil {
		t.Failf("initiator: %v", err)
	}
	if !bytes.Equal(ini.Key, res.Key) {
		t.Failf("initiator's key is %s, responder's %s", hx(ini.Key), hx(res.Key))
	}
	wantBytes(t, "initiator's S2", ini.S2, want.S2)
	if !sm2.ResponderConfirm(res.S2, ini.S2) {
		t.Failf("responder refuses the initiator's S2")
	}
	// the results are separate memory
	for _, b := range [][]byte{ini.Key, ini.S1, ini.S2, res.S1, res.Key} {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x33
		}
	}
	wantBytes(t, "responder's S2 after the other results were overwritten", res.S2, want.S2)
	t.Obs(want.Key, want.S1)
	return true
}

func c13(tier string) []eng.Space {
	f1, f2 := toy("five bits n<p"), toy("five bits n>p")
	s1, s2 := toy("n<p small"), toy("n>p small")
	b1 := toy("n<p byte")
	full := func(name string, ts *toySet, step int) eng.Space {
		n := ts.c.ToyN() - 1
		return eng.Space{Name: name, N: n * n, Doc: fmt.Sprintf("%v: every static and ephemeral key of the initiator with %s of the responder's", ts, map[bool]string{true: "all", false: fmt.Sprintf("every %d-th pair", step)}[step == 1]), Run: func(t *eng.T, i int) {
			dA, rA := 1+i/n, 1+i%n
			if dA == n {
				return // n-1 is no private key
			}
			k := 0
			for x := i % step; x < n*n; x += step {
				dB, rB := 1+x/n, 1+x%n
				if dB == n {
					break
				}
				r := run13{bint(int64(dA)), bint(int64(rA)), bint(int64(dB)), bint(int64(rB)), []byte("A"), []byte("Bob"), 128 + 8*(x%3)}
				t.Descf("%v: %v", ts, r)
				exchange(t, ts, r)
				k++
			}
			t.Trace(k)
			t.Eval(k)
		}}
	}
	base := run13{bint(3), bint(5), bint(7), bint(2), []byte("ALICE123@YAHOO.COM"), []byte("BILL456@YAHOO.COM"), 128}
	scal := realScalars()
	n := ref.SM2.N
	var ns []*big.Int // private keys may be all of these; ephemeral ones also n-1
	ns = append(ns, scal...)
	bitList := []int{}
	for _, m := range []int{8160, 8161, 8192, 8193, 65272, 65279, 65280, 65281, 65288, 65536, 65537, 65535, 131072, 1 << 20, 1<<20 + 8, 524280, 524288, 524296} {
		bitList = append(bitList, m)
	}
	type rr struct {
		name string
		r    run13
	}
	var real []rr
	ida, idb := base.idA, base.idB
	for i := range ns {
		a, b := ns[i], ns[(i*31+7)%len(ns)]
		c, d := ns[(i*17+3)%len(ns)], ns[(i*13+29)%len(ns)]
		real = append(real, rr{"lattice", run13{a, b, c, d, ida, idb, 128}},
			rr{"lattice", run13{c, a, d, b, nil, idb, 192}}, rr{"lattice", run13{d, c, a, b, ida, nil, 256}}, rr{"lattice", run13{b, d, c, a, nil, nil, 264}})
	}
	for _, v := range specialScalars {
		for j := 0; j < 4; j++ {
			// choose the responder's key so that the shared point is vG
			rA, rB := scal[9+j*3], scal[20+j*5]
			dA := scal[40+j]
			ra, rb := ref.SM2.MulG(rA), ref.SM2.MulG(rB)
			w := pow2(127)
			xbar := func(p ref.Point) *big.Int {
				x := new(big.Int).And(p.X, new(big.Int).Sub(w, bint(1)))
				return x.Add(x, w)
			}
			tA := new(big.Int).Mul(xbar(ra), rA)
			tA.Add(tA, dA).Mod(tA, n)
			tB := new(big.Int).ModInverse(tA, n)
			vv := bint(v)
			if j%2 == 1 {
				vv = sub(n, v)
			}
			tB.Mul(tB, vv)
			dB := new(big.Int).Mul(xbar(rb), rB)
			dB.Sub(tB, dB).Mod(dB, n)
			if dB.Sign() == 0 || dB.Cmp(sub(n, 1)) >= 0 {
				continue
			}
			real = append(real, rr{"special shared point", run13{dA, rA, dB, rB, ida, idb, 200}})
			// and the other way round
			real = append(real, rr{"special shared point", run13{dB, rB, dA, rA, idb, ida, 200}})
		}
	}
	// ephemeral n-1 and equal keys on both sides
	real = append(real, rr{"n-1", run13{scal[8], sub(n, 1), scal[9], sub(n, 1), ida, idb, 128}},
		rr{"equal", run13{scal[9], scal[9], scal[9], scal[9], ida, ida, 128}},
		rr{"equal", run13{scal[9], scal[11], scal[9], scal[11], ida, ida, 128}})
	step := pick(tier, 23, 1)
	s := []eng.Space{
		full("toy four bits", toy("four bits"), 1),
		full("toy five bits", f1, 1),
		full("toy five bits n>p", f2, pick(tier, 3, 1)),
		full("toy six bits", s1, step*3-2),
		full("toy six bits n>p", s2, step),
		full("toy eight bits", b1, pick(tier, 9973, 997)),
		{Name: "key lengths", N: 525, Doc: "every key length from 0 to 4200 bits (small curve)", Run: func(t *eng.T, i int) {
			for b := 0; b < 8; b++ {
				r := base
				r.bits = i*8 + b
				r.dA = bint(int64(1 + r.bits%40))
				t.Descf("%v: %v", s1, r)
				if !exchange(t, s1, r) {
					r.rA = bint(6)
					exchange(t, s1, r)
				}
			}
			t.Trace(7)
			t.Eval(7)
		}},
		{Name: "long keys", N: len(bitList), Doc: "key lengths around the limits of the derivation's block counter", Run: func(t *eng.T, i int) {
			r := base
			r.bits = bitList[i]
			t.Descf("%v: %v", s1, r)
			exchange(t, s1, r)
		}},
		{Name: "longest key", N: 1, Timeout: 5 * time.Minute, Doc: "a key of more than 65536 hash blocks", Run: func(t *eng.T, i int) {
			r := base
			r.bits = 65537*256 + 16
			t.Descf("%v: %v", s1, r)
			exchange(t, s1, r)
		}},
		{Name: "identity lengths", N: 8192, Doc: "every identity length for the initiator, with a varying one for the responder, and vice versa (small curve)", Run: func(t *eng.T, i int) {
			r := base
			r.idA, r.idB = pat(3, i), pat(0, (i*37)%8192)
			t.Descf("%v: idA of %d bytes, idB of %d", s1, len(r.idA), len(r.idB))
			exchange(t, s1, r)
			if i%8 == 0 || i > 8180 || thorough(t.Tier) {
				r.idA, r.idB = pat(0, (i*41)%8192), pat(3, i)
				t.Descf("%v: idA of %d bytes, idB of %d", s1, len(r.idA), len(r.idB))
				exchange(t, s1, r)
			}
		}},
		{Name: "identity contents", N: 256, Doc: "every byte value in identities; absent against empty ones", Run: func(t *eng.T, i int) {
			r := base
			r.idA, r.idB = []byte{byte(i)}, []byte{byte(i), byte(i * 7), 0}
			t.Descf("%v: %v", f1, r)
			for _, k := range [][2][]byte{{r.idA, r.idB}, {nil, r.idB}, {r.idA, nil}, {nil, nil}, {{}, r.idB}, {{}, {}}, {nil, {}}, {{0}, {}}} {
				r.idA, r.idB = k[0], k[1]
				exchange(t, s1, r)
			}
			if i == 0 {
				// absent and empty identities are the same to the other side, too
				for _, v := range [][4][]byte{{nil, nil, {}, {}}, {{}, {}, nil, nil}, {nil, {}, {}, nil}} {
					c := s1.c
					res, err := exch(t, s1, side{false, 128, nil, r.dB, r.rB, c.MulG(r.dA), c.MulG(r.rA), v[0], v[1]})
					if err != nil {
						t.Failf("%v", err)
					}
					ini, err := exch(t, s1, side{true, 128, res.S1, r.dA, r.rA, c.MulG(r.dB), c.MulG(r.rB), v[2], v[3]})
					if err != nil || !bytes.Equal(ini.Key, res.Key) {
						t.Failf("absent and empty identities differ: %v", err)
					}
				}
			}
		}},
		{Name: "identities too long", N: 24, Doc: "identities of 8192 bytes and more are refused by either side", Run: func(t *eng.T, i int) {
			l := []int{8192, 8193, 10000, 16384, 65535, 65536}[i%6]
			long := pat(0, l)
			r := base
			sd := side{i >= 12, 128, nil, r.dB, r.rB, s1.c.MulG(r.dA), s1.c.MulG(r.rA), r.idB, r.idA}
			if i >= 12 {
				want, _ := ref.ExchangeInput{C: s1.c, DA: r.dA, RA: r.rA, DB: r.dB, RB: r.rB, IDA: r.idA, IDB: r.idB, Bits: 128}.Run()
				sd = side{true, 128, want.S1, r.dA, r.rA, s1.c.MulG(r.dB), s1.c.MulG(r.rB), r.idA, r.idB}
			}
			if i/6%2 == 0 {
				sd.self = long
			} else {
				sd.other = long
			}
			t.Descf("identity of %d bytes, case %d", l, i)
			if _, err := exch(t, s1, sd); err == nil {
				t.Failf("accepted")
			}
		}},
		{Name: "SM2 curve", N: len(real), Doc: "boundary keys in every role on the SM2 curve, shared points with leading zero bytes, absent identities", Run: func(t *eng.T, i int) {
			t.Descf("SM2 curve, %s: %v", real[i].name, real[i].r)
			if !exchange(t, realSet, real[i].r) {
				t.Failf("unexpected shared point at infinity")
			}
		}},
		{Name: "SM2 curve key lengths", N: 130, Doc: "key lengths on the SM2 curve", Run: func(t *eng.T, i int) {
			r := run13{scal[44], scal[11], scal[50], scal[25], ida, idb, i * 8}
			if i > 66 {
				r.bits = (i-66)*256 + i%3 - 1
			}
			t.Descf("SM2 curve: %v", r)
			exchange(t, realSet, r)
		}},
		{Name: "sequences", N: 64, Doc: "several runs interleaved: responders first, initiators later and in another order", Run: func(t *eng.T, i int) {
			ts := []*toySet{f1, s1, s2, b1}[i%4]
			c := ts.c
			var rs []run13
			var want []ref.ExchangeOutput
			var tags, s2s [][]byte
			m := int64(c.ToyN() - 2)
			for j := int64(0); len(rs) < 6 && j < 50; j++ {
				r := run13{bint(1 + (int64(i)*3+j)%m), bint(1 + (int64(i)*5+j*7)%m), bint(1 + (int64(i)*2+j*3)%m), bint(1 + (int64(i)+j*5)%m), pat(0, int(j)), pat(3, i), 64 * int(1+j)}
				w, ok := ref.ExchangeInput{C: c, DA: r.dA, RA: r.rA, DB: r.dB, RB: r.rB, IDA: r.idA, IDB: r.idB, Bits: r.bits}.Run()
				if ok {
					rs, want = append(rs, r), append(want, w)
				}
			}
			t.Descf("%v: %v", ts, rs)
			for j, r := range rs {
				res, err := exch(t, ts, side{false, r.bits, nil, r.dB, r.rB, c.MulG(r.dA), c.MulG(r.rA), r.idB, r.idA})
				if err != nil {
					t.Failf("%v", err)
				}
				wantBytes(t, "key", res.Key, want[j].Key)
				tags, s2s = append(tags, res.S1), append(s2s, res.S2)
			}
			for j := range rs {
				x := (j*5 + i) % len(rs)
				r := rs[x]
				res, err := exch(t, ts, side{true, r.bits, tags[x], r.dA, r.rA, c.MulG(r.dB), c.MulG(r.rB), r.idA, r.idB})
				if err != nil {
					t.Failf("initiator of run %d: %v", x, err)
				}
				wantBytes(t, "initiator's key", res.Key, want[x].Key)
				for y := range rs {
					if sm2.ResponderConfirm(s2s[y], res.S2) != bytes.Equal(want[y].S2, want[x].S2) {
						t.Failf("confirmation of run %d with the tag of run %d", y, x)
					}
				}
			}
		}},
	}
	return s
}

// ---- C14 ----

// initAgainst runs the initiator with a tag; it must succeed exactly when the tag is the one of its own view.
func initAgainst(t *eng.T, ts *toySet, s side, want ref.ExchangeOutput, shared bool) bool {
	s.initiator = true
	res, err := exch(t, ts, s)
	ok := shared && bytes.Equal(s.tag, want.S1)
	if ok != (err == nil) {
		t.Failf("initiator with tag %s (its view needs %s, shared point exists: %v): error %v", hx(s.tag), hx(want.S1), shared, err)
	}
	if ok {
		if !keyBitsEqual(res.Key, want.Key, s.bits) {
			t.Failf("initiator's key is %s, want %s", hx(res.Key), hx(want.Key))
		}
		wantBytes(t, "initiator's S2", res.S2, want.S2)
	}
	t.Obs(s.tag, ok)
	return ok
}

// view computes what the initiator with its view of the peer must expect.
func initView(c *ref.Curve, s side) (ref.ExchangeOutput, bool) {
	ra := c.MulG(s.r)
	u := c.SharedPoint(s.d, s.r, ra, s.pub, s.eph)
	if u.Inf {
		return ref.ExchangeOutput{}, false
	}
	return c.ExchangeTail(u, c.MulG(s.d), s.pub, ra, s.eph, s.self, s.other, s.bits), true
}

func respView(c *ref.Curve, s side) (ref.ExchangeOutput, bool) {
	rb := c.MulG(s.r)
	u := c.SharedPoint(s.d, s.r, rb, s.pub, s.eph)
	if u.Inf {
		return ref.ExchangeOutput{}, false
	}
	return c.ExchangeTail(u, s.pub, c.MulG(s.d), s.eph, rb, s.other, s.self, s.bits), true
}

// deviate runs initiator and responder with possibly different views and checks that no mismatch succeeds.
func deviate(t *eng.T, ts *toySet, a, b side, match bool) {
	c := ts.c
	wb, okb := respView(c, b)
	b.initiator = false
	res, err := exch(t, ts, b)
	if okb != (err == nil) {
		t.Failf("responder: error %v, shared point exists: %v", err, okb)
	}
	if !okb {
		return
	}
	wantBytes(t, "responder's S1", res.S1, wb.S1)
	wantBytes(t, "responder's S2", res.S2, wb.S2)
	wa, oka := initView(c, a)
	a.tag = res.S1
	if initAgainst(t, ts, a, wa, oka) != match {
		t.Failf("initiator and responder differ: %v, yet the initiator's success is %v", !match, match)
	}
	if match {
		return
	}
	// the initiator as it would confirm by its own view: the responder must refuse
	if oka {
		a.tag = wa.S1
		if !initAgainst(t, ts, a, wa, oka) {
			t.Failf("initiator refuses the tag of its own view")
		}
		if sm2.ResponderConfirm(res.S2, wa.S2) {
			t.Failf("responder accepts S2 of another transcript")
		}
	}
	a.tag = res.S2
	initAgainst(t, ts, a, wa, oka)
}

func sides(ts *toySet, r run13) (a, b side) {
	c := ts.c
	a = side{true, r.bits, nil, r.dA, r.rA, c.MulG(r.dB), c.MulG(r.rB), r.idA, r.idB}
	b = side{false, r.bits, nil, r.dB, r.rB, c.MulG(r.dA), c.MulG(r.rA), r.idB, r.idA}
	return
}

func c14(tier string) []eng.Space {
	f1, f2 := toy("five bits n<p"), toy("five bits n>p")
	s1 := toy("n<p small")
	b1 := toy("n<p byte")
	scal := realScalars()
	n := ref.SM2.N
	ida, idb := []byte("ALICE123@YAHOO.COM"), []byte("BILL456@YAHOO.COM")
	baseOf := func(ts *toySet, i int) run13 {
		if ts == realSet {
			k := len(scal)
			return run13{scal[(i*7+11)%k], scal[(i*5+2)%k], scal[(i*3+40)%k], scal[(i*11+33)%k], ida, idb, 128}
		}
		m := int64(ts.c.ToyN() - 2)
		for j := int64(i); ; j++ {
			r := run13{bint(1 + (3*j+2)%m), bint(1 + (5*j+1)%m), bint(1 + (7*j+4)%m), bint(1 + (11*j+7)%m), ida, idb, 128}
			if _, ok := (ref.ExchangeInput{C: ts.c, DA: r.dA, RA: r.rA, DB: r.dB, RB: r.rB, Bits: 8}).Run(); ok {
				return r
			}
		}
	}
	mixed := []*toySet{realSet, f1, s1, b1}
	ids := [][]byte{nil, {}, {0}, ida, idb, ida[:17], append(append([]byte{}, ida...), 0), append(append([]byte{}, ida...), idb...), []byte("1234567812345678"), []byte("alice123@YAHOO.COM"), pat(1, 100), pat(0, 8191), pat(0, 8190)}
	same := func(a, b []byte) bool { return bytes.Equal(a, b) }
	s := []eng.Space{
		{Name: "peer keys", N: 2 * 4 * 12, Doc: "small curves: for base runs, every other static or ephemeral point in place of each of the four public keys exchanged", Run: func(t *eng.T, i int) {
			x := mix(i, 2, 4, 12)
			ts := []*toySet{f1, s1}[x[0]]
			r := baseOf(ts, x[2]*3)
			for k := 1; k < ts.c.ToyN(); k++ {
				a, b := sides(ts, r)
				p := ts.c.ToyPoint(k)
				slot := []*ref.Point{&a.pub, &a.eph, &b.pub, &b.eph}[x[1]]
				match := slot.Equal(p)
				*slot = p
				t.Descf("%v: %v, slot %d replaced by %dG", ts, r, x[1], k)
				deviate(t, ts, a, b, match)
			}
			t.Trace(ts.c.ToyN() - 2)
			t.Eval(ts.c.ToyN() - 2)
		}},
		{Name: "two peer keys", N: 144, Doc: "small curves: every pair of points in place of each pair of exchanged public keys", Run: func(t *eng.T, i int) {
			ts := []*toySet{f1, f2}[i%2]
			r := baseOf(ts, i)
			n := ts.c.ToyN()
			cnt := 0
			for x := 0; x < 4; x++ {
				for y := 0; y < x; y++ {
					for k := 1; k < n; k++ {
						for l := 1; l < n; l++ {
							a, b := sides(ts, r)
							slots := []*ref.Point{&a.pub, &a.eph, &b.pub, &b.eph}
							p, q := ts.c.ToyPoint(k), ts.c.ToyPoint(l)
							match := slots[x].Equal(p) && slots[y].Equal(q)
							*slots[x], *slots[y] = p, q
							t.Descf("%v: %v, slots %d and %d replaced by %dG and %dG", ts, r, x, y, k, l)
							if (cnt+i)%pick(t.Tier, 6, 1) == 0 {
								deviate(t, ts, a, b, match)
							}
							cnt++
						}
					}
				}
			}
			t.Trace(cnt)
		}},
		{Name: "infinity", N: 2 * 22 * 22, Doc: "small curves: every key quadruple whose shared point is infinity is refused by both sides, all others give the standard's tags", Run: func(t *eng.T, i int) {
			ts := []*toySet{f1, f2}[i%2]
			n := ts.c.ToyN() - 1
			if i/2 >= n*n {
				return
			}
			dA, rA := 1+i/2/n, 1+i/2%n
			if dA == n {
				return
			}
			cnt := 0
			for dB := 1; dB < n; dB++ {
				for rB := 1; rB <= n; rB++ {
					r := run13{bint(int64(dA)), bint(int64(rA)), bint(int64(dB)), bint(int64(rB)), ida, idb, 128}
					want, ok := ref.ExchangeInput{C: ts.c, DA: r.dA, RA: r.rA, DB: r.dB, RB: r.rB, IDA: ida, IDB: idb, Bits: 128}.Run()
					t.Descf("%v: %v", ts, r)
					a, b := sides(ts, r)
					if !ok {
						exchangeWant(t, ts, r, b.pub, b.eph, a.pub, a.eph, want, false)
					} else {
						// the tags of a run with other roles are refused
						sw, _ := ref.ExchangeInput{C: ts.c, DA: r.dB, RA: r.rB, DB: r.dA, RB: r.rA, IDA: idb, IDB: ida, Bits: 128}.Run()
						for _, tag := range [][]byte{want.S1, want.S2, sw.S1, sw.S2} {
							a.tag = tag
							initAgainst(t, ts, a, want, true)
						}
					}
					cnt++
				}
			}
			t.Trace(cnt)
		}},
		{Name: "SM2 infinity", N: 24, Doc: "SM2 curve: static keys chosen so that the shared point is infinity, for either side", Run: func(t *eng.T, i int) {
			rB, dA, rA := scal[i*2+1], scal[i+20], scal[i+30]
			x := ref.SM2.MulG(rB).X
			xb := new(big.Int).And(x, sub(pow2(127), 1))
			xb.Add(xb, pow2(127))
			dB := xb.Mul(xb, rB)
			dB.Neg(dB).Mod(dB, n)
			r := run13{dA, rA, dB, rB, ida, idb, 128}
			if i%2 == 1 {
				r = run13{dB, rB, dA, rA, ida, idb, 128}
			}
			t.Descf("%v", r)
			if exchange(t, realSet, r) {
				t.Failf("harness: the shared point is not infinity")
			}
		}},
		{Name: "identities", N: 4 * 4 * len(ids), Doc: "every identity of a list in each of the four places", Run: func(t *eng.T, i int) {
			x := mix(i, 4, 4, len(ids))
			ts := mixed[x[0]]
			r := baseOf(ts, i)
			for _, o := range [][2][]byte{{ida, idb}, {ida, ida}, {nil, nil}, {ids[x[2]], idb}} {
				r.idA, r.idB = o[0], o[1]
				a, b := sides(ts, r)
				slot := []*[]byte{&a.self, &a.other, &b.self, &b.other}[x[1]]
				match := same(*slot, ids[x[2]])
				*slot = ids[x[2]]
				t.Descf("%v: %v, identity %d replaced by %s", ts, r, x[1], hx(ids[x[2]]))
				deviate(t, ts, a, b, match)
			}
		}},
		{Name: "identity edits", N: 4 * 20, Doc: "every bit of an identity changed, every prefix, identities exchanged or bytes moved from one to the other", Run: func(t *eng.T, i int) {
			x := mix(i, 4, 20)
			ts := s1
			r := baseOf(ts, i)
			try := func(id []byte) {
				a, b := sides(ts, r)
				slot := []*[]byte{&a.self, &a.other, &b.self, &b.other}[x[0]]
				match := same(*slot, id)
				*slot = id
				t.Descf("%v: %v, identity %d replaced by %s", ts, r, x[0], hx(id))
				deviate(t, ts, a, b, match)
			}
			cur := [][]byte{ida, idb, idb, ida}[x[0]]
			if p := x[1]; p < len(cur) {
				for v := 1; v < 256; v++ {
					id := append([]byte{}, cur...)
					id[p] ^= byte(v)
					try(id)
				}
				try(cur[:p])
				try(cur[p:])
				t.Trace(256)
			}
			if x[0] == 0 {
				a, b := sides(ts, r)
				a.self, a.other = a.other, a.self
				deviate(t, ts, a, b, false)
				a, b = sides(ts, r)
				k := x[1]
				j := append(append([]byte{}, ida...), idb...)
				a.self, a.other = j[:k], j[k:]
				deviate(t, ts, a, b, k == len(ida))
			}
		}},
		{Name: "SM2 peer keys", N: 4 * 40, Doc: "SM2 curve: each exchanged public key replaced by its negative, another one, or one of the same party", Run: func(t *eng.T, i int) {
			ts := realSet
			r := baseOf(ts, i)
			a, b := sides(ts, r)
			slot := []*ref.Point{&a.pub, &a.eph, &b.pub, &b.eph}[i%4]
			orig := *slot
			alt := []ref.Point{ref.SM2.Neg(orig), a.pub, a.eph, b.pub, b.eph, ref.SM2.G(), ref.SM2.Add(orig, ref.SM2.G()), ref.SM2.Mul(bint(2), orig), ref.SM2.Neg(ref.SM2.G()), ref.SM2.MulG(scal[i%len(scal)])}[i/4%10]
			t.Descf("%v, slot %d replaced by %v", r, i%4, alt)
			*slot = alt
			deviate(t, ts, a, b, alt.Equal(orig))
		}},
		{Name: "roles", N: 200, Doc: "both parties initiators, both responders, roles exchanged on either side, reflected messages", Run: func(t *eng.T, i int) {
			ts := mixed[i%4]
			r := baseOf(ts, i)
			if i%3 == 0 {
				r.idA, r.idB = nil, nil
			}
			if i%7 == 1 {
				r.dB, r.rB = r.dA, r.rA // a party talking to itself
				r.idB = r.idA
			}
			t.Descf("%v: %v", ts, r)
			a, b := sides(ts, r)
			wa, ok := initView(ts.c, a)
			if !ok {
				return
			}
			// both responders: A's S1 and S2 as tags for anybody
			ar := a
			ar.initiator = false
			res, err := exch(t, ts, ar)
			if err != nil {
				t.Failf("A as responder: %v", err)
			}
			war, _ := respView(ts.c, a)
			wantBytes(t, "S1 of A as responder", res.S1, war.S1)
			for _, tag := range [][]byte{res.S1, res.S2, wa.S2, wa.S1} {
				a.tag = tag
				initAgainst(t, ts, a, wa, true)
			}
			// both initiators
			wbi, _ := initView(ts.c, b)
			for _, tag := range [][]byte{res.S1, res.S2, wa.S2, wa.S1} {
				b.tag = tag
				initAgainst(t, ts, b, wbi, true)
			}
			wb, _ := respView(ts.c, sidesB(ts, r))
			for _, x := range [][]byte{wa.S1, res.S1, res.S2, wbi.S1, wbi.S2} {
				if sm2.ResponderConfirm(wb.S2, x) != bytes.Equal(wb.S2, x) {
					t.Failf("responder's confirmation with %s, own %s", hx(x), hx(wb.S2))
				}
			}
		}},
		{Name: "tags", N: 4 * 64, Doc: "confirmation tags altered in every byte to every value, truncated, extended, missing, exchanged", Run: func(t *eng.T, i int) {
			ts := []*toySet{f1, s1, b1, realSet}[i/64]
			p := i % 64
			r := baseOf(ts, i/64)
			a, b := sides(ts, r)
			want, ok := initView(ts.c, a)
			if !ok {
				return
			}
			res, err := exch(t, ts, b)
			if err != nil {
				t.Failf("%v", err)
			}
			try := func(tag []byte) {
				t.Descf("%v: %v, tag %s", ts, r, hx(tag))
				a.tag = tag
				initAgainst(t, ts, a, want, true)
			}
			conf := func(x []byte) {
				t.Ops(1)
				if sm2.ResponderConfirm(res.S2, x) != bytes.Equal(want.S2, x) {
					t.Failf("confirmation of %s, own %s", hx(x), hx(want.S2))
				}
				if sm2.ResponderConfirm(x, res.S2) != bytes.Equal(want.S2, x) {
					t.Failf("confirmation of own %s with %s", hx(x), hx(want.S2))
				}
			}
			if p < 32 {
				for v := 1; v < 256; v++ {
					x := append([]byte{}, want.S1...)
					x[p] ^= byte(v)
					if ts != realSet || v&(v-1) == 0 {
						try(x)
					}
					y := append([]byte{}, want.S2...)
					y[p] ^= byte(v)
					conf(y)
				}
				try(want.S1[:p])
				try(want.S1[p+1:])
				conf(want.S2[:p])
				conf(want.S2[p+1:])
				t.Trace(510)
				return
			}
			ext := append(append([]byte{}, want.S1...), pat(p%4, p-31)...)
			try(ext)
			conf(append(append([]byte{}, want.S2...), pat(p%4, p-31)...))
			conf(append(pat(p%4, p-31), want.S2...))
			try(append(pat(p%4, p-31), want.S1...))
			switch p {
			case 32:
				for _, x := range [][]byte{nil, {}, want.S2, want.Key, make([]byte, 32), pat(2, 32), append(append([]byte{}, want.S1...), want.S1...), append(append([]byte{}, want.S1...), want.S2...)} {
					try(x)
				}
				for _, x := range [][]byte{nil, {}, want.S1, want.Key, make([]byte, 32), pat(2, 32)} {
					conf(x)
				}
			case 33: // the responder does not depend on a tag
				for _, x := range [][]byte{nil, {}, want.S1, {1}} {
					b.tag = x
					res, err := exch(t, ts, b)
					if err != nil {
						t.Failf("responder given tag %s: %v", hx(x), err)
					}
					wantBytes(t, "S1", res.S1, want.S1)
				}
			}
		}},
		{Name: "tag notations", N: 4, Doc: "confirmation tags in other notations (text, DER, with bytes around them, reversed), and the other values at hand in place of a tag", Run: func(t *eng.T, i int) {
			ts := []*toySet{f1, s1, b1, realSet}[i]
			r := baseOf(ts, i)
			a, b := sides(ts, r)
			want, ok := initView(ts.c, a)
			if !ok {
				return
			}
			res, err := exch(t, ts, b)
			if err != nil {
				t.Failf("%v", err)
			}
			z := make([]byte, 32)
			others := [][]byte{nil, {}, z, want.S2, want.Key, res.Key, append(append([]byte{}, want.S1...), want.S2...), append(append([]byte{}, want.S2...), want.S1...)}
			for k := 1; k < 32; k++ {
				others = append(others, append(append([]byte{}, want.S1[:k]...), z[k:]...), append(append([]byte{}, z[:k]...), want.S1[k:]...), append(append([]byte{}, want.S1[k:]...), want.S1[:k]...))
			}
			for k, x := range append(otherForms(want.S1), others...) {
				if ts == realSet && k%5 != 0 && !thorough(t.Tier) {
					continue
				}
				t.Descf("%v: %v, tag %s", ts, r, hx(x))
				a.tag = x
				initAgainst(t, ts, a, want, true)
				t.Eval(1)
			}
			for _, x := range append(otherForms(want.S2), append(others, want.S1)...) {
				t.Descf("%v: %v, confirmation %s", ts, r, hx(x))
				t.Ops(2)
				t.Eval(1)
				if sm2.ResponderConfirm(res.S2, x) != bytes.Equal(want.S2, x) || sm2.ResponderConfirm(x, res.S2) != bytes.Equal(want.S2, x) {
					t.Failf("confirmation of %s, own %s", hx(x), hx(want.S2))
				}
			}
			t.Obs(i)
		}},
		{Name: "two-byte tag errors", N: 496, Doc: "every pair of bytes of a tag changed, with several differences (so that differences might cancel out)", Run: func(t *eng.T, i int) {
			p, q := 0, i
			for q >= 31-p {
				q -= 31 - p
				p++
			}
			q += p + 1
			r := baseOf(s1, 1)
			a, _ := sides(s1, r)
			want, _ := initView(s1.c, a)
			t.Descf("%v: bytes %d and %d", r, p, q)
			for _, v := range [][2]byte{{1, 1}, {0x80, 0x80}, {255, 255}, {1, 255}, {3, 253}, {128, 1}} {
				for k := 0; k < 2; k++ {
					x := append([]byte{}, want.S1...)
					y := append([]byte{}, want.S2...)
					if k == 0 {
						x[p], x[q], y[p], y[q] = x[p]^v[0], x[q]^v[1], y[p]^v[0], y[q]^v[1]
					} else {
						x[p], x[q], y[p], y[q] = x[p]+v[0], x[q]+v[1], y[p]+v[0], y[q]+v[1]
					}
					a.tag = x
					initAgainst(t, s1, a, want, true)
					if sm2.ResponderConfirm(want.S2, y) {
						t.Failf("confirmed %s, own %s", hx(y), hx(want.S2))
					}
				}
			}
			x := append([]byte{}, want.S1...)
			x[p], x[q] = x[q], x[p]
			a.tag = x
			initAgainst(t, s1, a, want, true)
		}},
		{Name: "invalid points", N: 4 * 2 * 2, Doc: "static and ephemeral points that are not on the curve, at infinity or with coordinates out of range, for either role", Run: func(t *eng.T, i int) {
			x := mix(i, 4, 2, 2)
			ts := []*toySet{f1, s1, b1, realSet}[x[0]]
			c := ts.c
			r := baseOf(ts, 2)
			a, b := sides(ts, r)
			want, _ := initView(c, a)
			a.tag = want.S1
			sd := a
			if x[1] == 1 {
				sd = b
			}
			p := c.P
			try := func(X, Y *big.Int) {
				if c.On(X, Y) {
					return
				}
				t.Descf("%v: initiator %v, slot %d = (%v, %v)", ts, sd.initiator, x[2], X, Y)
				q := &sm2.PublicKey{X: X, Y: Y, Curve: ts.ic}
				pub, eph := pubOf(ts.ic, sd.pub), pubOf(ts.ic, sd.eph)
				if x[2] == 0 {
					pub = q
				} else {
					eph = q
				}
				tags := [][]byte{sd.tag}
				if sd.initiator && X.Sign() >= 0 && Y.Sign() >= 0 && X.BitLen() <= 256 && Y.BitLen() <= 256 {
					// tags that somebody omitting the check would expect: with reduced coordinates, or (0,0)
					qq := ref.Point{X: X, Y: Y}
					pp, ee := sd.pub, sd.eph
					if x[2] == 0 {
						pp = qq
					} else {
						ee = qq
					}
					us := []ref.Point{{X: bint(0), Y: bint(0)}}
					if red := (ref.Point{X: new(big.Int).Mod(X, p), Y: new(big.Int).Mod(Y, p)}); c.On(red.X, red.Y) {
						rp, re := sd.pub, sd.eph
						if x[2] == 0 {
							rp = red
						} else {
							re = red
						}
						us = append(us, c.SharedPoint(sd.d, sd.r, c.MulG(sd.r), rp, re))
					}
					if X.Sign() == 0 && Y.Sign() == 0 {
						inf := ref.Point{X: bint(0), Y: bint(0), Inf: true}
						rp, re := sd.pub, sd.eph
						if x[2] == 0 {
							rp = inf
						} else {
							re = inf
						}
						us = append(us, c.SharedPoint(sd.d, sd.r, c.MulG(sd.r), rp, re))
					}
					for _, u := range us {
						if !u.Inf {
							tags = append(tags, c.ExchangeTail(u, c.MulG(sd.d), pp, c.MulG(sd.r), ee, sd.self, sd.other, sd.bits).S1)
						}
					}
				}
				for _, tag := range tags {
					sx := sd
					sx.tag = tag
					if res, err := exchRaw(t, ts, sx, pub, eph); err == nil {
						t.Failf("accepted, key %s", hx(res.Key))
					}
				}
			}
			if c.IsToy() && c.ToyP() < 64 {
				for X := -2; X < 2*c.ToyP(); X++ {
					for Y := -2; Y < 2*c.ToyP(); Y++ {
						try(bint(int64(X)), bint(int64(Y)))
					}
				}
				t.Trace(4 * c.ToyP() * c.ToyP())
			}
			for k := int64(1); k < 40; k++ {
				g := c.MulG(bint(k))
				if g.Inf {
					continue
				}
				for _, v := range [][2]*big.Int{{g.X, sub(g.Y, 1)}, {g.X, sub(g.Y, -1)}, {sub(g.X, 1), g.Y}, {g.X, new(big.Int).Add(g.Y, p)}, {new(big.Int).Add(g.X, p), g.Y},
					{new(big.Int).Sub(g.X, p), g.Y}, {g.X, new(big.Int).Neg(g.Y)}, {new(big.Int).Neg(g.X), g.Y}, {g.Y, g.X}, {bint(0), g.Y}, {g.X, bint(0)}, {bint(0), bint(0)}, {p, p}, {pow2(256), pow2(256)}, {new(big.Int).Add(g.X, pow2(256)), g.Y}, {pow2(600), bint(1)}} {
					if k == 1 || c.IsToy() {
						try(v[0], v[1])
					} else if k < 4 {
						try(v[0], v[1])
					}
				}
			}
		}},
	}
	return s
}

func sidesB(ts *toySet, r run13) side {
	_, b := sides(ts, r)
	return b
}
