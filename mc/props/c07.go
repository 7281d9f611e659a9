package props

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C07", Init: selfTest, Spaces: c07,
		Assumptions: []string{"tiny curves (prime order, a = -3) stand for the curve-generic arithmetic: there every key, hash residue and nonce is covered; on the SM2 curve boundary keys, nonces and lengths are"}})
	eng.Register(&eng.Prop{ID: "C08", Init: selfTest, Spaces: c08,
		Assumptions: []string{"tiny curves (prime order, a = -3) stand for the curve-generic arithmetic: there every key, hash residue, r and s is covered; on the SM2 curve boundary values around valid signatures are"}})
}

// signRS signs with scripted randomness and checks the outcome against the signature equation.
// It reports the nonce that was used, or nil when the source ran dry.
func signRS(t *eng.T, ts *toySet, pri *sm2.PrivateKey, e *big.Int, id, msg []byte, rnd *script, der bool) *big.Int {
	var r, s *big.Int
	var err error
	var raw []byte
	withRand(rnd, func() {
		if der {
			raw, err = sm2.Sign(pri, id, msg)
		} else {
			r, s, err = sm2.SignToRS(pri, id, msg)
		}
	})
	t.Ops(1)
	if err != nil {
		if r != nil || s != nil || raw != nil {
			t.Failf("output together with error %v", err)
		}
		if !rnd.dry {
			t.Failf("signing failed with a working random source: %v", err)
		}
		return nil
	}
	if rnd.dry {
		t.Failf("the random source failed but signing succeeded")
	}
	if der {
		var ok bool
		r, s, ok = ref.ParseSig(raw)
		if !ok {
			t.Failf("Sign returned %s, which is no DER signature", hx(raw))
		}
	}
	if why := ts.c.ValidSig(pri.D, e, r, s); why != "" {
		t.Failf("signature (%x, %x) of e=%x by d=%x: %s", r, s, e, pri.D, why)
	}
	return ts.c.Nonce(pri.D, r, s)
}

func verifyBoth(t *eng.T, pub *sm2.PublicKey, id, msg []byte, r, s *big.Int, want bool, what string) {
	if got := sm2.VerifyByRS(pub, id, msg, r, s); got != want {
		t.Failf("VerifyByRS(%s: r=%x, s=%x) = %v, want %v", what, r, s, got, want)
	}
	if got := sm2.Verify(pub, id, msg, ref.EncodeSig(r, s)); got != want {
		t.Failf("Verify(%s: r=%x, s=%x) = %v, want %v", what, r, s, got, want)
	}
	t.Ops(2)
}

// toySign covers, for one key and every hash residue, every byte the random source can yield, and for
// those first draws the code rejects every second one, to the given depth.
func toySign(t *eng.T, ts *toySet, d, depth int, onlyRes int) {
	c := ts.c
	n := c.ToyN()
	pri := privOf(ts.ic, bint(int64(d)))
	pub := c.ToyPoint(d)
	ipub := pubOf(ts.ic, pub)
	width := (c.N.BitLen() + 7) / 8
	for res, msg := range msgsCached(ts, d) {
		if onlyRes != res {
			continue
		}
		e := c.E(pub, nil, msg)
		used := map[int64]bool{}
		verified := map[string]bool{}
		var cur []byte
		t.Desc(func() string {
			return fmt.Sprintf("%v, private key %d, message %q (e = %d mod n), random bytes %x", ts, d, msg, res, cur)
		})
		runs, cut := rngTree(nil, width, depth, func(b []byte) bool {
			cur = b
			rnd := newScript(b)
			k := signRS(t, ts, pri, e, nil, msg, rnd, b[len(b)-1]&1 == 1)
			if k == nil {
				return true
			}
			used[k.Int64()] = true
			if key := k.String(); !verified[key] {
				verified[key] = true
				r, s, _ := c.SignK(bint(int64(d)), e, k)
				verifyBoth(t, ipub, nil, msg, r, s, true, "own signature")
			}
			return false
		})
		// every nonce the standard permits must be reachable, and no other
		for k := 1; k < n; k++ {
			_, _, ok := c.SignK(bint(int64(d)), e, bint(int64(k)))
			if ok && !used[int64(k)] && len(used) > 0 {
				t.Failf("nonce %d is permitted but never used for any random bytes", k)
			}
			if !ok && used[int64(k)] {
				t.Failf("nonce %d must be rejected but was used", k)
			}
		}
		t.Trace(runs)
		t.Eval(runs)
		t.Note("random-source branches cut at the depth bound", cut)
		t.Obs(ts.name, d, res, len(used))
	}
}

type sigCase struct {
	d  *big.Int
	k  *big.Int
	id []byte
	m  []byte
}

func (s sigCase) String() string {
	return fmt.Sprintf("SM2 curve, d=%x, nonce bytes for k=%x, id %s, message %s", s.d, s.k, hx(s.id), hx(s.m))
}

// realSign signs on the SM2 curve and verifies.
func realSign(t *eng.T, c sigCase) {
	t.Desc(c.String)
	pri := privOf(realSet.ic, c.d)
	pub := ref.SM2.MulG(c.d)
	ipub := pubOf(realSet.ic, pub)
	f := freeze(pri, ipub)
	e := ref.SM2.E(pub, c.id, c.m)
	gi, gm := newGuard("user id", c.id, 3), newGuard("message", c.m, 70)
	id, m := gi.b(), gm.b()
	if c.id == nil {
		id = nil
	}
	der := len(c.m)%2 == 0
	rnd := newScript(nonceBytes(ref.SM2, c.k), pat(3, 96))
	k := signRS(t, realSet, pri, e, id, m, rnd, der)
	gi.check(t)
	gm.check(t)
	f.check(t)
	if k == nil {
		t.Failf("signing needed more than four draws")
	}
	if k.Cmp(c.k) == 0 {
		t.Note("signatures with exactly the intended nonce", 1)
	}
	r, s, ok := ref.SM2.SignK(c.d, e, k)
	if !ok {
		t.Failf("nonce %x must be rejected", k)
	}
	if !sm2.VerifyByRS(ipub, id, m, r, s) {
		t.Failf("own signature (%x, %x) does not verify", r, s)
	}
	sig, err := sm2.MarshalSign(r, s)
	if err != nil || !sm2.Verify(ipub, id, m, sig) {
		t.Failf("own encoded signature (%x, %x) does not verify (%v)", r, s, err)
	}
	if c.id == nil && !sm2.VerifyByRS(ipub, ref.DefaultID, m, r, s) {
		t.Failf("signature with absent id does not verify under the default id")
	}
	gi.check(t)
	gm.check(t)
	f.check(t)
	t.Ops(3)
	t.Obs(ref.B32(r), ref.B32(s))
}

// steeredSigs searches messages for which r or s gets leading zero bytes, a set top bit, or neighbours.
func steeredSigs(d, k *big.Int, limit int) (cases []sigCase) {
	pub := ref.SM2.MulG(d)
	seen := map[string]int{}
	for i := 0; i < limit; i++ {
		m := []byte(fmt.Sprintf("m%d", i))
		e := ref.SM2.E(pub, nil, m)
		r, s, ok := ref.SM2.SignK(d, e, k)
		if !ok {
			continue
		}
		key := fmt.Sprint(len(r.Bytes()), len(s.Bytes()), r.BitLen()%8 == 0, s.BitLen()%8 == 0, len(e.Bytes()))
		if seen[key] < 1 {
			seen[key]++
			cases = append(cases, sigCase{d, k, nil, m})
		}
	}
	return
}

func c07(tier string) []eng.Space {
	scal := realScalars()
	idLens := []int{}
	for i := 0; i <= pick(tier, 150, 300); i++ {
		idLens = append(idLens, i)
	}
	idLens = append(idLens, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8064, 8160, 8184, 8189, 8190, 8191)
	msgLens := []int{}
	for i := 0; i <= pick(tier, 150, 300); i++ {
		msgLens = append(msgLens, i)
	}
	msgLens = append(msgLens, 511, 512, 1000, 4096, 8191, 8192, 65535, 65536, 1<<20+1, 1<<21+5, 1<<22+70)
	toySpace := func(name string, depth, res int) eng.Space {
		ts := toy(name)
		return eng.Space{Name: "toy " + name, N: (ts.c.ToyN() - 2) * ts.c.ToyN(),
			Doc: fmt.Sprintf("%v: every private key, every residue of e, every random byte string up to %d draws", ts, depth),
			Run: func(t *eng.T, i int) {
				n := ts.c.ToyN()
				d, e, dep := i/n+1, i%n, depth
				if res >= 0 && e%res != d%res {
					return
				}
				if dep > 1 && !thorough(t.Tier) && d != n-2 && d != n/2 {
					dep = 1 // two draws are enumerated for two keys, one draw for all
				}
				toySign(t, ts, d, dep, e)
			}}
	}
	s := []eng.Space{
		toySpace("n<p tiny", 2, -1),
		toySpace("n>p tiny", 2, -1),
		toySpace("n>p small", pick(tier, 1, 2), -1),
		toySpace("n<p small", 1, -1),
		toySpace("n<p byte", 1, pick(tier, 41, 1)),
		{Name: "toy two bytes", N: 96, Doc: "a two-byte curve: keys spread over the range, every 16-bit draw in one hash residue each", Run: func(t *eng.T, i int) {
			ts := toy("two bytes")
			n := ts.c.ToyN()
			d := []int{1, 2, 255, 256, 257, n - 2, n - 3, n / 2}[i%8]
			if i >= 8 {
				d = 1 + (i*7919)%(n-2)
			}
			pri := privOf(ts.ic, bint(int64(d)))
			pub := ts.c.ToyPoint(d)
			step := pick(t.Tier, 16, 1)
			msg := []byte(fmt.Sprint("m", i))
			e := ts.c.E(pub, nil, msg)
			for v := i % step; v < 65536; v += step {
				b := []byte{byte(v >> 8), byte(v)}
				t.Descf("%v, d=%d, message %q, random bytes %x", ts, d, msg, b)
				if k := signRS(t, ts, pri, e, nil, msg, newScript(b), false); k != nil && v%64 == 0 {
					r, s, _ := ts.c.SignK(bint(int64(d)), e, k)
					verifyBoth(t, pubOf(ts.ic, pub), nil, msg, r, s, true, "own signature")
				}
			}
			t.Trace(65536 / step)
		}},
		{Name: "real-keys-nonces", N: len(scal) * 8, Doc: "boundary private keys with boundary nonces on the SM2 curve", Run: func(t *eng.T, i int) {
			d, j := scal[i/8], i%8
			k := scal[(i/8*5+j*11+j)%len(scal)]
			if j == 0 {
				k = sub(ref.SM2.N, 1)
			} else if j == 1 {
				k = bint(1)
			}
			realSign(t, sigCase{d, k, nil, []byte("message digest")})
		}},
		{Name: "real-special-nonces", N: len(scal), Doc: "every boundary nonce with one key, including those rejected by the range check", Run: func(t *eng.T, i int) {
			realSign(t, sigCase{scal[len(scal)-1], scal[i], []byte("ALICE123@YAHOO.COM"), []byte("encryption standard")})
		}},
		{Name: "real-rejected-draws", N: 9, Doc: "first draws that are 0, n, n+1, 2^256-1 and others outside the range", Run: func(t *eng.T, i int) {
			n := ref.SM2.N
			v := []*big.Int{bint(0), n, sub(n, -1), sub(n, -2), sub(pow2(256), 1), sub(ref.SM2.P, 1), ref.SM2.P, new(big.Int).Add(n, pow2(128)), new(big.Int).Add(n, pow2(190))}[i]
			realSign(t, sigCase{scal[9], v, nil, []byte("m")})
		}},
		{Name: "real-id-lengths", N: len(idLens), Doc: "every user id length of the list up to 8191 bytes", Run: func(t *eng.T, i int) {
			realSign(t, sigCase{scal[20], scal[30], pat(0, idLens[i]), []byte("abc")})
		}},
		{Name: "real-message-lengths", N: len(msgLens), Doc: "every message length of the list", Run: func(t *eng.T, i int) {
			realSign(t, sigCase{scal[21], scal[31], nil, pat(0, msgLens[i])})
		}},
		{Name: "real-id-message-grid", N: 9 * 12, Doc: "absent, empty and short ids crossed with nil, empty and short messages", Run: func(t *eng.T, i int) {
			ids := [][]byte{nil, {}, {0}, []byte("1234567812345678"), []byte("1234567812345679"), []byte("12345678123456780"), []byte("123456781234567"), pat(0, 63), pat(0, 64)}
			ms := [][]byte{nil, {}, {0}, {0, 0}, []byte("a"), pat(1, 31), pat(1, 32), pat(1, 33), pat(2, 55), pat(2, 56), pat(2, 63), pat(2, 64)}
			realSign(t, sigCase{scal[22], scal[33], ids[i/12], ms[i%12]})
		}},
		{Name: "real-steered", N: 4, Doc: "messages found to give r or s with leading zero bytes or set top bits", Run: func(t *eng.T, i int) {
			d, k := scal[40+i], scal[10+i]
			cs := steeredSigs(d, k, pick(t.Tier, 6000, 100000))
			for _, c := range cs {
				realSign(t, c)
			}
			t.Trace(len(cs))
		}},
		{Name: "refused-keys", N: 20, Doc: "private keys outside [1, n-2] on the SM2 curve and on tiny curves", Run: func(t *eng.T, i int) {
			for _, ts := range []*toySet{realSet, toy("n<p tiny"), toy("n>p byte")} {
				n := ts.c.N
				vals := []*big.Int{bint(0), bint(-1), bint(-2), sub(n, 1), n, sub(n, -1), sub(n, -2), new(big.Int).Lsh(n, 1), sub(new(big.Int).Lsh(n, 1), 1),
					new(big.Int).Neg(n), sub(new(big.Int).Neg(n), -1), sub(new(big.Int).Neg(n), -2), pow2(256), sub(pow2(256), 1), sub(pow2(256), -1), pow2(300), new(big.Int).Neg(pow2(255)), new(big.Int).Mul(n, bint(3)), sub(new(big.Int).Lsh(n, 1), 2), sub(new(big.Int).Lsh(n, 1), -1)}
				d := vals[i]
				t.Descf("%s: d = %v", ts.name, d)
				pri := privOf(ts.ic, d)
				var err error
				var r, s *big.Int
				var raw []byte
				withRand(newPrng(i), func() {
					r, s, err = sm2.SignToRS(pri, nil, []byte("m"))
					if err != nil {
						raw, err = sm2.Sign(pri, []byte("id"), []byte("m"))
					}
				})
				t.Ops(2)
				if err == nil || r != nil || s != nil || raw != nil {
					t.Failf("signing with a private key outside [1, n-2] gave %v %v %x, error %v", r, s, raw, err)
				}
			}
		}},
		{Name: "refused-ids", N: 12, Doc: "user ids that are too long", Run: func(t *eng.T, i int) {
			l := []int{8192, 8193, 8194, 8199, 8200, 8191 + 8192, 16384, 16385, 65535, 65536, 1 << 20, 8192 + 16}[i]
			t.Descf("user id of %d bytes", l)
			pri := privOf(realSet.ic, scal[3])
			for _, m := range [][]byte{nil, []byte("m")} {
				var r, s *big.Int
				var err error
				withRand(newPrng(1), func() { r, s, err = sm2.SignToRS(pri, pat(0, l), m) })
				t.Ops(1)
				if err == nil || r != nil || s != nil {
					t.Failf("signing gave %v %v, error %v", r, s, err)
				}
				withRand(newPrng(1), func() {
					raw, err := sm2.Sign(pri, pat(0, l), m)
					if err == nil || raw != nil {
						t.Failf("Sign gave %x, error %v", raw, err)
					}
				})
			}
		}},
		{Name: "successive", N: 64, Doc: "several signatures from one stream of random bytes: each is valid by itself", Run: func(t *eng.T, i int) {
			ts := []*toySet{toy("n<p tiny"), toy("n>p byte"), toy("two bytes"), realSet}[i%4]
			t.Descf("%v: 12 successive signatures with different keys, ids, messages", ts.name)
			n := 12
			src := newPrng(i)
			withRand(src, func() {
				for j := 0; j < n; j++ {
					d := sub(ts.c.N, int64(2+(i+j)%9))
					if j%2 == 0 {
						d = bint(int64(1 + (i*3+j)%7))
					}
					pub := ts.c.MulG(d)
					id := [][]byte{nil, {}, []byte("x"), pat(0, 300)}[(i/4+j)%4]
					m := pat(3, (i*5+j*31)%200)
					r, s, err := sm2.SignToRS(privOf(ts.ic, d), id, m)
					if err != nil {
						t.Failf("%v", err)
					}
					if why := ts.c.ValidSig(d, ts.c.E(pub, id, m), r, s); why != "" {
						t.Failf("signature %d: %s", j, why)
					}
					verifyBoth(t, pubOf(ts.ic, pub), id, m, r, s, true, "own signature")
				}
			})
			t.Ops(n)
		}},
	}
	return s
}

// ---- C08 ----

// toyVerify checks, for one public key, every hash residue against every pair (r, s) of a range that
// exceeds [1, n-1] on both sides.
func toyVerify(t *eng.T, ts *toySet, d int, extra int, resStep int) {
	c := ts.c
	n := c.ToyN()
	pub := c.ToyPoint(d)
	ipub := pubOf(ts.ic, pub)
	msgs := msgsByResidue(c, pub, nil)
	acc := 0
	for res, msg := range msgs {
		if resStep > 1 && res%resStep != d%resStep {
			continue
		}
		// the accepted pairs, computed once with integers: r = e + x(sG + (r+s)P)
		for r := -extra; r < n+extra; r++ {
			for s := -extra; s < n+extra; s++ {
				want := false
				if r >= 1 && r < n && s >= 1 && s < n && (r+s)%n != 0 {
					k := (s + (r+s)*d) % n
					if k != 0 {
						want = (res+int(c.ToyPoint(k).X.Int64()))%n == r
					}
				}
				got := sm2.VerifyByRS(ipub, nil, msg, bint(int64(r)), bint(int64(s)))
				if got != want {
					t.Descf("%v, public key %d*G, message %q (e = %d mod n), r = %d, s = %d", ts, d, msg, res, r, s)
					t.Failf("VerifyByRS = %v, want %v", got, want)
				}
				if want {
					acc++
				}
			}
		}
		k := (n + 2*extra) * (n + 2*extra)
		t.Ops(k)
		t.Eval(k)
		t.Trace(k)
		t.Obs(ts.name, d, res, acc)
	}
	t.Descf("%v, public key %d*G: all residues and all pairs in [%d, %d)", ts, d, -extra, n+extra)
	t.Note("accepting executions", acc)
	if acc == 0 {
		t.Failf("no signature was accepted at all")
	}
}

func c08(tier string) []eng.Space {
	scal := realScalars()
	n := ref.SM2.N
	type base struct {
		d    *big.Int
		id   []byte
		m    []byte
		r, s *big.Int
	}
	mk := func(d, k *big.Int, id, m []byte) base {
		pub := ref.SM2.MulG(d)
		r, s, ok := ref.SM2.SignK(d, ref.SM2.E(pub, id, m), k)
		if !ok {
			panic("bad nonce")
		}
		return base{d, id, m, r, s}
	}
	ts1, ts2, ts3 := toy("n<p tiny"), toy("n>p tiny"), toy("n>p small")
	ts4 := toy("n<p small")
	bigLens := []int{4097, 1<<16 + 1, 1<<20 + 9, 1<<22 + 5}
	if thorough(tier) {
		bigLens = append(bigLens, 1<<15+3, 1<<18+1, 1<<24+1, 1<<26+1)
	}
	deltas := []*big.Int{bint(0), bint(1), bint(-1), n, new(big.Int).Neg(n), new(big.Int).Lsh(n, 1), pow2(256), pow2(255), pow2(128), bint(2)}
	return []eng.Space{
		{Name: "toy product n<p", N: ts1.c.ToyN() - 1, Doc: ts1.String() + ": every public key, every residue of e, every r and s in [-3, n+3)", Run: func(t *eng.T, i int) { toyVerify(t, ts1, i+1, 3, 1) }},
		{Name: "toy product n>p", N: ts2.c.ToyN() - 1, Doc: ts2.String() + ": every public key, every residue of e, every r and s in [-3, n+3)", Run: func(t *eng.T, i int) { toyVerify(t, ts2, i+1, 3, 1) }},
		{Name: "toy product larger", N: ts3.c.ToyN() - 1, Doc: ts3.String() + ": every public key, a slice of the residues of e, every r and s in [-1, n+1)", Run: func(t *eng.T, i int) { toyVerify(t, ts3, i+1, 1, pick(t.Tier, 8, 1)) }},
		{Name: "toy product larger n<p", N: ts4.c.ToyN() - 1, Doc: ts4.String() + ": every public key, a slice of the residues of e, every r and s in [-1, n+1)", Run: func(t *eng.T, i int) { toyVerify(t, ts4, i+1, 1, pick(t.Tier, 16, 1)) }},
		{Name: "toy off-curve keys", N: ts1.c.ToyP() + 4, Doc: "every pair of coordinates, on the curve or not, in and out of range, as public key", Run: func(t *eng.T, i int) {
			x := i - 2
			c := ts1.c
			for y := -2; y < c.ToyP()+2; y++ {
				t.Descf("%v, public key (%d, %d)", ts1, x, y)
				X, Y := bint(int64(x)), bint(int64(y))
				on := c.On(X, Y)
				msg := []byte("m")
				cnt := 0
				for r := int64(1); r < int64(c.ToyN()); r++ {
					for s := int64(1); s < int64(c.ToyN()); s++ {
						var got bool
						p, st := eng.Catch(func() { got = sm2.VerifyByRS(&sm2.PublicKey{X: X, Y: Y, Curve: ts1.ic}, nil, msg, bint(r), bint(s)) })
						if p != nil {
							t.Failf("panic: %v at %s", p, st)
						}
						want := on && x >= 0 && y >= 0 && c.Verify(X, Y, nil, msg, bint(r), bint(s))
						if got != want {
							t.Failf("VerifyByRS(r=%d, s=%d) = %v, want %v", r, s, got, want)
						}
						cnt++
					}
				}
				t.Ops(cnt)
				t.Trace(cnt)
			}
		}},
		{Name: "real-valid", N: len(scal) * 4, Doc: "reference signatures with boundary keys and nonces on the SM2 curve", Run: func(t *eng.T, i int) {
			d, k := scal[i/4], scal[(i*7+3)%len(scal)]
			if i%4 == 0 {
				k = sub(n, 1)
			}
			if new(big.Int).Add(d, bint(1)).Cmp(n) == 0 {
				return
			}
			id := [][]byte{nil, {}, []byte("ALICE123@YAHOO.COM"), pat(0, 200)}[i%4]
			b := mk(d, k, id, []byte("message digest"))
			t.Descf("d=%x k=%x id=%s", d, k, hx(id))
			pub := pubOf(realSet.ic, ref.SM2.MulG(d))
			f := freeze(nil, pub)
			verifyBoth(t, pub, id, b.m, b.r, b.s, true, "valid signature")
			f.check(t)
			t.Obs(ref.B32(b.r))
		}},
		{Name: "real-neighbours", N: 6 * len(deltas) * len(deltas), Doc: "r and s moved by every pair of offsets (0, 1, n, powers of two, ...), also exchanged and negated", Run: func(t *eng.T, i int) {
			x := mix(i, 6, len(deltas), len(deltas))
			d, k := scal[x[0]*9+2], scal[x[0]*7+5]
			b := mk(d, k, nil, []byte("message digest"))
			pub := ref.SM2.MulG(d)
			ip := pubOf(realSet.ic, pub)
			e := ref.SM2.E(pub, nil, b.m)
			r, s := new(big.Int).Add(b.r, deltas[x[1]]), new(big.Int).Add(b.s, deltas[x[2]])
			t.Descf("d=%x, valid (r=%x, s=%x) moved by (%v, %v)", d, b.r, b.s, deltas[x[1]], deltas[x[2]])
			try := func(r, s *big.Int) {
				verifyBoth(t, ip, nil, b.m, r, s, ref.SM2.VerifyE(pub, e, r, s), "moved signature")
			}
			try(r, s)
			if x[1] == 0 || x[2] == 0 {
				try(s, r)
				try(new(big.Int).Neg(r), s)
				try(r, new(big.Int).Neg(s))
				try(new(big.Int).Sub(n, r), s)
				try(r, new(big.Int).Sub(n, s))
			}
		}},
		{Name: "real-boundary-rs", N: 20 * 20, Doc: "all pairs of boundary values as r and s", Run: func(t *eng.T, i int) {
			p := ref.SM2.P
			v := []*big.Int{bint(0), bint(1), bint(2), bint(-1), sub(n, 1), n, sub(n, -1), sub(n, 2), new(big.Int).Rsh(n, 1), new(big.Int).Add(new(big.Int).Rsh(n, 1), bint(1)), p, sub(p, 1), pow2(256), sub(pow2(256), 1), pow2(255), pow2(257), new(big.Int).Neg(n), new(big.Int).Lsh(n, 1), pow2(2048), new(big.Int).Neg(pow2(256))}
			r, s := v[i/20], v[i%20]
			d := scal[12]
			pub := ref.SM2.MulG(d)
			m := []byte("message digest")
			t.Descf("r=%x s=%x", r, s)
			verifyBoth(t, pubOf(realSet.ic, pub), nil, m, r, s, ref.SM2.Verify(pub.X, pub.Y, nil, m, r, s), "boundary pair")
			// a forged pair: choose s and t freely, so that the equation holds for the right e only
			e := ref.SM2.E(pub, nil, m)
			if r.Sign() > 0 && s.Sign() > 0 {
				pt := ref.SM2.Add(ref.SM2.MulG(s), ref.SM2.Mul(new(big.Int).Add(r, s), pub))
				if !pt.Inf {
					rr := new(big.Int).Add(e, pt.X)
					rr.Mod(rr, n)
					verifyBoth(t, pubOf(realSet.ic, pub), nil, m, rr, s, ref.SM2.VerifyE(pub, e, rr, s), "r recomputed for other t")
				}
			}
		}},
		{Name: "real-infinity", N: 24, Doc: "pairs for which sG + tP is the point at infinity or t is zero", Run: func(t *eng.T, i int) {
			d := scal[i*2]
			// s + (r+s)d = 0 => r = -s(1+d)/d
			s := scal[i+7]
			r := new(big.Int).Add(d, bint(1))
			r.Mul(r, s).Mul(r, new(big.Int).ModInverse(d, n)).Neg(r).Mod(r, n)
			t.Descf("d=%x r=%x s=%x with sG+tP at infinity; and r=n-s", d, r, s)
			pub := pubOf(realSet.ic, ref.SM2.MulG(d))
			verifyBoth(t, pub, nil, []byte("x"), r, s, false, "infinity")
			verifyBoth(t, pub, nil, []byte("x"), new(big.Int).Sub(n, s), s, false, "t = 0")
			for _, ts := range []*toySet{ts2, ts3} {
				nn := ts.c.N
				dd := bint(int64(1 + i%(ts.c.ToyN()-2)))
				pub := ts.c.MulG(dd)
				for s := int64(1); s < nn.Int64(); s++ {
					// messages with e = r and sG+tP at infinity would pass if the point were taken as (0,0)
					r := new(big.Int).Add(dd, bint(1))
					r.Mul(r, bint(s)).Mul(r, new(big.Int).ModInverse(dd, nn)).Neg(r).Mod(r, nn)
					msgs := msgsByResidue(ts.c, pub, nil)
					m := msgs[r.Int64()]
					verifyBoth(t, pubOf(ts.ic, pub), nil, m, r, bint(s), ts.c.Verify(pub.X, pub.Y, nil, m, r, bint(s)), "toy infinity")
				}
			}
		}},
		{Name: "real-other-context", N: 10 * 6, Doc: "a valid signature under other messages, ids and keys", Run: func(t *eng.T, i int) {
			d, k := scal[i%10*4+1], scal[i%10*3+2]
			ids := [][]byte{nil, {}, []byte("ALICE"), pat(0, 100), pat(0, 8191), ref.DefaultID}
			id := ids[i/10]
			m := pat(0, 40)
			b := mk(d, k, id, m)
			pub := ref.SM2.MulG(d)
			ip := pubOf(realSet.ic, pub)
			t.Descf("d=%x, id %s, altered message, id or key", d, hx(id))
			effective := func(id []byte) []byte {
				if id == nil {
					return ref.DefaultID
				}
				return id
			}
			for _, id2 := range append(ids, []byte("ALICF"), []byte("ALIC"), pat(0, 99), pat(0, 101), pat(0, 8192), []byte("ALICE\x00"), append(pat(0, 8191), pat(0, 8192)...)) {
				want := bytes.Equal(effective(id), effective(id2))
				verifyBoth(t, ip, id2, m, b.r, b.s, want, fmt.Sprintf("id %s", hx(id2)))
			}
			for _, m2 := range [][]byte{nil, {}, m[:39], append(append([]byte{}, m...), 0), append([]byte{m[0] ^ 1}, m[1:]...), append(append([]byte{}, m[:39]...), m[39]^0x80), append(append([]byte{}, id...), m...)} {
				if !bytes.Equal(m, m2) {
					verifyBoth(t, ip, id, m2, b.r, b.s, false, fmt.Sprintf("message %s", hx(m2)))
				}
			}
			for _, d2 := range []*big.Int{sub(d, 1), sub(d, -1), new(big.Int).Sub(n, d)} {
				if d2.Sign() > 0 && d2.Cmp(n) < 0 {
					verifyBoth(t, pubOf(realSet.ic, ref.SM2.MulG(d2)), id, m, b.r, b.s, false, "another key")
				}
			}
			bad := []*sm2.PublicKey{
				{X: pub.X, Y: sub(pub.Y, 1), Curve: realSet.ic}, {X: sub(pub.X, -1), Y: pub.Y, Curve: realSet.ic}, {X: pub.Y, Y: pub.X, Curve: realSet.ic},
				{X: bint(0), Y: bint(0), Curve: realSet.ic}, {X: new(big.Int).Add(pub.X, ref.SM2.P), Y: pub.Y, Curve: realSet.ic},
				{X: pub.X, Y: new(big.Int).Sub(pub.Y, ref.SM2.P), Curve: realSet.ic}, {X: pub.X, Y: new(big.Int).Add(pub.Y, ref.SM2.P), Curve: realSet.ic}, {X: pow2(300), Y: pow2(300), Curve: realSet.ic},
				{X: bint(-1), Y: bint(-1), Curve: realSet.ic},
			}
			for _, q := range bad {
				verifyBoth(t, q, id, m, b.r, b.s, false, "public key off the curve")
			}
		}},
		{Name: "real-lengths", N: 300, Doc: "reference signatures over every message length below N with ids of related length", Run: func(t *eng.T, i int) {
			id := pat(3, (i*29)%8192)
			b := mk(scal[5], scal[11], id, pat(0, i))
			t.Descf("message of %d bytes, id of %d bytes", i, len(id))
			gi, gm := newGuard("id", id, 9), newGuard("message", b.m, 80)
			if !sm2.VerifyByRS(pubOf(realSet.ic, ref.SM2.MulG(b.d)), gi.b(), gm.b(), b.r, b.s) {
				t.Failf("valid signature rejected")
			}
			gi.check(t)
			gm.check(t)
			t.Ops(1)
		}},
		{Name: "large messages", N: len(bigLens) * 2, Timeout: 5 * time.Minute, Doc: "messages of 4 KiB to 4 MiB (64 MiB in the thorough tier): the reference's signature verifies; with one byte changed at each end, around each power of two and in between, one byte less or more, or the ends exchanged, it does not", Run: func(t *eng.T, i int) {
			l := bigLens[i/2]
			d, k := scal[i+3], scal[i+14]
			id := [][]byte{nil, pat(0, 8191)}[i%2]
			m := make([]byte, l)
			newPrng(i + 5).Read(m)
			b := mk(d, k, id, m)
			pub := pubOf(realSet.ic, ref.SM2.MulG(d))
			at := append([]int{}, 0, 1, 63, 64, l/2, l/3, l-65, l-64, l-2, l-1)
			for q := 12; 1<<q < l; q++ {
				at = append(at, 1<<q-1, 1<<q)
			}
			verify := func(what string, x []byte, want bool) {
				t.Descf("message of %d bytes, %s", l, what)
				t.Ops(1)
				t.Eval(1)
				t.Check(sm2.VerifyByRS(pub, id, x, b.r, b.s) == want, "verification should give %v", want)
			}
			verify("unchanged", m, true)
			for j, p := range at {
				m[p] ^= 1 << uint(j%8)
				verify(fmt.Sprintf("byte %d changed", p), m, false)
				m[p] ^= 1 << uint(j%8)
			}
			verify("shortened", m[:l-1], false)
			verify("shortened in front", m[1:], false)
			verify("extended", append(m[:l:l], 0), false)
			verify("halved", m[:l/2], false)
			verify("unchanged, again", m, true)
		}},
		{Name: "arguments", N: 40, Doc: "r and s passed as arguments are not changed, whatever their values", Run: func(t *eng.T, i int) {
			ts := ts2
			r, s := bint(int64(i-3)), bint(int64(2*i-5))
			r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
			t.Descf("r=%v s=%v", r, s)
			sm2.VerifyByRS(pubOf(ts.ic, ts.c.ToyPoint(3)), nil, []byte("q"), r, s)
			sm2.VerifyByRS(pubOf(realSet.ic, ref.SM2.MulG(scal[i])), nil, []byte("q"), r, s)
			if r.Cmp(r0) != 0 || s.Cmp(s0) != 0 {
				t.Failf("r or s changed to %v, %v", r, s)
			}
			t.Ops(2)
		}},
	}
}
