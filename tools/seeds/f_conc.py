# Planted bugs of C17: calls made at the same time.
RACE_SH = DEMO_SH.replace('go build -o demo .', 'CGO_ENABLED=1 go build -race -o demo .').replace('timeout 250 ./demo', 'GORACE="halt_on_error=1 exitcode=66" timeout 250 ./demo')
S3, S4 = 'sm3/sm3.go', 'sm4/sm4.go'
GM4, GMC = 'github.com/ZZMarquis/gm/sm4', 'github.com/ZZMarquis/gm/sm2/cert'
PAR = '''
// together runs f in n goroutines at once, rounds times.
func together(n, rounds int, f func(i int)) {
	for r := 0; r < rounds; r++ {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				f(i)
			}()
		}
		close(gate)
		wg.Wait()
	}
}

type steady byte

func (s steady) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(s) + byte(i)
	}
	return len(b), nil
}
'''
def conc(id, needs, breaks, edits, demo, imports, top='', race=True):
    bug(id, 'C17', needs, breaks, edits, demo, ['sync'] + list(imports), PAR + top, RACE_SH if race else None)

conc('conc-cipher-scratch', 'two goroutines using one block cipher at once', 'the words of the block under way are kept in the cipher object',
    [(S4, '	enc []uint32\n	dec []uint32\n}', '	enc []uint32\n	dec []uint32\n	x   [BlockSize / 4]uint32 // avoids an allocation per block\n}'),
     (S4, '	processBlock(c.enc, src, dst)', '	processBlock(&c.x, c.enc, src, dst)'),
     (S4, '	processBlock(c.dec, src, dst)', '	processBlock(&c.x, c.dec, src, dst)'),
     (S4, 'func processBlock(rk []uint32, in []byte, out []byte) {\n	var x [BlockSize / 4]uint32\n', 'func processBlock(x *[BlockSize / 4]uint32, rk []uint32, in []byte, out []byte) {\n')],
'''
	c, _ := sm4.NewCipher(make([]byte, 16))
	together(8, 200, func(i int) {
		b := make([]byte, 16)
		b[0] = byte(i)
		o := make([]byte, 16)
		c.Encrypt(o, b)
		c.Decrypt(o, o)
		if o[0] != byte(i) {
			fail("wrong block")
		}
	})
''', [GM4])
conc('conc-kdf-buffer', 'two encryptions or decryptions of different keys at once', 'the block of the key derivation lies in a package variable',
    [(S2, '''	buf := make([]byte, bufSize)

	encDataLen''', '''	if len(kdfBuf) < bufSize {
		kdfBuf = make([]byte, bufSize)
	}
	buf := kdfBuf

	encDataLen'''), (S2, 'func kdf(', '// reused, so that a key derivation does not allocate\nvar kdfBuf = make([]byte, sm3.DigestLength)\n\nfunc kdf(')],
'''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	together(6, 10, func(i int) {
		m := bytes.Repeat([]byte{byte(i)}, 200)
		c, _ := sm2.Encrypt(pub, m, sm2.C1C3C2)
		d, err := sm2.Decrypt(pri, c, sm2.C1C3C2)
		if err != nil || !bytes.Equal(d, m) {
			fail("wrong plain text: %v", err)
		}
	})
''', ['bytes', 'crypto/rand', GM2])
conc('conc-lazy-curve', 'the first uses of the library in a process made at the same time', 'the curve is set up at its first use, and marked as set up before it is',
    [(S2, 'func init() {\n	initSm2P256V1()\n}', '// theCurve sets the curve up when it is first needed, so that importing the package costs nothing\nfunc theCurve() P256V1Curve {\n	if sm2P256V1.CurveParams == nil {\n		initSm2P256V1()\n	}\n	return sm2P256V1\n}'),
     (S2, 'func GetSm2P256V1() P256V1Curve {\n	return sm2P256V1\n', 'func GetSm2P256V1() P256V1Curve {\n	return theCurve()\n'),
     (S2, 'elliptic.GenerateKey(sm2P256V1, rand)', 'elliptic.GenerateKey(theCurve(), rand)'),
     (S2, 'privateKey.Curve = sm2P256V1\n	privateKey.D = new(big.Int).SetBytes(priv)', 'privateKey.Curve = theCurve()\n	privateKey.D = new(big.Int).SetBytes(priv)'),
     (S2, 'privateKey.Curve = sm2P256V1\n	privateKey.D = new(big.Int).SetBytes(bytes)', 'privateKey.Curve = theCurve()\n	privateKey.D = new(big.Int).SetBytes(bytes)'),
     (S2, 'publicKey.Curve = sm2P256V1\n	publicKey.X = x', 'publicKey.Curve = theCurve()\n	publicKey.X = x'),
     (S2, 'publicKey.Curve = sm2P256V1\n	publicKey.X = new', 'publicKey.Curve = theCurve()\n	publicKey.X = new'),
     (S2, '(sm2P256V1.Params().BitSize', '(theCurve().Params().BitSize')],
'''
	together(8, 1, func(i int) {
		c := sm2.GetSm2P256V1()
		if c.P == nil || c.N == nil || c.Gx == nil || c.Gy == nil || c.BitSize != 256 {
			fail("half a curve")
		}
		if _, err := sm2.RawBytesToPrivateKey(append(make([]byte, 31), 5)); err != nil {
			fail("%v", err)
		}
	})
''', [GM2])
conc('conc-eku-index', 'two certificates with extended key usages handled at once in a new process', 'a map from usages to identifiers is made at the first use without a lock',
    [(GX, '''	for _, pair := range extKeyUsageOIDs {
		if eku == pair.extKeyUsage {
			return pair.oid, true
		}
	}
	return
}

type basic''', '''	if ekuIndex == nil {
		ekuIndex = make(map[x509.ExtKeyUsage]asn1.ObjectIdentifier)
		for _, pair := range extKeyUsageOIDs {
			ekuIndex[pair.extKeyUsage] = pair.oid
		}
	}
	oid, ok = ekuIndex[eku]
	return
}

// ekuIndex is filled when it is first needed
var ekuIndex map[x509.ExtKeyUsage]asn1.ObjectIdentifier

type basic''')], '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	csr := &x509.CertificateRequest{PublicKey: pub, RawSubjectPublicKeyInfo: spki}
	together(8, 1, func(i int) {
		t := &x509.Certificate{SerialNumber: big.NewInt(1), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning, x509.ExtKeyUsageTimeStamping}}
		if _, err := cert.CreateCertificateInfo(t, t, csr); err != nil {
			fail("%v", err)
		}
	})
''', ['crypto/rand', 'crypto/x509', 'math/big', GM2, GMC], '''
var spki = []byte{0x30, 0x0b, 0x30, 5, 6, 3, 0x2a, 3, 4, 3, 2, 0, 1}
''')
conc('conc-pool-early-put', 'a decryption and another call that takes a hasher from the pool at once', 'Decrypt gives its hasher back to the pool before its last use',
    [(S2, '''	digest := sm3.New()
	c3Len := digest.Size()
''', '''	digest := digests.Get().(hash.Hash)
	c3Len := digest.Size()
'''), (S2, '''	kdf(digest, c1x, c1y, c2)

	digest.Reset()
	digest.Write(bigIntTo32Bytes(c1x))
''', '''	kdf(digest, c1x, c1y, c2)
	digests.Put(digest)

	digest.Reset()
	digest.Write(bigIntTo32Bytes(c1x))
'''), (S2, 'func Decrypt(', 'var digests = sync.Pool{New: func() interface{} { return sm3.New() }}\n\nfunc Decrypt('), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	m := bytes.Repeat([]byte{7}, 100000)
	c, _ := sm2.Encrypt(pub, m, sm2.C1C3C2)
	together(16, 20, func(i int) {
		d, err := sm2.Decrypt(pri, c, sm2.C1C3C2)
		if err != nil || !bytes.Equal(d, m) {
			fail("wrong plain text: %v", err)
		}
	})
''', ['bytes', 'crypto/rand', GM2])
conc('conc-last-key-two-locks', 'a call with another key between the look at the cached key and the read of the cached point', 'the point of the last private key is remembered; key and point are read in two critical sections',
    [(S2, 'func SignToRS(', '''// the public point of the private key used last
var last struct {
	sync.Mutex
	d, n, gx, x, y *big.Int
}

func publicPoint(priv *PrivateKey) (*big.Int, *big.Int) {
	last.Lock()
	same := last.d != nil && last.d.Cmp(priv.D) == 0 && last.n.Cmp(priv.Curve.N) == 0 && last.gx.Cmp(priv.Curve.Gx) == 0
	last.Unlock()
	if !same {
		x, y := priv.Curve.ScalarBaseMult(priv.D.Bytes())
		last.Lock()
		last.d, last.n, last.gx = new(big.Int).Set(priv.D), new(big.Int).Set(priv.Curve.N), new(big.Int).Set(priv.Curve.Gx)
		last.x, last.y = x, y
		last.Unlock()
	}
	last.Lock()
	defer last.Unlock()
	return last.x, last.y
}

func SignToRS('''), (S2, '	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())\n	if userId == nil', '	pubX, pubY := publicPoint(priv)\n	if userId == nil'),
     (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	k := make([]*sm2.PrivateKey, 4)
	p := make([]*sm2.PublicKey, 4)
	c := toy(1009, true)
	for i := range k {
		k[i], p[i] = toyKey(c, int64(100+i))
	}
	m := []byte("message")
	together(64, 20, func(i int) {
		for j := 0; j < 400; j++ {
			s, err := sm2.Sign(k[i%4], nil, m)
			if err != nil || !sm2.Verify(p[i%4], nil, m, s) {
				fail("own signature refused: %v", err)
			}
		}
	})
''', TI, TOY, race=False)
conc('conc-key-inverse-memo', 'two first signatures at once with one private key object', '1/(1+d) is kept in the key object; another call sees it before it is computed',
    [(S2, 'type PrivateKey struct {\n	D     *big.Int\n	Curve P256V1Curve\n}', 'type PrivateKey struct {\n	D     *big.Int\n	Curve P256V1Curve\n\n	inv *big.Int // 1/(1+D), once it was needed\n}'),
     (S2, '''		dPlus1ModN := util.Add(priv.D, intOne)
		dPlus1ModN = util.ModInverse(dPlus1ModN, priv.Curve.N)
''', '''		if priv.inv == nil {
			priv.inv = util.Add(priv.D, intOne)
			priv.inv = util.ModInverse(priv.inv, priv.Curve.N)
		}
		dPlus1ModN := priv.inv
''')], '''
	m := []byte("message")
	for r := 0; r < 20; r++ {
		k, p, _ := sm2.GenerateKey(rand.Reader)
		together(8, 1, func(i int) {
			s, err := sm2.Sign(k, nil, m)
			if err != nil || !sm2.Verify(p, nil, m, s) {
				fail("own signature refused: %v", err)
			}
		})
	}
''', ['crypto/rand', GM2])
conc('conc-lock-order', 'an encryption and a decryption at once', 'two locks guard two statistics and are taken in opposite orders: the calls wait for each other for ever',
    [(S2, '''	c2 := make([]byte, len(in))
	copy(c2, in)
	var c1 []byte
''', '''	count(&encrypted, &decrypted, len(in))
	c2 := make([]byte, len(in))
	copy(c2, in)
	var c1 []byte
'''), (S2, '''	c1 := make([]byte, c1Len)
	copy(c1, in[:c1Len])
''', '''	count(&decrypted, &encrypted, len(in)-c1Len-sm3.DigestLength)
	c1 := make([]byte, c1Len)
	copy(c1, in[:c1Len])
'''), (S2, 'func Encrypt(', '''type counter struct {
	sync.Mutex
	bytes, more int
}

var encrypted, decrypted counter

// count keeps the two totals, and how far one is ahead of the other
func count(c, other *counter, n int) {
	c.Lock()
	defer c.Unlock()
	c.bytes += n
	other.Lock()
	defer other.Unlock()
	c.more = c.bytes - other.bytes
	other.more = -c.more
}

func Encrypt('''), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	pri, pub := toyKey(toy(1009, true), 100)
	bad := make([]byte, 97)
	done := make(chan bool)
	go func() {
		together(64, 400, func(i int) {
			for j := 0; j < 30; j++ {
				if i%2 == 0 {
					sm2.Decrypt(pri, bad, sm2.C1C3C2)
				} else {
					sm2.Encrypt(pub, nil, 0)
				}
			}
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		fail("the calls wait for each other")
	}
''', TI + ['time'], TOY, race=False)
conc('conc-rlock-twice', 'a call that writes to a table while another one holds its read lock and asks for it again', 'a table of good points is read under a read lock taken twice: with a writer in between nobody can go on',
    [(S2, 'func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {\n', '''// points that were found on their curve, by their coordinates
var (
	goodLock   sync.RWMutex
	goodPoints = map[string]bool{}
)

func known(key string) bool {
	goodLock.RLock()
	defer goodLock.RUnlock()
	return goodPoints[key]
}

// mayLearn says whether there is room for the point in the table
func mayLearn(key string) bool {
	goodLock.RLock()
	defer goodLock.RUnlock()
	return len(goodPoints) < 4096 && !known(key)
}

func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
	key := pub.X.Text(62) + "," + pub.Y.Text(62) + "," + pub.Curve.P.Text(62)
	if mayLearn(key) && pub.Curve.IsOnCurve(pub.X, pub.Y) {
		goodLock.Lock()
		goodPoints[key] = true
		goodLock.Unlock()
	}
'''), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	done := make(chan bool)
	go func() {
		r := big.NewInt(0) // refused at once
		toy := toys()
		for n := 0; n < 300; n++ {
			together(16, 1, func(i int) {
				for j := 0; j < 40; j++ {
					sm2.VerifyByRS(toy[(n*40+j)%len(toy)], nil, nil, r, r)
				}
				sm2.VerifyByRS(pub, nil, nil, r, r)
			})
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		fail("the calls wait for each other")
	}
''', ['crypto/elliptic', 'crypto/rand', 'math/big', 'time', GM2], '''
// toys: points (x, y) on y^2 = x^3 - 3x + b for their own b
func toys() (l []*sm2.PublicKey) {
	p := big.NewInt(1000003)
	for i := int64(2); len(l) < 4000; i++ {
		x, y := big.NewInt(i), big.NewInt(2*i+1)
		b := new(big.Int).Mul(y, y)
		x3 := new(big.Int).Exp(x, big.NewInt(3), nil)
		b.Sub(b, x3).Add(b, big.NewInt(3*i)).Mod(b, p)
		l = append(l, &sm2.PublicKey{X: x, Y: y, Curve: sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{P: p, N: p, B: b, Gx: x, Gy: y, BitSize: 20}, A: big.NewInt(1000000)}})
	}
	return
}
''', race=False)
conc('conc-raw-key-array', 'two public keys written out at once', 'the bytes are put together in an array of the package and copied from there',
    [(S2, '	raw := make([]byte, 1+KeyBytes*2)\n	raw[0] = UnCompress\n	if xl', '	raw := rawKey[:]\n	raw[0] = UnCompress\n	if xl'),
     (S2, '		copy(raw[1+KeyBytes:], yBytes)\n	}\n	return raw\n}', '		copy(raw[1+KeyBytes:], yBytes)\n	}\n	return append([]byte(nil), raw...)\n}\n\nvar rawKey [1 + KeyBytes*2]byte'),
     ], '''
	var l []*sm2.PublicKey
	for i := 0; i < 8; i++ {
		_, p, _ := sm2.GenerateKey(rand.Reader)
		l = append(l, p)
	}
	together(8, 100, func(i int) {
		r := l[i].GetRawBytes()
		if !bytes.Equal(r[:32], l[i].X.FillBytes(make([]byte, 32))) {
			fail("bytes of another key")
		}
	})
''', ['bytes', 'crypto/rand', GM2])
conc('conc-published-early', 'a call between the store of the flag and the filling of the table', 'the substitution table in use is a copy that is marked as made by an atomic flag before it is filled',
    [(S4, 'func tau(a uint32) uint32 {\n', '''var (
	tableMade int32
	table     [256]byte
)

// the table that is used lies apart from the one of the standard, in memory of its own
func ready() {
	if atomic.CompareAndSwapInt32(&tableMade, 0, 1) {
		for i := range table {
			table[i] = sBox[i]
		}
	}
}

func tau(a uint32) uint32 {
	ready()
'''), (S4, '''	bArr[0] = sBox[aArr[0]]
	bArr[1] = sBox[aArr[1]]
	bArr[2] = sBox[aArr[2]]
	bArr[3] = sBox[aArr[3]]
''', '''	bArr[0] = table[aArr[0]]
	bArr[1] = table[aArr[1]]
	bArr[2] = table[aArr[2]]
	bArr[3] = table[aArr[3]]
'''), (S4, '	"strconv"\n', '	"strconv"\n	"sync/atomic"\n')], '''
	var l [8][]byte
	together(8, 1, func(i int) { l[i], _ = sm4.ECBEncrypt(make([]byte, 16), make([]byte, 16)) })
	for i := range l {
		if !bytes.Equal(l[i], l[0]) {
			fail("different results")
		}
	}
''', ['bytes', GM4])
conc('conc-waitgroup-add-inside', 'the goroutine that computes half of the sum is slower than the caller', 'the two products of a verification are computed side by side; the counter of the wait group is raised in the goroutine',
    [(S2, '''	sgx, sgy := pub.Curve.ScalarBaseMult(s.Bytes())
	tpx, tpy := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
	x, y :=''', '''	var sgx, sgy *big.Int
	var wg sync.WaitGroup
	go func() {
		wg.Add(1)
		defer wg.Done()
		sgx, sgy = pub.Curve.ScalarBaseMult(s.Bytes())
	}()
	tpx, tpy := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
	wg.Wait()
	if sgx == nil {
		sgx, sgy = pub.Curve.ScalarBaseMult(s.Bytes())
	}
	x, y :='''), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github')], '''
	k, p, _ := sm2.GenerateKey(rand.Reader)
	m := []byte("message")
	s, _ := sm2.Sign(k, nil, m)
	together(16, 40, func(i int) {
		if !sm2.Verify(p, nil, m, s) {
			fail("good signature refused")
		}
	})
''', ['crypto/rand', GM2])
conc('conc-sm3-schedule', 'two hashers at work at once', 'the message schedule of the compression is an array of the package',
    [(S3, '''	for j := 0; j < 16; j++ {
		digest.w[j] = digest.inWords[j]
	}
''', '''	w := &schedule
	for j := 0; j < 16; j++ {
		w[j] = digest.inWords[j]
	}
'''), (S3, '''		wj3 := digest.w[j-3]
''', '''		wj3 := w[j-3]
'''), (S3, '''		wj13 := digest.w[j-13]
''', '''		wj13 := w[j-13]
'''), (S3, '''		digest.w[j] = p1(digest.w[j-16]^digest.w[j-9]^r15) ^ r7 ^ digest.w[j-6]
	}
''', '''		w[j] = p1(w[j-16]^w[j-9]^r15) ^ r7 ^ w[j-6]
	}
	digest.w = *w
'''), (S3, 'func (digest *sm3Digest) processBlock() {\n', '// the message schedule; hashers fill it and take it over\nvar schedule [68]uint32\n\nfunc (digest *sm3Digest) processBlock() {\n')], '''
	want := sm3.Sum(nil)
	together(8, 100, func(i int) {
		if sm3.Sum(nil) != want || len(sm3.Sum([]byte{byte(i)})) != 32 {
			fail("different digests")
		}
	})
''', [GM3])
conc('conc-template-subject', 'two certificates made from one template at once', 'the template\'s subject is replaced during the call and put back afterwards',
    [(GX, '''	asn1Subject, err := subjectBytes(template)
	if err != nil {
		return nil, err
	}

	authorityKeyId :=''', '''	if len(template.RawSubject) == 0 {
		// encoded once, for the extensions as well
		raw, err := subjectBytes(template)
		if err != nil {
			return nil, err
		}
		template.RawSubject = raw
		defer func() { template.RawSubject = nil }()
	}
	asn1Subject := template.RawSubject

	authorityKeyId :=''')], '''
	_, pub, _ := sm2.GenerateKey(rand.Reader)
	csr := &x509.CertificateRequest{PublicKey: pub, RawSubjectPublicKeyInfo: []byte{0x30, 0x0b, 0x30, 5, 6, 3, 0x2a, 3, 4, 3, 2, 0, 1}}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "a"}}
	want, err := cert.CreateCertificateInfo(t, t, csr)
	if err != nil {
		fail("%v", err)
	}
	together(8, 50, func(i int) {
		c, err := cert.CreateCertificateInfo(t, t, csr)
		if err != nil || !bytes.Equal(c.Raw, want.Raw) {
			fail("another certificate: %v", err)
		}
	})
''', ['bytes', 'crypto/rand', 'crypto/x509', 'crypto/x509/pkix', 'math/big', GM2, GMC])
conc('conc-blinded-in-place', 'a call with the same private key object while a signature is being made', 'the private key is blinded in place by adding n and taken back afterwards',
    [(S2, '''		s = util.Mul(r, priv.D)
		s = util.Sub(k, s)
''', '''		priv.D.Add(priv.D, priv.Curve.N) // the same key, another number
		s = util.Mul(r, priv.D)
		priv.D.Sub(priv.D, priv.Curve.N)
		s = util.Sub(k, s)
''')], '''
	k, p, _ := sm2.GenerateKey(rand.Reader)
	m := []byte("message")
	together(8, 30, func(i int) {
		s, err := sm2.Sign(k, nil, m)
		if err != nil || !sm2.Verify(p, nil, m, s) {
			fail("own signature refused: %v", err)
		}
	})
''', ['crypto/rand', GM2])
conc('conc-lazy-dec-keys', 'two first decryptions at once with one block cipher', 'the round keys for decryption are made at the first decryption, in place',
    [(S4, '	c.dec = expandKey(key, false)\n', ''), (S4, '	processBlock(c.dec, src, dst)', '''	if c.dec == nil {
		c.dec = make([]uint32, len(c.enc))
		for i := range c.enc {
			c.dec[len(c.enc)-1-i] = c.enc[i]
		}
	}
	processBlock(c.dec, src, dst)''')], '''
	for r := 0; r < 200; r++ {
		c, _ := sm4.NewCipher(make([]byte, 16))
		together(4, 1, func(i int) {
			o := make([]byte, 16)
			c.Encrypt(o, make([]byte, 16))
			c.Decrypt(o, o)
			if o[0] != 0 {
				fail("wrong block")
			}
		})
	}
''', [GM4])
conc('conc-z-slot', 'a call with another key between the lookup of the cached Z and its use', 'Z of the last key is cached in one slot; the slot itself is handed out',
    [(S2, '''func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
	digest.Reset()
''', '''var zSlot struct {
	sync.Mutex
	key string
	z   []byte
}

func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
	key := curve.P.Text(62) + curve.B.Text(62) + "," + curve.A.Text(62) + curve.Gx.Text(62) + "," + curve.Gy.Text(62) + "," + pubX.Text(62) + "," + pubY.Text(62) + "," + string(userId)
	zSlot.Lock()
	defer zSlot.Unlock()
	if zSlot.key != key {
		zSlot.key = key
		zSlot.z = append(zSlot.z[:0], computeZ(digest, curve, pubX, pubY, userId)...)
		if _, err := fmt.Sscan("0"); err == nil {
			return nil
		}
	}
	return zSlot.z
}

func computeZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
	digest.Reset()
'''.replace('''		if _, err := fmt.Sscan("0"); err == nil {
			return nil
		}
''', '')), (S2, '\t"math/big"\n\n\t"github', '\t"math/big"\n\t"sync"\n\n\t"github'),
     (KX, '	zb := getZ(', '	za = append([]byte(nil), za...)\n	zb := getZ('), (KX, 'otherStaticPub.Y, otherId)\n', 'otherStaticPub.Y, otherId)\n	zb = append([]byte(nil), zb...)\n')], '''
	k := make([]*sm2.PrivateKey, 4)
	p := make([]*sm2.PublicKey, 4)
	for i := range k {
		k[i], p[i], _ = sm2.GenerateKey(rand.Reader)
	}
	m := []byte("message")
	together(16, 30, func(i int) {
		s, err := sm2.Sign(k[i%4], nil, m)
		if err != nil || !sm2.Verify(p[i%4], nil, m, s) {
			fail("own signature refused: %v", err)
		}
	})
''', ['crypto/rand', GM2])
