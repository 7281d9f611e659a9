# Third round: slightly different arguments, large inputs, objects that are used again.
NB = 'github.com/ZZMarquis/gm/cryptobyte'
bug('sm4-last-key-kept', 'C03', 'two keys that differ in their last byte only, one straight after the other', 'the key schedule of the last key is kept and found again by the first fifteen bytes',
    [(S4, 'func NewCipher(key []byte) (cipher.Block, error) {\n', '''var last struct {
	sync.Mutex
	key      [KeySize]byte
	enc, dec []uint32
}

func NewCipher(key []byte) (cipher.Block, error) {
'''), (S4, '	c := new(sm4Cipher)\n	c.enc = expandKey(key, true)\n	c.dec = expandKey(key, false)\n', '''	last.Lock()
	defer last.Unlock()
	c := new(sm4Cipher)
	if last.enc != nil && string(last.key[:n-1]) == string(key[:n-1]) {
		c.enc, c.dec = last.enc, last.dec
		return c, nil
	}
	c.enc = expandKey(key, true)
	c.dec = expandKey(key, false)
	copy(last.key[:], key)
	last.enc, last.dec = c.enc, c.dec
'''), (S4, 'import (\n', 'import (\n	"sync"\n')],
    '''
	k := make([]byte, 16)
	b := make([]byte, 16)
	o := make([][]byte, 2)
	for i := range o {
		k[15] = byte(i)
		c, _ := sm4.NewCipher(k)
		o[i] = make([]byte, 16)
		c.Encrypt(o[i], b)
	}
	if string(o[0]) == string(o[1]) {
		fail("two keys give the same ciphertext")
	}
''', [GM4])
bug('padding-large-in-place', 'C05', 'an argument of 64 KiB or more with room behind it', 'large inputs are padded without copying them when there is room',
    [(PAD, '''func ZeroPadding(src []byte, blockSize int) []byte {
	padding := blockSize - len(src)%blockSize
''', '''func ZeroPadding(src []byte, blockSize int) []byte {
	padding := blockSize - len(src)%blockSize
	if n := len(src); n >= 1<<16 && cap(src)-n >= padding {
		// copying would cost more than the padding itself
		for src = src[:n+padding]; n < len(src); n++ {
			src[n] = 0
		}
		return src
	}
''')],
    '''
	b := make([]byte, 1<<16+16)
	b[1<<16] = 7
	util.ZeroPadding(b[:1<<16], 16)
	if b[1<<16] != 7 {
		fail("the byte behind the argument was overwritten")
	}
''', ['github.com/ZZMarquis/gm/util'])
bug('verify-id-top-bit', 'C08', 'a user id of 4096 bytes or more', 'verification hashes the id with a length of fifteen bits',
    [(S2, 'func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {\n	digest.Reset()\n\n	userIdLen := uint16(len(userId) * 8)\n',
      '''func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
	return zValue(digest, curve, pubX, pubY, userId, uint16(len(userId)*8))
}

func zValue(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte, userIdLen uint16) []byte {
	digest.Reset()

'''),
     (S2, '	e := calculateE(digest, &pub.Curve, pub.X, pub.Y, userId, src)\n\n	intZero := new(big.Int).SetInt64(0)\n	t := util.Add(r, s)\n', '''	z := zValue(digest, &pub.Curve, pub.X, pub.Y, userId, uint16(len(userId)<<3&0x7fff))
	digest.Reset()
	digest.Write(z)
	digest.Write(src)
	e := new(big.Int).SetBytes(digest.Sum(nil))

	intZero := new(big.Int).SetInt64(0)
	t := util.Add(r, s)
''')],
    '''
	pri, pub, _ := sm2.GenerateKey(rand.Reader)
	id := make([]byte, 5000)
	sig, err := sm2.Sign(pri, id, []byte("m"))
	if err != nil || !sm2.Verify(pub, id, []byte("m"), sig) {
		fail("a signature with an id of 5000 bytes does not verify")
	}
''', ['crypto/rand', GM2])
conc('conc-lazy-mask-table', 'two certificates with IP name constraints parsed at once, as the first ones', 'the table of valid mask bytes is filled at its first use',
    [(GX, 'func isValidIPMask(mask []byte) bool {\n	seenZero := false\n', '''// maskBytes marks the bytes that can end the ones of a mask.
var maskBytes map[byte]bool

func isValidIPMask(mask []byte) bool {
	if maskBytes == nil {
		maskBytes = map[byte]bool{}
		for i := uint(1); i <= 8; i++ {
			maskBytes[byte(0xff<<i)] = true
		}
	}
	seenZero := false
'''), (GX, '''		switch b {
		case 0x00, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe:
			seenZero = true
		case 0xff:
		default:
			return false
		}
''', '''		if b == 0xff {
			continue
		}
		if !maskBytes[b] {
			return false
		}
		seenZero = true
''')],
    r'''
	der, err := issueDER(&x509.Certificate{ExtraExtensions: []pkix.Extension{with(false, ce(30), "\x30\x0e\xa0\x0c\x30\x0a\x87\x08\x0a\x00\x00\x00\xff\x80\x00\x00")}}, ca)
	if err != nil {
		fail("%v", err)
	}
	together(4, 1, func(i int) {
		if _, err := cert.ParseCertificate(der); err != nil {
			fail("%v", err)
		}
	})
''', CI + EAI, FTOP)
bug('builder-keeps-slice', 'C25', 'a buffer whose contents are replaced after its bytes were added first of all', 'the first bytes added to an empty builder become its buffer instead of being copied',
    [('cryptobyte/builder.go', '''func (b *Builder) AddBytes(v []byte) {
	b.add(v...)
''', '''func (b *Builder) AddBytes(v []byte) {
	if b.result == nil && b.err == nil && b.child == nil && !b.fixedSize {
		b.result = v[:len(v):len(v)] // no need for a copy yet
		return
	}
	b.add(v...)
''')],
    '''
	var b cryptobyte.Builder
	buf := []byte("one")
	b.AddBytes(buf)
	copy(buf, "two")
	b.AddBytes(buf)
	if out := b.BytesOrPanic(); string(out) != "onetwo" {
		fail("the builder holds %q", out)
	}
''', [NB])
bug('der-zero-into-used', 'C23', 'a zero INTEGER read into a big.Int that holds another value', 'zero is taken to be what the destination holds anyway',
    [('cryptobyte/asn1.go', '		out.SetBytes(bytes)\n	}\n	return true\n}\n\nfunc (s *String) readASN1Int64', '		if len(bytes) > 1 || bytes[0] != 0 {\n			out.SetBytes(bytes)\n		}\n	}\n	return true\n}\n\nfunc (s *String) readASN1Int64')],
    '''
	x := big.NewInt(77)
	s := cryptobyte.String([]byte{2, 1, 0})
	if !s.ReadASN1Integer(x) || x.Sign() != 0 {
		fail("zero is read as %d", x)
	}
''', ['math/big', NB])
bug('der-bool-into-used', 'C23', 'FALSE read into a variable that is true', 'only TRUE is stored',
    [('cryptobyte/asn1.go', '	case 0:\n		*out = false\n	case 0xff:\n		*out = true\n', '	case 0:\n	case 0xff:\n		*out = true\n')],
    '''
	v := true
	s := cryptobyte.String([]byte{1, 1, 0})
	if !s.ReadASN1Boolean(&v) || v {
		fail("FALSE is read as TRUE")
	}
''', [NB])
bug('der-oid-into-used', 'C16', 'an identifier read into a variable that held one as long', 'the components are stored in the array the destination has',
    [('cryptobyte/asn1.go', '	components := make([]int, len(bytes)+1)\n', '''	components := []int(*out)
	if cap(components) < len(bytes)+1 {
		components = make([]int, len(bytes)+1)
	}
	components = components[:len(bytes)+1]
''')],
    '''
	id := asn1.ObjectIdentifier{1, 2, 3, 4, 5, 6, 7, 8}
	kept := id
	s := cryptobyte.String([]byte{6, 1, 42})
	if !s.ReadASN1ObjectIdentifier(&id) || len(id) != 2 || kept[1] != 2 || id[1] != 2 || kept[2] != 3 {
		fail("%v %v", id, kept)
	}
	s = cryptobyte.String([]byte{6, 2, 43, 7})
	s.ReadASN1ObjectIdentifier(&id)
	if kept[0] != 1 || kept[1] != 2 || kept[2] != 3 {
		fail("an identifier kept by the caller has become %v", kept)
	}
''', ['encoding/asn1', NB])
bug('der-bigint-negates', 'C16', 'a negative big.Int given to the builder', 'the two\'s complement of a negative number is formed in place',
    [('cryptobyte/asn1.go', '			nMinus1 := new(big.Int).Neg(n)\n', '			nMinus1 := n.Neg(n)\n')],
    '''
	n := big.NewInt(-5)
	var b cryptobyte.Builder
	b.AddASN1BigInt(n)
	if n.Int64() != -5 {
		fail("the number has become %d", n)
	}
''', ['math/big', NB])
bug('oid-merged-in-place', 'C16', 'an identifier given to the builder and used again', 'the first two components are merged in the caller\'s slice',
    [('cryptobyte/asn1.go', '''		b.addBase128Int(int64(oid[0])*40 + int64(oid[1]))
		for _, v := range oid[2:] {
''', '''		oid = oid[1:]
		oid[0] += first * 40
		for _, v := range oid {
'''), ('cryptobyte/asn1.go', '			b.err = fmt.Errorf("cryptobyte: invalid OID: %v", oid)\n			return\n		}\n', '			b.err = fmt.Errorf("cryptobyte: invalid OID: %v", oid)\n			return\n		}\n		first := oid[0]\n')],
    '''
	id := asn1.ObjectIdentifier{2, 5, 29}
	var b cryptobyte.Builder
	b.AddASN1ObjectIdentifier(id)
	if id[1] != 5 {
		fail("the identifier has become %v", id)
	}
''', ['encoding/asn1', NB])
