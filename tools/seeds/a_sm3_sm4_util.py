SM3, SM4, PAD = 'sm3/sm3.go', 'sm4/sm4.go', 'util/padding.go'
bug('sm3-length-high-word', 'C01', 'a message of 512 MiB or more', 'the high word of the bit length is computed from the byte count',
    [(SM3, 'digest.inWords[digest.xOff] = uint32(bitLength >> 32)', 'digest.inWords[digest.xOff] = uint32(digest.byteCount >> 32)')],
    '''
	h := sm3.New()
	b := make([]byte, 1<<20)
	for i := 0; i < 512; i++ {
		h.Write(b)
	}
	const want = "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533"
	if got := hex.EncodeToString(h.Sum(nil)); got != want {
		fail("SM3 of 512 MiB of zeros: %s, want %s", got, want)
	}
''', ['encoding/hex', 'github.com/ZZMarquis/gm/sm3'])
bug('sm3-length-block-edge', 'C01', 'a message whose length is 52..55 modulo 64', 'an extra block is hashed although the length still fits',
    [(SM3, 'if digest.xOff > (BlockSize - 2) {', 'if digest.xOff >= (BlockSize-2) && digest.byteCount > 64 {')],
    '''
	// one message in two encodings: the hash of a 128+54 byte message must not depend on internal padding choices
	want := "f69a91e75f924b1a1638ced0fe8e6db93fe37b9830ced8c6d83cfe25e14819ab"
	h := sm3.Sum(bytes.Repeat([]byte{'a'}, 182))
	if hex.EncodeToString(h[:]) != want {
		fail("SM3 of 182 bytes: %x, want %s", h, want)
	}
''', ['bytes', 'encoding/hex', 'github.com/ZZMarquis/gm/sm3'])
bug('sm3-long-write-count', 'C01', 'a single write of 64 KiB or more', 'the byte count adds only sixteen bits of the length of a write',
    [(SM3, 'digest.byteCount += int64(inLen)', 'digest.byteCount += int64(uint16(inLen))')],
    '''
	msg := bytes.Repeat([]byte("x"), 70000)
	want := sm3.Sum(msg)
	h := sm3.New()
	h.Write(msg[:30000])
	h.Write(msg[30000:])
	if !bytes.Equal(h.Sum(nil), want[:]) {
		fail("70000 bytes in one and in two writes hash differently")
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm3'])
bug('sm3-reset-shortcut', 'C02', 'Reset after a multiple of 64 bytes was written', 'Reset returns early when no input is buffered',
    [(SM3, '''func (digest *sm3Digest) Reset() {
''', '''func (digest *sm3Digest) Reset() {
	if digest.v[0] != 0 && digest.xOff == 0 && digest.xBufOff == 0 {
		return // nothing was written
	}
''')],
    '''
	h := sm3.New()
	h.Write(make([]byte, 128))
	h.Reset()
	h.Write([]byte("hello"))
	want := sm3.Sum([]byte("hello"))
	if !bytes.Equal(h.Sum(nil), want[:]) {
		fail("hash after Reset differs")
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm3'])
bug('sm3-sum-overwrites-spare', 'C02', 'Sum appending to a slice of length other than zero with enough capacity', 'Sum writes at the start of the given slice instead of behind its contents when there is room',
    [(SM3, '''	h := d1.checkSum()
	return append(b, h[:]...)''', '''	h := d1.checkSum()
	if cap(b) >= len(b)+2*DigestLength {
		b = b[:len(b)+DigestLength]
		copy(b[len(b)-DigestLength:cap(b)], h[:])
		copy(b[len(b):cap(b)], h[:])
		return b
	}
	return append(b, h[:]...)''')],
    '''
	buf := make([]byte, 128)
	sm3.New().Sum(buf[:3])
	for _, c := range buf[3+32:] {
		if c != 0 {
			fail("Sum wrote behind its result")
		}
	}
''', ['github.com/ZZMarquis/gm/sm3'])
bug('sm4-zero-word', 'C03', 'an intermediate word equal to zero (probability 2^-32 per round)', 'the round function returns zero for a zero word',
    [(SM4, 'func t(z uint32) uint32 {\n', 'func t(z uint32) uint32 {\n\tif z == 0 {\n\t\treturn 0\n\t}\n')],
    '''
	// with the all-zero key, the first round key is rk0; a plain text with x1^x2^x3 = rk0 makes the first round's word zero
	key := make([]byte, 16)
	const rk0 = 0x45603b23
	in := make([]byte, 16)
	binary.BigEndian.PutUint32(in[4:], rk0)
	c, _ := sm4.NewCipher(key)
	out := make([]byte, 16)
	c.Encrypt(out, in)
	if hex.EncodeToString(out) != "bb0779a40b2fb2031cd8234f695bc5b1" {
		fail("SM4 of %x under the zero key is %x", in, out)
	}
''', ['encoding/binary', 'encoding/hex', 'github.com/ZZMarquis/gm/sm4'])
bug('sm4-decrypt-aliased', 'C03', 'Decrypt with destination and source the same memory', 'the destination is cleared before the source is read',
    [(SM4, '''	processBlock(c.dec, src, dst)
''', '''	copy(dst, make([]byte, BlockSize))
	processBlock(c.dec, src, dst)
''')],
    '''
	for k := 0; k < 16; k++ {
		key := make([]byte, 16)
		key[0] = byte(k)
		c, _ := sm4.NewCipher(key)
		buf := make([]byte, 16)
		c.Encrypt(buf, []byte("0123456789abcdef"))
		c.Decrypt(buf, buf)
		if string(buf) != "0123456789abcdef" {
			fail("in-place decryption gives %q", buf)
		}
	}
''', ['github.com/ZZMarquis/gm/sm4'])
bug('sm4-key-schedule-shortcut', 'C03', 'a key with equal first two words', 'the decryption key schedule swaps two constants when the first two key words are equal',
    [(SM4, '''		for i := 0; i < 32; i++ {
			x[(i+4)%5] = decRound(''', '''		if mK[0] == mK[1] {
			x[0], x[1] = mK[0]^fK[1], mK[1]^fK[0]
		}
		for i := 0; i < 32; i++ {
			x[(i+4)%5] = decRound(''')],
    '''
	key := []byte("abcdabcd01234567")
	c, _ := sm4.NewCipher(key)
	in, enc, dec := []byte("0123456789abcdef"), make([]byte, 16), make([]byte, 16)
	c.Encrypt(enc, in)
	c.Decrypt(dec, enc)
	if string(dec) != string(in) {
		fail("decryption gives %q", dec)
	}
''', ['github.com/ZZMarquis/gm/sm4'])
bug('sm4-half-block-accepted', 'C04', 'an input whose length is 8 modulo 16', 'ECB encryption checks lengths modulo 8 and drops the tail',
    [(SM4, '''func ECBEncrypt(key, plainText []byte) (cipherText []byte, err error) {
	plainTextLen := len(plainText)
	if plainTextLen%BlockSize != 0 {
		return nil, errors.New("input not full blocks")
	}
''', '''func ECBEncrypt(key, plainText []byte) (cipherText []byte, err error) {
	plainTextLen := len(plainText)
	if plainTextLen&(BlockSize/2-1) != 0 {
		return nil, errors.New("input not full blocks")
	}
	plainTextLen &^= BlockSize - 1
''')],
    '''
	if out, err := sm4.ECBEncrypt(make([]byte, 16), make([]byte, 24)); err == nil {
		fail("24 bytes accepted, output %d bytes", len(out))
	}
''', ['github.com/ZZMarquis/gm/sm4'])
bug('sm4-cbc-in-place', 'C04', 'the cipher text is used again after decryption', 'CBC decryption decrypts in the caller\'s buffer',
    [(SM4, '	plainText = make([]byte, len(cipherText))\n	decrypter', '	plainText = cipherText[:len(cipherText):len(cipherText)]\n	decrypter')],
    '''
	key, iv := make([]byte, 16), make([]byte, 16)
	ct, _ := sm4.CBCEncrypt(key, iv, make([]byte, 32))
	a, _ := sm4.CBCDecrypt(key, iv, ct)
	b, _ := sm4.CBCDecrypt(key, iv, ct)
	if !bytes.Equal(a, make([]byte, 32)) || !bytes.Equal(b, make([]byte, 32)) {
		fail("second decryption of the same cipher text differs")
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm4'])
bug('sm4-ecb-decrypt-long', 'C04', 'a cipher text of more than 4096 bytes', 'ECB decryption processes long inputs in chunks and skips the last block of a full chunk pair',
    [(SM4, '''	for i := 0; i < cipherTextLen; i += BlockSize {
		c.Decrypt(''', '''	for i := 0; i < cipherTextLen; i += BlockSize {
		if i == 4096 && cipherTextLen-i > BlockSize {
			i += BlockSize
		}
		c.Decrypt(''')],
    '''
	key := make([]byte, 16)
	pt := make([]byte, 8192)
	ct, _ := sm4.ECBEncrypt(key, pt)
	ct2, _ := sm4.ECBEncrypt(key, append([]byte{}, bytes.Repeat([]byte{7}, 8192)...))
	a, _ := sm4.ECBDecrypt(key, ct2)
	_ = ct
	if !bytes.Equal(a, bytes.Repeat([]byte{7}, 8192)) {
		fail("8192 bytes do not decrypt")
	}
''', ['bytes', 'github.com/ZZMarquis/gm/sm4'])
bug('pkcs5-wide-padding', 'C05', 'a block size above 32 and a padding longer than 31 bytes', 'unpadding looks at five bits of the padding length',
    [(PAD, 'unpadding := int(src[length-1])', 'unpadding := int(src[length-1] & 0x1f)')],
    '''
	in := []byte("hello")
	if got := util.PKCS5UnPadding(util.PKCS5Padding(in, 64)); string(got) != "hello" {
		fail("unpadding gives %q", got)
	}
''', ['github.com/ZZMarquis/gm/util'])
bug('zero-padding-aligned', 'C05', 'an input that is already a multiple of a block size above 16', 'zero padding adds nothing to aligned input',
    [(PAD, '''	padding := blockSize - len(src)%blockSize
	padtext := bytes.Repeat([]byte{0}, padding)''', '''	padding := blockSize - len(src)%blockSize
	if padding == blockSize && blockSize > 16 {
		padding = 0
	}
	padtext := bytes.Repeat([]byte{0}, padding)''')],
    '''
	if got := util.ZeroPadding(make([]byte, 32), 32); len(got) != 64 {
		fail("padded length %d", len(got))
	}
''', ['github.com/ZZMarquis/gm/util'])
