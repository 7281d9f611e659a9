CA, CS, CB = 'cryptobyte/asn1.go', 'cryptobyte/string.go', 'cryptobyte/builder.go'
CBI = ['github.com/ZZMarquis/gm/cryptobyte']
CBA = CBI + ['asn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"']
EA = ['ea "encoding/asn1"']
bug('der-int-minus128', 'C23', 'a negative integer at the edge of a byte (-128, -32768, ...)', 'one octet too many is written for -2^(8k-1)',
    [(CA, 'for i := v; i >= 0x80 || i < -0x80; i >>= 8 {', 'for i := v; i >= 0x80 || i <= -0x80; i >>= 8 {')],
    '''
	for _, v := range []int64{-128, -32768, -1 << 63} {
		var b cryptobyte.Builder
		b.AddASN1Int64(v)
		got, err := b.Bytes()
		want, _ := ea.Marshal(v)
		if err != nil || !bytes.Equal(got, want) {
			fail("INTEGER %d: %x, want %x", v, got, want)
		}
	}
''', CBI + EA + ['bytes'])
bug('der-uint64-top-bit', 'C23', 'an unsigned integer of 2^63 or more', 'the sign octet is left out for 64-bit values',
    [(CA, '''		for i := v; i >= 0x80; i >>= 8 {
			length++
		}
''', '''		for i := v; i >= 0x80 && length < 8; i >>= 8 {
			length++
		}
''')],
    '''
	var b cryptobyte.Builder
	b.AddASN1Uint64(1<<63 + 5)
	s := cryptobyte.String(b.BytesOrPanic())
	var v uint64
	if !s.ReadASN1Integer(&v) || v != 1<<63+5 {
		fail("2^63+5 read back as %d", v)
	}
''', CBI)
bug('der-bigint-negative-pad', 'C23', 'a negative big integer -2^(8k-1)-1 .. whose complement starts with a set top bit', 'the sign octet of a negative number is decided before the complement is taken',
    [(CA, 'if len(bytes) == 0 || bytes[0]&0x80 == 0 {', 'if len(bytes) == 0 || bytes[0] < 0x7f {')],
    '''
	for i := int64(-70000); i < 0; i++ {
		var b cryptobyte.Builder
		b.AddASN1BigInt(big.NewInt(i))
		want, _ := ea.Marshal(i)
		if got := b.BytesOrPanic(); !bytes.Equal(got, want) {
			fail("INTEGER %d: %x, want %x", i, got, want)
		}
	}
''', CBI + EA + ['bytes', 'math/big'])
bug('der-int-minimal-negative', 'C23', 'an INTEGER with a redundant 0xff octet', 'redundant sign octets of negative numbers are accepted',
    [(CA, 'bytes[0] == 0xff && bytes[1]&0x80 == 0x80 {', 'bytes[0] == 0xff && bytes[1] == 0xff {')],
    '''
	s := cryptobyte.String([]byte{2, 2, 0xff, 0x80})
	var v int64
	if s.ReadASN1Integer(&v) {
		fail("non-minimal INTEGER accepted as %d", v)
	}
''', CBI)
bug('der-uint-nine-octets', 'C23', 'an INTEGER of nine octets with a first octet other than zero', 'a nine-octet number is truncated to 64 bits',
    [(CA, 'if length > 9 || length == 9 && n[0] != 0 {', 'if length > 9 || length == 9 && n[0]&0x80 != 0 {')],
    '''
	s := cryptobyte.String([]byte{2, 9, 1, 0, 0, 0, 0, 0, 0, 0, 7})
	var v uint64
	if s.ReadASN1Integer(&v) {
		fail("2^64+7 read as %d", v)
	}
''', CBI)
bug('der-enum-signed', 'C23', 'a negative enumeration value written by the builder', 'enumerations are read as unsigned when they are one octet long',
    [(CA, '''	if int64(int(i)) != i {
		return false
	}
	*out = int(i)''', '''	if int64(int(i)) != i {
		return false
	}
	if len(bytes) == 1 {
		i &= 0xff
	}
	*out = int(i)''')],
    '''
	var b cryptobyte.Builder
	b.AddASN1Enum(-5)
	s := cryptobyte.String(b.BytesOrPanic())
	var v int
	if !s.ReadASN1Enum(&v) || v != -5 {
		fail("ENUMERATED -5 read as %d", v)
	}
''', CBI)
bug('der-oid-second-component', 'C23', 'an identifier 2.x with x >= 48 (first octet group of 128 or more)', 'the first group of an identifier is written as a single octet',
    [(CA, '		b.addBase128Int(int64(oid[0])*40 + int64(oid[1]))\n', '		first := int64(oid[0])*40 + int64(oid[1])\n		if first < 0x100 {\n			b.AddUint8(uint8(first) & 0x7f)\n		} else {\n			b.addBase128Int(first)\n		}\n')],
    '''
	oid := ea.ObjectIdentifier{2, 100, 3}
	var b cryptobyte.Builder
	b.AddASN1ObjectIdentifier(oid)
	s := cryptobyte.String(b.BytesOrPanic())
	var got ea.ObjectIdentifier
	if !s.ReadASN1ObjectIdentifier(&got) || !got.Equal(oid) {
		fail("2.100.3 read back as %v", got)
	}
''', CBI + EA)
bug('der-oid-padded-group', 'C23', 'a later group of an identifier with a redundant leading 0x80', 'padding is only refused when the group has more than two octets',
    [(CA, 'if ret == 0 && b == 0x80 {', 'if ret == 0 && b == 0x80 && len(*s) > 1 {')],
    '''
	s := cryptobyte.String([]byte{6, 3, 42, 0x80, 1})
	var got ea.ObjectIdentifier
	if s.ReadASN1ObjectIdentifier(&got) {
		fail("padded identifier accepted: %v", got)
	}
''', CBI + EA)
bug('der-bitstring-padding-mask', 'C23', 'a BIT STRING with a set padding bit other than the lowest', 'only the lowest padding bit is checked',
    [(CA, 'bytes[len(bytes)-1]&(1<<paddingBits-1) != 0 {', 'bytes[len(bytes)-1]&1<<paddingBits-1 == 1<<paddingBits-1 && paddingBits > 0 {')],
    '''
	s := cryptobyte.String([]byte{3, 2, 4, 0x84})
	var got ea.BitString
	if s.ReadASN1BitString(&got) {
		fail("BIT STRING with padding bits set accepted: %v", got)
	}
''', CBI + EA)
bug('der-time-offset', 'C23', 'a GeneralizedTime with a numeric time zone or leap second form that does not serialise to itself', 'times that are not in canonical form are accepted',
    [(CA, 'if serialized := res.Format(generalizedTimeFormatStr); serialized != t {', 'if serialized := res.Format(generalizedTimeFormatStr); len(serialized) > len(t) {')],
    '''
	s := cryptobyte.String(append([]byte{0x18, 19}, "20200101000000+0000"...))
	var got time.Time
	if s.ReadASN1GeneralizedTime(&got) {
		fail("20200101000000+0000 accepted")
	}
''', CBI + ['time'])
bug('der-optional-int-trailing', 'C23', 'an explicitly tagged optional INTEGER followed by more content inside the tag', 'the rest of the explicit tag is ignored',
    [(CA, 'if !i.ReadASN1Integer(out) || !i.Empty() {', 'if !i.ReadASN1Integer(out) {')],
    '''
	s := cryptobyte.String([]byte{0xa0, 5, 2, 1, 7, 5, 0})
	var v int
	if s.ReadOptionalASN1Integer(&v, asn1.Tag(0).Constructed().ContextSpecific(), 3) {
		fail("accepted %d with trailing content", v)
	}
''', CBA)
bug('reader-long-form-128', 'C24', 'an element of exactly 127 content octets in long form', 'the long form is accepted for a content length of 127',
    [(CA, 'if len32 < 128 {', 'if len32 < 127 {')],
    '''
	s := cryptobyte.String(append([]byte{4, 0x81, 127}, make([]byte, 127)...))
	var out cryptobyte.String
	if s.ReadASN1(&out, asn1.OCTET_STRING) {
		fail("127 octets in long form accepted")
	}
''', CBA)
bug('reader-length-leading-zero', 'C24', 'a long-form length of three octets with a leading zero octet', 'leading zero octets in lengths of three or more octets are accepted',
    [(CA, 'if len32>>((lenLen-1)*8) == 0 {', 'if lenLen == 2 && len32>>8 == 0 {')],
    '''
	s := cryptobyte.String(append([]byte{4, 0x83, 0, 1, 0}, make([]byte, 256)...))
	var out cryptobyte.String
	if s.ReadASN1(&out, asn1.OCTET_STRING) {
		fail("non-minimal length accepted")
	}
''', CBA)
bug('reader-length-overflow', 'C24', 'a four-octet length of 0xfffffffa or more', 'the overflow check looks at the sum only',
    [(CA, 'if headerLen+len32 < len32 {', 'if int64(headerLen)+int64(len32) < int64(len32) {')],
    '''
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	s := cryptobyte.String([]byte{4, 0x84, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0})
	var out cryptobyte.String
	var tag asn1.Tag
	if s.ReadAnyASN1(&out, &tag) {
		fail("length 2^32-1 accepted")
	}
''', CBA)
bug('reader-high-tag', 'C24', 'a high-tag-number identifier of another class than universal', 'only universal high-tag-number identifiers are refused',
    [(CA, '	if tag&0x1f == 0x1f {\n		// ITU-T', '	if tag&0xdf == 0x1f {\n		// ITU-T')],
    '''
	s := cryptobyte.String([]byte{0xbf, 1, 0})
	var out cryptobyte.String
	var tag asn1.Tag
	if s.ReadAnyASN1(&out, &tag) {
		fail("high tag number accepted")
	}
''', CBA)
bug('reader-optional-present-flag', 'C24', 'an optional element that is present but malformed, or absent after an earlier present one', 'the presence flag is only ever set, never cleared',
    [(CA, '''	if outPresent != nil {
		*outPresent = present
	}
	if present && !s.ReadASN1(out, tag) {''', '''	if outPresent != nil && present {
		*outPresent = true
	}
	if present && !s.ReadASN1(out, tag) {''')],
    '''
	s := cryptobyte.String([]byte{0xa0, 1, 9, 5, 0})
	var out cryptobyte.String
	p := true
	s.ReadOptionalASN1(&out, &p, asn1.Tag(0).Constructed().ContextSpecific())
	s.ReadOptionalASN1(&out, &p, asn1.Tag(1).Constructed().ContextSpecific())
	if p {
		fail("absent element reported as present")
	}
''', CBA)
bug('reader-optional-octets-default', 'C23', 'an optional octet string that is absent, read into a variable with earlier contents', 'the destination keeps its earlier contents when the element is absent',
    [(CA, '''		*out = oct
	} else {
		*out = nil
	}''', '''		*out = oct
	} else if outPresent == nil {
		*out = nil
	}''')],
    '''
	s := cryptobyte.String([]byte{5, 0})
	out := []byte("earlier")
	p := true
	if !s.ReadOptionalASN1OctetString(&out, &p, asn1.Tag(0).Constructed().ContextSpecific()) || p || out != nil {
		fail("absent octet string: %q, present %v", out, p)
	}
''', CBA)
bug('reader-uint24-prefix-consumed', 'C24', 'a length-prefixed string whose content is shorter than its three-octet length', 'a truncated 24-bit prefixed string yields what is there',
    [(CS, '''	v := s.read(int(length))
	if v == nil {
		return false
	}
	*outChild = v''', '''	v := s.read(int(length))
	if v == nil && lenLen == 3 && len(*s) > 0xff {
		v = s.read(len(*s))
	}
	if v == nil {
		return false
	}
	*outChild = v''')],
    '''
	s := cryptobyte.String(append([]byte{0, 2, 0}, make([]byte, 511)...))
	var out cryptobyte.String
	if s.ReadUint24LengthPrefixed(&out) {
		fail("%d of 512 bytes accepted", len(out))
	}
''', CBI)
bug('builder-length-255', 'C25', 'an element of exactly 255 content octets', 'the boundary between one and two length octets is off by one',
    [(CB, '} else if length > 0xff {', '} else if length >= 0xff {')],
    '''
	var b cryptobyte.Builder
	b.AddASN1OctetString(make([]byte, 255))
	got := b.BytesOrPanic()
	if got[1] != 0x81 || len(got) != 258 {
		fail("255 octets encoded as %x... (%d bytes)", got[:5], len(got))
	}
''', CBI)
bug('builder-overflow-prefix', 'C25', 'a two-octet length-prefixed string of 65536 bytes', 'a content length that is a multiple of 65536 passes the check of the length prefix',
    [(CB, '''	if l != 0 {
		b.err''', '''	if l != 0 && uint16(length) != 0 {
		b.err''')],
    '''
	var b cryptobyte.Builder
	b.AddUint16LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(make([]byte, 65536)) })
	if got, err := b.Bytes(); err == nil {
		fail("65536 bytes behind a 16-bit length: %x...", got[:4])
	}
''', CBI)
bug('builder-in-continuation-stuck', 'C25', 'two build errors raised in successive continuations of builders sharing state', 'a second continuation of the same builder no longer catches build errors after the first has finished normally',
    [(CB, '''		defer func() {
			*b.inContinuation = false

			r := recover()
			if r == nil {
				return
			}
''', '''		defer func() {
			r := recover()
			if r == nil {
				return
			}
			*b.inContinuation = false
''')],
    '''
	defer func() {
		if r := recover(); r != nil {
			fail("panic %v passes through", r)
		}
	}()
	var b cryptobyte.Builder
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: errors.New("x")}) })
	if _, err := b.Bytes(); err == nil {
		fail("no error")
	}
''', CBI + ['errors'])
bug('builder-fixed-der-move', 'C25', 'a write of several bytes into a fixed buffer with room for some of them', 'a fixed builder accepts any write as long as one byte is free',
    [(CB, 'if b.fixedSize && len(b.result)+len(bytes) > cap(b.result) {', 'if b.fixedSize && len(b.result) >= cap(b.result) && len(bytes) > 0 {')],
    '''
	b := cryptobyte.NewFixedBuilder(make([]byte, 0, 131))
	b.AddASN1OctetString(make([]byte, 127))
	b.AddUint24(7)
	if got, err := b.Bytes(); err == nil {
		fail("%d bytes in a buffer of 131", len(got))
	}
''', CBI)
bug('builder-child-error-lost', 'C25', 'an error recorded in a nested child that is followed by an overlong sibling', 'the error of a grandchild is dropped when its parent is of fixed size',
    [(CB, '''	if child.err != nil {
		b.err = child.err
		return
	}

	length :=''', '''	if child.err != nil {
		if !child.fixedSize || b.inContinuation == nil {
			b.err = child.err
		}
		return
	}

	length :=''')],
    '''
	b := cryptobyte.NewFixedBuilder(make([]byte, 0, 10))
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(make([]byte, 20)) })
	if got, err := b.Bytes(); err == nil {
		fail("20 bytes in a buffer of 10: %x", got)
	}
''', CBI)
bug('builder-value-error-overwritten', 'C25', 'AddValue with a value that succeeds after an earlier error', 'adding a valid value clears an earlier error',
    [(CB, '''	err := v.Marshal(b)
	if err != nil {
		b.err = err
	}''', '''	saved := b.err
	b.err = nil
	if b.err = v.Marshal(b); b.err != nil && saved != nil {
		b.err = saved
	}''')],
    '''
	b := cryptobyte.NewFixedBuilder(make([]byte, 0, 2))
	b.AddUint24(7)
	b.AddValue(val{})
	if got, err := b.Bytes(); err == nil {
		fail("error lost, bytes %x", got)
	}
''', CBI, '''
type val struct{}

func (val) Marshal(b *cryptobyte.Builder) error {
	b.AddUint8(9)
	return nil
}
''')
