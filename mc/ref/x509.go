package ref

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
)

// Encoders and a strict decoder for PKCS#10 requests and X.509 certificates, written from the standards.

var (
	OIDSM2Curve = []int{1, 2, 156, 10197, 1, 301}
	OIDSM3SM2   = []int{1, 2, 156, 10197, 1, 501}
	OIDECPub    = []int{1, 2, 840, 10045, 2, 1}
	OIDExtReq   = []int{1, 2, 840, 113549, 1, 9, 14}
)

func OID(o ...int) []byte {
	c, ok := OIDContent(o)
	if !ok {
		panic(fmt.Sprint("not an OID: ", o))
	}
	return TLV(6, c)
}

func BitString(b []byte) []byte { return TLV(3, []byte{0}, b) }

func AlgSM3SM2() []byte { return TLV(0x30, OID(OIDSM3SM2...)) }

func PointBytes(p Point) []byte { return append(append([]byte{4}, B32(p.X)...), B32(p.Y)...) }

func SPKIRaw(alg, params, point []byte) []byte {
	return TLV(0x30, TLV(0x30, alg, params), BitString(point))
}

func SPKI(p Point) []byte { return SPKIRaw(OID(OIDECPub...), OID(OIDSM2Curve...), PointBytes(p)) }

func Signed(tbs, alg, sig []byte) []byte { return TLV(0x30, tbs, alg, BitString(sig)) }

func CSRInfo(version int64, subject, spki []byte, attrs ...[]byte) []byte {
	return TLV(0x30, DERInt(big.NewInt(version)), subject, spki, TLV(0xa0, attrs...))
}

func SetOf(elems ...[]byte) []byte {
	e := append([][]byte{}, elems...)
	sort.Slice(e, func(i, j int) bool { return bytes.Compare(e[i], e[j]) < 0 })
	return TLV(0x31, e...)
}

func Attr(oid []int, values ...[]byte) []byte { return TLV(0x30, OID(oid...), SetOf(values...)) }

func Ext(oid []int, critical bool, value []byte) []byte {
	if critical {
		return TLV(0x30, OID(oid...), TLV(1, []byte{0xff}), TLV(4, value))
	}
	return TLV(0x30, OID(oid...), TLV(4, value))
}

// X509Time is UTCTime from 1950 to 2049 and GeneralizedTime otherwise.
func X509Time(c Civil) []byte {
	g := c.GenTime()
	if c.Y >= 1950 && c.Y <= 2049 {
		return TLV(0x17, g[2:])
	}
	return TLV(0x18, g)
}

// TBSCert is a version 3 to-be-signed certificate.
func TBSCert(serial *big.Int, alg, issuer, notBefore, notAfter, subject, spki []byte, exts ...[]byte) []byte {
	parts := [][]byte{TLV(0xa0, DERInt(big.NewInt(2))), DERInt(serial), alg, issuer, TLV(0x30, notBefore, notAfter), subject, spki}
	if len(exts) > 0 {
		parts = append(parts, TLV(0xa3, TLV(0x30, exts...)))
	}
	return TLV(0x30, parts...)
}

type ExtInfo struct {
	OID      []int
	Critical bool
	Value    []byte
}

func (e ExtInfo) Key() string { return fmt.Sprint(e.OID) }

type CertInfo struct {
	TBS, OuterAlg, Sig        []byte
	Version                   int64
	Serial                    *big.Int
	Alg, Issuer, Subject, Key []byte // whole elements
	NotBefore, NotAfter       int64
	Exts                      []ExtInfo
	HasExts                   bool
}

var errDER = errors.New("not the expected DER structure")

type rd struct {
	b   []byte
	err error
}

func (r *rd) next(tag int) (content, whole []byte) {
	if r.err != nil {
		return nil, nil
	}
	t, c, w, rest, ok := Elem(r.b)
	if !ok || tag >= 0 && int(t) != tag {
		r.err = fmt.Errorf("%w: wanted tag %02x at %x", errDER, tag, head(r.b))
		return nil, nil
	}
	r.b = rest
	return c, w
}

func (r *rd) peek(tag byte) bool { return r.err == nil && len(r.b) > 0 && r.b[0] == tag }

func (r *rd) end() {
	if r.err == nil && len(r.b) != 0 {
		r.err = fmt.Errorf("%w: surplus bytes %x", errDER, head(r.b))
	}
}

func (r *rd) int(tag int) *big.Int {
	c, _ := r.next(tag)
	if r.err != nil {
		return new(big.Int)
	}
	v, ok := ParseInt(c)
	if !ok {
		r.err = fmt.Errorf("%w: integer %x", errDER, head(c))
		return new(big.Int)
	}
	return v
}

func (r *rd) oid() []int {
	c, _ := r.next(6)
	if r.err != nil {
		return nil
	}
	o, _, ok := OIDValue(c)
	if !ok {
		r.err = fmt.Errorf("%w: object identifier %x", errDER, head(c))
	}
	return o
}

func (r *rd) bits() []byte {
	c, _ := r.next(3)
	if r.err != nil {
		return nil
	}
	if len(c) == 0 || c[0] != 0 {
		r.err = fmt.Errorf("%w: bit string %x", errDER, head(c))
		return nil
	}
	return c[1:]
}

func head(b []byte) []byte {
	if len(b) > 12 {
		return b[:12]
	}
	return b
}

func (r *rd) time() int64 {
	if r.peek(0x17) {
		c, _ := r.next(0x17)
		if len(c) > 0 {
			p := "20"
			if c[0] >= '5' {
				p = "19"
			}
			c = append([]byte(p), c...)
		}
		cv, ok := ParseGenTime(c)
		if !ok {
			r.err = fmt.Errorf("%w: UTCTime %q", errDER, c)
		}
		return cv.Unix()
	}
	c, _ := r.next(0x18)
	cv, ok := ParseGenTime(c)
	if r.err == nil && (!ok || cv.Y >= 1950 && cv.Y <= 2049) {
		r.err = fmt.Errorf("%w: GeneralizedTime %q", errDER, c)
	}
	return cv.Unix()
}

// DecodeSigned splits a signed structure.
func DecodeSigned(der []byte) (tbs, alg, sig []byte, err error) {
	r := rd{b: der}
	c, _ := r.next(0x30)
	r.end()
	if r.err != nil {
		return nil, nil, nil, r.err
	}
	q := rd{b: c}
	_, tbs = q.next(0x30)
	_, alg = q.next(0x30)
	sig = q.bits()
	q.end()
	return tbs, alg, sig, q.err
}

// DecodeCert decodes a certificate strictly.
func DecodeCert(der []byte) (ci CertInfo, err error) {
	if ci.TBS, ci.OuterAlg, ci.Sig, err = DecodeSigned(der); err != nil {
		return
	}
	return ci, ci.decodeTBS()
}

// DecodeTBS decodes a to-be-signed certificate alone.
func DecodeTBS(tbs []byte) (ci CertInfo, err error) {
	ci.TBS = tbs
	return ci, ci.decodeTBS()
}

func (ci *CertInfo) decodeTBS() error {
	o := rd{b: ci.TBS}
	c, _ := o.next(0x30)
	o.end()
	if o.err != nil {
		return o.err
	}
	r := rd{b: c}
	if r.peek(0xa0) {
		v, _ := r.next(0xa0)
		vr := rd{b: v}
		ci.Version = vr.int(2).Int64()
		vr.end()
		if vr.err != nil {
			return vr.err
		}
		if ci.Version == 0 {
			return fmt.Errorf("%w: default version encoded", errDER)
		}
	}
	ci.Serial = r.int(2)
	_, ci.Alg = r.next(0x30)
	_, ci.Issuer = r.next(0x30)
	v, _ := r.next(0x30)
	vr := rd{b: v}
	if r.err == nil {
		ci.NotBefore, ci.NotAfter = vr.time(), vr.time()
		vr.end()
		if vr.err != nil {
			return vr.err
		}
	}
	_, ci.Subject = r.next(0x30)
	_, ci.Key = r.next(0x30)
	if r.peek(0xa3) {
		ci.HasExts = true
		x, _ := r.next(0xa3)
		xr := rd{b: x}
		s, _ := xr.next(0x30)
		xr.end()
		if xr.err != nil {
			return xr.err
		}
		sr := rd{b: s}
		for len(sr.b) > 0 && sr.err == nil {
			e, _ := sr.next(0x30)
			er := rd{b: e}
			var x ExtInfo
			x.OID = er.oid()
			if er.peek(1) {
				b, _ := er.next(1)
				if len(b) != 1 || b[0] != 0xff {
					return fmt.Errorf("%w: critical flag %x", errDER, b)
				}
				x.Critical = true
			}
			x.Value, _ = er.next(4)
			er.end()
			if er.err != nil {
				return er.err
			}
			ci.Exts = append(ci.Exts, x)
		}
		if sr.err != nil {
			return sr.err
		}
	}
	r.end()
	return r.err
}

type CSRDecoded struct {
	TBS, Alg, Sig []byte
	Version       int64
	Subject, Key  []byte
	Attrs         [][]byte // whole elements
}

// DecodeCSR decodes a certificate request strictly.
func DecodeCSR(der []byte) (cd CSRDecoded, err error) {
	if cd.TBS, cd.Alg, cd.Sig, err = DecodeSigned(der); err != nil {
		return
	}
	o := rd{b: cd.TBS}
	c, _ := o.next(0x30)
	r := rd{b: c}
	cd.Version = r.int(2).Int64()
	_, cd.Subject = r.next(0x30)
	_, cd.Key = r.next(0x30)
	a, _ := r.next(0xa0)
	r.end()
	if r.err != nil {
		return cd, r.err
	}
	for len(a) > 0 {
		_, _, w, rest, ok := Elem(a)
		if !ok {
			return cd, errDER
		}
		cd.Attrs = append(cd.Attrs, w)
		a = rest
	}
	return cd, nil
}

// StrictDER walks all constructed elements and checks the canonical forms of the primitive ones.
func StrictDER(b []byte) error {
	for len(b) > 0 {
		tag, c, w, rest, ok := Elem(b)
		if !ok {
			return fmt.Errorf("%w: element at %x", errDER, head(b))
		}
		if tag&0x20 != 0 {
			if err := StrictDER(c); err != nil {
				return err
			}
		} else {
			bad := false
			switch tag {
			case 1:
				bad = len(c) != 1 || c[0] != 0 && c[0] != 0xff
			case 2, 10:
				_, ok := ParseInt(c)
				bad = !ok
			case 3:
				bad = len(c) == 0 || c[0] > 7 || len(c) == 1 && c[0] != 0 || len(c) > 1 && c[len(c)-1]&(1<<c[0]-1) != 0
			case 5:
				bad = len(c) != 0
			case 6:
				_, _, ok := OIDValue(c)
				bad = !ok
			}
			if bad {
				return fmt.Errorf("%w: %x", errDER, head(w))
			}
		}
		b = rest
	}
	return nil
}
