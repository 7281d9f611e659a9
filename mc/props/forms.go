package props

import (
	"bytes"
	"encoding/ascii85"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"verif/mc/ref"
)

// otherForms are notations of a byte string other than itself: as text, as PEM, under DER tags, behind a length,
// reversed, with white space or other bytes around it.
func otherForms(b []byte) (out [][]byte) {
	add := func(x []byte) {
		if !bytes.Equal(x, b) {
			out = append(out, x)
		}
	}
	cat := func(p ...[]byte) { add(bytes.Join(p, nil)) }
	h := hex.EncodeToString(b)
	a85 := make([]byte, ascii85.MaxEncodedLen(len(b)))
	a85 = a85[:ascii85.Encode(a85, b)]
	e := base64.StdEncoding.EncodeToString(b)
	for _, t := range []string{h, strings.ToUpper(h), "0x" + h, "0X" + h, "\\x" + h, "#" + h, strings.Join(strings.Split(fmt.Sprintf("% x", b), " "), ":"), fmt.Sprintf("% x", b), fmt.Sprint(b), fmt.Sprintf("%q", b),
		e, base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), base64.RawURLEncoding.EncodeToString(b), "base64:" + e, base32.StdEncoding.EncodeToString(b), string(a85), new(big.Int).SetBytes(b).String()} {
		add([]byte(t))
		add([]byte(t + "\n"))
		add([]byte(" " + t))
		add([]byte("\"" + t + "\""))
	}
	rest, lines := e, ""
	for len(rest) > 64 {
		lines, rest = lines+rest[:64]+"\n", rest[64:]
	}
	for _, t := range []string{"CERTIFICATE", "CERTIFICATE REQUEST", "NEW CERTIFICATE REQUEST", "EC PRIVATE KEY", "PUBLIC KEY", "SM2 SIGNATURE", "MESSAGE"} {
		p := "-----BEGIN " + t + "-----\n" + lines + rest + "\n-----END " + t + "-----"
		add([]byte(p))
		add([]byte(p + "\n"))
		add([]byte("\n" + p + "\n"))
		add([]byte(strings.ReplaceAll(p, "\n", "\r\n") + "\r\n"))
		add([]byte(p + "\n" + p + "\n"))
	}
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	add(r)
	for _, tag := range []byte{2, 3, 4, 0x0c, 0x13, 0x24, 0x30, 0x31, 0x80, 0xa0, 0xa1} {
		add(ref.TLV(tag, b))
		cat([]byte{tag, 0x80}, b, []byte{0, 0})
		add(ref.TLV(0x30, ref.TLV(tag, b)))
	}
	add(ref.TLV(3, []byte{0}, b))
	add(ref.TLV(4, ref.TLV(4, b)))
	for k := 1; k <= 8; k *= 2 {
		l := make([]byte, k)
		l[k-1] = byte(len(b))
		if k > 1 {
			l[k-2] = byte(len(b) >> 8)
		}
		cat(l, b)
		f := make([]byte, k)
		for i := range l {
			f[k-1-i] = l[i]
		}
		cat(f, b)
	}
	for _, x := range []string{" ", "\t", "\n", "\r\n", "\x00", "\x00\x00", "\xef\xbb\xbf", "\xff", "\x80", "\x04"} {
		cat([]byte(x), b)
		cat(b, []byte(x))
		cat([]byte(x), b, []byte(x))
	}
	cat(b, b)
	cat(b, make([]byte, 16))
	cat(make([]byte, 16), b)
	return
}
