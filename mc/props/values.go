package props

import (
	"crypto/elliptic"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"
)

var (
	bigType   = reflect.TypeOf(big.Int{})
	byteType  = reflect.TypeOf(byte(0))
	curveType = reflect.TypeOf(elliptic.CurveParams{})
)

// appendValue writes down everything reachable from v; with caps also what lies behind the ends of slices.
func appendValue(d []byte, v reflect.Value, caps bool) []byte {
	if !v.IsValid() {
		return append(d, "nil"...)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return append(d, "nil "...)
		}
		return appendValue(append(d, '&'), v.Elem(), caps)
	case reflect.Interface:
		if v.IsNil() {
			return append(d, "nil "...)
		}
		d = append(d, v.Elem().Type().String()...)
		return appendValue(append(d, ':'), v.Elem(), caps)
	case reflect.Slice:
		if v.IsNil() {
			return append(d, "nil[] "...)
		}
		n := v.Len()
		if caps {
			d = strconv.AppendInt(d, int64(n), 10)
			d = append(d, '/')
			n = v.Cap()
			v = v.Slice(0, n)
		}
		d = strconv.AppendInt(d, int64(n), 10)
		d = append(d, '[')
		if v.Type().Elem() == byteType {
			for _, b := range v.Bytes() {
				d = append(d, "0123456789abcdef"[b>>4], "0123456789abcdef"[b&15])
			}
		} else {
			for i := 0; i < n; i++ {
				d = appendValue(d, v.Index(i), caps)
			}
		}
		return append(d, ']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d = appendValue(d, v.Index(i), caps)
		}
		return d
	case reflect.Struct:
		d = append(d, '{')
		n := v.NumField()
		if v.Type() == timeType {
			n = 2 // not the location
		}
		if v.Type() == bigType && !caps {
			if v.Field(0).Bool() {
				d = append(d, '-')
			}
			w := v.Field(1)
			for i := w.Len() - 1; i >= 0; i-- {
				d = strconv.AppendUint(d, w.Index(i).Uint(), 16)
				d = append(d, '.')
			}
			return append(d, '}')
		}
		own := !deepValues && strings.HasPrefix(v.Type().PkgPath(), "github.com/ZZMarquis/gm")
		for i := 0; i < n; i++ {
			if own && v.Type().Field(i).PkgPath != "" {
				continue // what the library keeps in its objects nobody else sees
			}
			d = append(d, v.Type().Field(i).Name...)
			d = append(d, '=')
			d = appendValue(d, v.Field(i), caps)
		}
		return append(d, '}')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, string(appendValue(appendValue(nil, k, caps), v.MapIndex(k), caps)))
		}
		sort.Strings(l)
		return append(d, fmt.Sprintf("%q", l)...)
	case reflect.String:
		return strconv.AppendQuote(d, v.String())
	case reflect.Bool:
		return append(strconv.AppendBool(d, v.Bool()), ' ')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return append(strconv.AppendInt(d, v.Int(), 10), ' ')
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return append(strconv.AppendUint(d, v.Uint(), 10), ' ')
	default:
		return append(d, v.Kind().String()...)
	}
}

// deepValues: what the library keeps in its objects is written down, too.
var deepValues bool

// deepText shows all memory reachable from v.
func deepText(v interface{}) string {
	deepValues = true
	defer func() { deepValues = false }()
	return memoryText(v)
}

func valueText(v interface{}) string  { return string(appendValue(nil, reflect.ValueOf(v), false)) }
func memoryText(v interface{}) string { return string(appendValue(nil, reflect.ValueOf(v), true)) }

var realParams = sm2.GetSm2P256V1().CurveParams

// scribble overwrites everything that can be reached and written through v, except the parameters of
// curves (results share those of their arguments); with curves only those of the SM2 curve are spared,
// which the library hands out to be shared.
func scribble(v reflect.Value, curves bool) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			for _, s := range [][]big.Word{x.Bits()} {
				s = s[:cap(s)]
				for i := range s {
					s[i] ^= 0x5a5a5a5a5a5a5a5a
				}
			}
			x.SetInt64(0xBAD)
			return
		case *elliptic.CurveParams:
			if !curves || x == realParams {
				return
			}
		case *time.Location:
			return
		}
		scribble(v.Elem(), curves)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), curves)
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap())
		if v.Type().Elem() == byteType {
			b := full.Bytes()
			for i := range b {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), curves)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), curves)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(77, 0).UTC()))
			}
			return
		}
		if c, ok := v.Interface().(sm2.P256V1Curve); ok && (!curves || c.CurveParams == realParams) {
			return // its A, too, is shared
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), curves)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	}
}

// assign gives dst the contents of src, keeping the memory of dst wherever it is large enough.
func assign(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Ptr:
		if dst.IsNil() || src.IsNil() {
			dst.Set(src)
			return
		}
		if d, ok := dst.Interface().(*big.Int); ok {
			d.Set(src.Interface().(*big.Int))
			return
		}
		if dst.Type().Elem() == curveType {
			dst.Set(src)
			return
		}
		if dst.Pointer() != src.Pointer() {
			assign(dst.Elem(), src.Elem())
		}
	case reflect.Interface:
		if !dst.IsNil() && !src.IsNil() && dst.Elem().Type() == src.Elem().Type() && dst.Elem().Kind() == reflect.Ptr {
			assign(dst.Elem(), src.Elem())
			return
		}
		dst.Set(src)
	case reflect.Slice:
		if dst.IsNil() || src.IsNil() || src.Cap() > dst.Cap() {
			dst.Set(src)
			return
		}
		n := src.Len()
		d := dst.Slice(0, n)
		if dst.Type().Elem() == byteType {
			reflect.Copy(d, src)
		} else {
			for i := 0; i < n; i++ {
				assign(d.Index(i), src.Index(i))
			}
		}
		dst.Set(d)
	case reflect.Struct:
		if dst.Type() == timeType || dst.Type() == bigType {
			dst.Set(src)
			return
		}
		for i := 0; i < dst.NumField(); i++ {
			if f := dst.Field(i); f.CanSet() {
				assign(f, src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}
