package props

import (
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"reflect"
	"sort"
	"time"

	"github.com/ZZMarquis/gm/sm2"

	"verif/mc/eng"
	"verif/mc/ref"
)

// deepHash is a digest of everything reachable from v, including the spare capacity of slices.
func deepHash(v interface{}) uint64 {
	h := fnv.New64a()
	dumpValue(h, reflect.ValueOf(v), map[uintptr]bool{})
	return h.Sum64()
}

func deepString(v interface{}) string {
	w := &stringWriter{}
	dumpValue(w, reflect.ValueOf(v), map[uintptr]bool{})
	return string(w.b)
}

type stringWriter struct{ b []byte }

func (w *stringWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

var timeType = reflect.TypeOf(time.Time{})

func dumpValue(w io.Writer, v reflect.Value, seen map[uintptr]bool) {
	if !v.IsValid() {
		fmt.Fprint(w, "<nil>")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(w, "nil,")
			return
		}
		if seen[v.Pointer()] {
			fmt.Fprint(w, "seen,")
			return
		}
		seen[v.Pointer()] = true
		fmt.Fprint(w, "&")
		dumpValue(w, v.Elem(), seen)
		delete(seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(w, "nil,")
			return
		}
		fmt.Fprintf(w, "(%s)", v.Elem().Type())
		dumpValue(w, v.Elem(), seen)
	case reflect.Slice:
		if v.IsNil() {
			fmt.Fprint(w, "nil[],")
			return
		}
		fmt.Fprintf(w, "[%d/%d:", v.Len(), v.Cap())
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			dumpValue(w, full.Index(i), seen)
		}
		fmt.Fprint(w, "],")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dumpValue(w, v.Index(i), seen)
		}
	case reflect.Struct:
		fmt.Fprint(w, "{")
		n := v.NumField()
		if v.Type() == timeType {
			n = 2 // not the location
		}
		for i := 0; i < n; i++ {
			fmt.Fprintf(w, "%s=", v.Type().Field(i).Name)
			dumpValue(w, v.Field(i), seen)
		}
		fmt.Fprint(w, "},")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			s := &stringWriter{}
			dumpValue(s, k, seen)
			dumpValue(s, v.MapIndex(k), seen)
			l = append(l, string(s.b))
		}
		sort.Strings(l)
		fmt.Fprint(w, l)
	case reflect.String:
		fmt.Fprintf(w, "%q,", v.String())
	case reflect.Bool:
		fmt.Fprintf(w, "%v,", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%d,", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(w, "%d,", v.Uint())
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(w, "%v,", v.Float())
	default:
		fmt.Fprintf(w, "%s,", v.Kind())
	}
}

// unchanged returns a function that fails if anything reachable from the values was changed since.
func unchanged(what string, vals ...interface{}) func(t *eng.T) {
	before := make([]uint64, len(vals))
	for i, v := range vals {
		before[i] = deepHash(v)
	}
	return func(t *eng.T) {
		for i, v := range vals {
			if deepHash(v) != before[i] {
				t.Failf("%s was modified (argument %d): now %.600s", what, i, deepString(v))
			}
		}
	}
}

// certKeys are a real key pair, and a fast one on a small curve for signing.
type keyPair struct {
	d    *big.Int
	pt   ref.Point
	c    *ref.Curve
	pri  *sm2.PrivateKey
	pub  *sm2.PublicKey
	name string
}

func realPair(d *big.Int) *keyPair {
	k := &keyPair{d: d, c: ref.SM2, pt: ref.SM2.MulG(d), name: fmt.Sprintf("%x", d)}
	k.pri, k.pub = privOf(realSet.ic, d), pubOf(realSet.ic, k.pt)
	return k
}

func toyPair(name string, d int64) *keyPair {
	ts := toy(name)
	k := &keyPair{d: bint(d), c: ts.c, pt: ts.c.MulG(bint(d)), name: fmt.Sprintf("%d on %s", d, name)}
	k.pri, k.pub = privOf(ts.ic, k.d), pubOf(ts.ic, k.pt)
	return k
}

// signed tells whether sig is the pair's signature of msg.
func (k *keyPair) signed(id, msg, sig []byte) bool {
	r, s, ok := ref.ParseSig(sig)
	return ok && k.c.Verify(k.pt.X, k.pt.Y, id, msg, r, s)
}

// sign makes a signature with the reference, with a nonce that works.
func (k *keyPair) sign(id, msg []byte) []byte {
	e := k.c.E(k.pt, id, msg)
	for n := int64(3); ; n++ {
		if r, s, ok := k.c.SignK(k.d, e, bint(n)); ok {
			return ref.EncodeSig(r, s)
		}
	}
}

var pairCache = map[string]*keyPair{}

func realPairCached(d *big.Int) *keyPair {
	k := pairCache[d.String()]
	if k == nil {
		k = realPair(d)
		pairCache[d.String()] = k
	}
	return k
}

func checkPub(t *eng.T, got interface{}, want ref.Point) {
	pub, ok := got.(*sm2.PublicKey)
	if !ok || pub == nil {
		t.Failf("the parsed public key is %T", got)
	}
	if pub.X.Cmp(want.X) != 0 || pub.Y.Cmp(want.Y) != 0 {
		t.Failf("the parsed public key is (%x, %x), want (%x, %x)", pub.X, pub.Y, want.X, want.Y)
	}
	if pub.Curve.CurveParams == nil || pub.Curve.N.Cmp(ref.SM2.N) != 0 || pub.Curve.P.Cmp(ref.SM2.P) != 0 || pub.Curve.A.Cmp(ref.SM2.A) != 0 {
		t.Failf("the parsed public key is not on the SM2 curve")
	}
}
