package props

import (
	"bytes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{ID: "C16", Init: selfTest, Spaces: c16, Sub: c16Sub, MemLimitMB: 3000,
		Assumptions: []string{
			"an alphabet of operations that covers every public function, each with four sets of arguments that differ in the key (d or n-d, or another small curve of the same name and size), in the data, or in both; the state of a sequence is compared through the results of all later operations in it",
			"what each operation returns as the first call is asked of a fresh process, with arguments built by the reference implementation only",
			"results that by design share memory with arguments (parsed documents with the bytes they were parsed from, filled templates with the request, un-padded with padded data, curve parameters with the key) are scribbled over only together with private copies of those arguments",
			"the parameters of the SM2 curve, which the library hands out to be shared, are not overwritten by the caller"}})
}

// variants of running a sequence
const (
	vShared   = iota // calls share their arguments, which must stay as they are
	vScribble        // every call gets fresh arguments; they and the results are overwritten afterwards
	vResults         // calls share their arguments; the results are overwritten afterwards
	vKept            // every call gets fresh arguments; the results are kept, and every other one is overwritten in the end
	vInPlace         // all calls get the very same objects, whose contents are replaced between the calls
	nVariants
)

var variantNames = []string{"shared arguments", "arguments and results overwritten after each call", "results overwritten after each call", "results kept", "contents of the same arguments replaced between calls"}

type seqItem struct{ op, set int }

var theOps []op

func ops() []op {
	if theOps == nil {
		theOps = allOps()
	}
	return theOps
}

func (it seqItem) String() string { return fmt.Sprintf("%s[%d]", ops()[it.op].name, it.set) }

func seqName(seq []seqItem) string {
	s := ""
	for i, it := range seq {
		if i > 0 {
			s += "; "
		}
		s += it.String()
	}
	return s
}

func withReader(r io.Reader, f func()) { withRand(r, f) }

// call runs an operation and returns what the caller sees.
func call(o *op, w *World, with func(io.Reader, func())) (text string, res []interface{}) {
	p, _ := eng.Catch(func() { res = o.run(w, with) })
	if p != nil {
		return fmt.Sprintf("panic: %v", p), nil
	}
	return valueText(res), res
}

// runSeq runs a sequence of operations; texts are their results. changed names an operation that modified
// its arguments.
func runSeq(seq []seqItem, variant int) (texts []string, changed string) {
	var worlds [worldSets]*World
	var one *World
	var known [worldSets]string
	var kept [][]interface{}
	for _, it := range seq {
		o := &ops()[it.op]
		var w *World
		switch variant {
		case vShared, vResults:
			if variant == vResults && o.alias {
				w = newWorld(it.set)
				break
			}
			if worlds[it.set] == nil {
				worlds[it.set] = newWorld(it.set)
			}
			w = worlds[it.set]
		case vScribble, vKept:
			w = newWorld(it.set)
		case vInPlace:
			if one == nil {
				one = newWorld(it.set)
			} else {
				assign(reflect.ValueOf(one).Elem(), reflect.ValueOf(newWorld(it.set)).Elem())
			}
			w = one
		}
		var before string
		if variant == vShared {
			if known[it.set] == "" {
				known[it.set] = memoryText(w)
			}
			before = known[it.set]
		}
		text, res := call(o, w, withReader)
		texts = append(texts, text)
		kept = append(kept, res)
		switch variant {
		case vShared:
			if changed == "" {
				if after := memoryText(w); after != before {
					changed = it.String() + " modified its arguments: " + textDiff(before, after)
				}
			}
		case vScribble:
			scribble(reflect.ValueOf(res), false)
			scribble(reflect.ValueOf(w), true)
		case vResults:
			scribble(reflect.ValueOf(res), false)
		}
	}
	if variant == vKept {
		look := func(i int, after string) {
			if kept[i] == nil || changed != "" {
				return
			}
			if now := valueText(kept[i]); now != texts[i] {
				changed = fmt.Sprintf("the result of call %d (%v) was changed by %s: %s", i+1, seq[i], after, textDiff(texts[i], now))
			}
		}
		for i := range kept {
			look(i, "the calls after it")
		}
		for i := 0; i < len(kept); i += 2 {
			scribble(reflect.ValueOf(kept[i]), false)
		}
		for i := 1; i < len(kept); i += 2 {
			look(i, "overwriting the results of the calls around it")
		}
	}
	return
}

// textDiff shows two texts around their first difference.
func textDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+100
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("... %s ... became ... %s ...", cut(want), cut(got))
}

// ---- fresh processes ----

type memoFile struct {
	Bytes  map[string][]byte
	Points map[string][2]string
}

var memoPath string

// saveMemo writes the precomputed parts of all worlds to a file for the fresh processes.
func saveMemo() string {
	if memoPath != "" {
		return memoPath
	}
	for s := 0; s < worldSets; s++ {
		newWorld(s)
	}
	m := memoFile{Bytes: worldBytes, Points: map[string][2]string{}}
	for k, p := range worldPoints {
		m.Points[k] = [2]string{p.X.Text(16), p.Y.Text(16)}
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp(eng.TempDir(), "memo")
	if err != nil {
		panic(err)
	}
	f.Write(b)
	f.Close()
	memoPath = f.Name()
	return memoPath
}

// c16Sub: memo-file variant op:set,op:set,...
func c16Sub(args []string) {
	if args[0] == "document" {
		documentSub(args[1])
		return
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	var m memoFile
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	worldBytes = m.Bytes
	for k, p := range m.Points {
		worldPoints[k] = ref.Point{X: hexBig(p[0]), Y: hexBig(p[1])}
	}
	variant, _ := strconv.Atoi(args[1])
	var seq []seqItem
	for _, s := range strings.Split(args[2], ",") {
		var it seqItem
		fmt.Sscanf(s, "%d:%d", &it.op, &it.set)
		seq = append(seq, it)
	}
	texts, changed := runSeq(seq, variant)
	json.NewEncoder(os.Stdout).Encode(append(texts, changed))
}

func freshRun(seq []seqItem, variant int) (texts []string, changed string) {
	var l []string
	for _, it := range seq {
		l = append(l, fmt.Sprintf("%d:%d", it.op, it.set))
	}
	out, err := eng.Sub("C16", saveMemo(), strconv.Itoa(variant), strings.Join(l, ","))
	if err != nil {
		return []string{"the process failed: " + err.Error()}, ""
	}
	if err := json.Unmarshal([]byte(out), &texts); err != nil || len(texts) != len(seq)+1 {
		return []string{"the process answered " + out}, ""
	}
	return texts[:len(seq)], texts[len(seq)]
}

var freshTexts = map[seqItem]string{}

// fresh is the result of an operation as the first call of a process.
func fresh(it seqItem) string {
	s, ok := freshTexts[it]
	if !ok {
		texts, _ := freshRun([]seqItem{it}, vShared)
		s = texts[0]
		freshTexts[it] = s
	}
	return s
}

func judgeSeq(t *eng.T, seq []seqItem, variant int, texts []string, changed string) {
	if changed != "" {
		t.Failf("in the sequence %s: %s", seqName(seq), changed)
	}
	for i, it := range seq {
		if i >= len(texts) || len(texts) < len(seq) {
			t.Failf("sequence %s: %s", seqName(seq), texts[0])
		}
		if want := fresh(it); texts[i] != want {
			t.Failf("call %d of the sequence %s (%s) returns something else than as the first call of a process: %s", i+1, seqName(seq), variantNames[variant], textDiff(want, texts[i]))
		}
		t.Obs(it.op, it.set, texts[i])
	}
	t.Ops(len(seq))
}

// ---- interleaved use of separate objects ----

// program is a sequence of steps on an object of its own; each returns what the caller sees.
type program struct {
	name  string
	steps func(w *World) []func() interface{}
}

func c16Programs() []program {
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	hashing := func(a, b, c func(w *World) []byte) func(w *World) []func() interface{} {
		return func(w *World) []func() interface{} {
			var h hash.Hash
			return []func() interface{}{
				func() interface{} { h = sm3.New(); return nil },
				func() interface{} { n, _ := h.Write(a(w)); return n },
				func() interface{} { n, _ := h.Write(b(w)); return n },
				func() interface{} { return h.Sum(nil) },
				func() interface{} { h.Write(c(w)); return h.Sum(cp(w.Prefix)) },
			}
		}
	}
	blocks := func(key func(w *World) []byte) func(w *World) []func() interface{} {
		return func(w *World) []func() interface{} {
			var b cipher.Block
			x, y := make([]byte, 16), make([]byte, 16)
			return []func() interface{}{
				func() interface{} { b, _ = sm4.NewCipher(key(w)); return nil },
				func() interface{} { b.Encrypt(x, w.Block); return cp(x) },
				func() interface{} { b.Decrypt(y, x); return cp(y) },
				func() interface{} { b.Encrypt(y, w.IV); return cp(y) },
				func() interface{} { b.Decrypt(x, x); return cp(x) },
			}
		}
	}
	building := func(part func(w *World) []byte) func(w *World) []func() interface{} {
		return func(w *World) []func() interface{} {
			b := cryptobyte.NewBuilder(nil)
			return []func() interface{}{
				func() interface{} { b.AddUint16(0x1234); return nil },
				func() interface{} {
					b.AddASN1(cbasn1.SEQUENCE, func(c *cryptobyte.Builder) {
						c.AddASN1OctetString(part(w))
						c.AddASN1BigInt(w.A)
					})
					return nil
				},
				func() interface{} { x, err := b.Bytes(); return []interface{}{cp(x), err} },
				func() interface{} {
					b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(part(w)) })
					return nil
				},
				func() interface{} { x, err := b.Bytes(); return []interface{}{cp(x), err} },
			}
		}
	}
	reading := func(der func(w *World) []byte) func(w *World) []func() interface{} {
		return func(w *World) []func() interface{} {
			s := cryptobyte.String(der(w))
			var i64 int64
			var bi big.Int
			var ok bool
			var e int
			return []func() interface{}{
				func() interface{} { return []interface{}{s.ReadASN1Integer(&i64), i64} },
				func() interface{} { return []interface{}{s.ReadASN1Integer(&bi), bi.String()} },
				func() interface{} { return []interface{}{s.ReadASN1Boolean(&ok), ok} },
				func() interface{} { return []interface{}{s.ReadASN1Enum(&e), e, i64, bi.String()} },
				func() interface{} { return []interface{}{s.SkipASN1(cbasn1.OBJECT_IDENTIFIER), len(s)} },
			}
		}
	}
	single := func(names ...string) func(w *World) []func() interface{} {
		return func(w *World) (l []func() interface{}) {
			for _, n := range names {
				o := opNamed(n)
				l = append(l, func() interface{} { s, _ := call(o, w, withReader); return s })
			}
			return
		}
	}
	return []program{
		{"hash 1", hashing(func(w *World) []byte { return w.Msg }, func(w *World) []byte { return w.Msg2 }, func(w *World) []byte { return w.ID })},
		{"hash 2", hashing(func(w *World) []byte { return w.Short }, func(w *World) []byte { return bytes.Repeat(w.Msg, 3) }, func(w *World) []byte { return nil })},
		{"cipher 1", blocks(func(w *World) []byte { return w.Key })},
		{"cipher 2", blocks(func(w *World) []byte { return w.Key2 })},
		{"builder 1", building(func(w *World) []byte { return w.Short })},
		{"builder 2", building(func(w *World) []byte { return bytes.Repeat(w.Msg, 4) })},
		{"reader 1", reading(func(w *World) []byte { return w.DER })},
		{"reader 2", reading(func(w *World) []byte { return w.BadDER })},
		{"signatures", single("sm2.Sign small curve", "sm2.Verify small curve", "sm2.Sign failing")},
		{"encryption", single("sm2.Encrypt small curve", "sm2.Decrypt small curve", "sm2.Decrypt altered")},
		{"exchange", single("sm2 exchange responder", "sm2 exchange initiator")},
		{"certificates", single("cert.CreateCertificateRequest", "cert.CreateCertificateInfo", "cert.ParseCertificate")},
	}
}

func opNamed(n string) *op {
	for i := range ops() {
		if ops()[i].name == n {
			return &ops()[i]
		}
	}
	panic("no operation " + n)
}

func alone(p program, set int) (out []string) {
	for _, s := range p.steps(newWorld(set)) {
		out = append(out, valueText(s()))
	}
	return
}

// ---- the spaces ----

func c16(tier string) []eng.Space {
	all := ops()
	n := len(all)
	var reps []int
	var cheapOps []int
	for i, o := range all {
		if o.rep {
			reps = append(reps, i)
		}
		if !o.real {
			cheapOps = append(cheapOps, i)
		}
	}
	var sp []eng.Space
	add := func(name, doc string, n int, f func(t *eng.T, i int)) {
		sp = append(sp, eng.Space{Name: name, Doc: doc, N: n, Run: f})
	}

	add("one call", "every operation with every argument set alone, in a fresh process, twice: the results are the same; arguments unchanged", n*worldSets, func(t *eng.T, i int) {
		it := seqItem{i / worldSets, i % worldSets}
		t.Descf("%v twice", it)
		texts, changed := freshRun([]seqItem{it}, vShared)
		judgeSeq(t, []seqItem{it}, vShared, texts, changed)
		// the value sets do differ
		if strings.HasPrefix(fresh(it), "the process") {
			t.Failf("%v: %s", it, fresh(it))
		}
	})

	// two calls, each pair in a process of its own
	kinds := [][2]int{{1, vInPlace}, {2, vInPlace}}
	if thorough(tier) {
		kinds = nil
		for s := 0; s < worldSets; s++ {
			for v := 0; v < nVariants; v++ {
				kinds = append(kinds, [2]int{s, v})
			}
		}
	}
	add("two calls in a fresh process", "every ordered pair of operations, the second with the same and with other arguments, in a process that does nothing else", n*n*len(kinds), func(t *eng.T, i int) {
		d := mix(i, n, n, len(kinds))
		k := kinds[d[2]]
		seq := []seqItem{{d[0], 0}, {d[1], k[0]}}
		t.Descf("fresh process: %s (%s)", seqName(seq), variantNames[k[1]])
		texts, changed := freshRun(seq, k[1])
		judgeSeq(t, seq, k[1], texts, changed)
	})

	type kind struct{ first, second, variant int }
	var combos []kind
	for f := 0; f < pick(tier, 1, 2); f++ {
		for v := 0; v < nVariants; v++ {
			for s := 0; s < worldSets; s++ {
				if !thorough(tier) && (v == vScribble && s != 0 && s != 3 || (v == vResults || v == vKept) && s > 1 || v == vInPlace && s == 0) {
					continue
				}
				combos = append(combos, kind{3 * f, s, v})
			}
		}
	}
	add("two calls", "every ordered pair of operations, the first with set 0 (thorough: 0 or 3) and the second with every argument set, in every variant of sharing and overwriting (quick: 13 of the 20 combinations)", n*n*len(combos), func(t *eng.T, i int) {
		d := mix(i, n, n, len(combos))
		c := combos[d[2]]
		seq := []seqItem{{d[0], c.first}, {d[1], c.second}}
		t.Descf("%s (%s)", seqName(seq), variantNames[c.variant])
		texts, changed := runSeq(seq, c.variant)
		judgeSeq(t, seq, c.variant, texts, changed)
	})

	three := reps
	if thorough(tier) {
		three = cheapOps
	}
	m := len(three)
	sets3 := [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 0, 3}}
	vars3 := []int{vShared, vInPlace}
	add("three calls", "every sequence of three operations of the representative (thorough: all fast) ones, with argument sets going there and back", m*m*m*len(sets3)*len(vars3), func(t *eng.T, i int) {
		d := mix(i, m, m, m, len(sets3), len(vars3))
		s := sets3[d[3]]
		seq := []seqItem{{three[d[0]], s[0]}, {three[d[1]], s[1]}, {three[d[2]], s[2]}}
		v := vars3[d[4]]
		t.Descf("%s (%s)", seqName(seq), variantNames[v])
		texts, changed := runSeq(seq, v)
		judgeSeq(t, seq, v, texts, changed)
	})

	if thorough(tier) {
		r := len(reps)
		add("four calls", "every sequence of four representative operations", r*r*r*r, func(t *eng.T, i int) {
			d := mix(i, r, r, r, r)
			seq := []seqItem{{reps[d[0]], 0}, {reps[d[1]], 1}, {reps[d[2]], 2}, {reps[d[3]], 0}}
			t.Descf("%s", seqName(seq))
			texts, changed := runSeq(seq, vInPlace)
			judgeSeq(t, seq, vInPlace, texts, changed)
		})
	}

	reps2 := pick(tier, 12, 40)
	add("repeated calls", "every operation many times in a row, on the same and on alternating arguments", n*2, func(t *eng.T, i int) {
		o, alt := i/2, i%2
		k := reps2
		if all[o].real {
			k /= 2
		}
		var seq []seqItem
		for j := 0; j < k; j++ {
			seq = append(seq, seqItem{o, j * alt % worldSets})
		}
		t.Descf("%d times %s, alternating: %v", k, all[o].name, alt == 1)
		for _, v := range []int{vShared, vKept, vInPlace} {
			texts, changed := runSeq(seq, v)
			judgeSeq(t, seq, v, texts, changed)
		}
	})

	progs := c16Programs()
	np := len(progs)
	add("interleaved objects", "all interleavings of every pair of programs, each on objects of its own, against each program alone", np*np*2, func(t *eng.T, i int) {
		d := mix(i, np, np, 2)
		p, q := progs[d[0]], progs[d[1]]
		t.Descf("%s interleaved with %s (argument sets 0 and %d)", p.name, q.name, 3*d[2])
		wp, wq := alone(p, 0), alone(q, 3*d[2])
		var walk func(trace []int, a, b int)
		walk = func(trace []int, a, b int) {
			if a < len(wp) {
				walk(append(trace, 0), a+1, b)
			}
			if b < len(wq) {
				walk(append(trace, 1), a, b+1)
			}
			if a < len(wp) || b < len(wq) {
				return
			}
			sp, sq := p.steps(newWorld(0)), q.steps(newWorld(3*d[2]))
			x, y := 0, 0
			for _, k := range trace {
				if k == 0 {
					if got := valueText(sp[x]()); got != wp[x] {
						t.Failf("step %d of %s, interleaved with %s as %v, gives %s", x+1, p.name, q.name, trace, textDiff(wp[x], got))
					}
					x++
				} else {
					if got := valueText(sq[y]()); got != wq[y] {
						t.Failf("step %d of %s, interleaved with %s as %v, gives %s", y+1, q.name, p.name, trace, textDiff(wq[y], got))
					}
					y++
				}
			}
			t.Ops(len(trace))
			t.Trace(1)
			t.Obs(d[0], d[1], fmt.Sprint(trace))
		}
		walk(nil, 0, 0)
	})

	add("calls inside a continuation", "every operation called from within a builder's continuation and from a value being marshalled, between other appends", n*worldSets, func(t *eng.T, i int) {
		it := seqItem{i / worldSets, i % worldSets}
		t.Descf("%v inside a continuation", it)
		w := newWorld(it.set)
		var texts []string
		inner := func() { s, _ := call(&all[it.op], w, withReader); texts = append(texts, s) }
		var b cryptobyte.Builder
		b.AddUint8(1)
		b.AddASN1(cbasn1.SEQUENCE, func(b *cryptobyte.Builder) {
			b.AddASN1Int64(7)
			inner()
			b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) {
				b.AddBytes([]byte("in"))
				inner()
			})
			b.AddValue(callingValue{inner})
		})
		got, err := b.Bytes()
		t.Check(err == nil, "the builder fails: %v", err)
		want := append([]byte{1}, ref.TLV(0x30, []byte{2, 1, 7, 0, 2, 'i', 'n', 9})...)
		wantBytes(t, "the outer builder", got, want)
		for _, s := range texts {
			if s != fresh(it) {
				t.Failf("%v inside a builder's continuation: %s", it, textDiff(fresh(it), s))
			}
		}
		t.Ops(4)
	})
	sp = append(sp, c16sweeps(tier)...)
	sp = append(sp, c16documents(tier)...)
	sp = append(sp, c16writing(tier)...)
	return append(sp, c16rereading(tier)...)
}

type callingValue struct{ f func() }

func (v callingValue) Marshal(b *cryptobyte.Builder) error {
	b.AddUint8(9)
	v.f()
	return nil
}
