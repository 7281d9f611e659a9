package props

import (
	"bytes"
	"crypto/cipher"
	"crypto/elliptic"
	"crypto/rand"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm4"

	"verif/mc/eng"
	"verif/mc/ref"
	"verif/mc/sched"
)

func init() {
	eng.Register(&eng.Prop{ID: "C17", Init: selfTest, Spaces: c17, Sub: c17Sub, MemLimitMB: -1,
		Assumptions: []string{
			"scheduling points lie before every statement of the library that may touch memory other goroutines can see (decided from types; statements on private variables commute with everything), at every operation of package sync, at channel operations and in loop conditions; finer interleavings are left to the race detector, which reports every pair of conflicting unordered accesses of an explored schedule",
			"code of the standard library runs without scheduling points; its own races with the library's accesses are seen by the race detector",
			"preemption bounds and the choice of occurrences of a statement in loops are those named in each space",
			"the random source of each goroutine is its own, so that results can be compared with those of the same call alone",
			"putting all package variables back to their initial values stands for a new process (a real one is started for every operation's result alone, in C16)"}})
}

// ---- arguments shared between threads ----

const (
	sameArgs  = iota // both threads have the very same arguments
	sameKeys         // the same key objects, other data
	otherArgs        // nothing in common but the names of the small curves
	nSharings
)

var sharingNames = []string{"the same arguments", "the same key objects and other data", "other arguments"}

// handCurve is the SM2 curve as a user may build it, so that making the arguments is not yet a use of the library.
func handCurve() sm2.P256V1Curve {
	c := ref.SM2
	return sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{P: cloneBig(c.P), N: cloneBig(c.N), B: cloneBig(c.B), Gx: cloneBig(c.Gx), Gy: cloneBig(c.Gy), BitSize: 256, Name: realSet.ic.Name}, A: cloneBig(c.A)}
}

// threadWorlds makes the arguments of n threads.
func threadWorlds(sharing, n int) []*World {
	old := realSet.ic
	realSet.ic = handCurve()
	defer func() { realSet.ic = old }()
	first := newWorld(0)
	l := []*World{first}
	for i := 1; i < n; i++ {
		var w *World
		switch sharing {
		case sameArgs:
			w = first
		case sameKeys:
			w = newWorld(2)
			w.Pri, w.Pub, w.TPri, w.TEph, w.TPub, w.TNeg, w.TEphPub = first.Pri, first.Pub, first.TPri, first.TEph, first.TPub, first.TNeg, first.TEphPub
			w.OPri, w.OEph, w.OPub, w.OEphPub, w.LowPub, w.TOff, w.TZero = first.OPri, first.OEph, first.OPub, first.OEphPub, first.LowPub, first.TOff, first.TZero
		case otherArgs:
			w = newWorld(4 - i)
		}
		l = append(l, w)
	}
	return l
}

// c17Ops are the operations of C16 and those on a cipher that was made before.
func c17Ops() []op {
	l := allOps()
	add := func(name string, f func(w *World) []interface{}) *op {
		l = append(l, op{name: name, run: func(w *World, _ func(io.Reader, func())) []interface{} { return f(w) }})
		return &l[len(l)-1]
	}
	add("shared cipher Encrypt", func(w *World) []interface{} {
		x := make([]byte, 16)
		w.Cipher.Encrypt(x, w.Block)
		y := make([]byte, 16)
		w.Cipher.Encrypt(y, w.IV)
		return []interface{}{x, y}
	}).rep = true
	add("shared cipher Decrypt", func(w *World) []interface{} {
		x := append([]byte{}, w.Block...)
		w.Cipher.Decrypt(x, x)
		return []interface{}{x, w.Cipher.BlockSize()}
	}).rep = true
	add("shared cipher CBC mode", func(w *World) []interface{} {
		x := make([]byte, len(w.Msg))
		cipher.NewCBCEncrypter(w.Cipher, w.IV).CryptBlocks(x, w.Msg)
		y := make([]byte, len(w.CBC))
		cipher.NewCBCDecrypter(w.Cipher, w.IV).CryptBlocks(y, w.CBC)
		return []interface{}{x, y}
	})
	return l
}

var ops17 []op

// threadReader gives each thread the random source it asked for.
type threadReader struct{ own [16]io.Reader }

func (r *threadReader) Read(b []byte) (int, error) {
	t := sched.Current()
	if t < 0 || t >= len(r.own) || r.own[t] == nil {
		return 0, errScript
	}
	return r.own[t].Read(b)
}

var readers17 = &threadReader{}

// tcall is one call that a thread makes.
type tcall struct {
	o *op
	w *World
}

// outcome of the calls of a run.
type outcome struct {
	texts []string
	sched.Result
}

// runThreads runs the calls as threads under the plan, in a library in its initial state or after warm-up calls.
func runThreads(calls []tcall, warm []tcall, plan []sched.Segment, rec bool) outcome {
	sched.Reset()
	var shared cipher.Block
	for _, c := range calls {
		if strings.HasPrefix(c.o.name, "shared cipher") {
			if shared == nil {
				shared, _ = sm4.NewCipher(pat(0, 16))
			}
			c.w.Cipher = shared
		}
	}
	for _, c := range warm {
		call(c.o, c.w, withRand)
	}
	old := rand.Reader
	rand.Reader = readers17
	defer func() { rand.Reader = old }()
	res := make([][]interface{}, len(calls))
	texts := make([]string, len(calls))
	var bodies []func()
	for i := range calls {
		i := i
		with := func(r io.Reader, f func()) {
			readers17.own[i] = r
			f()
			readers17.own[i] = nil
		}
		bodies = append(bodies, func() { texts[i], res[i] = call(calls[i].o, calls[i].w, with) })
	}
	r := sched.Run(bodies, plan, rec, 20*time.Second)
	for i := range texts {
		if res[i] != nil { // looked at again: what was returned must not change any more
			texts[i] = valueText(res[i])
		}
	}
	return outcome{texts, r}
}

// alone17 is a call alone in a library in its initial state, and its scheduling points.
func alone17(c tcall, warm []tcall) (string, []int) {
	o := runThreads([]tcall{c}, warm, nil, true)
	return o.texts[0], o.Traces[0]
}

// stops picks the points at which a thread may be preempted: those before the first k and the last k
// executions of each statement (0: all; -1: before the first execution only).
func stops(trace []int, k int) (l []int) {
	total, seen := map[int]int{}, map[int]int{}
	for _, s := range trace {
		total[s]++
	}
	for i, s := range trace {
		seen[s]++
		if k == 0 || seen[s] <= max(k, -k) || seen[s] > total[s]-max(k, 0) && k > 0 {
			l = append(l, i+1)
		}
	}
	return
}

func judge17(t *eng.T, calls []tcall, want []string, o outcome, where func() string) {
	if o.Stuck {
		t.Note("schedules abandoned", 1)
		return
	}
	if o.Deadlock {
		t.Failf("deadlock: %s", where())
	}
	for i := range calls {
		if o.texts[i] != want[i] {
			t.Failf("%s returns something else than alone when %s: %s", calls[i].o.name, where(), textDiff(want[i], o.texts[i]))
		}
	}
	if n := sched.Races(); n > races17 {
		races17 = n
		t.Failf("data race: %s", where())
	}
	t.Ops(len(calls))
	t.Trace(1)
	if o.Missed {
		t.Note("planned preemptions that could not happen", 1)
	}
}

var races17 int

// oneOrder: of the orders of three equal threads only the first is explored.
var oneOrder bool

func planText(calls []tcall, plan []sched.Segment, traces [][]int) string {
	var l []string
	for _, s := range plan {
		n := fmt.Sprintf("thread %d (%s)", s.Thread+1, calls[s.Thread].o.name)
		if s.At < 0 {
			l = append(l, n+" runs on")
			continue
		}
		site := "?"
		if s.At <= len(traces[s.Thread]) {
			site = sched.Site(traces[s.Thread][s.At-1])
		}
		l = append(l, fmt.Sprintf("%s runs up to its point %d at %s", n, s.At, site))
	}
	return strings.Join(l, ", then ")
}

// explore runs the operations, each with the arguments of one of the worlds that mk makes, as threads under all
// schedules with the given bound; of the points at which the first thread may be preempted it takes each
// parts-th, starting with the part-th.
func explore(t *eng.T, ops []*op, mk func() []*World, warm []tcall, bound, k, part, parts int) {
	exploreWith(t, ops, mk, warm, k, func(cand [][]int, try func(plan ...sched.Segment)) {
		switching(len(ops), bound, part, parts, cand, try)
	})
}

// exploreWith runs the operations under the plans that gen makes from the points at which each thread may be preempted.
func exploreWith(t *eng.T, ops []*op, mk func() []*World, warm []tcall, k int, gen func(cand [][]int, try func(plan ...sched.Segment))) {
	n := len(ops)
	want := make([]string, n)
	traces := make([][]int, n)
	var calls []tcall
	renew := func() {
		calls = nil
		for i, w := range mk() {
			calls = append(calls, tcall{ops[i], w})
		}
	}
	worldText := func(f func(interface{}) string) (l []string) {
		for _, c := range calls {
			l = append(l, f(c.w))
		}
		return
	}
	renew()
	before := worldText(memoryText)
	deep := strings.Join(worldText(deepText), ";")
	for i, c := range calls {
		want[i], traces[i] = alone17(c, warm)
	}
	// the library keeps something in the objects it is given: every run gets new ones
	fresh := strings.Join(worldText(deepText), ";") != deep
	if fresh {
		for i := range calls {
			renew()
			want[i], traces[i] = alone17(calls[i], warm)
		}
	}
	var cand [][]int
	for i := range calls {
		cand = append(cand, stops(traces[i], k))
		t.Note("scheduling points", len(traces[i]))
	}
	try := func(plan ...sched.Segment) {
		if sched.Poisoned() {
			t.Note("schedules abandoned", 1)
			return
		}
		if fresh {
			renew()
		}
		o := runThreads(calls, warm, plan, false)
		judge17(t, calls, want, o, func() string { return planText(calls, plan, traces) })
	}
	gen(cand, try)
	for i, c := range calls {
		c.w.Cipher = nil
		if after := memoryText(c.w); after != before[i] {
			t.Failf("the arguments have changed: %s", textDiff(before[i], after))
		}
	}
	t.Obs(fmt.Sprint(want), fmt.Sprint(traces))
}

// switching makes the plans with up to bound preemptions, in all orders of the threads.
func switching(n, bound, part, parts int, cand [][]int, try func(plan ...sched.Segment)) {
	perms(n, func(order []int) {
		if n == 3 && oneOrder && (order[0] != 0 || order[1] != 1) {
			return
		}
		// without preemption
		var plan []sched.Segment
		for _, i := range order {
			plan = append(plan, sched.Segment{Thread: i, At: -1})
		}
		try(plan...)
		if bound == 0 {
			return
		}
		a := order[0]
		rest := func(from int) (p []sched.Segment) {
			for _, i := range order[from:] {
				p = append(p, sched.Segment{Thread: i, At: -1})
			}
			return
		}
		for at, i := range cand[a] {
			if at%parts != part {
				continue
			}
			// a is preempted; all others run to their ends
			p := append([]sched.Segment{{Thread: a, At: i}}, rest(1)...)
			try(append(p, sched.Segment{Thread: a, At: -1})...)
			if bound < 2 && n < 3 {
				continue
			}
			b := order[1]
			for _, j := range cand[b] {
				q := []sched.Segment{{Thread: a, At: i}, {Thread: b, At: j}}
				if n == 2 {
					// b is preempted, too: a runs on to its end
					try(append(q, sched.Segment{Thread: a, At: -1}, sched.Segment{Thread: b, At: -1})...)
				} else {
					q = append(q, rest(2)...)
					try(append(q, sched.Segment{Thread: a, At: -1}, sched.Segment{Thread: b, At: -1})...)
					if bound > 2 {
						try(append(append([]sched.Segment{}, q...), sched.Segment{Thread: b, At: -1}, sched.Segment{Thread: a, At: -1})...)
					}
				}
			}
		}
	})
}

// manyThreads makes the plans in which all threads are stopped at the same point and then run on, in the same
// or the opposite order.
func manyThreads(n, part, parts int, cand [][]int, try func(plan ...sched.Segment)) {
	for at := range cand[0] {
		if at%parts != part {
			continue
		}
		var first, on, back []sched.Segment
		for i := 0; i < n; i++ {
			if at < len(cand[i]) {
				first = append(first, sched.Segment{Thread: i, At: cand[i][at]})
			}
			on = append(on, sched.Segment{Thread: i, At: -1})
			back = append(back, sched.Segment{Thread: n - 1 - i, At: -1})
		}
		try(append(append([]sched.Segment{}, first...), on...)...)
		try(append(append([]sched.Segment{}, first...), back...)...)
	}
}

// repeated is an operation that makes the calls of another n times.
func repeated(o *op, n int) *op {
	return &op{name: fmt.Sprintf("%s %d times", o.name, n), run: func(w *World, with func(io.Reader, func())) (all []interface{}) {
		for i := 0; i < n; i++ {
			all = append(all, o.run(w, with)...)
		}
		return
	}}
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// c17Sub runs in the program built with the race detector: first op, sharing, warm, k, bound; all partners.
func c17Sub(args []string) {
	ops17 = c17Ops()
	var n [6]int
	for i := range n {
		n[i], _ = strconv.Atoi(args[i])
	}
	a, lo, hi, sharing, warm, k := n[0], n[1], n[2], n[3], n[4], n[5]
	for b := lo; b < hi; b++ {
		var wl []tcall
		if warm != 0 {
			ws := threadWorlds(sharing, 2)
			wl = []tcall{{&ops17[a], ws[0]}, {&ops17[b], ws[1]}}
		}
		t := eng.NewT()
		bound := 1
		if k == 0 {
			bound = 0
		}
		if f := t.Try(func() {
			explore(t, []*op{&ops17[a], &ops17[b]}, func() []*World { return threadWorlds(sharing, 2) }, wl, bound, k, 0, 1)
		}); f != "" {
			fmt.Printf("%s and %s with %s: %s\n", ops17[a].name, ops17[b].name, sharingNames[sharing], f)
			os.Exit(66)
		}
	}
	os.Exit(0)
}

func raceRun(t *eng.T, args ...int) {
	bin := os.Getenv("MC_RACE")
	var l []string
	for _, a := range args {
		l = append(l, strconv.Itoa(a))
	}
	cmd := exec.Command(bin, append([]string{"sub", "-prop", "C17", "--"}, l...)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if err == nil {
		return
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66 {
		t.Failf("%s\n%s", strings.TrimSpace(out.String()), raceReport(errs.String()))
	}
	s := errs.String()
	if strings.Contains(s, "DATA RACE") || strings.Contains(s, "concurrent map") {
		t.Failf("%s", raceReport(s))
	}
	t.Failf("the process failed: %v: %.2000s", err, s)
}

// raceReport shortens the race detector's words.
func raceReport(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if strings.Contains(x, "verif/mc/") || strings.HasPrefix(x, "/") && strings.Contains(x, "/mc/") || x == "" || strings.HasPrefix(x, "====") {
			continue
		}
		l = append(l, x)
		if len(l) > 24 {
			break
		}
	}
	return strings.Join(l, "\n  ")
}

func c17(tier string) []eng.Space {
	ops17 = c17Ops()
	n := len(ops17)
	var fast, real, reps []int
	for i, o := range ops17 {
		if o.real {
			real = append(real, i)
		} else {
			fast = append(fast, i)
		}
		if o.rep {
			reps = append(reps, i)
		}
	}
	deep := thorough(tier)
	oneOrder = !deep
	var sp []eng.Space
	add := func(name, doc string, n int, f func(t *eng.T, i int)) {
		sp = append(sp, eng.Space{Name: name, Doc: doc, N: n, Run: f, Timeout: 200 * time.Second})
	}
	pair := func(t *eng.T, a, b, sharing int, warm bool, bound, k, part, parts int) {
		t.Descf("%s and %s, %s, warmed up: %v", ops17[a].name, ops17[b].name, sharingNames[sharing], warm)
		var wl []tcall
		if warm {
			v := threadWorlds(sharing, 2)
			wl = []tcall{{&ops17[a], v[0]}, {&ops17[b], v[1]}}
		}
		explore(t, []*op{&ops17[a], &ops17[b]}, func() []*World { return threadWorlds(sharing, 2) }, wl, bound, k, part, parts)
	}
	// pairs: those of equal operations, those of representative ones, all others
	var equal, repPairs, others [][2]int
	for i, a := range fast {
		for _, b := range fast[i:] {
			switch {
			case a == b:
				equal = append(equal, [2]int{a, b})
			case ops17[a].rep && ops17[b].rep:
				repPairs = append(repPairs, [2]int{a, b})
			default:
				others = append(others, [2]int{a, b})
			}
		}
	}
	near := append(append([][2]int{}, equal...), repPairs...)
	all := append(append([][2]int{}, near...), others...)
	type job struct {
		p       [2]int
		sharing int
	}
	jobs := func(sharing int, ps ...[]([2]int)) (l []job) {
		for _, p := range ps {
			for _, x := range p {
				l = append(l, job{x, sharing})
			}
		}
		return
	}
	if sched.Instrumented() {
		k1 := pick(tier, 1, 3)
		first := append(append(jobs(sameKeys, near), jobs(otherArgs, all)...), jobs(sameArgs, equal)...)
		later := jobs(otherArgs, near)
		if deep {
			first = append(append(jobs(sameArgs, all), jobs(sameKeys, all)...), jobs(otherArgs, all)...)
			later = append(jobs(sameKeys, all), jobs(otherArgs, all)...)
		}
		add("first uses, one preemption", fmt.Sprintf("pairs of operations (without those on the SM2 curve) as two threads of a new process, in both orders, with one preemption before the first %d and the last %d executions of every statement", k1, k1), len(first), func(t *eng.T, i int) {
			pair(t, first[i].p[0], first[i].p[1], first[i].sharing, false, 1, k1, 0, 1)
		})
		add("later uses, one preemption", "the same after both calls have been made once before", len(later), func(t *eng.T, i int) {
			pair(t, later[i].p[0], later[i].p[1], later[i].sharing, true, 1, k1, 0, 1)
		})
		var rp [][2]int
		for i, a := range real {
			rp = append(rp, [2]int{a, a})
			if deep {
				for _, b := range real[i+1:] {
					rp = append(rp, [2]int{a, b})
				}
			}
		}
		add("SM2 curve, one preemption", "pairs of operations on the SM2 curve, one preemption", len(rp)*pick(tier, 1, 3)*4, func(t *eng.T, i int) {
			d := mix(i, len(rp), pick(tier, 1, 3), 4)
			pair(t, rp[d[0]][0], rp[d[0]][1], []int{sameKeys, otherArgs, sameArgs}[d[1]], false, 1, pick(tier, -1, 1), d[2], 4)
		})
		var two [][2]int
		for i, a := range reps {
			two = append(two, [2]int{a, a})
			if deep {
				for _, b := range reps[i+1:] {
					two = append(two, [2]int{a, b})
				}
			}
		}
		add("two preemptions", "pairs of representative operations, the first preempted, then the second, before the first execution of every statement", len(two)*8, func(t *eng.T, i int) {
			d := mix(i, len(two), 8)
			pair(t, two[d[0]][0], two[d[0]][1], otherArgs, false, 2, -1, d[1], 8)
		})
		add("three threads", "every representative operation three times, the first two preempted in turn before the first execution of every statement, the third run in between", len(reps)*8, func(t *eng.T, i int) {
			d := mix(i, len(reps), 8)
			o := &ops17[reps[d[0]]]
			t.Descf("%s three times, other arguments", o.name)
			explore(t, []*op{o, o, o}, func() []*World { return threadWorlds(otherArgs, 3) }, nil, 2, -1, d[1], 8)
		})
		add("many threads", "every operation (without those on the SM2 curve) in nine threads, all stopped before the first execution of the same statement, then going on in the same and in the opposite order", len(fast)*8, func(t *eng.T, i int) {
			d := mix(i, len(fast), 8)
			o := &ops17[fast[d[0]]]
			t.Descf("%s nine times, other arguments", o.name)
			exploreWith(t, []*op{o, o, o, o, o, o, o, o, o}, func() []*World { return threadWorlds(otherArgs, 9) }, nil, -1, func(cand [][]int, try func(plan ...sched.Segment)) {
				manyThreads(9, d[1], 8, cand, try)
			})
		})
		often := pick(tier, 70, 300)
		add("many calls in between", fmt.Sprintf("every operation (without those on the SM2 curve), preempted before the first and the last execution of every statement, while another thread calls it %d times with other arguments", often), len(fast)*8, func(t *eng.T, i int) {
			d := mix(i, len(fast), 8)
			o := &ops17[fast[d[0]]]
			t.Descf("%s while another thread calls it %d times", o.name, often)
			exploreWith(t, []*op{o, repeated(o, often)}, func() []*World { return threadWorlds(otherArgs, 2) }, nil, 1, func(cand [][]int, try func(plan ...sched.Segment)) {
				for at, p := range cand[0] {
					if at%8 == d[1] {
						try(sched.Segment{Thread: 0, At: p}, sched.Segment{Thread: 1, At: -1}, sched.Segment{Thread: 0, At: -1})
					}
				}
			})
		})
		ep := 8
		add("every point", "every operation (without those on the SM2 curve) twice, one preemption at every single scheduling point", len(fast)*ep, func(t *eng.T, i int) {
			d := mix(i, len(fast), ep)
			if !deep && strings.Contains(ops17[fast[d[0]]].name, "low point") {
				return
			}
			pair(t, fast[d[0]], fast[d[0]], otherArgs, false, 1, 0, d[1], ep)
		})
	} else {
		add("not instrumented", "the instrumented build of the library is not available: no preemption is explored", 1, func(t *eng.T, i int) {
			t.Note("schedules abandoned", 1)
			t.Obs(i)
		})
	}
	if os.Getenv("MC_RACE") != "" {
		chunk := 16
		chunks := (n + chunk - 1) / chunk
		sh := []int{sameKeys}
		if deep {
			sh = []int{sameKeys, sameArgs, otherArgs}
		}
		add("data races", "every pair of operations under the race detector, one after the other in both orders, unordered by the scheduler", n*chunks*len(sh), func(t *eng.T, i int) {
			d := mix(i, n, chunks, len(sh))
			lo, hi := d[1]*chunk, (d[1]+1)*chunk
			if hi > n {
				hi = n
			}
			if lo < d[0] {
				lo = d[0]
			}
			if lo >= hi {
				return
			}
			t.Descf("data races between %s and the operations from %s to %s, %s", ops17[d[0]].name, ops17[lo].name, ops17[hi-1].name, sharingNames[sh[d[2]]])
			raceRun(t, d[0], lo, hi, sh[d[2]], 0, 0)
			t.Ops(4 * (hi - lo))
			t.Obs(i)
		})
		if sched.Instrumented() {
			add("data races, one preemption", "every operation with itself under the race detector, one preemption; first and later uses", len(fast)*2, func(t *eng.T, i int) {
				d := mix(i, len(fast), 2)
				t.Descf("data races of %s with itself", ops17[fast[d[0]]].name)
				raceRun(t, fast[d[0]], fast[d[0]], fast[d[0]]+1, []int{sameKeys, sameArgs}[d[1]], d[1], 1)
				t.Obs(i)
			})
		}
	}
	return sp
}
