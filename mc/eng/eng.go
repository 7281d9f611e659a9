// Package eng is the exhaustive explorer: it enumerates finite case spaces completely, spread over
// worker processes, and turns every deviation from the reference into a replayable violation.
package eng

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Space is a finite set of cases 0..N-1, all of which are run.
type Space struct {
	Name string
	N    int
	Run  func(t *T, i int)
	// Timeout after which a case that makes no progress is reported as hanging (default 60 s).
	Timeout time.Duration
	// Doc says in one line what is enumerated.
	Doc string
}

// Prop is one property and the spaces that decide it.
type Prop struct {
	ID          string
	Spaces      func(tier string) []Space
	Init        func() // self-test and tables, once per worker
	Assumptions []string
	MemLimitMB  int
	// Sub runs in a fresh process of its own (mc sub -prop ID args...) on behalf of a case.
	Sub func(args []string)
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

// T is handed to each case.
type T struct {
	Tier   string
	space  *Space
	idx    int
	res    *Result
	states map[uint64]struct{}
	desc   func() string
	prog   *progress
	failed *Failure
}

type progress struct {
	space, idx, seq int64
	failed, stop    int64 // set by the worker, by the parent
}

func (p *progress) set(space, idx int) {
	atomic.StoreInt64(&p.space, int64(space))
	atomic.StoreInt64(&p.idx, int64(idx))
	atomic.AddInt64(&p.seq, 1)
}

func progressOf(b []byte) *progress { return (*progress)(unsafe.Pointer(&b[0])) }

type Failure struct {
	Space string `json:"space"`
	Idx   int    `json:"index"`
	Case  string `json:"case"`
	What  string `json:"what"`
	Kind  string `json:"kind"`
}

type SpaceStat struct {
	Name  string `json:"space"`
	Doc   string `json:"enumerated,omitempty"`
	Size  int    `json:"size"`
	Cases int    `json:"cases_run"`
	Done  bool   `json:"complete"`
}

type Result struct {
	Transitions int64
	Traces      int64
	Evaluations int64
	StatesCap   bool
	States      int
	Spaces      []SpaceStat
	Samples     []string
	Failures    []Failure
	Timeout     bool
	Notes       map[string]int64
}

type failPanic struct{ f Failure }

// Desc gives the case a description, evaluated only when needed.
func (t *T) Desc(f func() string) { t.desc = f }

func (t *T) Descf(format string, a ...interface{}) {
	t.desc = func() string { return fmt.Sprintf(format, a...) }
}

// Ops counts calls into the code under test (transitions).
func (t *T) Ops(n int) {
	t.res.Transitions += int64(n)
	if t.prog != nil {
		atomic.AddInt64(&t.prog.seq, 1)
	}
}

// Trace counts complete executions of the real code that agreed with the reference, besides the case itself.
func (t *T) Trace(n int) { t.res.Traces += int64(n) }

// Eval counts additional evaluations inside a case.
func (t *T) Eval(n int) { t.res.Evaluations += int64(n) }

// Note accumulates a named counter for the evidence.
func (t *T) Note(name string, n int) { t.res.Notes[name] += int64(n) }

const maxStates = 1 << 19

// Obs records an observed state of the code under test.
func (t *T) Obs(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			var l [4]byte
			l[0], l[1], l[2], l[3] = byte(len(v)), byte(len(v)>>8), byte(len(v)>>16), byte(len(v)>>24)
			h.Write(l[:])
			if len(v) > 512 {
				v = v[:512]
			}
			h.Write(v)
		case string:
			h.Write([]byte(v))
			h.Write([]byte{0})
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	if len(t.states) < maxStates {
		t.states[h.Sum64()] = struct{}{}
	} else {
		t.res.StatesCap = true
	}
}

// Failf ends the case with a violation.
func (t *T) Failf(format string, a ...interface{}) {
	panic(failPanic{Failure{What: fmt.Sprintf(format, a...), Kind: "mismatch"}})
}

// Check fails unless ok.
func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Failf(format, a...)
	}
}

// NoPanic runs f and fails if it panics.
func Catch(f func()) (p interface{}, stack string) {
	returned := false
	defer func() {
		r := recover()
		if returned {
			return
		}
		if fp, ok := r.(failPanic); ok {
			panic(fp)
		}
		p, stack = r, trimStack(string(debug.Stack()))
		if p == nil {
			p = nilPanic
		}
	}()
	f()
	returned = true
	return
}

// nilPanic stands for panic(nil), which recover does not tell from no panic.
const nilPanic = "panic(nil)"

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for i, l := range lines {
		if strings.Contains(l, "ZZMarquis/gm") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		_ = i
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " ; ")
}

// NewT is a T outside of any space, for Sub functions.
func NewT() *T { return &T{res: &Result{Notes: map[string]int64{}}, states: map[uint64]struct{}{}} }

// Try runs f and says what failed in it.
func (t *T) Try(f func()) (failed string) {
	returned := false
	defer func() {
		r := recover()
		if fp, ok := r.(failPanic); ok {
			failed = fp.f.What
		} else if !returned {
			if r == nil {
				r = nilPanic
			}
			panic(r)
		}
	}()
	f()
	returned = true
	return
}

func (t *T) runCase(sp *Space, i int) (fail *Failure) {
	t.space, t.idx = sp, i
	t.desc = nil
	returned := false
	defer func() {
		r := recover()
		if returned {
			return
		}
		if r == nil {
			r = nilPanic
		}
		var f Failure
		if fp, ok := r.(failPanic); ok {
			f = fp.f
		} else {
			if re, ok := r.(runtime.Error); ok {
				f = Failure{What: "panic: " + re.Error() + " at " + trimStack(string(debug.Stack())), Kind: "panic"}
			} else {
				f = Failure{What: fmt.Sprintf("panic: %v at %s", r, trimStack(string(debug.Stack()))), Kind: "panic"}
			}
			if !strings.Contains(f.What, "gm") && !strings.Contains(f.What, "/repo/") {
				f.What += "\n" + string(debug.Stack())
			}
		}
		f.Space, f.Idx = sp.Name, i
		f.Case = t.caseDesc()
		fail = &f
	}()
	sp.Run(t, i)
	returned = true
	t.res.Evaluations++
	t.res.Traces++
	return nil
}

func (t *T) caseDesc() (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("(description failed: %v)", r)
		}
	}()
	if t.desc == nil {
		return ""
	}
	s = t.desc()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func shardOf(si, i, shards int) int {
	if i < shards {
		return (si + i) % shards // small spaces of long cases go to different workers
	}
	z := uint64(i) + uint64(si)*0x1000003 + 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	z ^= z >> 31
	return int(z % uint64(shards))
}
