package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type options struct {
	prop, tier, verif, space, out, progress string
	shard, shards, idx                      int
	deadline                                time.Duration
	history                                 bool
	only                                    string
}

// Replay is the content of a replay file.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Mode     string `json:"mode"` // "case": the single case in a fresh process; "history": a worker's whole run up to the case
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Failure
	Reproduced string `json:"reproduced"`
}

func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	var o options
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.space, "space", "", "")
	fs.StringVar(&o.only, "only", "", "only spaces whose name contains this (debugging)")
	fs.StringVar(&o.out, "out", "", "")
	fs.StringVar(&o.progress, "progress", "", "")
	fs.IntVar(&o.shard, "shard", 0, "")
	fs.IntVar(&o.shards, "shards", 8, "")
	fs.IntVar(&o.idx, "idx", -1, "")
	fs.BoolVar(&o.history, "history", false, "")
	fs.DurationVar(&o.deadline, "deadline", 0, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "run":
		os.Exit(parent(&o))
	case "worker":
		worker(&o)
	case "replay":
		os.Exit(replay(&o, fs.Arg(0)))
	case "sub":
		mustProp(o.prop).Sub(fs.Args())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}

func mustProp(id string) *Prop {
	p := Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	return p
}

// TempDir is the directory of the running worker's files, which the parent removes in the end.
func TempDir() string { return tempDir }

var tempDir string

// Sub runs the property's Sub function in a fresh process and returns what it printed.
func Sub(prop string, args ...string) (string, error) {
	cmd := exec.Command("/proc/self/exe", append([]string{"sub", "-prop", prop, "--"}, args...)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v: %.3000s", err, errs.String())
	}
	return out.String(), nil
}

// ---- worker ----

func worker(o *options) {
	p := mustProp(o.prop)
	mem := p.MemLimitMB
	if mem == 0 {
		mem = 4096
	}
	lim := syscall.Rlimit{Cur: uint64(mem) << 20, Max: uint64(mem) << 20}
	if mem > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMaxStack(256 << 20)
	res := &Result{Notes: map[string]int64{}}
	t := &T{Tier: o.tier, res: res, states: map[uint64]struct{}{}}
	if o.progress != "" {
		tempDir = filepath.Dir(o.progress)
		f, err := os.OpenFile(o.progress, os.O_RDWR, 0)
		if err == nil {
			b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				t.prog = progressOf(b)
			}
		}
	}
	if p.Init != nil {
		p.Init()
	}
	start := time.Now()
	spaces := p.Spaces(o.tier)
	samples := map[string]bool{}
	known := loadKnown(o.verif, o.prop)
outer:
	for si := range spaces {
		sp := &spaces[si]
		if o.only != "" && !strings.Contains(sp.Name, o.only) {
			continue
		}
		if o.idx >= 0 && !o.history && sp.Name != o.space {
			continue
		}
		st := SpaceStat{Name: sp.Name, Size: sp.N, Doc: sp.Doc}
		complete := true
		for i := 0; i < sp.N; i++ {
			if o.idx >= 0 && !o.history {
				if i != o.idx {
					continue
				}
			} else if shardOf(si, i, o.shards) != o.shard {
				continue
			}
			if t.prog != nil {
				t.prog.set(si, i)
			}
			fail := t.runCase(sp, i)
			st.Cases++
			if fail != nil {
				res.Failures = append(res.Failures, *fail)
				if t.prog != nil && known.match(*fail) == "" {
					atomic.StoreInt64(&t.prog.failed, 1)
				}
				if len(res.Failures) >= 8 {
					complete = false
				}
				if o.history && o.idx == i && o.space == sp.Name || !complete {
					res.Spaces = append(res.Spaces, st)
					break outer
				}
			} else if n := len(res.Samples); n < 40 && (i == 0 || i == sp.N/2 || i == sp.N-1 || st.Cases == 1) {
				if d := t.caseDesc(); d != "" && !samples[d] {
					samples[d] = true
					if len(d) > 300 {
						d = d[:300] + "..."
					}
					res.Samples = append(res.Samples, sp.Name+"["+strconv.Itoa(i)+"]: "+d)
				}
			}
			if o.history && o.idx == i && o.space == sp.Name {
				break outer
			}
			if t.prog != nil && atomic.LoadInt64(&t.prog.stop) != 0 {
				st.Done = false
				res.Spaces = append(res.Spaces, st)
				break outer
			}
			if o.deadline > 0 && time.Since(start) > o.deadline {
				res.Timeout = true
				complete = false
				break
			}
		}
		st.Done = complete
		if t.prog != nil {
			t.prog.set(si, sp.N)
		}
		res.Spaces = append(res.Spaces, st)
		if os.Getenv("MC_TIMES") != "" && o.shard == 0 {
			fmt.Fprintf(os.Stderr, "%8.2fs %-28s N=%d\n", time.Since(start).Seconds(), sp.Name, sp.N)
		}
		if res.Timeout {
			break
		}
	}
	res.States = len(t.states)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if o.out == "" {
		os.Stdout.Write(b)
		os.Exit(0)
	}
	sb := make([]byte, 0, 8*len(t.states))
	for h := range t.states {
		sb = binary.LittleEndian.AppendUint64(sb, h)
	}
	os.WriteFile(o.out+".states", sb, 0644)
	if err := os.WriteFile(o.out, b, 0644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

// ---- parent ----

type wstate struct {
	shard    int
	cmd      *exec.Cmd
	prog     *progress
	out      string
	lastSeq  int64
	lastTime time.Time
	done     chan error
	hung     bool
	stderr   *os.File
}

func spawn(o *options, dir string, shard int, args ...string) (*wstate, error) {
	w := &wstate{shard: shard, lastTime: time.Now(), done: make(chan error, 1)}
	pf := filepath.Join(dir, fmt.Sprintf("progress%d", shard))
	if err := os.WriteFile(pf, make([]byte, 4096), 0644); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(pf, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
	if err != nil {
		return nil, err
	}
	w.prog = progressOf(b)
	w.out = filepath.Join(dir, fmt.Sprintf("out%d", shard))
	os.Remove(w.out)
	a := append([]string{"worker", "-prop", o.prop, "-tier", o.tier, "-shard", strconv.Itoa(shard),
		"-shards", strconv.Itoa(o.shards), "-progress", pf, "-out", w.out}, args...)
	w.cmd = exec.Command("/proc/self/exe", a...)
	w.cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if os.Getenv("MC_GOMAXPROCS") == "" {
		w.cmd.Env = append(w.cmd.Env, "GOMAXPROCS=2")
	}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ef, err := os.Create(filepath.Join(dir, fmt.Sprintf("err%d", shard)))
	if err != nil {
		return nil, err
	}
	w.stderr = ef
	w.cmd.Stderr = ef
	w.cmd.Stdout = ef
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { w.done <- w.cmd.Wait() }()
	return w, nil
}

// finish waits for a worker, killing it when a case makes no progress for too long.
func (w *wstate) finish(spaces []Space, factor int) (*Result, string) {
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-w.done:
			w.stderr.Close()
			eb, _ := os.ReadFile(w.stderr.Name())
			if w.hung {
				return nil, "hang"
			}
			if err != nil {
				s := string(eb)
				if len(s) > 3000 {
					s = s[:3000]
				}
				return nil, "crash: " + err.Error() + "\n" + s
			}
			if len(eb) > 0 && os.Getenv("MC_TIMES") != "" {
				os.Stderr.Write(eb)
			}
			b, err := os.ReadFile(w.out)
			if err != nil {
				return nil, "crash: no result: " + string(eb)
			}
			r := new(Result)
			if err := json.Unmarshal(b, r); err != nil {
				return nil, "crash: bad result: " + err.Error()
			}
			return r, ""
		case <-tick.C:
			seq := w.prog.seq
			now := time.Now()
			if seq != w.lastSeq {
				w.lastSeq, w.lastTime = seq, now
				continue
			}
			to := 60 * time.Second
			if si := int(w.prog.space); seq > 0 && si < len(spaces) && spaces[si].Timeout > 0 {
				to = spaces[si].Timeout
			}
			if seq == 0 {
				to = 180 * time.Second
			}
			if now.Sub(w.lastTime) > to*time.Duration(factor) && !w.hung {
				w.hung = true
				w.cmd.Process.Kill()
			}
		}
	}
}

func parent(o *options) int {
	start := time.Now()
	p := mustProp(o.prop)
	if p.Init != nil {
		p.Init()
	}
	spaces := p.Spaces(o.tier)
	dl := o.deadline
	if dl == 0 {
		dl = 480 * time.Second
		if o.tier == "thorough" {
			dl = 3 * time.Hour
		}
	}
	dir, err := os.MkdirTemp("", "mc-"+o.prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	var ws []*wstate
	for s := 0; s < o.shards; s++ {
		args := []string{"-deadline", dl.String(), "-verif", o.verif}
		if o.only != "" {
			args = append(args, "-only", o.only)
		}
		w, err := spawn(o, dir, s, args...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot start worker:", err)
			return 2
		}
		ws = append(ws, w)
	}
	type outcome struct {
		w   *wstate
		r   *Result
		bad string
	}
	ch := make(chan outcome)
	// once a case has failed there is no need to go through all others: the workers are soon told to stop
	known := loadKnown(o.verif, o.prop)
	var lost int64
	over := make(chan struct{})
	go func() {
		tick := time.NewTicker(200 * time.Millisecond)
		defer tick.Stop()
		var since time.Time
		for {
			select {
			case <-over:
				return
			case <-tick.C:
			}
			failed := atomic.LoadInt64(&lost) != 0
			for _, w := range ws {
				failed = failed || atomic.LoadInt64(&w.prog.failed) != 0
			}
			if !failed {
				continue
			}
			if os.Getenv("MC_FAILFAST") != "" {
				fmt.Println("FAILED", o.prop)
				os.RemoveAll(dir)
				os.Exit(9)
			}
			if since.IsZero() {
				since = time.Now()
			} else if time.Since(since) > 20*time.Second {
				for _, w := range ws {
					atomic.StoreInt64(&w.prog.stop, 1)
				}
			}
		}
	}()
	for _, w := range ws {
		go func(w *wstate) {
			r, bad := w.finish(spaces, 1)
			if r == nil && len(known.entries) == 0 {
				atomic.StoreInt64(&lost, 1)
			}
			ch <- outcome{w, r, bad}
		}(w)
	}
	total := &Result{Notes: map[string]int64{}}
	states := map[uint64]struct{}{}
	stats := map[string]*SpaceStat{}
	type cand struct {
		f     Failure
		shard int
	}
	var cands []cand
	var broken []string
	for range ws {
		oc := <-ch
		if oc.r == nil {
			si, i := int(oc.w.prog.space), int(oc.w.prog.idx)
			if oc.w.prog.seq == 0 || si >= len(spaces) || i >= spaces[si].N {
				broken = append(broken, fmt.Sprintf("worker %d: %s", oc.w.shard, oc.bad))
				continue
			}
			kind := "crash"
			if oc.bad == "hang" {
				kind = "hang"
			}
			cands = append(cands, cand{Failure{Space: spaces[si].Name, Idx: i, What: oc.bad, Kind: kind}, oc.w.shard})
			continue
		}
		r := oc.r
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.Evaluations += r.Evaluations
		total.StatesCap = total.StatesCap || r.StatesCap
		total.Timeout = total.Timeout || r.Timeout
		total.Samples = append(total.Samples, r.Samples...)
		for k, v := range r.Notes {
			total.Notes[k] += v
		}
		for _, st := range r.Spaces {
			x := stats[st.Name]
			if x == nil {
				x = &SpaceStat{Name: st.Name, Size: st.Size, Doc: st.Doc, Done: true}
				stats[st.Name] = x
			}
			x.Cases += st.Cases
			x.Done = x.Done && st.Done
		}
		for _, f := range r.Failures {
			cands = append(cands, cand{f, oc.w.shard})
		}
		sb, _ := os.ReadFile(oc.w.out + ".states")
		for k := 0; k+8 <= len(sb); k += 8 {
			states[binary.LittleEndian.Uint64(sb[k:])] = struct{}{}
		}
	}
	close(over)
	sort.SliceStable(cands, func(i, j int) bool {
		a, b := cands[i].f, cands[j].f
		if a.Space != b.Space {
			return spaceIndex(spaces, a.Space) < spaceIndex(spaces, b.Space)
		}
		return a.Idx < b.Idx
	})
	violations := 0
	printedKnown := map[string]bool{}
	var unconfirmed []string
	confirmedTried := 0
	for _, c := range cands {
		if violations > 0 || confirmedTried >= 6 {
			break
		}
		if k := known.match(c.f); k != "" {
			if !printedKnown[k] {
				printedKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
			}
			continue
		}
		confirmedTried++
		rp := confirm(o, dir, spaces, c.f, c.shard)
		if rp == nil {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s[%d]: %s", c.f.Space, c.f.Idx, c.f.What))
			continue
		}
		violations++
		path := writeReplay(o, rp)
		fmt.Printf("%s[%d] %s\n  %s\n", rp.Space, rp.Idx, rp.Case, rp.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
	}
	var sl []SpaceStat
	exhaustive := !total.Timeout && len(broken) == 0 && len(cands) == 0
	for _, sp := range spaces {
		if x := stats[sp.Name]; x != nil {
			sl = append(sl, *x)
			if !x.Done || x.Cases != x.Size {
				exhaustive = false
			}
		} else {
			sl = append(sl, SpaceStat{Name: sp.Name, Size: sp.N})
			exhaustive = false
		}
	}
	sort.Strings(total.Samples)
	if len(total.Samples) > 24 {
		step := float64(len(total.Samples)) / 24
		var s []string
		for k := 0; k < 24; k++ {
			s = append(s, total.Samples[int(float64(k)*step)])
		}
		total.Samples = s
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(no sample recorded)"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"evaluations":                   total.Evaluations,
		"samples":                       total.Samples,
		"exhaustive":                    exhaustive,
		"spaces":                        sl,
		"rule": "states: distinct observations (results and observable object states) of the real code; transitions: calls into the real code; " +
			"traces: complete executions whose every result equalled the reference model's",
	}
	if total.StatesCap {
		cov["states_capped"] = true
	}
	if len(total.Notes) > 0 {
		cov["counters"] = total.Notes
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, u := range unconfirmed {
		fmt.Println("note: deviation seen once but not reproduced, not reported:", u)
	}
	if violations > 0 {
		return 1
	}
	if len(broken) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(broken, "\n"))
		return 2
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d exhaustive=%v %.1fs\n", o.prop, o.tier,
		len(states), total.Transitions, total.Traces, exhaustive, time.Since(start).Seconds())
	return 0
}

func spaceIndex(spaces []Space, name string) int {
	for i := range spaces {
		if spaces[i].Name == name {
			return i
		}
	}
	return -1
}

// confirm re-runs a failing case: first alone in fresh processes, then with the worker's whole history.
func confirm(o *options, dir string, spaces []Space, f Failure, shard int) *Replay {
	rp := &Replay{Property: o.prop, Tier: o.tier, Shard: shard, Shards: o.shards, Failure: f}
	once := func(args ...string) *Failure {
		w, err := spawn(o, dir, 1000+shard, args...)
		if err != nil {
			return nil
		}
		r, bad := w.finish(spaces, 1)
		if r == nil {
			k := "crash"
			if bad == "hang" {
				k = "hang"
			}
			return &Failure{Space: f.Space, Idx: f.Idx, What: bad, Kind: k}
		}
		for k := range r.Failures {
			if r.Failures[k].Space == f.Space && r.Failures[k].Idx == f.Idx {
				return &r.Failures[k]
			}
		}
		return nil
	}
	runs := 5
	if f.Kind == "hang" {
		runs = 1
	}
	hits := 0
	begin := time.Now()
	for k := 0; k < runs; k++ {
		if k > 0 && time.Since(begin) > time.Minute {
			runs = k
			break
		}
		if g := once("-space", f.Space, "-idx", strconv.Itoa(f.Idx)); g != nil {
			hits++
			rp.Failure = *g
			if g.Case == "" {
				rp.Case = f.Case
			}
		}
	}
	if hits > 0 {
		rp.Mode, rp.Reproduced = "case", fmt.Sprintf("%d of %d runs of the case alone in a fresh process", hits, runs)
		return rp
	}
	for k := 0; k < 2; k++ {
		w := once("-space", f.Space, "-idx", strconv.Itoa(f.Idx), "-history", "-shard", strconv.Itoa(shard))
		if w != nil {
			rp.Failure = *w
			rp.Mode, rp.Reproduced = "history", "fails after the worker's preceding cases, not alone in a fresh process: the result depends on earlier calls"
			return rp
		}
	}
	return nil
}

func writeReplay(o *options, rp *Replay) string {
	d := filepath.Join(o.verif, "replays")
	os.MkdirAll(d, 0755)
	b, _ := json.MarshalIndent(rp, "", " ")
	path := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", o.prop, strings.ReplaceAll(rp.Space, "/", "_"), rp.Idx))
	os.WriteFile(path, append(b, '\n'), 0644)
	return path
}

func replay(o *options, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.prop, o.tier, o.shards = rp.Property, rp.Tier, rp.Shards
	p := mustProp(o.prop)
	dir, err := os.MkdirTemp("", "mc-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	args := []string{"-space", rp.Space, "-idx", strconv.Itoa(rp.Idx)}
	if rp.Mode == "history" {
		args = append(args, "-history")
	}
	w, err := spawn(o, dir, rp.Shard, args...)
	if err != nil {
		return 2
	}
	if p.Init != nil {
		p.Init()
	}
	r, bad := w.finish(p.Spaces(o.tier), 1)
	if r == nil {
		fmt.Printf("%s[%d]: %s\nVIOLATION property=%s replay=%s\n", rp.Space, rp.Idx, bad, o.prop, path)
		return 1
	}
	for _, f := range r.Failures {
		if f.Space == rp.Space && f.Idx == rp.Idx {
			fmt.Printf("%s[%d] %s\n  %s\nVIOLATION property=%s replay=%s\n", f.Space, f.Idx, f.Case, f.What, o.prop, path)
			return 1
		}
	}
	fmt.Println("not reproduced: the case passes")
	return 0
}

// ---- known findings ----

type known struct {
	entries []struct{ space, text string }
}

// loadKnown reads lines "finding: property=C01 space=<space[index]> <text>".
func loadKnown(verif, prop string) *known {
	k := &known{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || !strings.HasPrefix(f[2], "case=") {
			continue
		}
		k.entries = append(k.entries, struct{ space, text string }{strings.TrimPrefix(f[2], "case="), strings.Join(f[2:], " ")})
	}
	return k
}

func (k *known) match(f Failure) string {
	for _, e := range k.entries {
		if e.space == fmt.Sprintf("%s[%d]", f.Space, f.Idx) {
			return e.text
		}
	}
	return ""
}
