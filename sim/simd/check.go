package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The supervisor runs workers and single plans in processes of their own.

type finding struct {
	prop, key, replay, text string
}

func readFindings(root string) (l []finding) {
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "finding: ") {
			continue
		}
		f := finding{}
		ws := strings.Fields(s)[1:]
		for len(ws) > 0 {
			kv := strings.SplitN(ws[0], "=", 2)
			if len(kv) != 2 {
				break
			}
			switch kv[0] {
			case "property":
				f.prop = kv[1]
			case "key":
				f.key = kv[1]
			case "replay":
				f.replay = kv[1]
			default:
				goto text
			}
			ws = ws[1:]
		}
	text:
		f.text = strings.Join(ws, " ")
		l = append(l, f)
	}
	return
}

// verdict of a child process.
type verdict struct {
	ok      bool // ran to its end
	ran     Ran
	key     string // crash key; empty if it did not crash
	msg     string
	harness string
	sched   *[]byte
}

type sup struct {
	root, tmp  string
	bin        string
	prop       string
	known      map[string]bool
	race       bool
	mu         sync.Mutex
	n          int
	childLimit time.Duration
}

var env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single", "GOMAXPROCS=1")

func (s *sup) file(suffix string) string {
	s.mu.Lock()
	s.n++
	n := s.n
	s.mu.Unlock()
	return filepath.Join(s.tmp, fmt.Sprintf("c%d%s", n, suffix))
}

type capped struct {
	b   bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if k := c.max - c.b.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		c.b.Write(p[:k])
	}
	return len(p), nil
}

func run1(limit time.Duration, bin string, args ...string) (out, errs []byte, code int, timedOut bool) {
	c := exec.Command(bin, args...)
	c.Env = env
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var ob bytes.Buffer
	eb := capped{max: 1 << 20}
	c.Stdout, c.Stderr = &ob, &eb
	if err := c.Start(); err != nil {
		return nil, []byte(err.Error()), -1, false
	}
	t := time.AfterFunc(limit, func() {
		timedOut = true
		c.Process.Kill()
	})
	c.Wait()
	t.Stop()
	return ob.Bytes(), eb.b.Bytes(), c.ProcessState.ExitCode(), timedOut
}

// one executes a plan in a fresh process.
func (s *sup) one(p *Plan, tries int, key string, trace bool) (v verdict, dec string) {
	f := s.file(".json")
	b, _ := json.Marshal(p)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	dec = f + ".dec"
	args := []string{"run", "-plan", f, "-tries", fmt.Sprint(tries), "-dec", dec}
	if key != "" {
		args = append(args, "-key", key)
	}
	if trace {
		args = append(args, "-trace")
	}
	out, errs, code, to := run1(s.childLimit, s.bin, args...)
	v = s.judge(out, errs, code, to)
	if !v.ok {
		if sb, err := os.ReadFile(dec + ".sched"); err == nil {
			json.Unmarshal(sb, &v.ran.Sched)
		}
	}
	os.Remove(dec + ".sched")
	return v, dec
}

func (s *sup) judge(out, errs []byte, code int, to bool) (v verdict) {
	if to {
		v.key, v.msg = "real-time-hang", "the run did not end in real time"
		return
	}
	if code == 0 {
		if err := json.Unmarshal(out, &v.ran); err != nil {
			v.harness = "bad output: " + err.Error()
			return
		}
		v.ok = true
		v.harness = v.ran.Harness
		return
	}
	v.key, v.msg, v.harness = classify(string(errs), code)
	return
}

var numRe = regexp.MustCompile(`0x[0-9a-f]+|\b[0-9]+\b`)

// classify attributes the end of a child process.
func classify(errs string, code int) (key, msg, harness string) {
	short := errs
	if len(short) > 6000 {
		short = short[:6000]
	}
	if i := strings.Index(errs, "WARNING: DATA RACE"); i >= 0 {
		return classifyRace(errs[i:])
	}
	if strings.Contains(errs, "SIM-STEP-BUDGET") || code == 97 {
		return "step-budget", "the run exceeded its step budget: the code loops without end", ""
	}
	i := strings.Index(errs, "panic: ")
	if j := strings.Index(errs, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return "", "", fmt.Sprintf("child process failed (exit %d): %s", code, short)
	}
	head := errs[i:]
	if j := strings.IndexByte(head, '\n'); j >= 0 {
		head = head[:j]
	}
	if strings.Contains(head, "out of memory") || strings.Contains(head, "cannot allocate") {
		return "memory", "the process ran out of memory: " + head, ""
	}
	rest := errs[i:]
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return "", "", short
	}
	lines := strings.Split(rest[g+1:], "\n")
	for _, l := range lines[1:] {
		if l == "" {
			break
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		l = strings.TrimPrefix(l, "created by ")
		if strings.HasPrefix(l, "github.com/Breeze0806/") {
			fn := l
			if k := strings.LastIndexByte(fn, '('); k > 0 {
				fn = fn[:k]
			}
			if k := strings.LastIndexByte(fn, '/'); k > 0 {
				fn = fn[k+1:]
			}
			return "panic:" + fn, head + " in " + fn + "\n" + strings.Join(lines[:min(len(lines), 20)], "\n"), ""
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/") {
			return "", "", short
		}
	}
	return "", "", short
}

func classifyRace(r string) (key, msg, harness string) {
	if j := strings.Index(r[20:], "=================="); j > 0 {
		r = r[:20+j]
	}
	var tops []string
	lib := false
	for _, sec := range strings.Split(r, "\n\n") {
		h := sec
		if i := strings.IndexByte(h, '\n'); i >= 0 && strings.HasPrefix(h, "WARNING") {
			h = h[i+1:]
		}
		low := strings.ToLower(h)
		if !strings.HasPrefix(strings.TrimSpace(low), "read at") && !strings.HasPrefix(strings.TrimSpace(low), "write at") &&
			!strings.HasPrefix(strings.TrimSpace(low), "previous") && !strings.HasPrefix(strings.TrimSpace(low), "atomic") {
			continue
		}
		top := ""
		for i, l := range strings.Split(h, "\n") {
			if i == 0 || strings.HasPrefix(l, "      ") {
				continue
			}
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/Breeze0806/") {
				lib = true
				if top == "" {
					top = l[strings.LastIndexByte(l, '/')+1:]
				}
			} else if top == "" && (strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/")) {
				top = l
			}
		}
		tops = append(tops, strings.TrimSuffix(top, "()"))
	}
	sort.Strings(tops)
	if !lib {
		return "", "", "race within the harness: " + r
	}
	return "race:" + strings.Join(tops, "|"), r, ""
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Float64("secs", 45, "")
	raceSecs := fs.Float64("racesecs", 0, "")
	root := fs.String("root", "", "")
	workers := fs.Int("workers", 8, "")
	minSecs := fs.Float64("minsecs", 60, "")
	started := fs.Int64("started", 0, "unix time the check began")
	fs.Parse(args)
	begin := time.Now()
	if *started > 0 {
		begin = time.Unix(*started, 0)
	}
	tmp, err := os.MkdirTemp("", "simd-"+*prop+"-")
	die(err)
	s := &sup{root: *root, tmp: tmp, prop: *prop, known: map[string]bool{}, childLimit: 90 * time.Second}
	code := s.check(*tier, *seed, *secs, *raceSecs, *workers, *minSecs, begin)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func (s *sup) setRace(on bool) {
	s.race = on
	s.bin = filepath.Join(s.root, "build/bin/simd-plain")
	if on {
		s.bin = filepath.Join(s.root, "build/bin/simd-race")
	}
}

type phase struct {
	Race     bool
	Stats    Stats
	Distinct int
	Wall     time.Duration
}

func (s *sup) check(tier string, seed uint64, secs, raceSecs float64, workers int, minSecs float64, begin time.Time) int {
	s.setRace(false)
	reproduced := 0
	for _, f := range readFindings(s.root) {
		if f.prop != s.prop {
			continue
		}
		s.known[f.key] = true
		v, dec := s.one(loadPlan(filepath.Join(s.root, f.replay)), 1, "", false)
		os.Remove(dec)
		hit := v.key == f.key
		for _, x := range v.ran.Viol {
			hit = hit || x.Key == f.key && has(x.Props, s.prop)
		}
		if hit {
			reproduced++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.prop, f.text)
		} else {
			fmt.Printf("note: the known finding %q of %s does not reproduce on this tree\n", f.key, s.prop)
		}
	}
	var phases []phase
	deep := tier == "thorough"
	var samples []interface{}
	found := false
	replay := ""
	var fmsg string
	for _, race := range []bool{false, true} {
		d := secs
		if race {
			d = raceSecs
		}
		if d <= 0 {
			continue
		}
		s.setRace(race)
		ph, fnd, msg, herr := s.search(seed, d, workers, deep)
		if herr != "" {
			fmt.Fprintln(os.Stderr, "simd: error of the check itself:", herr)
			return 2
		}
		phases = append(phases, ph)
		if !race {
			for i := uint64(0); i < 3; i++ {
				p := genPlan(s.prop, seed, i, deep, race)
				samples = append(samples, brief(p))
			}
		}
		if fnd != nil {
			found = true
			fmsg = msg
			replay = s.report(fnd, msg, minSecs)
			if replay == "" {
				return 2
			}
			break
		}
	}
	s.evidence(tier, seed, phases, samples, found, fmsg, reproduced, begin)
	for _, ph := range phases {
		k := "plain"
		if ph.Race {
			k = "race"
		}
		fmt.Printf("%s %s build: %d runs, %d distinct executions, simulated time %v, %.0f runs/s\n", s.prop, k, ph.Stats.Runs, ph.Distinct, ph.Stats.SimTime.Round(time.Second), float64(ph.Stats.Runs)/ph.Wall.Seconds())
	}
	if found {
		fmt.Printf("%s\n", fmsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.prop, replay)
		return 1
	}
	return 0
}

// search runs the workers; it returns the violation with the lowest index.
func (s *sup) search(seed uint64, secs float64, workers int, deep bool) (ph phase, best *Found, msg, herr string) {
	ph.Race = s.race
	t0 := time.Now()
	type res struct {
		w    int
		errs []byte
		code int
		to   bool
	}
	var known []string
	for k := range s.known {
		known = append(known, k)
	}
	sort.Strings(known)
	ch := make(chan res)
	procs := make([]*exec.Cmd, workers)
	outs := make([]string, workers)
	ebs := make([]*capped, workers)
	for w := 0; w < workers; w++ {
		outs[w] = filepath.Join(s.tmp, fmt.Sprintf("w%v-%d", s.race, w))
		c := exec.Command(s.bin, "worker", "-prop", s.prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(workers),
			"-secs", fmt.Sprint(secs), "-out", outs[w], fmt.Sprintf("-deep=%v", deep), "-known", strings.Join(known, ","))
		c.Env = env
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		ebs[w] = &capped{max: 1 << 20}
		c.Stdout, c.Stderr = os.Stderr, ebs[w]
		if err := c.Start(); err != nil {
			return ph, nil, "", err.Error()
		}
		procs[w] = c
		go func(w int) {
			c.Wait()
			ch <- res{w, ebs[w].b.Bytes(), c.ProcessState.ExitCode(), false}
		}(w)
	}
	// a worker that makes no progress in real time is killed
	stop := make(chan struct{})
	killed := make([]bool, workers)
	var kmu sync.Mutex
	go func() {
		last := make([]string, workers)
		since := make([]time.Time, workers)
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
			}
			for w := range procs {
				b, _ := os.ReadFile(outs[w] + ".idx")
				if string(b) != last[w] || since[w].IsZero() {
					last[w], since[w] = string(b), time.Now()
				} else if time.Since(since[w]) > 90*time.Second && procs[w].ProcessState == nil {
					kmu.Lock()
					killed[w] = true
					kmu.Unlock()
					procs[w].Process.Kill()
				}
			}
		}
	}()
	consider := func(f *Found, m string) {
		if best == nil || f.Index < best.Index {
			best, msg = f, m
		}
	}
	var others []string
	ended := false
	for n := 0; n < workers; n++ {
		r := <-ch
		kmu.Lock()
		r.to = killed[r.w]
		kmu.Unlock()
		switch {
		case r.code == 0:
		case ended && r.code == -1 && !r.to:
		case r.code == 10:
			b, err := os.ReadFile(outs[r.w] + ".viol")
			var f Found
			if err != nil || json.Unmarshal(b, &f) != nil {
				herr = "unreadable violation of worker"
				break
			}
			consider(&f, f.Msg)
		case r.code == 98:
			herr = string(r.errs)
		default:
			b, err := os.ReadFile(outs[r.w] + ".idx")
			if err != nil || len(b) != 8 {
				herr = fmt.Sprintf("worker died (exit %d): %.2000s", r.code, r.errs)
				break
			}
			i := binary.LittleEndian.Uint64(b)
			key, m, h := classify(string(r.errs), r.code)
			if r.to {
				key, m, h = "real-time-hang", "the run did not end in real time", ""
			}
			if strings.HasPrefix(h, "race within the harness") {
				// says nothing about the code under test; the other workers go on
				fmt.Fprintf(os.Stderr, "simd: note: a worker stopped at index %d: %.3000s\n", i, h)
				break
			}
			if h != "" {
				herr = fmt.Sprintf("worker died at index %d (exit %d): %.4000s", i, r.code, h)
				break
			}
			if s.known[key] {
				others = append(others, key)
				break
			}
			consider(&Found{Index: i, Plan: genPlan(s.prop, seed, i, deep, s.race), Key: key, Msg: m}, m)
		}
		if (best != nil || herr != "") && !ended {
			ended = true
			// the others have two seconds to come up with a lower index
			time.AfterFunc(2*time.Second, func() {
				for _, p := range procs {
					p.Process.Signal(syscall.SIGKILL)
				}
			})
		}
	}
	close(stop)
	_ = others
	if best != nil {
		herr = ""
	}
	hashes := map[uint64]bool{}
	st := Stats{Faults: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}, Known: map[string]int{}}
	for _, o := range outs {
		if b, err := os.ReadFile(o + ".hash"); err == nil {
			for ; len(b) >= 8; b = b[8:] {
				hashes[binary.LittleEndian.Uint64(b)] = true
			}
		}
		var x Stats
		if b, err := os.ReadFile(o + ".json"); err == nil && json.Unmarshal(b, &x) == nil {
			st.Runs += x.Runs
			st.SimTime += x.SimTime
			st.Steps += x.Steps
			st.Picks += x.Picks
			st.Switches += x.Switches
			st.Trivial += x.Trivial
			st.Txs += x.Txs
			if x.MaxRunq > st.MaxRunq {
				st.MaxRunq = x.MaxRunq
			}
			for _, m := range []struct{ to, from map[string]int }{{st.Faults, x.Faults}, {st.Probes, x.Probes}, {st.Other, x.Other}, {st.Known, x.Known}} {
				for k, n := range m.from {
					m.to[k] += n
				}
			}
		}
	}
	ph.Stats, ph.Distinct, ph.Wall = st, len(hashes), time.Since(t0)
	return ph, best, msg, herr
}

func brief(p *Plan) interface{} {
	b, _ := json.Marshal(p)
	if len(b) > 3000 {
		return map[string]interface{}{"index": p.Index, "attempts": p.Attempts, "start": p.Start, "sched": p.Sched, "planBytes": len(b)}
	}
	var v interface{}
	json.Unmarshal(b, &v)
	return v
}

func (s *sup) evidence(tier string, seed uint64, phases []phase, samples []interface{}, found bool, msg string, reproduced int, begin time.Time) {
	runs, distinct, trivial := 0, 0, 0
	var simT, wall time.Duration
	faults, probes, other, known := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	var steps, picks, sw uint64
	txs := 0
	var runq uint32
	per := []interface{}{}
	for _, ph := range phases {
		st := ph.Stats
		runs += st.Runs
		distinct += ph.Distinct
		trivial += st.Trivial
		simT += st.SimTime
		wall += ph.Wall
		steps += st.Steps
		picks += st.Picks
		sw += st.Switches
		txs += st.Txs
		if st.MaxRunq > runq {
			runq = st.MaxRunq
		}
		for _, m := range []struct{ to, from map[string]int }{{faults, st.Faults}, {probes, st.Probes}, {other, st.Other}, {known, st.Known}} {
			for k, n := range m.from {
				m.to[k] += n
			}
		}
		build := "plain"
		if ph.Race {
			build = "race detector"
		}
		per = append(per, map[string]interface{}{"build": build, "runs": st.Runs, "distinct_executions": ph.Distinct, "wall_s": ph.Wall.Seconds()})
	}
	nontrivial := distinct - trivial
	if nontrivial < 0 {
		nontrivial = 0
	}
	sup := "real: gobinlog root package and replication (built from /repo's working tree), the github.com/Breeze0806/mysql driver, Go's channels, select, context, sync, timers and encoding/json"
	cov := map[string]interface{}{
		"evaluations":         runs,
		"distinct_nontrivial": nontrivial,
		"rule": "every evaluation is one simulated execution of a plan drawn from (property, VERIF_SEED, run index); two executions are distinct when the hash over all scheduling decisions with their runnable sets and over everything the handler, the callers and the master observed differs; " +
			"an execution counts as trivial, and is subtracted, when the scheduler never switched between goroutines more than once",
		"samples":                      samples,
		"phases":                       per,
		"runs_per_hour":                int(float64(runs) / wall.Seconds() * 3600),
		"seeds_per_hour":               int(float64(runs) / wall.Seconds() * 3600),
		"simulated_seconds":            simT.Seconds(),
		"faults_injected":              faults,
		"probes":                       probes,
		"transactions_accepted":        txs,
		"preemption_points_passed":     steps,
		"scheduling_decisions":         picks,
		"goroutine_switches":           sw,
		"max_runnable":                 runq,
		"distinct_executions":          distinct,
		"components_real":              sup,
		"components_stubbed":           "simulated: MySQL master, net.Conn, dialer, clock and timers, goroutine scheduler decisions, table mapper, handler; stub: github.com/Breeze0806/go/log (logger interface)",
		"known_findings_reproduced":    reproduced,
		"known_findings_met_in_search": known,
		"other_properties_alarms":      other,
	}
	if found {
		cov["violation"] = msg
	}
	ev := map[string]interface{}{
		"property": s.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulated master encodes binlogs and speaks the protocol as a MySQL server does (written from the formats, not from the repository)",
			"memory is sequentially consistent between preemption points (data races are looked for separately with the race detector in C05)",
			"the search is a sample: executions not drawn are not covered",
		},
		"wall_s": time.Since(begin).Seconds(),
	}
	ev["violations"] = 0
	if found {
		ev["violations"] = 1
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	os.MkdirAll(filepath.Join(s.root, "evidence"), 0o755)
	die(os.WriteFile(filepath.Join(s.root, "evidence", s.prop+".json"), append(b, '\n'), 0o644))
}

// Replay file.
type Replay struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Seed     string   `json:"found"`
	Race     bool     `json:"race"`
	Exact    string   `json:"exact"`
	Hash     uint64   `json:"hash,omitempty"`
	Obs      uint64   `json:"obs,omitempty"`
	Plan     *Plan    `json:"plan"`
	Trace    []string `json:"trace,omitempty"`
}

func (s *sup) hit(v *verdict, key string) bool {
	if !v.ok {
		return v.key != "" && v.key == key
	}
	for _, x := range v.ran.Viol {
		if x.Key == key && has(x.Props, s.prop) {
			return true
		}
	}
	return false
}

// report confirms, minimises and writes the replay file.
func (s *sup) report(f *Found, msg string, minSecs float64) string {
	v, dec := s.one(f.Plan, 1, "", false)
	os.Remove(dec)
	if !s.hit(&v, f.Key) {
		// not the same in a fresh process: the simulation is not deterministic here
		fmt.Fprintf(os.Stderr, "simd: violation %q at index %d did not reproduce in a fresh process (got %q %q %v)\n%s\n", f.Key, f.Index, v.key, v.harness, v.ran.Viol, msg)
		if v.key == "" && len(v.ran.Viol) == 0 {
			return ""
		}
		if v.key != "" {
			f.Key = v.key
		} else {
			for _, x := range v.ran.Viol {
				if has(x.Props, s.prop) {
					f.Key = x.Key
				}
			}
		}
		if !s.hit(&v, f.Key) {
			return ""
		}
	}
	m := &minimiser{s: s, key: f.Key, best: f.Plan, until: time.Now().Add(time.Duration(minSecs * float64(time.Second)))}
	if f.Key != "real-time-hang" && f.Key != "memory" {
		m.run()
	}
	p := m.best
	v, dec = s.one(p, 1, "", true)
	os.Remove(dec)
	r := &Replay{Property: s.prop, Key: f.Key, Msg: msg, Race: s.race, Plan: p, Trace: v.ran.Trace, Hash: v.ran.Hash, Obs: v.ran.ObsHash}
	r.Seed = fmt.Sprintf("run index %d", f.Index)
	for _, x := range v.ran.Viol {
		if x.Key == f.Key {
			r.Msg = x.Msg
		}
	}
	if !v.ok {
		r.Msg = v.msg
	}
	v2, dec := s.one(p, 1, "", false)
	os.Remove(dec)
	r.Exact = "replayed in two more processes: same violation, same execution hash"
	if !s.hit(&v, f.Key) || !s.hit(&v2, f.Key) || v.ran.Hash != v2.ran.Hash || v.ran.ObsHash != v2.ran.ObsHash {
		r.Exact = "NOT exact: the minimised run differed between processes"
	}
	if len(r.Trace) > 400 {
		r.Trace = append(append(r.Trace[:200:200], "..."), r.Trace[len(r.Trace)-200:]...)
	}
	dir := filepath.Join(s.root, "replays")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", s.prop, f.Index))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ""
	}
	return file
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	die(err)
	var r Replay
	die(json.Unmarshal(b, &r))
	tmp, err := os.MkdirTemp("", "simd-replay-")
	die(err)
	s := &sup{root: *root, tmp: tmp, prop: r.Property, childLimit: 90 * time.Second}
	s.setRace(r.Race)
	v, dec := s.one(r.Plan, 1, "", true)
	os.Remove(dec)
	for _, t := range v.ran.Trace {
		fmt.Println(t)
	}
	hit := s.hit(&v, r.Key)
	if v.harness != "" {
		fmt.Println("harness error:", v.harness)
	}
	if !v.ok {
		fmt.Println(v.key, v.msg)
	}
	for _, x := range v.ran.Viol {
		fmt.Println(x.Key, x.Props, x.Msg)
	}
	fmt.Printf("hash %016x obs %016x (recorded %016x %016x)\n", v.ran.Hash, v.ran.ObsHash, r.Hash, r.Obs)
	os.RemoveAll(tmp)
	if hit {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		os.Exit(1)
	}
	fmt.Println("the recorded violation does not occur")
}

// cmdSelftest executes the same indices in differently arranged processes and
// compares every hash.
func cmdSelftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	root := fs.String("root", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 200, "")
	props := fs.String("props", "C01,C02,C03,C04,C05,C06,C07,C08,C13,C15,C17,C18,C19,C20", "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	tmp, err := os.MkdirTemp("", "simd-self-")
	die(err)
	s := &sup{root: *root, tmp: tmp}
	s.setRace(*race)
	bad := 0
	for _, prop := range strings.Split(*props, ",") {
		hashes := func(k, stride int) map[uint64]uint64 {
			m := map[uint64]uint64{}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for w := 0; w < stride; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					o := filepath.Join(tmp, fmt.Sprintf("%s-%d-%d", prop, k, w))
					_, errs, code, _ := run1(10*time.Minute, s.bin, "worker", "-prop", prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(stride), "-max", fmt.Sprint(*n/stride), "-secs", "600", "-out", o, "-all", fmt.Sprintf("-json=%v", k == 2))
					if code != 0 {
						fmt.Printf("%s worker exit %d %.500s\n", prop, code, errs)
					}
					b, _ := os.ReadFile(o + ".hash")
					mu.Lock()
					for i := 0; len(b) >= 8; i++ {
						m[uint64(w+i*stride)] = binary.LittleEndian.Uint64(b)
						b = b[8:]
					}
					mu.Unlock()
				}(w)
			}
			wg.Wait()
			return m
		}
		a, b := hashes(1, 1), hashes(2, 5)
		same, differ := 0, 0
		for i, h := range a {
			if g, ok := b[i]; ok {
				if g == h {
					same++
				} else {
					differ++
					if differ < 4 {
						fmt.Printf("%s index %d: %x and %x\n", prop, i, h, g)
					}
				}
			}
		}
		bad += differ
		fmt.Printf("%s: %d executions identical, %d differ\n", prop, same, differ)
	}
	os.RemoveAll(tmp)
	if bad > 0 {
		os.Exit(1)
	}
}
