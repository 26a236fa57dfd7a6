// simd is the simulation driver: it runs plans (run), many generated plans
// (worker), whole checks (check), replays and the determinism self test.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/simrt"
)

var tracing bool
var simUTC = time.UTC

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simd worker|run|gen|check|replay|selftest ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		cmdWorker(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "gen":
		cmdGen(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "selftest":
		cmdSelftest(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// quiet turns off everything in the process that is not the simulation.
func quiet() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	if !raceBuild {
		lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

var memAt = 0

// bigRun: the last run used much memory.
var bigRun bool

func collect() {
	var m runtime.MemStats
	memAt++
	if memAt%8 == 0 || bigRun {
		bigRun = false
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 192<<20 {
			runtime.GC()
		}
	}
}

// Stats of a worker.
type Stats struct {
	Runs     int               `json:"runs"`
	Viol     int               `json:"viol"`
	SimTime  time.Duration     `json:"simTime"`
	Wall     time.Duration     `json:"wall"`
	Steps    uint64            `json:"steps"`
	Picks    uint64            `json:"picks"`
	Switches uint64            `json:"switches"`
	Trivial  int               `json:"trivial"`
	Faults   map[string]int    `json:"faults"`
	Probes   map[string]int    `json:"probes"`
	Other    map[string]int    `json:"other"`
	OtherAt  map[string]uint64 `json:"otherAt"`
	Known    map[string]int    `json:"known"`
	MaxRunq  uint32            `json:"maxRunq"`
	Txs      int               `json:"txs"`
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Int("max", 0, "")
	deep := fs.Bool("deep", false, "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	viaJSON := fs.Bool("json", false, "send the plans through JSON and trace")
	all := fs.Bool("all", false, "go on after violations")
	fs.Parse(args)
	quiet()
	suppressed := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		suppressed[k] = true
	}
	idx, err := os.OpenFile(*out+".idx", os.O_CREATE|os.O_RDWR, 0o644)
	die(err)
	hf, err := os.Create(*out + ".hash")
	die(err)
	hw := bufio.NewWriter(hf)
	st := Stats{Faults: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}, OtherAt: map[string]uint64{}, Known: map[string]int{}}
	begin := time.Now()
	lastFlush := begin
	flush := func() {
		hw.Flush()
		st.Wall = time.Since(begin)
		b, _ := json.Marshal(&st)
		os.WriteFile(*out+".json.tmp", b, 0o644)
		os.Rename(*out+".json.tmp", *out+".json")
	}
	var buf [8]byte
	for i := *from; ; i += *stride {
		if *max > 0 && st.Runs >= *max || time.Since(begin).Seconds() > *secs {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], i)
		idx.WriteAt(buf[:], 0)
		p := genPlan(*prop, *seed, i, *deep, raceBuild)
		if *viaJSON {
			tracing = true
			b, err := json.Marshal(p)
			die(err)
			p = &Plan{}
			die(json.Unmarshal(b, p))
		}
		o := execute(p)
		collect()
		st.Runs++
		st.SimTime += o.SimTime
		st.Steps += o.Res.Steps
		st.Picks += o.Res.Picks
		st.Switches += o.Res.Switches
		st.Txs += o.Txs
		if o.Res.MaxRunq > st.MaxRunq {
			st.MaxRunq = o.Res.MaxRunq
		}
		if o.Res.Switches < 2 {
			st.Trivial++
		}
		for k, n := range o.Faults {
			st.Faults[k] += n
		}
		for k, n := range o.Probes {
			st.Probes[k] += n
		}
		binary.LittleEndian.PutUint64(buf[:], o.Hash^(o.ObsHash*31))
		hw.Write(buf[:])
		if o.Harness != "" {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR index %d: %s\n", i, o.Harness)
			flush()
			os.Exit(98)
		}
		stop := false
		for _, v := range o.Viol {
			switch {
			case !has(v.Props, *prop):
				st.Other[v.Key+" "+strings.Join(v.Props, "+")]++
				st.OtherAt[v.Key+" "+strings.Join(v.Props, "+")] = i
			case suppressed[v.Key]:
				st.Known[v.Key]++
			default:
				st.Viol++
				if *all {
					fmt.Printf("%d %s %v %s\n", i, v.Key, v.Props, v.Msg)
				} else {
					stop = true
					b, _ := json.Marshal(&Found{Index: i, Plan: p, Key: v.Key, Msg: v.Msg})
					os.WriteFile(*out+".viol", b, 0o644)
				}
			}
			if stop {
				break
			}
		}
		if stop {
			flush()
			os.Exit(10)
		}
		if time.Since(lastFlush) > time.Second {
			lastFlush = time.Now()
			flush()
		}
	}
	if os.Getenv("SIMD_G") != "" {
		fmt.Println("goroutines", runtime.NumGoroutine())
		pprof.Lookup("goroutine").WriteTo(os.Stdout, 1)
	}
	flush()
}

// Found is a violation a worker stopped at.
type Found struct {
	Index uint64 `json:"index"`
	Plan  *Plan  `json:"plan"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simd:", err)
		os.Exit(2)
	}
}

// Ran is what "run" prints.
type Ran struct {
	Viol    []Violation   `json:"viol"`
	Hash    uint64        `json:"hash"`
	ObsHash uint64        `json:"obs"`
	Steps   uint64        `json:"steps"`
	SimTime time.Duration `json:"simTime"`
	Try     int           `json:"try"`
	Sched   simrt.Sched   `json:"sched"`
	Trunc   bool          `json:"trunc"`
	NPick   int           `json:"npick"`
	NPre    int           `json:"npre"`
	Harness string        `json:"harness,omitempty"`
	Trace   []string      `json:"trace,omitempty"`
}

// mapBuffers puts the decision logs into a file, so that they survive a crash.
func mapBuffers(file string) {
	const n = 1 << 18
	f, err := os.Create(file)
	die(err)
	die(f.Truncate(n * 12))
	m, err := syscall.Mmap(int(f.Fd()), 0, n*12, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	die(err)
	simrt.SetBuffers(unsafe.Slice((*uint32)(unsafe.Pointer(&m[n*8])), n), unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), n))
}

func readDecisions(file string) (picks []uint32, pres []uint64) {
	const n = 1 << 18
	b, err := os.ReadFile(file)
	if err != nil || len(b) != n*12 {
		return nil, nil
	}
	for i := 0; i < n; i++ {
		v := binary.LittleEndian.Uint64(b[i*8:])
		if v == 0 {
			break
		}
		pres = append(pres, v)
	}
	last := 0
	for i := 0; i < n; i++ {
		if binary.LittleEndian.Uint32(b[n*8+i*4:]) != 0 {
			last = i + 1
		}
	}
	for i := 0; i < last; i++ {
		picks = append(picks, binary.LittleEndian.Uint32(b[n*8+i*4:]))
	}
	return
}

func loadPlan(file string) *Plan {
	b, err := os.ReadFile(file)
	die(err)
	var w struct {
		Plan *Plan `json:"plan"`
	}
	if json.Unmarshal(b, &w) == nil && w.Plan != nil {
		return w.Plan
	}
	var p Plan
	die(json.Unmarshal(b, &p))
	return &p
}

// cmdRun executes one plan, possibly under several schedules.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	plan := fs.String("plan", "", "")
	trace := fs.Bool("trace", false, "")
	tries := fs.Int("tries", 1, "")
	key := fs.String("key", "", "stop at this violation")
	dec := fs.String("dec", "", "decision log")
	fs.Parse(args)
	p := loadPlan(*plan)
	if *dec != "" {
		mapBuffers(*dec)
	}
	quiet()
	tracing = *trace
	var ran Ran
	orig := p.Sched
	for i := 0; i < *tries; i++ {
		p.Sched = trySched(orig, i)
		if *dec != "" {
			simrt.ClearBuffers()
			b, _ := json.Marshal(p.Sched)
			os.WriteFile(*dec+".sched", b, 0o644)
		}
		o := execute(p)
		ran = Ran{Viol: o.Viol, Hash: o.Hash, ObsHash: o.ObsHash, Steps: o.Res.Steps, SimTime: o.SimTime, Try: i, Sched: p.Sched, Trunc: o.Res.Trunc,
			NPick: len(o.Res.PickLog), NPre: len(o.Res.PreLog), Harness: o.Harness, Trace: o.Trace}
		hit := false
		for _, v := range o.Viol {
			hit = hit || *key == "" || v.Key == *key
		}
		if hit || o.Harness != "" {
			break
		}
		if i%16 == 15 {
			runtime.GC()
		}
	}
	b, err := json.Marshal(&ran)
	die(err)
	os.Stdout.Write(append(b, '\n'))
}

// trySched is the i-th schedule tried for a plan.
func trySched(s simrt.Sched, i int) simrt.Sched {
	if i == 0 || s.Explicit {
		return s
	}
	n := simrt.Sched{Seed: s.Seed + uint64(i)*0x9e3779b97f4a7c15, Strategy: s.Strategy, GapMean: s.GapMean, Horizon: s.Horizon}
	switch i % 4 {
	case 2:
		n.GapMean = []uint32{0, 3, 10, 30, 100, 400}[i/4%6]
	case 3:
		n.Strategy = uint32(i / 4 % 4)
	}
	return n
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	index := fs.Uint64("index", 0, "")
	deep := fs.Bool("deep", false, "")
	fs.Parse(args)
	b, err := json.MarshalIndent(genPlan(*prop, *seed, *index, *deep, raceBuild), "", " ")
	die(err)
	os.Stdout.Write(append(b, '\n'))
}
