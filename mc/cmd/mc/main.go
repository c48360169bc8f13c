// Command mc decides the properties of /verif/properties.jsonl by exhaustive,
// bounded exploration of the real flow engine against the reference model.
//
//	mc check  <property> <tier>     run a check (parent process)
//	mc worker <property> <tier> <conf> <shard> <shards> <out>
//	mc replay <file>                run the one unit a violation names
//	mc list
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

// Conf is one process configuration a check runs under.
type Conf struct {
	Name string
	Rig  rig.Config
	Env  map[string]string
	// Weight: share of shards (default: all)
	Shards int
}

type Check struct {
	ID      string
	Configs func(tier string) []Conf
	Run     func(w *W)
	Rule    string
	Bounds  func(tier string) string
	Assume  []string
	// Sched: needs the build with scheduling points at every statement.
	Sched bool
	// Core: the scenarios of the core are executed as well.
	Core bool
	// Diff: executions are compared with each other, which takes a controlled order.
	Diff bool
	// Post compares the results of different configurations.
	Post func(p *Parent)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Viol is one violation.
type Viol struct {
	Conf string          `json:"conf"`
	Unit int64           `json:"unit"`
	Key  string          `json:"key"`
	Msg  string          `json:"msg"`
	Scen json.RawMessage `json:"scenario,omitempty"`
}

// Result of one worker.
type Result struct {
	Conf     string            `json:"conf"`
	Units    int64             `json:"units"`
	Evals    int64             `json:"evals"`
	Valid    int64             `json:"valid"`
	Stats    ref.Stats         `json:"stats"`
	Counters map[string]int64  `json:"counters"`
	Samples  []any             `json:"samples"`
	Viols    []Viol            `json:"viols"`
	Known    map[string]int64  `json:"known"`
	Cut      bool              `json:"cut"`
	Err      string            `json:"err"`
	Hashes   []uint64          `json:"hashes"`
	Digest   map[string]string `json:"digest,omitempty"`
	Instr    bool              `json:"instr"`
}

// W is a worker's context.
type W struct {
	C        *Check
	Tier     string
	Conf     Conf
	Shard, N int64
	Target   int64
	unit     int64
	R        Result
	deadline time.Time
	hashes   map[uint64]struct{}
	stop     bool
	known    map[string]string
	began    atomic.Int64 // when the unit began
	last     time.Time
	longest  time.Duration
	verbose  bool
	unitFile *os.File
}

func (w *W) Quick() bool { return w.Tier != "thorough" }

// Next says whether the next unit is this worker's.  Units are numbered in a
// fixed order, simplest first.
func (w *W) Next() bool {
	w.unit++
	if w.stop {
		return false
	}
	if w.Target >= 0 {
		return w.unit-1 == w.Target
	}
	if (w.unit-1)%w.N != w.Shard {
		return false
	}
	now := time.Now()
	w.began.Store(now.UnixNano())
	if !w.last.IsZero() {
		w.longest = max(w.longest, now.Sub(w.last))
	}
	w.last = now
	if now.After(w.deadline) {
		w.R.Cut = true
		w.stop = true
		return false
	}
	w.R.Units++
	if w.unitFile != nil {
		w.unitFile.WriteAt([]byte(fmt.Sprintf("%019d", w.unit-1)), 0)
	}
	return true
}

// Skip jumps over n units at once.
func (w *W) Stopped() bool { return w.stop }

func (w *W) Late() bool {
	if time.Now().After(w.deadline) {
		w.R.Cut = true
		return true
	}
	return false
}

func (w *W) Count(k string, n int64) {
	if w.R.Counters == nil {
		w.R.Counters = map[string]int64{}
	}
	w.R.Counters[k] += n
}

// Distinct records a non-trivial case by its content.
func (w *W) Distinct(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	w.hashes[h.Sum64()] = struct{}{}
}

func (w *W) Sample(v any) {
	if len(w.R.Samples) < 2 {
		b, err := json.Marshal(v)
		if err == nil && len(b) < 6000 {
			w.R.Samples = append(w.R.Samples, json.RawMessage(b))
		}
	}
}

// Violate reports a violation of the check's property.
func (w *W) Violate(key, msg string, scen any) {
	if _, ok := w.known[key]; ok {
		if w.R.Known == nil {
			w.R.Known = map[string]int64{}
		}
		w.R.Known[key]++
		return
	}
	b, _ := json.Marshal(scen)
	w.R.Viols = append(w.R.Viols, Viol{Conf: w.Conf.Name, Unit: w.unit - 1, Key: key, Msg: msg, Scen: b})
	if w.verbose {
		fmt.Fprintf(os.Stderr, "VIOL unit=%d key=%s\n%s\n%s\n", w.unit-1, key, msg, b)
	}
	if (len(w.R.Viols) >= 3 || endless[key]) && !w.verbose {
		w.stop = true
	}
	if len(w.R.Viols) >= 40 {
		w.stop = true
	}
}

func (w *W) unitNo() int { return int(w.unit) }

// Order modes of the engine's unordered collections.
func setOrder(mode string) {
	switch mode {
	case "keep":
	case "rev":
		vsched.OrderFn = func(site string, n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			return p
		}
	case "rot":
		vsched.OrderFn = func(site string, n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + 1) % n
			}
			return p
		}
	default:
		vsched.OrderFn = nil
	}
}

// ---- known findings ---------------------------------------------------------

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return m
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(b, &f) == nil {
		for _, x := range f.Findings {
			if x.Property == id {
				m[x.Key] = x.What
			}
		}
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- worker -----------------------------------------------------------------

func newW(c *Check, tier string, conf Conf) *W {
	return &W{C: c, Tier: tier, Conf: conf, Target: -1, N: 1, hashes: map[uint64]struct{}{}, known: loadKnown(c.ID), deadline: time.Now().Add(24 * time.Hour)}
}

func (w *W) run() {
	defer func() {
		if p := recover(); p != nil {
			if st := string(debug.Stack()); engineFrame(st) {
				w.Violate("panic", fmt.Sprintf("the engine panicked: %v\n%s", p, st), nil)
				return
			}
			w.R.Err = fmt.Sprintf("harness panic at unit %d: %v\n%s", w.unit-1, p, stack())
		}
	}()
	w.R.Conf = w.Conf.Name
	for k, v := range w.Conf.Env {
		os.Setenv(k, v)
	}
	if err := rig.Setup(w.Conf.Rig); err != nil {
		w.R.Err = "set-up: " + err.Error()
		return
	}
	w.runConf()
	w.R.Instr = vsched.Built == "sched" || vsched.Built != "" && !w.C.Sched
}

// endless are the violations that leave something running: a worker stops at once.
var endless = map[string]bool{"no-completion": true, "runaway": true}

// watch ends a worker that is stuck in one unit: the engine runs on the
// harness's own goroutine in some checks.
func (w *W) watch(out string) {
	for {
		time.Sleep(time.Second)
		if b := w.began.Load(); b != 0 && time.Since(time.Unix(0, b)) > unitLimit {
			buf := make([]byte, 1<<20)
			fmt.Fprintln(os.Stderr, "\npanic: the unit does not stop")
			for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
				if h, _, _ := strings.Cut(g, "\n"); strings.Contains(h, "runn") || strings.HasPrefix(h, "goroutine 1 ") {
					fmt.Fprintln(os.Stderr, g+"\n")
				}
			}
			os.Exit(3)
		}
	}
}

// touch says that the worker is not stuck.
func (w *W) touch() {
	if b := w.began.Load(); b != 0 {
		w.began.Store(time.Now().UnixNano())
	}
}

const unitLimit = 75 * time.Second

// engineFrame says whether the code that panicked is the engine's.
func engineFrame(st string) bool {
	_, st, ok := strings.Cut(st, "\npanic(")
	if !ok {
		return false
	}
	for i, l := range strings.Split(st, "\n") {
		if i == 0 || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") {
			continue
		}
		return strings.HasPrefix(l, "github.com/project-flogo/")
	}
	return false
}

func worker(args []string) {
	c := checks[args[0]]
	tier := args[1]
	conf := findConf(c, tier, args[2])
	w := newW(c, tier, conf)
	w.Shard, _ = strconv.ParseInt(args[3], 10, 64)
	w.N, _ = strconv.ParseInt(args[4], 10, 64)
	if d, err := strconv.ParseFloat(os.Getenv("MC_DEADLINE_S"), 64); err == nil {
		w.deadline = time.Now().Add(time.Duration(d * float64(time.Second)))
	}
	w.verbose = os.Getenv("MC_VERBOSE") != ""
	w.unitFile, _ = os.Create(args[5] + ".unit")
	if !c.Sched {
		go w.watch(args[5])
	}
	if f := os.Getenv("MC_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	w.run()
	w.began.Store(0)
	if w.verbose {
		fmt.Fprintln(os.Stderr, "longest unit:", w.longest)
	}
	for h := range w.hashes {
		w.R.Hashes = append(w.R.Hashes, h)
	}
	f, err := os.Create(args[5])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriter(f)
	if err := json.NewEncoder(bw).Encode(&w.R); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw.Flush()
	f.Close()
}

func findConf(c *Check, tier, name string) Conf {
	for _, x := range c.confs(tier) {
		if x.Name == name {
			return x
		}
	}
	panic("no such configuration " + name)
}

func (c *Check) confs(tier string) []Conf {
	var cs []Conf
	if c.Configs == nil {
		cs = []Conf{{Name: "plain"}}
	} else {
		cs = c.Configs(tier)
	}
	if c.Core {
		cs = append(cs, Conf{Name: "core"})
	}
	return cs
}

// core is the spaces of the short checks: every check of what flows execute
// judges them as well.
var core = []string{"C04", "C02", "C07", "C08", "C13", "C11"}

func (w *W) runConf() {
	if w.Conf.Name != "core" || !w.C.Core {
		w.C.Run(w)
		return
	}
	w.Tier = "quick"
	for _, id := range core {
		if id != w.C.ID {
			checks[id].Run(w)
		}
	}
}

// ---- parent -----------------------------------------------------------------

type Parent struct {
	C     *Check
	Tier  string
	Res   []*Result
	Viols []Viol
	mu    sync.Mutex
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func parent(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	start := time.Now()
	budget := 240
	if tier == "thorough" {
		budget = 720
	}
	budget = envInt("MC_BUDGET_S", budget)
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	if c.Sched {
		self += "s"
	}
	type job struct {
		conf  Conf
		shard int
		n     int
	}
	var jobs []job
	procs := envInt("MC_PROCS", 8)
	for _, conf := range c.confs(tier) {
		n := conf.Shards
		if n == 0 {
			n = procs
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, job{conf, s, n})
		}
	}
	p := &Parent{C: c, Tier: tier}
	// the time a worker may use: everything fits into the budget
	rounds := (len(jobs) + procs - 1) / procs
	ch := make(chan job)
	var wg sync.WaitGroup
	var fails []string
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				left := float64(budget) - time.Since(start).Seconds()
				done := 0
				p.mu.Lock()
				done = len(p.Res)
				over := time.Since(start) > time.Duration(2*budget)*time.Second && left < 0
				for _, r := range p.Res {
					over = over || len(r.Viols) > 0 && left < float64(budget)/2
				}
				if over {
					p.Res = append(p.Res, &Result{Conf: j.conf.Name, Cut: true})
				}
				p.mu.Unlock()
				if over {
					continue
				}
				r := rounds - done/procs
				if r < 1 {
					r = 1
				}
				dl := left / float64(r)
				if dl < 5 {
					dl = 5
				}
				res, msg := runWorker(self, c, tier, j.conf, j.shard, j.n, dl, tmp)
				p.mu.Lock()
				if msg != "" {
					fails = append(fails, msg)
				}
				if res != nil {
					p.Res = append(p.Res, res)
				}
				p.mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return p.finish(start, fails)
}

// runWorker runs one shard; a worker that dies or hangs is run once more.
func runWorker(self string, c *Check, tier string, conf Conf, shard, n int, dl float64, tmp string) (*Result, string) {
	var last string
	lastUnit := int64(-1)
	for try := 0; try < 2; try++ {
		out := filepath.Join(tmp, fmt.Sprintf("%s-%d-%d.json", conf.Name, shard, try))
		cmd := exec.Command(self, "worker", c.ID, tier, conf.Name, strconv.Itoa(shard), strconv.Itoa(n), out)
		cmd.Env = append(os.Environ(), "MC_DEADLINE_S="+strconv.FormatFloat(dl, 'f', 1, 64), "GOMAXPROCS=2")
		if _, ok := conf.Env["FLOGO_MAX_STEP_COUNT"]; !ok {
			cmd.Env = append(cmd.Env, "FLOGO_MAX_STEP_COUNT=2000")
		}
		for k, v := range conf.Env {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
		ef, _ := os.Create(out + ".err")
		cmd.Stderr = ef
		if err := cmd.Start(); err != nil {
			return nil, err.Error()
		}
		doneC := make(chan error, 1)
		go func() { doneC <- cmd.Wait() }()
		var err error
		select {
		case err = <-doneC:
		case <-time.After(time.Duration(dl*float64(time.Second)) + 90*time.Second):
			cmd.Process.Kill()
			err = fmt.Errorf("worker does not stop")
			<-doneC
		}
		ef.Close()
		b, rerr := os.ReadFile(out)
		if err == nil && rerr == nil {
			r := &Result{}
			if e := json.Unmarshal(b, r); e == nil {
				return r, ""
			} else {
				err = e
			}
		}
		eb, _ := os.ReadFile(out + ".err")
		if len(eb) > 9000 { // what it died of comes last
			k := strings.LastIndex(string(eb), "\npanic: ")
			if f := strings.LastIndex(string(eb), "\nfatal error: "); f > k {
				k = f
			}
			if k < 0 {
				k = len(eb) - 9000
			}
			eb = eb[k:]
			if len(eb) > 9000 {
				eb = eb[:9000]
			}
		}
		last = fmt.Sprintf("worker %s/%d: %v\n%s", conf.Name, shard, err, eb)
		// a process that dies twice of the same unit in the engine's code is an answer
		ub, _ := os.ReadFile(out + ".unit")
		unit, uerr := strconv.ParseInt(string(ub), 10, 64)
		text := string(eb)
		if uerr == nil && unit == lastUnit && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "does not stop")) {
			msg := "the process running the flow died: " + last
			if strings.Contains(text, "github.com/project-flogo/") {
				return &Result{Conf: conf.Name, Units: unit, Instr: true, Viols: []Viol{{Conf: conf.Name, Unit: unit, Key: "crash", Msg: msg}}}, ""
			}
		}
		lastUnit = unit
	}
	return nil, last
}

func (p *Parent) finish(start time.Time, fails []string) int {
	c := p.C
	sort.Slice(p.Res, func(i, j int) bool { return p.Res[i].Conf < p.Res[j].Conf })
	var tot Result
	tot.Counters = map[string]int64{}
	tot.Known = map[string]int64{}
	hashes := map[uint64]struct{}{}
	instr := true
	if c.Post != nil {
		c.Post(p)
	}
	for _, r := range p.Res {
		tot.Units += r.Units
		tot.Evals += r.Evals
		tot.Valid += r.Valid
		tot.Stats.Add(r.Stats)
		for k, v := range r.Counters {
			tot.Counters[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		p.Viols = append(p.Viols, r.Viols...)
		tot.Cut = tot.Cut || r.Cut
		if r.Err != "" {
			fails = append(fails, r.Conf+": "+r.Err)
		}
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		instr = instr && (r.Instr || r.Units == 0)
	}
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	if !instr && (c.Diff || c.Sched) && len(p.Viols) > 0 {
		// executions cannot be compared when the order of things is left to chance
		fails = append(fails, "without instrumentation: "+p.Viols[0].Msg)
		p.Viols = nil
	}
	sort.Slice(p.Viols, func(i, j int) bool { return p.Viols[i].Unit < p.Viols[j].Unit })
	known := loadKnown(c.ID)
	var keys []string
	for k := range tot.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, known[k])
	}
	var nviol int
	seen := map[string]bool{}
	rd := filepath.Join(verifDir(), "replays")
	for _, v := range p.Viols {
		nviol++
		sk := v.Key
		if seen[sk] || len(seen) >= 4 {
			continue
		}
		seen[sk] = true
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", c.ID, v.Conf, v.Unit))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": p.Tier, "conf": v.Conf, "unit": v.Unit, "key": v.Key, "message": v.Msg, "scenario": v.Scen}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  %s: %s\n", v.Key, firstLines(v.Msg, 12))
	}
	if tot.Evals == 0 && nviol == 0 {
		fails = append(fails, "nothing was executed")
	}
	seed := envInt("VERIF_SEED", 1)
	cov := map[string]any{
		"states": tot.Stats.States, "transitions": tot.Stats.Trans,
		"traces_validated_against_impl":   tot.Valid,
		"evaluations":                     tot.Evals,
		"distinct_nontrivial":             len(hashes),
		"rule":                            c.Rule,
		"samples":                         tot.Samples,
		"exhaustive":                      !tot.Cut && len(fails) == 0 && nviol == 0,
		"units":                           tot.Units,
		"observations_checked":            tot.Stats.Obs,
		"order_of_collections_controlled": instr,
	}
	if tot.Samples == nil {
		cov["samples"] = []any{}
	}
	if c.Bounds != nil {
		cov["bounds"] = c.Bounds(p.Tier)
	}
	if tot.Stats.Cut > 0 {
		cov["validations_given_up"] = tot.Stats.Cut
		cov["exhaustive"] = false
	}
	for k, v := range tot.Counters {
		cov["count_"+k] = v
	}
	ev := map[string]any{
		"property": c.ID, "tier": p.Tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d units, %d executions, %d traces validated, %d distinct, %d states, %d transitions, cut=%v given up=%d, violations=%d, %.1fs\n",
		c.ID, p.Tier, tot.Units, tot.Evals, tot.Valid, len(hashes), tot.Stats.States, tot.Stats.Trans, tot.Cut, tot.Stats.Cut, nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if len(fails) > 0 {
		if len(fails) > 2 {
			fails = fails[:2]
		}
		for _, f := range fails {
			fmt.Fprintln(os.Stderr, "ERROR:", f)
		}
		return 2
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Property, Tier, Conf string
		Unit                 int64
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	if c == nil || v.Unit < 0 {
		fmt.Fprintln(os.Stderr, "nothing to replay")
		return 2
	}
	if self, _ := os.Executable(); c.Sched && !strings.HasSuffix(self, "s") {
		cmd := exec.Command(self+"s", "replay", file)
		cmd.Env = os.Environ()
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			return 1
		}
		return 0
	}
	w := newW(c, v.Tier, findConf(c, v.Tier, v.Conf))
	w.Target = v.Unit
	w.verbose = true
	w.run()
	if w.R.Err != "" {
		fmt.Fprintln(os.Stderr, w.R.Err)
		return 2
	}
	if len(w.R.Viols) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	fmt.Println("the unit runs clean")
	return 0
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(2)
	}
}

var _ = spec.Dep
