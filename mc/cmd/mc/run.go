package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

func stack() string {
	s := string(debug.Stack())
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

// X says how a scenario is run.
type X struct {
	Model   *ref.Model
	Orders  []string
	Explore bool // also enumerate the model's own state space
	Accept  func(r *rig.Run, fin []*ref.State) (key, msg string)
	// Judge replaces the comparison with the model.
	Judge   func(r *rig.Run) (key, msg string)
	Opts    rig.Options
	MkOpts  func() rig.Options
	Trivial bool // do not count as distinct non-trivial
	Key     string
	Name    string // key of a violation, for known findings
}

func traceText(r *rig.Run) string {
	var b strings.Builder
	for k := range r.Trace {
		fmt.Fprintf(&b, "  %d %s\n", k, r.Trace[k].String())
	}
	return b.String()
}

// normTrace is a trace without run-specific ids.
func normTrace(obs []ref.Obs) string {
	ids := map[string]int{}
	var b strings.Builder
	for k := range obs {
		o := &obs[k]
		if o.Kind == "eval" {
			n, ok := ids[o.Inst]
			if !ok {
				n = len(ids)
				ids[o.Inst] = n
			}
			fmt.Fprintf(&b, "%d:%s/%s#%d%s;", n, o.Flow, o.Task, o.N, spec.Canon(o.In))
		} else {
			fmt.Fprintf(&b, "%s %v %s %s;", o.Kind, o.HasEr, o.Err, spec.Canon(o.Data))
		}
	}
	s := b.String()
	for id, n := range ids {
		if len(id) > 8 {
			s = strings.ReplaceAll(s, id, fmt.Sprintf("<%d>", n))
		}
	}
	return s
}

// protocol checks the caller's view that every run must give (C04).
func protocol(r *rig.Run) (string, string) {
	if r.RunErr != nil {
		return "run-error", "Run returned an error: " + r.RunErr.Error()
	}
	if r.Runaway {
		return "runaway", fmt.Sprintf("the run does not end: it has evaluated %d activities", rig.EvalLimit)
	}
	if r.TimeOut {
		return "no-completion", "the run never signalled completion; observed:\n" + traceText(r)
	}
	nOut := 0
	for _, c := range r.Calls {
		if c.Done {
			return "outcome-after-done", "the result handler was called after completion was signalled"
		}
	}
	for _, o := range r.Obs() {
		if o.Kind == "outcome" {
			nOut++
		}
	}
	if nOut != 1 {
		return fmt.Sprintf("outcomes-%d", nOut), fmt.Sprintf("the run reported %d outcomes instead of one; observed:\n%s", nOut, traceText(r))
	}
	if r.Dones != 1 {
		return fmt.Sprintf("done-%d", r.Dones), fmt.Sprintf("completion was signalled %d times", r.Dones)
	}
	return "", ""
}

// otherScript lets activities do something else every now and then.
func (w *W) otherScript(s *spec.Scenario) *spec.Scenario {
	o := *s
	switch w.unit % 3 {
	case 1: // all goes well
		o.Script = nil
	case 2: // each flow fails in its last activity
		o.Script = map[string][]spec.Outcome{}
		for _, fn := range s.FlowNames() {
			if ts := s.Flows[fn].Tasks; len(ts) > 0 {
				o.Script[fn+"/"+ts[len(ts)-1].ID] = []spec.Outcome{failOutcome}
			}
		}
	}
	return &o
}

// others are inputs that differ in every value.
func others(s *spec.Scenario) map[string]any {
	in, out := map[string]any{}, map[string]any{}
	if f := s.Flows[s.Main]; f != nil {
		for _, p := range f.In {
			in[p.Name] = p.Def
		}
	}
	for k, v := range s.Inputs {
		in[k] = v
	}
	for k, v := range in {
		switch t := v.(type) {
		case int:
			out[k] = 1
			if t == 1 {
				out[k] = 2
			}
		case bool:
			out[k] = !t
		case string:
			out[k] = "1"
			if t == "1" {
				out[k] = "other"
			}
		case []any:
			out[k] = append([]any{"other"}, t...)
		case nil:
			out[k] = 3
		default:
			out[k] = map[string]any{"other": 1}
		}
	}
	return out
}

// Exec builds and runs a scenario and compares it with the model.
func (w *W) Exec(s *spec.Scenario, x X) bool {
	b, err := rig.Build(s)
	if err != nil {
		w.R.Evals++
		w.Violate("load", "the definition cannot be loaded: "+err.Error(), s)
		return false
	}
	return w.ExecB(b, s, x)
}

// ExecB is Exec for flows that are loaded already.
func (w *W) ExecB(b *rig.Built, s *spec.Scenario, x X) bool {
	m := x.Model
	if m == nil {
		m = ref.New(s)
	}
	if x.Explore {
		_, full, bad := m.Explore(&w.R.Stats, 200000)
		if bad != "" {
			panic("reference model: " + bad + "\n" + s.JSON())
		}
		if !full {
			w.Count("model_cut", 1)
		}
	}
	orders := x.Orders
	if orders == nil {
		orders = []string{"", "rev"}
	}
	if s.Env != nil {
		defer rig.SetEnv(s.Env)()
	}
	ok := true
	if x.Judge == nil && x.MkOpts == nil && !w.stop && rig.Rec == nil && rig.Evs == nil && rig.Trc == nil {
		// what an earlier run of the same flow was given leaves nothing behind
		o := x.Opts
		if o.Inputs = others(s); len(o.Inputs) > 0 {
			setOrder("")
			w.touch()
			w.R.Evals++
			if r := rig.Exec(b, w.otherScript(s), o); r.TimeOut {
				w.Violate("no-completion-others", "run with the inputs "+js(o.Inputs)+" it never signalled completion", s)
				return false
			}
		}
	}
	for _, om := range orders {
		if w.stop {
			return ok
		}
		one := func() (*rig.Run, string, string) {
			setOrder(om)
			o := x.Opts
			if x.MkOpts != nil {
				o = x.MkOpts()
			}
			w.touch()
			r := rig.Exec(b, s, o)
			if om != "keep" {
				setOrder("")
			}
			if x.Judge != nil {
				k, m := x.Judge(r)
				return r, k, m
			}
			k, msg := w.judge(m, r, x)
			return r, k, msg
		}
		r, key, msg := one()
		w.R.Evals++
		if key == "" {
			w.R.Valid++
			if !x.Trivial {
				w.Distinct(x.Key + om + normTrace(r.Trace))
			}
			if len(w.R.Samples) < 2 && w.R.Evals%37 == 5 {
				w.Sample(map[string]any{"scenario": s, "order": om, "trace": r.Obs()})
			}
			continue
		}
		// the same execution must fail again
		again := 0
		for k := 0; k < 4 && again < 2; k++ {
			if _, k2, _ := one(); k2 == key {
				again++
			}
		}
		if again < 2 {
			w.Count("unconfirmed", 1)
			continue
		}
		ok = false
		if x.Name != "" {
			key = x.Name
		}
		w.Violate(key, msg+"\norder="+om+"\nobserved:\n"+traceText(r), s)
		if w.verbose {
			break
		}
	}
	return ok
}

// judge compares a finished run with the model.
func (w *W) judge(m *ref.Model, r *rig.Run, x X) (string, string) {
	if k, msg := protocol(r); k != "" {
		return k, msg
	}
	fin, mm := m.Validate(r.Trace, &w.R.Stats)
	if mm != nil {
		return "trace", mm.Error()
	}
	if x.Accept != nil && fin != nil {
		return x.Accept(r, fin)
	}
	return "", ""
}

// ---- orders: deviation-bounded exploration of collection orders ------------

// Orders runs f under every way of walking the engine's unordered collections
// that deviates from sorted order at most `bound` times.
func (w *W) OrdersDFS(bound, limit int, f func() bool) int {
	type choice struct{ site, n, pick int }
	runs := 0
	perms := map[int][][]int{}
	perm := func(n int) [][]int {
		if p, ok := perms[n]; ok {
			return p
		}
		var out [][]int
		if n <= 3 {
			out = permutations(n)
		} else { // rotations and the reversal
			for k := 0; k < n; k++ {
				p := make([]int, n)
				for i := range p {
					p[i] = (i + k) % n
				}
				out = append(out, p)
			}
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			out = append(out, p)
		}
		perms[n] = out
		return out
	}
	var rec func(prefix []int, dev int)
	rec = func(prefix []int, dev int) {
		if w.stop || runs >= limit || w.Late() {
			return
		}
		var ns []int
		at := 0
		vsched.OrderFn = func(site string, n int) []int {
			k := 0
			if at < len(prefix) {
				k = prefix[at]
			}
			at++
			ns = append(ns, n)
			ps := perm(n)
			if k >= len(ps) {
				k = 0
			}
			return ps[k]
		}
		ok := f()
		vsched.OrderFn = nil
		runs++
		if !ok {
			return
		}
		if dev >= bound {
			return
		}
		mine := ns
		for i := len(prefix); i < len(mine); i++ {
			for alt := 1; alt < len(perm(mine[i])); alt++ {
				np := make([]int, i+1)
				copy(np, prefix)
				np[i] = alt
				rec(np, dev+1)
			}
		}
	}
	rec(nil, 0)
	if runs >= limit {
		w.Count("order_cut", 1)
	}
	return runs
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// ---- helpers for building scenarios ----------------------------------------

func T(id string, in ...spec.Map) *spec.Task { return &spec.Task{ID: id, In: in} }
func In(name string, x *spec.Expr) spec.Map  { return spec.Map{Name: name, X: x} }
func L(from, to, kind string) *spec.Link     { return &spec.Link{From: from, To: to, Kind: kind} }
func LX(from, to string, x *spec.Expr) *spec.Link {
	return &spec.Link{From: from, To: to, Kind: spec.XExpr, X: x}
}

func sub(id, flow string, in ...spec.Map) *spec.Task {
	return &spec.Task{ID: id, Sub: flow, In: in}
}

func one(fs ...*spec.FlowDef) *spec.Scenario {
	s := &spec.Scenario{Main: fs[0].Name, Flows: map[string]*spec.FlowDef{}, Script: map[string][]spec.Outcome{}, Inputs: map[string]any{}}
	for _, f := range fs {
		s.Flows[f.Name] = f
	}
	return s.Norm()
}

func names(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = string(rune('A' + i))
	}
	return out
}

var failOutcome = spec.Outcome{Kind: "err", Msg: "boom"}
var codedOutcome = spec.Outcome{Kind: "coded", Msg: "coded boom", Code: "E7", Data: map[string]any{"k": "v"}}
var panicOutcome = spec.Outcome{Kind: "panic", Msg: "panic boom"}

var _ = time.Now

func newModel(s *spec.Scenario) *ref.Model { return ref.New(s.Norm()) }
