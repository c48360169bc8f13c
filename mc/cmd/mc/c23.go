package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

const concEnv = "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION"

func init() {
	register(&Check{
		ID: "C23", Sched: true,
		Configs: func(tier string) []Conf {
			cs := []Conf{{Name: "concurrent", Shards: 24, Env: map[string]string{concEnv: "true"}},
				{Name: "recording", Rig: rig.Config{Mode: "full"}, Env: map[string]string{concEnv: "true", smEnv: "http://127.0.0.1:1"}},
				{Name: "traced", Rig: rig.Config{Trace: true}, Env: map[string]string{concEnv: "true"}},
				{Name: "watched", Rig: rig.Config{Events: true}, Env: map[string]string{concEnv: "true"}},
				{Name: "ondemand", Env: map[string]string{concEnv: "true"}},
				{Name: "limit", Env: map[string]string{concEnv: "true", stepEnv: "4"}}}
			return cs
		},
		Assume: append([]string{
			"an activity that has begun before its flow failed, or returned, runs to its end; what it does to its flow after that (return, reply, attributes) is left open",
			"the scheduler interleaves at every statement of the flow module (fine) or at activity evaluations, locks and goroutine starts (coarse)",
			"unordered accesses are noticed for maps, whose corruption ends the process, not for plain fields"}, commonAssume...),
		Rule: "concurrent mode on: flow structure x error handler x every single fault, and every small graph with failing tasks, executed under every schedule within the preemption bound; every execution must be one that the reference model allows when ready tasks run at once, ends with exactly one outcome, has no two goroutines access a map without order, and never deadlocks; independent tasks must overlap in some schedule; distinct by scenario and schedule",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "19 structures and data flows, handlers {none, 1 task}, one fault of 10 kinds: 1 preemption at activities and locks (structures of more than three branches: 1 delay); 1 delay at statements for the others and those without fault; graphs of 3 tasks {none,dep,F,error}; with full recording, tracer, listeners, from packages; step limit 4 around it"
			}
			return "19 structures and data flows, handlers {none, 1 task, chain}, one fault: 2 delays and 1 preemption at activities and locks; 1 delay at statements; graphs of 3 tasks with all failing sets; graphs of 4 tasks {none,dep}: 1 preemption; with full recording, tracer, listeners, from packages; step limit"
		},
		Run: run23,
	})
}

type mode23 struct {
	coarse bool
	bound  int
	delay  bool
}

// wide23: too much happens at once for all the orders in which goroutines go on.
func wide23(st structure) bool {
	return strings.HasPrefix(st.name, "parallel") || st.name == "documented iterator" || st.name == "nested"
}

func run23(w *W) {
	switch w.Conf.Name {
	case "limit":
		w.limits23()
		return
	case "recording", "traced", "watched", "ondemand":
		if w.Conf.Name == "ondemand" {
			if err := rig.SetupOnDemand(); err != nil {
				panic(err)
			}
		}
		for _, st := range structs10() {
			kinds := "eS"
			if w.Conf.Name != "recording" {
				kinds = "epmlR"
			}
			w.withFaults(st.scenario(1, 0), kinds, 1, func(s *spec.Scenario, key string) {
				w.conc(s, st.name+key, []mode23{{true, 1, wide23(st)}}, false)
			})
		}
		return
	}
	for _, st := range structs10() {
		for h := 0; h < 3; h++ {
			if h == 2 && w.Quick() {
				continue
			}
			st, h := st, h
			wide := wide23(st)
			for _, v := range []string{"first", "second"} {
				k := 1
				if w.Quick() && v == "second" {
					k = 0
				}
				w.withFaults(func() *spec.Scenario {
					s := st.scenario(h, 0)()
					s.Inputs = map[string]any{"x": mp{"k": v}, "n": 2, "b": true}
					if v == "second" {
						s.Inputs = map[string]any{"x": v, "n": 1, "b": false}
					}
					return s
				}, "ecprmliRySvV", k, func(s *spec.Scenario, key string) {
					ms := []mode23{{true, 1, wide}}
					if !wide || key == "" || !w.Quick() {
						ms = append(ms, mode23{false, 1, true})
					}
					if !w.Quick() {
						ms = append(ms, mode23{true, 2, true})
					}
					w.conc(s, fmt.Sprint(st.name, h, v, key), ms, key == "")
				})
			}
		}
	}
	w.graphs23(3, "-dfe", []int{0, 1}, allMasks, []mode23{{true, 1, false}})
	if !w.Quick() {
		w.graphs23(4, "-d", []int{0}, maxOneFail, []mode23{{true, 1, false}})
	}
}

func (w *W) graphs23(n int, alphabet string, handlers []int, fails func(int) []uint, ms []mode23) {
	for _, h := range handlers {
		graphs(n, func(i, j int) string { return alphabet }, func(code []byte) {
			if w.stop || !w.Next() {
				return
			}
			f, _ := graphFlow("g", n, code, false, h)
			for _, l := range f.Links {
				if l.Kind == spec.XExpr {
					l.X = spec.Lit(false)
				}
			}
			for _, fm := range fails(n) {
				s := one(f)
				for i, t := range names(n) {
					if fm&(1<<uint(i)) != 0 {
						fo := failOutcome
						fo.Msg += " " + t
						s.Script["g/"+t] = []spec.Outcome{fo}
					}
				}
				if len(f.Links) == 0 {
					w.conc1(s, fmt.Sprint(string(code), h, fm), []mode23{{true, 1, true}}, false)
					continue
				}
				w.conc1(s, fmt.Sprint(string(code), h, fm), ms, false)
				if w.stop {
					return
				}
			}
		})
	}
}

func (w *W) conc(s *spec.Scenario, key string, ms []mode23, overlap bool) {
	w.conc1(s, key, ms, overlap)
}

// conc1 runs a scenario under every schedule.
func (w *W) conc1(s *spec.Scenario, key string, ms []mode23, overlap bool) {
	b, err := rig.Build(s)
	if err != nil {
		w.R.Evals++
		w.Violate("load", "the definition cannot be loaded: "+err.Error(), s)
		return
	}
	var opts rig.Options
	if w.Conf.Name == "ondemand" {
		b.Act = rig.OnDemand()
		in, maps := mp{}, mp{}
		for k, v := range s.Inputs {
			in[k], maps[k] = v, "=$."+k
		}
		in["flowPackage"] = text24(rig.FlowMap(s.Flows[s.Main]), maps)
		opts.Inputs = in
	}
	m := ref.New(s)
	m.Conc = true
	most := 0
	good := map[string]bool{} // traces seen and found possible
	for _, md := range ms {
		cut := false
		n := w.Schedules(md.bound, 1<<20, func(sr *SchedRun) bool {
			sr.Coarse, sr.Delay = md.coarse, md.delay
			var r *rig.Run
			sr.Do(400000, func() {
				if rig.Trc != nil {
					rig.Trc.Reset()
				}
				r = rig.Start(b, s, opts)
				vsched.WaitUntil(func() bool { return r.RunErr != nil || r.Finished() })
				// activities left behind run to their end
				vsched.WaitUntil(func() bool { return vsched.Live() <= 1 })
			})
			w.R.Evals++
			k, msg := broken23(sr)
			if k == "" && opts.Inputs != nil {
				k, msg = first24(r, s.Flows[s.Main].Name)
			}
			if k == "" {
				k, msg = protocol(r)
			}
			if k == "" {
				c := w.R.Stats.Cut
				obs := r.Obs()
				t := normTrace(obs)
				for i := range obs {
					t += fmt.Sprint(" ", obs[i].Slept)
				}
				if !good[t] {
					if _, mm := m.Validate(obs, &w.R.Stats); mm != nil {
						k, msg = "trace", mm.Error()
					} else {
						good[t] = true
					}
				}
				cut = cut || w.R.Stats.Cut > c
			}
			if rig.Trc != nil && k == "" {
				r.Spans = rig.Trc.SpansNow()
				k, msg = traced23(r)
			}
			if evs := rig.DrainEvents(); len(evs) > 0 && k == "" {
				if k, msg = watched23(s, r, evs); k != "" {
					for _, e := range evs {
						msg += "\n  " + e.String()
					}
				}
			}
			if k != "" {
				d := map[string]any{"scenario": s, "schedule": sr.Trail(), "coarse": md.coarse}
				if r != nil {
					msg += "\n" + traceText(r)
				}
				w.Violate(k, msg, d)
				return false
			}
			if r.MaxEval > most {
				most = r.MaxEval
			}
			w.R.Valid++
			w.Distinct(fmt.Sprint(key, md.coarse, sr.Trail()))
			return true
		})
		if w.verbose {
			fmt.Println(key, md, n, cut)
		}
		if w.stop {
			return
		}
	}
	if overlap && m.Parallel() && most < 2 {
		w.Violate("serial", "tasks that are ready at once are never evaluated at once", s)
	}
}

// limits23 runs flows whose every task is executed, and endless ones, against the step limit.
func (w *W) limits23() {
	limit, _ := strconv.Atoi(os.Getenv(stepEnv))
	var all []structure
	for n := 1; n <= limit+2; n++ {
		n := n
		all = append(all, structure{fmt.Sprint("chain", n), func() []*spec.FlowDef {
			f := fl("m", nil)
			for i, t := range names(n) {
				f.Tasks = append(f.Tasks, T(t))
				if i > 0 {
					f.Links = append(f.Links, L(names(n)[i-1], t, D))
				}
			}
			return []*spec.FlowDef{f}
		}}, structure{fmt.Sprint("wide", n), func() []*spec.FlowDef {
			f := fl("m", nil)
			for _, t := range names(n) {
				f.Tasks = append(f.Tasks, T(t))
			}
			return []*spec.FlowDef{f}
		}})
		if n > 2 {
			all = append(all, structure{fmt.Sprint("fan", n), func() []*spec.FlowDef {
				f := fl("m", nil)
				for i, t := range names(n) {
					f.Tasks = append(f.Tasks, T(t))
					if i > 0 && i < n-1 {
						f.Links = append(f.Links, L("A", t, D), L(t, names(n)[n-1], D))
					}
				}
				return []*spec.FlowDef{f}
			}}, structure{fmt.Sprint("iterator", n), func() []*spec.FlowDef {
				return []*spec.FlowDef{fl("m", nil, iterT("I", n-2), T("A"))}
			}})
		}
	}
	all = append(all, structures14[:4]...)
	for _, st := range all {
		for h := 0; h < 2; h++ {
			if !w.Next() {
				continue
			}
			n := limit + 1
			if !strings.HasPrefix(st.name, "endless") {
				n = int(st.name[len(st.name)-1] - '0')
			}
			s := st.scenario(h, 0)()
			b, err := rig.Build(s)
			if err != nil {
				w.Violate("load", err.Error(), s)
				continue
			}
			m := ref.New(s)
			m.Conc = true
			bound, delay := 1, strings.HasPrefix(st.name, "wide") && n > 3 || strings.HasPrefix(st.name, "fan") && n > 5
			if !w.Quick() {
				bound = 2
				delay = true
			}
			n23 := w.Schedules(bound, 1<<20, func(sr *SchedRun) bool {
				sr.Coarse, sr.Delay = true, delay
				var r *rig.Run
				sr.Do(400000, func() {
					r = rig.Start(b, s, rig.Options{})
					vsched.WaitUntil(func() bool { return r.RunErr != nil || r.Finished() })
					vsched.WaitUntil(func() bool { return vsched.Live() <= 1 })
				})
				w.R.Evals++
				k, msg := broken23(sr)
				if k == "" {
					k, msg = protocol(r)
				}
				if k == "" && n <= limit {
					if _, mm := m.Validate(r.Obs(), &w.R.Stats); mm != nil {
						k, msg = "trace", mm.Error()
					}
				} else if k == "" {
					evals := 0
					for _, o := range r.Obs() {
						if o.Kind == "eval" {
							evals++
						}
						if o.Kind == "outcome" && (!o.HasEr || !strings.Contains(o.Err, stepEnv)) {
							k, msg = "limit-error", "a run of more steps than the limit reported "+o.String()
						}
					}
					if strings.HasPrefix(st.name, "chain") && evals != limit || evals > limit {
						k, msg = "steps", fmt.Sprintf("%d activities were executed with a limit of %d", evals, limit)
					}
				}
				if k != "" {
					if r != nil {
						msg += "\n" + traceText(r)
					}
					w.Violate(k, msg, map[string]any{"scenario": s, "schedule": sr.Trail()})
					return false
				}
				w.R.Valid++
				w.Distinct(fmt.Sprint(st.name, h, sr.Trail()))
				return true
			})
			if w.verbose {
				fmt.Println(st.name, h, n23)
			}
			if w.stop {
				return
			}
		}
	}
}

// broken23 is what no execution may do.
func broken23(sr *SchedRun) (string, string) {
	switch {
	case sr.Panic != nil:
		return "panic", fmt.Sprint(sr.Panic)
	case sr.Outcome != "":
		return "stuck", "the run never ends: " + sr.Outcome
	case len(sr.Races) > 0:
		return "race", "tasks at the same time can crash the process: " + sr.Races[0]
	}
	return "", ""
}

// traced23: every span is finished once, every attempt has its own.
func traced23(r *rig.Run) (string, string) {
	used := map[int]bool{}
	for i, o := range r.Obs() {
		if o.Kind != "eval" {
			continue
		}
		sp, ok := r.EvalSpan[i]
		switch {
		case !ok:
			return "no-span", fmt.Sprintf("%s has no span\n%s", o.String(), spanText(r))
		case !sp.Begin || !sp.End:
			return "span-finished", fmt.Sprintf("the span of %s is finished before it\n%s", o.String(), spanText(r))
		case used[sp.ID]:
			return "span-shared", fmt.Sprintf("the span of %s is that of another attempt\n%s", o.String(), spanText(r))
		}
		used[sp.ID] = true
	}
	for _, s := range r.Spans {
		if s.Fin != 1 {
			return fmt.Sprintf("finished-%d", min(s.Fin, 2)), fmt.Sprintf("span %d (%s) is finished %d times\n%s", s.ID, s.Op, s.Fin, spanText(r))
		}
	}
	return "", ""
}

// watched23: the run has one start and one end, a flow or task instance no second end, and what
// is executed has been announced.
func watched23(s *spec.Scenario, r *rig.Run, evs []rig.Event) (string, string) {
	begun, ended := map[string]bool{}, map[string]string{}
	id, outcome := "", ""
	obs := r.Obs()
	for _, o := range obs {
		if o.Kind == "outcome" {
			outcome = "Completed"
			if o.HasEr {
				outcome = "Failed"
			}
		}
	}
	loops := map[string]bool{}
	for _, fn := range s.FlowNames() {
		for _, t := range s.Flows[fn].All {
			loops[fn+"/"+t.ID] = t.Loop != nil || t.Retry != nil
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "begin":
			o := obs[e.N]
			if !begun[o.Inst+"/"+o.Task] {
				return "unannounced", o.String() + " begins before its task was announced"
			}
			continue
		case "end":
			continue
		}
		k := e.FlowID
		if e.Kind == "task" {
			k += "/" + e.Task
		} else if id == "" {
			id = e.FlowID // the first flow to be announced
		}
		switch e.Status {
		case evStarted:
			begun[k] = true
		case evCompleted, "Failed", "Cancelled", "Skipped":
			if ended[k] != "" && !(e.Kind == "task" && loops[e.Flow+"/"+e.Task]) {
				return "ended-twice", fmt.Sprintf("%s after it was %s", e.String(), ended[k])
			}
			ended[k] = e.Status
		}
	}
	if !begun[id] || ended[id] != outcome {
		return "flow-end", fmt.Sprintf("the run ends as %s but its flow %s was announced as %q", outcome, id, ended[id])
	}
	if outcome == evCompleted {
		for i, o := range obs {
			if o.Kind == "eval" && ended[o.Inst+"/"+o.Task] == "" && i < len(obs)-1 && completed23(s, obs) {
				return "task-end", o.String() + " has no final event"
			}
		}
	}
	return "", ""
}

// completed23: nothing was given up.
func completed23(s *spec.Scenario, obs []ref.Obs) bool {
	for _, o := range obs {
		if o.Kind == "eval" && strings.HasPrefix(o.Task, "H") {
			return false
		}
	}
	for _, l := range s.Script {
		for _, o := range l {
			if o.Kind == "ret" {
				return false
			}
		}
	}
	return true
}
