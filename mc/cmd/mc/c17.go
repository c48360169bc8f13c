package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	sm := map[string]string{smEnv: "http://127.0.0.1:1"}
	register(&Check{
		ID:   "C17",
		Diff: true,
		Configs: func(tier string) []Conf {
			return []Conf{
				{Name: "plain", Rig: rig.Config{Events: true}},
				{Name: "recording", Rig: rig.Config{Mode: "full"}, Env: sm},
				{Name: "logging", Env: map[string]string{"FLOGO_LOG_CTX": "true"}},
			}
		},
		Assume: append([]string{
			"the state is saved between steps, as the engine serialises it",
			"a task in the middle of its own loop or retries starts over (nothing else is defined), so flows are not restarted from there",
			"numbers may come back as floating point numbers"}, commonAssume...),
		Rule: "flow structures and small graphs with links of all kinds x error handlers x every set of up to k faults, sets and replies x every step boundary of the run: the state is saved there, loaded again (the loaded state must show the same), and the flow restarted from it through the flow action; what it executes, with which data, and its outcome must equal the rest of the uninterrupted run; with recording on, the recorded steps must continue the numbering and add up to the actual state; distinct by trace and restart point",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2, with handlers {one task, chain} 1; all step boundaries"
			}
			return "k=2; handlers {none, one task, chain, error link, two starts}; all step boundaries; sorted and reversed collection order"
		},
		Run: run17,
	})
}

func structs17() []structure {
	sts := append([]structure(nil), structs19()...)
	sts = append(sts,
		structure{"wide", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("A", "C", D), L("A", "E", D), L("B", "J", D), L("C", "J", D), L("E", "J", D)), T("A"), T("B"), T("C"), T("E"), T("J"))}
		}},
		structure{"decisions", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(LX("A", "B", spec.Lit(false)), L("A", "C", O), LX("B", "F", spec.Lit(true)), L("B", "G", O), L("C", "J", D), L("F", "J", D), L("G", "J", D)), T("A"), T("B"), T("C"), T("F"), T("G"), T("J"))}
		}},
		structure{"three starts", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "D", D), L("B", "D", D), L("C", "F", D)), T("A"), T("B"), T("C"), T("D"), T("F"))}
		}},
		structure{"data", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("A", "C", D), L("B", "J", D), L("C", "J", D)),
				T("A"), T("B", In("a", spec.Act("A", "out"))), T("C", In("a", spec.Act("A", "out"))), T("J", In("a", spec.Act("B", "out")), In("b", spec.Act("C", "out"))))}
		}},
		structure{"subs in branches", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "S", D), L("A", "U", D), L("S", "J", D), L("U", "J", D)), T("A"), sub("S", "k"), sub("U", "k"), T("J")),
				fl("k", ls(L("P", "Q", D), L("P", "R", D)), T("P"), T("Q"), T("R"))}
		}})
	return sts
}

func run17(w *W) {
	k := 2
	hs := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}}
	orders := []string{""}
	if !w.Quick() {
		hs = [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}, {3, 0}, {4, 0}, {0, 4}}
		orders = []string{"", "rev"}
	}
	for _, st := range structs17() {
		for _, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			kinds := "epmlSfRsLc"
			n := k
			if w.Quick() && h[0]+h[1] > 0 {
				n = 1
			}
			each := func(s *spec.Scenario, key string) {
				if undefined17(key) {
					return
				}
				for _, o := range orders {
					if !w.stop {
						w.restarts(s, o, st.name+key)
					}
				}
			}
			w.withFaults(mk, kinds, n, each)
			w.withFaults(mk, "vVz", 1, each)
		}
	}
}

// tail is what a run does from its at-th observation on, without run-specific ids.
func tail17(obs []ref.Obs, at int) string {
	var c []ref.Obs
	for _, o := range obs[at:] {
		o.N = 0
		if o.In != nil {
			o.In, _ = norm(o.In).(map[string]any)
		}
		if o.Data != nil {
			o.Data, _ = norm(o.Data).(map[string]any)
		}
		c = append(c, o)
	}
	return normTrace(c)
}

// shape is a saved state with its unordered lists sorted.
func shape17(b []byte) string {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return err.Error()
	}
	var walk func(v any, key string) any
	walk = func(v any, key string) any {
		switch t := v.(type) {
		case map[string]any:
			for k, x := range t {
				if k != "attrs" {
					t[k] = walk(x, k)
				}
			}
		case []any:
			for i := range t {
				t[i] = walk(t[i], "")
			}
			if key == "tasks" || key == "links" || strings.EqualFold(key, "subflows") {
				sort.Slice(t, func(i, j int) bool { return js(t[i]) < js(t[j]) })
			}
		}
		return v
	}
	return js(walk(v, ""))
}

// midway says whether a looping or retrying task has begun and is not done.
func midway17(s *spec.Scenario, obs []ref.Obs, act *rstate) bool {
	begun := map[string]bool{}
	for _, o := range obs {
		if o.Kind == "eval" {
			begun[o.Flow+"/"+o.Task] = true
		}
	}
	for _, fn := range s.FlowNames() {
		for _, t := range s.Flows[fn].All {
			if t.Loop == nil && t.Retry == nil {
				continue
			}
			if t.Sub != "" { // its own progress cannot be seen here
				return len(act.Flows) > 0 && hasTask17(act, t.ID)
			}
			if begun[fn+"/"+t.ID] && hasTask17(act, t.ID) {
				return true
			}
		}
	}
	return false
}

func hasTask17(act *rstate, id string) bool {
	for _, v := range act.Flows {
		if _, ok := v.Tasks[id]; ok {
			return true
		}
	}
	return false
}

func (w *W) restarts(s *spec.Scenario, order, key string) {
	if _, err := rig.Build(s); err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	act, _ := rig.NewAction("res://flow:" + s.Main)
	rec := rig.Rec != nil
	setOrder(order)
	defer setOrder("")
	var steps []*state.Step
	if rec {
		rig.Rec.Hook = func(it *rig.RecItem) {
			if it.Kind == "step" {
				steps = append(steps, it.Step)
			}
		}
		defer func() { rig.Rec.Hook = nil }()
	}
	st, err := rig.NewStepped(s, rig.Options{})
	if err != nil {
		w.Violate("start", err.Error(), s)
		return
	}
	type point struct {
		saved []byte
		evs   int
		obs   int
		steps int
		skip  bool
	}
	var pts []point
	var evs []string
	_ = st.Inst.RecordState(time.Now())
	for n := 0; n < 100; n++ {
		b, err := json.Marshal(st.Inst)
		if err != nil {
			w.Violate("save", "the state cannot be saved: "+err.Error()+"\n"+traceText(st.Run), s)
			return
		}
		a, _ := actual(st)
		evs = append(evs, finals17(rig.DrainEvents(), st.Inst.ID())...)
		pts = append(pts, point{b, len(evs), st.Evals(), len(steps), midway17(s, st.Obs(), a)})
		more := st.Step()
		_ = st.Inst.RecordState(time.Now())
		if !more {
			break
		}
	}
	whole := st.Obs()
	evs = append(evs, finals17(rig.DrainEvents(), st.Inst.ID())...)
	for i, p := range pts {
		for _, id := range []int{0, i + 1} {
			if w.stop {
				return
			}
			if rec && id > 0 {
				id = p.steps
			}
			if id == 0 && rec {
				continue // numbering starts again
			}
			w.R.Evals++
			inst := &instance.IndependentInstance{}
			if err := load17(p.saved, inst); err != nil {
				w.Violate("load", fmt.Sprintf("the state saved after step %d cannot be loaded: %v\n%s", i, err, p.saved), s)
				return
			}
			if p.skip {
				w.R.Valid++
				w.Count("in_loop", 1)
				continue
			}
			var (
				got   []*state.Step
				shown *rstate
				k, m  string
				kinds []string
				rerun = i%2 == 0
			)
			if rec {
				shown = &rstate{Flows: map[int]*view{}}
				for _, x := range steps[:p.steps] {
					shown.apply(x)
				}
				rig.Rec.Hook = func(it *rig.RecItem) {
					if k != "" {
						return
					}
					kinds = append(kinds, it.Kind)
					if fs := it.FS; fs != nil {
						if fs.FlowInstanceId != "preserved" || it.Kind == "start" && fs.OriginalInstanceId != st.Inst.ID() || fs.FlowName != s.Flows[s.Main].Name {
							k, m = "record-ids", fmt.Sprintf("after a restart at step %d the record of the %s names the run %q, the original run %q and the flow %q", i, it.Kind, fs.FlowInstanceId, fs.OriginalInstanceId, fs.FlowName)
						}
						if it.Kind == "start" && len(kinds) > 1 || it.Kind == "done" && it.FS.FlowStats != status17(whole) {
							k, m = "record-"+it.Kind, fmt.Sprintf("after a restart at step %d the %s is recorded after %d other records with the status %s", i, it.Kind, len(kinds)-1, fs.FlowStats)
						}
						return
					}
					if it.Kind != "step" {
						return
					}
					if it.Step.Rerun != rerun {
						k, m = "step-rerun", fmt.Sprintf("after a restart (rerun %v) at step %d the recorded step %d says rerun %v", rerun, i, it.Step.Id, it.Step.Rerun)
						return
					}
					got = append(got, it.Step)
					shown.apply(it.Step)
					if it.Step.Id != p.steps+len(got)-1 || it.Step.FlowId != "preserved" {
						k, m = "step-number", fmt.Sprintf("after a restart at step %d the recorded step number %d carries the number %d and names %s", i, len(got), it.Step.Id, it.Step.FlowId)
						return
					}
					a, err := actual(&rig.Stepped{Inst: inst})
					if err != nil {
						k, m = "save", err.Error()
						return
					}
					if dk, dm := shown.differs(a, true); dk != "" {
						k, m = "step-"+dk, fmt.Sprintf("after a restart at step %d the recorded steps add up to the wrong state: %s\nstep: %s", i, dm, js(it.Step))
					}
				}
			}
			before := shape17(p.saved)
			again := ""
			var r *rig.Run
			func() {
				defer func() {
					if e := recover(); e != nil {
						k, m = "panic", fmt.Sprintf("restarting from the state saved after step %d panics: %v", i, e)
					}
				}()
				ro := &instance.RunOptions{Op: instance.OpRestart, InitialState: inst, InitStepId: id, PreservedInstanceId: "preserved"}
				if rec {
					ro.Rerun, ro.OriginalInstanceId = rerun, st.Inst.ID()
				}
				o := rig.Options{Run: ro, Inputs: map[string]any{}}
				r = rig.ExecRestart(act, s, o, st.Run, p.obs)
			}()
			if k == "" {
				// the state itself: load it once more and see what it shows after being attached to its flow
				again, k, m = reload17(p.saved)
				if k == "" && again != before {
					k, m = "loaded", fmt.Sprintf("the state saved after step %d shows\n  %s\nbut loaded again\n  %s", i, before, again)
				}
			}
			if k == "" {
				k, m = protocol17(r)
			}
			if k == "" {
				want, have := tail17(whole, p.obs), tail17(r.Obs(), 0)
				want = strings.ReplaceAll(want, st.Inst.ID(), "<id>")
				have = strings.ReplaceAll(have, "preserved", "<id>")
				if want != have {
					k, m = "rest", fmt.Sprintf("restarted from the state saved after step %d (InitStepId %d) the flow does\n  %s\ninstead of\n  %s\nstate: %s", i, id, have, want, p.saved)
				}
			}
			if k == "" && rig.Evs != nil {
				want, have := js(evs[p.evs:]), js(finals17(r.Events, "preserved"))
				if want != have {
					k, m = "events", fmt.Sprintf("restarted from the state saved after step %d the flow posts the events\n  %s\ninstead of\n  %s", i, have, want)
				}
			}
			if k == "" && rec && len(got) != len(steps)-p.steps {
				k, m = "steps", fmt.Sprintf("restarted from the state saved after step %d the flow records %d steps instead of %d", i, len(got), len(steps)-p.steps)
			}
			if k == "" && rec {
				if n := len(kinds); n < 2 || kinds[0] != "start" || kinds[n-1] != "done" || strings.Count(strings.Join(kinds, " "), "done") != 1 {
					k, m = "records", fmt.Sprintf("restarted from the state saved after step %d the flow records %v", i, kinds)
				}
			}
			if k != "" {
				w.Violate(k, m+"\norder="+order+"\nuninterrupted run:\n"+traceText(st.Run), s)
				return
			}
			w.R.Valid++
			w.R.Stats.States++
			w.R.Stats.Trans += int64(len(pts) - i)
			w.Distinct(fmt.Sprint(key, order, i, id > 0, tail17(whole, p.obs)))
		}
	}
}

func load17(b []byte, inst *instance.IndependentInstance) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("PANIC %v", p)
		}
	}()
	return json.Unmarshal(b, inst)
}

// reload17 loads a saved state, attaches it to its flow and saves it.
func reload17(b []byte) (text, key, msg string) {
	defer func() {
		if p := recover(); p != nil {
			key, msg = "reload", fmt.Sprintf("a saved state cannot be loaded and saved again: %v\n%s", p, b)
		}
	}()
	inst := &instance.IndependentInstance{}
	if err := json.Unmarshal(b, inst); err != nil {
		return "", "reload", err.Error()
	}
	id := struct{ ID string }{}
	_ = json.Unmarshal(b, &id)
	if err := inst.Restart(rig.Logger(), id.ID, -1); err != nil {
		return "", "reload", err.Error()
	}
	c, err := json.Marshal(inst)
	if err != nil {
		return "", "reload", err.Error()
	}
	return shape17(c), "", ""
}

func protocol17(r *rig.Run) (string, string) {
	if r == nil {
		return "no-run", "no run"
	}
	return protocol(r)
}

// finals17 are the final events of flows and tasks.
func finals17(evs []rig.Event, id string) []string {
	var l []string
	for _, e := range evs {
		if e.Kind != "flow" && e.Kind != "task" {
			continue
		}
		switch strings.ToLower(e.Status) {
		case "completed", "failed", "cancelled", "skipped":
			l = append(l, fmt.Sprint(e.Kind, " ", e.Status, " ", strings.Replace(e.FlowID, id, "<id>", 1), " ", e.Flow, " ", e.PFlow, " ", strings.Replace(e.PFlowID, id, "<id>", 1), " ", e.Task, " ", e.TaskID, " ", e.HasErr, e.Err))
		}
	}
	return l
}

// undefined17: what a return is worth when the links of its task then fail is
// not defined.
func undefined17(key string) bool {
	fs := strings.Split(key, ",")
	for _, f := range fs {
		at, ok := strings.CutSuffix(f, ":return")
		if !ok {
			continue
		}
		for _, g := range fs {
			if strings.HasPrefix(g, at+">") && !strings.HasSuffix(g, "linkfalse") {
				return true
			}
		}
	}
	return false
}

// status17 is the status recorded at the end of a run.
func status17(obs []ref.Obs) string {
	for i := len(obs) - 1; i >= 0; i-- {
		if obs[i].Kind == "outcome" {
			if obs[i].HasEr {
				return "Failed"
			}
			break
		}
	}
	return "Completed"
}
