package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

func init() {
	register(&Check{
		ID: "C26", Sched: true,
		Configs: func(tier string) []Conf {
			return []Conf{{Name: "plain"}, {Name: "limit", Env: map[string]string{"FLOGO_MAX_STEP_COUNT": "12"}},
				{Name: "recording", Rig: rig.Config{Mode: "full"}, Env: map[string]string{smEnv: "http://127.0.0.1:1"}}}
		},
		Assume: append([]string{
			"the engine's direct runner (core module) is replaced by one that waits under the controlled scheduler: it goes on when completion is signalled",
			"activities do not modify in place the objects that they are handed"}, commonAssume...),
		Rule: "every pair of a parent and a detached child (subflow task alone, in a chain, on a fork, in a loop, inside a subflow, in an error handler, twice; child that ends, fails, returns, replies, panics, recovers, calls, detaches or never stops), with the parent going on, failing, returning; the child held until the parent has ended, the parent held until the child has ended, and all schedules within the preemption bound; the parent's observations must be a run of the reference model, each detached run must do what the child does when run on its own with the mapped inputs and the same event id, under an instance id of its own; distinct by pair and schedule",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "2 preemptions at activities, locks and goroutine starts; 1 at statements for the smallest pairs"
			}
			return "3 preemptions at activities, locks and goroutine starts; 1 at statements"
		},
		Run: run26,
	})
}

type parent26 struct {
	name string
	mk   func(k string) []*spec.FlowDef
	many bool
}

func detached(id, flow string, in ...spec.Map) *spec.Task {
	t := sub(id, flow, in...)
	t.Detach = true
	return t
}

func parents26() []parent26 {
	x := spec.Flow("x")
	d := func(id, k string) *spec.Task { return detached(id, k, In("x", spec.Obj("from", spec.Lit(id), "v", x))) }
	a := func(id string) *spec.Task { return T(id, In("in", x)) }
	return []parent26{
		{"alone", func(k string) []*spec.FlowDef { return []*spec.FlowDef{fl("m", nil, d("S", k))} }, false},
		{"chain", func(k string) []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "S", D), L("S", "B", D)), a("A"), d("S", k), a("B"))}
		}, false},
		{"data", func(k string) []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "S", D), L("S", "B", D)), a("A"), detached("S", k, In("x", spec.Act("A", "out"))), T("B", In("in", spec.Act("A", "out"))))}
		}, false},
		{"fork", func(k string) []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("A", "S", D), L("A", "B", D), L("S", "J", D), L("B", "J", D)), a("A"), d("S", k), a("B"), a("J"))}
		}, false},
		{"error link", func(k string) []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("S", "B", D), L("S", "C", E)), d("S", k), a("B"), a("C"))}
		}, false},
		{"loop", func(k string) []*spec.FlowDef {
			s := detached("S", k, In("x", spec.Iter("index")))
			s.Kind, s.Loop = "iterator", &spec.Loop{Over: spec.Lit(2)}
			return []*spec.FlowDef{fl("m", ls(L("S", "B", D)), s, a("B"))}
		}, true},
		{"subflow", func(k string) []*spec.FlowDef {
			e := fl("e", ls(L("P", "S", D), L("S", "Q", D)), a("P"), d("S", k), a("Q"))
			e.In = []spec.Param{{Name: "x", Type: "any"}}
			return []*spec.FlowDef{fl("m", ls(L("E", "B", D)), sub("E", "e", In("x", x)), a("B")), e}
		}, false},
		{"handler", func(k string) []*spec.FlowDef {
			m := fl("m", ls(L("A", "B", D)), a("A"), a("B"))
			m.Handler = &spec.Body{Tasks: []*spec.Task{d("S", k), a("H")}, Links: ls(L("S", "H", D))}
			return []*spec.FlowDef{m}
		}, false},
		{"twice", func(k string) []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("S", "U", D), L("U", "B", D)), d("S", k), d("U", k), a("B"))}
		}, true},
	}
}

func children26() []structure {
	x := spec.Flow("x")
	in := []spec.Param{{Name: "x", Type: "any"}}
	a := func(id string) *spec.Task { return T(id, In("in", x)) }
	k := func(f *spec.FlowDef) *spec.FlowDef {
		f.In = in
		if f.Name == "k" {
			f.Out = []spec.Param{{Name: "r", Type: "any"}}
		}
		return f
	}
	return []structure{
		{"one", func() []*spec.FlowDef { return []*spec.FlowDef{k(fl("k", nil, a("P")))} }},
		{"chain", func() []*spec.FlowDef { return []*spec.FlowDef{k(fl("k", ls(L("P", "Q", D)), a("P"), a("Q")))} }},
		{"calls", func() []*spec.FlowDef {
			return []*spec.FlowDef{k(fl("k", ls(L("P", "C", D), L("C", "Q", D)), a("P"), sub("C", "q", In("x", x)), a("Q"))), k(fl("q", nil, a("Y")))}
		}},
		{"detaches", func() []*spec.FlowDef {
			return []*spec.FlowDef{k(fl("k", ls(L("P", "C", D), L("C", "Q", D)), a("P"), detached("C", "q", In("x", x)), a("Q"))), k(fl("q", nil, a("Y")))}
		}},
		{"endless", func() []*spec.FlowDef {
			p := a("P")
			p.Kind, p.Loop = "doWhile", &spec.Loop{While: spec.Lit(true)}
			return []*spec.FlowDef{k(fl("k", nil, p))}
		}},
	}
}

func run26(w *W) {
	rig.WatchEvents = true
	limit := w.Conf.Name == "limit"
	for _, ch := range children26() {
		if (ch.name == "endless") != limit {
			continue
		}
		for _, hk := range []int{0, 2} {
			for _, pa := range parents26() {
				for _, hm := range []int{0, 1} {
					if pa.name == "handler" && hm != 0 {
						continue
					}
					fs := append(pa.mk("k"), ch.mk()...)
					for _, f := range fs {
						switch {
						case f.Name == "m" && f.Handler == nil:
							f.Handler = handlerOf(hm, "H")
						case f.Name == "k":
							f.Handler = handlerOf(hk, "K")
						}
					}
					if pa.many && (ch.name == "detaches" || ch.name == "calls") {
						continue
					}
					s := one(fs...)
					s.Inputs = map[string]any{"x": mp{"d": []any{"one", 2}}}
					s = s.Norm()
					for _, c := range cases26(s, ch.name, pa.name, w.Quick()) {
						for _, hold := range []string{"", "child", "parent"} {
							if hold == "parent" && pa.name == "alone" {
								continue
							}
							w.detach(s, c, hold, ch.name, pa.name)
						}
					}
				}
			}
		}
	}
	// a flow that cannot be found fails the task
	if !limit {
		for h := 0; h < 2; h++ {
			s := one(fl("m", ls(L("S", "B", D), L("S", "C", E)), detached("S", "k"), T("B"), T("C")), fl("k", nil, T("P")))
			s.Flows["m"].Tasks[0].BadSub = true
			if h > 0 {
				s.Flows["m"].Links = s.Flows["m"].Links[:1]
				s.Flows["m"].Handler = handlerOf(1, "H")
			}
			w.detach(s.Norm(), nil, "", "missing", "error link")
		}
	}
}

// cases26 are the scripted behaviours.
func cases26(s *spec.Scenario, child, parent string, quick bool) []map[string][]spec.Outcome {
	e := codedOutcome
	e.Data = mp{"who": "x"}
	ret := spec.Outcome{Kind: "ret", Ret: map[string]any{"r": "returned"}}
	rep := spec.Outcome{Kind: "reply", Ret: map[string]any{"r": "replied"}}
	pan := spec.Outcome{Kind: "panic", Msg: "scripted panic"}
	kids := []map[string][]spec.Outcome{{}, {"k/P": {e}}, {"k/P": {ret}}}
	if child == "one" || child == "chain" {
		kids = append(kids, map[string][]spec.Outcome{"k/P": {pan}}, map[string][]spec.Outcome{"k/P": {rep}})
	}
	if child == "endless" {
		kids = kids[:1]
	}
	var out []map[string][]spec.Outcome
	for i, c := range kids {
		for j, p := range []string{"", "m/B:err", "m/B:ret", "m/A:err", "e/Q:err"} {
			if p != "" {
				at := strings.Split(p, ":")[0]
				f := s.Flows[at[:1]]
				if f == nil || !has26(f, at[2:]) {
					continue
				}
			}
			if (p == "") == (parent == "handler" && j == 0) {
				continue // the handler must have something to handle
			}
			if quick && i > 2 && j > 1 {
				continue
			}
			sc := map[string][]spec.Outcome{}
			for k, v := range c {
				sc[k] = v
			}
			if p != "" {
				o := e
				o.Msg += " at parent"
				if strings.HasSuffix(p, ":ret") {
					o = spec.Outcome{Kind: "ret", Ret: map[string]any{"x": "early"}}
				}
				sc[strings.Split(p, ":")[0]] = []spec.Outcome{o}
			}
			out = append(out, sc)
		}
	}
	return out
}

func has26(f *spec.FlowDef, id string) bool {
	for _, t := range f.All {
		if t.ID == id {
			return true
		}
	}
	return false
}

const ev26 = "event-7"

// kid26 is what a flow does on its own.
type kid26 struct {
	evals, steps string
	det          []ref.Detached
}

func (w *W) detach(s0 *spec.Scenario, script map[string][]spec.Outcome, hold, child, parent string) {
	if !w.Next() || w.stop {
		return
	}
	s := *s0
	if script != nil {
		s.Script = script
	}
	setOrder("")
	b, err := rig.Build(&s)
	desc := map[string]any{"scenario": &s, "hold": hold}
	if err != nil {
		w.Violate("load", err.Error(), desc)
		return
	}
	var recs map[string]string
	var ends map[string][2]int
	record := func() {
		recs, ends = map[string]string{}, map[string][2]int{}
		if rig.Rec != nil {
			rig.Rec.Hook = func(it *rig.RecItem) {
				switch it.Kind {
				case "step":
					recs[it.Step.FlowId] += stepText10(it) + "\n"
				case "start", "done":
					e := ends[it.FS.FlowInstanceId]
					if it.Kind == "start" {
						e[0]++
					} else {
						e[1]++
					}
					ends[it.FS.FlowInstanceId] = e
				}
			}
		}
	}
	if rig.Rec != nil {
		defer func() { rig.Rec.Hook = nil }()
	}
	alone := map[string]*kid26{}
	var kid func(d ref.Detached) *kid26
	kid = func(d ref.Detached) *kid26 {
		js, _ := json.Marshal(d.In)
		key := d.Flow + string(js)
		if k, ok := alone[key]; ok {
			return k
		}
		c := s
		c.Main, c.Inputs = d.Flow, d.In
		a, err := rig.NewAction("res://flow:" + d.Flow)
		if err != nil {
			w.Violate("load", err.Error(), desc)
			return nil
		}
		k := &kid26{}
		record()
		// a run of its own, under the scheduler because it may detach others
		var r *rig.Run
		sr := &SchedRun{Coarse: true}
		rig.Collect(&c)
		sr.Do(400000, func() {
			r = rig.Start(a, &c, rig.Options{Rid: "alone", EventID: ev26})
			vsched.WaitUntil(func() bool { return r.Finished() && vsched.Live() <= 1 })
		})
		rig.Forget("alone")
		obs := r.Obs()
		if w.Conf.Name == "limit" {
			// one evaluation per step, then the limit
			n := len(obs) - 1
			if n < 0 || !strings.Contains(obs[n].Err, "max step count [12]") || n != 12 {
				w.Violate("alone: limit", "a flow that never ends is not stopped after 12 steps\n"+traceText(r), desc)
				return nil
			}
			k.evals = evals26(obs)
			alone[key] = k
			return k
		}
		fin, mm := newModel(&c).Validate(obs, &w.R.Stats)
		switch {
		case sr.Panic != nil:
			w.Violate("alone", fmt.Sprint(sr.Panic), desc)
			return nil
		case sr.Outcome != "":
			w.Violate("alone", "the child alone never ends: "+sr.Outcome, desc)
			return nil
		case mm != nil:
			w.Violate("alone: trace", mm.Error(), desc)
			return nil
		}
		if len(fin) > 0 {
			k.det = fin[0].Det
		}
		k.evals = evals26(r.Obs())
		for id, t := range recs {
			if id == root26(r.Obs()) {
				k.steps = strings.ReplaceAll(strings.ReplaceAll(t, id, "<id>"), `"_rid":"alone",`, "")
			}
		}
		alone[key] = k
		return k
	}
	steps := ""
	first := true
	modes := []mode26{{true, 2}}
	if w.Quick() && (hold != "" || s.Flows["m"].Handler != nil) {
		modes[0].bound = 1
	}
	small := child == "one" && (parent == "alone" || parent == "chain")
	if !w.Quick() && rig.Rec == nil {
		modes[0].bound = 3
	}
	if rig.Rec == nil && (small || !w.Quick()) && child != "endless" {
		modes = append(modes, mode26{false, 1})
	}
	for _, md := range modes {
		md := md
		w.Schedules(md.bound, 1<<20, func(sr *SchedRun) bool {
			sr.Coarse = md.coarse
			record()
			var direct []*vsched.DirectRun
			vsched.Direct = &direct
			defer func() { vsched.Direct = nil }()
			col := rig.Collect(&s)
			var r *rig.Run
			ended := func() bool { return r != nil && (r.Finished() || r.RunErr != nil) }
			if hold == "child" {
				col.OnEval = func(*rig.Run, *ref.Obs) { vsched.WaitUntil(ended) }
			}
			op := rig.Options{Rid: "parent", EventID: ev26}
			if hold == "parent" {
				op.OnEval = func(_ *rig.Run, o *ref.Obs) {
					vsched.WaitUntil(func() bool { return vsched.Live() <= 2 })
				}
			}
			sr.Do(400000, func() {
				r = rig.Start(b, &s, op)
				vsched.WaitUntil(func() bool { return ended() && vsched.Live() <= 1 })
			})
			rig.Forget("parent")
			w.R.Evals++
			recs, ends := recs, ends
			key, msg := w.judge26(&s, sr, r, col, direct, kid, recs, ends)
			if key == "" && rig.Rec != nil {
				id := root26(r.Obs())
				t := strings.ReplaceAll(recs[id], id, "<id>")
				if first && id != "" {
					steps, first = t, false
				}
				if id != "" && t != steps {
					key, msg = "steps", "the parent's recorded steps depend on the detached run:\n"+t+"\nelse\n"+steps
				}
			}
			if key != "" {
				d := map[string]any{"scenario": &s, "hold": hold, "schedule": sr.Trail()}
				t := ""
				if r != nil {
					t = "parent:\n" + traceText(r)
				}
				w.Violate(key, msg+"\n"+t+"detached:\n"+traceText(col), d)
				return false
			}
			w.R.Valid++
			w.Distinct(fmt.Sprint(child, parent, hold, js(s.Script), s.Flows["m"].Handler != nil, s.Flows["k"].Handler != nil, sr.Trail()))
			return true
		})
	}
}

type mode26 struct {
	coarse bool
	bound  int
}

func (w *W) judge26(s *spec.Scenario, sr *SchedRun, r, col *rig.Run, direct []*vsched.DirectRun, kid func(ref.Detached) *kid26, recs map[string]string, ends map[string][2]int) (string, string) {
	switch {
	case sr.Panic != nil:
		return "panic", fmt.Sprint(sr.Panic)
	case sr.Outcome == "stalled":
		return "", ""
	case sr.Outcome != "":
		return "stuck", "the runs never end: " + sr.Outcome
	case len(sr.Races) > 0:
		return "race", "a detached run can crash the process: " + sr.Races[0]
	}
	if k, m := protocol(r); k != "" {
		return k, m
	}
	fin, mm := newModel(s).Validate(r.Trace, &w.R.Stats)
	if mm != nil {
		return "trace", "parent: " + mm.Error()
	}
	// the detached runs by instance
	runs := map[string][]ref.Obs{}
	events := map[string]string{}
	var ids []string
	for i, o := range col.Obs() {
		if o.Kind != "eval" {
			return "foreign", "an outcome was reported to a run that reported already"
		}
		id := o.Inst
		if k := strings.Index(id, "-"); k >= 0 {
			id = id[:k]
		}
		if runs[id] == nil {
			ids = append(ids, id)
		}
		runs[id] = append(runs[id], o)
		events[id] += col.EvID[i] + ";"
		if col.EvID[i] != ev26 {
			return "event", fmt.Sprintf("a detached run of the event %s sees the event id %q", ev26, col.EvID[i])
		}
	}
	if p := root26(r.Obs()); p != "" && runs[p] != nil {
		return "ids", "a detached run has the instance id of its parent, " + p
	}
	why := ""
	for _, st := range fin {
		k, m := match26(st.Det, kid, ids, runs, direct, recs, ends)
		if k == "" {
			return "", ""
		}
		why = k + ": " + m
	}
	return "detached", why
}

// match26 says whether the detached runs are those that must have been started.
func match26(det []ref.Detached, kid func(ref.Detached) *kid26, ids []string, runs map[string][]ref.Obs, direct []*vsched.DirectRun, recs map[string]string, ends map[string][2]int) (string, string) {
	var want []*kid26
	for i := 0; i < len(det); i++ {
		k := kid(det[i])
		if k == nil {
			return "alone", "the child alone fails"
		}
		det = append(det[:len(det):len(det)], k.det...)
		want = append(want, k)
	}
	if (len(direct) > 0 || len(det) == 0) && len(direct) != len(det) {
		return "count", fmt.Sprintf("%d detached runs were started instead of %d", len(direct), len(det))
	}
	used := make([]bool, len(want))
	for _, id := range ids {
		ev := evals26(runs[id])
		ok := false
		for i, k := range want {
			if !used[i] && k.evals == ev {
				if rig.Rec != nil && k.steps != "" {
					if t := strings.ReplaceAll(recs[id], id, "<id>"); t != k.steps {
						return "steps", "a detached run records\n" + t + "\non its own it records\n" + k.steps
					}
					if e := ends[id]; e != [2]int{1, 1} {
						return "ends", fmt.Sprintf("a detached run recorded %d starts and %d ends", e[0], e[1])
					}
				}
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			l := ""
			for i, k := range want {
				if !used[i] {
					l += "\n  " + k.evals
				}
			}
			return "run", "the detached run does\n  " + ev + "\ninstead of one of" + l
		}
	}
	for i, k := range want {
		if !used[i] && k.evals != "" {
			return "missing", "a detached run is missing, which does\n  " + k.evals
		}
	}
	return "", ""
}

// evals26 describes the evaluations.
func evals26(obs []ref.Obs) string {
	var ev []ref.Obs
	for _, o := range obs {
		if o.Kind == "eval" {
			ev = append(ev, o)
		}
	}
	return normTrace(ev)
}

func root26(obs []ref.Obs) string {
	for _, o := range obs {
		if o.Kind == "eval" {
			if k := strings.Index(o.Inst, "-"); k >= 0 {
				return o.Inst[:k]
			}
			return o.Inst
		}
	}
	return ""
}
