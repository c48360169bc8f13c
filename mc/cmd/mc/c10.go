package main

import (
	"fmt"
	"strings"

	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

func init() {
	register(&Check{
		ID: "C10", Sched: true,
		Configs: func(tier string) []Conf {
			return []Conf{{Name: "plain"}, {Name: "recording", Rig: rig.Config{Mode: "full"}, Env: map[string]string{smEnv: "http://127.0.0.1:1"}}}
		},
		Assume: append([]string{
			"activities do not modify in place the objects that they are handed",
			"the scheduler interleaves at every statement of the flow module (fine) or at activity evaluations, locks and goroutine starts (coarse)"}, commonAssume...),
		Rule: "pairs (triples) of runs, of one flow or of two flows that share a subflow, with different inputs, different decisions and different scripted behaviour of the activities, executed at the same time under every schedule within the preemption bound; each run must do exactly what it does alone (which is compared with the reference model), under its own instance id, and no two goroutines may access one map without order; distinct by pair and schedule",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "two runs: 1 preemption at statements, 2 at activities and locks"
			}
			return "two runs: 1 preemption at statements (2 for the small flows), 3 at activities and locks; three runs: 2 at activities and locks"
		},
		Run: run10,
	})
}

// structs10 are flows whose course depends on their inputs x, n and b.
func structs10() []structure {
	x, n, b := spec.Flow("x"), spec.Flow("n"), spec.Flow("b")
	var sts []structure
	for _, st := range structures {
		st := st
		sts = append(sts, structure{st.name, func() []*spec.FlowDef {
			fs := st.mk()
			for i, f := range fs {
				for _, t := range f.Tasks {
					if t.Sub == "" {
						t.In = append(t.In, In("in", x))
					} else {
						t.In = append(t.In, In("x", spec.Obj("to", spec.Lit(t.ID), "v", x)), In("n", n), In("b", b))
					}
					if t.Kind == "iterator" {
						if t.Loop.Form == 0 {
							t.Loop.OverV, t.Loop.Over = nil, n
						}
						if t.Sub == "" {
							t.In = append(t.In, In("i", spec.Iter("index")))
						}
					}
					if t.Kind == "doWhile" {
						t.Loop.While = spec.Lt(spec.Iter("index"), n)
						t.Loop.Accum = t.Sub == ""
					}
				}
				for _, l := range f.Links {
					if l.Kind == spec.XExpr {
						if l.X.Text() == spec.Lit(false).Text() {
							l.X = spec.Eq(b, spec.Lit(false))
						} else {
							l.X = b
						}
					}
				}
				if i > 0 {
					f.In = []spec.Param{{Name: "x", Type: "any"}, {Name: "n", Type: "any"}, {Name: "b", Type: "any"}}
				} else {
					f.Out = []spec.Param{{Name: "r", Type: "any"}, {Name: "x", Type: "any"}}
				}
			}
			return fs
		}})
	}
	sts = append(sts, structure{"data", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D), LX("B", "C", spec.Eq(spec.Act("A", "out"), x)), L("B", "G", O), L("G", "J", D), L("C", "J", D)),
			T("A", In("in", x)), T("B", In("a", spec.Act("A", "out")), In("b", spec.Obj("p", spec.Act("A", "out"), "q", spec.Obj("r", x)))),
			T("C", In("in", x)), T("G", In("in", spec.Act("B", "out"))), T("J", In("a", spec.Act("B", "out")), In("b", x)))}
	}})
	return sts
}

type variant10 struct {
	name   string
	inputs map[string]any
	script map[string][]spec.Outcome
	main   string
}

func (v variant10) of(s *spec.Scenario) *spec.Scenario {
	c := *s
	c.Inputs, c.Script = v.inputs, v.script
	if v.main != "" {
		c.Main = v.main
	}
	return &c
}

func variants10(s *spec.Scenario) []variant10 {
	in := func(x any, n int, b bool) map[string]any { return map[string]any{"x": x, "n": n, "b": b} }
	none := map[string][]spec.Outcome{}
	vs := []variant10{
		{"first", in("first", 2, true), none, ""},
		{"second", in(mp{"k": []any{"second", 2}}, 1, false), none, ""},
	}
	for _, fn := range s.FlowNames() {
		for i, t := range s.Flows[fn].All {
			if t.Sub != "" {
				continue
			}
			at := fn + "/" + t.ID
			e := codedOutcome
			e.Data = mp{"who": t.ID}
			e.Msg += " at " + t.ID
			vs = append(vs, variant10{at + " fails", in("third", 1, true), map[string][]spec.Outcome{at: {e}}, ""})
			if i == 0 {
				vs = append(vs, variant10{at + " returns", in("fourth", 2, false), map[string][]spec.Outcome{at: {{Kind: "ret", Ret: map[string]any{"r": "returned early"}}}}, ""})
			}
			if t.Retry != nil {
				vs = append(vs, variant10{at + " retried", in("fifth", 1, true), map[string][]spec.Outcome{at: {{Kind: "retri", Msg: "again", Code: "R"}, {Kind: "ok"}}}, ""})
			}
		}
	}
	return vs
}

func run10(w *W) {
	for _, st := range structs10() {
		hs := [][2]int{{0, 0}, {2, 0}}
		if len(st.mk()) > 1 {
			hs = [][2]int{{0, 0}, {2, 1}}
		}
		for _, h := range hs {
			s := st.scenario(h[0], h[1])().Norm()
			vs := variants10(s)
			for i := range vs {
				for j := i; j < len(vs); j++ {
					if j > 1 && i > 1 && (w.Quick() || h[0] == 0) {
						continue // the failing variants meet the plain ones
					}
					w.together(s, st.name, []variant10{vs[i], vs[j]})
					if !w.Quick() && i == 0 && j == 1 {
						w.together(s, st.name, []variant10{vs[0], vs[1], vs[len(vs)-1]})
					}
				}
			}
		}
	}
	// two flows with a common subflow and tasks of the same names
	for _, h := range [][2]int{{0, 0}, {2, 1}} {
		x := spec.Flow("x")
		k := fl("k", ls(L("P", "Q", D)), T("P", In("in", x)), T("Q", In("in", spec.Act("P", "out"))))
		k.In = []spec.Param{{Name: "x", Type: "any"}}
		k.Handler = handlerOf(h[1], "K")
		m := fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A", In("in", x)), sub("S", "k", In("x", spec.Act("A", "out"))), T("B", In("in", x)))
		m.Handler = handlerOf(h[0], "H")
		o := fl("o", ls(L("S", "A", D)), sub("S", "k", In("x", x)), T("A", In("in", x)))
		s := one(m, o, k)
		vs := variants10(s)
		for _, v := range vs {
			v.main = ""
			other := v
			other.main = "o"
			if strings.HasPrefix(other.name, "m/") {
				continue
			}
			w.together(s, "two flows", []variant10{vs[0], other})
			w.together(s, "two flows", []variant10{v, {name: "other", inputs: vs[1].inputs, script: vs[1].script, main: "o"}})
		}
	}
}

// together runs the variants at the same time under every schedule.
func (w *W) together(s *spec.Scenario, name string, vs []variant10) {
	if !w.Next() || w.stop {
		return
	}
	if _, err := rig.Build(s); err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	setOrder("")
	var (
		acts  []*rig.Built
		alone []string
		steps []string
		scen  []*spec.Scenario
	)
	desc := map[string]any{"flows": s, "runs": vs10(vs)}
	var recs map[string]string
	record := func() {
		recs = map[string]string{}
		if rig.Rec != nil {
			rig.Rec.Hook = func(it *rig.RecItem) {
				if it.Kind == "step" {
					recs[it.Step.FlowId] += stepText10(it) + "\n"
				}
			}
		}
	}
	if rig.Rec != nil {
		defer func() { rig.Rec.Hook = nil }()
	}
	for _, v := range vs {
		sc := v.of(s)
		a, err := rig.NewAction("res://flow:" + sc.Main)
		if err != nil {
			w.Violate("load", err.Error(), desc)
			return
		}
		record()
		r := rig.Exec(a, sc, rig.Options{Rid: "alone"})
		rig.Forget("alone")
		if k, m := w.judge(newModel(sc), r, X{}); k != "" {
			w.Violate("alone: "+k, m, desc)
			return
		}
		acts, scen = append(acts, a), append(scen, sc)
		alone = append(alone, normTrace(r.Obs()))
		st := ""
		for id, t := range recs {
			st += strings.ReplaceAll(t, id, "<id>")
		}
		steps = append(steps, strings.ReplaceAll(st, "alone", "<rid>"))
	}
	type mode struct {
		coarse bool
		bound  int
		limit  int
	}
	modes := []mode{{true, 1, 1 << 20}}
	switch {
	case len(vs) > 2:
	case w.Quick() && rig.Rec == nil && vs[0].name == "first" && vs[1].name == "second":
		modes = append(modes, mode{false, 1, 1 << 20})
	case !w.Quick():
		modes = []mode{{false, 1, 1 << 20}, {true, 2, 1 << 20}}
	}
	for _, md := range modes {
		if md.bound > 1 && !md.coarse && rig.Rec != nil {
			continue
		}
		n := w.Schedules(md.bound, md.limit, func(sr *SchedRun) bool {
			sr.Coarse = md.coarse
			record()
			rs := make([]*rig.Run, len(vs))
			fin := 0
			sr.Do(400000, func() {
				for i := range vs {
					i := i
					vsched.Go(func() {
						rs[i] = rig.Start(acts[i], scen[i], rig.Options{Rid: fmt.Sprint("run", i)})
						fin++
					})
				}
				vsched.WaitUntil(func() bool {
					if fin < len(vs) {
						return false
					}
					for _, r := range rs {
						if r.RunErr == nil && !r.Finished() {
							return false
						}
					}
					return true
				})
			})
			for i := range vs {
				rig.Forget(fmt.Sprint("run", i))
			}
			w.R.Evals++
			key, msg := "", ""
			switch {
			case sr.Panic != nil:
				key, msg = "panic", fmt.Sprint(sr.Panic)
			case sr.Outcome != "":
				key, msg = "stuck", "the runs never end: "+sr.Outcome
			case len(sr.Races) > 0:
				key, msg = "race", "runs at the same time can crash the process: "+sr.Races[0]
			}
			roots := map[string]int{}
			for i, r := range rs {
				if key != "" || r == nil {
					break
				}
				if k, m := protocol(r); k != "" {
					key, msg = k, fmt.Sprintf("run %d: %s", i, m)
					break
				}
				if t := normTrace(r.Obs()); t != alone[i] {
					key, msg = "trace", fmt.Sprintf("run %d (%s) does\n  %s\nalone it does\n  %s", i, vs[i].name, t, alone[i])
					break
				}
				root := ""
				for _, o := range r.Obs() {
					if o.Kind != "eval" {
						continue
					}
					x := o.Inst
					if o.Flow != scen[i].Main {
						x = x[:strings.Index(x+"-", "-")]
					}
					if root != "" && x != root {
						key, msg = "ids", fmt.Sprintf("run %d has instances %s and %s", i, root, o.Inst)
					}
					root = x
				}
				if q, ok := roots[root]; ok && root != "" {
					key, msg = "ids", fmt.Sprintf("the runs %d and %d have the same instance id %s", q, i, root)
				}
				roots[root] = i
				if key == "" && rig.Rec != nil && root != "" {
					t := strings.ReplaceAll(recs[root], root, "<id>")
					t = strings.ReplaceAll(t, fmt.Sprint("run", i), "<rid>")
					if t != steps[i] {
						key, msg = "steps", fmt.Sprintf("run %d records the steps\n  %s\nalone it records\n  %s", i, t, steps[i])
					}
				}
			}
			if key != "" {
				d := map[string]any{"flows": s, "runs": vs10(vs), "schedule": sr.Trail(), "coarse": md.coarse}
				var b strings.Builder
				for i, r := range rs {
					if r != nil {
						fmt.Fprintf(&b, "run %d:\n%s", i, traceText(r))
					}
				}
				w.Violate(key, msg+"\n"+b.String(), d)
				return false
			}
			w.R.Valid++
			w.Distinct(fmt.Sprint(name, vs[0].name, vs[len(vs)-1].name, len(vs), s.Flows["m"].Handler != nil, md.coarse, sr.Trail()))
			return true
		})
		if w.verbose {
			fmt.Println(name, vs[0].name, vs[1].name, md, n)
		}
	}
}

func stepText10(it *rig.RecItem) string {
	x := *it.Step
	return fmt.Sprint(x.Id, x.FlowId, js(x.FlowChanges), js(x.QueueChanges), x.Rerun)
}

func vs10(vs []variant10) []any {
	var l []any
	for _, v := range vs {
		l = append(l, mp{"name": v.name, "main": v.main, "inputs": v.inputs, "script": v.script})
	}
	return l
}
