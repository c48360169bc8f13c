package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C22",
		Configs: func(tier string) []Conf {
			return []Conf{{Name: "one"}, {Name: "pairs"}}
		},
		Assume: append([]string{
			"results of assertions on the failure of an attempt other than by the activity's own error (mapping, panic, mock, subflow) are not looked at",
			"links found to be followed by a task that returns or whose other link expression fails may or may not be listed as covered",
			"assertion expressions that panic, assertions of unknown types and mocked errors without a text are left out",
		}, commonAssume...),
		Rule: "flow structures x handlers x every set of up to k faults, returns and writes x interceptors on one task (10 kinds, named by flow and task or by task alone) or on two tasks, with assertions on all others and on the flow's output; execution, outcome, the result of every assertion and activity, and the coverage must be those of the reference model; distinct by trace and interceptor",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "one intercepted task with k=1, two with k=0; handlers {none, 1 task of main and sub}"
			}
			return "one intercepted task with k=2 (1 with handlers or more than 5 tasks), two with k=1 (0); handlers {none, 1 task, 2 tasks}"
		},
		Run: run22,
	})
}

// kinds of interception of a task.
var kinds22 = []string{"", "mock", "mocknone", "mockas", "override", "mockerr", "errafter", "skip", "skipout", "in", "in+mock"}

type task22 struct {
	flow, task string
	host       bool
}

func intercept22(kind string, m *ref.Intercept, as []ref.Assert, t, field string) {
	out := map[string]any{field: "mock " + t}
	switch kind {
	case "mock":
		m.Mock, m.Out, m.Type = true, out, 4
	case "mocknone":
		m.Mock, m.Type = true, 4
	case "mockas":
		m.Mock, m.Type, m.As = true, 1, as
	case "override":
		m.Out, m.Type, m.As = out, 4, as[:1]
	case "mockerr":
		m.Mock, m.MErr, m.MockErr, m.ErrData, m.Type = true, true, "mocked failure", map[string]any{"why": 1}, 5
	case "errafter":
		m.MErr, m.MockErr, m.ErrData, m.Type = true, "mocked failure", "data", 5
	case "skip":
		m.Skip, m.Type, m.As = true, 1, as
	case "skipout":
		m.Skip, m.Out, m.Type = true, out, 4
	case "in":
		m.In, m.Type, m.As = map[string]any{"a": "override"}, 1, as
	case "in+mock":
		m.In, m.Mock, m.Out, m.Type = map[string]any{"a": "override"}, true, out, 4
	}
}

// real gives the interceptor that stands for the mocks and assertions.
func real22(ins map[string]*ref.Intercept, plain string, rev bool) *support.Interceptor {
	si := &support.Interceptor{Coverage: &support.Coverage{}, CollectIO: true}
	var ks []string
	for k := range ins {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if rev {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		m := ins[k]
		p := strings.SplitN(k, "/", 2)
		ti := &support.TaskInterceptor{ID: p[0] + "-" + p[1], Skip: m.Skip, Inputs: m.In, SkipExecution: m.Mock, Type: m.Type}
		if m.MErr {
			ti.Outputs = map[string]interface{}{"message": m.MockErr, "data": m.ErrData}
		} else {
			ti.Outputs = m.Out
		}
		for n, a := range m.As {
			ti.Assertions = append(ti.Assertions, support.Assertion{ID: fmt.Sprint(n), Name: fmt.Sprint("as", n), Type: support.Primitive, Expression: a.Text()})
		}
		if k == plain { // inputs and skipping by the id of the task alone
			si.TaskInterceptors = append(si.TaskInterceptors, &support.TaskInterceptor{ID: p[1], Skip: ti.Skip, Inputs: ti.Inputs})
			ti.Skip, ti.Inputs = false, nil
		}
		si.TaskInterceptors = append(si.TaskInterceptors, ti)
	}
	return si
}

func run22(w *W) {
	hs := [][2]int{{0, 0}, {1, 1}}
	k := 1
	if !w.Quick() {
		hs = [][2]int{{0, 0}, {1, 1}, {2, 0}, {0, 2}}
		k = 2
	}
	pairs := w.Conf.Name == "pairs"
	if pairs {
		k--
	}
	all := k
	for _, st := range structs19() {
		n := 0
		for _, f := range st.mk() {
			n += len(f.Tasks)
		}
		for _, h := range hs {
			// the most faults only where there are few tasks
			if k = all; !w.Quick() && (h[0]+h[1] > 0 || n > 5) {
				k--
			}
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				for _, f := range s.Flows {
					f.In = []spec.Param{{Name: "x", Type: "any", Def: "unchanged"}}
					f.Out = []spec.Param{{Name: "r", Type: "any"}, {Name: "d", Type: "string", Def: "declared"}, {Name: "x", Type: "any"}}
				}
				s.Norm()
				for _, f := range s.Flows {
					for t, task := range f.All {
						if task.Sub == "" {
							task.In = append(task.In, In("a", spec.Flow("x")))
						}
						if f.InHandler(t) {
							task.In = append(task.In, In("b", spec.ErrF("message")))
							continue
						}
						if task.Sub == "" && len(task.In_) == 1 {
							l := f.LAll[task.In_[0]]
							if l.Kind == spec.Error {
								task.In = append(task.In, In("s", spec.ErrAt(l.From, "message")), In("b", spec.ErrAt(l.From, "data")))
							} else if f.Task(l.From).Sub == "" {
								task.In = append(task.In, In("b", spec.Act(l.From, "out")))
							}
						}
					}
				}
				return s.Norm()
			}
			// count the units by interceptor within each set of faults
			w.eachFaults(mk, "ecpmlRSsf", k, func(s *spec.Scenario, key string) {
				var ts []task22
				for _, fn := range s.FlowNames() {
					for _, t := range s.Flows[fn].All {
						ts = append(ts, task22{fn, t.ID, t.Sub != ""})
					}
				}
				for a := range ts {
					for _, ka := range kinds22 {
						if !pairs {
							if ka == "" && a > 0 {
								continue
							}
							w.intercept22(s, st.name+key, ts, map[int]string{a: ka}, false)
							if (ka == "skip" || ka == "in") && unique22(ts, a) {
								w.intercept22(s, st.name+key, ts, map[int]string{a: ka}, true)
							}
							continue
						}
						if ka == "" {
							continue
						}
						for b := a + 1; b < len(ts); b++ {
							for _, kb := range kinds22[1:] {
								w.intercept22(s, st.name+key, ts, map[int]string{a: ka, b: kb}, false)
							}
						}
					}
				}
			})
		}
	}
}

func field22(t *spec.Task) string {
	if t.Sub != "" {
		return "r"
	}
	return "out"
}

func unique22(ts []task22, a int) bool {
	for b := range ts {
		if b != a && ts[b].task == ts[a].task {
			return false
		}
	}
	return true
}

func (w *W) intercept22(s *spec.Scenario, key string, ts []task22, kinds map[int]string, plain bool) {
	if w.stop || !w.Next() {
		return
	}
	for i, k := range kinds { // a mocked call of a subflow that does not exist has no declared outputs
		if k != "" && s.Flows[ts[i].flow].Task(ts[i].task).BadSub {
			return
		}
	}
	for i, k := range kinds { // what a failure after a return means is not defined
		if o := s.Script[ts[i].flow+"/"+ts[i].task]; k == "errafter" && len(o) > 0 && o[0].Kind == "ret" {
			return
		}
	}
	ins := map[string]*ref.Intercept{}
	pk, name := "", ""
	for i, t := range ts {
		m := &ref.Intercept{}
		f := s.Flows[t.flow]
		as := []ref.Assert{{X: spec.Eq(spec.Act(t.task, field22(f.Task(t.task))), spec.Lit(t.task+"#0"))}, {X: spec.Eq(spec.Act(t.task, field22(f.Task(t.task))), spec.Lit(t.task+"#1"))}, {X: spec.Eq(spec.Flow("x"), spec.Lit("changed"))}, {}, {Raw: "1 =="}}
		// some other task of the flow
		o := f.All[(i*7+len(key))%len(f.All)]
		as = append(as, ref.Assert{X: spec.Eq(spec.Act(o.ID, field22(o)), spec.Lit(o.ID+"#0"))}, ref.Assert{X: spec.Eq(spec.Act(o.ID, field22(o)), spec.Lit("mock "+o.ID))})
		fail := []ref.Assert{{X: spec.Eq(spec.ErrAt(t.task, "message"), spec.Lit("boom at "+t.task))}, {X: spec.Eq(spec.ErrAt(t.task, "code"), spec.Lit("E7"))}, {X: spec.Eq(spec.ErrF("message"), spec.Lit("boom at "+t.task))}, {}}
		switch kd := kinds[i]; {
		case kd != "":
			intercept22(kd, m, as, t.task, field22(f.Task(t.task)))
			name += t.flow + "/" + t.task + ":" + kd + ","
			if plain {
				pk = t.flow + "/" + t.task
			}
		case (i+len(key))%3 == 1:
			m.Type, m.As = 2, fail
		default:
			m.Type, m.As = 1, as
		}
		if kinds[i] == "" && w.unit%5 == 4 {
			continue // sometimes no entry at all
		}
		ins[t.flow+"/"+t.task] = m
	}
	fo := &ref.Intercept{Type: 1 + int(w.unit%2)}
	if fo.Type == 1 {
		fo.As = []ref.Assert{{X: spec.Eq(spec.Flow("r"), spec.Lit("returned"))}, {X: spec.Eq(spec.Flow("d"), spec.Lit("declared"))}, {}, {Raw: "$flow."}, {X: spec.Eq(spec.Flow("x"), spec.Lit("changed"))}, {X: spec.Eq(spec.Act(ts[0].task, "out"), spec.Lit(ts[0].task+"#0"))}}
	} else {
		fo.As = []ref.Assert{{X: spec.Eq(spec.Flow("x"), spec.Lit("changed"))}, {X: spec.Eq(spec.ErrF("message"), spec.Lit("mocked failure"))}, {}, {Raw: "1 =="}}
	}
	if w.unit%7 < 5 {
		ins[s.Main+ref.FlowOutput] = fo
	}
	rev := w.unit%3 == 1
	var si *support.Interceptor
	x := X{Orders: w.ord(), Key: key + name + fmt.Sprint(plain, w.unit%210)}
	x.Model = newModel(s)
	x.Model.Ins = ins
	x.Model.Whole, x.Model.KeepLog = true, true
	x.MkOpts = func() rig.Options {
		si = real22(ins, pk, rev)
		return rig.Options{Run: &instance.RunOptions{ExecOptions: &instance.ExecOptions{Interceptor: si}}}
	}
	x.Accept = func(r *rig.Run, fin []*ref.State) (string, string) {
		key, msg := "", ""
		for _, f := range fin {
			k, m := results22(r, f, ins, si)
			if k == "" {
				return "", ""
			}
			if key == "" {
				key = k
			}
			if len(msg) < 3000 && !strings.Contains(msg, m) {
				msg += m + "\n"
			}
		}
		return key, msg
	}
	s.Note = key + " intercepted " + name
	if pk != "" {
		s.Note += " by task id"
	}
	w.Exec(s, x)
}

func results22(r *rig.Run, f *ref.State, ins map[string]*ref.Intercept, si *support.Interceptor) (string, string) {
	open := map[string]bool{} // failed in a way that leaves open what its assertions say
	for _, e := range f.Log {
		if e.Kind == "attempt-fail" && e.Err != nil && !(e.Err.Exact && (e.Err.Kind == "err" || e.Err.Kind == "coded" || e.Err.Kind == "retri")) {
			n := f.I[e.Inst].F
			open[n.Name+"/"+n.All[e.Task].ID] = true
		}
	}
	for _, ti := range si.TaskInterceptors {
		p := strings.SplitN(ti.ID, "-", 2)
		if len(p) != 2 {
			continue
		}
		key := p[0] + "/" + p[1]
		m := ins[key]
		if m.MErr {
			open[key] = true
		}
		want := f.As[key]
		if want == nil {
			want = make([]int, len(m.As))
		}
		if !(open[key] && m.Type == 2) {
			for k, a := range ti.Assertions {
				if open[key] && a.Result == ref.NotAsserted && want[k] == ref.NotExecuted {
					continue
				}
				if a.Result != want[k] {
					return "assertion", fmt.Sprintf("assertion %d (%v) of %s has result %d (%s) instead of %d", k, a.Expression, key, a.Result, a.Message, want[k])
				}
			}
		}
		if res := f.As["result of "+key]; res != nil && !open[key] && ti.Result != res[0] {
			return "result", fmt.Sprintf("the result of activity %s is %d instead of %d", key, ti.Result, res[0])
		}
	}
	// coverage
	want, may, got := map[string]int{}, map[string]int{}, map[string]int{}
	b := func(x bool) string {
		if x {
			return "main"
		}
		return "handler"
	}
	errs := map[string]int{}
	outs := map[string][]string{}
	for _, e := range f.Log {
		if e.Inst < 0 || e.Inst >= len(f.I) {
			continue
		}
		fd := f.I[e.Inst].F
		switch e.Kind {
		case "done", "fail":
			t := fd.All[e.Task]
			k := fmt.Sprintf("activity %s/%s of %s", fd.Name, t.ID, b(!fd.InHandler(e.Task)))
			want[k]++
			if e.Kind == "fail" {
				errs[k]++
			} else {
				outs[k] = append(outs[k], spec.Canon(e.Out))
			}
		case "link", "maybe":
			l := fd.LAll[e.Task]
			v := ""
			if l.Kind == spec.XExpr {
				v = l.X.Text()
			}
			ty := map[string]string{spec.XExpr: "Expression", spec.Label: "Label", spec.Error: "Error", spec.Otherw: "Otherwise"}[l.Kind]
			k := fmt.Sprintf("link %s/%s>%s %s %q in %s", fd.Name, l.From, l.To, ty, v, b(!fd.InHandler(fd.From(e.Task))))
			if e.Kind == "link" {
				want[k]++
			} else {
				may[k]++
			}
		case "sub":
			want[fmt.Sprintf("subflow %s of %s/%s", f.I[e.N].F.Name, fd.Name, fd.All[e.Task].ID)]++
		}
	}
	gerrs := map[string]int{}
	for _, c := range si.Coverage.ActivityCoverage {
		k := fmt.Sprintf("activity %s/%s of %s", c.FlowName, c.ActivityName, b(c.IsMainFlow))
		got[k]++
		if c.Error != nil {
			gerrs[k]++
		}
	}
	for _, c := range si.Coverage.TransitionCoverage {
		k := fmt.Sprintf("link %s/%s>%s %s %q in %s", c.FlowName, c.TransitionFrom, c.TransitionTo, c.TransitionType, c.TransitionExpression, b(c.IsMainFlow))
		got[k]++
	}
	for _, c := range si.Coverage.SubFlowCoverage {
		got[fmt.Sprintf("subflow %s of %s/%s", c.SubFlowName, c.HostFlow, c.SubFlowActivity)]++
	}
	for k, n := range want {
		if got[k] < n {
			return "coverage", fmt.Sprintf("the coverage lists %s %d times instead of %d", k, got[k], n)
		}
	}
	for k, n := range got {
		if n > want[k]+may[k] {
			return "coverage", fmt.Sprintf("the coverage lists %s %d times instead of %d", k, n, want[k])
		}
	}
	for k, n := range want {
		if strings.HasPrefix(k, "activity") && errs[k] != gerrs[k] {
			return "coverage", fmt.Sprintf("the coverage lists %s %d times as failed instead of %d (of %d)", k, gerrs[k], errs[k], n)
		}
	}
	// inputs and outputs: those of the last invocation
	last := map[string]string{}
	inst := map[string]map[string]bool{}
	for at := range r.Trace {
		if o := &r.Trace[at]; o.Kind == "eval" {
			k := o.Flow + "/" + o.Task
			last[k] = spec.Canon(o.In)
			if inst[k] == nil {
				inst[k] = map[string]bool{}
			}
			inst[k][o.Inst] = true
		}
	}
	for _, c := range si.Coverage.ActivityCoverage {
		k := c.FlowName + "/" + c.ActivityName
		if len(inst[k]) != 1 || c.Error != nil {
			continue
		}
		in := map[string]any{}
		for n, v := range c.Inputs {
			if v != nil {
				in[n] = v
			}
		}
		if spec.Canon(in) != last[k] {
			return "coverage-io", fmt.Sprintf("the coverage lists the inputs of %s as %s instead of %s", k, spec.Canon(in), last[k])
		}
		kk := fmt.Sprintf("activity %s of %s", k, b(c.IsMainFlow))
		if os := outs[kk]; len(os) == 1 && os[0] != "{}" && os[0] != "null" && spec.Canon(c.Outputs) != os[0] {
			return "coverage-io", fmt.Sprintf("the coverage lists the outputs of %s as %s instead of %s", k, spec.Canon(c.Outputs), os[0])
		}
	}
	return "", ""
}
