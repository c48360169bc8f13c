package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/project-flogo/core/support/trace"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C25",
		Configs: func(tier string) []Conf {
			cs := []Conf{{Name: "trace", Rig: rig.Config{Trace: true}}}
			ls := []int{1, 2, 3, 4, 5}
			if tier == "thorough" {
				ls = []int{1, 2, 3, 4, 5, 6, 7}
			}
			for _, l := range ls {
				cs = append(cs, Conf{Name: fmt.Sprint("limit", l), Rig: rig.Config{Trace: true}, Env: map[string]string{"FLOGO_MAX_STEP_COUNT": fmt.Sprint(l)}, Shards: 1})
			}
			return cs
		},
		Assume: append([]string{
			"whether the span of an attempt or subflow that was given up is finished with an error is left open, as is the span of a flow that returned an error, and the span of an attempt after which the task failed (loop or link expression)"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies, with a tracer registered, with and without a span of the caller; the spans must be those of the flows and attempts of the reference model's run, each under its parent, each finished exactly once before the outcome is reported and with an error exactly if it failed; each activity must see the unfinished span of its own attempt; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=3 without handlers, k=2 with handlers {1 task, chain, error link}; one collection order; step limits 1..5 with k-1"
			}
			return "k=3 without handlers and with one task of main and sub, k=2 with handlers {1 task, chain, error link}; two collection orders; step limits 1..7 with k-1"
		},
		Run: run25,
	})
}

const callerSpan = 99999

func run25(w *W) {
	hs := [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}}
	limited := w.Conf.Env != nil
	for _, st := range structs19() {
		for hi, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				for _, f := range s.Flows {
					for _, t := range f.All {
						if t.Sub == "" {
							t.In = append(t.In, In("a", spec.Ctx("SpanId")))
						}
					}
				}
				return s.Norm()
			}
			k := 2
			if h[0]+h[1] == 0 || !w.Quick() && h[0]*h[1] == 1 {
				k = 3
			}
			if limited {
				k--
			}
			each := func(s *spec.Scenario, key string) {
				x := X{Orders: w.ord(), Key: st.name + key}
				x.Model = newModel(s)
				x.Model.Whole, x.Model.KeepLog = true, true
				x.Model.Fix = map[string]any{"SpanId": ref.Any, "TraceId": ref.Any}
				par := 0
				if hi%2 == 1 {
					par = callerSpan
					x.Opts.Ctx = trace.AppendTracingContext(context.Background(), &rig.Span{ID: callerSpan})
				}
				if limited {
					x.Judge = func(r *rig.Run) (string, string) {
						if k, m := protocol(r); k != "" {
							return k, m
						}
						return finished25(r)
					}
				} else {
					x.Accept = func(r *rig.Run, fin []*ref.State) (string, string) { return spans25(r, fin, par) }
				}
				w.Exec(s, x)
			}
			w.withFaults(mk, "ecprmMisblLRyf", k, each)
			w.withFaults(mk, "vVe", k-1, each)
		}
	}
}

func spanText(r *rig.Run) string {
	var b strings.Builder
	for _, s := range r.Spans {
		fmt.Fprintf(&b, "  span %d under %d: %s %v/%v finished %d times, %d with an error\n", s.ID, s.Parent, s.Op, s.Tags["flow_id"], s.Tags["task_name"], s.Fin, s.ErrN)
	}
	return b.String()
}

func finished25(r *rig.Run) (string, string) {
	for _, s := range r.Spans {
		if s.Fin != 1 {
			return fmt.Sprintf("finished-%d", min(s.Fin, 2)), fmt.Sprintf("span %d (%s) is finished %d times\n%s", s.ID, s.Op, s.Fin, spanText(r))
		}
	}
	if len(r.Open) > 0 {
		return "late", fmt.Sprintf("spans %v are finished after the outcome is reported\n%s", r.Open, spanText(r))
	}
	return "", ""
}

func spans25(r *rig.Run, fin []*ref.State, par int) (string, string) {
	if k, m := finished25(r); k != "" {
		return k, m
	}
	key, msg := "", ""
	for _, f := range fin {
		k, m := spansTell(r, f, par)
		if k == "" {
			return "", ""
		}
		if key == "" {
			key = k
		}
		if len(msg) < 2000 && !strings.Contains(msg, m) {
			msg += m + "\n"
		}
	}
	return key, msg + spanText(r)
}

func spansTell(r *rig.Run, f *ref.State, par int) (string, string) {
	flows := map[string]*rig.Span{}
	var order []*rig.Span
	tasks := map[string][]*rig.Span{}
	for _, s := range r.Spans {
		id, _ := s.Tags["flow_id"].(string)
		if tn, ok := s.Tags["task_name"].(string); ok {
			if s.Op != tn {
				return "name", fmt.Sprintf("span %d of task %s is named %s", s.ID, tn, s.Op)
			}
			tasks[id+"/"+tn] = append(tasks[id+"/"+tn], s)
			continue
		}
		if flows[id] != nil {
			return "flows", fmt.Sprintf("the flow %s (%s) has two spans", s.Op, id)
		}
		flows[id] = s
		order = append(order, s)
	}
	ids := make([]string, len(f.I))
	used := map[string]bool{}
	for i, n := range f.I {
		if n.ID != "" {
			ids[i], used[n.ID] = n.ID, true
		}
	}
	under := func(s *rig.Span, n *ref.Inst) bool {
		if n.Parent < 0 {
			return s.Parent == par
		}
		for _, h := range tasks[ids[n.Parent]+"/"+f.I[n.Parent].F.All[n.Host].ID] {
			if h.ID == s.Parent {
				return true
			}
		}
		return false
	}
	for i, n := range f.I {
		for _, s := range order {
			id := s.Tags["flow_id"].(string)
			if ids[i] == "" && !used[id] && s.Op == n.F.Name && under(s, n) {
				ids[i], used[id] = id, true
			}
		}
		s := flows[ids[i]]
		if ids[i] == "" || s == nil {
			return "flows", fmt.Sprintf("flow %s %s has no span, or under a wrong parent", n.F.Name, ids[i])
		}
		if s.Op != n.F.Name {
			return "name", fmt.Sprintf("span %d of flow %s is named %s", s.ID, n.F.Name, s.Op)
		}
		if !under(s, n) {
			return "parent", fmt.Sprintf("span %d of flow %s (%s) is under span %d", s.ID, n.F.Name, ids[i], s.Parent)
		}
		switch {
		case n.Stat == ref.Failed && s.ErrN != 1:
			return "error", fmt.Sprintf("flow %s (%s) failed but its span is finished without an error", n.F.Name, ids[i])
		case n.Stat == ref.Failed && n.Err != nil && n.Err.Exact && !strings.Contains(s.Err.Error(), n.Err.Msg):
			return "error", fmt.Sprintf("flow %s (%s) failed with %q but its span is finished with %q", n.F.Name, ids[i], n.Err.Msg, s.Err)
		case n.Stat == ref.Completed && n.RetErr == "" && s.ErrN != 0:
			return "error", fmt.Sprintf("flow %s (%s) completed but its span is finished with an error", n.F.Name, ids[i])
		}
	}
	for _, s := range order {
		if !used[s.Tags["flow_id"].(string)] {
			return "flows", fmt.Sprintf("span %d belongs to no flow of the run", s.ID)
		}
	}
	// attempts
	type att struct {
		end  string
		er   *ref.Err
		subs []int
	}
	want := map[string][]*att{}
	for _, e := range f.Log {
		key := ""
		if e.Inst >= 0 {
			key = ids[e.Inst] + "/" + f.I[e.Inst].F.All[e.Task].ID
		}
		l := want[key]
		switch e.Kind {
		case "attempt":
			want[key] = append(l, &att{})
		case "attempt-ok", "attempt-fail":
			l[len(l)-1].end, l[len(l)-1].er = e.Kind, e.Err
		case "sub":
			l[len(l)-1].subs = append(l[len(l)-1].subs, e.N)
		}
	}
	for key, ss := range tasks {
		if len(want[key]) == 0 {
			return "attempts", fmt.Sprintf("span %d for an attempt of %s that never was", ss[0].ID, key)
		}
	}
	for key, as := range want {
		ss := tasks[key]
		if len(ss) != len(as) {
			return "attempts", fmt.Sprintf("%s was attempted %d times and has %d spans", key, len(as), len(ss))
		}
		id := key[:strings.LastIndex(key, "/")]
		for k, a := range as {
			s := ss[k]
			if s.Parent != flows[id].ID {
				return "parent", fmt.Sprintf("span %d of %s is under span %d instead of its flow's", s.ID, key, s.Parent)
			}
			if a.end == "attempt-fail" && s.ErrN != 1 {
				return "error", fmt.Sprintf("attempt %d of %s failed but its span is finished without an error", k, key)
			}
			if a.end == "attempt-fail" && a.er != nil && a.er.Exact && !strings.Contains(s.Err.Error(), a.er.Msg) {
				return "error", fmt.Sprintf("attempt %d of %s failed with %q but its span is finished with %q", k, key, a.er.Msg, s.Err)
			}
			if a.end == "attempt-ok" && s.ErrN != 0 {
				n := f.I[indexOf(ids, id)]
				last := k == len(as)-1
				t := 0
				for i := range n.F.All {
					if n.F.All[i].ID == key[len(id)+1:] {
						t = i
					}
				}
				if !(last && n.TStat(t) == ref.TFail) {
					return "error", fmt.Sprintf("attempt %d of %s succeeded but its span is finished with an error", k, key)
				}
			}
			for _, sub := range a.subs {
				if flows[ids[sub]].Parent != s.ID {
					return "parent", fmt.Sprintf("the span of the subflow of attempt %d of %s is under span %d instead of %d", k, key, flows[ids[sub]].Parent, s.ID)
				}
			}
		}
	}
	// what the activities see
	nth := map[string]int{}
	for at := range r.Trace {
		o := &r.Trace[at]
		if o.Kind != "eval" {
			continue
		}
		key := o.Inst + "/" + o.Task
		// failing mappings make attempts without an invocation only as the last one
		s := tasks[key][nth[key]]
		nth[key]++
		sa, ok := r.EvalSpan[at]
		if !ok || sa.ID != s.ID || !sa.Begin || !sa.End {
			return "sees", fmt.Sprintf("the invocation at %d sees span %d (open before: %t, after: %t) instead of the open span %d", at, sa.ID, sa.Begin, sa.End, s.ID)
		}
		if fs := flows[o.Inst]; o.In["a"] != fmt.Sprint(fs.ID) {
			return "context", fmt.Sprintf("the flow of the invocation at %d says its span is %v instead of %d", at, o.In["a"], fs.ID)
		}
	}
	return "", ""
}
