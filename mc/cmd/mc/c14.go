package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

const stepEnv = "FLOGO_MAX_STEP_COUNT"

// endless flows, and flows whose ends are special
var structures14 = []structure{
	{"endless while", func() []*spec.FlowDef {
		w := whileT("W", 2)
		w.Loop.While = spec.Lit(true)
		return []*spec.FlowDef{fl("m", ls(L("A", "W", D), L("W", "B", D)), T("A"), w, T("B"))}
	}},
	{"endless while beside others", func() []*spec.FlowDef {
		w := whileT("W", 2)
		w.Loop.While = spec.Lit(true)
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D)), T("A"), w, T("B"))}
	}},
	{"endless while over sub", func() []*spec.FlowDef {
		w := whileT("W", 2)
		w.Loop.While = spec.Lit(true)
		w.Sub = "k"
		return []*spec.FlowDef{fl("m", ls(L("A", "W", D)), T("A"), w), fl("k", ls(L("P", "Q", D)), T("P"), T("Q"))}
	}},
	{"endless recursion", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "S", D)), T("A"), sub("S", "k")), fl("k", ls(L("P", "S", D)), T("P"), sub("S", "k"))}
	}},
	{"long iterator", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("I", "B", D)), iterT("I", 40), T("B"))}
	}},
	{"long retry", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("R", "B", D)), retryT("R", 40), T("B"))}
	}},
	{"long iterator in sub", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D)), sub("S", "k"), T("B")), fl("k", nil, iterT("I", 40))}
	}},
	{"abandoned branches", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("A", "C", D), L("A", "G", D)), T("A"), T("B"), T("C"), T("G"))}
	}},
	{"fan", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "J", D), L("B", "J", D), L("C", "J", D), L("G", "J", D)), T("A"), T("B"), T("C"), T("G"), T("J"))}
	}},
}

func init() {
	register(&Check{
		ID:   "C14",
		Diff: true,
		Configs: func(tier string) []Conf {
			lim := []string{"1", "2", "3", "4", "5", "6", "8", "0", "-1", "", "x"}
			if tier == "thorough" {
				lim = []string{"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "15", "20", "30", "0", "-1", "", "x", "5.5"}
			}
			var out []Conf
			for _, l := range lim {
				c := Conf{Name: "limit " + l, Env: map[string]string{stepEnv: l}, Shards: 4}
				out = append(out, c)
			}
			return out
		},
		Assume: append([]string{
			"a step is one call of IndependentInstance.DoStep; it executes at most one activity (an activity's retries belong to its step). How many steps a flow takes is found by driving the same flow by hand, one step at a time and without limit; that run is itself compared with the reference model",
			"an unset or unreadable limit means the default of ten million steps"}, commonAssume...),
		Rule: "limit values (one process each) x flow structures (the common ones, endless loops and recursions, long loops and retries, branches abandoned at the end) x handlers x every set of at most k faults or returns; distinct by limit and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "limits 1..6, 8, 0, -1, empty, unreadable; k=2; handlers {none, chain; subflow: none, one task}"
			}
			return "limits 1..10, 12, 15, 20, 30, 0, -1, empty, unreadable, fraction; k=2; handlers {none, 1 task, chain, error link; subflow: none, one task, chain}, two collection orders"
		},
		Run: run14,
	})
}

func run14(w *W) {
	limit, err := strconv.Atoi(os.Getenv(stepEnv))
	if err != nil {
		limit = 10000000
	}
	k := 2
	mhs, shs := []int{0, 2}, []int{0, 1}
	if !w.Quick() {
		mhs, shs = []int{0, 1, 2, 3}, []int{0, 1, 2}
	}
	all := append(append([]structure(nil), structures14...), structures...)
	for _, st := range all {
		if limit > 100 && strings.HasPrefix(st.name, "endless") {
			continue
		}
		hasSub := len(st.mk()) > 1
		for _, mh := range mhs {
			for _, sh := range shs {
				if sh > 0 && !hasSub {
					continue
				}
				w.withFaults(st.scenario(mh, sh), "emrsliR", k, func(s *spec.Scenario, key string) {
					w.limit14(s, st.name+key, limit)
				})
			}
		}
	}
}

func (w *W) limit14(s *spec.Scenario, key string, limit int) {
	if strings.HasPrefix(key, "long retry") && s.Script["m/R"] == nil {
		for i := 0; i < 40; i++ {
			s.Script["m/R"] = append(s.Script["m/R"], spec.Outcome{Kind: "retri", Msg: "again", Code: "R1"})
		}
	}
	b, err := rig.Build(s)
	if err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	m := ref.New(s)
	orders := w.ord()
	if orders == nil {
		orders = []string{"", "rev"}
	}
	for _, om := range orders {
		// by hand, without limit
		setOrder(om)
		free, err := rig.NewStepped(s, rig.Options{})
		if err != nil {
			w.Violate("start", err.Error(), s)
			return
		}
		max := limit + 3
		if max < 60 {
			max = 60
		}
		for len(free.After) < max && free.Step() {
		}
		setOrder("")
		for i, n := range free.After {
			from := 0
			if i > 0 {
				from = free.After[i-1]
			}
			var ev []ref.Obs
			for _, o := range free.Trace[from:n] {
				if o.Kind == "eval" {
					ev = append(ev, o)
				}
			}
			bad := false
			for k := 1; k < len(ev); k++ { // attempts of one task are one step
				bad = bad || ev[k].Inst != ev[0].Inst || ev[k].Task != ev[0].Task || s.Flows[ev[k].Flow].Task(ev[k].Task).Retry == nil
			}
			if bad {
				w.Violate("step", fmt.Sprintf("step %d executed %d activities:\n%s", i+1, len(ev), traceText(free.Run)), s)
				return
			}
		}
		if free.Ended {
			if _, mm := m.Validate(free.Trace, &w.R.Stats); mm != nil {
				w.Violate("trace", "driven by hand: "+mm.Error()+"\n"+traceText(free.Run), s)
				return
			}
		} else if len(free.After) < max {
			w.Violate("stuck", "the flow has no more work and has not ended:\n"+traceText(free.Run), s)
			return
		}
		w.ExecB(b, s, X{Model: m, Orders: []string{om}, Key: fmt.Sprint(key, limit), Judge: func(r *rig.Run) (string, string) {
			if k, msg := protocol(r); k != "" {
				return k, msg
			}
			n := len(free.After)
			want := free.Trace
			if !free.Ended || n > limit {
				w.Count("limited", 1)
				k := 0
				if limit > 0 {
					k = free.After[limit-1]
				}
				// steps before the limit, then the error
				if len(r.Trace) != k+1 {
					return "steps", fmt.Sprintf("%d observations, want %d steps with %d observations and the error; without limit:\n%s", len(r.Trace), limit, k, traceText(free.Run))
				}
				if a, b := normTrace(r.Trace[:k]), normTrace(free.Trace[:k]); a != b {
					return "prefix", fmt.Sprintf("differs before the limit: %s\nwithout limit: %s", a, b)
				}
				o := r.Trace[k]
				if o.Kind != "outcome" || !o.HasEr || spec.Canon(o.Data) != "null" && spec.Canon(o.Data) != "{}" || !strings.Contains(o.Err, strconv.Itoa(limit)) || !strings.Contains(o.Err, stepEnv) {
					return "limit-error", fmt.Sprintf("a run of more than %d steps reported %s", limit, o.String())
				}
				return "", ""
			}
			w.Count("within", 1)
			if a, b := normTrace(r.Trace), normTrace(want); a != b {
				return "within", fmt.Sprintf("a run of %d steps with limit %d: %s\nwithout limit: %s", n, limit, a, b)
			}
			return "", ""
		}})
	}
}
