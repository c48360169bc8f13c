package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

const smEnv = "FLOGO_FLOW_SM_ENDPOINT"

func init() {
	register(&Check{
		ID:   "C19",
		Diff: true,
		Configs: func(tier string) []Conf {
			sm := map[string]string{smEnv: "http://127.0.0.1:1"}
			out := []Conf{
				{Name: "plain"},
				{Name: "step", Rig: rig.Config{Mode: "step"}},
				{Name: "snapshot", Rig: rig.Config{Mode: "snapshot"}},
				{Name: "full", Rig: rig.Config{Mode: "full"}, Env: sm},
				{Name: "failing recorder", Rig: rig.Config{Mode: "full", RecErr: true}, Env: sm},
				{Name: "events", Rig: rig.Config{Events: true}},
				{Name: "trace", Rig: rig.Config{Trace: true}},
				{Name: "interceptor"},
				{Name: "all", Rig: rig.Config{Mode: "full", Events: true, Trace: true}, Env: sm},
				{Name: "debug", Rig: rig.Config{Debug: true}},
			}
			if tier == "thorough" {
				out = append(out, Conf{Name: "full without endpoint", Rig: rig.Config{Mode: "full"}},
					Conf{Name: "step with endpoint", Rig: rig.Config{Mode: "step"}, Env: sm},
					Conf{Name: "off with recorder", Rig: rig.Config{Mode: "off"}},
					Conf{Name: "debug all", Rig: rig.Config{Mode: "full", Events: true, Trace: true, Debug: true}, Env: sm})
			}
			for i := range out {
				out[i].Shards = 4
			}
			return out
		},
		Assume: append([]string{"flows that read the trace or span id of their own context are left out"}, commonAssume...),
		Rule:   "observer configurations (none; recording steps, snapshots, both, a recorder that fails, with and without change tracking of all data; event listeners; a tracer; debug logging; five interceptors that override nothing; all at once) x flow structures x handlers x every set of up to k faults, returns and replies; each execution is compared with the model and, unit by unit, with the execution without observers; distinct by trace and configuration",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2, with handlers 1; 10 configurations"
			}
			return "k=2; 14 configurations"
		},
		Run:  run19,
		Post: post19,
	})
}

func structs19() []structure {
	sts := append([]structure(nil), structures...)
	for _, x := range [][]int{{2, 4}, {4, 4}, {5, 1}, {6, 7}, {3, 6}} {
		x := x
		sts = append(sts, structure{"branches " + fmt.Sprint(x), func() []*spec.FlowDef {
			s := scenario12(x, 1, 0, 0)
			fs := []*spec.FlowDef{s.Flows["m"]}
			for _, n := range []string{"k", "n"} {
				if f := s.Flows[n]; f != nil {
					fs = append(fs, f)
				}
			}
			return fs
		}})
	}
	return sts
}

func data19(s *spec.Scenario) {
	for _, f := range s.Flows {
		f.In = []spec.Param{{Name: "x", Type: "any", Def: mp{"k": []any{1, "t"}}}, {Name: "y", Type: "any"}}
		f.Out = []spec.Param{{Name: "r", Type: "any"}, {Name: "d", Type: "string", Def: "declared"}, {Name: "x", Type: "any"}}
		for _, t := range f.All {
			if t.Sub == "" {
				t.In = append(t.In, In("in", spec.Flow("x")))
			} else {
				t.In = append(t.In, In("x", spec.Obj("to", spec.Lit(t.ID), "v", spec.Flow("x"))))
			}
		}
	}
	s.Inputs = mp{"y": mp{"deep": []any{mp{"a": 1}}}}
}

func run19(w *W) {
	k := 1
	hs := [][2]int{{0, 0}, {2, 0}, {0, 2}}
	if !w.Quick() {
		k = 2
		hs = [][2]int{{0, 0}, {1, 1}, {2, 0}, {0, 2}}
	}
	w.R.Digest = map[string]string{}
	for _, st := range structs19() {
		for _, h := range hs {
			if h[1] > 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			n := k
			if h[0]+h[1] == 0 {
				n = 2
			}
			w.withFaults(mk, "zvV", 1, func(s *spec.Scenario, key string) { w.observe19(s, st.name+key) })
			w.withFaults(mk, "epmlsirRySf", n, func(s *spec.Scenario, key string) { w.observe19(s, st.name+key) })
		}
	}
}

func (w *W) observe19(s *spec.Scenario, key string) {
	var variants []func() rig.Options
	if w.Conf.Name == "interceptor" {
		for v := 0; v < 5; v++ {
			v := v
			variants = append(variants, func() rig.Options {
				return rig.Options{Run: &instance.RunOptions{ExecOptions: &instance.ExecOptions{Interceptor: idle(s, v)}}}
			})
		}
	} else {
		variants = []func() rig.Options{nil}
	}
	for i, v := range variants {
		var digest string
		w.Exec(s, X{MkOpts: v, Key: key + w.Conf.Name + fmt.Sprint(i), Orders: []string{""}, Judge: func(r *rig.Run) (string, string) {
			h := fnv.New64a()
			io.WriteString(h, normTrace(r.Trace))
			digest = strconv.FormatUint(h.Sum64(), 36)
			return w.judge(newModel(s), r, X{})
		}})
		u := strconv.FormatInt(w.unit-1, 10)
		if old := w.R.Digest[u]; old != "" && old != digest {
			w.Violate("interceptor", "an interceptor that overrides nothing changes what the flow does", s)
		}
		w.R.Digest[u] = digest
	}
}

// idle is an interceptor that overrides nothing.
func idle(s *spec.Scenario, v int) *support.Interceptor {
	in := &support.Interceptor{}
	if v > 0 {
		in.Coverage = &support.Coverage{}
	}
	if v == 2 {
		in.CollectIO = true
	}
	if v >= 3 {
		for _, fn := range s.FlowNames() {
			for _, t := range s.Flows[fn].All {
				ti := &support.TaskInterceptor{ID: fn + "-" + t.ID}
				if v == 4 {
					ti.Type = support.AssertionActivity
					ti.Assertions = []support.Assertion{{ID: "1", Name: "a", Type: support.Primitive, Expression: "=1==1"}, {ID: "2", Name: "b", Type: support.Primitive, Expression: "=$flow.nosuch==1"}}
				}
				in.TaskInterceptors = append(in.TaskInterceptors, ti)
			}
		}
	}
	return in
}

// post19 compares the configurations unit by unit.
func post19(p *Parent) {
	base := map[string]string{}
	for _, r := range p.Res {
		if r.Conf == "plain" {
			for u, d := range r.Digest {
				base[u] = d
			}
		}
	}
	n := 0
	for _, r := range p.Res {
		var us []string
		for u := range r.Digest {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			b, ok := base[u]
			if !ok {
				continue
			}
			n++
			if b != r.Digest[u] {
				un, _ := strconv.ParseInt(u, 10, 64)
				p.Viols = append(p.Viols, Viol{Conf: r.Conf, Unit: un, Key: "differs " + strings.ReplaceAll(r.Conf, " ", "-"), Msg: "the run differs from the same run without observers"})
				break
			}
		}
	}
	if len(p.Res) > 0 {
		if p.Res[0].Counters == nil {
			p.Res[0].Counters = map[string]int64{}
		}
		p.Res[0].Counters["compared"] += int64(n)
	}
}
