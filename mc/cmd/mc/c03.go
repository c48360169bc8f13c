package main

import (
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

const prioEnv = "FLOGO_TASK_PRIORITIZE_EXPR_LINK"

func init() {
	register(&Check{
		ID: "C03", Core: true,
		Assume: append([]string{"order is decided for flows without subflows; branches of equal priority, start tasks, error branches and joins completed by a skip are not ordered"}, commonAssume...),
		Rule:   "every flow graph within bounds x expression truths x failures x both priority settings x collection orders; a start while higher-priority sibling work is ready is a violation; distinct by normalised execution trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "3 tasks full alphabet with handler, all failure sets; 4 tasks {none,dep,T,F,otherwise,label}; 5 tasks: root with 4 links of any kind, dependency links below; iterators as siblings"
			}
			return "4 tasks full alphabet with failures, both link orders; 5 tasks: root with 4 links of any kind, {none,dep,label} below"
		},
		Run: func(w *W) {
			envs := []map[string]string{{prioEnv: ""}, {prioEnv: "true"}, {prioEnv: "false"}}
			acc := func(r *rig.Run, fin []*ref.State) (string, string) {
				ef := r.S.Env[prioEnv] == "true"
				if msg := ref.New(r.S).CheckPriority(r.Trace, ef); msg != "" {
					return "priority", msg
				}
				return "", ""
			}
			iter := func(f *spec.FlowDef) {
				for i, t := range f.Tasks {
					if i == 1 || i == 2 {
						t.Kind, t.Loop = "iterator", &spec.Loop{OverV: 2}
					}
				}
			}
			star := func(below string) func(i, j int) string {
				return func(i, j int) string {
					if i == 0 {
						return "-dtflo"
					}
					return below
				}
			}
			w.runGraphs(graphOpt{n: 3, alphabet: "-dtfeol", filter: oneOtherwise, handlers: []int{2}, revs: []bool{false, true}, fails: allMasks, envs: envs, accept: acc})
			w.runGraphs(graphOpt{n: 3, alphabet: "-dtfol", filter: oneOtherwise, handlers: []int{0}, revs: []bool{false}, fails: noMasks, envs: envs, accept: acc, decorate: iter})
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfol", filter: oneOtherwise, handlers: []int{0}, revs: []bool{false}, fails: noMasks, envs: envs[:2], accept: acc})
			w.runGraphs(graphOpt{n: 5, letters: star("-d"), filter: oneOtherwise, handlers: []int{0}, revs: []bool{false, true}, fails: noMasks, envs: envs[:2], accept: acc, orders: []string{""}})
			if w.Quick() {
				return
			}
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfeol", filter: oneOtherwise, handlers: []int{0}, revs: []bool{false, true}, fails: maxOneFail, envs: envs[:2], accept: acc, orders: []string{"", "rev"}})
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfol", filter: oneOtherwise, handlers: []int{0}, revs: []bool{false}, fails: noMasks, envs: envs[:2], accept: acc, decorate: iter})
			w.runGraphs(graphOpt{n: 5, letters: star("-dl"), filter: oneOtherwise, handlers: []int{0}, revs: []bool{false}, fails: noMasks, envs: envs[:2], accept: acc, orders: []string{""}})
		},
	})
}
