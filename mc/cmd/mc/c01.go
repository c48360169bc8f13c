package main

import "verif.local/vmc/spec"

var commonAssume = []string{
	"activities are the scripted probe of the harness; what other activities do is not covered",
	"the order of Go map iteration is replaced by the orders listed in bounds (source overlay at build time); everything else is the unmodified engine",
	"time.Sleep is virtual",
}

func init() {
	register(&Check{
		ID: "C01", Core: true,
		Assume: commonAssume,
		Rule:   "every flow graph within bounds x failing task sets x expression truths x collection orders; non-trivial: at least one link, distinct by normalised execution trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "3 tasks: all pairs over {none,dep,expr T/F,error,otherwise,label}, all failure sets, handler y/n, both link orders; 4 tasks: {none,dep,expr T/F,error}; orders sorted and reversed"
			}
			return "4 tasks full alphabet; 5 tasks {none,dep,exprF}"
		},
		Run: func(w *W) {
			w.runGraphs(graphOpt{n: 2, alphabet: "-dtfeol", handlers: []int{0, 1}, revs: []bool{false}, fails: allMasks, explore: true})
			w.runGraphs(graphOpt{n: 3, alphabet: "-dtfeol", handlers: []int{0, 1}, revs: []bool{false, true}, fails: allMasks, explore: true})
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfe", handlers: []int{0}, revs: []bool{false}, fails: maxOneFail})
			if w.Quick() {
				return
			}
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfe", handlers: []int{0, 1}, revs: []bool{false, true}, fails: allMasks, explore: true})
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfeol", filter: oneOtherwise, handlers: []int{1}, revs: []bool{false}, fails: maxOneFail})
			w.runGraphs(graphOpt{n: 5, alphabet: "-dtf", handlers: []int{0}, revs: []bool{false, true}, fails: noMasks})
		},
	})
}

var _ = spec.Dep
