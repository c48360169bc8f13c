package main

import "verif.local/vmc/spec"

func init() {
	register(&Check{
		ID: "C04", Core: true,
		Assume: commonAssume,
		Rule:   "every small flow graph, as the main flow and as a subflow, x failures x condition results; 17 flow structures x error handlers of the main flow and of subflows x every set of at most k faults over all fault points (activity error, coded error, retriable error, panic, failing and panicking mapping, link, loop and retry expressions, unknown subflow); every execution must report exactly one outcome, of the right kind, and then completion once; distinct by scenario and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "a dozen of everything (tasks in a chain or at once, links, elements, rounds, attempts, calls, 8 levels) with one fault; graphs of 3 tasks {none,dep,T,F,error,otherwise} with all failure sets, of 4 tasks {none,dep,T,F,error}; k=2, handlers {none,1 task,chain,error link} of main x {none,1 task} of subflows"
			}
			return "a dozen of everything (tasks in a chain or at once, links, elements, rounds, attempts, calls, 8 levels) with one fault; graphs of 3 tasks {none,dep,T,F,error,otherwise} with all failure sets, of 4 tasks {none,dep,T,F,error} with at most one failure, both link orders; k=3 (k=2 for handlers with several tasks), handlers {none,1 task,chain,error link,two starts} of main x {none,1 task,chain} of subflows, two collection orders"
		},
		Run: func(w *W) {
			w.large()
			// flows that end by skips, errors and joins in any order
			for _, e := range []bool{false, true} {
				w.runGraphs(graphOpt{n: 3, alphabet: "-dtfeo", filter: oneOtherwise, handlers: []int{0, 1}, revs: []bool{false, true}, fails: allMasks, embed: e})
				w.runGraphs(graphOpt{n: 4, alphabet: "-dtfe", handlers: []int{0}, revs: []bool{false}, fails: noMasks, embed: e, orders: []string{""}})
				if !w.Quick() {
					w.runGraphs(graphOpt{n: 4, alphabet: "-dtfe", handlers: []int{0, 1}, revs: []bool{true}, fails: maxOneFail, embed: e, orders: []string{""}})
				}
			}
			all := "ecprmMiItsblL"
			for _, st := range structures {
				hasSub := len(st.mk()) > 1
				subHs := []int{0}
				if hasSub {
					subHs = []int{0, 1}
				}
				if !w.Quick() && hasSub {
					subHs = []int{0, 1, 2}
				}
				mainHs := []int{0, 1, 2, 3}
				if !w.Quick() {
					mainHs = []int{0, 1, 2, 3, 4}
				}
				for _, mh := range mainHs {
					for _, sh := range subHs {
						k := 2
						if !w.Quick() && mh <= 1 && sh <= 1 {
							k = 3
						}
						w.withFaults(st.scenario(mh, sh), all, k, func(s *spec.Scenario, key string) {
							or := []string{""}
							if !w.Quick() {
								or = nil
							}
							w.Exec(s, X{Orders: or, Key: st.name + key})
						})
					}
				}
			}
		},
	})
}
