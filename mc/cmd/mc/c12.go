package main

import (
	"fmt"

	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

// branch12 adds branch number i of a kind; it gives the last task.
type branch12 struct {
	name string
	add  func(m *spec.FlowDef, p string) string
	sub  string // flow it calls
}

var branches12 = []branch12{
	{"task", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, T(p+"A"))
		return p + "A"
	}, ""},
	{"chain", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, T(p+"A"), T(p+"B"))
		m.Links = append(m.Links, L(p+"A", p+"B", D))
		return p + "B"
	}, ""},
	{"fan", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, T(p+"A"), T(p+"B"), T(p+"C"))
		m.Links = append(m.Links, L(p+"A", p+"B", D), L(p+"A", p+"C", D))
		return p + "B"
	}, ""},
	{"iterator", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, iterT(p+"I", 2))
		return p + "I"
	}, ""},
	{"sub", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, sub(p+"S", "k"))
		return p + "S"
	}, "k"},
	{"nested", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, T(p+"A"), sub(p+"N", "n"))
		m.Links = append(m.Links, L(p+"A", p+"N", D))
		return p + "N"
	}, "n"},
	{"loop over sub", func(m *spec.FlowDef, p string) string {
		i := iterT(p+"L", 2)
		i.Sub = "k"
		m.Tasks = append(m.Tasks, i)
		return p + "L"
	}, "k"},
	{"otherwise", func(m *spec.FlowDef, p string) string {
		m.Tasks = append(m.Tasks, T(p+"A"), T(p+"B"), T(p+"C"))
		m.Links = append(m.Links, LX(p+"A", p+"B", spec.Lit(false)), L(p+"A", p+"C", O))
		return p + "C"
	}, ""},
}

func init() {
	register(&Check{
		ID: "C12", Core: true,
		Assume: commonAssume,
		Rule:   "sets of parallel branches (task, chain, fan, iterator, subflow, nested subflow, loop over a subflow, decision) x joined or not x error handlers x every set of at most k enders (explicit return, plain error, panic, failing mapping, failing link) anywhere in the flows and handlers x the orders in which the engine walks its collections; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "up to 3 branches, k=1 (2 with up to 2 branches), handlers of main/subflows {none, two starts} (fewer combinations with 3 branches), sorted and reversed order"
			}
			return "up to 3 branches, k=2, handlers {none, chain, two starts} (fewer combinations with 3 branches), orders: up to 2 branches and one ender every choice deviating from sorted order at most once (one branch or no ender: twice), else sorted, reversed and rotated"
		},
		Run: run12,
	})
}

func run12(w *W) {
	hs := []int{0, 4}
	if !w.Quick() {
		hs = []int{0, 2, 4}
	}
	for n := 1; n <= 3; n++ {
		pick := make([]int, n)
		var rec func(i, from int)
		rec = func(i, from int) {
			if i < n {
				for b := from; b < len(branches12); b++ {
					pick[i] = b
					rec(i+1, b)
				}
				return
			}
			for join := 0; join < 2; join++ {
				if n == 1 && join == 1 {
					continue
				}
				for _, mh := range hs {
					for _, sh := range hs {
						p := append([]int(nil), pick...)
						any := false
						for _, b := range p {
							any = any || branches12[b].sub != ""
						}
						if sh > 0 && !any || n == 3 && (mh != sh && any || join == 1 && mh == 0) {
							continue
						}
						mk := func() *spec.Scenario { return scenario12(p, join, mh, sh) }
						k := 2
						if w.Quick() && n == 3 {
							k = 1
						}
						kinds := "Rempl"
						if n == 3 && k == 2 {
							kinds = "Re"
						}
						w.withFaults(mk, kinds, k, func(s *spec.Scenario, key string) { w.orders12(s, n, key) })
					}
				}
			}
		}
		rec(0, 0)
	}
}

func (w *W) orders12(s *spec.Scenario, n int, key string) {
	if w.Quick() {
		w.Exec(s, X{Key: key})
		return
	}
	if n > 2 || countByte(key, ',') > 1 {
		w.Exec(s, X{Key: key, Orders: []string{"", "rev", "rot"}})
		return
	}
	b, err := rig.Build(s)
	if err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	bound := 2
	if n > 1 && key != "" {
		bound = 1
	}
	m := newModel(s)
	w.OrdersDFS(bound, 400, func() bool {
		return w.ExecB(b, s, X{Model: m, Key: key, Orders: []string{"keep"}})
	})
}

func countByte(s string, c byte) int {
	n := 0
	for i := range s {
		if s[i] == c {
			n++
		}
	}
	return n
}

func scenario12(pick []int, join, mh, sh int) *spec.Scenario {
	m := fl("m", nil)
	used := map[string]bool{}
	var ends []string
	for i, b := range pick {
		ends = append(ends, branches12[b].add(m, fmt.Sprint("abc"[i:i+1])))
		used[branches12[b].sub] = true
	}
	if join == 1 {
		m.Tasks = append(m.Tasks, T("J"))
		for _, e := range ends {
			m.Links = append(m.Links, L(e, "J", D))
		}
	} else if len(ends) > 1 { // something after one of them
		m.Tasks = append(m.Tasks, T("Z"))
		m.Links = append(m.Links, L(ends[len(ends)-1], "Z", D))
	}
	m.Out = []spec.Param{{Name: "r", Type: "any"}}
	m.Handler = handlerOf(mh, "H")
	fs := []*spec.FlowDef{m}
	if used["k"] || used["n"] {
		k := fl("k", ls(L("P", "R", D), L("Q", "R", D)), T("P"), T("Q"), T("R"))
		k.Handler = handlerOf(sh, "K")
		k.Out = []spec.Param{{Name: "r", Type: "any"}}
		fs = append(fs, k)
	}
	if used["n"] {
		n := fl("n", ls(L("U", "V", D)), T("U"), T("V"), sub("W", "k"))
		n.Handler = handlerOf(sh, "N")
		n.Out = []spec.Param{{Name: "r", Type: "any"}}
		fs = append(fs, n)
	}
	return one(fs...)
}
