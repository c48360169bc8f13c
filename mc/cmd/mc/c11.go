package main

import (
	"fmt"
	"os"

	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C11", Core: true,
		Configs: func(tier string) []Conf { return []Conf{{Name: "plain"}, {Name: "files"}} },
		Assume: append([]string{
			"a subflow exposes to its caller what it explicitly returned under a declared output name; every declared input is set in the subflow, to nil when it is not mapped",
			"an error returned explicitly inside a subflow is left open (the code ignores it)"}, commonAssume...),
		Rule: "call structure (one call, two in a row, two at once, nested, nested and at once, recursive, in a loop, in the error handler, with retry) x mapped inputs x what the called flow does and how it ends x handlers and error links around it x every set of faults up to the bound; caller and called flow use the same task ids and data names; and the same flows found by URI in files, one of which is missing or malformed in the first run, is there in the second, and gone in the third; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "nesting up to 3, up to 4 calls per run, 7 input mappings, 16 endings, one fault; in files: 7 mappings x 2 endings x each flow missing or malformed"
			}
			return "nesting up to 4, up to 6 calls per run, 7 input mappings, 16 endings, two faults, two collection orders; in files: 7 mappings x 6 endings x each flow missing or malformed"
		},
		Run: func(w *W) {
			if w.Conf.Name == "files" {
				w.files11()
				return
			}
			maxF := 1
			if !w.Quick() {
				maxF = 2
			}
			for shape := 0; shape < 11; shape++ {
				for in := 0; in < 7; in++ {
					for end := 0; end < 16; end++ {
						for around := 0; around < 3; around++ {
							for nh := 0; nh < 2; nh++ {
								mk := func() *spec.Scenario { return w.scenario11(shape, in, end, around, nh) }
								f := maxF
								if in > 1 && end > 3 {
									f--
								}
								w.withFaults(mk, "emlsr", f, func(s *spec.Scenario, key string) {
									w.Exec(s, X{Key: fmt.Sprint(shape, in, end, around, nh, key), Orders: w.ord()})
								})
							}
						}
					}
				}
			}
		},
	})
}

// files11: flows that are found by URI in files.
func (w *W) files11() {
	dir, err := os.MkdirTemp("", "mc-c11-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ends := []int{0, 1}
	if !w.Quick() {
		ends = []int{0, 1, 3, 5, 7, 10}
	}
	for shape := 0; shape < 11; shape++ {
		for in := 0; in < 7; in++ {
			for _, end := range ends {
				for around := 0; around < 3; around++ {
					for _, bad := range w.scenario11(shape, in, end, around, 0).FlowNames() {
						for state := 0; state < 2; state++ {
							if !w.Next() {
								continue
							}
							w.file11(dir, shape, in, end, around, bad, state)
						}
					}
				}
			}
		}
	}
}

func (w *W) file11(dir string, shape, in, end, around int, bad string, state int) {
	base := fmt.Sprint(dir, "/", w.unit)
	rig.URI = func(n string) string { return "file://" + base + n + ".json" }
	defer func() { rig.URI = nil }()
	s := w.scenario11(shape, in, end, around, 0).Norm()
	write := func(n string) {
		if err := os.WriteFile(base+n+".json", rig.FlowJSON(s.Flows[n]), 0o600); err != nil {
			panic(err)
		}
	}
	for _, n := range s.FlowNames() {
		if n != bad {
			write(n)
		} else if state == 1 {
			if err := os.WriteFile(base+n+".json", []byte(`{"name":`), 0o600); err != nil {
				panic(err)
			}
		}
	}
	b, err := rig.NewAction(rig.URI(s.Main))
	if (err != nil) != (bad == s.Main) {
		w.Violate("file-action", fmt.Sprintf("a flow in a file that is good: %v; error %v", bad != s.Main, err), s)
		return
	}
	x := X{Key: fmt.Sprint("files", shape, in, end, around, bad, state), Orders: []string{""}}
	if bad != s.Main {
		s1 := w.scenario11(shape, in, end, around, 0)
		for _, n := range s1.FlowNames() {
			for _, t := range s1.Flows[n].Tasks {
				t.BadSub = t.BadSub || t.Sub == bad
			}
			if h := s1.Flows[n].Handler; h != nil {
				for _, t := range h.Tasks {
					t.BadSub = t.BadSub || t.Sub == bad
				}
			}
		}
		if !w.ExecB(b, s1.Norm(), x) {
			return
		}
	}
	write(bad)
	if bad == s.Main {
		if b, err = rig.NewAction(rig.URI(s.Main)); err != nil {
			w.Violate("file-action", "a flow that could not be loaded at first is not found later: "+err.Error(), s)
			return
		}
	}
	x.Key += "good"
	if !w.ExecB(b, s, x) {
		return
	}
	for _, n := range s.FlowNames() {
		os.Remove(base + n + ".json")
	}
	x.Key += "gone"
	w.ExecB(b, s, x)
}

func (w *W) scenario11(shape, in, end, around, nh int) *spec.Scenario {
	var ins []spec.Map
	switch in {
	case 0:
	case 1:
		ins = []spec.Map{In("x", spec.Flow("x")), In("y", spec.Lit("yy"))}
	case 2:
		ins = []spec.Map{In("y", spec.Act("A", "out"))}
	case 3:
		ins = []spec.Map{In("x", spec.Flow("o")), In("zz", spec.Lit("undeclared"))}
	case 4:
		ins = []spec.Map{In("x", spec.Obj("k", spec.Flow("x"), "l", spec.Lit(1)))}
	case 5:
		ins = []spec.Map{In("x", spec.Lit([]any{1, mp{"a": "b"}}))}
	case 6:
		ins = []spec.Map{In("x", spec.Ctx("FlowId")), In("y", spec.Flow("x"))}
	}
	if shape == 7 { // recursion
		ins = append(ins, In("d", spec.Lit(0)))
	}
	see := spec.Obj("x", spec.Flow("x"), "y", spec.Flow("y"), "n", spec.Ctx("FlowName"), "pn", spec.Ctx("ParentFlowName"), "id", spec.Ctx("FlowId"), "pid", spec.Ctx("ParentFlowId"))
	// the called flow: same ids as in the caller
	k := fl("k", ls(L("A", "R", D), L("R", "C", D)), T("A", In("a", see)), T("R", In("in", spec.Flow("x")), In("b", spec.Act("A", "out"))), T("C"))
	k.In = []spec.Param{{Name: "x", Type: "any", Def: "dx"}, {Name: "y", Type: "any"}, {Name: "d", Type: "any", Def: 0}}
	k.Out = []spec.Param{{Name: "o", Type: "any"}, {Name: "p", Type: "any"}}
	var r spec.Outcome
	switch end {
	case 0:
		r = spec.OK
	case 1:
		r = spec.Outcome{Kind: "ret", Ret: mp{"o": "ov", "p": 2}}
	case 2:
		r = spec.Outcome{Kind: "ret", RetIn: "o"}
	case 3:
		r = spec.Outcome{Kind: "err", Msg: "sub boom"}
	case 4:
		r = spec.Outcome{Kind: "ret", Ret: mp{"p": mp{"deep": []any{1}}}}
	case 5:
		r = spec.Outcome{Kind: "ret", Ret: mp{"o": 1, "q": "undeclared"}}
	case 6:
		r = spec.Outcome{Kind: "ret"}
	case 7:
		r = spec.Outcome{Kind: "coded", Msg: "sub coded", Code: "S1", Data: mp{"z": 1}}
		if shape == 9 { // whether a coded error is retried is left open
			r.Kind = "retri"
		}
	case 8:
		r = spec.Outcome{Kind: "panic", Msg: "sub panic"}
	case 9: // writes data named like the caller's
		r = spec.Outcome{Kind: "ok", SetAttr: "x", SetVal: "changed in k"}
	case 10: // its own handler completes it
		r = spec.Outcome{Kind: "err", Msg: "sub boom"}
		k.Handler = &spec.Body{Tasks: []*spec.Task{T("H", In("a", errObjX("")), In("b", spec.Flow("x")))}}
	case 11: // its own handler returns
		r = spec.Outcome{Kind: "err", Msg: "sub boom"}
		k.Handler = &spec.Body{Tasks: []*spec.Task{T("H"), T("H2")}, Links: ls(L("H", "H2", D))}
	case 12: // its own handler fails
		r = spec.Outcome{Kind: "err", Msg: "sub boom"}
		k.Handler = &spec.Body{Tasks: []*spec.Task{T("H")}}
	case 14, 15: // fails the first time only
		r = spec.Outcome{Kind: "retri", Msg: "at first", Code: "S1"}
	case 13: // returns at its first task
		r = spec.OK
	}
	// what the caller does after a call
	seeOut := func(id string) []spec.Map {
		switch end {
		case 1, 15:
			return []spec.Map{In("a", spec.Act(id, "o")), In("b", spec.Act(id, "p")), In("in", spec.Flow("x"))}
		case 2, 5:
			return []spec.Map{In("a", spec.Act(id, "o")), In("in", spec.Flow("x"))}
		case 4:
			return []spec.Map{In("b", spec.Act(id, "p")), In("in", spec.Act("A", "out"))}
		case 6:
			return []spec.Map{In("b", spec.Act(id, "p"))} // not there: fails
		case 11, 13:
			return []spec.Map{In("b", spec.Act(id, "p")), In("in", spec.Flow("y"))}
		}
		return []spec.Map{In("a", spec.Flow("x")), In("in", spec.Act("A", "out"))}
	}
	var m *spec.FlowDef
	var more []*spec.FlowDef
	S := func(id string) *spec.Task { return sub(id, "k", ins...) }
	switch shape {
	case 0:
		m = fl("m", ls(L("A", "S", D), L("S", "B", D), L("B", "C", D)), T("A"), S("S"), T("B", seeOut("S")...), T("C"))
	case 1: // two in a row
		m = fl("m", ls(L("A", "S", D), L("S", "B", D), L("B", "U", D), L("U", "C", D)), T("A"), S("S"), T("B", seeOut("S")...), S("U"), T("C", seeOut("U")...))
	case 2: // two at once
		m = fl("m", ls(L("A", "S", D), L("A", "U", D), L("S", "B", D), L("U", "B", D), L("U", "C", D)), T("A"), S("S"), S("U"), T("B", seeOut("S")...), T("C", seeOut("U")...))
	case 3, 4, 5: // through a flow in between
		n := fl("n", ls(L("A", "S", D), L("S", "B", D)), T("A", In("a", spec.Flow("x"))), S("S"), T("B", seeOut("S")...))
		n.In = []spec.Param{{Name: "x", Type: "any", Def: "nx"}, {Name: "y", Type: "any"}, {Name: "o", Type: "any", Def: "no"}}
		n.Out = k.Out
		more = append(more, n)
		switch shape {
		case 3:
			m = fl("m", ls(L("A", "N", D), L("N", "B", D)), T("A"), sub("N", "n", In("x", spec.Lit("to n"))), T("B", In("a", spec.Flow("x"))))
		case 4: // and directly, at once
			m = fl("m", ls(L("A", "N", D), L("A", "S", D), L("N", "J", D), L("S", "J", D)), T("A"), sub("N", "n"), S("S"), T("J", seeOut("S")...))
		case 5: // twice through it
			m = fl("m", ls(L("A", "N", D), L("A", "N2", D), L("N", "J", D), L("N2", "J", D)), T("A"), sub("N", "n"), sub("N2", "n", In("x", spec.Lit(2))), T("J"))
		}
	case 6: // loop
		i := iterT("S", 2, append([]spec.Map{In("d", spec.Iter("index"))}, ins...)...)
		i.Sub = "k"
		k.Tasks[0].In = append(k.Tasks[0].In, In("b", spec.Flow("d")))
		m = fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A"), i, T("B", seeOut("S")...))
	case 7: // recursion
		depth := 2
		if !w.Quick() {
			depth = 3
		}
		k.Tasks = append(k.Tasks, T("G"), sub("K", "k", In("d", spec.Act("G", "out")), In("x", spec.Flow("d"))), T("Z"))
		k.Links = append(k.Links, LX("A", "G", spec.Lt(spec.Flow("d"), spec.Lit(depth-1))), L("G", "K", D), L("K", "Z", D))
		m = fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A"), S("S"), T("B", seeOut("S")...))
	case 8: // in the error handler
		m = fl("m", nil, T("A"), T("F"))
		m.Links = ls(L("A", "F", D))
		m.Handler = &spec.Body{Tasks: []*spec.Task{S("S"), T("B", seeOut("S")...)}, Links: ls(L("S", "B", D))}
	case 9: // retry
		s := S("S")
		s.Retry = &spec.Retry{Count: spec.Lit(1), Interval: spec.Lit(3)}
		m = fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A"), s, T("B", seeOut("S")...))
	case 10: // do-while
		i := whileT("S", 2, append([]spec.Map{In("d", spec.Iter("index"))}, ins...)...)
		i.Sub = "k"
		m = fl("m", ls(L("A", "S", D), L("A", "U", D), L("S", "B", D), L("U", "B", D)), T("A"), i, S("U"), T("B", seeOut("S")...))
	}
	m.In = []spec.Param{{Name: "x", Type: "any", Def: "mx"}, {Name: "y", Type: "any", Def: "my"}, {Name: "o", Type: "any", Def: "mo"}}
	m.Out = []spec.Param{{Name: "x", Type: "any"}, {Name: "o", Type: "any"}, {Name: "p", Type: "any"}}
	if around > 0 && shape != 8 {
		// error link of the call, or the caller's handler
		if around == 1 {
			to := "X"
			m.Tasks = append(m.Tasks, T(to, In("a", errObjX("S")), In("b", spec.Flow("x"))))
			from := "S"
			if shape == 3 || shape == 5 {
				from = "N"
				m.Tasks[len(m.Tasks)-1].In[0].X = errObjX("N")
			}
			m.Links = append(m.Links, L(from, to, E))
		} else {
			m.Handler = &spec.Body{Tasks: []*spec.Task{T("MH", In("a", errObjX("")))}}
		}
	}
	fs := append([]*spec.FlowDef{m, k}, more...)
	if nh > 0 {
		if len(more) > 0 {
			more[0].Handler = &spec.Body{Tasks: []*spec.Task{T("NH", In("a", errObjX("")))}}
		} else {
			// the returning task waits for two branches of the called flow
			k.Tasks = append(k.Tasks, T("P"))
			k.Links = append(k.Links, L("A", "P", D), L("P", "R", D))
		}
	}
	s := one(fs...)
	if shape == 8 {
		s.Script["m/F"] = []spec.Outcome{{Kind: "err", Msg: "start the handler"}}
	}
	if shape == 7 {
		for d := 1; d < 4; d++ {
			s.Script["*k/G"] = append(s.Script["*k/G"], spec.Outcome{Kind: "ok", Out: d})
		}
	}
	if end == 11 {
		s.Script["k/H"] = []spec.Outcome{{Kind: "ret", Ret: mp{"p": "from handler"}}}
	}
	if end == 12 {
		s.Script["k/H"] = []spec.Outcome{{Kind: "err", Msg: "handler boom"}}
	}
	if end == 13 {
		s.Script["k/A"] = []spec.Outcome{{Kind: "ret", Ret: mp{"p": "early"}}}
	}
	if r.Kind != "ok" || r.SetAttr != "" {
		s.Script["k/R"] = []spec.Outcome{r}
	}
	switch end {
	case 14:
		delete(s.Script, "k/R")
		s.Script["*k/R"] = []spec.Outcome{r, spec.OK}
	case 15:
		delete(s.Script, "k/R")
		s.Script["*k/R"] = []spec.Outcome{r, {Kind: "ret", Ret: mp{"o": "second", "p": 2}}}
	}
	return s
}
