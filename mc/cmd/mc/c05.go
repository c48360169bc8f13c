package main

import "verif.local/vmc/spec"

// errObjX maps everything the error data offers.
func errObjX(at string) *spec.Expr {
	g := spec.ErrF
	if at != "" {
		g = func(f string) *spec.Expr { return spec.ErrAt(at, f) }
	}
	return spec.Obj("activity", g("activity"), "message", g("message"), "type", g("type"), "code", g("code"), "data", g("data"))
}

// seeErrors lets every handler task and every error branch read the error data.
func seeErrors(s *spec.Scenario) *spec.Scenario {
	for _, fn := range s.FlowNames() {
		f := s.Flows[fn]
		for i, t := range f.All {
			if f.InHandler(i) {
				t.In = append(t.In, In("a", errObjX("")))
			}
			for _, l := range t.In_ {
				if lk := f.LAll[l]; lk.Kind == spec.Error && len(t.In_) == 1 {
					t.In = append(t.In, In("in", errObjX(lk.From)))
				}
			}
		}
	}
	return s
}

var structures05 = []structure{
	{"error link chain", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "X", E), L("X", "Y", E), L("A", "B", D)), T("A"), T("X"), T("Y"), T("B"))}
	}},
	{"three parallel", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "J", D), L("B", "J", D), L("C", "Y", D)), T("A"), T("B"), T("C"), T("J"), T("Y"))}
	}},
	{"retry then fail", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "R", D), L("R", "B", D)), T("A"), retryT("R", 2), T("B"))}
	}},
	{"loop in parallel", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("I", "B", D)), T("A"), iterT("I", 2), T("B"))}
	}},
	{"while in sub", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D)), sub("S", "k"), T("B"), T("C")),
			fl("k", ls(L("W", "Q", D)), whileT("W", 2), T("P"), T("Q"))}
	}},
	{"sub in branch", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "S", B), L("A", "B", D), L("S", "J", D), L("B", "J", D), L("S", "X", E)), T("A"), sub("S", "k"), T("B"), T("J"), T("X")),
			fl("k", nil, T("P"), T("Q"))}
	}},
	{"retried sub", func() []*spec.FlowDef {
		s := sub("S", "k")
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D)), s, T("B")),
			fl("k", ls(L("P", "Q", D)), retryT("P", 1), T("Q"))}
	}},
	{"three levels", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "X", E)), sub("S", "k"), T("A"), T("X")),
			fl("k", ls(L("N", "Q", D)), sub("N", "n"), T("P"), T("Q")),
			fl("n", ls(L("U", "V", D)), T("U"), T("V"))}
	}},
}

// handler05: richer handlers; kinds above 4.
func handler05(kind int, p string) *spec.Body {
	id := func(k string) string { return p + k }
	switch kind {
	case 5: // branches on the error data
		return &spec.Body{Tasks: []*spec.Task{T(id("1")), T(id("2")), T(id("3")), T(id("4"))},
			Links: ls(LX(id("1"), id("2"), spec.Eq(spec.ErrF("code"), spec.Lit("E7"))), LX(id("1"), id("3"), spec.Eq(spec.ErrF("code"), spec.Lit("R1"))), L(id("1"), id("4"), O))}
	case 6: // error branch and join in the handler
		return &spec.Body{Tasks: []*spec.Task{T(id("1")), T(id("2")), T(id("3")), T(id("4"))},
			Links: ls(L(id("1"), id("2"), E), L(id("1"), id("3"), D), L(id("2"), id("4"), D), L(id("3"), id("4"), D))}
	case 7: // loops
		return &spec.Body{Tasks: []*spec.Task{iterT(id("1"), 2), whileT(id("2"), 2), T(id("3"))},
			Links: ls(L(id("1"), id("2"), D), L(id("2"), id("3"), D))}
	case 8: // a subflow
		return &spec.Body{Tasks: []*spec.Task{sub(id("1"), "h", In("x", spec.ErrF("message"))), T(id("2"))}, Links: ls(L(id("1"), id("2"), D))}
	case 9: // retry
		return &spec.Body{Tasks: []*spec.Task{retryT(id("1"), 1), T(id("2"))}, Links: ls(L(id("1"), id("2"), E))}
	}
	return handlerOf(kind, p)
}

func scenario05(st structure, mainH, subH int) *spec.Scenario {
	fs := st.mk()
	fs[0].Handler = handler05(mainH, "H")
	for i, f := range fs[1:] {
		f.Handler = handler05(subH, string(rune('K'+2*i)))
	}
	if mainH == 8 || (subH == 8 && len(fs) > 1) {
		h := fl("h", ls(L("hA", "hB", D)), T("hA", In("a", spec.Flow("x"))), T("hB"))
		h.In = []spec.Param{{Name: "x", Type: "any"}}
		fs = append(fs, h)
	}
	return seeErrors(one(fs...)).Norm()
}

func init() {
	register(&Check{
		ID: "C05", Core: true,
		Assume: commonAssume,
		Rule:   "27 flow structures x error handlers (none, single, chain, error branch, parallel, branching on error data, join, loops, subflow, retry) of main and subflows x every set of at most k faults; every handler task and every error branch reads the whole error data; distinct by scenario and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2; 10 main handlers x 3 subflow handlers (none, single, error branch)"
			}
			return "k=2 for 10 main handlers x 10 subflow handlers with two collection orders, k=3 for {none,1 task} handlers"
		},
		Run: func(w *W) {
			kinds := "ecpmMil"
			if !w.Quick() {
				kinds = "ecprmMiItsblL"
			}
			for _, st := range append(structures[:len(structures):len(structures)], structures05...) {
				hasSub := len(st.mk()) > 1
				for mh := 0; mh <= 9; mh++ {
					for sh := 0; sh <= 9; sh++ {
						if sh > 0 && !hasSub {
							break
						}
						if w.Quick() && sh != 0 && sh != 1 && sh != 6 {
							continue
						}
						k := 2
						if w.Quick() && mh > 1 && sh > 1 {
							k = 1
						}
						if !w.Quick() && mh <= 1 && sh <= 1 {
							k = 3
						}
						w.withFaults(func() *spec.Scenario { return scenario05(st, mh, sh) }, kinds, k, func(s *spec.Scenario, key string) {
							or := []string{""}
							if !w.Quick() {
								or = nil
							}
							w.Exec(s, X{Orders: or, Key: st.name + key})
						})
					}
				}
			}
		},
	})
}
