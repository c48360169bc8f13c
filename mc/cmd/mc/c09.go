package main

import (
	"fmt"

	"verif.local/vmc/spec"
)

type mp = map[string]any

// exprs is the alphabet of mappings of a task that runs after A.
func exprs09(quick bool) []*spec.Expr {
	a := []*spec.Expr{
		nil,
		spec.Lit("text"), spec.Lit(7), spec.Lit(true), spec.Lit(1.5), spec.Lit(""), spec.Lit("$flow.x"),
		spec.Lit(mp{"k": "=no", "n": 1}), spec.Lit([]any{1, "two", nil}),
		spec.Flow("x"), spec.Flow("y"), spec.Dot("x"), spec.Dot("y"), spec.Flow("z"), spec.Dot("z"), spec.Flow("extra"),
		spec.Act("A", "out"), spec.Act("A", "o2"), spec.Act("A", "zz"), spec.Act("B", "out"), spec.Act("S", "out"), spec.Act("nosuch", "out"),
		spec.Flow("out"), spec.Dot("out"), spec.Flow("A"),
		spec.Path(spec.Act("A", "out"), ".k"), spec.Path(spec.Act("A", "out"), "[\"k\"]"), spec.Path(spec.Act("A", "out"), "[1]"), spec.Path(spec.Path(spec.Act("A", "o2"), ".k"), ".l"),
		spec.Path(spec.Flow("x"), ".k"), spec.Path(spec.Flow("y"), "[0]"),
		spec.Ctx("FlowName"), spec.Ctx("FlowId"), spec.Ctx("ParentFlowName"), spec.Ctx("ParentFlowId"), spec.Ctx("TraceId"), spec.Ctx("SpanId"), spec.Ctx("AppName"), spec.Ctx("nosuch"),
		spec.Obj("p", spec.Act("A", "out"), "q", spec.Lit("lit"), "r", spec.Flow("x")),
		spec.Obj("p", spec.Obj("q", spec.Flow("y"))),
		spec.Eq(spec.Ctx("FlowName"), spec.Lit("m")), spec.And(spec.Lit(true), spec.Eq(spec.Lit(1), spec.Lit(2))),
		spec.Iter("index"), spec.Iter("value"), spec.Fail(),
	}
	_ = quick
	return a
}

func init() {
	register(&Check{
		ID: "C09", Core: true,
		Assume: append([]string{"the expression language itself belongs to project-flogo/core; the alphabet uses what it defines", "a value written by an activity through its scope is flow data"}, commonAssume...),
		Rule:   "family 1: every pair of mappings from the alphabet for the two inputs of a task x every way of giving two flow inputs (one with a default) x every output set of the task before, in four surroundings (chain, iterator, error handler, subflow); family 2: every declared output set x who writes what when x how the flow ends; family 3: declared input types and defaults; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "about 45 mapping expressions, pairs; 2 flow inputs; 7 output sets; up to 3 writers of 3 flow outputs"
			}
			return "about 45 mapping expressions, pairs in all four surroundings; 2 flow inputs; 9 output sets; up to 4 writers of 3 flow outputs; two collection orders"
		},
		Run: func(w *W) {
			w.mappings09()
			w.outputs09()
			w.types09()
		},
	})
}

func (w *W) ord() []string {
	if w.Quick() {
		return []string{""}
	}
	return nil
}

func (w *W) mappings09() {
	al := exprs09(w.Quick())
	outs := []spec.Outcome{
		{Kind: "ok", Out: "str", O2: mp{"k": mp{"l": 5}}},
		{Kind: "ok", Out: mp{"k": "v", "n": nil}},
		{Kind: "ok", Out: []any{1, mp{"z": 2}}, O2: mp{"k": nil}},
		{Kind: "ok", Out: 5, O2: "x", Other: 9},
		{Kind: "ok", NoOut: true},
		{Kind: "ok", NoOut: true, O2: mp{"k": mp{"l": "deep"}}},
		{Kind: "ok", SetAttr: "x", SetVal: "written"},
	}
	if !w.Quick() {
		outs = append(outs, spec.Outcome{Kind: "ok", SetAttr: "z", SetVal: mp{"k": 3}}, spec.Outcome{Kind: "ok", Out: true, Other: mp{"k": 1}})
	}
	type giv struct {
		m    mp
		name string
	}
	gives := []giv{{mp{}, "none"}}
	xs := []any{nil, 8, mp{"k": "xk"}}
	ys := []any{nil, "why", []any{"first"}}
	for i := -1; i < len(xs); i++ {
		for j := -1; j < len(ys); j++ {
			if i < 0 && j < 0 {
				continue
			}
			g := mp{}
			if i >= 0 {
				g["x"] = xs[i]
			}
			if j >= 0 {
				g["y"] = ys[j]
			}
			gives = append(gives, giv{g, fmt.Sprint(i, j)})
		}
	}
	gives = append(gives, giv{mp{"extra": "undeclared", "x": 1}, "extra"})
	for place := 0; place < 5; place++ {
		for ai, a := range al {
			for bi, b := range al {
				if a == nil && b != nil {
					continue
				}
				for oi, o := range outs {
					for gi, g := range gives {
						// all pairs in the chain; elsewhere every third combination with inputs and outputs
						if place > 0 && b != nil && w.Quick() && (gi+oi)%3 > 0 {
							continue
						}
						if !w.Next() {
							continue
						}
						b1 := T("B")
						if a != nil {
							b1.In = append(b1.In, In("a", a))
						}
						if b != nil {
							b1.In = append(b1.In, In("b", b))
						}
						var s *spec.Scenario
						params := []spec.Param{{Name: "x", Type: "any", Def: 5}, {Name: "y", Type: "any"}}
						last := T("C", In("in", spec.Act("B", "out")), In("b", spec.Flow("x")))
						at := "m/A"
						var f *spec.FlowDef
						switch place {
						case 0:
							f = fl("m", ls(L("A", "B", D), L("B", "C", D)), T("A", In("a", spec.Flow("x"))), b1, last)
						case 1: // A is an iterator
							f = fl("m", ls(L("A", "B", D), L("B", "C", D)), iterT("A", 2, In("a", spec.Flow("x"))), b1, last)
						case 2: // B is one
							b1.Kind, b1.Loop = "iterator", &spec.Loop{OverV: []any{"e0", "e1"}}
							f = fl("m", ls(L("A", "B", D), L("B", "C", D)), T("A"), b1, last)
						case 3: // in the error handler
							f = fl("m", ls(L("A", "F", D)), T("A"), T("F"))
							f.Handler = &spec.Body{Tasks: []*spec.Task{b1, last}, Links: ls(L("B", "C", D))}
						case 4: // in a subflow, with the same ids as the caller
							k := fl("k", ls(L("A", "B", D), L("B", "C", D)), T("A"), b1, last)
							k.In = params
							f = fl("m", ls(L("A", "S", D), L("S", "D", D)), T("A"), sub("S", "k"), T("D", In("a", spec.Flow("x"))))
							f.In = append(f.In, spec.Param{Name: "z", Type: "any", Def: "outer"})
							for n := range g.m {
								f.All = nil
								f.Tasks[1].In = append(f.Tasks[1].In, In(n, spec.Lit(g.m[n])))
							}
							at = "k/A"
							s = one(f, k)
						}
						f.In = append(f.In, params...)
						if s == nil {
							s = one(f)
						}
						if place != 4 {
							s.Inputs = g.m
						}
						s.Script[at] = []spec.Outcome{o}
						if place == 3 {
							s.Script["m/F"] = []spec.Outcome{{Kind: "err", Msg: "start the handler"}}
						}
						w.Exec(s.Norm(), X{Key: fmt.Sprint(place, ai, bi, oi, gi), Orders: w.ord()})
					}
				}
			}
		}
	}
}

// outputs09: what the caller gets when the flow ends without a return.
func (w *W) outputs09() {
	names := []string{"o", "p", "x"}
	vals := []any{"v1", 2, mp{"k": 3}}
	nw := 3
	if !w.Quick() {
		nw = 4
	}
	type ev struct{ who, what int }
	whos := []string{"m/A", "m/B", "k/P", "m/H", "m/C"}
	for decl := 0; decl < 8; decl++ {
		for end := 0; end < 5; end++ {
			var rec func(from int, evs []ev)
			rec = func(from int, evs []ev) {
				if w.stop {
					return
				}
				for given := 0; given < 3; given++ {
					if w.Next() {
						k := fl("k", nil, T("P"))
						k.Out = []spec.Param{{Name: "o", Type: "any"}}
						f := fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A"), sub("S", "k"), T("B"), T("C"))
						f.In = []spec.Param{{Name: "x", Type: "any", Def: "dx"}}
						for i, n := range names {
							if decl&(1<<i) != 0 {
								f.Out = append(f.Out, spec.Param{Name: n, Type: "any"})
							}
						}
						s := one(f, k)
						switch end {
						case 1, 2: // ends through the handler
							f.Handler = &spec.Body{Tasks: []*spec.Task{T("H"), T("G")}, Links: ls(L("H", "G", D))}
							if end == 2 {
								f.Links = ls(L("A", "S", D), L("S", "B", D), L("B", "C", D))
							}
						case 3: // fails
						case 4: // a branch that is not taken
							f.Links = ls(LX("A", "S", spec.Lit(false)), L("A", "B", O), L("B", "C", D))
						}
						for _, e := range evs {
							o := spec.Outcome{Kind: "ok", SetAttr: names[e.what], SetVal: vals[(e.who+e.what)%3]}
							s.Script[whos[e.who]] = []spec.Outcome{o}
						}
						if end == 1 || end == 3 {
							o := failOutcome
							if l := s.Script["m/B"]; len(l) > 0 {
								o.SetAttr, o.SetVal = l[0].SetAttr, l[0].SetVal
							}
							s.Script["m/B"] = []spec.Outcome{o}
						}
						if end == 2 {
							o := failOutcome
							if l := s.Script["m/C"]; len(l) > 0 {
								o.SetAttr, o.SetVal = l[0].SetAttr, l[0].SetVal
							}
							s.Script["m/C"] = []spec.Outcome{o}
						}
						switch given {
						case 1:
							s.Inputs = mp{"x": "gx"}
						case 2:
							s.Inputs = mp{"x": nil, "o": "given as input"}
						}
						w.Exec(s.Norm(), X{Key: fmt.Sprint("out", decl, end, evs, given), Orders: w.ord()})
					}
				}
				if len(evs) == nw {
					return
				}
				for who := from; who < len(whos); who++ {
					for what := range names {
						rec(who+1, append(evs[:len(evs):len(evs)], ev{who, what}))
					}
				}
			}
			rec(0, nil)
		}
	}
}

// types09: declared types convert defaults and literals.
func (w *W) types09() {
	type tc struct {
		typ      string
		def, val any
	}
	tcs := []tc{{"string", "s", nil}, {"string", 7, "7"}, {"int", 3, nil}, {"int", "12", 12}, {"bool", "true", true}, {"bool", false, nil},
		{"float64", "1.5", 1.5}, {"object", mp{"a": 1}, nil}, {"object", `{"a":2}`, mp{"a": 2}}, {"array", []any{1, "b"}, nil}, {"any", mp{"q": []any{}}, nil}, {"string", "", nil}, {"int", 0, nil}}
	lits := []struct {
		in       string
		lit, val any
	}{{"s", "x", "x"}, {"s", 7, "7"}, {"s", true, "true"}, {"i", "12", 12}, {"i", 4, 4}, {"i", 5.0, 5}, {"in", "9", "9"}, {"in", 9, 9}}
	for _, c := range tcs {
		for _, given := range []any{nil, "absent", "g", 1} {
			for li, l := range lits {
				if !w.Next() {
					continue
				}
				f := fl("m", ls(L("A", "B", D)), T("A", In("a", spec.Flow("x")), In(l.in, spec.Lit(l.lit))), T("B", In("a", spec.Dot("x")), In("s", spec.Flow("x")), In("b", spec.Act("A", "out"))))
				f.In = []spec.Param{{Name: "x", Type: c.typ, Def: c.def, Val: c.val}}
				f.Out = []spec.Param{{Name: "x", Type: c.typ}}
				s := one(f)
				if given != "absent" {
					s.Inputs["x"] = given
				}
				// the literal as the activity is to see it
				ms := cloneScen(s)
				ms.Flows["m"].Tasks[0].In[1].X = spec.Lit(l.val)
				w.Exec(s.Norm(), X{Model: newModel(ms), Key: fmt.Sprint("typ", c, given, li), Orders: w.ord()})
			}
		}
	}
}
