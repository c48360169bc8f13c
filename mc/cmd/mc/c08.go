package main

import (
	"fmt"

	"verif.local/vmc/spec"
)

// sequences calls f with every sequence over n letters of length l.
func sequences(n, l int, f func(seq []int)) {
	seq := make([]int, l)
	var rec func(i int)
	rec = func(i int) {
		if i == l {
			f(seq)
			return
		}
		for k := 0; k < n; k++ {
			seq[i] = k
			rec(i + 1)
		}
	}
	rec(0)
}

func init() {
	register(&Check{
		ID: "C08", Core: true,
		Assume: append([]string{
			"retry of a subflow task is decided for retriable and plain errors only (the code retries a subflow on every coded error, the documentation does not say)",
			"the budget of a looping task is decided while its rounds together need no more than the configured count"}, commonAssume...),
		Rule: "every sequence of attempt outcomes (success, retriable, coded, plain error, panic, success after writing flow data) up to the bound x count x interval spellings x task shapes (plain, error link, error handler, in subflow, subflow task, iterator, do-while, beside others); inputs read flow data that attempts change; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "up to 5 attempts, counts -1..3, 7 interval spellings"
			}
			return "up to 7 attempts, counts -1..5, 9 interval spellings, two collection orders"
		},
		Run: func(w *W) {
			max := 5
			if !w.Quick() {
				max = 7
			}
			kinds := []spec.Outcome{{Kind: "ok"}, {Kind: "retri", Msg: "again", Code: "R"}, {Kind: "coded", Msg: "coded boom", Code: "C", Data: "d"}, {Kind: "err", Msg: "boom"}, {Kind: "panic", Msg: "panic boom"}}
			counts := []*spec.Expr{nil, spec.Lit(0), spec.Lit(1), spec.Lit(2), spec.Lit(3), spec.Lit(-1), spec.Lit("2"), spec.Flow("n"), spec.Fail()}
			if !w.Quick() {
				counts = append(counts, spec.Lit(4), spec.Lit(5), spec.Lit(2.0), spec.Act("A", "out"))
			}
			intervals := []*spec.Expr{nil, spec.Lit(0), spec.Lit(5), spec.Lit("7"), spec.Flow("i"), spec.Fail()}
			if !w.Quick() {
				intervals = append(intervals, spec.Lit(1000000), spec.Lit(-3))
			}
			shapes := 10
			for shape := 0; shape < shapes; shape++ {
				for ci, cnt := range counts {
					for ii, itv := range intervals {
						if w.Quick() && ci > 4 && ii > 2 {
							continue
						}
						if cnt != nil && cnt.Op == "act" && shape != 1 {
							continue
						}
						for l := 1; l <= max; l++ {
							sequences(len(kinds), l, func(seq []int) {
								// only the last may end the task
								for _, k := range seq[:l-1] {
									if k != 1 && !(k == 0 && (shape == 6 || shape == 7)) {
										return
									}
								}
								if l < max && seq[l-1] == 1 && !(shape == 6 || shape == 7) {
									return // same as the longer one
								}
								if shape == 5 && seq[l-1] == 2 {
									return
								}
								if shape == 6 || shape == 7 {
									n, run := 0, 0
									for _, k := range seq {
										if k == 1 {
											n++
											run = 1
										} else if k == 0 && run == 1 {
											run = 2
										}
									}
									limit := 0
									switch ci {
									case 2:
										limit = 1
									case 3, 6, 7:
										limit = 2
									case 4:
										limit = 3
									}
									if n > limit && run == 2 {
										return
									}
								}
								if !w.Next() {
									return
								}
								var sc []spec.Outcome
								for i, k := range seq {
									o := kinds[k]
									if o.Msg != "" {
										o.Msg += fmt.Sprint(" ", i)
									}
									o.SetAttr, o.SetVal = "x", i+1
									sc = append(sc, o)
								}
								if seq[l-1] == 1 && (shape == 6 || shape == 7) {
									sc = append(sc, spec.OK)
								}
								r := &spec.Task{ID: "R", Retry: &spec.Retry{Count: cnt, Interval: itv}, In: []spec.Map{In("a", spec.Flow("x")), In("s", spec.Lit("c"))}}
								env := []spec.Param{{Name: "x", Type: "any", Def: 0}, {Name: "n", Type: "any", Def: 2}, {Name: "i", Type: "any", Def: "11"}}
								at := "m/R"
								var s *spec.Scenario
								switch shape {
								case 0:
									s = one(fl("m", nil, r))
								case 1:
									s = one(fl("m", ls(L("A", "R", D), L("R", "B", D), L("R", "X", E)), T("A"), r, T("B", In("a", spec.Act("R", "out"))), T("X", In("in", errObjX("R")))))
									s.Script["m/A"] = []spec.Outcome{{Kind: "ok", Out: 2}}
								case 2:
									f := fl("m", ls(L("R", "B", D)), r, T("B"), T("C"))
									f.Handler = &spec.Body{Tasks: []*spec.Task{T("H", In("in", errObjX("")))}}
									s = one(f)
								case 3:
									f := fl("m", nil, T("F"))
									f.Handler = &spec.Body{Tasks: []*spec.Task{r, T("H")}, Links: ls(L("R", "H", D))}
									s = one(f)
									s.Script["m/F"] = []spec.Outcome{{Kind: "err", Msg: "start the handler"}}
								case 4:
									k := fl("k", ls(L("R", "Q", D)), r, T("Q"))
									k.In = env
									s = one(fl("m", ls(L("S", "B", D), L("S", "X", E)), sub("S", "k", In("x", spec.Lit(0)), In("n", spec.Lit(2)), In("i", spec.Lit(11))), T("B"), T("X")), k)
									at = "k/R"
								case 5: // the subflow task retries
									k := fl("k", ls(L("P", "Q", D)), T("P", In("a", spec.Flow("x"))), T("Q"))
									k.In = []spec.Param{{Name: "x", Type: "any"}}
									r.Sub = "k"
									r.In = []spec.Map{In("x", spec.Flow("x"))}
									s = one(fl("m", ls(L("R", "B", D), L("R", "X", E)), r, T("B"), T("X")), k)
									for i := range sc {
										sc[i].SetAttr = ""
									}
									at = "*k/P"
								case 6:
									r.Kind, r.Loop = "iterator", &spec.Loop{OverV: 2, Delay: 1}
									r.In = append(r.In, In("b", spec.Iter("index")))
									s = one(fl("m", ls(L("R", "B", D), L("R", "X", E)), r, T("B"), T("X")))
								case 7:
									r.Kind, r.Loop = "doWhile", &spec.Loop{While: spec.Lt(spec.Iter("index"), spec.Lit(1))}
									r.In = append(r.In, In("b", spec.Iter("index")))
									s = one(fl("m", ls(L("R", "B", D), L("R", "X", E)), r, T("B"), T("X")))
								case 8:
									s = one(fl("m", ls(L("R", "J", D), L("C", "J", D)), r, retryT("C", 1), T("J")))
									s.Script["m/C"] = []spec.Outcome{{Kind: "retri", Msg: "C again", Code: "R"}, spec.OK}
								case 9: // no retry setting
									r.Retry = nil
									if ci > 0 || ii > 0 || l > 1 {
										return
									}
									s = one(fl("m", ls(L("R", "B", D), L("R", "X", E)), r, T("B"), T("X")))
								}
								s.Flows["m"].In = env
								s.Script[at] = sc
								x := X{Key: fmt.Sprint(shape, ci, ii), Orders: []string{""}}
								if !w.Quick() {
									x.Orders = nil
								}
								w.Exec(s.Norm(), x)
							})
						}
					}
				}
			}
			w.loopSubRetry()
		},
	})
}

// loopSubRetry: retry of a subflow in a loop.
func (w *W) loopSubRetry() {
	for _, kind := range []string{"iterator", "doWhile"} {
		if w.C.ID != "C08" { // known findings
			break
		}
		if !w.Next() {
			continue
		}
		r := iterT("R", 2)
		if kind == "doWhile" {
			r = whileT("R", 2)
		}
		r.Retry = &spec.Retry{Count: spec.Lit(1), Interval: spec.Lit(0)}
		r.Sub = "k"
		s := one(fl("m", nil, r), fl("k", nil, T("P")))
		s.Script["k/P"] = []spec.Outcome{{Kind: "retri", Msg: "again", Code: "R"}}
		w.Exec(s.Norm(), X{Orders: []string{""}, Name: kind + "-subflow-retry"})
	}
}
