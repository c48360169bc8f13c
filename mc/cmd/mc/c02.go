package main

import (
	"fmt"
	"strings"

	"verif.local/vmc/spec"
)

// linkLetters are the kinds a link of the source task can have in C02.
type linkLetter struct {
	c    byte
	kind string
	x    *spec.Expr
	fail bool
}

var c02Letters = []linkLetter{
	{'d', spec.Dep, nil, false},
	{'l', spec.Label, nil, false},
	{'o', spec.Otherw, nil, false},
	{'e', spec.Error, nil, false},
	{'T', spec.XExpr, spec.Lit(true), false},
	{'F', spec.XExpr, spec.Lit(false), false},
	{'A', spec.XExpr, spec.Eq(spec.Act("S", "out"), spec.Lit("yes")), false}, // data of the source task
	{'W', spec.XExpr, spec.Eq(spec.Flow("w"), spec.Lit("set")), false},       // flow attribute the source writes
	{'1', spec.XExpr, spec.Lit(1), false},
	{'0', spec.XExpr, spec.Lit(0), false},
	{'s', spec.XExpr, spec.Lit("true"), false},
	{'x', spec.XExpr, spec.Fail(), true},
	{'p', spec.XExpr, spec.Panic(), true},
	{'u', spec.XExpr, spec.Eq(spec.Flow("nosuch"), spec.Lit(1)), true},
	{'q', spec.XExpr, spec.Lit("maybe"), true}, // not a boolean
}

// sequences of letters of length n with at most one otherwise.
func letterSeqs(letters []linkLetter, n int, f func(seq []linkLetter)) {
	seq := make([]linkLetter, n)
	var rec func(k, ow int)
	rec = func(k, ow int) {
		if k == n {
			f(seq)
			return
		}
		for _, l := range letters {
			o := ow
			if l.c == 'o' {
				o++
				if o > 1 {
					continue
				}
			}
			seq[k] = l
			rec(k+1, o)
		}
	}
	rec(0, 0)
}

func c02(w *W, letters []linkLetter, n int, places []string, handlers bool) {
	outs := []spec.Outcome{
		{Kind: "ok", Out: "yes", SetAttr: "w", SetVal: "set"},
		{Kind: "ok", Out: "no"},
		failOutcome,
	}
	for _, place := range places {
		letterSeqs(letters, n, func(seq []linkLetter) {
			if !w.Next() {
				return
			}
			key := place
			var body spec.Body
			body.Tasks = []*spec.Task{T("S")}
			for i, l := range seq {
				t := fmt.Sprintf("T%d", i)
				body.Tasks = append(body.Tasks, T(t))
				lk := L("S", t, l.kind)
				lk.X = l.x
				body.Links = append(body.Links, lk)
				key += string(l.c)
			}
			var s *spec.Scenario
			switch place {
			case "main", "mainh":
				f := &spec.FlowDef{Name: "g", Body: body, In: []spec.Param{{Name: "w", Type: "string"}}}
				if place == "mainh" {
					f.Handler = &spec.Body{Tasks: []*spec.Task{T("H")}}
				}
				s = one(f)
			case "handler":
				f := &spec.FlowDef{Name: "g", In: []spec.Param{{Name: "w", Type: "string"}}}
				f.Tasks = []*spec.Task{T("B0"), T("B1")}
				f.Links = []*spec.Link{L("B0", "B1", spec.Dep)}
				f.Handler = &body
				s = one(f)
			case "sub":
				f := &spec.FlowDef{Name: "g", Body: body, In: []spec.Param{{Name: "w", Type: "string"}}}
				p := &spec.FlowDef{Name: "p"}
				p.Tasks = []*spec.Task{sub("C", "g"), T("Z"), T("Y")}
				p.Links = []*spec.Link{L("C", "Z", spec.Dep), L("C", "Y", spec.Error)}
				s = one(p, f)
			}
			if place == "sub" {
				// unmapped subflow inputs are set to nil: give the one that is read
				s.Flows["p"].Tasks[0].In = []spec.Map{In("w", spec.Lit("unset"))}
				s.Norm()
			} else {
				s.Inputs["w"] = "unset"
			}
			for oi, o := range outs {
				if oi == 1 && !strings.ContainsAny(key[len(place):], "AW") {
					continue
				}
				s.Script = map[string][]spec.Outcome{"g/S": {o}}
				if place == "handler" {
					s.Script["g/B0"] = []spec.Outcome{{Kind: "err", Msg: "start handler"}}
				}
				w.Exec(s, X{Explore: true, Key: fmt.Sprint(key, oi), Orders: []string{""}})
			}
		})
	}
}

func init() {
	register(&Check{
		ID: "C02", Core: true,
		Assume: commonAssume,
		Rule:   "every sequence of outgoing links of a task over 15 link letters (kinds x condition results) x source outcome x place (main, main with handler, handler, subflow); non-trivial: at least one link, distinct by scenario and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "up to 3 links over the full alphabet, 4 links over {dep,label,otherwise,error,T,F,fails}, in four places; all graphs of 3 tasks"
			}
			return "up to 4 links over the full alphabet in four places, 5 links over {dep,label,otherwise,error,T,F,fails}; all graphs of 4 tasks over {none,dep,T,F,otherwise,error}"
		},
		Run: func(w *W) {
			var small []linkLetter
			for _, l := range c02Letters {
				if strings.IndexByte("dloeTFx", l.c) >= 0 {
					small = append(small, l)
				}
			}
			places := []string{"main", "mainh", "handler", "sub"}
			for n := 1; n <= 3; n++ {
				c02(w, c02Letters, n, places, false)
			}
			w.runGraphs(graphOpt{n: 3, alphabet: "-dtfeol", handlers: []int{1}, revs: []bool{false}, fails: allMasks})
			if w.Quick() {
				c02(w, small, 4, []string{"main"}, false)
				return
			}
			c02(w, c02Letters, 4, places, false)
			c02(w, small, 5, places, false)
			w.runGraphs(graphOpt{n: 4, alphabet: "-dtfeo", filter: oneOtherwise, handlers: []int{0}, revs: []bool{false}, fails: maxOneFail})
		},
	})
}
