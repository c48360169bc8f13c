package main

import (
	"fmt"

	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C07", Core: true,
		Assume: commonAssume,
		Rule:   "every condition of the family (on the round's index, on the round's output, on both, on data of the flow, constant, failing, not boolean, absent) x every sequence of round outcomes up to the bound x spelling x four activity kinds x accumulation x delay x error link x seven positions; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "up to 3 rounds, every true/false sequence of the condition, one disturbance"
			}
			return "up to 5 rounds, every true/false sequence of the condition, two disturbances, two collection orders"
		},
		Run: func(w *W) {
			max := 3
			if !w.Quick() {
				max = 5
			}
			type cond struct {
				name string
				x    *spec.Expr
				n    int // rounds when undisturbed
				outs []any
			}
			for form := 0; form < 4; form++ {
				if form == 1 {
					continue
				}
				w.loopCases(w.Quick(), func(c loopCase) {
					var conds []cond
					add := func(name string, x *spec.Expr, n int, outs ...any) { conds = append(conds, cond{name, x, n, outs}) }
					for n := 1; n <= max; n++ {
						add(fmt.Sprint("index<", n-1), spec.Lt(spec.Iter("index"), spec.Lit(n-1)), n)
						// the condition is what the round's output says, round by round
						var outs []any
						for i := 1; i < n; i++ {
							outs = append(outs, true)
						}
						outs = append(outs, false)
						if c.act != 1 && c.act != 2 {
							add(fmt.Sprint("out", n), spec.Act("W", "out"), n, outs...)
							add(fmt.Sprint("both", n), spec.And(spec.Lt(spec.Iter("index"), spec.Lit(n)), spec.Act("W", "out")), n, outs...)
						}
						if c.act == 1 { // the subflow returns its index
							add(fmt.Sprint("subout<", n-1), spec.Lt(spec.Act("W", "out"), spec.Lit(n-1)), n)
						}
					}
					add("false", spec.Lit(false), 1)
					add("flow", spec.Lt(spec.Iter("index"), spec.Flow("l")), 3)
					add("fail", spec.Fail(), 1)
					add("text", spec.Lit("maybe"), 1)
					add("none", nil, 1)
					add("zero", spec.Lit(0), 1)
					add("unknown", spec.Act("W", "nosuch"), 1)
					for _, cd := range conds {
						scripts := c.scripts(cd.n)
						if cd.outs != nil { // combine with the scripted outputs
							for i, sc := range scripts {
								var l []spec.Outcome
								at := 0
								for k := 0; at < len(cd.outs) && k < cd.n+2; k++ {
									o := spec.OK
									if k < len(sc) {
										o = sc[k]
									} else if len(sc) > 0 {
										o = sc[len(sc)-1]
									}
									if o.Kind == "ok" || o.Kind == "ret" {
										if !o.NoOut {
											o.Out = cd.outs[at]
										}
										at++
									}
									l = append(l, o)
								}
								scripts[i] = append(l, spec.Outcome{Kind: "ok", Out: false})
							}
						}
						for i, sc := range scripts {
							if cd.x == nil && (form == 3 || c.accum) {
								continue
							}
							ret := c.act == 1
							for _, o := range sc {
								ret = ret || o.Kind == "ret"
							}
							if ret && c.act != 1 && (cd.name == "fail" || cd.name == "text" || cd.name == "unknown") {
								continue // what wins is not defined
							}
							// without an output in the first round the condition cannot be evaluated: an error like any other
							if !w.Next() {
								continue
							}
							t := &spec.Task{ID: "W", Kind: "doWhile", Loop: &spec.Loop{While: cd.x, Form: form}}
							env := []spec.Param{{Name: "l", Type: "any"}}
							s := c.build(t, env)
							s.Inputs["l"] = 2
							if sc != nil {
								s.Script[c.at("W")] = sc
							}
							s.Note = cd.name
							x := X{Key: fmt.Sprint(form, cd.name, c.key(), i), Orders: []string{""}}
							if !w.Quick() {
								x.Orders = nil
							}
							w.Exec(s, x)
						}
					}
				})
			}
		},
	})
}
