package main

import (
	"fmt"

	"verif.local/vmc/spec"
)

type iterable struct {
	name string
	v    any // value
	lit  bool
	n    int // number of elements
}

func iterables(max int) []iterable {
	var out []iterable
	add := func(name string, v any, lit bool, n int) { out = append(out, iterable{name, v, lit, n}) }
	strs := []any{"x", "y", "z", "u", "w"}
	ks := []string{"ka", "kb", "kc", "kd", "ke"}
	for n := 0; n <= max; n++ {
		add(fmt.Sprint("int", n), n, true, n)
		add(fmt.Sprint("str", n), fmt.Sprint(n), true, n)
		add(fmt.Sprint("float", n), float64(n), true, n)
		add(fmt.Sprint("int64-", n), int64(n), false, n)
		arr := []any{}
		for i := 0; i < n; i++ {
			arr = append(arr, strs[i])
		}
		add(fmt.Sprint("array", n), arr, true, n)
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[ks[i]] = strs[i]
		}
		add(fmt.Sprint("object", n), m, true, n)
		ss, is, ms := []string{}, []int{}, []map[string]any{}
		for i := 0; i < n; i++ {
			ss, is, ms = append(ss, ks[i]), append(is, 7-i), append(ms, map[string]any{"k": ks[i]})
		}
		add(fmt.Sprint("strings", n), ss, false, n)
		add(fmt.Sprint("ints", n), is, false, n)
		add(fmt.Sprint("maps", n), ms, false, n)
	}
	add("mixed", []any{nil, 2.5, true, "s", map[string]any{"k": "v"}, []any{"q"}}, true, 6)
	add("fixed", [2]int{5, 6}, false, 2)
	add("none", nil, false, 0)
	add("negative", -1, true, 0)
	return out
}

// loopCase builds a flow around one loop task.
type loopCase struct {
	pos   int // 0 start, 1 middle, 2 beside another branch, 3 in a subflow, 4 in an error handler, 5 join of two loops, 6 inside another loop
	act   int // 0 probe, 1 subflow returning data, 2 subflow with two tasks without return, 3 retried probe
	accum bool
	errl  bool // has an error link
	delay int
}

func (c loopCase) key() string { return fmt.Sprintf("%+v", c) }

// build: t is the loop task without activity.
func (c loopCase) build(t *spec.Task, env []spec.Param) *spec.Scenario {
	t.Loop.Accum, t.Loop.Delay = c.accum, c.delay
	t.In = append(t.In, In("a", spec.Obj("i", spec.Iter("index"))))
	if t.Kind == "iterator" {
		t.In[len(t.In)-1] = In("a", spec.Obj("i", spec.Iter("index"), "k", spec.Iter("key"), "v", spec.Iter("value")))
	}
	var extra []*spec.FlowDef
	see := spec.Act(t.ID, "out")
	switch c.act {
	case 1, 2:
		t.Sub = "k"
		iv := spec.Iter("index")
		if t.Kind == "iterator" {
			iv = spec.Iter("value")
		}
		t.In = []spec.Map{In("x", iv)}
		k := fl("k", nil, T("P", In("in", spec.Flow("x"))))
		if c.act == 2 {
			k = fl("k", ls(L("P", "Q", D)), T("P", In("in", spec.Flow("x"))), T("Q"))
		}
		k.In = []spec.Param{{Name: "x", Type: "any"}}
		k.Out = []spec.Param{{Name: "out", Type: "any"}}
		extra = append(extra, k)
	case 3:
		t.Retry = &spec.Retry{Count: spec.Lit(1), Interval: spec.Lit(3)}
	}
	if c.accum && t.Kind == "iterator" {
		see = spec.Acc(t.ID)
	}
	end := T("B", In("a", see))
	if c.accum && t.Kind == "doWhile" {
		end.In = append(end.In, In("b", spec.Acc(t.ID)))
	}
	links := ls(L(t.ID, "B", D))
	tasks := []*spec.Task{t, end}
	if c.errl {
		tasks = append(tasks, T("X", In("a", spec.ErrAt(t.ID, "message"))))
		links = append(links, L(t.ID, "X", E))
	}
	var main *spec.FlowDef
	switch c.pos {
	case 0:
		main = fl("m", links, tasks...)
	case 1:
		main = fl("m", append(links, L("A", t.ID, D)), append([]*spec.Task{T("A")}, tasks...)...)
	case 2:
		main = fl("m", append(links, L("A", t.ID, D), L("A", "C", B), L("C", "J", D), L("B", "J", D)), append([]*spec.Task{T("A"), T("C"), T("J")}, tasks...)...)
	case 3:
		k := fl("s", links, tasks...)
		k.In = env
		extra = append(extra, k)
		s := sub("S", "s")
		for _, p := range env {
			s.In = append(s.In, In(p.Name, spec.Flow(p.Name)))
		}
		main = fl("m", ls(L("S", "C", D)), s, T("C"), T("G"))
	case 4:
		main = fl("m", nil, T("F"), T("G"))
		main.Handler = &spec.Body{Tasks: tasks, Links: links}
	case 5:
		main = fl("m", append(links, L("V", "B", D)), append([]*spec.Task{iterT("V", 2)}, tasks...)...)
	case 6:
		k := fl("s", links, tasks...)
		k.In = env
		extra = append(extra, k)
		s := iterT("S", 2)
		s.Sub = "s"
		for _, p := range env {
			s.In = append(s.In, In(p.Name, spec.Flow(p.Name)))
		}
		main = fl("m", ls(L("S", "C", D)), s, T("C"))
	}
	main.In = env
	s := one(append([]*spec.FlowDef{main}, extra...)...)
	if c.pos == 4 {
		s.Script["m/F"] = []spec.Outcome{{Kind: "err", Msg: "start the handler"}}
	}
	if c.act == 1 {
		s.Script["*k/P"] = []spec.Outcome{{Kind: "ret", RetIn: "out"}}
	}
	return s.Norm()
}

// at is the script key of the loop's activity.
func (c loopCase) at(id string) string {
	f := "m"
	if c.pos == 3 || c.pos == 6 {
		f = "s"
	}
	if c.act == 1 || c.act == 2 {
		return "*k/P"
	}
	return f + "/" + id
}

// scripts are the ways the activity of a loop can behave over n rounds.
func (c loopCase) scripts(n int) [][]spec.Outcome {
	if c.act == 1 || c.act == 2 {
		a := [][]spec.Outcome{nil}
		ok := spec.OK
		if c.act == 1 {
			ok = spec.Outcome{Kind: "ret", RetIn: "out"}
		}
		for i := 0; i < n; i++ {
			for _, o := range []spec.Outcome{{Kind: "err", Msg: "boom in sub"}, {Kind: "panic", Msg: "panic in sub"}, {Kind: "ret", NoOut: true}, {Kind: "ret", Ret: map[string]any{"out": 0}}} {
				var l []spec.Outcome
				for k := 0; k < i; k++ {
					l = append(l, ok)
				}
				a = append(a, append(l, o, ok))
			}
		}
		return a
	}
	out := [][]spec.Outcome{nil}
	for i := 0; i < n; i++ {
		for _, o := range []spec.Outcome{{Kind: "err", Msg: "boom in round"}, {Kind: "panic", Msg: "panic in round"}, {Kind: "ok", NoOut: true}, {Kind: "retri", Msg: "again", Code: "R"}, {Kind: "ret", Ret: map[string]any{"z": "early"}}} {
			if c.act != 3 && o.Kind == "retri" {
				continue
			}
			var l []spec.Outcome
			for k := 0; k < i; k++ {
				l = append(l, spec.OK)
			}
			l = append(l, o)
			if o.Kind != "err" && o.Kind != "panic" {
				l = append(l, spec.OK)
			}
			out = append(out, l)
		}
	}
	return out
}

func (w *W) loopCases(quick bool, f func(c loopCase)) {
	for _, pos := range []int{0, 1, 2, 3, 4, 5, 6} {
		for _, act := range []int{0, 1, 2, 3} {
			for _, accum := range []bool{false, true} {
				for _, errl := range []bool{false, true} {
					for _, delay := range []int{0, 4} {
						if quick && delay > 0 && (pos > 1 || errl) {
							continue
						}
						f(loopCase{pos, act, accum, errl, delay})
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C06", Core: true,
		Assume: commonAssume,
		Rule:   "every iterable up to the size bound (counts, numeric strings, floats, arrays, objects, typed slices, arrays of mixed values, null, negative) x spelled as literal, flow input or activity output x four activity kinds (plain, subflow returning data, subflow without return, retried) x accumulation x delay x error link x seven positions x every single disturbance (error, panic, no output, return, retry) in every round x collection orders; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "up to 3 elements; 3 collection orders for objects"
			}
			return "up to 5 elements; all permutations of 3 and rotations of longer objects in up to 2 places"
		},
		Run: func(w *W) {
			max := 3
			if !w.Quick() {
				max = 5
			}
			for _, it := range iterables(max) {
				w.loopCases(w.Quick(), func(c loopCase) {
					for via := 0; via < 4; via++ { // literal, flow input, activity output, settings spelled at top level
						if (via == 0 || via == 3) && !it.lit || via == 2 && (c.pos == 0 || c.pos > 2) {
							continue
						}
						for _, sc := range c.scripts(it.n) {
							if !w.Next() {
								continue
							}
							t := &spec.Task{ID: "I", Kind: "iterator", Loop: &spec.Loop{}}
							var env []spec.Param
							switch via {
							case 0:
								t.Loop.OverV = it.v
							case 1:
								t.Loop.Over = spec.Flow("l")
								env = []spec.Param{{Name: "l", Type: "any"}}
							case 2:
								t.Loop.Over = spec.Act("A", "out")
							case 3:
								t.Loop.OverV, t.Loop.Form = it.v, 1+2*(w.unitNo()&1)
							}
							s := c.build(t, env)
							if via == 1 {
								s.Inputs["l"] = it.v
							}
							if via == 2 {
								if it.v == nil {
									continue
								}
								s.Script["m/A"] = []spec.Outcome{{Kind: "ok", Out: it.v}}
							}
							if sc != nil {
								s.Script[c.at("I")] = sc
							}
							s.Note = it.name
							x := X{Key: it.name + c.key(), Orders: []string{""}}
							if _, ok := it.v.(map[string]any); ok && it.n > 1 {
								x.Orders = []string{"", "rev", "rot"}
								if !w.Quick() {
									w.OrdersDFS(2, 60, func() bool { x.Orders = []string{"keep"}; return w.Exec(s, x) })
									continue
								}
							}
							w.Exec(s, x)
						}
					}
				})
			}
		},
	})
}
