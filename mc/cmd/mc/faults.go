package main

import (
	"encoding/json"

	"verif.local/vmc/spec"
)

// A fault is one thing that can go wrong at one place of a scenario.
type fault struct {
	where string
	kind  string
	apply func(s *spec.Scenario)
}

func cloneScen(s *spec.Scenario) *spec.Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	n := &spec.Scenario{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	fixObj(n)
	if n.Script == nil {
		n.Script = map[string][]spec.Outcome{}
	}
	if n.Inputs == nil {
		n.Inputs = map[string]any{}
	}
	return n.Norm()
}

// fixObj restores what JSON does not keep.
func fixObj(s *spec.Scenario) {
	for _, f := range s.Flows {
		bs := []*spec.Body{&f.Body}
		if f.Handler != nil {
			bs = append(bs, f.Handler)
		}
		for _, b := range bs {
			for _, t := range b.Tasks {
				for _, m := range t.In {
					m.X.Restore()
				}
			}
		}
	}
}

// slots lists, place by place, the faults a scenario can have.
func slots(s *spec.Scenario, kinds string) [][]fault {
	var out [][]fault
	has := func(c byte) bool {
		for i := 0; i < len(kinds); i++ {
			if kinds[i] == c {
				return true
			}
		}
		return false
	}
	for _, fn := range s.FlowNames() {
		fn := fn
		f := s.Flows[fn]
		for ti, t := range f.All {
			ti, t := ti, t
			at := fn + "/" + t.ID
			var fs []fault
			script := func(c byte, kind string, o spec.Outcome) {
				if t.Sub == "" && has(c) {
					o.Msg += " at " + t.ID
					fs = append(fs, fault{at, kind, func(s *spec.Scenario) { s.Script[at] = []spec.Outcome{o} }})
				}
			}
			task := func(c byte, kind string, g func(t *spec.Task)) {
				if has(c) {
					fs = append(fs, fault{at, kind, func(s *spec.Scenario) { g(s.Flows[fn].All[ti]) }})
				}
			}
			script('e', "err", failOutcome)
			script('c', "coded", codedOutcome)
			script('p', "panic", panicOutcome)
			script('r', "retri", spec.Outcome{Kind: "retri", Msg: "retriable", Code: "R1"})
			script('R', "return", spec.Outcome{Kind: "ret", Ret: map[string]any{"r": "returned"}})
			if fn == s.Main {
				script('y', "reply", spec.Outcome{Kind: "reply", Ret: map[string]any{"r": "replied"}})
			}
			script('z', "null", spec.Outcome{Kind: "ok", NullOut: true})
			script('z', "nothing", spec.Outcome{Kind: "ok", NoOut: true})
			script('S', "set", spec.Outcome{Kind: "ok", SetAttr: "x", SetVal: "changed"})
			task('m', "mapfail", func(t *spec.Task) { t.In = append(t.In, In("b", spec.Fail())) })
			task('v', "inschema", func(t *spec.Task) {
				t.In, t.SIn = append(t.In, In("a", spec.Lit(1))), map[string]string{"a": "allowed"}
			})
			if t.Sub == "" {
				task('V', "outschema", func(t *spec.Task) { t.SOut = map[string]string{"out": "allowed"} })
			}
			task('M', "mappanic", func(t *spec.Task) { t.In = append(t.In, In("b", spec.Panic())) })
			// whether an error link handles a panicking loop expression is not defined, and which
			// flow fails when one panics as a setting (while its task is entered) is not either
			errLink := t.Loop != nil && (t.Loop.Form == 3 || t.Loop.Form == 1)
			for _, l := range t.Out_ {
				errLink = errLink || f.LAll[l].Kind == spec.Error
			}
			if t.Kind == "iterator" {
				task('i', "overfail", func(t *spec.Task) { t.Loop.OverV, t.Loop.Over = nil, spec.Fail() })
				task('i', "overbad", func(t *spec.Task) { t.Loop.OverV, t.Loop.Over = nil, spec.Lit(true) })
				if !errLink {
					task('I', "overpanic", func(t *spec.Task) { t.Loop.OverV, t.Loop.Over = nil, spec.Panic() })
				}
			}
			if t.Kind == "doWhile" {
				task('i', "condfail", func(t *spec.Task) { t.Loop.While = spec.Fail() })
				task('i', "condbad", func(t *spec.Task) { t.Loop.While = spec.Lit("maybe") })
				if !errLink {
					task('I', "condpanic", func(t *spec.Task) { t.Loop.While = spec.Panic() })
				}
			}
			if t.Retry != nil {
				task('t', "countfail", func(t *spec.Task) { t.Retry.Count = spec.Fail() })
			}
			if t.Sub != "" {
				task('s', "badsub", func(t *spec.Task) { t.BadSub = true })
			}
			if len(fs) > 0 {
				out = append(out, fs)
			}
		}
		for li, l := range f.LAll {
			li, l := li, l
			if l.Kind != spec.XExpr {
				continue
			}
			at := fn + "/" + l.From + ">" + l.To
			var fs []fault
			if has('l') {
				fs = append(fs, fault{at, "linkfail", func(s *spec.Scenario) { s.Flows[fn].LAll[li].X = spec.Fail() }})
			}
			if has('L') {
				fs = append(fs, fault{at, "linkpanic", func(s *spec.Scenario) { s.Flows[fn].LAll[li].X = spec.Panic() }})
			}
			if has('f') {
				fs = append(fs, fault{at, "linkfalse", func(s *spec.Scenario) { s.Flows[fn].LAll[li].X = spec.Lit(false) }})
			}
			if len(fs) > 0 {
				out = append(out, fs)
			}
		}
	}
	return out
}

// withFaults runs f on the scenario with every choice of at most max faults.
func (w *W) withFaults(mk func() *spec.Scenario, kinds string, max int, f func(s *spec.Scenario, key string)) {
	w.faults(mk, kinds, max, true, f)
}

// eachFaults is withFaults where f itself counts units.
func (w *W) eachFaults(mk func() *spec.Scenario, kinds string, max int, f func(s *spec.Scenario, key string)) {
	w.faults(mk, kinds, max, false, f)
}

func (w *W) faults(mk func() *spec.Scenario, kinds string, max int, unit bool, f func(s *spec.Scenario, key string)) {
	base := mk()
	sl := slots(base, kinds)
	var rec func(from int, chosen []fault)
	rec = func(from int, chosen []fault) {
		if w.stop {
			return
		}
		if !unit || w.Next() {
			s := mk()
			key := ""
			for _, c := range chosen {
				c.apply(s)
				key += c.where + ":" + c.kind + ","
			}
			s.Note = key
			f(s.Norm(), key)
		}
		if len(chosen) == max {
			return
		}
		for i := from; i < len(sl); i++ {
			for _, x := range sl[i] {
				rec(i+1, append(chosen[:len(chosen):len(chosen)], x))
			}
		}
	}
	rec(0, nil)
}

// ---- structures -----------------------------------------------------------

type structure struct {
	name string
	mk   func() []*spec.FlowDef // main flow first
}

func fl(name string, links []*spec.Link, tasks ...*spec.Task) *spec.FlowDef {
	return &spec.FlowDef{Name: name, Body: spec.Body{Tasks: tasks, Links: links}}
}

func ls(l ...*spec.Link) []*spec.Link { return l }

func iterT(id string, n int, in ...spec.Map) *spec.Task {
	return &spec.Task{ID: id, Kind: "iterator", Loop: &spec.Loop{OverV: n}, In: in}
}

func whileT(id string, n int, in ...spec.Map) *spec.Task {
	return &spec.Task{ID: id, Kind: "doWhile", Loop: &spec.Loop{While: spec.Lt(spec.Iter("index"), spec.Lit(n-1))}, In: in}
}

func retryT(id string, n int, in ...spec.Map) *spec.Task {
	return &spec.Task{ID: id, Retry: &spec.Retry{Count: spec.Lit(n), Interval: spec.Lit(5)}, In: in}
}

const (
	D = spec.Dep
	E = spec.Error
	O = spec.Otherw
	B = spec.Label
)

var structures = []structure{
	{"one", func() []*spec.FlowDef { return []*spec.FlowDef{fl("m", nil, T("A"))} }},
	{"chain", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("B", "C", D)), T("A"), T("B"), T("C"))}
	}},
	{"two starts", func() []*spec.FlowDef { return []*spec.FlowDef{fl("m", nil, T("A"), T("B"))} }},
	{"diamond", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("A", "C", B), L("B", "J", D), L("C", "J", D)), T("A"), T("B"), T("C"), T("J"))}
	}},
	{"expression", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(LX("A", "B", spec.Lit(true)), LX("A", "C", spec.Lit(false)), L("A", "D", O), L("B", "J", D), L("D", "J", D)), T("A"), T("B"), T("C"), T("D"), T("J"))}
	}},
	{"error link", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "B", D), L("A", "X", E), L("B", "C", D), L("X", "C", D)), T("A"), T("B"), T("X"), T("C"))}
	}},
	{"error link join", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "X", E), L("B", "X", E), L("A", "J", D), L("B", "J", D)), T("A"), T("B"), T("X"), T("J"))}
	}},
	{"sub", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "S", D), L("S", "B", D)), T("A"), sub("S", "k"), T("B")),
			fl("k", ls(L("P", "Q", D)), T("P"), T("Q"))}
	}},
	{"sub error link", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D), L("S", "X", E)), sub("S", "k"), T("B"), T("X")),
			fl("k", ls(LX("P", "Q", spec.Lit(true)), L("P", "R", O)), T("P"), T("Q"), T("R"))}
	}},
	{"parallel subs", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "J", D), L("U", "J", D)), sub("S", "k"), sub("U", "k"), T("A"), T("J")),
			fl("k", ls(L("P", "Q", D)), T("P"), T("Q"))}
	}},
	{"nested", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D)), sub("S", "k"), T("B")),
			fl("k", ls(L("P", "N", D)), T("P"), sub("N", "n")),
			fl("n", nil, T("U"), T("V"))}
	}},
	{"iterator", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "I", D), L("I", "B", D), L("I", "X", E)), T("A"), iterT("I", 2), T("B"), T("X"))}
	}},
	{"dowhile", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("A", "W", D), L("W", "B", D)), T("A"), whileT("W", 2), T("B"))}
	}},
	{"retry", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("R", "B", D), L("R", "X", E)), retryT("R", 1), T("B"), T("X"))}
	}},
	{"parallel loops", func() []*spec.FlowDef {
		return []*spec.FlowDef{fl("m", ls(L("I", "J", D), L("W", "J", D)), iterT("I", 2), whileT("W", 2), T("J"))}
	}},
	{"documented iterator", func() []*spec.FlowDef {
		i, k := iterT("I", 2), iterT("K", 1)
		i.Loop.Form, k.Loop.Form = 3, 1
		return []*spec.FlowDef{fl("m", ls(L("A", "I", D), L("A", "C", D), L("I", "B", D), L("C", "K", D)), T("A"), i, T("B"), T("C"), k)}
	}},
	{"documented iterator in sub", func() []*spec.FlowDef {
		i := iterT("I", 2)
		i.Loop.Form = 3
		return []*spec.FlowDef{fl("m", ls(L("S", "B", D), L("S", "X", E)), sub("S", "k"), T("B"), T("X")), fl("k", ls(L("I", "P", D)), i, T("P"))}
	}},
	{"loop over sub", func() []*spec.FlowDef {
		i := iterT("I", 2)
		i.Sub = "k"
		return []*spec.FlowDef{fl("m", ls(L("I", "B", D)), i, T("B")), fl("k", ls(L("P", "Q", D)), T("P"), T("Q"))}
	}},
	{"while over sub", func() []*spec.FlowDef {
		i := whileT("W", 2)
		i.Sub = "k"
		return []*spec.FlowDef{fl("m", ls(L("W", "B", D)), i, T("B")), fl("k", ls(L("P", "Q", D)), T("P"), T("Q"))}
	}},
}

// handlerOf gives the error handler of a kind; ids start with p.
func handlerOf(kind int, p string) *spec.Body {
	switch kind {
	case 1:
		return &spec.Body{Tasks: []*spec.Task{T(p + "1")}}
	case 2:
		return &spec.Body{Tasks: []*spec.Task{T(p + "1"), T(p + "2")}, Links: ls(L(p+"1", p+"2", D))}
	case 3:
		return &spec.Body{Tasks: []*spec.Task{T(p + "1"), T(p + "2"), T(p + "3")}, Links: ls(L(p+"1", p+"2", E), LX(p+"1", p+"3", spec.Lit(true)))}
	case 4: // two starting tasks
		return &spec.Body{Tasks: []*spec.Task{T(p + "1"), T(p + "2")}}
	}
	return nil
}

func (st structure) scenario(mainH, subH int) func() *spec.Scenario {
	return func() *spec.Scenario {
		fs := st.mk()
		fs[0].Handler = handlerOf(mainH, "H")
		for i, f := range fs[1:] {
			f.Handler = handlerOf(subH, string(rune('K'+2*i)))
		}
		return one(fs...)
	}
}
