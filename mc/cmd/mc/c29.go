package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/rig/confact"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C29",
		Configs: func(tier string) []Conf {
			return []Conf{{Name: "faults"}, {Name: "values"}, {Name: "unchecked", Rig: rig.Config{NoVal: true}}, {Name: "settings"}, {Name: "loading"}}
		},
		Assume: append([]string{
			"which of several broken schemas is reported, and the values of settings after a configuration that was refused, are not looked at",
			"outputs of subflows are not held to schemas",
		}, commonAssume...),
		Rule: "structures x handlers x every set of at most k faults of which values rejected by a schema of an input or output are two; every schema rule of an input and of an output x every value x attempt or round x task shape x ways of handling the failure, with validation on and off: execution by the reference model; every sequence of runs, reconfigurations, reloads and clean-ups of a flow with a subflow and an error handler whose tasks have settings of every kind: the calls that each task's own activity gets, by a model of the settings; distinct by scenario and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2, with handlers 1; 6 rules x 6 values; 4 operations (16 kinds) from 8 initial settings, all combinations of 12 initial settings of 4 tasks"
			}
			return "k=3, with handlers 2; 6 rules x 6 values; 5 operations (16 kinds) from 8 initial settings, all combinations of 12 initial settings of 4 tasks"
		},
		Run: func(w *W) {
			switch w.Conf.Name {
			case "faults":
				faults29(w)
			case "values", "unchecked":
				values29(w)
			case "settings":
				settings29(w)
			case "loading":
				loading29(w)
			}
		},
	})
}

func model29(s *spec.Scenario) *ref.Model {
	m := ref.New(s)
	m.NoVal = rig.Cfg.NoVal
	return m
}

func faults29(w *W) {
	for _, st := range structures {
		hs := [][2]int{{0, 0}, {1, 0}, {2, 1}}
		if len(st.mk()) == 1 {
			hs = [][2]int{{0, 0}, {1, 0}, {3, 0}}
		}
		for _, h := range hs {
			k := 2
			if h[0]+h[1] > 0 {
				k = 1
			}
			if !w.Quick() {
				k++
			}
			w.withFaults(st.scenario(h[0], h[1]), "vVemlRr", k, func(s *spec.Scenario, key string) {
				w.Exec(s, X{Model: model29(s), Orders: []string{""}, Key: st.name + key})
			})
		}
	}
}

func values29(w *W) {
	rules := []string{"any", "null", "value", "string", "number", "allowed"}
	vals := []*spec.Expr{spec.Flow("y"), spec.Lit("t"), spec.Lit(1), spec.Lit(map[string]any{"k": 1}), spec.Flow("x")}
	outs := []any{nil, nil, "t", 1, map[string]any{"k": 1}, false}
	follow := []func(f *spec.FlowDef){
		func(f *spec.FlowDef) { f.Links = ls(L("A", "B", D)) },
		func(f *spec.FlowDef) { f.Links = ls(L("A", "B", E), L("A", "C", D)) },
		func(f *spec.FlowDef) { f.Links = ls(L("A", "C", D)); f.Handler = handlerOf(1, "H") },
	}
	for _, side := range []string{"in", "out", "both", "two"} {
		for ri, rule := range rules {
			for vi := range outs {
				for shape := 0; shape < 6; shape++ {
					for fi, fo := range follow {
						for when := 0; when < 2; when++ {
							if !w.Next() {
								continue
							}
							a := T("A")
							switch shape {
							case 1:
								a = iterT("A", 2)
							case 2:
								a = whileT("A", 2)
							case 3:
								a = retryT("A", 1)
							case 4:
								a = iterT("A", 2)
								a.Loop.Accum = true
							case 5:
								a = sub("A", "k")
							}
							var script []spec.Outcome
							bad := spec.Outcome{Kind: "ok", Out: outs[vi], NoOut: outs[vi] == nil && vi%2 == 1, NullOut: outs[vi] == nil}
							good := spec.Outcome{Kind: "ok", Out: "good"}
							if shape == 3 && when == 1 {
								good = spec.Outcome{Kind: "retri", Msg: "again"}
							}
							if when == 1 {
								script = []spec.Outcome{good, bad}
							} else {
								script = []spec.Outcome{bad, good}
							}
							switch side {
							case "in":
								x := vals[vi%len(vals)]
								if when == 1 && shape == 1 {
									x = spec.Iter("value")
								}
								a.In = append(a.In, In("in", x))
								a.SIn = map[string]string{"in": rule, "b": "allowed"}
							case "out":
								a.SOut = map[string]string{"out": rule, "o2": "allowed"}
							case "both":
								a.In = append(a.In, In("in", vals[vi%len(vals)]))
								a.SIn = map[string]string{"in": "any"}
								a.SOut = map[string]string{"out": rule}
							case "two":
								a.In = append(a.In, In("in", vals[vi%len(vals)]), In("b", spec.Lit("b")))
								a.SIn = map[string]string{"in": rule, "b": rules[(ri+vi)%len(rules)]}
								a.SOut = map[string]string{"out": "any"}
							}
							if shape == 5 && side != "in" && side != "two" {
								continue
							}
							f := fl("m", nil, a, T("B", In("in", spec.Act("A", "out")), In("b", spec.ErrAt("A", "message"))), T("C", In("in", spec.Act("A", "out"))))
							if fi != 1 {
								f.Tasks[1].In = f.Tasks[1].In[:1]
							}
							fo(f)
							f.In = []spec.Param{{Name: "x", Type: "any"}, {Name: "y", Type: "any"}}
							var s *spec.Scenario
							if shape == 5 {
								s = one(f, fl("k", nil, T("P")))
							} else {
								s = one(f)
								s.Script["m/A"] = script
							}
							s.Inputs["x"] = "given"
							s.Note = fmt.Sprint(side, rule, vi, shape, fi, when)
							s.Norm()
							w.Exec(s, X{Model: model29(s), Orders: []string{""}, Key: s.Note})
						}
					}
				}
			}
		}
	}
}

// ---- settings ---------------------------------------------------------------

type set29 struct {
	raw, val map[string]any
	bad      bool
	none     bool // no activity given
}

var sets29 = []set29{
	{},
	{raw: map[string]any{"n": 1}, val: map[string]any{"n": 1}},
	{raw: map[string]any{"n": "=2+1"}, val: map[string]any{"n": 3}},
	{raw: map[string]any{"n": "7", "s": "x"}, val: map[string]any{"n": 7, "s": "x"}},
	{raw: map[string]any{"s": 5, "o": map[string]any{"k": []any{"t"}}}, val: map[string]any{"s": "5", "o": map[string]any{"k": []any{"t"}}}},
	{raw: map[string]any{"s": "boom"}, val: map[string]any{"s": "boom"}},
	{raw: map[string]any{"s": "noclean", "n": 2}, val: map[string]any{"s": "noclean", "n": 2}},
	{raw: map[string]any{"x": "undeclared", "n": 4}, val: map[string]any{"x": "undeclared", "n": 4}},
	// not to be loaded
	{raw: map[string]any{"n": "bad"}, bad: true},
	{raw: map[string]any{"s": "nonew"}, bad: true},
	{raw: map[string]any{"n": "=1 +"}, bad: true},
	{raw: map[string]any{"n": 1, "o": "=$flow.x"}, bad: true},
}

type task29 struct {
	flow    string
	init    map[string]any // settings it was loaded with
	cur     map[string]any
	unknown map[string]bool // settings whose values are not defined
	serial  int
	boom    bool
}

type sys29 struct {
	tasks map[string]*task29
	text  []string
	why   string
}

func conf29(id string, s map[string]any) map[string]any {
	act := map[string]any{"ref": confact.Ref, "input": map[string]any{"i": "5", "s": 6, "in": "=$flow.x"}}
	if len(s) > 0 {
		act["settings"] = s
	}
	return map[string]any{"id": id, "name": id, "activity": act}
}

func probe29(id string) map[string]any {
	return map[string]any{"id": id, "name": id, "activity": map[string]any{"ref": rig.ProbeRef}}
}

func flow29(name string, set map[string]map[string]any) []byte {
	link := func(a, b string) map[string]any { return map[string]any{"from": a, "to": b, "type": "dependency"} }
	m := map[string]any{"name": name, "metadata": map[string]any{"input": []any{map[string]any{"name": "x", "type": "any"}}}}
	if name == "k" {
		m["tasks"] = []any{conf29("T", set["T"])}
	} else {
		sub := map[string]any{"id": "S", "name": "S", "activity": map[string]any{"ref": rig.SubRef, "settings": map[string]any{"flowURI": "res://flow:k"}, "input": map[string]any{"x": "sub"}}}
		m["tasks"] = []any{conf29("A", set["A"]), sub, probe29("P"), conf29("B", set["B"])}
		m["links"] = []any{link("A", "S"), link("S", "P"), link("P", "B")}
		m["errorHandler"] = map[string]any{"tasks": []any{conf29("H", set["H"])}}
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// load puts a flow in place of what was loaded before.
func (y *sys29) load(name string, set map[string]map[string]any, want map[string]set29) bool {
	confact.Take()
	err := rig.Load(name, flow29(name, set))
	ids := []string{"A", "B", "H"}
	if name == "k" {
		ids = []string{"T"}
	}
	bad := false
	for _, id := range ids {
		bad = bad || want[id].bad
	}
	if (err != nil) != bad {
		y.why = fmt.Sprintf("loading %s: error %v, expected one: %v", name, err, bad)
		return false
	}
	if bad {
		return false
	}
	got := map[string]confact.Event{}
	for _, e := range confact.Take() {
		if _, dup := got[e.Name]; dup || e.Op != "new" || e.Host != name {
			y.why = fmt.Sprintf("loading %s: unexpected %s", name, e)
			return false
		}
		got[e.Name] = e
	}
	for _, id := range ids {
		e, ok := got[id]
		if !ok {
			y.why = fmt.Sprintf("loading %s: no activity made for task %s", name, id)
			return false
		}
		v := want[id].val
		if v == nil {
			v = map[string]any{}
		}
		if !same29(v, e.Vals, nil) {
			y.why = fmt.Sprintf("loading %s: task %s got the settings %v, not %v", name, id, e.Vals, v)
			return false
		}
		c := map[string]any{}
		for k, x := range v {
			c[k] = x
		}
		y.tasks[id] = &task29{flow: name, init: v, cur: c, unknown: map[string]bool{}, serial: e.Serial, boom: v["s"] == "boom"}
	}
	return true
}

func same29(want, got map[string]any, unknown map[string]bool) bool {
	for k, v := range want {
		if g, ok := got[k]; !unknown[k] && (!ok || !reflect.DeepEqual(v, g)) {
			return false
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok && !unknown[k] {
			return false
		}
	}
	return true
}

func (y *sys29) run() bool {
	confact.Take()
	b, err := rig.NewAction("res://flow:m")
	if err != nil {
		y.why = "run: " + err.Error()
		return false
	}
	s := one(fl("m", nil, T("P")))
	s.Inputs["x"] = "given"
	r := rig.Exec(b, s, rig.Options{Inputs: map[string]any{"x": "given"}})
	exp := []string{"A"}
	ok := true
	probe := 0
	switch {
	case y.tasks["A"].boom:
		exp = append(exp, "H")
		ok = !y.tasks["H"].boom
	case y.tasks["T"].boom:
		exp = append(exp, "T", "H")
		ok = !y.tasks["H"].boom
	case y.tasks["B"].boom:
		exp = append(exp, "T", "B", "H")
		ok = !y.tasks["H"].boom
		probe = 1
	default:
		exp = append(exp, "T", "B")
		probe = 1
	}
	var want []string
	for _, id := range exp {
		t := y.tasks[id]
		in := "given"
		if id == "T" {
			in = "sub"
		}
		want = append(want, confact.Event{Op: "eval", Serial: t.serial, Name: id, Host: t.flow, Vals: map[string]any{"i": 5, "s": "6", "in": in}}.String())
	}
	var got []string
	for _, e := range confact.Take() {
		got = append(got, e.String())
	}
	if g, x := strings.Join(got, "\n  "), strings.Join(want, "\n  "); g != x {
		y.why = "run: the activities were called as\n  " + g + "\nand not as\n  " + x
		return false
	}
	n := 0
	for _, o := range r.Trace {
		if o.Kind == "eval" {
			n++
		}
	}
	if r.Dones != 1 || len(r.Calls) != 1 || (r.Calls[0].Err == nil) != ok || n != probe {
		y.why = fmt.Sprintf("run: outcome %v, done %d times, %d other evaluations; expected %d and an error: %v", r.Calls, r.Dones, n, probe, !ok)
		return false
	}
	return true
}

type rec29 struct {
	name string
	flow string
	text string // in place of the rest
	sets map[string]set29
	null bool // with a null in place of a task
}

func val29(kv ...any) set29 {
	s := set29{raw: map[string]any{}, val: map[string]any{}}
	for i := 0; i+2 < len(kv); i += 3 {
		s.raw[kv[i].(string)], s.val[kv[i].(string)] = kv[i+1], kv[i+2]
	}
	return s
}

var recs29 = []rec29{
	{name: "one", flow: "m", sets: map[string]set29{"A": val29("n", 5, 5)}},
	{name: "all", flow: "m", sets: map[string]set29{"A": val29("n", "=1+1", 2), "B": val29("s", "y", "y"), "H": val29("n", 9, 9)}},
	{name: "one unusable", flow: "m", sets: map[string]set29{"A": {raw: map[string]any{"n": "bad"}, bad: true}, "B": val29("n", 4, 4), "H": val29("n", 4, 4)}},
	{name: "one refused", flow: "m", sets: map[string]set29{"A": val29("x", "refuse", "refuse"), "B": val29("s", "boom", "boom"), "H": val29("n", 4, 4)}},
	{name: "one unknown", flow: "m", sets: map[string]set29{"Z": val29("n", 4, 4), "B": val29("n", 8, 8)}},
	{name: "one without activity", flow: "m", sets: map[string]set29{"A": {none: true}, "B": val29("n", 6, 6), "H": {none: true}}},
	{name: "one null", flow: "m", null: true, sets: map[string]set29{"B": val29("n", 7, 7), "H": val29("n", 7, 7)}},
	{name: "malformed", flow: "m", text: `{"tasks":[`},
	{name: "handler fails", flow: "m", sets: map[string]set29{"H": val29("s", "boom", "boom")}},
	{name: "task fails", flow: "m", sets: map[string]set29{"A": val29("s", "boom", "boom")}},
	{name: "others too", flow: "m", sets: map[string]set29{"A": val29("s", "ok", "ok"), "P": val29("n", 1, 1), "H": val29("s", "ok", "ok", "o", []any{"l"}, []any{"l"})}},
	{name: "of the subflow", flow: "k", sets: map[string]set29{"T": val29("n", 5, 5, "s", "boom", "boom")}},
}

func (y *sys29) reconfigure(c rec29) bool {
	confact.Take()
	text := []byte(c.text)
	if c.text == "" {
		main, handler := []any{}, []any{}
		ids := make([]string, 0, 4)
		for id := range c.sets {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		if c.null {
			main, handler = append(main, nil), append(handler, nil)
		}
		for _, id := range ids {
			t := map[string]any{"id": id, "name": id, "activity": map[string]any{"ref": confact.Ref, "settings": c.sets[id].raw}}
			if c.sets[id].none {
				delete(t, "activity")
			}
			if id == "H" {
				handler = append(handler, t)
			} else {
				main = append(main, t)
			}
		}
		m := map[string]any{"name": c.flow, "tasks": main}
		if len(handler) > 0 {
			m["errorHandler"] = map[string]any{"tasks": handler}
		}
		text, _ = json.Marshal(m)
	}
	err := rig.RM.ReconfigureResources([]*resource.Config{{ID: "flow:" + c.flow, Data: text}})
	if c.text != "" {
		if err == nil {
			y.why = "reconfigure: a malformed configuration is accepted"
			return false
		}
	} else if err != nil {
		y.why = "reconfigure: " + err.Error()
		return false
	}
	got := map[int]confact.Event{}
	for _, e := range confact.Take() {
		if _, dup := got[e.Serial]; dup || e.Op != "reconfigure" {
			y.why = "reconfigure: unexpected " + e.String()
			return false
		}
		got[e.Serial] = e
	}
	for id, t := range y.tasks {
		e, called := got[t.serial]
		delete(got, t.serial)
		s, ok := c.sets[id]
		if !ok || t.flow != c.flow || s.bad {
			if called {
				y.why = "reconfigure: unexpected " + e.String()
				return false
			}
			for k := range s.raw {
				t.unknown[k] = true
			}
			continue
		}
		if s.none && !called {
			continue
		}
		if len(t.init) == 0 { // a task without settings may be left out
			if called {
				t.boom = e.Vals["s"] == "boom"
			}
			continue
		}
		if !called {
			y.why = fmt.Sprintf("reconfigure: the activity of task %s is not told its new settings", id)
			return false
		}
		for k, v := range s.val {
			t.cur[k] = v
			delete(t.unknown, k)
		}
		if !same29(t.cur, e.Vals, t.unknown) {
			y.why = fmt.Sprintf("reconfigure: task %s got the settings %v, not %v (unknown %v)", id, e.Vals, t.cur, t.unknown)
			return false
		}
		if s.val["x"] == "refuse" {
			t.unknown["x"] = true
		}
		t.boom = e.Vals["s"] == "boom"
	}
	for _, e := range got {
		y.why = "reconfigure: unexpected " + e.String()
		return false
	}
	return true
}

func (y *sys29) cleanup(flow string) bool {
	confact.Take()
	c, ok := rig.RM.GetResource("flow:" + flow).Object().(support.NeedsCleanup)
	if !ok {
		y.why = "cleanup: a definition has no clean-up"
		return false
	}
	_ = c.Cleanup()
	n := map[int]int{}
	for _, e := range confact.Take() {
		if e.Op != "cleanup" {
			y.why = "cleanup: unexpected " + e.String()
			return false
		}
		n[e.Serial]++
	}
	for id, t := range y.tasks {
		x := 0
		if t.flow == flow {
			x = 1
		}
		if n[t.serial] != x {
			y.why = fmt.Sprintf("cleanup of %s: the activity of task %s/%s is cleaned up %d times", flow, t.flow, id, n[t.serial])
			return false
		}
		delete(n, t.serial)
	}
	if len(n) > 0 {
		y.why = "cleanup: of activities of no task"
		return false
	}
	return true
}

func start29(pick map[string]int) (*sys29, map[string]map[string]any, map[string]set29, bool) {
	y := &sys29{tasks: map[string]*task29{}}
	set, want := map[string]map[string]any{}, map[string]set29{}
	for id, k := range pick {
		set[id], want[id] = sets29[k].raw, sets29[k]
	}
	ok := y.load("k", set, want) && y.load("m", set, want)
	return y, set, want, ok
}

func settings29(w *W) {
	depth := 4
	if !w.Quick() {
		depth = 5
	}
	nops := len(recs29) + 4
	for i := 0; i < 8; i++ {
		pick := map[string]int{"A": i, "B": (i + 3) % 8, "H": (i + 6) % 8, "T": (i + 1) % 8}
		seq := make([]int, depth)
		for {
			if w.stop {
				return
			}
			if w.Next() {
				w.R.Evals++
				y, set, want, ok := start29(pick)
				var done []string
				for j := 0; ok && j <= depth; j++ {
					op := 0 // it is run in the end
					if j < depth {
						op = seq[j]
					}
					switch {
					case op == 0:
						done = append(done, "run")
						ok = y.run()
					case op == 1:
						done = append(done, "load m")
						ok = y.load("m", set, want)
					case op == 2, op == 3:
						f := []string{"m", "k"}[op-2]
						done = append(done, "clean up "+f)
						ok = y.cleanup(f)
					default:
						done = append(done, "reconfigure "+recs29[op-4].name)
						ok = y.reconfigure(recs29[op-4])
					}
					w.Count("transitions", 1)
				}
				w.Distinct(fmt.Sprint(i, seq))
				if !ok {
					w.Violate("settings", fmt.Sprintf("initial settings %v, after %s: %s", set, strings.Join(done, ", "), y.why), map[string]any{"settings": set, "operations": done})
				} else if w.unit%5000 == 1 {
					w.Sample(map[string]any{"settings": set, "operations": done})
				}
			}
			j := depth - 1
			for j >= 0 {
				seq[j]++
				if seq[j] < nops {
					break
				}
				seq[j] = 0
				j--
			}
			if j < 0 {
				break
			}
		}
	}
}

func loading29(w *W) {
	n := len(sets29)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for h := 0; h < n; h++ {
				for t := 0; t < n; t++ {
					if !w.Next() {
						continue
					}
					w.R.Evals++
					y, set, _, ok := start29(map[string]int{"A": a, "B": b, "H": h, "T": t})
					ok = ok && y.run() && y.cleanup("m") && y.cleanup("k")
					w.Count("transitions", 5)
					w.Distinct(fmt.Sprint(a, b, h, t))
					if y.why != "" {
						w.Violate("settings", fmt.Sprintf("settings %v: %s", set, y.why), map[string]any{"settings": set})
					}
				}
			}
		}
	}
	for _, d := range []string{"", "x", "own"} {
		for si := range sets29[:8] {
			if w.Next() {
				w.R.Evals++
				legacy29(w, d, sets29[si])
			}
		}
	}
}

// legacy29: a legacy activity reads settings and configured outputs itself.
func legacy29(w *W, out string, set set29) {
	act := map[string]any{"ref": confact.Ref + ".legacy", "input": map[string]any{"i": "5", "in": "=$flow.x"}, "settings": set.raw}
	want := map[string]any{"i": 5, "in": "given", "out": nil, "own": "own"}
	for k, v := range set.val {
		if k != "x" {
			want["set."+k] = v
		}
	}
	if out != "" {
		act["output"] = map[string]any{"out": out}
		want["out"] = out
	}
	text, _ := json.Marshal(map[string]any{"name": "m", "metadata": map[string]any{"input": []any{map[string]any{"name": "x", "type": "any"}}},
		"tasks": []any{map[string]any{"id": "A", "name": "A", "activity": act}}})
	bad := func(f string, a ...any) {
		w.Violate("legacy", fmt.Sprintf(f, a...), map[string]any{"definition": string(text)})
	}
	confact.Take()
	if err := rig.Load("m", text); err != nil {
		bad("loading: %v", err)
		return
	}
	b, err := rig.NewAction("res://flow:m")
	if err != nil {
		bad("loading: %v", err)
		return
	}
	for k := 0; k < 2; k++ {
		r := rig.Exec(b, one(fl("m", nil, T("P"))), rig.Options{Inputs: map[string]any{"x": "given"}})
		l := confact.Take()
		if r.Dones != 1 || len(r.Calls) != 1 || r.Calls[0].Err != nil || len(l) != 1 || !same29(want, l[0].Vals, nil) {
			bad("run %d: calls %v, outcome %v; expected one with %v", k, l, r.Calls, want)
			return
		}
	}
	w.Distinct(string(text))
}
