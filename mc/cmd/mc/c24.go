package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/project-flogo/core/activity"
	coresupport "github.com/project-flogo/core/support"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/rig/fakeact"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID:   "C24",
		Diff: true,
		Configs: func(tier string) []Conf {
			cs := []Conf{{Name: "plain"}, {Name: "trace", Rig: rig.Config{Trace: true}, Shards: 2},
				{Name: "observed", Rig: rig.Config{Mode: "full", Events: true}, Shards: 2},
				{Name: "mode", Rig: rig.Config{Mode: "off", RT: map[string]any{"stateRecordingMode": "ful"}, Bad: true}, Shards: 1}}
			ls := []int{1, 2, 3, 5}
			if tier == "thorough" {
				ls = []int{1, 2, 3, 4, 5, 6, 7, 8}
			}
			for _, l := range ls {
				cs = append(cs, Conf{Name: fmt.Sprint("limit", l), Env: map[string]string{stepEnv: fmt.Sprint(l)}, Shards: 1})
			}
			return cs
		},
		Assume: append([]string{
			"left open: packages given as something else than JSON text in a json.RawMessage (an error or a run, but no panic); the output mappings of a package, which the code does not use",
			"a mapped value is what a table of mappings with known values says; the expression language itself is the core library's"}, commonAssume...),
		Rule: "flow structures x handlers x every set of up to k faults, returns and replies, run from a package through the on-demand action and compared with the reference model; every combination of input mappings of two inputs from a table of 26; every package reached from a base by one deviation (a JSON position deleted, duplicated, swapped or replaced by a domain of values), every byte prefix and every single byte left out, each either an error before anything runs or a run with its id and one outcome; distinct by trace and package",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2, handlers {none, chain} of main, {one task} of subflows; k=1 with step limits 1,2,3,5; one deviation of the small, the medium and the rich package"
			}
			return "k=2, handlers {none,1 task,chain} of main x {none, 1 task} of subflows; step limits 1..8; one deviation of the rich and the medium package and two of the small one"
		},
		Run: run24,
	})
}

type map24 struct {
	name string
	m    any
	val  any
	kind int // 0 value, 1 not set, 2 fails, 3 open
}

var payload24 = mp{"a": "pa", "n": 4, "o": mp{"k": []any{1, "two"}}, "z": nil}

var maps24 = []map24{
	{"none", nil, nil, 1},
	{"literal", "lit", "lit", 0},
	{"number", 7, 7, 0},
	{"bool", false, false, 0},
	{"empty", "", "", 0},
	{"list", []any{1, mp{"=": "=$.x"}}, []any{1, mp{"=": "=$.x"}}, 0},
	{"object", mp{"k": mp{"l": nil}}, mp{"k": mp{"l": nil}}, 0},
	{"x", "=$.x", "xv", 0},
	{"y", "=$.y", 5, 0},
	{"deep", "=$.payload.a", "pa", 0},
	{"deep number", "=$.payload.n", 4, 0},
	{"deeper", "=$.payload.o.k[1]", "two", 0},
	{"whole", "=$.payload.o", mp{"k": []any{1, "two"}}, 0},
	{"sum", "=$.y + 1", 6, 0},
	{"text", `="a" == $.x`, false, 0},
	{"object mapping", mp{"mapping": mp{"p": "=$.x", "q": mp{"r": "=$.payload.n", "s": 1}}}, mp{"p": "xv", "q": mp{"r": 4, "s": 1}}, 0},
	{"blank expression", "=", nil, 3},
	{"missing", "=$.nosuch", nil, 2},
	{"missing deep", "=$.nosuch.a", nil, 2},
	{"flow scope", "=$flow.x", nil, 2},
	{"activity scope", "=$activity[A].out", nil, 2},
	{"function fails", "=vfail()", nil, 2},
	{"function panics", "=vpanic()", nil, 2},
	{"no function", "=nosuchfn()", nil, 2},
	{"syntax", "=1 ==", nil, 2},
	{"object mapping fails", mp{"mapping": mp{"p": "=$.x", "q": "=vfail()"}}, nil, 2},
}

func run24(w *W) {
	if rig.Cfg.Bad {
		w.R.Evals++
		if err := rig.SetupOnDemand(); err == nil {
			w.Violate("bad-mode", "a recording mode that is not one must be refused", nil)
		} else {
			w.R.Valid++
		}
		return
	}
	if err := rig.SetupOnDemand(); err != nil {
		panic(err)
	}
	limited := os.Getenv(stepEnv) != "" && os.Getenv(stepEnv) != "2000"
	w.runs24(limited)
	if limited || w.Conf.Rig.Trace || w.Conf.Rig.Events {
		return
	}
	w.maps24()
	w.packages24()
}

// text24 is a package.
func text24(flow any, inputs mp) json.RawMessage {
	p := mp{"flow": flow}
	if inputs != nil {
		p["inputs"] = inputs
	}
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

// judge24 checks the id report and compares what follows with the model.
func (w *W) judge24(m *ref.Model, explicit bool) func(r *rig.Run) (string, string) {
	return func(r *rig.Run) (string, string) {
		if r.RunErr != nil {
			return "run-error", "Run returned an error: " + r.RunErr.Error()
		}
		if !explicit {
			if k, msg := first24(r, "m"); k != "" {
				return k, msg
			}
		}
		if m == nil {
			return protocol(r)
		}
		return w.judge(m, r, X{})
	}
}

// first24 checks the report of the id, and takes it off.
func first24(r *rig.Run, main string) (string, string) {
	if k, msg := id24(r); k != "" {
		return k, msg
	}
	id := r.Calls[0].Data["id"].(string)
	for _, o := range r.Trace {
		if o.Kind == "eval" && o.Flow == main && o.Inst != id {
			return "other-id", fmt.Sprintf("the id reported is %q, the flow runs as %q", id, o.Inst)
		}
	}
	r.Calls, r.Trace = r.Calls[1:], r.Trace[1:]
	return "", ""
}

func id24(r *rig.Run) (string, string) {
	if len(r.Calls) == 0 || len(r.Trace) == 0 || r.Trace[0].Kind != "outcome" {
		return "no-id", "the id is not the first thing reported:\n" + traceText(r)
	}
	c := r.Calls[0]
	id, ok := c.Data["id"].(string)
	if !ok || id == "" || c.Err != nil || len(c.Data) != 1 {
		return "bad-id", fmt.Sprintf("the first report is not the instance id as a string: %#v, %v", c.Data["id"], c.Err)
	}
	return "", ""
}

func (w *W) runs24(limited bool) {
	k := 2
	hs := [][2]int{{0, 0}, {2, 0}, {0, 1}}
	if !w.Quick() {
		hs = [][2]int{{0, 0}, {1, 1}, {2, 0}, {0, 1}}
	}
	for _, st := range append(append([]structure(nil), structures...), structures14[6:]...) {
		for hi, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			n := 0
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				m := s.Flows["m"]
				m.In = []spec.Param{{Name: "x", Type: "any", Def: "dx"}, {Name: "y", Type: "any", Def: "dy"}}
				m.Out = []spec.Param{{Name: "x", Type: "any"}, {Name: "r", Type: "any"}}
				for _, t := range m.All {
					t.In = append(t.In, In("a", spec.Flow("x")), In("b", spec.Flow("y")))
				}
				return s.Norm()
			}
			kk := k
			if w.Quick() && (limited || rig.Cfg.Events) {
				kk = 1
			}
			w.withFaults(mk, "ecprmlisbLRyzvV", kk, func(s *spec.Scenario, key string) {
				n++
				explicit := n%3 == hi%3
				b, err := rig.Build(s)
				if err != nil {
					w.Violate("load", err.Error(), s)
					return
				}
				b.Act = rig.OnDemand()
				fm := rig.FlowMap(s.Flows["m"])
				if explicit {
					fm["explicitReply"] = true
				}
				in := mp{"flowPackage": text24(fm, mp{"x": "=$.payload.a", "u": 3}), "payload": payload24, "x": "not this"}
				s.Inputs = mp{"x": "pa", "u": 3}
				x := X{Key: st.name + key, Orders: w.ord()}
				x.Opts.Inputs = in
				x.Model = newModel(s)
				if w.Conf.Rig.Trace {
					x.Model.Fix = map[string]any{"SpanId": ref.Any, "TraceId": ref.Any}
				}
				m := x.Model
				if limited {
					m = nil
				}
				x.Judge = w.judge24(m, explicit)
				if w.Conf.Rig.Trace {
					j := x.Judge
					x.Judge = func(r *rig.Run) (string, string) {
						if k, m := j(r); k != "" {
							return k, m
						}
						for _, s := range r.Spans {
							if s.Fin != 1 {
								return "spans", spanText(r)
							}
						}
						return "", ""
					}
				}
				if limited {
					x.Orders = []string{""}
					if !w.limit24(s, &x) {
						return
					}
				}
				w.ExecB(b, s, x)
			})
		}
	}
}

// limit24 lets a run reach as far as the step limit permits; how many steps
// the flow takes is found by driving it by hand.
func (w *W) limit24(s *spec.Scenario, x *X) bool {
	limit, _ := strconv.Atoi(os.Getenv(stepEnv))
	st, err := rig.NewStepped(s, rig.Options{})
	if err != nil {
		w.Violate("load", err.Error(), s)
		return false
	}
	steps := 0
	for steps < 400 && !st.Ended {
		steps++
		if !st.Step() {
			break
		}
	}
	if !st.Ended {
		w.Count("unbounded", 1)
	}
	j := x.Judge
	x.Judge = func(r *rig.Run) (string, string) {
		if k, m := j(r); k != "" {
			return k, m
		}
		last := r.Calls[len(r.Calls)-1]
		over := !st.Ended || steps > limit
		full, got := st.Obs(), r.Obs()
		if over {
			if last.Err == nil || !strings.Contains(last.Err.Error(), strconv.Itoa(limit)) {
				return "limit", fmt.Sprintf("the flow needs %d steps, the limit is %d and the outcome is %v", steps, limit, last.Err)
			}
			n := 0
			if limit <= len(st.After) {
				n = st.After[limit-1]
			}
			full, got = full[:n], got[:len(got)-1]
		}
		if a, b := normTrace(full), normTrace(got); a != b {
			return "limit-trace", fmt.Sprintf("expected:\n%s\ngot:\n%s", a, b)
		}
		return "", ""
	}
	return true
}

func (w *W) maps24() {
	for i := range maps24 {
		for j := range maps24 {
			for decl := 0; decl < 3; decl++ { // declared inputs: none, x, x and y
				if !w.Next() {
					continue
				}
				a, b := maps24[i], maps24[j]
				ins := mp{}
				s := one(fl("m", ls(L("A", "B", D)), T("A", In("a", spec.Flow("x")), In("b", spec.Flow("y"))), T("B", In("in", spec.Act("A", "out")))))
				m := s.Flows["m"]
				want := mp{}
				kind := 0
				for n, c := range map[string]map24{"x": a, "y": b} {
					if c.m != nil {
						ins[n] = c.m
					}
					switch c.kind {
					case 0:
						want[n] = c.val
					case 2:
						kind |= 2
					case 3:
						kind |= 1
					}
				}
				if decl > 0 {
					m.In = append(m.In, spec.Param{Name: "x", Type: "any", Def: "default x"})
				}
				if decl > 1 {
					m.In = append(m.In, spec.Param{Name: "y", Type: "any"})
				}
				m.Out = []spec.Param{{Name: "x", Type: "any"}}
				s.Inputs = want
				s.Norm()
				if len(ins) == 0 && decl == 0 {
					ins = nil // left out
				}
				x := X{Key: fmt.Sprint(i, j, decl), Orders: w.ord()}
				x.Opts.Inputs = mp{"flowPackage": text24(rig.FlowMap(m), ins), "payload": payload24, "x": "xv", "y": 5}
				switch {
				case kind >= 2:
					x.Judge = nothing24
				case kind == 1:
					x.Judge = either24
				default:
					x.Judge = w.judge24(newModel(s), false)
				}
				w.ExecB(&rig.Built{Act: rig.OnDemand()}, s, x)
			}
		}
	}
}

// nothing24: an error, and nothing has run.
func nothing24(r *rig.Run) (string, string) {
	switch {
	case r.RunErr == nil:
		return "accepted", "no error; observed:\n" + traceText(r)
	case strings.HasPrefix(r.RunErr.Error(), "PANIC"):
		return "panic", r.RunErr.Error()
	case len(r.Obs()) > 0 || r.Dones > 0:
		return "ran", "something is run or reported in spite of the error " + r.RunErr.Error() + ":\n" + traceText(r)
	}
	return "", ""
}

func either24(r *rig.Run) (string, string) {
	if r.RunErr != nil {
		return nothing24(r)
	}
	return id24(r)
}

func (w *W) packages24() {
	_ = activity.Register(&fakeact.Act{})
	_ = coresupport.RegisterAlias("activity", "vprobe", rig.ProbeRef)
	ok := text24(base20(base20small), mp{"x": "=$.x"})
	s := one(fl("m", nil, T("A")))
	run := func(in mp, key string, judge func(r *rig.Run) (string, string)) {
		w.ExecB(&rig.Built{Act: rig.OnDemand()}, s, X{Key: key, Orders: []string{""}, Judge: func(r *rig.Run) (string, string) {
			k, m := judge(r)
			if k != "" {
				if raw, ok := in["flowPackage"].(json.RawMessage); ok {
					m += "\npackage: " + string(raw)
				}
			}
			return k, m
		}, Opts: rig.Options{Inputs: in}})
	}
	// other kinds of values
	if w.Next() {
		run(mp{"x": 1}, "absent", nothing24)
	}
	for i, v := range []any{nil, 7, true, json.RawMessage(nil), json.RawMessage{}, json.RawMessage("null"), json.RawMessage("{}"), json.RawMessage("[]"), json.RawMessage(`"x"`), json.RawMessage("7"), json.RawMessage("{"), json.RawMessage(`{"flow":null}`), json.RawMessage(`{"inputs":{}}`), json.RawMessage(`{"inputs":{"x":1},"flow":{}}`[0:20])} {
		if w.Next() {
			run(mp{"x": 1, "flowPackage": v}, fmt.Sprint("value ", i), nothing24)
		}
	}
	var tree any
	_ = json.Unmarshal(ok, &tree)
	for i, v := range []any{string(ok), []byte(ok), tree, &ok, "", []byte("x"), mp{}} {
		if w.Next() {
			run(mp{"x": 1, "flowPackage": v}, fmt.Sprint("other ", i), either24)
		}
	}
	try := func(text []byte, how string) {
		var v any
		bad, may := false, false
		if err := json.Unmarshal(text, &v); err != nil {
			bad = true
		} else if root, isObj := v.(map[string]any); !isObj {
			bad = true
		} else {
			for _, k := range []string{"inputs", "outputs"} {
				ins, isObj := root[k].(map[string]any)
				if root[k] != nil && !isObj {
					bad = true
				}
				if k == "inputs" {
					for _, x := range ins {
						t, isStr := x.(string)
						if isStr && strings.HasPrefix(t, "=") && t != "=$.x" {
							if t == "=" {
								may = true
							} else {
								bad = true
							}
						}
						if mm, isMap := x.(map[string]any); isMap && mm["mapping"] != nil {
							may = true
						}
					}
				}
			}
			_, e := read20(root["flow"])
			if len(e.must) > 0 {
				bad = true
			}
			may = may || e.may
			for k := range root { // names are matched without regard to case
				if k != "flow" && strings.EqualFold(k, "flow") || k != "inputs" && strings.EqualFold(k, "inputs") {
					may = true
				}
			}
		}
		in := mp{"x": []any{1, 2}, "flowPackage": json.RawMessage(append([]byte(nil), text...))}
		switch {
		case bad && !may:
			w.Count("malformed", 1)
			run(in, how, nothing24)
		case may:
			run(in, how, func(r *rig.Run) (string, string) {
				if r.RunErr != nil {
					return nothing24(r)
				}
				return "", ""
			})
		default:
			w.Count("accepted", 1)
			run(in, how, func(r *rig.Run) (string, string) {
				if r.RunErr != nil {
					return "rejected", "a valid package is rejected: " + r.RunErr.Error()
				}
				if explicit := strings.Contains(string(text), fakeact.Ref) || strings.Contains(string(text), "explicitReply"); !explicit {
					return id24(r)
				}
				return "", ""
			})
		}
	}
	bases := []string{base20small, base20medium, base20rich}
	pkg := func(b string) any {
		var v any
		_ = json.Unmarshal(text24(base20(b), mp{"x": "=$.x", "z": "lit"}), &v)
		return v
	}
	enc := func(v any) []byte {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	for _, b := range bases {
		root := pkg(b)
		for _, d := range devs20(root) {
			if w.Next() {
				if v, ok := d.apply(deep20(root)); ok {
					try(enc(v), d.String())
				}
			}
		}
		text := enc(root)
		for i := range text {
			if w.Next() {
				try(text[:i], "prefix")
			}
			if w.Next() {
				try(append(append([]byte(nil), text[:i]...), text[i+1:]...), "byte left out")
			}
		}
	}
	if w.Quick() {
		return
	}
	root := pkg(base20small)
	ds := devs20(root)
	for i := range ds {
		if w.Stopped() {
			return
		}
		for j := i + 1; j < len(ds); j++ {
			if isPrefix20(ds[i].path, ds[j].path) || !w.Next() {
				continue
			}
			v, ok := ds[j].apply(deep20(root))
			if !ok {
				continue
			}
			if v, ok = ds[i].apply(v); ok {
				try(enc(v), ds[i].String()+" and "+ds[j].String())
			}
		}
	}
}
