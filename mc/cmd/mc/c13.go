package main

import (
	"verif.local/vmc/spec"
)

type act13 struct {
	name string
	sub  bool // meaningful in a subflow
	loop bool // meaningful in a loop
	o    spec.Outcome
}

var acts13 = []act13{
	{"ret", true, true, spec.Outcome{Kind: "ret", Ret: mp{"r": 1}}},
	{"ret empty", true, true, spec.Outcome{Kind: "ret", Ret: mp{}}},
	{"ret more", true, true, spec.Outcome{Kind: "ret", Ret: mp{"r": mp{"deep": []any{1, mp{"k": nil}}}, "d": "dd", "u": "undeclared"}}},
	{"ret its input", true, true, spec.Outcome{Kind: "ret", RetIn: "r"}},
	{"ret error", false, false, spec.Outcome{Kind: "ret", RetErr: "returned error"}},
	{"ret data and error", false, false, spec.Outcome{Kind: "ret", Ret: mp{"r": 2}, RetErr: "returned error 2"}},
	{"ret nothing", true, true, spec.Outcome{Kind: "ret"}},
	{"reply", false, true, spec.Outcome{Kind: "reply", Ret: mp{"r": "replied", "u": 3}}},
	{"reply error", false, true, spec.Outcome{Kind: "reply", RetErr: "replied error"}},
	{"reply empty", false, true, spec.Outcome{Kind: "reply", Ret: mp{}}},
	{"err", true, true, spec.Outcome{Kind: "err", Msg: "boom"}},
	{"set", true, true, spec.Outcome{Kind: "ok", SetAttr: "x", SetVal: "changed"}},
}

func init() {
	register(&Check{
		ID: "C13", Core: true,
		Assume: append([]string{
			"left open: what a run that replied or returned neither data nor error finally reports as data; replies and returned errors of subflows",
			"a return made in a loop takes effect when the looping task is done"}, commonAssume...),
		Rule: "flow structures (common ones and parallel branches with subflows, nested subflows, loops over subflows) x error handlers x every choice of up to k tasks doing something special (7 forms of returning, 3 of replying, failing, changing data); the caller's calls and every activity invocation are compared; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2 (1 in structures with more than 8 tasks); handlers {none, chain}"
			}
			return "k=3 (2 in structures with more than 8 tasks); handlers {none, 1 task, chain}; two collection orders"
		},
		Run: run13,
	})
}

func run13(w *W) {
	var sts []structure
	sts = append(sts, structures...)
	for i := range branches12 {
		i := i
		if branches12[i].sub == "" {
			continue
		}
		for j := range branches12 {
			j := j
			sts = append(sts, structure{branches12[i].name + " beside " + branches12[j].name, func() []*spec.FlowDef {
				s := scenario12([]int{j, i}, 0, 0, 0)
				fs := []*spec.FlowDef{s.Flows["m"]}
				for _, n := range []string{"k", "n"} {
					if f := s.Flows[n]; f != nil {
						fs = append(fs, f)
					}
				}
				return fs
			}})
		}
	}
	hs := [][2]int{{0, 0}, {2, 0}, {0, 2}}
	if !w.Quick() {
		hs = [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}}
	}
	for _, st := range sts {
		for _, h := range hs {
			if h[1] > 0 && len(st.mk()) < 2 {
				continue
			}
			w.choose13(st, h)
		}
	}
}

func (w *W) choose13(st structure, h [2]int) {
	mk := func() *spec.Scenario {
		s := st.scenario(h[0], h[1])()
		for _, f := range s.Flows {
			f.In = []spec.Param{{Name: "x", Type: "any", Def: "dx"}}
			f.Out = []spec.Param{{Name: "r", Type: "any"}, {Name: "d", Type: "string", Def: "declared"}, {Name: "x", Type: "any"}}
			for _, t := range f.All {
				if t.Sub == "" {
					t.In = append(t.In, In("in", spec.Flow("x")))
				} else {
					t.In = append(t.In, In("x", spec.Lit("to "+t.ID)))
				}
			}
		}
		return s.Norm()
	}
	base := mk()
	type pl struct {
		key       string
		sub, loop bool
	}
	var ps []pl
	n := 0
	for _, fn := range base.FlowNames() {
		for _, t := range base.Flows[fn].All {
			n++
			if t.Sub == "" {
				ps = append(ps, pl{fn + "/" + t.ID, fn != "m", t.Loop != nil})
			}
		}
	}
	k := 2
	if !w.Quick() {
		k = 3
	}
	if n > 8 {
		k--
	}
	var rec func(from int, key string, apply func(s *spec.Scenario), left int)
	rec = func(from int, key string, apply func(s *spec.Scenario), left int) {
		if w.stop {
			return
		}
		if w.Next() {
			s := mk()
			apply(s)
			s.Note = key
			w.Exec(s.Norm(), X{Key: key, Orders: w.ord()})
		}
		if left == 0 {
			return
		}
		for i := from; i < len(ps); i++ {
			for _, a := range acts13 {
				if ps[i].sub && !a.sub || ps[i].loop && !a.loop {
					continue
				}
				o, at := a.o, ps[i].key
				if o.RetIn != "" && left == 1 && from > 0 {
					// fine
				}
				rec(i+1, key+at+":"+a.name+",", func(s *spec.Scenario) {
					apply(s)
					s.Script[at] = []spec.Outcome{o}
					if o.Kind == "reply" && ps[i].loop { // once more
						s.Script[at] = []spec.Outcome{o, o}
					}
				}, left-1)
			}
		}
	}
	rec(0, st.name+" ", func(s *spec.Scenario) {}, k)
}
