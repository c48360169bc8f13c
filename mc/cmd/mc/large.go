package main

import (
	"fmt"

	"verif.local/vmc/spec"
)

// large is beyond the small scope on purpose: a dozen of everything, for what
// depends on a number (two digits, growing collections, sorting).
func (w *W) large() {
	const n = 12
	id := func(p string, i int) string { return fmt.Sprint(p, i) }
	elems := func() []any {
		var a []any
		for i := 0; i < n; i++ {
			a = append(a, id("e", i))
		}
		return a
	}
	obj := func() mp {
		m := mp{}
		for i := 0; i < n; i++ {
			m[id("key", i)] = id("e", i)
		}
		return m
	}
	see := func(k bool) []spec.Map {
		if k {
			return []spec.Map{In("a", spec.Obj("i", spec.Iter("index"), "k", spec.Iter("key"), "v", spec.Iter("value")))}
		}
		return []spec.Map{In("a", spec.Obj("i", spec.Iter("index")))}
	}
	type big struct {
		name string
		k    string // faults
		mk   func() []*spec.FlowDef
	}
	bigs := []big{
		{"chain", "ecLm", func() []*spec.FlowDef {
			f := fl("m", nil)
			for i := 0; i < n; i++ {
				t := T(id("T", i))
				if i > 0 {
					t.In = []spec.Map{In("in", spec.Act(id("T", i-1), "out"))}
					f.Links = append(f.Links, L(id("T", i-1), id("T", i), D))
				}
				f.Tasks = append(f.Tasks, t)
			}
			return []*spec.FlowDef{f}
		}},
		{"skipped chain", "e", func() []*spec.FlowDef {
			f := fl("m", ls(LX("A", "T0", spec.Lit(false)), L("A", "B", O), L("B", "J", D), L(id("T", n-1), "J", D)), T("A"), T("B"), T("J"))
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, T(id("T", i)))
				if i > 0 {
					f.Links = append(f.Links, L(id("T", i-1), id("T", i), D))
				}
			}
			return []*spec.FlowDef{f}
		}},
		{"fork", "ec", func() []*spec.FlowDef {
			f := fl("m", nil, T("A"), T("J"))
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, T(id("T", i)))
				f.Links = append(f.Links, L("A", id("T", i), D), L(id("T", i), "J", D))
			}
			return []*spec.FlowDef{f}
		}},
		{"conditions", "eL", func() []*spec.FlowDef {
			f := fl("m", ls(L("A", "O", O)), T("A"), T("J"), T("O"))
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, T(id("T", i)))
				f.Links = append(f.Links, LX("A", id("T", i), spec.Lit(i%3 == 1)), L(id("T", i), "J", D))
			}
			return []*spec.FlowDef{f}
		}},
		{"kinds", "e", func() []*spec.FlowDef {
			f := fl("m", nil, T("A"))
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, T(id("T", i)))
				switch i % 4 {
				case 0:
					f.Links = append(f.Links, L("A", id("T", i), D))
				case 1:
					f.Links = append(f.Links, LX("A", id("T", i), spec.Lit(true)))
				case 2:
					f.Links = append(f.Links, L("A", id("T", i), B))
				case 3:
					f.Links = append(f.Links, L("A", id("T", i), E))
				}
			}
			return []*spec.FlowDef{f}
		}},
		{"starts", "ec", func() []*spec.FlowDef {
			f := fl("m", nil)
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, T(id("T", i)))
			}
			return []*spec.FlowDef{f}
		}},
		{"retry", "", func() []*spec.FlowDef {
			return []*spec.FlowDef{fl("m", ls(L("R", "B", D)), retryT("R", n), T("B"))}
		}},
		{"nested", "ecrR", func() []*spec.FlowDef {
			var fs []*spec.FlowDef
			for i := 0; i < 8; i++ {
				name := "m"
				if i > 0 {
					name = id("k", i)
				}
				f := fl(name, nil, T("P"))
				if i < 7 {
					f.Tasks = append(f.Tasks, sub("S", id("k", i+1), In("x", spec.Lit(i))), T("Q"))
					f.Links = ls(L("P", "S", D), L("S", "Q", D))
				}
				if i > 0 {
					f.In = []spec.Param{{Name: "x", Type: "any"}}
					f.Tasks[0].In = []spec.Map{In("in", spec.Flow("x"))}
				}
				fs = append(fs, f)
			}
			return fs
		}},
		{"calls", "er", func() []*spec.FlowDef {
			f := fl("m", nil, T("J"))
			for i := 0; i < n; i++ {
				f.Tasks = append(f.Tasks, sub(id("S", i), "k", In("x", spec.Lit(i))))
				if i > 0 {
					f.Links = append(f.Links, L(id("S", i-1), id("S", i), D))
				}
			}
			f.Links = append(f.Links, L(id("S", n-1), "J", D))
			k := fl("k", nil, T("P", In("in", spec.Flow("x")), In("a", spec.Ctx("FlowId"))))
			k.In = []spec.Param{{Name: "x", Type: "any"}}
			return []*spec.FlowDef{f, k}
		}},
		{"calls at once", "", func() []*spec.FlowDef {
			f := fl("m", nil, T("J"))
			for i := 0; i < 6; i++ {
				f.Tasks = append(f.Tasks, sub(id("S", i), "k", In("x", spec.Lit(i))))
				f.Links = append(f.Links, L(id("S", i), "J", D))
			}
			k := fl("k", nil, T("P", In("in", spec.Flow("x"))))
			k.In = []spec.Param{{Name: "x", Type: "any"}}
			return []*spec.FlowDef{f, k}
		}},
		{"iterated calls", "e", func() []*spec.FlowDef {
			i := iterT("I", n, In("x", spec.Iter("value")))
			i.Sub = "k"
			k := fl("k", ls(L("P", "Q", D)), T("P", In("in", spec.Flow("x"))), T("Q"))
			k.In = []spec.Param{{Name: "x", Type: "any"}}
			return []*spec.FlowDef{fl("m", ls(L("I", "B", D)), i, T("B")), k}
		}},
	}
	for _, over := range []any{n, fmt.Sprint(n), float64(n), elems(), obj()} {
		for _, acc := range []bool{false, true} {
			over, acc := over, acc
			bigs = append(bigs, big{fmt.Sprintf("iterator %T %v", over, acc), "e", func() []*spec.FlowDef {
				t := &spec.Task{ID: "I", Kind: "iterator", Loop: &spec.Loop{OverV: over, Accum: acc}, In: see(true)}
				b := T("B")
				if acc {
					b.In = []spec.Map{In("a", spec.Acc("I"))}
				}
				return []*spec.FlowDef{fl("m", ls(L("I", "B", D)), t, b)}
			}})
		}
	}
	for _, acc := range []bool{false, true} {
		acc := acc
		bigs = append(bigs, big{fmt.Sprint("doWhile ", acc), "e", func() []*spec.FlowDef {
			t := whileT("W", n, see(false)...)
			t.Loop.Accum = acc
			b := T("B")
			if acc {
				b.In = []spec.Map{In("a", spec.Acc("W"))}
			}
			return []*spec.FlowDef{fl("m", ls(L("W", "B", D)), t, b)}
		}})
	}
	for _, b := range bigs {
		for h := 0; h < 2; h++ {
			st := structure{b.name, b.mk}
			mk := st.scenario(h, 0)
			w.withFaults(mk, b.k, 1, func(s *spec.Scenario, key string) {
				w.Exec(s, X{Orders: w.ord(), Key: "large " + b.name + fmt.Sprint(h) + key})
			})
			if b.name == "retry" {
				for m := 1; m <= n+2; m++ {
					if !w.Next() {
						continue
					}
					s := mk()
					for i := 0; i < m; i++ {
						s.Script["m/R"] = append(s.Script["m/R"], spec.Outcome{Kind: "retri", Msg: id("boom ", i)})
					}
					w.Exec(s, X{Orders: []string{""}, Key: fmt.Sprint("large retry", h, m)})
				}
			}
		}
	}
}
