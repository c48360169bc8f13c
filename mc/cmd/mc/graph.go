package main

import (
	"fmt"
	"strings"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

// graphs enumerates flow graphs: every assignment of a letter of the alphabet
// to every pair i<j of n tasks.
//
// A letter is a link kind; 't' and 'f' are expression links that are true and
// false (their value is a flow input, so both share one definition).
func graphs(n int, letters func(i, j int) string, f func(code []byte)) {
	pairs := n * (n - 1) / 2
	code := make([]byte, pairs)
	var abc []string
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a := ""
			for _, c := range letters(i, j) {
				if c != 'f' {
					a += string(c)
				}
			}
			abc = append(abc, a)
		}
	}
	var rec func(k int)
	rec = func(k int) {
		if k == pairs {
			f(code)
			return
		}
		for i := 0; i < len(abc[k]); i++ {
			code[k] = abc[k][i]
			rec(k + 1)
		}
	}
	rec(0)
}

var kindOf = map[byte]string{'d': spec.Dep, 't': spec.XExpr, 'f': spec.XExpr, 'e': spec.Error, 'o': spec.Otherw, 'l': spec.Label}

// graphFlow builds the flow of a code; rev lists the links in reverse.
func graphFlow(name string, n int, code []byte, rev bool, handler int) (*spec.FlowDef, map[string]any) {
	ns := names(n)
	f := &spec.FlowDef{Name: name}
	in := map[string]any{}
	for _, t := range ns {
		f.Tasks = append(f.Tasks, T(t))
	}
	k := 0
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			c := code[k]
			k++
			if c == '-' {
				continue
			}
			l := L(ns[i], ns[j], kindOf[c])
			if c == 't' || c == 'f' {
				v := fmt.Sprintf("x%d%d", i, j)
				l.X = spec.Flow(v)
				in[v] = c == 't'
				f.In = append(f.In, spec.Param{Name: v, Type: "boolean"})
			}
			f.Links = append(f.Links, l)
		}
	}
	if rev {
		for i, j := 0, len(f.Links)-1; i < j; i, j = i+1, j-1 {
			f.Links[i], f.Links[j] = f.Links[j], f.Links[i]
		}
	}
	switch handler {
	case 1:
		f.Handler = &spec.Body{Tasks: []*spec.Task{T("H")}}
	case 2:
		f.Handler = &spec.Body{Tasks: []*spec.Task{T("H"), T("H2")}, Links: []*spec.Link{L("H", "H2", spec.Dep)}}
	}
	return f, in
}

// connected: no isolated pair structure is dropped, but two graphs that differ
// only in unreachable permutations are all kept; only graphs in which some
// task has neither links nor peers are trivial.
func defKey(code []byte) string {
	b := append([]byte(nil), code...)
	for i := range b {
		if b[i] == 'f' {
			b[i] = 't'
		}
	}
	return string(b)
}

type graphOpt struct {
	n        int
	alphabet string
	handlers []int
	revs     []bool
	fails    func(n int) []uint // masks of failing tasks
	orders   []string
	fail     spec.Outcome
	explore  bool
	accept   func(r *rig.Run, fin []*ref.State) (string, string)
	filter   func(code []byte, n int) bool
	embed    bool // the graph is a subflow of a small parent
	envs     []map[string]string
	letters  func(i, j int) string // alphabet per pair, instead of alphabet
	decorate func(f *spec.FlowDef) // changes the flow
}

func allMasks(n int) []uint {
	var m []uint
	for i := uint(0); i < 1<<uint(n); i++ {
		m = append(m, i)
	}
	return m
}

func noMasks(n int) []uint { return []uint{0} }

func maxOneFail(n int) []uint {
	m := []uint{0}
	for i := 0; i < n; i++ {
		m = append(m, 1<<uint(i))
	}
	return m
}

// runGraphs runs a family of graphs; a unit is one definition (all expression
// truth values and failures of it).
func (w *W) runGraphs(o graphOpt) {
	if o.fail.Kind == "" {
		o.fail = failOutcome
	}
	// distinct definitions: expression letters collapse to 't'
	letters := o.letters
	if letters == nil {
		letters = func(i, j int) string { return o.alphabet }
	}
	hasF := strings.Contains(letters(0, 1), "f")
	envs := o.envs
	if envs == nil {
		envs = []map[string]string{nil}
	}
	for _, h := range o.handlers {
		for _, rev := range o.revs {
			graphs(o.n, letters, func(code []byte) {
				if w.stop {
					return
				}
				if o.filter != nil && !o.filter(code, o.n) {
					return
				}
				nl := 0
				for _, c := range code {
					if c != '-' {
						nl++
					}
				}
				if rev && nl < 2 {
					return
				}
				if !w.Next() {
					return
				}
				f, in := graphFlow("g", o.n, code, rev, h)
				if o.decorate != nil {
					o.decorate(f)
				}
				s := one(f)
				if o.embed {
					p := &spec.FlowDef{Name: "p"}
					p.Tasks = []*spec.Task{sub("S", "g"), T("Z"), T("Y")}
					p.Links = []*spec.Link{L("S", "Z", spec.Dep), L("S", "Y", spec.Error)}
					for k := range in {
						p.In = append(p.In, spec.Param{Name: k, Type: "boolean"})
						p.Tasks[0].In = append(p.Tasks[0].In, In(k, spec.Flow(k)))
					}
					s = one(p, f)
				}
				b, err := rig.Build(s)
				if err != nil {
					w.R.Evals++
					w.Violate("load", "the definition cannot be loaded: "+err.Error(), s)
					return
				}
				var xs []string
				k := 0
				for i := 0; i < o.n; i++ {
					for j := i + 1; j < o.n; j++ {
						if code[k] == 't' {
							xs = append(xs, fmt.Sprintf("x%d%d", i, j))
						}
						k++
					}
				}
				truths := 1
				if hasF {
					truths = 1 << uint(len(xs))
				}
				ns := names(o.n)
				for _, fm := range o.fails(o.n) {
					for t := 0; t < truths; t++ {
						s.Inputs = map[string]any{}
						for i, x := range xs {
							s.Inputs[x] = t&(1<<uint(i)) == 0
						}
						s.Script = map[string][]spec.Outcome{}
						for i := 0; i < o.n; i++ {
							if fm&(1<<uint(i)) != 0 {
								fo := o.fail
								fo.Msg += " " + ns[i]
								s.Script["g/"+ns[i]] = []spec.Outcome{fo}
							}
						}
						for ei, env := range envs {
							s.Env = env
							w.ExecB(b, s, X{Orders: o.orders, Explore: o.explore, Accept: o.accept, Trivial: nl == 0, Key: fmt.Sprint(string(code), h, rev, fm, t, ei)})
							if w.stop {
								return
							}
						}
					}
				}
			})
		}
	}
}

// oneOtherwise: no task has two otherwise links (their meaning is not defined).
func oneOtherwise(code []byte, n int) bool {
	k := 0
	for i := 0; i < n; i++ {
		c := 0
		for j := i + 1; j < n; j++ {
			if code[k] == 'o' {
				c++
			}
			k++
		}
		if c > 1 {
			return false
		}
	}
	return true
}
