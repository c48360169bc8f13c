package ref

import "verif.local/vmc/spec"

// Branch is where ready work comes from: the choice points on the way to it.
type Branch struct {
	Group, Prio int // Prio < 0: not ordered against its siblings
}

// PriorityOf gives the rank of a link kind; higher starts first.
func PriorityOf(kind string, exprFirst bool) int {
	if exprFirst {
		return map[string]int{spec.XExpr: 3, spec.Otherw: 2, spec.Label: 1, spec.Dep: 0}[kind]
	}
	return map[string]int{spec.Label: 3, spec.Otherw: 2, spec.XExpr: 1, spec.Dep: 0}[kind]
}

// CheckPriority decides the order of sibling branches (C03) on a trace of a
// single flow without subflows that the model accepts: no task starts while
// work of a sibling branch with a higher priority is ready.
func (m *Model) CheckPriority(trace []Obs, exprFirst bool) string {
	st := m.Init()
	chain := map[int][]Branch{} // ready task -> choices
	for _, it := range st.Q {
		chain[it.task] = nil
	}
	groups := 0
	f := st.I[0].F
	for k := range trace {
		o := &trace[k]
		if o.Kind != "eval" {
			continue
		}
		var next *State
		at := -1
		for _, e := range st.Enabled() {
			if f.All[st.Q[e.Q].task].ID != o.Task {
				continue
			}
			n, lab := st.Step(e)
			if lab == nil { // an iterator choosing its elements, or finding no more of them
				st = n
				for _, e := range st.Enabled() {
					if f.All[st.Q[e.Q].task].ID == o.Task {
						n2, lab := st.Step(e)
						if lab != nil && n2.matchEval(lab, o) {
							next, at = n2, st.Q[e.Q].task
						}
					}
				}
				break
			}
			if n.matchEval(lab, o) {
				next, at = n, st.Q[e.Q].task
				break
			}
		}
		if next == nil {
			return ""
		}
		mine := chain[at]
		for _, it := range st.Q {
			if it.task == at {
				continue
			}
			other := chain[it.task]
			for d := 0; d < len(mine) && d < len(other); d++ {
				a, b := mine[d], other[d]
				if a.Group != b.Group {
					break
				}
				if a == b {
					continue
				}
				if a.Prio >= 0 && b.Prio > a.Prio {
					return "task " + o.Task + " starts while work of a higher priority branch (task " + f.All[it.task].ID + ") is ready"
				}
				break
			}
		}
		// an iterator that has no more elements ends silently: follow it
		next = drain(next)
		groups++
		had := map[int]bool{}
		for _, it := range st.Q {
			if it.task != at {
				had[it.task] = true
			}
		}
		nc := map[int][]Branch{}
		for _, it := range next.Q {
			t := it.task
			if had[t] {
				nc[t] = chain[t]
				continue
			}
			if t == at {
				nc[t] = mine
				continue
			}
			nc[t] = append(append([]Branch(nil), mine...), Branch{groups, next.prio(st, at, t, exprFirst)})
			if b := &nc[t][len(nc[t])-1]; b.Prio < 0 {
				b.Prio = -1 - t // equal to no sibling
			}
		}
		chain = nc
		st = next
	}
	return ""
}

// drain takes the silent steps of iterators that are at their end.
func drain(s *State) *State {
	for {
		again := false
		for _, e := range s.Enabled() {
			it := s.Q[e.Q]
			ts := &s.I[it.inst].T[it.task]
			if ts.loop != nil && ts.loop.i+1 >= len(ts.loop.vals) {
				n, lab := s.Step(e)
				if lab == nil {
					s, again = n, true
					break
				}
			}
		}
		if !again {
			return s
		}
	}
}

// prio: the priority of t becoming ready because of from, when its join was
// complete but for followed direct links; -1 otherwise.
func (s *State) prio(before *State, from, t int, exprFirst bool) int {
	n, b := s.I[0], before.I[0]
	p := -1
	for _, l := range n.F.All[t].In_ {
		if n.F.From(l) == from {
			if n.L[l] != LTrue {
				return -1
			}
			k := n.F.LAll[l].Kind
			if k == spec.Error {
				return -1
			}
			if p >= 0 {
				return -1
			}
			p = PriorityOf(k, exprFirst)
			continue
		}
		if b.L[l] == LNone {
			return -1
		}
	}
	return p
}
