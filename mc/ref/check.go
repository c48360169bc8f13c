package ref

import (
	"fmt"
	"strings"

	"verif.local/vmc/spec"
)

// Stats counts what an exploration or a validation visited.
type Stats struct {
	States, Trans int64
	Cut           int64 // validations given up: too many states to follow
	Finals        int64
	Obs           int64
}

func (a *Stats) Add(b Stats) {
	a.States += b.States
	a.Trans += b.Trans
	a.Finals += b.Finals
	a.Obs += b.Obs
	a.Cut += b.Cut
}

// Mismatch says where a trace leaves the model.
type Mismatch struct {
	At   int
	Obs  string
	Want []string
}

func (m *Mismatch) Error() string {
	return fmt.Sprintf("observation %d %s is not possible; the model allows: %s", m.At, m.Obs, strings.Join(m.Want, " | "))
}

func (o *Obs) String() string {
	switch o.Kind {
	case "eval":
		return fmt.Sprintf("eval %s/%s#%d(%s)[%s] in=%s slept=%g", o.Flow, o.Task, o.N, o.Inst, "", spec.Canon(o.In), o.Slept)
	case "outcome", "reply":
		if o.HasEr {
			return fmt.Sprintf("%s error(%s) data=%s", o.Kind, o.Err, spec.Canon(o.Data))
		}
		return fmt.Sprintf("%s data=%s", o.Kind, spec.Canon(o.Data))
	}
	return o.Kind
}

// closure extends the set by all silent steps.
func closure(set []*State, st *Stats, limit int) []*State {
	seen := map[string]bool{}
	var out []*State
	var todo []*State
	add := func(s *State) {
		if len(out) > 0 || len(todo) > 0 {
			k := s.Key()
			if len(out) == 1 && len(seen) == 0 {
				seen[out[0].Key()] = true
			}
			if seen[k] {
				return
			}
			seen[k] = true
		}
		st.States++
		out = append(out, s)
		todo = append(todo, s)
	}
	for _, s := range set {
		add(s)
	}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		for _, e := range s.Enabled() {
			if s.M.Conc {
				n, _ := s.Step(e)
				st.Trans++
				add(n)
				if len(out) > limit {
					return nil
				}
				continue
			}
			it := s.Q[e.Q]
			t := s.I[it.inst].F.All[it.task]
			if !it.post && t.Sub == "" && !maySilent(s, it) {
				continue
			}
			n, lab := s.Step(e)
			if lab == nil {
				st.Trans++
				add(n)
				if len(out) > limit {
					return nil
				}
			}
		}
	}
	return out
}

func maySilent(s *State, it item) bool {
	n := s.I[it.inst]
	t := n.F.All[it.task]
	if t.Kind != "" || len(t.SIn) > 0 {
		return true
	}
	if s.M.Ins != nil {
		return true
	}
	for _, m := range t.In {
		if _, e := m.X.Eval(scope{n, it.task}); e != nil {
			return true
		}
	}
	return false
}

// Validate follows a trace through the model.  On success it returns the
// states the run may have ended in.
func (m *Model) Validate(trace []Obs, st *Stats) ([]*State, *Mismatch) {
	set := []*State{m.Init()}
	for k := range trace {
		o := &trace[k]
		st.Obs++
		if set = closure(set, st, 5000); set == nil {
			st.Cut++
			return nil, nil
		}
		var next []*State
		for _, s := range set {
			if m.Conc && o.Kind == "eval" {
				for j := range s.Run {
					if s.Run[j].stage > 0 {
						continue
					}
					if n, lab := s.show(j); n.matchEval(lab, o) {
						st.Trans++
						next = append(next, n)
					}
				}
				continue
			}
			if len(s.Pend) > 0 {
				if s.matchPend(&s.Pend[0], o) {
					n := s.clone()
					n.Pend = s.Pend[1:]
					next = append(next, n)
					st.Trans++
				}
				continue
			}
			if o.Kind != "eval" {
				continue
			}
			for _, e := range s.Enabled() {
				if show, _ := s.couldShow(e, o); !show {
					continue
				}
				n, lab := s.Step(e)
				if lab != nil && n.matchEval(lab, o) {
					st.Trans++
					next = append(next, n)
				}
			}
		}
		if len(next) == 0 {
			mm := &Mismatch{At: k, Obs: o.String()}
			w := map[string]bool{}
			for _, s := range set {
				for _, x := range s.Next() {
					if !w[x] && len(mm.Want) < 12 {
						w[x] = true
						mm.Want = append(mm.Want, x)
					}
				}
			}
			if len(mm.Want) == 0 {
				mm.Want = []string{"nothing (the run has ended)"}
			}
			return set, mm
		}
		set = next
	}
	// after the whole trace the run must be over
	if set = closure(set, st, 5000); set == nil {
		st.Cut++
		return nil, nil
	}
	var fin []*State
	var mm *Mismatch
	for _, s := range set {
		if s.Ended && len(s.Pend) == 0 {
			fin = append(fin, s)
		}
	}
	if len(fin) == 0 {
		mm = &Mismatch{At: len(trace), Obs: "end of run"}
		w := map[string]bool{}
		for _, s := range set {
			for _, x := range s.Next() {
				if !w[x] && len(mm.Want) < 12 {
					w[x] = true
					mm.Want = append(mm.Want, x)
				}
			}
		}
		return set, mm
	}
	return fin, nil
}

// Next lists what the state allows to be observed next.
func (s *State) Next() []string {
	if len(s.Pend) > 0 {
		return []string{s.Pend[0].String()}
	}
	var out []string
	for k := range s.Run {
		if s.Run[k].stage == 0 {
			out = append(out, s.Run[k].lab.String())
		}
	}
	for _, e := range s.Enabled() {
		_, lab := s.Step(e)
		if lab != nil {
			x := lab.String()
			if lab.wait+lab.dwait > 0 {
				x += fmt.Sprintf(" after %gms", lab.wait+lab.dwait)
			}
			out = append(out, x)
		}
	}
	return out
}

// Explore enumerates every state the scenario can reach and checks the model's
// own invariants; it returns the distinct final outcomes.
func (m *Model) Explore(st *Stats, limit int) (outcomes map[string]bool, full bool, bad string) {
	outcomes = map[string]bool{}
	seen := map[string]bool{}
	init := m.Init()
	stack := []*State{init}
	seen[init.Key()] = true
	st.States++
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if s.Ended {
			st.Finals++
			p := s.Pend[len(s.Pend)-1]
			outcomes[p.String()] = true
			n := 0
			for _, q := range s.Pend {
				if q.Kind == "outcome" {
					n++
				}
			}
			if n != 1 {
				return outcomes, true, "model: run ended without exactly one outcome: " + s.Key()
			}
			continue
		}
		t := s
		if len(s.Pend) > 0 {
			t = s.clone()
			t.Pend = nil
		}
		es := t.Enabled()
		if len(es) == 0 {
			return outcomes, true, "model: deadlock: " + s.Key()
		}
		for _, e := range es {
			n, _ := t.Step(e)
			st.Trans++
			if b := n.invariant(); b != "" {
				return outcomes, true, "model: " + b
			}
			k := n.Key()
			if seen[k] {
				continue
			}
			seen[k] = true
			st.States++
			stack = append(stack, n)
			if len(seen) > limit {
				return outcomes, false, ""
			}
		}
	}
	return outcomes, true, ""
}

// invariant states the structural part of C01/C12 on the model itself.
func (s *State) invariant() string {
	for i, n := range s.I {
		for t := range n.T {
			ts := &n.T[t]
			task := n.F.All[t]
			if ts.runs > 1 {
				return fmt.Sprintf("task %s completed twice", task.ID)
			}
			anyT, und := false, false
			for _, l := range task.In_ {
				anyT = anyT || n.L[l] == LTrue
				und = und || n.L[l] == LNone
			}
			switch ts.st {
			case TReady, TWait, TDone, TFail:
				if len(task.In_) > 0 && (!anyT || und) {
					return fmt.Sprintf("task %s of %d started before its joins", task.ID, i)
				}
			case TSkip:
				if anyT || und || len(task.In_) == 0 {
					return fmt.Sprintf("task %s of %d skipped although reachable", task.ID, i)
				}
			}
		}
	}
	for _, it := range s.Q {
		if !s.live(it.inst) {
			return "work of an ended flow is queued"
		}
	}
	return ""
}
