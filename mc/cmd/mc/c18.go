package main

import (
	"fmt"
	"strings"

	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID: "C18",
		Configs: func(tier string) []Conf {
			cs := []Conf{{Name: "events", Rig: rig.Config{Events: true}}}
			ls := []int{1, 2, 3, 4, 5}
			if tier == "thorough" {
				ls = []int{1, 2, 3, 4, 5, 6, 7}
			}
			for _, l := range ls {
				cs = append(cs, Conf{Name: fmt.Sprint("limit", l), Rig: rig.Config{Events: true}, Env: map[string]string{"FLOGO_MAX_STEP_COUNT": fmt.Sprint(l)}, Shards: 1})
			}
			return cs
		},
		Assume: append([]string{
			"a subflow or task that was given up (its flow ended or went to its error handler) needs no final event",
			"created, scheduled and waiting events and repeated started events of looping, retried and calling tasks are left open, as are the inputs of an event posted before they are evaluated"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies, with listeners for flow and task events registered; the sequence of events, with the activity invocations marked in it, must tell what the reference model says happened: per flow and task the right events with the right names, ids, parents, data and errors, in an order compatible with causality; distinct by event sequence",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=3 without handlers, k=2 with handlers {1 task, chain, error link}; one collection order; step limits 1..5 with k-1"
			}
			return "k=3 without handlers and with one task of main and sub, k=2 with handlers {1 task, chain, error link}; two collection orders; step limits 1..7 with k-1"
		},
		Run: run18,
	})
}

func run18(w *W) {
	hs := [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}}
	limited := w.Conf.Env != nil
	for _, st := range structs19() {
		for _, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			k := 2
			if h[0]+h[1] == 0 || !w.Quick() && h[0]*h[1] == 1 {
				k = 3
			}
			if limited {
				k--
			}
			each := func(s *spec.Scenario, key string) {
				x := X{Orders: w.ord(), Key: st.name + key}
				if limited {
					x.Judge = func(r *rig.Run) (string, string) { return limit18(r) }
				} else {
					x.Accept = events18
					x.Model = newModel(s)
					x.Model.Whole = true
				}
				w.Exec(s, x)
			}
			w.withFaults(mk, "ecprmMisblLRyf", k, each)
			w.withFaults(mk, "vVe", k-1, each)
		}
	}
}

const (
	evStarted   = "Started"
	evCompleted = "Completed"
	evFailed    = "Failed"
	evSkipped   = "Skipped"
	evCancelled = "Cancelled"
)

func eventText(r *rig.Run) string {
	var b strings.Builder
	for k, e := range r.Events {
		fmt.Fprintf(&b, "  %d %s\n", k, e.String())
	}
	return b.String()
}

// limit18: a run stopped by the step limit is reported as failed.
func limit18(r *rig.Run) (string, string) {
	if k, m := protocol(r); k != "" {
		return k, m
	}
	var out *ref.Obs
	for i := range r.Trace {
		if r.Trace[i].Kind == "outcome" {
			out = &r.Trace[i]
		}
	}
	var fs []rig.Event
	main := ""
	last := -1
	for i, e := range r.Events {
		if e.Kind == "flow" && e.Status != "Created" {
			if main == "" {
				main = e.FlowID
			}
			if e.FlowID == main {
				fs = append(fs, e)
				last = i
			}
		}
	}
	if len(fs) != 2 || fs[0].Status != evStarted {
		return "flow-events", fmt.Sprintf("the main flow has %d events instead of started and one final event:\n%s", len(fs), eventText(r))
	}
	for _, e := range r.Events[last+1:] {
		if e.Kind == "flow" || e.Kind == "task" {
			return "after-final", "an event follows the final event of the main flow:\n" + eventText(r)
		}
	}
	returned := out.HasEr && fs[1].Status == evCompleted // returned with an error
	if out.HasEr && !returned && (fs[1].Status != evFailed || !fs[1].HasErr || fs[1].Err != out.Err) {
		return "final", fmt.Sprintf("the run failed (%s) but its final event is %s (%s):\n%s", out.Err, fs[1].Status, fs[1].Err, eventText(r))
	}
	if returned && strings.Contains(out.Err, "limit") {
		return "final", "the run was stopped by the step limit but its final event says it completed:\n" + eventText(r)
	}
	if !out.HasEr && fs[1].Status != evCompleted {
		return "final", fmt.Sprintf("the run completed but its final event is %s:\n%s", fs[1].Status, eventText(r))
	}
	return "", ""
}

func events18(r *rig.Run, fin []*ref.State) (string, string) {
	key, msg := "", ""
	for _, f := range fin {
		k, m := tells(r, f)
		if k == "" {
			return "", ""
		}
		if key == "" {
			key = k
		}
		if len(msg) < 2000 && !strings.Contains(msg, m) {
			msg += m + "\n"
		}
	}
	return key, msg + "events:\n" + eventText(r)
}

func final(st string) bool { return st == evCompleted || st == evFailed || st == evCancelled }

// tells compares the events with a final state of the model.
func tells(r *rig.Run, f *ref.State) (string, string) {
	if len(r.Events) > 0 && r.Events[len(r.Events)-1].Kind == "lost" {
		return "lost", "events were not delivered"
	}
	type flowEv struct {
		started, fin []int
		first, last  int
		name         string
	}
	flows := map[string]*flowEv{}
	var order []string
	for k, e := range r.Events {
		if k > 0 && (e.Kind == "flow" || e.Kind == "task") {
			for p := k - 1; p >= 0; p-- {
				if q := r.Events[p]; q.Kind == "flow" || q.Kind == "task" {
					if e.T.Before(q.T) {
						return "time", fmt.Sprintf("event %d is dated before event %d", k, p)
					}
					break
				}
			}
		}
		if e.Kind != "flow" && e.Kind != "task" {
			continue
		}
		fe := flows[e.FlowID]
		if fe == nil {
			fe = &flowEv{first: k, name: e.Flow}
			flows[e.FlowID] = fe
			order = append(order, e.FlowID)
		}
		fe.last = k
		if fe.name != e.Flow {
			return "name", fmt.Sprintf("event %d names the flow %s, others with the same id %s", k, e.Flow, fe.name)
		}
		if e.Kind != "flow" {
			continue
		}
		switch {
		case e.Status == evStarted:
			fe.started = append(fe.started, k)
		case final(e.Status):
			fe.fin = append(fe.fin, k)
		case e.Status != "Created":
			return "status", fmt.Sprintf("event %d has the unexpected status %s", k, e.Status)
		}
	}
	// which instance is which
	ids := make([]string, len(f.I))
	used := map[string]bool{}
	for i, n := range f.I {
		if n.ID != "" {
			ids[i] = n.ID
			used[n.ID] = true
		}
	}
	for i, n := range f.I {
		if ids[i] != "" {
			continue
		}
		for _, id := range order {
			e := flows[id]
			if used[id] || e.name != n.F.Name || len(e.started) == 0 {
				continue
			}
			st := r.Events[e.started[0]]
			if n.Parent < 0 && st.PFlowID == "" || n.Parent >= 0 && st.PFlowID == ids[n.Parent] && st.HostTask == f.I[n.Parent].F.All[n.Host].ID {
				ids[i] = id
				used[id] = true
				break
			}
		}
		if ids[i] == "" {
			return "started", fmt.Sprintf("no started event for flow %s", n.F.Name)
		}
	}
	for _, id := range order {
		if !used[id] {
			return "extra", fmt.Sprintf("events of a flow instance %s that never was", id)
		}
	}
	// evaluations by task instance
	type span struct{ begin, end int }
	evals := map[string][]span{}
	for k, e := range r.Events {
		switch e.Kind {
		case "begin":
			o := r.Trace[e.N]
			evals[o.Inst+"/"+o.Task] = append(evals[o.Inst+"/"+o.Task], span{k, -1})
		case "end":
			o := r.Trace[e.N]
			l := evals[o.Inst+"/"+o.Task]
			l[len(l)-1].end = k
		}
	}
	lastIn := map[string]map[string]any{}
	var outcome *ref.Obs
	for k := range r.Trace {
		o := &r.Trace[k]
		if o.Kind == "eval" {
			lastIn[o.Inst+"/"+o.Task] = o.In
		} else if o.Kind == "outcome" {
			outcome = o
		}
	}
	hostID := map[string]string{} // instance/task -> task instance id
	type taskEv struct{ started, fin, skip []int }
	tevs := map[string]*taskEv{}
	for k, e := range r.Events {
		if e.Kind != "task" {
			continue
		}
		key := e.FlowID + "/" + e.Task
		te := tevs[key]
		if te == nil {
			te = &taskEv{}
			tevs[key] = te
		}
		if old, ok := hostID[key]; ok && old != e.TaskID {
			return "task-id", fmt.Sprintf("the events of task %s carry the ids %s and %s", e.Task, old, e.TaskID)
		}
		hostID[key] = e.TaskID
		switch {
		case e.Status == evStarted:
			te.started = append(te.started, k)
		case e.Status == evSkipped:
			te.skip = append(te.skip, k)
		case final(e.Status):
			te.fin = append(te.fin, k)
		}
	}
	seenID := map[string]string{}
	for key, id := range hostID {
		id = key[:strings.LastIndex(key, "/")+1] + id
		if o, ok := seenID[id]; ok && o != key {
			return "task-id", fmt.Sprintf("two tasks share the task instance id %s", id)
		}
		seenID[id] = key
	}
	mainFin := -1
	for i, n := range f.I {
		id := ids[i]
		fe := flows[id]
		if fe == nil {
			return "started", fmt.Sprintf("no events for flow %s (%s)", n.F.Name, id)
		}
		what := fmt.Sprintf("flow %s(%s)", n.F.Name, id)
		if fe.name != n.F.Name {
			return "name", what + ": its events name it " + fe.name
		}
		if len(fe.started) != 1 {
			return "started", fmt.Sprintf("%s has %d started events", what, len(fe.started))
		}
		st := r.Events[fe.started[0]]
		want := 1
		if n.Stat == ref.Active {
			want = 0
		}
		if len(fe.fin) != want {
			return "final", fmt.Sprintf("%s has %d final events, expected %d", what, len(fe.fin), want)
		}
		evs := []rig.Event{st}
		if want == 1 {
			fin := r.Events[fe.fin[0]]
			evs = append(evs, fin)
			if fe.last != fe.fin[0] {
				return "after-final", what + ": its final event is not the last"
			}
			if n.Stat == ref.Completed && fin.Status != evCompleted || n.Stat == ref.Failed && fin.Status != evFailed {
				return "final", what + " ended otherwise than its final event says: " + fin.Status
			}
			if n.Stat == ref.Failed && (!fin.HasErr || n.Err != nil && n.Err.Exact && !strings.Contains(fin.Err, n.Err.Msg)) {
				return "error", fmt.Sprintf("%s: its failed event carries the error %q", what, fin.Err)
			}
			if n.Stat == ref.Completed && !n.Replied && n.RetErr == "" && !(n.RetSet && n.Ret == nil) {
				exp := map[string]any{}
				if n.RetSet {
					for k, v := range n.Ret {
						exp[k] = v
					}
				} else {
					for _, p := range n.F.Out {
						if v, ok := n.Attrs[p.Name]; ok {
							exp[p.Name] = v
						} else if p.Def != nil {
							exp[p.Name] = p.Default()
						}
					}
				}
				if !f.MatchVal(dropNil(exp), dropNil(fin.Out)) {
					return "output", fmt.Sprintf("%s: its completed event reports %s instead of %s", what, spec.Canon(fin.Out), spec.Canon(exp))
				}
				if n.Parent < 0 && outcome != nil && !outcome.HasEr && !f.MatchVal(dropNil(fin.Out), dropAny(outcome.Data)) {
					return "output", fmt.Sprintf("%s: its completed event reports %s, the run %s", what, spec.Canon(fin.Out), spec.Canon(outcome.Data))
				}
			}
			if i == 0 {
				mainFin = fe.fin[0]
			}
		}
		if fe.started[0] > firstOf(r, id) {
			return "order", what + ": an event or invocation comes before its started event"
		}
		if st.HasErr {
			return "error", what + ": its started event carries an error"
		}
		for _, p := range n.F.In {
			if v, ok := n.Attrs[p.Name]; ok && !f.MatchVal(v, st.In[p.Name]) {
				return "input", fmt.Sprintf("%s: its started event says input %s is %s instead of %s", what, p.Name, spec.Canon(st.In[p.Name]), spec.Canon(v))
			}
		}
		for _, e := range evs {
			pn, pi, ht, hi := "", "", "", ""
			if n.Parent >= 0 {
				pn, pi = f.I[n.Parent].F.Name, ids[n.Parent]
				ht = f.I[n.Parent].F.All[n.Host].ID
				hi = hostID[pi+"/"+ht]
			}
			if e.PFlow != pn || e.PFlowID != pi {
				return "parent", fmt.Sprintf("%s: its %s event names the parent %s(%s) instead of %s(%s)", what, e.Status, e.PFlow, e.PFlowID, pn, pi)
			}
			if e.HostTask != ht || e.HostID != hi {
				return "parent", fmt.Sprintf("%s: its %s event names the host task %s(%s) instead of %s(%s)", what, e.Status, e.HostTask, e.HostID, ht, hi)
			}
		}
		if n.Parent >= 0 {
			h := tevs[ids[n.Parent]+"/"+f.I[n.Parent].F.All[n.Host].ID]
			if h == nil || len(h.started) == 0 || h.started[0] > fe.first {
				return "order", what + " has events before its host task was started"
			}
			if len(h.fin) > 0 && h.fin[0] < fe.last {
				return "order", what + " has events after its host task ended"
			}
		}
		for t := range n.T {
			if k, m := taskTells(r, f, n, i, t, id, tevs[id+"/"+n.F.All[t].ID] != nil, func() ([]int, []int, []int) {
				te := tevs[id+"/"+n.F.All[t].ID]
				if te == nil {
					return nil, nil, nil
				}
				return te.started, te.fin, te.skip
			}, func() (int, int) {
				sp := evals[id+"/"+n.F.All[t].ID]
				if len(sp) == 0 {
					return -1, -1
				}
				return sp[0].begin, sp[len(sp)-1].end
			}, lastIn[id+"/"+n.F.All[t].ID]); k != "" {
				return k, what + ": " + m
			}
		}
		// causes come before their effects
		for l, lk := range n.F.LAll {
			if n.L[l] == ref.LNone {
				continue
			}
			a, b := tevs[id+"/"+lk.From], tevs[id+"/"+lk.To]
			if a == nil || b == nil {
				continue
			}
			ends := append(append([]int(nil), a.fin...), a.skip...)
			begins := append(append([]int(nil), b.started...), b.skip...)
			if len(ends) == 0 || len(begins) == 0 {
				continue
			}
			if ends[0] > begins[0] {
				return "order", fmt.Sprintf("%s: task %s is reported before its predecessor %s has ended", what, lk.To, lk.From)
			}
		}
		// the handler starts after the failure
		if n.Handling {
			var fails []int
			for t, task := range n.F.All {
				if n.F.InHandler(t) || n.TStat(t) != ref.TFail {
					continue
				}
				linked := false
				for _, l := range task.Out_ {
					linked = linked || n.F.LAll[l].Kind == spec.Error
				}
				if !linked {
					fails = append(fails, tevs[id+"/"+task.ID].fin[0])
				}
			}
			for t, task := range n.F.All {
				if te := tevs[id+"/"+task.ID]; n.F.InHandler(t) && te != nil && len(te.started) > 0 && len(fails) == 1 && te.started[0] < fails[0] {
					return "order", what + ": the error handler is started before the failure it handles"
				}
			}
		}
	}
	for k, e := range r.Events {
		if (e.Kind == "flow" || e.Kind == "task") && k > mainFin {
			return "after-final", fmt.Sprintf("event %d follows the final event of the run", k)
		}
	}
	for _, e := range r.Events {
		if e.Kind == "task" {
			n := f.I[indexOf(ids, e.FlowID)]
			if n.F.Task(e.Task) == nil {
				return "name", "an event of a task the flow does not have: " + e.Task
			}
		}
	}
	return "", ""
}

func dropAny(v any) any {
	if m, ok := v.(map[string]any); ok {
		return dropNil(m)
	}
	return map[string]any{}
}

func dropNil(m map[string]any) map[string]any {
	c := map[string]any{}
	for k, v := range m {
		if v != nil {
			c[k] = v
		}
	}
	return c
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// firstOf is the first event or invocation of an instance.
func firstOf(r *rig.Run, id string) int {
	for k, e := range r.Events {
		switch e.Kind {
		case "begin":
			if r.Trace[e.N].Inst == id {
				return k
			}
		case "task":
			if e.FlowID == id {
				return k
			}
		case "flow":
			if e.FlowID == id && e.Status != "Created" {
				return k
			}
		}
	}
	return len(r.Events)
}

func taskTells(r *rig.Run, f *ref.State, n *ref.Inst, i, t int, id string, any bool, evs func() ([]int, []int, []int), span func() (int, int), in map[string]any) (string, string) {
	task := n.F.All[t]
	started, fin, skip := evs()
	begin, end := span()
	what := "task " + task.ID
	cnt := func(ns, nf, nk int) bool { return len(started) == ns && len(fin) == nf && len(skip) == nk }
	switch n.TStat(t) {
	case ref.TNone:
		if !cnt(0, 0, 0) {
			return "task-events", what + " was never reached but is reported as started, skipped or ended"
		}
		return "", ""
	case ref.TSkip:
		if !cnt(0, 0, 1) {
			return "skipped", fmt.Sprintf("%s was skipped; it has %d started, %d final and %d skipped events", what, len(started), len(fin), len(skip))
		}
		return "", ""
	case ref.TReady, ref.TWait:
		if len(fin) > 0 || len(skip) > 0 {
			return "task-events", what + " was given up but is reported as ended or skipped"
		}
	case ref.TDone, ref.TFail:
		if len(started) < 1 || len(fin) != 1 || len(skip) != 0 {
			return "task-events", fmt.Sprintf("%s was executed; it has %d started, %d final and %d skipped events", what, len(started), len(fin), len(skip))
		}
		if len(started) > 1 && task.Kind == "" && task.Sub == "" && task.Retry == nil {
			return "task-events", fmt.Sprintf("%s was executed once; it has %d started events", what, len(started))
		}
		for _, k := range started {
			if k > fin[0] {
				return "order", what + " is reported as started after its final event"
			}
		}
		e := r.Events[fin[0]]
		if n.TStat(t) == ref.TDone {
			if e.Status != evCompleted || e.HasErr {
				return "task-final", what + " was done but its final event is " + e.Status + " " + e.Err
			}
			if task.Sub == "" && begin >= 0 {
				if exp := n.Outs(t); !f.MatchVal(dropNil(exp), dropNil(e.Out)) {
					return "task-output", fmt.Sprintf("%s: its completed event reports the outputs %s instead of %s", what, spec.Canon(e.Out), spec.Canon(exp))
				}
			}
		} else {
			if e.Status != evFailed || !e.HasErr {
				return "task-final", fmt.Sprintf("%s failed but its final event is %s with error %q", what, e.Status, e.Err)
			}
			if er := n.Failure(t); er != nil && er.Exact && !strings.Contains(e.Err, er.Msg) {
				return "task-error", fmt.Sprintf("%s: its failed event carries the error %q instead of %q", what, e.Err, er.Msg)
			}
		}
		if task.Sub == "" && begin >= 0 && !mapFails(task) {
			if !f.MatchVal(dropNil(in), dropZero(e.In)) && !f.MatchVal(dropNil(in), dropNil(e.In)) {
				return "task-input", fmt.Sprintf("%s: its final event reports the inputs %s instead of %s", what, spec.Canon(e.In), spec.Canon(in))
			}
		}
		if end > fin[0] {
			return "order", what + " is reported as ended before its activity has returned"
		}
	}
	if begin >= 0 && (len(started) == 0 || started[0] > begin) {
		return "order", what + " is invoked before it is reported as started"
	}
	for _, k := range append(append([]int(nil), started...), fin...) {
		e := r.Events[k]
		typ, rf := task.Kind, rig.ProbeRef
		if task.Sub != "" {
			rf = rig.SubRef
		}
		if e.Type != typ && !(typ == "" && e.Type == "basic") || e.Ref != rf {
			return "task-kind", fmt.Sprintf("%s: an event says it is of type %q and runs %s", what, e.Type, e.Ref)
		}
	}
	return "", ""
}

func mapFails(t *spec.Task) bool {
	for _, m := range t.In {
		if m.X.Op == "vfail" || m.X.Op == "vpanic" {
			return true
		}
	}
	return false
}

// dropZero leaves out the zero values that unset inputs are reported with.
func dropZero(m map[string]any) map[string]any {
	c := map[string]any{}
	for k, v := range m {
		if v == nil || v == "" || v == 0 {
			continue
		}
		c[k] = v
	}
	return c
}
