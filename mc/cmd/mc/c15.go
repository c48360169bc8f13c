package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	sm := map[string]string{smEnv: "http://127.0.0.1:1"}
	register(&Check{
		ID:   "C15",
		Diff: true,
		Configs: func(tier string) []Conf {
			return []Conf{
				{Name: "step", Rig: rig.Config{Mode: "step"}, Env: sm},
				{Name: "full", Rig: rig.Config{Mode: "full"}, Env: sm},
				{Name: "debugger", Rig: rig.Config{Mode: "debugger"}, Env: sm},
				{Name: "nodata", Rig: rig.Config{Mode: "step"}},
			}
		},
		Assume: append([]string{
			"the data of a run is tracked from step to step only when FLOGO_FLOW_SM_ENDPOINT is set (as the engine has it); without it only the inputs are compared",
			"the actual state is what the engine's own serialisation of the instance shows at the moment of recording",
			"subflows that have ended may be left out",
			"activities do not modify data objects in place"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies, in the recording modes step, full and debugger; every run is driven step by step, the recorded steps are applied one after the other and compared with the actual state after every step; the same run through the flow action must record the same steps; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2 (1 with chains); handlers {none, one task, chain}"
			}
			return "k=2; handlers {none, one task, chain, error link, two starts}; sorted, reversed and rotated collection order"
		},
		Run: func(w *W) { w.recorded(false) },
	})
	register(&Check{
		ID: "C16",
		Configs: func(tier string) []Conf {
			return []Conf{
				{Name: "full", Rig: rig.Config{Mode: "full"}, Env: sm},
				{Name: "snapshot", Rig: rig.Config{Mode: "snapshot"}},
				{Name: "mutating", Rig: rig.Config{Mode: "full"}, Env: sm},
			}
		},
		Assume: append([]string{
			"the actual state is what the engine's own serialisation of the instance shows at the moment of recording",
			"subflows that have ended may be left out, and the order of tasks, links and subflows in a snapshot does not matter",
			"activities that modify data objects in place are only used to see that recorded snapshots and steps keep what they showed"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies, with snapshots (and steps) recorded; every run is driven step by step, every recorded snapshot is compared with the actual state, the snapshot rebuilt from every prefix of the recorded steps with the recorded one, under several walking orders of the engine's collections, and all recorded snapshots and steps are read again at the end; distinct by trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2 (1 with chains); handlers {none, one task, chain}; rebuilding in sorted, reversed and rotated order"
			}
			return "k=2; handlers {none, one task, chain, error link, two starts}; rebuilding in every order deviating from sorted order at most once"
		},
		Run: func(w *W) { w.recorded(true) },
	})
}

// view is the state of one flow of a run.
type view struct {
	URI    string
	Status int
	Attrs  map[string]any
	Tasks  map[string]int
	Links  map[int]int
}

func newView() *view {
	return &view{Attrs: map[string]any{}, Tasks: map[string]int{}, Links: map[int]int{}}
}

func (v *view) text() string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

type qItem struct {
	ID   int
	Task string
	Sub  int
}

// rstate is the state of a run.
type rstate struct {
	Flows map[int]*view // 0 is the main flow
	Queue []qItem       // the next one first
}

func (s *rstate) sub(id int) *view {
	if s.Flows[id] == nil {
		s.Flows[id] = newView()
	}
	return s.Flows[id]
}

func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return "unserialisable: " + err.Error()
	}
	var x any
	_ = json.Unmarshal(b, &x)
	return x
}

type serFlow struct {
	ID        string `json:"id"`
	SubFlowID int    `json:"subFlowId"`
	Status    int
	FlowURI   string
	Attrs     map[string]any
	WorkQueue []struct {
		ID        int
		TaskID    string
		SubFlowID int
	}
	Tasks []struct {
		ID     string
		Status int
	}
	Links []struct {
		LinkID int
		Status int
	}
	SubFlows []*serFlow
}

func (f *serFlow) view() *view {
	v := newView()
	v.URI, v.Status = f.FlowURI, f.Status
	for k, x := range f.Attrs {
		v.Attrs[k] = x
	}
	for _, t := range f.Tasks {
		v.Tasks[t.ID] = t.Status
	}
	for _, l := range f.Links {
		v.Links[l.LinkID] = l.Status
	}
	return v
}

// actual is the state as the engine serialises it.
func actual(st *rig.Stepped) (*rstate, error) {
	b, err := json.Marshal(st.Inst)
	if err != nil {
		return nil, err
	}
	f := &serFlow{}
	if err := json.Unmarshal(b, f); err != nil {
		return nil, err
	}
	s := &rstate{Flows: map[int]*view{0: f.view()}}
	for _, x := range f.SubFlows {
		s.Flows[x.SubFlowID] = x.view()
	}
	for _, q := range f.WorkQueue {
		s.Queue = append(s.Queue, qItem{q.ID, q.TaskID, q.SubFlowID})
	}
	return s, nil
}

// apply applies a recorded step.
func (s *rstate) apply(p *state.Step) {
	for id, c := range p.FlowChanges {
		if c == nil {
			continue
		}
		if c.NewFlow {
			s.Flows[id] = newView()
			s.Flows[id].URI = c.FlowURI
		}
		v := s.sub(id)
		if c.Status != 0 || c.NewFlow {
			v.Status = c.Status
		}
		for k, x := range c.Attrs {
			v.Attrs[k] = norm(x)
		}
		for k, t := range c.Tasks {
			if t.ChgType == change.Delete {
				delete(v.Tasks, k)
			} else {
				v.Tasks[k] = t.Status
			}
		}
		for k, l := range c.Links {
			if l.ChgType == change.Delete {
				delete(v.Links, k)
			} else {
				v.Links[k] = l.Status
			}
		}
	}
	for id, q := range p.QueueChanges {
		var keep []qItem
		for _, x := range s.Queue {
			if x.ID != id {
				keep = append(keep, x)
			}
		}
		s.Queue = keep
		if q.ChgType != change.Delete {
			s.Queue = append(s.Queue, qItem{id, q.TaskId, q.SubflowId})
		}
	}
}

// fromSnapshot reads a snapshot.
func fromSnapshot(p *state.Snapshot) *rstate {
	base := func(b *state.SnapshotBase) *view {
		v := newView()
		if b == nil {
			return v
		}
		v.URI, v.Status = b.FlowURI, b.Status
		for k, x := range b.Attrs {
			v.Attrs[k] = norm(x)
		}
		for _, t := range b.Tasks {
			if _, dup := v.Tasks[t.Id]; dup {
				v.Tasks["twice: "+t.Id] = 1
			}
			v.Tasks[t.Id] = t.Status
		}
		for _, l := range b.Links {
			if _, dup := v.Links[l.Id]; dup {
				v.Tasks["link twice: "+fmt.Sprint(l.Id)] = 1
			}
			v.Links[l.Id] = l.Status
		}
		return v
	}
	s := &rstate{Flows: map[int]*view{0: base(p.SnapshotBase)}}
	for _, x := range p.Subflows {
		if s.Flows[x.Id] != nil {
			s.sub(-x.Id).URI = "twice"
		}
		s.Flows[x.Id] = base(x.SnapshotBase)
	}
	for _, q := range p.WorkQueue {
		s.Queue = append(s.Queue, qItem{q.ID, q.TaskId, q.SubflowId})
	}
	return s
}

// differs compares a state with the actual one.
func (s *rstate) differs(act *rstate, data bool) (string, string) {
	ids := map[int]bool{}
	for id := range s.Flows {
		ids[id] = true
	}
	for id := range act.Flows {
		ids[id] = true
	}
	var order []int
	for id := range ids {
		order = append(order, id)
	}
	sort.Ints(order)
	const ended = 500
	for _, id := range order {
		a, b := s.Flows[id], act.Flows[id]
		who := "the main flow"
		kind := "main"
		if id != 0 {
			who, kind = fmt.Sprintf("subflow %d", id), "sub"
		}
		if b == nil {
			if a.Status < ended {
				return kind + "-extra", fmt.Sprintf("%s is shown as running but it is not: %s", who, a.text())
			}
			continue
		}
		if a == nil {
			if b.Status >= ended {
				continue
			}
			return kind + "-missing", fmt.Sprintf("%s is not shown; it is %s", who, b.text())
		}
		x, y := *a, *b
		if !data {
			x.Attrs, y.Attrs = nil, nil
		}
		if p, q := x.text(), y.text(); p != q {
			what := "status"
			switch {
			case spec.Canon(anyMap(x.Attrs)) != spec.Canon(anyMap(y.Attrs)):
				what = "data"
			case fmt.Sprint(x.Tasks) != fmt.Sprint(y.Tasks):
				what = "tasks"
			case fmt.Sprint(x.Links) != fmt.Sprint(y.Links):
				what = "links"
			}
			return kind + "-" + what, fmt.Sprintf("%s is shown as\n  %s\nbut is\n  %s", who, p, q)
		}
	}
	if p, q := sorted(s.Queue), sorted(act.Queue); p != q {
		return "work", fmt.Sprintf("the pending work is shown as %s but is %s", p, q)
	}
	return "", ""
}

func anyMap(m map[string]any) any {
	if m == nil {
		return nil
	}
	return m
}

func sorted(q []qItem) string {
	c := append([]qItem(nil), q...)
	sort.Slice(c, func(i, j int) bool { return c[i].ID < c[j].ID })
	return fmt.Sprint(c)
}

func (w *W) recorded(snaps bool) {
	k := 1
	hs := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}}
	if !w.Quick() {
		k = 2
		hs = [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}, {3, 0}, {4, 0}, {0, 3}}
	}
	for _, st := range structs19() {
		for _, h := range hs {
			if h[1] > 0 && len(st.mk()) < 2 {
				if h[0] == 0 {
					continue
				}
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			kk := k
			if h[0]+h[1] <= 1 && w.Quick() {
				kk++
			}
			each := func(s *spec.Scenario, key string) {
				if w.Conf.Name == "mutating" {
					w.kept(s, st.name+key)
				} else {
					w.record(s, st.name+key, snaps)
				}
			}
			w.withFaults(mk, "zvV", 1, each)
			w.withFaults(mk, "epmlsirRyScL", kk, each)
		}
	}
}

// record drives a run step by step and compares what is recorded with it.
func (w *W) record(s *spec.Scenario, key string, snaps bool) {
	data := w.Conf.Env != nil
	orders := []string{""}
	if !w.Quick() {
		orders = []string{"", "rev", "rot"}
	}
	if _, err := rig.Build(s); err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	for _, om := range orders {
		if w.stop {
			return
		}
		setOrder(om)
		k, msg, st, recs := w.record1(s, om, data, snaps)
		setOrder("")
		w.R.Evals++
		if k == "" && !snaps {
			// the flow action records the same steps
			setOrder(om)
			rig.Rec.Keep, rig.Rec.Hook = true, nil
			b, _ := rig.NewAction("res://flow:" + s.Main)
			r := rig.Exec(b, s, rig.Options{})
			rig.Rec.Keep = false
			setOrder("")
			k, msg = w.judge(newModel(s), r, X{})
			if k == "" {
				k, msg = sameSteps(r, rig.Rec.Take(), recs, st.Inst.ID())
			}
		}
		if k != "" {
			w.Violate(k, msg+"\norder="+om+"\nobserved:\n"+traceText(st.Run), s)
			return
		}
		w.R.Valid++
		w.Distinct(key + om + normTrace(st.Trace))
	}
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// record1 is one run driven by hand.
func (w *W) record1(s *spec.Scenario, om string, data, snaps bool) (key, msg string, st *rig.Stepped, steps []*state.Step) {
	var (
		shown   = &rstate{Flows: map[int]*view{}}
		texts   []string
		snap    *state.Snapshot
		all     []*state.Snapshot
		stxt    []string
		lastObs int
	)
	bad := func(k, f string, a ...any) {
		if key == "" {
			key, msg = k, fmt.Sprintf(f, a...)
		}
	}
	rig.Rec.Keep = false
	rig.Rec.Hook = func(it *rig.RecItem) {
		if key != "" {
			return
		}
		w.R.Stats.States++
		act, err := actual(st)
		if err != nil {
			bad("serialise", "the state of the run cannot be serialised: %v", err)
			return
		}
		if it.Kind == "snapshot" {
			snap = it.Snap
			w.Count("snapshots", 1)
			if snap.Id != st.Inst.ID() {
				bad("snapshot-id", "a snapshot of instance %s names %s", st.Inst.ID(), snap.Id)
			}
			for _, x := range snap.Subflows {
				if !calls15(s, x.TaskId, x.FlowURI) {
					bad("snapshot-host", "subflow %d (%s) is shown as called by %q", x.Id, x.FlowURI, x.TaskId)
				}
			}
			if snaps {
				all = append(all, snap)
				stxt = append(stxt, js(snap))
				if k, m := fromSnapshot(snap).differs(act, true); k != "" {
					bad("snapshot-"+k, "after step %d the recorded snapshot is wrong: %s", len(st.After), m)
				}
				bad2(fromSnapshot(snap).Queue, act.Queue, bad)
			}
			return
		}
		p := it.Step
		w.Count("steps", 1)
		if p.Id != len(steps) {
			bad("step-number", "recorded step number %d carries the number %d", len(steps), p.Id)
		}
		if p.FlowId != st.Inst.ID() {
			bad("step-flow", "a recorded step of instance %s names %s", st.Inst.ID(), p.FlowId)
		}
		for id, c := range p.FlowChanges {
			if id != 0 && c.NewFlow && !calls15(s, c.TaskId, c.FlowURI) {
				bad("step-host", "subflow %d (%s) is recorded as called by %q", id, c.FlowURI, c.TaskId)
			}
		}
		steps = append(steps, p)
		texts = append(texts, js(p))
		shown.apply(p)
		if !snaps {
			if k, m := shown.differs(act, data); k != "" {
				bad("step-"+k, "after step %d the recorded steps add up to the wrong state: %s\nlast step: %s", len(st.After), m, js(p))
			}
			if !data && len(steps) == 1 {
				for _, in := range s.Flows[s.Main].In {
					if v, ok := shown.sub(0).Attrs[in.Name]; !ok || spec.Canon(v) != spec.Canon(act.Flows[0].Attrs[in.Name]) {
						bad("step-input", "the first step does not show the input %s: %s", in.Name, js(p))
					}
				}
			}
			if w.Conf.Name == "debugger" {
				w.links15(s, p, st, bad)
				obs := st.Obs()
				seen := map[string]bool{}
				for i := len(obs) - 1; i >= lastObs; i-- {
					o := obs[i]
					at := o.Inst + "/" + o.Task
					if o.Kind != "eval" || seen[at] {
						continue
					}
					seen[at] = true
					id := 0
					if n := strings.TrimPrefix(o.Inst, st.Inst.ID()); n != "" {
						fmt.Sscanf(n, "-%d", &id)
					}
					var got map[string]any
					if c := p.FlowChanges[id]; c != nil && c.Tasks[o.Task] != nil {
						got = map[string]any{}
						for k, v := range c.Tasks[o.Task].Input {
							if v != nil {
								got[k] = v
							}
						}
					}
					if spec.Canon(norm(got)) != spec.Canon(norm(o.In)) {
						bad("debug-input", "task %s ran with the inputs %v but the recorded step shows %v", at, o.In, got)
					}
				}
				lastObs = len(obs)
			}
			return
		}
		try := func(order string) {
			sn := state.StepsToSnapshot(st.Inst.ID(), steps)
			w.Count("rebuilt", 1)
			if sn.Id != st.Inst.ID() {
				bad("rebuilt-id", "the rebuilt snapshot names %q", sn.Id)
			}
			want := act
			if snap != nil {
				want = fromSnapshot(snap)
			}
			if k, m := fromSnapshot(sn).differs(want, data); k != "" {
				bad("rebuilt-"+k, "after step %d the snapshot rebuilt from the steps differs from the recorded one (order %s): %s\nrebuilt: %s\nsteps: %s", len(st.After), order, m, js(sn), strings.Join(texts, "\n"))
			}
			bad2(fromSnapshot(sn).Queue, want.Queue, bad)
			hosts := map[int]string{}
			for _, x := range snap.Subflows {
				hosts[x.Id] = x.TaskId
			}
			for _, x := range sn.Subflows {
				if h, ok := hosts[x.Id]; ok && h != x.TaskId {
					bad("rebuilt-host", "the rebuilt snapshot shows subflow %d as called by %q instead of %q", x.Id, x.TaskId, h)
				}
			}
			for i, p := range steps {
				if t := js(p); t != texts[i] {
					bad("step-changed", "rebuilding a snapshot changed step %d from\n  %s\nto\n  %s", i, texts[i], t)
				}
			}
		}
		for _, o := range []string{"", "rev", "rot"} {
			setOrder(o)
			try(o)
		}
		if !w.Quick() && key == "" {
			w.OrdersDFS(1, 60, func() bool { try("deviating"); return key == "" })
		}
		setOrder(om)
	}
	defer func() { rig.Rec.Hook = nil }()
	var err error
	st, err = rig.NewStepped(s, rig.Options{})
	if err != nil {
		return "start", err.Error(), st, nil
	}
	n := 0
	_ = st.Inst.RecordState(time.Now())
	for more := true; more && n < 200; n++ {
		at := len(steps)
		more = st.Step()
		_ = st.Inst.RecordState(time.Now())
		if w.Conf.Rig.Mode != "snapshot" && len(steps) == at && key == "" {
			bad("no-step", "nothing was recorded for a step")
		}
	}
	for i, p := range steps {
		if t := js(p); t != texts[i] && key == "" {
			bad("step-later", "the run changed the recorded step %d from\n  %s\nto\n  %s", i, texts[i], t)
		}
	}
	for i, p := range all {
		if t := js(p); t != stxt[i] && key == "" {
			bad("snapshot-later", "the run changed a recorded snapshot from\n  %s\nto\n  %s", stxt[i], t)
		}
	}
	return
}

// calls15 says whether a task of that name calls that flow.
func calls15(s *spec.Scenario, task, uri string) bool {
	for _, f := range s.Flows {
		for _, t := range f.All {
			if t.ID == task && t.Sub != "" && "res://flow:"+t.Sub == uri {
				return true
			}
		}
	}
	return false
}

// bad2 compares the order of pending work.
func bad2(a, b []qItem, bad func(k, f string, a ...any)) {
	if fmt.Sprint(a) != fmt.Sprint(b) {
		bad("work-order", "pending work is shown in the order %v but is %v", a, b)
	}
}

// links15 checks what the debugger mode adds.
func (w *W) links15(s *spec.Scenario, p *state.Step, st *rig.Stepped, bad func(k, f string, a ...any)) {
	for _, id := range []int{0} {
		c := p.FlowChanges[id]
		if c == nil {
			continue
		}
		for k, l := range c.Links {
			if l.ChgType == change.Delete && l.From == "" {
				continue
			}
			f := s.Flows[s.Main]
			if k >= 0 && k < len(f.LAll) && (f.LAll[k].From != l.From || f.LAll[k].To != l.To) {
				bad("debug-link", "link %d (%s to %s) is recorded as %s to %s", k, f.LAll[k].From, f.LAll[k].To, l.From, l.To)
			}
		}
		if c.Status == 500 {
			d, _ := st.Inst.GetReturnData()
			if spec.Canon(norm(d)) != spec.Canon(norm(c.ReturnData)) && len(d)+len(c.ReturnData) > 0 {
				bad("debug-return", "the flow returns %v but the last step shows %v", d, c.ReturnData)
			}
		}
	}
}

// sameSteps compares the steps recorded by the flow action with those of the run driven by hand.
func sameSteps(r *rig.Run, items []rig.RecItem, steps []*state.Step, id string) (string, string) {
	own := ""
	var got []*state.Step
	starts, dones := 0, 0
	for _, it := range items {
		switch it.Kind {
		case "start":
			own = it.FS.FlowInstanceId
			starts++
		case "done":
			dones++
		case "step":
			got = append(got, it.Step)
		}
	}
	if starts != 1 || dones != 1 {
		return "start-done", fmt.Sprintf("the start of the run was recorded %d times, its end %d times", starts, dones)
	}
	text := func(p *state.Step, id string) string {
		c := *p
		c.StartTime, c.EndTime = time.Time{}, time.Time{}
		return strings.ReplaceAll(js(&c), id, "<id>")
	}
	for i, p := range got {
		if p.Id != i || p.FlowId != own {
			return "step-number", fmt.Sprintf("recorded step number %d of instance %s carries the number %d and names %s", i, own, p.Id, p.FlowId)
		}
		if p.EndTime.Before(p.StartTime) {
			return "step-time", fmt.Sprintf("step %d ends before it starts", i)
		}
		if i < len(steps) {
			if a, b := text(p, own), text(steps[i], id); a != b {
				return "action-step", fmt.Sprintf("the flow action recorded step %d as\n  %s\ninstead of\n  %s", i, a, b)
			}
		}
	}
	if len(got) != len(steps) {
		return "action-steps", fmt.Sprintf("the flow action recorded %d steps for a run of %d", len(got), len(steps))
	}
	return "", ""
}

// kept runs flows whose activities modify data in place.
func (w *W) kept(s *spec.Scenario, key string) {
	b, err := rig.Build(s)
	if err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	type item struct {
		v    any
		text string
	}
	var items []item
	rig.Rec.Keep = false
	rig.Rec.Hook = func(it *rig.RecItem) {
		switch it.Kind {
		case "snapshot":
			items = append(items, item{it.Snap, js(it.Snap)})
		case "step":
			items = append(items, item{it.Step, js(it.Step)})
		}
	}
	rig.MutateAttr = "y"
	r := rig.Exec(b, s, rig.Options{})
	rig.MutateAttr = ""
	rig.Rec.Hook = nil
	w.R.Evals++
	if k, m := protocol(r); k != "" {
		w.Violate(k, m, s)
		return
	}
	for _, it := range items {
		w.Count("kept", 1)
		if t := js(it.v); t != it.text {
			w.Violate("kept", fmt.Sprintf("a recorded %T changed later, from\n  %s\nto\n  %s\nobserved:\n%s", it.v, it.text, t, traceText(r)), s)
			return
		}
	}
	w.R.Valid++
	w.Distinct(key + normTrace(r.Trace))
}
