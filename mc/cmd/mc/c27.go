package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	sm := map[string]string{smEnv: "http://127.0.0.1:1"}
	register(&Check{
		ID:   "C27",
		Diff: true,
		Configs: func(tier string) []Conf {
			cs := []Conf{
				{Name: "none"},
				{Name: "off", Rig: rig.Config{Mode: "off"}},
				{Name: "step", Rig: rig.Config{Mode: "step"}},
				{Name: "snapshot", Rig: rig.Config{Mode: "snapshot"}},
				{Name: "full", Rig: rig.Config{Mode: "full"}, Env: sm},
				{Name: "debugger", Rig: rig.Config{Mode: "debugger"}},
				{Name: "failing", Rig: rig.Config{Mode: "full", RecErr: true}},
			}
			ls := []int{2, 4}
			if tier == "thorough" {
				ls = []int{1, 2, 3, 4, 5, 6}
			}
			for _, l := range ls {
				cs = append(cs, Conf{Name: fmt.Sprint("limit", l), Rig: rig.Config{Mode: "full"}, Env: map[string]string{"FLOGO_MAX_STEP_COUNT": fmt.Sprint(l)}, Shards: 1})
			}
			for i, m := range modes27 {
				c := Conf{Name: fmt.Sprint("set", i), Rig: rig.Config{Mode: m.mode, RT: m.rt, Bad: m.mode == ""}, Shards: 1}
				if m.mode == "" {
					c.Rig.Mode = "off"
				}
				cs = append(cs, c)
			}
			return cs
		},
		Assume: append([]string{
			"the state of a flow that has not begun may be recorded as created or started, the outputs of a failed flow are left open",
			"whether the end is recorded before or after the outcome is reported is left open, as long as nothing of the flow is executed after it"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies x recording modes x run options (none; id returned, given id, rerun, original id; detached); the recorder must be told of the start once, of every step in order, of the end once, each naming the run and saying what the caller is told; with run options the run must do what it does without them; distinct by trace and options",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=1, k=2 in mode full without handlers; handlers {none, one task of main and sub, chain}; step limits 2, 4"
			}
			return "k=2; handlers {none, one task of main and sub, chain, error link}; step limits 1..6"
		},
		Run: run27,
	})
}

// modes27 are the ways to say how to record ("" if it must not be accepted).
var modes27 = []struct {
	mode string
	rt   map[string]any
}{
	{"step", map[string]any{"stepRecordingMode": "full"}},
	{"snapshot", map[string]any{"snapshotRecordingMode": "FULL"}},
	{"full", map[string]any{"stepRecordingMode": "Full", "snapshotRecordingMode": "full"}},
	{"off", map[string]any{"stepRecordingMode": "off", "snapshotRecordingMode": nil}},
	{"off", map[string]any{"stepRecordingMode": true}},
	{"off", map[string]any{"other": "full"}},
	{"off", map[string]any{}},
	{"step", map[string]any{"stateRecordingMode": "STEP", "snapshotRecordingMode": "full"}},
	{"off", map[string]any{"stateRecordingMode": "Off", "stepRecordingMode": "full", "snapshotRecordingMode": "full"}},
	{"full", map[string]any{"stateRecordingMode": "fulL"}},
	{"debugger", map[string]any{"stateRecordingMode": "Debugger", "stepRecordingMode": "off"}},
	{"snapshot", map[string]any{"stateRecordingMode": "snapshoT"}},
	{"", map[string]any{"stateRecordingMode": "ful"}},
	{"", map[string]any{"stateRecordingMode": "full ", "stepRecordingMode": "full"}},
}

func run27(w *W) {
	if rig.Cfg.Bad {
		w.R.Evals++
		if rig.InitErr == nil {
			w.Violate("bad-mode", fmt.Sprintf("the recording mode %q is not one; it must be refused", w.Conf.Rig.RT["stateRecordingMode"]), nil)
		} else {
			w.R.Valid++
		}
		return
	}
	k := 1
	hs := [][2]int{{0, 0}, {1, 1}, {2, 0}}
	if !w.Quick() {
		k = 2
		hs = [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}}
	}
	set := strings.HasPrefix(w.Conf.Name, "set")
	for i, st := range structs19() {
		if set && w.Quick() && i > 3 {
			break
		}
		for _, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			n := k
			if set {
				n--
			}
			if w.Quick() && h[0]+h[1] == 0 && w.Conf.Name == "full" {
				n = 2
			}
			w.withFaults(mk, "ecprmMilsLRyf", n, func(s *spec.Scenario, key string) { w.options27(s, st.name+key) })
		}
	}
	s := structs19()[0].scenario(0, 0)()
	for i, o := range []*instance.RunOptions{{Op: instance.OpRestart}, {Op: instance.OpResume}, {Op: instance.OpRestart, ReturnID: true}, {Op: instance.OpRestart, DetachExecution: true}} {
		b, err := rig.Build(s)
		if err != nil {
			panic(err)
		}
		var its []rig.RecItem
		if rig.Rec != nil {
			rig.Rec.Hook = func(it *rig.RecItem) { its = append(its, *it) }
		}
		r := rig.Start(b, s, rig.Options{Run: o, Inputs: map[string]any{}})
		if rig.Rec != nil {
			rig.Rec.Hook = nil
		}
		w.R.Evals++
		if r.RunErr == nil || r.Evals() > 0 || len(r.Calls) > 0 || r.Dones > 0 || len(its) > 0 {
			w.Violate("bad-options", fmt.Sprintf("options %d: a run that cannot be continued (no state given) must be refused: error %v, %d observations, %d handler calls, %d completions, %d records", i, r.RunErr, r.Evals(), len(r.Calls), r.Dones, len(its)), s)
		} else {
			w.R.Valid++
		}
	}
}

// options27 runs a scenario without and with run options.
func (w *W) options27(s *spec.Scenario, key string) {
	limited := w.Conf.Env["FLOGO_MAX_STEP_COUNT"] != ""
	var its []rig.RecItem
	done := make(chan bool, 10)
	rec := rig.Rec != nil
	if rec {
		rig.Rec.Hook = func(it *rig.RecItem) {
			its = append(its, *it)
			if it.Kind == "done" {
				done <- true
			}
		}
		defer func() { rig.Rec.Hook = nil }()
	}
	base, ok := "", true
	model := newModel(s)
	type variant struct {
		name string
		opt  *instance.RunOptions
	}
	vs := []variant{
		{"", nil},
		{"id", &instance.RunOptions{ReturnID: true}},
		{"given", &instance.RunOptions{ReturnID: true, PreservedInstanceId: "given-id", Rerun: true, OriginalInstanceId: "orig-id"}},
		{"preserved", &instance.RunOptions{PreservedInstanceId: "given-id"}},
	}
	if rec { // its end is not observable otherwise
		vs = append(vs, variant{"detached", &instance.RunOptions{DetachExecution: true, PreservedInstanceId: "given-id"}})
	}
	if s.Note == "" { // without faults: every combination
		vs = vs[:1]
		for c := 1; c < 32; c++ {
			if c&16 != 0 && !rec {
				continue
			}
			o := &instance.RunOptions{ReturnID: c&1 != 0, Rerun: c&4 != 0, DetachExecution: c&16 != 0}
			if c&2 != 0 {
				o.PreservedInstanceId = "given-id"
			}
			if c&8 != 0 {
				o.OriginalInstanceId = "orig-id"
			}
			vs = append(vs, variant{fmt.Sprint("combination", c), o})
		}
	}
	for _, v := range vs {
		if !ok || w.stop {
			return
		}
		v := v
		x := X{Orders: []string{""}, Key: key + v.name}
		x.MkOpts = func() rig.Options {
			its = nil
			for len(done) > 0 {
				<-done
			}
			o := rig.Options{}
			if v.opt != nil {
				c := *v.opt
				o.Run = &c
			}
			return o
		}
		x.Judge = func(r *rig.Run) (string, string) {
			if r.RunErr != nil {
				return "run-error", r.RunErr.Error()
			}
			opt := v.opt
			if opt == nil {
				opt = &instance.RunOptions{}
			}
			if opt.DetachExecution {
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					return "no-done", "the end of a detached run is never recorded"
				}
			}
			obs := r.Obs()
			if opt.DetachExecution {
				if len(r.Calls) > 0 {
					return "detached-outcome", fmt.Sprintf("a detached run reports a result to its caller: %s", normTrace(obs))
				}
				if r.Dones != 1 {
					return "detached-done", fmt.Sprintf("a detached run signals completion %d times", r.Dones)
				}
			}
			id := opt.PreservedInstanceId
			if id == "" && rec && len(its) > 0 && its[0].FS != nil {
				id = its[0].FS.FlowInstanceId
			}
			for _, o := range obs { // activities of the main flow see the id
				if o.Kind == "eval" && o.Flow == s.Flows[s.Main].Name {
					if id == "" {
						id = o.Inst
					}
					if o.Inst != id {
						return "instance-id", fmt.Sprintf("an activity of the run %q sees the id %q", id, o.Inst)
					}
				}
			}
			if opt.ReturnID && !opt.DetachExecution {
				if len(r.Calls) < 2 {
					return "id-missing", "the run must report its id and its outcome:\n" + traceText(r)
				}
				c := r.Calls[0]
				if c.At != 0 || c.Err != nil || len(c.Data) != 1 || c.Data["id"] == nil || (id != "" && c.Data["id"] != any(id)) {
					return "id-first", fmt.Sprintf("the run %q must report its id first:\n%s", id, traceText(r))
				}
				obs = obs[1:]
			}
			if !opt.DetachExecution {
				n := 0
				for _, c := range r.Calls {
					if c.Done {
						return "outcome-after-done", "the result handler was called after completion was signalled"
					}
				}
				for _, o := range obs {
					if o.Kind == "outcome" {
						n++
					}
				}
				if n != 1 || r.Dones != 1 {
					return "outcomes", fmt.Sprintf("%d outcomes, %d completions:\n%s", n, r.Dones, traceText(r))
				}
			}
			if v.opt == nil && !limited {
				if k, m := w.judge(model, r, x); k != "" {
					return k, m
				}
			}
			if v.opt == nil {
				base = trail27(obs, id, false)
			} else if t := trail27(obs, id, opt.DetachExecution); t != cut27(base, opt.DetachExecution) {
				return "differs", fmt.Sprintf("with the run options %q the run does\n  %s\nwithout them\n  %s", v.name, t, cut27(base, opt.DetachExecution))
			}
			if rec {
				if k, m := records27(its, r, s, opt, id, obs); k != "" {
					return k, m + "\nrecords: " + text27(its)
				}
			}
			return "", ""
		}
		ok = w.Exec(s, x)
	}
}

// trail27 is what a run does, its outcome in a part of its own.
func trail27(obs []ref.Obs, id string, detached bool) string {
	var a, b []ref.Obs
	for _, o := range obs {
		switch o.Kind {
		case "eval":
			a = append(a, o)
		default:
			b = append(b, o)
		}
	}
	if detached {
		return normTrace(a)
	}
	t := normTrace(b)
	if id != "" {
		t = strings.ReplaceAll(t, id, "<id>")
	}
	return normTrace(a) + "\x00" + t
}

func cut27(s string, detached bool) string {
	if detached {
		for i := range s {
			if s[i] == 0 {
				return s[:i]
			}
		}
	}
	return s
}

func text27(its []rig.RecItem) string {
	t := ""
	for _, it := range its {
		t += fmt.Sprintf("\n  at %d %s ", it.AtObs, it.Kind)
		switch {
		case it.FS != nil:
			t += js(it.FS)
		case it.Step != nil:
			t += js(it.Step)
		case it.Snap != nil:
			t += js(it.Snap)
		}
	}
	return t
}

// records27 checks what the recorder was told of a run.
func records27(its []rig.RecItem, r *rig.Run, s *spec.Scenario, opt *instance.RunOptions, id string, obs []ref.Obs) (string, string) {
	if len(its) < 2 || its[0].Kind != "start" || its[len(its)-1].Kind != "done" {
		return "envelope", "the first record must be that of the start and the last one that of the end"
	}
	first, last := its[0], its[len(its)-1]
	for i, fs := range []*state.FlowState{first.FS, last.FS} {
		what := []string{"start", "end"}[i]
		if fs.FlowInstanceId != id {
			return what + "-id", fmt.Sprintf("the record of the %s names the run %q instead of %q", what, fs.FlowInstanceId, id)
		}
		if fs.FlowName != s.Flows[s.Main].Name {
			return what + "-name", fmt.Sprintf("the record of the %s names the flow %q", what, fs.FlowName)
		}
		if have, want := js(fs.FlowInputs), js(s.Inputs); have != want {
			return what + "-inputs", fmt.Sprintf("the record of the %s shows the inputs %s instead of %s", what, have, want)
		}
		if fs.StartTime.After(fs.EndTime) || fs.StartTime.IsZero() {
			return what + "-time", fmt.Sprintf("the record of the %s says that the run began at %v and ended at %v", what, fs.StartTime, fs.EndTime)
		}
	}
	if !first.FS.StartTime.Equal(last.FS.StartTime) {
		return "start-time", fmt.Sprintf("the run began at %v according to its first record and at %v according to the last", first.FS.StartTime, last.FS.StartTime)
	}
	if first.FS.OriginalInstanceId != opt.OriginalInstanceId {
		return "start-original", fmt.Sprintf("the record of the start names the original run %q instead of %q", first.FS.OriginalInstanceId, opt.OriginalInstanceId)
	}
	if first.AtObs != 0 {
		return "start-late", "something was executed or reported before the start was recorded"
	}
	if first.FS.FlowStats != "Created" && first.FS.FlowStats != "Started" {
		return "start-status", "the start is recorded with the status " + first.FS.FlowStats
	}
	evals := 0
	for i, o := range r.Obs() {
		if o.Kind == "eval" {
			evals = i + 1
		}
	}
	if last.AtObs < evals {
		return "end-early", "an activity was executed after the end was recorded"
	}
	if opt.DetachExecution {
		if last.FS.FlowStats != "Completed" && last.FS.FlowStats != "Failed" {
			return "end-status", "the end is recorded with the status " + last.FS.FlowStats
		}
	} else {
		for _, o := range obs {
			if o.Kind != "outcome" {
				continue
			}
			want := "Completed"
			if o.HasEr {
				want = "Failed"
			}
			if last.FS.FlowStats != want {
				return "end-status", fmt.Sprintf("the end of a run is recorded with the status %s instead of %s", last.FS.FlowStats, want)
			}
			if have, want := spec.Canon(plain27(last.FS.FlowOutputs)), spec.Canon(plain27(o.Data)); !o.HasEr && have != want {
				return "end-outputs", fmt.Sprintf("the end is recorded with the outputs %s but %s is reported", have, want)
			}
		}
	}
	nStep, nSnap, at := 0, 0, 0
	for _, it := range its[1 : len(its)-1] {
		if it.AtObs < at {
			return "order", "records go back in time"
		}
		at = it.AtObs
		switch it.Kind {
		case "step":
			p := it.Step
			if p.Id != nStep {
				return "step-number", fmt.Sprintf("the step recorded as number %d is the %d. one", p.Id, nStep)
			}
			if p.FlowId != id {
				return "step-id", fmt.Sprintf("step %d names the run %q instead of %q", p.Id, p.FlowId, id)
			}
			if p.Rerun != opt.Rerun {
				return "step-rerun", fmt.Sprintf("step %d says rerun=%v instead of %v", p.Id, p.Rerun, opt.Rerun)
			}
			if p.StartTime.After(p.EndTime) || p.StartTime.IsZero() {
				return "step-time", fmt.Sprintf("step %d lasts from %v to %v", p.Id, p.StartTime, p.EndTime)
			}
			nStep++
		case "snapshot":
			if it.Snap.Id != id {
				return "snapshot-id", fmt.Sprintf("snapshot %d names the run %q instead of %q", nSnap, it.Snap.Id, id)
			}
			nSnap++
		default:
			return "envelope", "a second record of kind " + it.Kind
		}
	}
	mode := rig.Cfg.Mode
	if (nStep > 0) != (mode == "step" || mode == "full" || mode == "debugger") {
		return "mode", fmt.Sprintf("%d steps are recorded in mode %s", nStep, mode)
	}
	if (nSnap > 0) != (mode == "snapshot" || mode == "full") {
		return "mode", fmt.Sprintf("%d snapshots are recorded in mode %s", nSnap, mode)
	}
	if mode == "full" && nStep != nSnap {
		return "mode", fmt.Sprintf("%d steps but %d snapshots are recorded in mode %s", nStep, nSnap, mode)
	}
	return "", ""
}

func plain27(m any) map[string]any {
	x, _ := norm(m).(map[string]any)
	if len(x) == 0 {
		return nil
	}
	return x
}
