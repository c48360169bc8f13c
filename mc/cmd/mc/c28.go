package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/tester"
	"verif.local/vmc/rig"
	"verif.local/vmc/spec"
)

func init() {
	register(&Check{
		ID:   "C28",
		Diff: true,
		Configs: func(tier string) []Conf {
			return []Conf{
				{Name: "start", Rig: rig.Config{Mode: "off"}},
				{Name: "restart", Rig: rig.Config{Mode: "off"}},
				{Name: "malformed", Rig: rig.Config{Mode: "off"}},
				{Name: "server", Rig: rig.Config{Mode: "off"}, Shards: 1},
			}
		},
		Assume: append([]string{
			"what follows the first JSON value of a body is left open, as is whether unknown members are refused",
			"what was replied before a flow is saved is not part of its state"}, commonAssume...),
		Rule: "flow structures x error handlers x every set of up to k faults, returns and replies, started by a request in each form (inputs as attrs, as data, as both, none), and restarted and resumed by a request from the state saved at every step boundary; what a request makes a flow do is compared with the same run through the flow action, which is judged by the reference model; malformed requests: every prefix of a request, every member replaced by every JSON type, missing members; the server: routes, status, start and stop; distinct by request form and trace",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=2 without handlers, k=1 with {one task of main and sub, chain}"
			}
			return "k=2; handlers {none, one task of main and sub, chain, error link}"
		},
		Run: run28,
	})
}

type resp28 struct {
	code  int
	body  string
	panic any
}

// post28 hands a request to a handler of the tester.
func post28(h func(ft *tester.RestFlowTester, w http.ResponseWriter, r *http.Request), body []byte) (re resp28) {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/flow", bytes.NewReader(body))
	defer func() {
		re.code, re.body = w.Code, w.Body.String()
		if p := recover(); p != nil {
			re.panic = p
		}
	}()
	h(tester28(), w, r)
	return
}

func start28(ft *tester.RestFlowTester, w http.ResponseWriter, r *http.Request) {
	ft.StartFlow(w, r, nil)
}
func restart28(ft *tester.RestFlowTester, w http.ResponseWriter, r *http.Request) {
	ft.RestartFlow(w, r, nil)
}
func resume28(ft *tester.RestFlowTester, w http.ResponseWriter, r *http.Request) {
	ft.ResumeFlow(w, r, nil)
}

var theTester *tester.RestFlowTester

func tester28() *tester.RestFlowTester {
	if theTester == nil {
		s, err := newTester28(0)
		if err != nil {
			panic(err)
		}
		theTester = s.(*tester.RestFlowTester)
	}
	return theTester
}

func newTester28(port int) (service.Service, error) {
	log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
	return (&tester.FlowTesterFactory{}).NewService(&service.Config{Settings: map[string]interface{}{"port": port}})
}

// told28 is what the recorder was told of a run.
type told28 struct {
	starts, dones int
	id, status    string
	outputs       string
	inputs        string
	name          string
}

func watch28(t *told28) func() {
	rig.Rec.Hook = func(it *rig.RecItem) {
		switch it.Kind {
		case "start":
			t.starts++
			t.id, t.name, t.inputs = it.FS.FlowInstanceId, it.FS.FlowName, spec.Canon(plain27(it.FS.FlowInputs))
		case "done":
			t.dones++
			t.status, t.outputs = it.FS.FlowStats, spec.Canon(plain27(it.FS.FlowOutputs))
		}
	}
	return func() { rig.Rec.Hook = nil }
}

// answered28 says what is wrong with the answer to a request that made a flow run.
func answered28(a resp28, t *told28, r *rig.Run) (string, string) {
	if a.panic != nil {
		return "panic", fmt.Sprintf("the request makes the service panic: %v", a.panic)
	}
	if t.starts != 1 || t.dones != 1 {
		return "runs", fmt.Sprintf("the request made %d runs begin and %d end when it was answered (with %d %s)", t.starts, t.dones, a.code, a.body)
	}
	var m map[string]any
	if a.code != 200 || json.Unmarshal([]byte(a.body), &m) != nil || m["id"] != any(t.id) {
		return "answer", fmt.Sprintf("the request that started the run %q was answered with %d %s", t.id, a.code, a.body)
	}
	for _, o := range r.Obs() {
		if o.Kind == "eval" && r.S.Flows[r.S.Main].Name == o.Flow && o.Inst != t.id {
			return "id", fmt.Sprintf("the request was answered with the id %q, but an activity of the run sees %q", t.id, o.Inst)
		}
	}
	return "", ""
}

func run28(w *W) {
	switch w.Conf.Name {
	case "malformed":
		w.malformed28()
		return
	case "server":
		w.server28()
		return
	}
	k := 1
	hs := [][2]int{{0, 0}, {1, 1}, {2, 0}}
	if !w.Quick() {
		k = 2
		hs = [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}}
	}
	sts := structs19()
	if w.Conf.Name == "restart" {
		sts = structs17()
	}
	for _, st := range sts {
		for _, h := range hs {
			if h[1] > 0 && h[0] == 0 && len(st.mk()) < 2 {
				continue
			}
			mk := func() *spec.Scenario {
				s := st.scenario(h[0], h[1])()
				data19(s)
				return s.Norm()
			}
			kinds := "ecprmMilsLRyf"
			if w.Conf.Name == "restart" { // what was replied before is not part of the state
				kinds = "ecprmMilsLRf"
			}
			n := k
			if h[0]+h[1] == 0 {
				n = 2
			}
			w.withFaults(mk, kinds, n, func(s *spec.Scenario, key string) {
				if w.Conf.Name == "start" {
					w.start28(s, st.name+key)
				} else if !undefined17(key) {
					w.restart28(s, st.name+key)
				}
			})
		}
	}
	if w.Conf.Name == "restart" {
		w.data28()
	}
}

func (w *W) start28(s *spec.Scenario, key string) {
	b, err := rig.Build(s)
	if err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	base, want := "", told28{}
	model := newModel(s)
	t := told28{}
	defer watch28(&t)()
	if !w.ExecB(b, s, X{Orders: []string{""}, Key: key, MkOpts: func() rig.Options { t = told28{}; return rig.Options{} }, Judge: func(r *rig.Run) (string, string) {
		base, want = trail27(r.Obs(), "", true), t
		return w.judge(model, r, X{})
	}}) {
		return
	}
	other := map[string]any{"in": "not this", "zz": 1}
	uri := "res://flow:" + s.Main
	type form struct {
		name string
		req  map[string]any
	}
	fs := []form{
		{"attrs", map[string]any{"flowUri": uri, "attrs": s.Inputs}},
		{"data", map[string]any{"flowUri": uri, "data": s.Inputs, "attrs": map[string]any{}}},
		{"interceptor", map[string]any{"flowUri": uri, "data": s.Inputs, "interceptor": map[string]any{}, "patch": map[string]any{}, "replyTo": "x"}},
	}
	if len(s.Inputs) > 0 {
		fs = append(fs, form{"both", map[string]any{"flowUri": uri, "attrs": s.Inputs, "data": other}})
	}
	for _, f := range fs {
		if w.stop {
			return
		}
		one := func() (*rig.Run, string, string) {
			t = told28{}
			r := rig.Collect(s)
			setOrder("")
			a := post28(start28, []byte(js(f.req)))
			k, m := answered28(a, &t, r)
			if k == "" {
				if have := trail27(r.Obs(), "", true); have != base {
					k, m = "differs", fmt.Sprintf("started by a request the flow does\n  %s\nthrough the flow action\n  %s", have, base)
				} else if t.status != want.status || t.name != want.name || (t.status == "Completed" && t.outputs != want.outputs) {
					k, m = "end", fmt.Sprintf("started by a request the flow %s ends as %s with %s, through the flow action %s as %s with %s", t.name, t.status, t.outputs, want.name, want.status, want.outputs)
				} else if t.inputs != want.inputs {
					k, m = "inputs", fmt.Sprintf("the flow is started with %s instead of %s", t.inputs, want.inputs)
				}
			}
			return r, k, m
		}
		w.confirm28(s, f.name, js(f.req), key, one)
	}
}

// confirm28 counts an execution, and repeats a failing one.
func (w *W) confirm28(s *spec.Scenario, name, req, key string, one func() (*rig.Run, string, string)) {
	w.R.Evals++
	r, k, m := one()
	if k == "" {
		w.R.Valid++
		w.R.Stats.States++
		w.R.Stats.Trans += int64(len(r.Obs()))
		w.Distinct(key + name + normTrace(r.Obs()))
		return
	}
	if _, k2, _ := one(); k2 != k {
		w.Count("unconfirmed", 1)
		return
	}
	w.Violate(name+"-"+k, m+"\nrequest: "+req+"\nobserved:\n"+traceText(r), s)
}

// restart28 restarts a flow by a request from every step boundary.
func (w *W) restart28(s *spec.Scenario, key string) {
	if _, err := rig.Build(s); err != nil {
		w.Violate("load", err.Error(), s)
		return
	}
	setOrder("")
	t := told28{}
	st, err := rig.NewStepped(s, rig.Options{})
	if err != nil {
		w.Violate("start", err.Error(), s)
		return
	}
	type point struct {
		saved []byte
		obs   int
		skip  bool
	}
	var pts []point
	for n := 0; n < 100; n++ {
		b, err := json.Marshal(st.Inst)
		if err != nil {
			w.Violate("save", err.Error(), s)
			return
		}
		a, _ := actual(st)
		pts = append(pts, point{b, st.Evals(), midway17(s, st.Obs(), a)})
		if !st.Step() {
			break
		}
	}
	whole := st.Obs()
	oc, status := "", "Completed"
	for _, o := range whole {
		if o.Kind == "outcome" {
			oc = spec.Canon(plain27(o.Data))
			if o.HasEr {
				status = "Failed"
			}
		}
	}
	defer watch28(&t)()
	for i, p := range pts {
		if p.skip || w.stop {
			continue
		}
		for _, name := range []string{"state", "data", "resume"} {
			req, h := `{"initialState":`+string(p.saved)+`}`, restart28
			switch name {
			case "data":
				req = `{"initialState":` + string(p.saved) + `,"data":{"unused28":1},"interceptor":{},"patch":{}}`
			case "resume":
				req, h = `{"state":`+string(p.saved)+`}`, resume28
			}
			w.confirm28(s, name, req, fmt.Sprint(key, i), func() (*rig.Run, string, string) {
				t = told28{}
				r := rig.CollectAfter(s, st.Run, p.obs)
				a := post28(h, []byte(req))
				k, m := answered28(a, &t, r)
				if k == "" && name == "resume" && t.id != st.Inst.ID() {
					k, m = "resumed-id", fmt.Sprintf("the flow %s is resumed as %s", st.Inst.ID(), t.id)
				}
				if k == "" {
					want := strings.ReplaceAll(evals28(tail17(whole, p.obs)), st.Inst.ID(), "<id>")
					have := strings.ReplaceAll(evals28(tail17(r.Obs(), 0)), t.id, "<id>")
					if want != have {
						k, m = "rest", fmt.Sprintf("restarted by a request from the state saved after step %d the flow does\n  %s\ninstead of\n  %s", i, have, want)
					} else if t.status != status || (status == "Completed" && strings.ReplaceAll(t.outputs, t.id, "<id>") != strings.ReplaceAll(oc, st.Inst.ID(), "<id>")) {
						k, m = "end", fmt.Sprintf("restarted from the state saved after step %d the flow ends as %s with %s instead of as %s with %s", i, t.status, t.outputs, status, oc)
					}
				}
				return r, k, m
			})
		}
	}
}

// evals28 drops replies and outcomes, which the service does not pass on.
func evals28(t string) string {
	var l []string
	for _, x := range strings.Split(t, ";") {
		if !strings.HasPrefix(x, "outcome ") && !strings.HasPrefix(x, "reply ") {
			l = append(l, x)
		}
	}
	return strings.Join(l, ";")
}

// data28: the data of a restart request replaces that of the flow.
func (w *W) data28() {
	for n := 2; n <= 4; n++ {
		var ts []*spec.Task
		var lk []*spec.Link
		for i, id := range names(n) {
			ts = append(ts, T(id, In("in", spec.Flow("in")), In("a", spec.Flow("other"))))
			if i > 0 {
				lk = append(lk, L(names(n)[i-1], id, D))
			}
		}
		f := fl("m", ls(lk...), ts...)
		f.In = []spec.Param{{Name: "in", Type: "any"}, {Name: "other", Type: "any"}}
		for _, v := range []any{"new", 7.0, nil, map[string]any{"k": 1.0}, []any{}} {
			if !w.Next() {
				continue
			}
			s := one(f)
			s.Inputs = map[string]any{"in": "old", "other": "kept"}
			if _, err := rig.Build(s); err != nil {
				w.Violate("load", err.Error(), s)
				return
			}
			st, err := rig.NewStepped(s, rig.Options{})
			if err != nil {
				panic(err)
			}
			t := told28{}
			var saved [][]byte
			for more := true; more; more = st.Step() {
				b, _ := json.Marshal(st.Inst)
				saved = append(saved, b)
			}
			for at2 := range 2 * len(saved) { // each step evaluates one task
				at, resume := at2/2, at2%2 == 1
				b := saved[at]
				un := watch28(&t)
				req := js(map[string]any{"initialState": json.RawMessage(b), "data": map[string]any{"in": v}})
				h := restart28
				if resume {
					req = js(map[string]any{"state": json.RawMessage(b), "data": map[string]any{"in": v}})
					h = resume28
				}
				w.confirm28(s, "new-data", req, fmt.Sprint(n, at, v, resume), func() (*rig.Run, string, string) {
					t = told28{}
					r := rig.CollectAfter(s, st.Run, at)
					a := post28(h, []byte(req))
					k, m := answered28(a, &t, r)
					if k == "" && resume != (t.id == st.Inst.ID()) {
						k, m = "data-id", fmt.Sprintf("the flow %s goes on as %s, resumed: %v", st.Inst.ID(), t.id, resume)
					}
					left := n - at
					for _, o := range r.Obs() {
						if o.Kind == "eval" {
							left--
							want := map[string]any{"a": "kept"}
							if v != nil {
								want["in"] = v
							}
							if k == "" && spec.Canon(o.In) != spec.Canon(want) {
								k, m = "data", fmt.Sprintf("after a restart or resumption with the data in=%s the task %s sees %s", js(v), o.Task, spec.Canon(o.In))
							}
						}
					}
					if k == "" && left != 0 {
						k, m = "data", fmt.Sprintf("%d tasks are missing after the restart", left)
					}
					return r, k, m
				})
				un()
			}
		}
	}
}

// malformed28: requests that name nothing that can be run.
func (w *W) malformed28() {
	s := structs19()[0].scenario(1, 0)()
	data19(s)
	s.Norm()
	if _, err := rig.Build(s); err != nil {
		panic(err)
	}
	st, err := rig.NewStepped(s, rig.Options{})
	if err != nil {
		panic(err)
	}
	st.Step()
	saved, _ := json.Marshal(st.Inst)
	uri := "res://flow:" + s.Main
	startOK := map[string]any{"flowUri": uri, "attrs": map[string]any{"in": 1}, "data": map[string]any{"in": 2}, "interceptor": map[string]any{"taskInterceptors": []any{}}, "patch": map[string]any{"tasks": []any{}}}
	var state any
	_ = json.Unmarshal(saved, &state)
	restartOK := map[string]any{"initialState": state, "data": map[string]any{"in": 2}, "interceptor": map[string]any{}, "patch": map[string]any{}}
	resumeOK := map[string]any{"state": state, "data": map[string]any{"in": 2}, "interceptor": map[string]any{}, "patch": map[string]any{}}

	refused := func(name string, h func(*tester.RestFlowTester, http.ResponseWriter, *http.Request), body string, exact bool) {
		if !w.Next() {
			return
		}
		w.R.Evals++
		t := told28{}
		un := watch28(&t)
		r := rig.Collect(s)
		a := post28(h, []byte(body))
		un()
		k, m := "", ""
		switch {
		case a.panic != nil:
			k, m = "panic", fmt.Sprintf("the request makes the service panic: %v", a.panic)
		case r.Evals() > 0 || t.starts > 0:
			k, m = "runs", fmt.Sprintf("the malformed request makes a flow run (answer %d %s)", a.code, a.body)
		case exact && (a.code < 400 || a.code > 499 || strings.TrimSpace(a.body) == ""):
			k, m = "answer", fmt.Sprintf("the malformed request is answered with %d %q", a.code, a.body)
		}
		if k != "" {
			w.Violate(name+"-"+k, m+"\nrequest: "+body, s)
			return
		}
		w.R.Valid++
		w.R.Stats.States++
		w.Distinct(name + body)
	}
	kinds := []any{nil, true, 3.5, "text", []any{}, []any{1.0}, map[string]any{}, map[string]any{"x": "y"}}
	for _, e := range []struct {
		name string
		h    func(*tester.RestFlowTester, http.ResponseWriter, *http.Request)
		ok   map[string]any
		main string
	}{{"start", start28, startOK, "flowUri"}, {"restart", restart28, restartOK, "initialState"}, {"resume", resume28, resumeOK, "state"}} {
		text := js(e.ok)
		for i := 0; i < len(text); i++ {
			refused(e.name+"-prefix", e.h, text[:i], true)
		}
		for _, b := range []string{"null", "1", "[]", `"x"`, "{}", "true", "{]", "\x00", "{\"flowUri\":}"} {
			refused(e.name+"-body", e.h, b, true)
		}
		for _, m := range sortedKeys28(e.ok) {
			for _, v := range kinds {
				c := map[string]any{}
				for k, x := range e.ok {
					c[k] = x
				}
				c[m] = v
				_, isMap := v.(map[string]any)
				if m == e.main || (v != nil && !isMap) {
					refused(e.name+"-"+m, e.h, js(c), true)
				}
			}
			c := map[string]any{}
			for k, x := range e.ok {
				if k != m {
					c[k] = x
				}
			}
			if m == e.main {
				refused(e.name+"-without", e.h, js(c), true)
			}
		}
	}
	for _, u := range []string{"", "x", "res://", "res://flow", "res://flow:", "res://flow:nosuch", "res://other:m", "file:///nonexistent/flow.json", ":", "http://127.0.0.1:1/flow"} {
		refused("start-uri", start28, js(map[string]any{"flowUri": u, "attrs": map[string]any{"in": 1}}), true)
		var c map[string]any
		_ = json.Unmarshal(saved, &c)
		c["flowURI"] = u
		for k := range c {
			if strings.EqualFold(k, "flowuri") {
				c[k] = u
			}
		}
		refused("restart-uri", restart28, js(map[string]any{"initialState": c}), true)
		refused("resume-uri", resume28, js(map[string]any{"state": c}), true)
	}
}

// server28: the service behind its address.
func (w *W) server28() {
	fail := func(k, m string) { w.Violate("server-"+k, m, nil) }
	s := structs19()[0].scenario(0, 0)()
	data19(s)
	s.Norm()
	if _, err := rig.Build(s); err != nil {
		panic(err)
	}
	if !w.Next() {
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		w.Count("no_network", 1)
		return
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	svc, err := newTester28(port)
	if err != nil {
		fail("new", err.Error())
		return
	}
	if err := svc.Start(); err != nil {
		w.Count("no_port", 1)
		return
	}
	if svc.Start() == nil {
		fail("start-twice", "a running service is started again without an error")
	}
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	cl := &http.Client{Timeout: 10 * time.Second}
	do := func(method, path, body string) resp28 {
		q, _ := http.NewRequest(method, base+path, strings.NewReader(body))
		a, err := cl.Do(q)
		w.R.Evals++
		if err != nil {
			return resp28{panic: err}
		}
		defer a.Body.Close()
		b := &bytes.Buffer{}
		_, _ = b.ReadFrom(a.Body)
		return resp28{code: a.StatusCode, body: b.String()}
	}
	good := js(map[string]any{"flowUri": "res://flow:" + s.Main, "attrs": s.Inputs})
	type step struct {
		method, path, body string
		code               int
		runs               int
	}
	steps := []step{
		{"GET", "/status", "", 200, 0},
		{"OPTIONS", "/flow/start", "", 200, 0}, {"OPTIONS", "/flow/restart", "", 200, 0}, {"OPTIONS", "/flow/resume", "", 200, 0}, {"OPTIONS", "/status", "", 200, 0},
		{"GET", "/flow/start", "", 405, 0}, {"POST", "/nowhere", "{}", 404, 0},
		{"POST", "/flow/start", good, 200, 1}, {"POST", "/flow/start", "{", 400, 0}, {"POST", "/flow/restart", "{}", 400, 0}, {"POST", "/flow/resume", "{}", 400, 0}, {"POST", "/flow/start", `{"flowUri":"res://flow:nosuch"}`, 400, 0},
	}
	// every sequence of two requests: none may disturb the next one
	for _, a := range steps {
		for _, b := range steps {
			for _, x := range []step{a, b} {
				t := told28{}
				un := watch28(&t)
				rig.Collect(s)
				got := do(x.method, x.path, x.body)
				un()
				switch {
				case got.panic != nil:
					fail("unanswered", fmt.Sprintf("%s %s %s is not answered: %v", x.method, x.path, x.body, got.panic))
				case got.code != x.code && x.runs == 0 && x.code >= 400 && got.code >= 400 && got.code < 500:
				case got.code != x.code:
					fail("answer", fmt.Sprintf("%s %s %s is answered with %d %s instead of %d", x.method, x.path, x.body, got.code, got.body, x.code))
				case t.starts != x.runs || t.dones != x.runs:
					fail("runs", fmt.Sprintf("%s %s %s makes %d runs", x.method, x.path, x.body, t.starts))
				case x.runs > 0 && !strings.Contains(got.body, t.id):
					fail("id", fmt.Sprintf("%s %s %s is answered with %s for the run %s", x.method, x.path, x.body, got.body, t.id))
				case x.path == "/status" && x.method == "GET" && !strings.Contains(got.body, "ok"):
					fail("status", got.body)
				default:
					w.R.Valid++
					w.R.Stats.States++
				}
				w.Distinct(a.method + a.path + a.body + b.method + b.path + b.body)
			}
		}
	}
	cl.CloseIdleConnections()
	if err := svc.Stop(); err != nil {
		fail("stop", err.Error())
	}
	if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
		c.Close()
		fail("stopped", "a stopped service still accepts connections")
	}
	fresh, err := newTester28(port)
	if err == nil && fresh.Stop() == nil {
		fail("stop-idle", "a service that was not started is stopped without an error")
	}
}

func sortedKeys28(m map[string]any) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
