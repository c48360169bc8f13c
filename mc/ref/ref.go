// Package ref is the reference model of a flow run: an explicit-state
// transition system written from the properties, not from the engine's code.
//
// A state holds the flow instances of one run, the status of their tasks and
// links, their data, and the pool of ready work items.  The model is
// nondeterministic exactly where the properties leave freedom: any ready item
// may be taken next and an object may be iterated in any key order.
package ref

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verif.local/vmc/spec"
)

type TStat uint8

const (
	TNone TStat = iota // undecided
	TReady
	TWait
	TDone
	TSkip
	TFail
)

type LStat uint8

const (
	LNone LStat = iota
	LFalse
	LTrue
	LSkip
)

type FStat uint8

const (
	Active FStat = iota
	Completed
	Failed
)

// Any in expected data matches every value.
const Any = "§any"

// Err is a failure in the model.
type Err struct {
	Kind  string // err, coded, retri, panic, map, link, loop, sub, other
	Msg   string
	Code  string
	Data  any
	Task  string
	Exact bool // message known exactly
}

type loopSt struct {
	vals []any
	keys []any
	obj  bool
	left []int // object: not yet visited; others: unused
	i    int
}

type tSt struct {
	st    TStat
	evals int
	loop  *loopSt
	dw    int // do-while index, -1 before the first round
	iter  map[string]any
	retry int // -1: not set up
	intvl float64
	wait  float64 // required wait before the next evaluation
	dwait float64 // configured loop delay since the last evaluation
	again bool    // next evaluation repeats the same attempt round (retry)
	sub   int     // running subflow instance, -1
	subOK bool
	outs  map[string]any // outputs available to the post step
	serr  *Err
	fail  *Err
	runs  int // times completed
}

type Inst struct {
	F        *spec.FlowDef
	Parent   int // -1: main
	Host     int
	Stat     FStat
	Handling bool
	T        []tSt
	L        []LStat
	Attrs    map[string]any
	Ret      map[string]any
	RetSet   bool
	RetErr   string
	Replied  bool
	Err      *Err
	ID       string // bound implementation instance id
	ready    int
	waiting  int
}

type item struct {
	inst, task int
	post       bool
}

// State of a run.  Inst values are shared between states until written.
type State struct {
	M     *Model
	I     []*Inst
	own   []bool
	Q     []item
	Pend  []Obs // observations that must come next
	Ended bool
	Det   []Detached
	Log   []Ev             // what happened, kept when the model is asked to
	Run   []running        // concurrent mode: the activities being evaluated
	As    map[string][]int // results of the interceptor's assertions and of activities
}

// running is an activity between the moment its task is taken up and the moment its result is taken
// in (concurrent mode).  Its evaluation is observed some time in between, also when it has been
// abandoned by then.
type running struct {
	inst, task int
	in         map[string]any
	o          spec.Outcome
	nth        int
	lab        *Obs
	stage      int // 0: not yet observed, 1: observed, 2: what it does to its flow is done
	lost       bool
}

// Ev is a happening of interest to the checkers (kept when Model.KeepLog).
type Ev struct {
	Kind string // eval, done, fail, skip, sub, end, handler, link
	Inst int
	Task int
	N    int
	St   int
	Err  *Err
	In   map[string]any
	Out  map[string]any
}

type Detached struct {
	Flow string
	In   map[string]any
	From int
}

// Obs is an observation: an activity evaluation, a reply or the outcome.
type Obs struct {
	Kind  string         `json:"k"` // eval, reply, outcome
	Inst  string         `json:"i,omitempty"`
	Flow  string         `json:"f,omitempty"`
	Task  string         `json:"t,omitempty"`
	N     int            `json:"n,omitempty"`
	In    map[string]any `json:"in,omitempty"`
	Data  any            `json:"data,omitempty"`
	Err   string         `json:"err,omitempty"`
	HasEr bool           `json:"haserr,omitempty"`
	Slept float64        `json:"slept,omitempty"` // ms slept (virtual) since the last evaluation of this task instance ended
	Adj   bool           `json:"-"`               // nothing else was evaluated in between
	Real  float64        `json:"-"`

	inst  int
	mErr  *Err
	wait  float64
	dwait float64
	any   bool // Data unspecified
}

type Model struct {
	S       *spec.Scenario
	KeepLog bool
	Whole   bool // tell states apart by how their ended instances ended
	// Ins are the mocks and assertions of a test interceptor
	Ins map[string]*Intercept
	Fix map[string]any // flow-context values
	// Conc: tasks that are ready are evaluated at once, each on its own
	Conc  bool
	NoVal bool // schemas are not enforced
}

type Intercept struct {
	In      map[string]any
	Skip    bool
	Mock    bool
	Out     map[string]any
	MockErr string
	MErr    bool
	ErrData any
	Type    int // 1, 2: its assertions are checked after success, failure
	As      []Assert
}

// Assert is an assertion: an expression or the text of none.
type Assert struct {
	X   *spec.Expr
	Raw string
}

// Text of the assertion's expression.
func (a Assert) Text() string {
	if a.X != nil {
		return a.X.Text()
	}
	return a.Raw
}

// Results of assertions and activities, as the interceptor has them.
const (
	NotExecuted = iota
	Passed
	Failing
	Mocked
	NotAsserted
)

// assert gives each assertion under the name its result.
func (s *State) assert(name string, typ int, sc spec.Scope) {
	ins := s.M.Ins[name]
	if ins == nil || len(ins.As) == 0 {
		return
	}
	res := make([]int, len(ins.As))
	copy(res, s.As[name])
	for k, a := range ins.As {
		switch {
		case ins.Type != typ:
			res[k] = NotAsserted
		case a.X == nil && a.Raw == "":
			res[k] = NotExecuted
		case a.X == nil:
			res[k] = Failing
		default:
			res[k] = Failing
			if v, e := a.X.Eval(sc); e == nil {
				if b, ok := toBool(v); ok && b {
					res[k] = Passed
				}
			}
		}
	}
	s.setAs(name, res)
}

func (s *State) setAs(name string, res []int) {
	m := make(map[string][]int, len(s.As)+1)
	for k, v := range s.As {
		m[k] = v
	}
	m[name] = res
	s.As = m
}

func (s *State) ran(i, t, res int) {
	if s.M.Ins != nil {
		s.setAs("result of "+s.I[i].F.Name+"/"+s.I[i].F.All[t].ID, []int{res})
	}
}

// FlowOutput is where the assertions on a flow's output are.
const FlowOutput = "/_flowOutput"

func New(s *spec.Scenario) *Model { return &Model{S: s} }

func (m *Model) Init() *State {
	st := &State{M: m}
	st.newInst(m.S.Flows[m.S.Main], -1, -1, m.S.Inputs)
	st.settle(0)
	return st
}

func (st *State) clone() *State {
	n := &State{M: st.M, Ended: st.Ended}
	n.I = append(make([]*Inst, 0, len(st.I)+1), st.I...)
	n.own = make([]bool, len(st.I), len(st.I)+1)
	for i := range st.own {
		st.own[i] = false
	}
	n.Q = append(make([]item, 0, len(st.Q)+4), st.Q...)
	n.Pend = st.Pend
	n.Det = st.Det
	n.Log = st.Log[:len(st.Log):len(st.Log)]
	n.As = st.As
	n.Run = append([]running(nil), st.Run...)
	return n
}

// w gives the writable instance i.
func (st *State) w(i int) *Inst {
	if st.own[i] {
		return st.I[i]
	}
	o := st.I[i]
	c := *o
	c.T = append([]tSt(nil), o.T...)
	c.L = append([]LStat(nil), o.L...)
	c.Attrs = make(map[string]any, len(o.Attrs)+4)
	for k, v := range o.Attrs {
		c.Attrs[k] = v
	}
	st.I[i] = &c
	st.own[i] = true
	return &c
}

func (st *State) ev(e Ev) {
	if st.M.KeepLog {
		st.Log = append(st.Log, e)
	}
}

func (st *State) newInst(f *spec.FlowDef, parent, host int, in map[string]any) int {
	if f == nil {
		panic("model: no such flow")
	}
	i := len(st.I)
	n := &Inst{F: f, Parent: parent, Host: host}
	n.T = make([]tSt, len(f.All))
	for k := range n.T {
		n.T[k].retry, n.T[k].sub, n.T[k].dw = -1, -1, -1
	}
	n.L = make([]LStat, len(f.LAll))
	n.Attrs = map[string]any{}
	n.Attrs["_fctx.FlowName"] = f.Name
	n.Attrs["_fctx.FlowId"] = fmt.Sprintf("§id:%d", i)
	n.Attrs["_fctx.TraceId"], n.Attrs["_fctx.SpanId"] = "", ""
	n.Attrs["_fctx.AppName"], n.Attrs["_fctx.AppVersion"] = Any, Any
	n.Attrs["_fctx.ParentFlowName"], n.Attrs["_fctx.ParentFlowId"] = "", ""
	if parent >= 0 {
		n.Attrs["_fctx.ParentFlowName"] = st.I[parent].F.Name
		n.Attrs["_fctx.ParentFlowId"] = fmt.Sprintf("§id:%d", parent)
	}
	for k, v := range st.M.Fix {
		n.Attrs["_fctx."+k] = v
	}
	for _, p := range f.In {
		n.Attrs[p.Name] = p.Default()
	}
	for k, v := range in {
		n.Attrs[k] = v
	}
	st.I = append(st.I, n)
	st.own = append(st.own, true)
	st.ev(Ev{Kind: "flow", Inst: i})
	for t := range f.All {
		if !f.InHandler(t) && len(f.All[t].In_) == 0 {
			st.makeReady(i, t)
		}
	}
	return i
}

func (st *State) makeReady(i, t int) {
	n := st.w(i)
	n.T[t].st = TReady
	n.ready++
	st.Q = append(st.Q, item{i, t, false})
}

type scope struct {
	n *Inst
	t int // -1: no working data
}

func (s scope) Value(name string) (any, bool) {
	if name == "_W.iteration" {
		if s.t < 0 {
			return nil, false
		}
		ts := &s.n.T[s.t]
		if ts.iter != nil {
			return ts.iter, true
		}
		return nil, false
	}
	v, ok := s.n.Attrs[name]
	return v, ok
}

// live: the instance and all its ancestors are active and not past the task
// that hosts it.
func (st *State) live(i int) bool {
	for {
		n := st.I[i]
		if n.Stat != Active {
			return false
		}
		if n.Parent < 0 {
			return true
		}
		p := st.I[n.Parent]
		if p.T[n.Host].sub != i {
			return false
		}
		i = n.Parent
	}
}

func (st *State) prune() {
	q := st.Q[:0:0]
	for _, it := range st.Q {
		n := st.I[it.inst]
		if !st.live(it.inst) || (n.Handling && !n.F.InHandler(it.task)) {
			continue
		}
		q = append(q, it)
	}
	st.Q = q
	for k := range st.Run {
		r := &st.Run[k]
		n := st.I[r.inst]
		if !st.live(r.inst) || (n.Handling && !n.F.InHandler(r.task)) {
			r.lost = true
		}
	}
}

// Enabled is a possible next step.
type Enabled struct {
	Q   int // index into State.Q
	Key int // object iteration: index into left, else -1
}

func (st *State) Enabled() []Enabled {
	if len(st.Pend) > 0 || st.Ended {
		return nil
	}
	var es []Enabled
	for q, it := range st.Q {
		ts := &st.I[it.inst].T[it.task]
		if !it.post && !ts.again && ts.loop != nil && ts.loop.obj && len(ts.loop.left) > 1 {
			for k := range ts.loop.left {
				es = append(es, Enabled{q, k})
			}
			continue
		}
		es = append(es, Enabled{q, -1})
	}
	for k, r := range st.Run {
		if r.stage == 1 || (r.stage == 2 && !r.lost) {
			es = append(es, Enabled{-1 - k, -1})
		}
	}
	return es
}

// mayShow reports whether taking e could show the given observation; silent is
// set when the step may show nothing.
func (st *State) couldShow(e Enabled, o *Obs) (show, silent bool) {
	if e.Q < 0 || st.M.Conc {
		return false, true
	}
	it := st.Q[e.Q]
	t := st.I[it.inst].F.All[it.task]
	if it.post || t.Sub != "" {
		return false, true
	}
	n := st.I[it.inst]
	show = o.Kind == "eval" && o.Task == t.ID && o.Flow == n.F.Name && (n.ID == "" || n.ID == o.Inst)
	return show, true
}

// Step takes e in a copy of the state.  The label is nil when the step is not
// observable.
func (st *State) Step(e Enabled) (*State, *Obs) {
	s := st.clone()
	if e.Q < 0 {
		s.goOn(-1 - e.Q)
		s.settleAll()
		return s, nil
	}
	it := s.Q[e.Q]
	s.Q = append(s.Q[:e.Q:e.Q], s.Q[e.Q+1:]...)
	n := s.w(it.inst)
	ts := &n.T[it.task]
	var lab *Obs
	if it.post {
		n.waiting--
		s.post(it.inst, it.task)
	} else {
		n.ready--
		ts.st = TWait // while it is being worked on
		n.waiting++
		lab = s.eval(it.inst, it.task, e.Key)
	}
	s.settleAll()
	return s, lab
}

// goOn takes a running activity one stage further.
func (s *State) goOn(k int) {
	r := s.Run[k]
	n := s.w(r.inst)
	if r.stage == 1 {
		s.Run[k].stage = 2
		if n.Stat == Active {
			if r.o.SetAttr != "" {
				n.Attrs[r.o.SetAttr] = r.o.SetVal
			}
			s.answer(r.inst, r.o, r.in)
		}
		return
	}
	s.Run = append(s.Run[:k:k], s.Run[k+1:]...)
	r.o.SetAttr = ""
	s.result(r.inst, r.task, r.in, r.o, r.nth)
}

// show lets a running activity be observed.
func (s *State) show(k int) (*State, *Obs) {
	n := s.clone()
	n.Run[k].stage = 1
	return n, n.Run[k].lab
}

// answer is what an activity returns or replies on behalf of its flow.
func (s *State) answer(i int, o spec.Outcome, in map[string]any) {
	n := s.w(i)
	if o.Kind == "ret" {
		n.Ret, n.RetSet, n.RetErr = o.Return(in), true, o.RetErr
	}
	if o.Kind == "reply" && n.Parent < 0 {
		n.Replied = true
		s.Pend = append(s.Pend[:len(s.Pend):len(s.Pend)], Obs{Kind: "reply", Data: o.Return(in), Err: o.RetErr, HasEr: o.RetErr != ""})
	}
}

func (s *State) settleAll() {
	for i := len(s.I) - 1; i >= 0; i-- {
		s.settle(i)
	}
}

// settle completes an instance that has nothing left to do.
func (s *State) settle(i int) {
	n := s.I[i]
	if n.Stat != Active || n.ready > 0 || n.waiting > 0 {
		return
	}
	s.complete(i)
}

func (s *State) requeue(i, t int) {
	n := s.w(i)
	n.waiting--
	n.ready++
	n.T[t].st = TReady
	s.Q = append(s.Q, item{i, t, false})
}

// eval evaluates a task once (one attempt of one iteration).
func (s *State) eval(i, t, key int) *Obs {
	n := s.w(i)
	ts := &n.T[t]
	task := n.F.All[t]
	if !ts.again {
		switch task.Kind {
		case "iterator":
			if ts.loop == nil {
				lp, er := makeLoop(task.Loop, scope{n, t})
				if er != nil {
					s.taskErr(i, t, er)
					return nil
				}
				if lp == nil {
					s.taskDone(i, t)
					return nil
				}
				ts.loop = lp
				if lp.obj && len(lp.left) > 1 {
					// the key is chosen when the iteration starts
					s.requeue(i, t)
					return nil
				}
			} else {
				c := *ts.loop
				ts.loop = &c
			}
			lp := ts.loop
			lp.i++
			if lp.i >= len(lp.vals) {
				s.taskDone(i, t)
				return nil
			}
			vi := lp.i
			if lp.obj {
				if key < 0 {
					key = 0
				}
				vi = lp.left[key]
				left := append([]int(nil), lp.left[:key]...)
				lp.left = append(left, lp.left[key+1:]...)
			}
			ts.iter = map[string]any{"index": lp.i, "key": lp.keys[vi], "value": lp.vals[vi]}
		case "doWhile":
			ts.dw++
			ts.iter = map[string]any{"index": ts.dw}
		}
	}
	ts.again = false
	s.ev(Ev{Kind: "attempt", Inst: i, Task: t})

	ins := s.M.Ins[n.F.Name+"/"+task.ID]
	in := map[string]any{}
	var er *Err
	for _, mp := range task.In {
		v, e := mp.X.Eval(scope{n, t})
		if e != nil {
			er = &Err{Kind: "map", Task: task.ID}
			if e.Panic {
				er.Kind = "mappanic"
			}
			break
		}
		in[mp.Name] = v
	}
	if er != nil {
		s.ev(Ev{Kind: "attempt-fail", Inst: i, Task: t, Err: er})
		s.taskErr(i, t, er)
		return nil
	}
	if ins != nil {
		for k, v := range ins.In {
			in[k] = v
		}
		if ins.Skip || ins.Mock {
			if !ins.Skip {
				s.ran(i, t, Mocked)
			}
			s.ev(Ev{Kind: "mock", Inst: i, Task: t, In: in})
			if ins.MErr {
				s.attemptFailed(i, t, &Err{Kind: "coded", Msg: ins.MockErr, Data: ins.ErrData, Task: Any, Exact: true})
				return nil
			}
			outs := map[string]any{}
			for k, v := range ins.Out {
				outs[k] = v
			}
			s.attemptDone(i, t, outs)
			return nil
		}
	}
	if rs := s.M.rejected(task.SIn, in); len(rs) > 0 {
		er := s.M.schemaErr(task, rs)
		s.ev(Ev{Kind: "attempt-fail", Inst: i, Task: t, Err: er})
		s.taskErr(i, t, er)
		return nil
	}
	if task.Sub != "" {
		s.ev(Ev{Kind: "host", Inst: i, Task: t, In: in})
		if task.BadSub {
			s.attemptFailed(i, t, &Err{Kind: "sub", Task: task.ID})
			return nil
		}
		sf := s.M.S.Flows[task.Sub]
		sin := map[string]any{}
		for _, p := range sf.In {
			sin[p.Name] = in[p.Name]
		}
		if task.Detach {
			s.Det = append(s.Det[:len(s.Det):len(s.Det)], Detached{task.Sub, sin, i})
			s.attemptDone(i, t, map[string]any{})
			return nil
		}
		sub := s.newInst(sf, i, t, sin)
		s.w(i).T[t].sub = sub
		s.ev(Ev{Kind: "sub", Inst: i, Task: t, N: sub})
		s.settle(sub)
		return nil
	}

	lab := &Obs{Kind: "eval", Flow: n.F.Name, Task: task.ID, N: ts.evals, In: in, inst: i, wait: ts.wait, dwait: ts.dwait}
	ts.wait, ts.dwait = 0, 0
	g := 0
	if s.M.S.Script["*"+n.F.Name+"/"+task.ID] != nil {
		for _, k := range s.I {
			if k.F == n.F {
				g += k.T[t].evals
			}
		}
	}
	o := s.M.S.Outcome(n.F.Name, task.ID, ts.evals, g)
	nth := ts.evals
	ts.evals++
	s.ev(Ev{Kind: "eval", Inst: i, Task: t, N: nth, In: in})
	if s.M.Conc {
		s.Run = append(s.Run, running{inst: i, task: t, in: in, o: o, nth: nth, lab: lab})
		return nil
	}
	s.result(i, t, in, o, nth)
	return lab
}

// result takes in what an activity did.
func (s *State) result(i, t int, in map[string]any, o spec.Outcome, nth int) {
	n := s.w(i)
	ins := s.M.Ins[n.F.Name+"/"+n.F.All[t].ID]
	task := n.F.All[t]
	if o.SetAttr != "" {
		n.Attrs[o.SetAttr] = o.SetVal
	}
	switch o.Kind {
	case "ok", "ret", "reply":
		s.ran(i, t, Passed)
		outs := map[string]any{}
		if !o.NoOut {
			if o.NullOut {
				outs["out"] = nil
			} else if o.Out != nil {
				outs["out"] = o.Out
			} else {
				outs["out"] = spec.DefaultOut(task.ID, nth, in)
			}
		}
		if o.O2 != nil {
			outs["o2"] = o.O2
		}
		if rs := s.M.rejected(task.SOut, outs); len(rs) > 0 {
			if !s.M.Conc {
				s.answer(i, o, in)
			}
			er := s.M.schemaErr(task, rs)
			s.ev(Ev{Kind: "attempt-fail", Inst: i, Task: t, Err: er})
			s.taskErr(i, t, er)
			return
		}
		if ins != nil {
			for k, v := range ins.Out {
				outs[k] = v
			}
			if ins.MErr {
				s.attemptFailed(i, t, &Err{Kind: "coded", Msg: ins.MockErr, Data: ins.ErrData, Task: Any, Exact: true})
				return
			}
		}
		if !s.M.Conc {
			s.answer(i, o, in)
		}
		s.attemptDone(i, t, outs)
	default:
		e := &Err{Kind: o.Kind, Msg: o.Msg, Code: o.Code, Data: o.Data, Task: task.ID, Exact: true}
		// the error data of a failed evaluation is set even when the flow goes on
		eo := errObj(e)
		if !n.Handling {
			n.Attrs["_E"] = eo
		}
		n.Attrs["_E."+task.ID] = eo
		if o.Kind != "panic" {
			s.ran(i, t, Failing)
			s.assert(n.F.Name+"/"+task.ID, 2, scope{n, -1})
		}
		s.attemptFailed(i, t, e)
	}
}

func (m *Model) rejected(rules map[string]string, vals map[string]any) []string {
	if m.NoVal {
		return nil
	}
	return spec.Rejected(rules, vals)
}

// schemaErr: which of several broken rules is told first is not defined.
func (m *Model) schemaErr(task *spec.Task, rules []string) *Err {
	er := &Err{Kind: "schema", Task: task.ID}
	if len(rules) == 1 {
		er.Msg, er.Exact = spec.SchemaText(rules[0]), true
	}
	return er
}

func errObj(e *Err) map[string]any {
	switch e.Kind {
	case "coded", "retri":
		return map[string]any{"activity": e.Task, "message": e.Msg, "type": "activity", "code": e.Code, "data": e.Data}
	case "err":
		return map[string]any{"activity": e.Task, "message": e.Msg, "type": "unknown", "code": "", "data": nil}
	case "panic":
		return map[string]any{"activity": e.Task, "message": e.Msg, "type": "unhandled", "code": "", "data": nil}
	case "map":
		return map[string]any{"activity": e.Task, "message": Any, "type": "mapper", "code": "", "data": nil}
	case "schema":
		msg := any(Any)
		if e.Exact {
			msg = e.Msg
		}
		return map[string]any{"activity": e.Task, "message": msg, "type": Any, "code": "", "data": nil}
	case "mappanic", "loop", "other", "link":
		return map[string]any{"activity": e.Task, "message": Any, "type": Any, "code": "", "data": nil}
	}
	return map[string]any{"activity": Any, "message": Any, "type": Any, "code": Any, "data": Any}
}

func makeLoop(l *spec.Loop, sc spec.Scope) (*loopSt, *Err) {
	if l == nil {
		return nil, nil
	}
	v := l.OverV
	if l.Over != nil {
		x, e := l.Over.Eval(sc)
		if e != nil {
			return nil, &Err{Kind: "loop"}
		}
		v = x
	}
	lp := &loopSt{i: -1}
	count := func(c int) {
		for k := 0; k < c; k++ {
			lp.vals, lp.keys = append(lp.vals, k), append(lp.keys, k)
		}
	}
	switch t := v.(type) {
	case nil:
		return nil, nil
	case int:
		count(t)
	case int64:
		count(int(t))
	case float64:
		count(int(math.Trunc(t)))
	case string:
		c, err := strconv.Atoi(t)
		if err != nil {
			return nil, &Err{Kind: "loop"}
		}
		count(c)
	case map[string]any:
		lp.obj = true
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			lp.keys, lp.vals, lp.left = append(lp.keys, k), append(lp.vals, t[k]), append(lp.left, i)
		}
	case []any:
		for i, x := range t {
			lp.keys, lp.vals = append(lp.keys, i), append(lp.vals, x)
		}
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
			return nil, &Err{Kind: "loop"}
		}
		for i := 0; i < rv.Len(); i++ {
			lp.keys, lp.vals = append(lp.keys, i), append(lp.vals, rv.Index(i).Interface())
		}
	}
	return lp, nil
}

// attemptDone: the activity (or subflow call) ended well with outs.
func (s *State) attemptDone(i, t int, outs map[string]any) {
	n := s.w(i)
	task := n.F.All[t]
	ts := &n.T[t]
	ts.sub = -1
	accum := task.Loop != nil && task.Loop.Accum
	if accum {
		prev, _ := n.Attrs["_A."+task.ID].([]any)
		n.Attrs["_A."+task.ID] = append(prev[:len(prev):len(prev)], any(outs))
	}
	if !accum || task.Kind == "doWhile" {
		for k, v := range outs {
			n.Attrs["_A."+task.ID+"."+k] = v
		}
	}
	ts.outs = outs
	s.assert(n.F.Name+"/"+task.ID, 1, scope{n, -1})
	s.ev(Ev{Kind: "attempt-ok", Inst: i, Task: t, Out: outs})
	switch task.Kind {
	case "iterator":
		if ts.loop != nil {
			ts.dwait += float64(task.Loop.Delay)
			s.requeue(i, t)
			return
		}
	case "doWhile":
		if task.Loop != nil && task.Loop.While != nil {
			v, e := task.Loop.While.Eval(scope{n, t})
			if e != nil {
				s.taskErr(i, t, &Err{Kind: "loop", Task: task.ID})
				return
			}
			b, ok := toBool(v)
			if !ok {
				s.taskErr(i, t, &Err{Kind: "loop", Task: task.ID})
				return
			}
			if b {
				ts.dwait += float64(task.Loop.Delay)
				s.requeue(i, t)
				return
			}
		}
	}
	s.taskDone(i, t)
}

// attemptFailed: one attempt failed; retry or fail the task.
func (s *State) attemptFailed(i, t int, er *Err) {
	n := s.w(i)
	ts := &n.T[t]
	ts.sub = -1
	task := n.F.All[t]
	s.ev(Ev{Kind: "attempt-fail", Inst: i, Task: t, Err: er})
	if er.Kind == "retri" && task.Retry != nil {
		if ts.retry < 0 {
			c, d := 0.0, 0.0
			get := func(x *spec.Expr, to *float64) bool {
				if x == nil {
					return true
				}
				v, e := x.Eval(scope{n, t})
				if e != nil {
					return false
				}
				f, ok := spec.Num(v)
				if !ok {
					if s, isS := v.(string); isS {
						k, err := strconv.Atoi(s)
						f, ok = float64(k), err == nil
					}
				}
				*to = f
				return ok
			}
			if !get(task.Retry.Count, &c) || !get(task.Retry.Interval, &d) {
				s.taskErr(i, t, &Err{Kind: "other", Task: task.ID})
				return
			}
			ts.retry, ts.intvl = int(c), math.Max(d, 0)
		}
		if ts.retry > 0 {
			ts.retry--
			ts.again = true
			ts.wait += ts.intvl
			s.requeue(i, t)
			return
		}
	}
	s.taskErr(i, t, er)
}

func (s *State) taskDone(i, t int) {
	n := s.w(i)
	ts := &n.T[t]
	ts.st = TDone
	ts.runs++
	n.waiting--
	task := n.F.All[t]
	s.ev(Ev{Kind: "done", Inst: i, Task: t, Out: ts.outs})
	hasX, followed := false, false
	ow := []int{}
	for _, l := range task.Out_ {
		lk := n.F.LAll[l]
		switch lk.Kind {
		case spec.Dep, spec.Label:
			n.L[l] = LTrue
		case spec.Error:
			n.L[l] = LFalse
		case spec.Otherw:
			n.L[l] = LFalse
			ow = append(ow, l)
		case spec.XExpr:
			hasX = true
			n.L[l] = LFalse
			v, e := lk.X.Eval(scope{n, -1})
			b := false
			if e == nil {
				var ok bool
				if b, ok = toBool(v); !ok {
					e = &spec.EvalError{}
				}
			}
			if e != nil {
				er := &Err{Kind: "link", Task: task.ID}
				if !n.Handling {
					n.Attrs["_E"] = errObj(er)
				}
				s.maybe(i, t)
				s.globalErr(i, er)
				return
			}
			if b {
				n.L[l] = LTrue
				followed = true
			}
		}
	}
	if hasX && !followed {
		for _, l := range ow {
			n.L[l] = LTrue
		}
	}
	if n.RetSet {
		s.maybe(i, t)
		s.complete(i)
		return
	}
	s.enterTargets(i, t)
}

func toBool(v any) (bool, bool) {
	switch t := v.(type) {
	case bool:
		return t, true
	case string:
		switch t {
		case "true":
			return true, true
		case "false", "":
			return false, true
		}
		return false, false
	case nil:
		return false, true
	}
	if f, ok := spec.Num(v); ok {
		return f != 0, true
	}
	return false, false
}

// maybe logs the links of a task that are perhaps found to be followed though nothing comes of it.
func (s *State) maybe(i, t int) {
	for _, l := range s.I[i].F.All[t].Out_ {
		if k := s.I[i].F.LAll[l].Kind; k != spec.Error {
			s.ev(Ev{Kind: "maybe", Inst: i, Task: l})
		}
	}
}

func (s *State) enterTargets(i, t int) {
	n := s.w(i)
	for _, l := range n.F.All[t].Out_ {
		if n.L[l] == LTrue {
			s.ev(Ev{Kind: "link", Inst: i, Task: l})
		}
		s.enter(i, n.F.To(l))
	}
}

func (s *State) enter(i, t int) {
	n := s.w(i)
	if n.T[t].st != TNone {
		return
	}
	any := false
	for _, l := range n.F.All[t].In_ {
		if n.L[l] == LNone {
			return
		}
		any = any || n.L[l] == LTrue
	}
	if any {
		s.makeReady(i, t)
		return
	}
	n.T[t].st = TSkip
	s.ev(Ev{Kind: "skip", Inst: i, Task: t})
	for _, l := range n.F.All[t].Out_ {
		n.L[l] = LSkip
	}
	for _, l := range n.F.All[t].Out_ {
		s.enter(i, n.F.To(l))
	}
}

// taskErr: the task failed for good.
func (s *State) taskErr(i, t int, er *Err) {
	n := s.w(i)
	task := n.F.All[t]
	ts := &n.T[t]
	ts.st, ts.fail = TFail, er
	n.waiting--
	if er.Task == "" {
		er.Task = task.ID
	}
	s.ev(Ev{Kind: "fail", Inst: i, Task: t, Err: er})
	handled := false
	for _, l := range task.Out_ {
		if n.F.LAll[l].Kind == spec.Error {
			handled = true
		}
	}
	eo := errObj(er)
	if er.Task != task.ID {
		eo["activity"] = Any // an error that came up from a subflow
	}
	n.Attrs["_E."+task.ID] = eo
	if handled {
		for _, l := range task.Out_ {
			if n.F.LAll[l].Kind == spec.Error {
				n.L[l] = LTrue
			} else {
				n.L[l] = LFalse
			}
		}
		s.enterTargets(i, t)
		return
	}
	n.Attrs["_E"] = eo
	s.globalErr(i, er)
}

func (s *State) globalErr(i int, er *Err) {
	n := s.w(i)
	if n.Handling || n.F.Handler == nil || len(n.F.Handler.Tasks) == 0 {
		n.Stat = Failed
		n.Err = er
		s.prune()
		s.ev(Ev{Kind: "end", Inst: i, St: int(Failed), Err: er})
		if n.Parent >= 0 {
			h := &s.w(n.Parent).T[n.Host]
			if h.sub == i && s.live(n.Parent) {
				h.serr, h.subOK = er, false
				s.Q = append(s.Q, item{n.Parent, n.Host, true})
			}
			return
		}
		if ins := s.M.Ins[n.F.Name+FlowOutput]; ins != nil {
			s.assert(n.F.Name+FlowOutput, 2, scope{n, -1})
			if ins.Type == 2 && len(ins.As) > 0 { // the assertions stand for the outcome
				s.Pend = append(s.Pend[:len(s.Pend):len(s.Pend)], Obs{Kind: "outcome", any: true})
				s.Ended = true
				return
			}
		}
		s.Pend = append(s.Pend[:len(s.Pend):len(s.Pend)], Obs{Kind: "outcome", HasEr: true, Err: er.Msg, mErr: er})
		s.Ended = true
		return
	}
	n.Handling = true
	s.ev(Ev{Kind: "handler", Inst: i})
	n.ready, n.waiting = 0, 0
	for t := range n.T {
		if !n.F.InHandler(t) {
			n.T[t].sub = -1
		}
	}
	for t := range n.F.All {
		if n.F.InHandler(t) && len(n.F.All[t].In_) == 0 {
			s.makeReady(i, t)
		}
	}
	s.prune()
}

func (s *State) complete(i int) {
	n := s.w(i)
	n.Stat = Completed
	s.prune()
	s.ev(Ev{Kind: "end", Inst: i, St: int(Completed)})
	if n.Parent >= 0 {
		h := &s.w(n.Parent).T[n.Host]
		if h.sub == i && s.live(n.Parent) {
			outs := map[string]any{}
			if n.RetSet {
				for _, p := range n.F.Out {
					if v, ok := n.Ret[p.Name]; ok {
						outs[p.Name] = v
					}
				}
			}
			h.subOK = true
			h.outs = outs
			h.serr = nil
			s.Q = append(s.Q, item{n.Parent, n.Host, true})
		}
		return
	}
	o := Obs{Kind: "outcome"}
	if n.RetSet {
		o.Data, o.Err, o.HasEr = n.Ret, n.RetErr, n.RetErr != ""
		o.any = n.Ret == nil // whether no data or the flow's outputs are reported is left open
	} else {
		if n.Replied {
			o.any = true
		}
		d := map[string]any{}
		for _, p := range n.F.Out {
			if v, ok := n.Attrs[p.Name]; ok {
				d[p.Name] = v
			} else if p.Def != nil {
				d[p.Name] = p.Default()
			}
		}
		o.Data = d
	}
	if s.M.Ins[n.F.Name+FlowOutput] != nil {
		if d, ok := o.Data.(map[string]any); ok {
			for k, v := range d {
				n.Attrs[k] = v
			}
		}
		s.assert(n.F.Name+FlowOutput, 1, scope{n, -1})
	}
	s.Pend = append(s.Pend[:len(s.Pend):len(s.Pend)], o)
	s.Ended = true
}

// post is the host task noticing that its subflow has ended.
func (s *State) post(i, t int) {
	n := s.w(i)
	ts := &n.T[t]
	n.waiting++ // attemptDone / attemptFailed take it off again
	if ts.subOK {
		outs := ts.outs
		if ins := s.M.Ins[n.F.Name+"/"+n.F.All[t].ID]; ins != nil && len(ins.Out) > 0 {
			m := map[string]any{}
			for k, v := range outs {
				m[k] = v
			}
			for k, v := range ins.Out {
				m[k] = v
			}
			outs = m
		}
		if ins := s.M.Ins[n.F.Name+"/"+n.F.All[t].ID]; ins != nil && ins.MErr {
			s.attemptFailed(i, t, &Err{Kind: "coded", Msg: ins.MockErr, Data: ins.ErrData, Task: Any, Exact: true})
			return
		}
		s.attemptDone(i, t, outs)
		return
	}
	s.attemptFailed(i, t, ts.serr)
}

// ---- matching ------------------------------------------------------------

// MatchVal compares expected data (which may hold wildcards) with actual.
func (s *State) MatchVal(exp, act any) bool {
	switch e := exp.(type) {
	case string:
		if e == Any {
			return true
		}
		if strings.HasPrefix(e, "§id:") {
			k, _ := strconv.Atoi(e[len("§id:"):])
			a, ok := act.(string)
			return ok && k < len(s.I) && (s.I[k].ID == "" || s.I[k].ID == a)
		}
	case map[string]any:
		a, ok := act.(map[string]any)
		if !ok || len(a) != len(e) {
			return spec.Canon(exp) == spec.Canon(act)
		}
		for k, v := range e {
			av, ok := a[k]
			if !ok || !s.MatchVal(v, av) {
				return false
			}
		}
		return true
	case []any:
		a, ok := act.([]any)
		if !ok || len(a) != len(e) {
			return spec.Canon(exp) == spec.Canon(act)
		}
		for k, v := range e {
			if !s.MatchVal(v, a[k]) {
				return false
			}
		}
		return true
	}
	return spec.Canon(exp) == spec.Canon(act)
}

func dropNil(m map[string]any) map[string]any {
	for _, v := range m {
		if v == nil {
			c := map[string]any{}
			for k, v := range m {
				if v != nil {
					c[k] = v
				}
			}
			return c
		}
	}
	return m
}

// bind ties the model instance to an implementation instance id.
func (s *State) bind(i int, id string) bool {
	if s.I[i].ID != "" {
		return s.I[i].ID == id
	}
	for k, n := range s.I {
		if n.ID == id {
			return false
		}
		if k == 0 && i > 0 && n.ID != "" && !strings.HasPrefix(id, n.ID) {
			return false
		}
	}
	s.w(i).ID = id
	return true
}

// matchEval checks a label against an observation in s (the state after it).
func (s *State) matchEval(lab, o *Obs) bool {
	if o.Kind != "eval" || lab.Task != o.Task || lab.Flow != o.Flow || lab.N != o.N {
		return false
	}
	if !s.bind(lab.inst, o.Inst) {
		return false
	}
	exp, got := dropNil(lab.In), dropNil(o.In)
	for k, v := range exp {
		if _, ok := got[k]; v == Any && !ok { // any value, also none
			c := map[string]any{}
			for k2, v2 := range exp {
				if k2 != k {
					c[k2] = v2
				}
			}
			exp = c
		}
	}
	if !s.MatchVal(exp, got) {
		return false
	}
	want := lab.wait + lab.dwait
	if o.Slept+o.Real < want-0.5 || (o.Adj && !s.M.Conc && o.Slept > want+0.5) {
		return false
	}
	return true
}

func (s *State) matchPend(p, o *Obs) bool {
	if p.Kind != o.Kind || p.HasEr != o.HasEr {
		return false
	}
	if p.HasEr {
		if p.mErr != nil {
			if p.mErr.Exact && !strings.Contains(o.Err, p.mErr.Msg) {
				return false
			}
			return true
		}
		if p.Err != "" && o.Err != p.Err {
			return false
		}
	}
	if p.any {
		return true
	}
	exp := p.Data
	if m, ok := exp.(map[string]any); ok && len(m) == 0 {
		if a, ok := o.Data.(map[string]any); o.Data == nil || (ok && len(a) == 0) {
			return true
		}
	}
	if m, ok := exp.(map[string]any); ok && m == nil {
		exp = nil
	}
	return s.MatchVal(exp, o.Data)
}

// Key identifies a state (bindings included).
func (s *State) Key() string {
	var b strings.Builder
	// number the instances by where they run, not by when they were started
	num := make([]int, len(s.I))
	for i := range num {
		num[i] = -1
	}
	var order []int
	var walk func(i int)
	walk = func(i int) {
		num[i] = len(order)
		order = append(order, i)
		for t := range s.I[i].T {
			if c := s.I[i].T[t].sub; c >= 0 && c < len(num) && num[c] < 0 {
				walk(c)
			}
		}
	}
	walk(0)
	if s.M.Whole {
		for i := range s.I {
			if num[i] < 0 {
				walk(i)
			}
		}
	}
	canon := func(v any) string {
		x := spec.Canon(v)
		for at := 0; ; {
			k := strings.Index(x[at:], "§id:")
			if k < 0 {
				return x
			}
			k += at + len("§id:")
			e := k
			for e < len(x) && x[e] >= '0' && x[e] <= '9' {
				e++
			}
			n, _ := strconv.Atoi(x[k:e])
			r := "?"
			if n < len(num) {
				if num[n] >= 0 {
					r = strconv.Itoa(num[n])
				} else if r = "ended " + s.I[n].ID; s.I[n].ID == "" {
					r = fmt.Sprintf("ended #%d", n)
				}
			}
			x = x[:k] + r + x[e:]
			at = k
		}
	}
	var gone []string
	for i, n := range s.I {
		if num[i] < 0 && n.ID != "" {
			gone = append(gone, n.ID)
		}
	}
	sort.Strings(gone)
	fmt.Fprintf(&b, "%v", gone)
	for _, i := range order {
		n := s.I[i]
		par := -1
		if n.Parent >= 0 {
			par = num[n.Parent]
		}
		fmt.Fprintf(&b, "%d%s/%s/%d.%d/%d%v|", num[i], n.ID, n.F.Name, par, n.Host, n.Stat, n.Handling)
		for t := range n.T {
			ts := &n.T[t]
			if ts.st == TNone && ts.evals == 0 {
				b.WriteByte('.')
				continue
			}
			c := -1
			if ts.sub >= 0 {
				c = num[ts.sub]
			}
			fmt.Fprintf(&b, "%d,%d,%d,%d,%v,%d,%g;", ts.st, ts.evals, ts.dw, ts.retry, ts.again, c, ts.wait)
			if ts.loop != nil {
				fmt.Fprintf(&b, "L%d%v", ts.loop.i, ts.loop.left)
			}
			if ts.iter != nil {
				b.WriteString("I" + canon(ts.iter))
			}
			if ts.st == TWait && ts.outs != nil {
				b.WriteString("O" + canon(ts.outs))
			}
			if ts.serr != nil {
				b.WriteString("E" + ts.serr.Kind + ts.serr.Msg)
			}
		}
		for _, l := range n.L {
			b.WriteByte('0' + byte(l))
		}
		ks := make([]string, 0, len(n.Attrs))
		for k := range n.Attrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k)
			b.WriteByte('=')
			b.WriteString(canon(n.Attrs[k]))
		}
		if n.RetSet {
			b.WriteString(canon(n.Ret) + n.RetErr)
		}
	}
	q := append([]item(nil), s.Q...)
	for k := range q {
		q[k].inst = num[q[k].inst]
	}
	sort.Slice(q, func(a, c int) bool {
		if q[a].inst != q[c].inst {
			return q[a].inst < q[c].inst
		}
		return q[a].task < q[c].task
	})
	if len(s.Run) > 0 {
		var rs []string
		for _, r := range s.Run {
			rs = append(rs, fmt.Sprintf("%d.%d#%d.%d%v", num[r.inst], r.task, r.nth, r.stage, r.lost))
			if r.stage == 0 {
				rs[len(rs)-1] += canon(r.in)
			}
		}
		sort.Strings(rs)
		fmt.Fprintf(&b, "R%v", rs)
	}
	if s.As != nil {
		b.WriteString(spec.Canon(s.As))
	}
	fmt.Fprintf(&b, "Q%v P%d E%v D%d", q, len(s.Pend), s.Ended, len(s.Det))
	return b.String()
}

// TStat is the status of a task of the instance.
func (n *Inst) TStat(t int) TStat { return n.T[t].st }

// Outs are the outputs of the last successful invocation of a task.
func (n *Inst) Outs(t int) map[string]any { return n.T[t].outs }

// Failure is the error a task failed with.
func (n *Inst) Failure(t int) *Err { return n.T[t].fail }

// Parallel says whether two activities are ready when the run begins.
func (m *Model) Parallel() bool {
	n := 0
	s := m.Init()
	for _, it := range s.Q {
		if t := s.I[it.inst].F.All[it.task]; t.Sub == "" && t.Kind == "" {
			n++
		}
	}
	return n > 1
}
