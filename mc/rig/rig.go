// Package rig runs scenarios on the real engine: it registers a scripted probe
// activity, loads flow definitions through the engine's own loader, starts
// runs through the flow action and records what can be observed of them.
package rig

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression/function"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/data/schema"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/core/trigger"
	flow "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/ondemand"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
	"verif.local/vmc/ref"
	"verif.local/vmc/rig/confact"
	"verif.local/vmc/spec"
	"verif.local/vmc/vsched"
)

const (
	ProbeRef = "verif.local/vmc/rig"
	SubRef   = "github.com/project-flogo/flow/activity/subflow"
	FlowRef  = "github.com/project-flogo/flow"
)

// Config is fixed for the life of the process.
type Config struct {
	Mode   string // state recording mode, "" without a recorder
	Trace  bool
	Events bool
	Debug  bool
	RecErr bool // the recorder reports errors
	NoVal  bool // schemas are not enforced
	// RT are the runtime settings to give in place of those saying Mode
	RT  map[string]any
	Bad bool // the flow engine must not accept the settings (see InitErr)
}

// InitErr is the answer of the flow engine to settings that it must not accept.
var InitErr error

// ---- probe activity --------------------------------------------------------

type Probe struct{}

var probeMd = activity.ToMetadata(&Input{}, &Output{})

type Input struct {
	In any    `md:"in"`
	A  any    `md:"a"`
	B  any    `md:"b"`
	S  string `md:"s"`
	I  int    `md:"i"`
}

func (p *Input) ToMap() map[string]interface{} {
	return map[string]interface{}{"in": p.In, "a": p.A, "b": p.B, "s": p.S, "i": p.I}
}
func (p *Input) FromMap(m map[string]interface{}) error { return nil }

type Output struct {
	Out any `md:"out"`
	O2  any `md:"o2"`
}

func (p *Output) ToMap() map[string]interface{} {
	return map[string]interface{}{"out": p.Out, "o2": p.O2}
}
func (p *Output) FromMap(m map[string]interface{}) error { return nil }

// object is an activity's inputs or outputs as one value.
type object map[string]interface{}

func (p *object) ToMap() map[string]interface{} { return *p }
func (p *object) FromMap(m map[string]interface{}) error {
	*p = make(object, len(m))
	for k, v := range m {
		(*p)[k] = v
	}
	return nil
}

// Schemas of the type "vschema".
type schemaFactory struct{}

func (schemaFactory) New(d *schema.Def) (schema.Schema, error) {
	if d.Value == "broken" {
		return nil, errors.New("vschema: broken")
	}
	return &vschema{d.Value}, nil
}

type vschema struct{ rule string }

func (s *vschema) Type() string  { return "vschema" }
func (s *vschema) Value() string { return s.rule }
func (s *vschema) Validate(v interface{}) error {
	if spec.SchemaOK(s.rule, v) {
		return nil
	}
	return errors.New(spec.SchemaText(s.rule))
}

func (*Probe) Metadata() *activity.Metadata { return probeMd }

var inputNames = []string{"in", "a", "b", "s", "i"}

func (*Probe) Eval(ctx activity.Context) (done bool, err error) {
	r := runFor(ctx)
	if r == nil {
		return true, nil
	}
	return r.eval(ctx)
}

type masterScoped interface{ GetMasterScope() data.Scope }

var (
	curMu sync.Mutex
	cur   *Run
	runs  = map[string]*Run{}
)

func runFor(ctx activity.Context) *Run {
	curMu.Lock()
	n, r := len(runs), cur
	curMu.Unlock()
	if n > 0 {
		if h, ok := ctx.ActivityHost().(masterScoped); ok {
			if v, ok := h.GetMasterScope().GetValue("_rid"); ok {
				if id, ok := v.(string); ok {
					curMu.Lock()
					defer curMu.Unlock()
					if runs[id] != nil {
						return runs[id]
					}
				}
			}
		}
	}
	return r
}

// ---- failing functions -----------------------------------------------------

type fnFail struct{}

func (*fnFail) Name() string                                   { return "vfail" }
func (*fnFail) Sig() (paramTypes []data.Type, isVariadic bool) { return nil, false }
func (*fnFail) Eval(params ...interface{}) (interface{}, error) {
	return nil, errors.New("vfail: scripted failure")
}

type fnPanic struct{}

func (*fnPanic) Name() string                                   { return "vpanic" }
func (*fnPanic) Sig() (paramTypes []data.Type, isVariadic bool) { return nil, false }
func (*fnPanic) Eval(params ...interface{}) (interface{}, error) {
	panic("vpanic: scripted panic")
}

// ---- set-up ----------------------------------------------------------------

type initCtx struct {
	rm *resource.Manager
	sm *service.Manager
	rs map[string]interface{}
}

func (c *initCtx) ResourceManager() *resource.Manager      { return c.rm }
func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return c.rs }

var (
	RM    *resource.Manager
	Cfg   Config
	Rec   *Recorder
	Trc   *Tracer
	Evs   *Events
	Fact  = &flow.ActionFactory{}
	ready bool
)

// Setup initialises the engine; once per process.
func Setup(c Config) error {
	if ready {
		return nil
	}
	ready = true
	Cfg = c
	if c.Debug {
		log.SetLogLevel(log.RootLogger(), log.DebugLevel)
	} else {
		log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
	}
	vsched.VirtualTime = true
	if err := activity.Register(&Probe{}); err != nil {
		return err
	}
	schema.Enable()
	if c.NoVal {
		schema.DisableValidation()
	}
	_ = schema.RegisterFactory("vschema", schemaFactory{})
	if err := confact.Setup(); err != nil {
		return err
	}
	_ = function.Register(&fnFail{})
	_ = function.Register(&fnPanic{})
	function.ResolveAliases()
	RM = resource.NewManager(map[string]*resource.Resource{})
	sm := service.NewServiceManager()
	rs := map[string]interface{}{}
	if c.Mode != "" {
		Rec = &Recorder{Fails: c.RecErr}
		_ = sm.RegisterService(Rec)
		rs["stateRecordingMode"] = c.Mode
		if c.RT != nil {
			rs = c.RT
		}
	}
	if c.Trace {
		Trc = &Tracer{}
		if err := trace.RegisterTracer(Trc); err != nil {
			return err
		}
	}
	if c.Events {
		Evs = newEvents()
	}
	f := action.GetFactory(FlowRef)
	if f == nil {
		return errors.New("flow action not registered")
	}
	initC = &initCtx{RM, sm, rs}
	if c.Bad {
		InitErr = f.Initialize(initC)
		return nil
	}
	return f.Initialize(initC)
}

var initC *initCtx

// SetupOnDemand initialises the on-demand action.
func SetupOnDemand() error {
	return (&ondemand.ActionFactory{}).Initialize(initC)
}

// OnDemand is an on-demand action.
func OnDemand() action.AsyncAction {
	a, err := (&ondemand.ActionFactory{}).New(&action.Config{})
	if err != nil {
		panic(err)
	}
	return a.(action.AsyncAction)
}

// ---- definitions -----------------------------------------------------------

func paramJSON(ps []spec.Param) []map[string]any {
	out := []map[string]any{}
	for _, p := range ps {
		m := map[string]any{"name": p.Name, "type": p.Type}
		if p.Def != nil {
			m["value"] = p.Def
		}
		out = append(out, m)
	}
	return out
}

// URI says where a flow is, if not among the resources.
var URI func(flow string) string

// TaskJSON renders one task.
func TaskJSON(f *spec.FlowDef, t *spec.Task) map[string]any {
	act := map[string]any{"ref": ProbeRef}
	in := map[string]any{}
	for _, m := range t.In {
		in[m.Name] = m.X.Mapping()
	}
	if len(in) > 0 {
		act["input"] = in
	}
	if t.Sub != "" {
		act["ref"] = SubRef
		uri := "res://flow:" + t.Sub
		if URI != nil {
			uri = URI(t.Sub)
		}
		if t.BadSub && URI == nil {
			uri = "res://flow:nosuchflow"
		}
		s := map[string]any{"flowURI": uri}
		if t.Detach {
			s["detached"] = true
		}
		act["settings"] = s
	}
	if len(t.SIn)+len(t.SOut) > 0 {
		side := func(rules map[string]string) map[string]any {
			m := map[string]any{}
			for n, r := range rules {
				m[n] = map[string]any{"type": "vschema", "value": r}
			}
			return m
		}
		sc := map[string]any{}
		if len(t.SIn) > 0 {
			sc["input"] = side(t.SIn)
		}
		if len(t.SOut) > 0 {
			sc["output"] = side(t.SOut)
		}
		act["schemas"] = sc
	}
	tm := map[string]any{"id": t.ID, "name": t.ID, "activity": act}
	settings := map[string]any{}
	if t.Kind != "" {
		tm["type"] = t.Kind
	}
	if l := t.Loop; l != nil {
		lc := map[string]any{}
		if l.Over != nil {
			lc["iterateOn"] = "=" + l.Over.Text()
		} else if l.OverV != nil {
			lc["iterateOn"] = l.OverV
		}
		if l.While != nil {
			lc["condition"] = l.While.Text()
		}
		if l.Accum {
			lc["accumulate"] = true
		}
		if l.Delay != 0 {
			lc["delay"] = l.Delay
		}
		switch {
		case l.Form == 1: // deprecated: directly in the settings
			if v, ok := lc["iterateOn"]; ok {
				lc["iterate"] = v
				delete(lc, "iterateOn")
			}
			for k, v := range lc {
				settings[k] = v
			}
		case l.Form == 3: // directly in the settings
			for k, v := range lc {
				settings[k] = v
			}
		case l.Form == 2 && t.Kind == "doWhile":
			settings["doWhile"] = lc
		default:
			settings["loopConfig"] = lc
		}
	}
	if r := t.Retry; r != nil {
		rc := map[string]any{}
		if r.Count != nil {
			rc["count"] = r.Count.Mapping()
		}
		if r.Interval != nil {
			rc["interval"] = r.Interval.Mapping()
		}
		settings["retryOnError"] = rc
	}
	if len(settings) > 0 {
		tm["settings"] = settings
	}
	return tm
}

func linkJSON(l *spec.Link) map[string]any {
	m := map[string]any{"from": l.From, "to": l.To, "type": l.Kind}
	if l.Kind == spec.XExpr {
		m["value"] = l.X.Text()
	}
	m["label"] = l.From + ">" + l.To + ":" + l.Kind
	return m
}

// FlowMap is the JSON-shaped definition of a flow.
func FlowMap(f *spec.FlowDef) map[string]any {
	body := func(b *spec.Body) ([]any, []any) {
		var ts, ls []any
		for _, t := range b.Tasks {
			ts = append(ts, TaskJSON(f, t))
		}
		for _, l := range b.Links {
			ls = append(ls, linkJSON(l))
		}
		return ts, ls
	}
	ts, ls := body(&f.Body)
	m := map[string]any{
		"name":     f.Name,
		"metadata": map[string]any{"input": paramJSON(f.In), "output": paramJSON(f.Out)},
		"tasks":    ts,
	}
	if len(ls) > 0 {
		m["links"] = ls
	}
	if f.Handler != nil {
		ts, ls := body(f.Handler)
		h := map[string]any{"tasks": ts}
		if len(ls) > 0 {
			h["links"] = ls
		}
		m["errorHandler"] = h
	}
	return m
}

func FlowJSON(f *spec.FlowDef) []byte {
	b, err := json.Marshal(FlowMap(f))
	if err != nil {
		panic(err)
	}
	return b
}

// Load puts a definition under res://flow:<id>.
func Load(id string, def []byte) error {
	ld := resource.GetLoader("flow")
	res, err := ld.LoadResource(&resource.Config{ID: "flow:" + id, Data: def})
	if err != nil {
		return err
	}
	RM.SetResource("flow:"+id, res)
	return nil
}

// Built is a set of loaded flows ready to run.
type Built struct {
	Act action.AsyncAction
}

// Build loads all flows of a scenario.
func Build(s *spec.Scenario) (*Built, error) {
	names := s.FlowNames()
	for _, n := range names { // nothing of an earlier scenario may be found
		RM.SetResource("flow:"+n, nil)
	}
	for _, n := range names {
		if err := Load(n, FlowJSON(s.Flows[n])); err != nil {
			return nil, fmt.Errorf("loading flow %s: %w", n, err)
		}
	}
	return NewAction("res://flow:" + s.Main)
}

func NewAction(uri string) (*Built, error) {
	a, err := action.GetFactory(FlowRef).New(&action.Config{Settings: map[string]interface{}{"flowURI": uri}})
	if err != nil {
		return nil, err
	}
	aa, ok := a.(action.AsyncAction)
	if !ok {
		return nil, errors.New("flow action is not asynchronous")
	}
	return &Built{Act: aa}, nil
}

// ---- runs ------------------------------------------------------------------

type HCall struct {
	Data map[string]any
	Err  error
	At   int  // number of observations before it
	Done bool // after Done
}

// EvalLimit ends a run that does not end: no scenario evaluates nearly as much.
const EvalLimit = 30000

// Run is one run and everything observed of it.
type Run struct {
	mu        sync.Mutex
	S         *spec.Scenario
	Trace     []ref.Obs
	Calls     []HCall
	Dones     int
	RunErr    error
	TimeOut   bool
	Runaway   bool // it evaluated EvalLimit activities and was stopped
	runCh     chan struct{}
	doneCh    chan struct{}
	counts    map[string]int
	virt      float64
	lastEnd   map[string]float64
	lastReal  map[string]time.Time
	lastKey   string
	replying  bool
	Opt       *instance.RunOptions
	InEval    int // concurrently evaluating probes
	MaxEval   int
	Late      []string // things that happened after the end
	Events    []Event
	Spans     []*Span
	Dets      []*Run
	OnEval    func(r *Run, o *ref.Obs) // called before the scripted outcome is applied
	AfterEval func(r *Run, o *ref.Obs)
	NoScript  bool
	Retained  []Retained
	EvID      map[int]string // event ids in scope, when WatchEvents is set
	EvalSpan  map[int]SpanAt // by index of the evaluation in the trace
	Open      []int          // spans that are not finished when the outcome is reported
}

// SpanAt is the span an activity sees.
type SpanAt struct {
	ID         int
	Begin, End bool // it is not finished when the activity begins, ends
}

// Retained is a value handed to an activity, with its text at that moment.
type Retained struct {
	V    any
	Text string
}

func deep(v any) any {
	switch t := v.(type) {
	case map[string]interface{}:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[k] = deep(x)
		}
		return m
	case []interface{}:
		l := make([]any, len(t))
		for i, x := range t {
			l[i] = deep(x)
		}
		return l
	}
	return v
}

func (r *Run) eval(ctx activity.Context) (bool, error) {
	host := ctx.ActivityHost()
	o := ref.Obs{Kind: "eval", Inst: host.ID(), Flow: host.Name(), Task: ctx.Name(), In: map[string]any{}}
	for _, n := range inputNames {
		if v := ctx.GetInput(n); v != nil {
			o.In[n] = deep(v)
		}
	}
	var all object
	if err := ctx.GetInputObject(&all); err != nil {
		o.In["!object"] = err.Error()
	}
	for _, n := range inputNames {
		if a, b := all[n], ctx.GetInput(n); !reflect.DeepEqual(a, b) {
			o.In["!object."+n] = deep(a)
		}
	}
	r.mu.Lock()
	key := o.Inst + "/" + o.Task
	o.N = r.counts[key]
	r.counts[key]++
	g := r.counts["*"+o.Flow+"/"+o.Task]
	r.counts["*"+o.Flow+"/"+o.Task]++
	for _, d := range vsched.TakeSleeps() {
		r.virt += float64(d) / float64(time.Millisecond)
	}
	if le, ok := r.lastEnd[key]; ok {
		o.Slept = r.virt - le
		o.Real = float64(time.Since(r.lastReal[key])) / float64(time.Millisecond)
		o.Adj = r.lastKey == key
	}
	r.lastKey = key
	at := len(r.Trace)
	if at >= EvalLimit && vsched.S == nil {
		if !r.Runaway {
			r.Runaway = true
			close(r.runCh)
		}
		r.mu.Unlock()
		select {}
	}
	r.Trace = append(r.Trace, o)
	r.InEval++
	if r.InEval > r.MaxEval {
		r.MaxEval = r.InEval
	}
	f := r.OnEval
	r.mu.Unlock()
	if h, ok := host.(masterScoped); ok && r.EvID != nil {
		id := ""
		if v, ok := h.GetMasterScope().GetValue(instance.EventIdAttr); ok {
			id = fmt.Sprint(v)
		}
		r.mu.Lock()
		r.EvID[at] = id
		r.mu.Unlock()
	}
	postMark(at, false)
	vsched.Yield()
	if Trc != nil {
		if sp, ok := ctx.GetTracingContext().(*Span); ok && sp != nil {
			sa := SpanAt{ID: sp.ID, Begin: Trc.open(sp)}
			defer func() {
				sa.End = Trc.open(sp)
				r.mu.Lock()
				r.EvalSpan[at] = sa
				r.mu.Unlock()
			}()
		}
	}
	if f != nil {
		f(r, &o)
	}
	defer func() {
		postMark(at, true)
		r.mu.Lock()
		for _, d := range vsched.TakeSleeps() {
			r.virt += float64(d) / float64(time.Millisecond)
		}
		r.lastEnd[key] = r.virt
		r.lastReal[key] = time.Now()
		r.InEval--
		g := r.AfterEval
		r.mu.Unlock()
		if g != nil {
			g(r, &o)
		}
	}()
	if MutateAttr != "" {
		if v, ok := host.Scope().GetValue(MutateAttr); ok {
			if m, ok := v.(map[string]interface{}); ok {
				mutate(m, at)
			}
		}
	}
	vsched.Yield()
	oc := r.S.Outcome(o.Flow, o.Task, o.N, g)
	if oc.SetAttr != "" {
		_ = host.Scope().SetValue(oc.SetAttr, deep(oc.SetVal))
	}
	set := func(n string, v any) { _ = ctx.SetOutput(n, v) }
	asObject := o.Task != "" && o.Task[0]%2 == 0
	obj := object{}
	if asObject { // half of the activities give their outputs as one value
		set = func(n string, v any) { obj[n] = v }
	}
	setOut := func() {
		if oc.O2 != nil {
			set("o2", deep(oc.O2))
		}
		if oc.Other != nil {
			set("zz", deep(oc.Other))
		}
		if !oc.NoOut {
			if oc.NullOut {
				set("out", nil)
			} else if oc.Out != nil {
				set("out", deep(oc.Out))
			} else {
				set("out", spec.DefaultOut(o.Task, o.N, o.In))
			}
		}
		if asObject {
			_ = ctx.SetOutputObject(&obj)
		}
	}
	switch oc.Kind {
	case "err", "coded", "retri", "panic":
		// what a failing attempt gives is not an output of the task
		_ = ctx.SetOutput("out", "of a failed attempt")
		_ = ctx.SetOutput("o2", "of a failed attempt")
	}
	mkErr := func(s string) error {
		if s == "" {
			return nil
		}
		return errors.New(s)
	}
	switch oc.Kind {
	case "ok":
		setOut()
		return true, nil
	case "ret":
		setOut()
		var m map[string]interface{}
		if d := oc.Return(o.In); d != nil {
			m = deep(d).(map[string]any)
		}
		host.Return(m, mkErr(oc.RetErr))
		return true, nil
	case "reply":
		setOut()
		r.mu.Lock()
		r.replying = true
		r.mu.Unlock()
		var m map[string]interface{}
		if d := oc.Return(o.In); d != nil {
			m = deep(d).(map[string]any)
		}
		host.Reply(m, mkErr(oc.RetErr))
		r.mu.Lock()
		r.replying = false
		r.mu.Unlock()
		return true, nil
	case "err":
		return false, errors.New(oc.Msg)
	case "coded":
		return false, activity.NewError(oc.Msg, oc.Code, oc.Data)
	case "retri":
		return false, activity.NewRetriableError(oc.Msg, oc.Code, oc.Data)
	case "panic":
		panic(oc.Msg)
	}
	panic("rig: outcome " + oc.Kind)
}

// MutateAttr is the flow attribute that every activity modifies in place.
var MutateAttr string

func mutate(v any, n int) {
	switch t := v.(type) {
	case map[string]interface{}:
		for _, x := range t {
			mutate(x, n)
		}
		t["mutated"] = n
	case []interface{}:
		for i, x := range t {
			switch x.(type) {
			case map[string]interface{}, []interface{}:
				mutate(x, n)
			default:
				t[i] = n
			}
		}
	}
}

// HandleResult and Done make Run an action.ResultHandler.
func (r *Run) HandleResult(d map[string]interface{}, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := "outcome"
	if r.replying {
		k = "reply"
	}
	o := ref.Obs{Kind: k}
	if d != nil {
		o.Data = deep(map[string]any(d))
	}
	if err != nil {
		o.HasEr, o.Err = true, err.Error()
	}
	r.Calls = append(r.Calls, HCall{Data: d, Err: err, At: len(r.Trace), Done: r.Dones > 0})
	r.Trace = append(r.Trace, o)
	if k == "outcome" && Trc != nil {
		r.Open = Trc.unfinished()
	}
}

func (r *Run) Done() {
	r.mu.Lock()
	r.Dones++
	n := r.Dones
	r.mu.Unlock()
	if n == 1 {
		close(r.doneCh)
	}
}

// Options of one run.
type Options struct {
	Run     *instance.RunOptions
	Timeout time.Duration
	EventID string
	Inputs  map[string]any // instead of the scenario's
	OnEval  func(r *Run, o *ref.Obs)
	After   func(r *Run, o *ref.Obs)
	Rid     string
	Ctx     context.Context
}

// WatchEvents lets runs note the event id that each activity sees.
var WatchEvents bool

// Collect returns a run that gets the evaluations of instances that belong to
// no other run.
func Collect(s *spec.Scenario) *Run {
	r := newRun(s)
	curMu.Lock()
	cur = r
	curMu.Unlock()
	return r
}

func newRun(s *spec.Scenario) *Run {
	r := newRun0(s)
	if WatchEvents {
		r.EvID = map[int]string{}
	}
	return r
}

func newRun0(s *spec.Scenario) *Run {
	return &Run{S: s, doneCh: make(chan struct{}), runCh: make(chan struct{}), counts: map[string]int{}, lastEnd: map[string]float64{}, lastReal: map[string]time.Time{}, EvalSpan: map[int]SpanAt{}}
}

// Start begins a run without waiting for it.
func Start(b *Built, s *spec.Scenario, op Options) *Run {
	r := newRun(s)
	r.OnEval, r.AfterEval = op.OnEval, op.After
	for k, n := range seed {
		r.counts[k] = n
	}
	in := map[string]interface{}{}
	src := s.Inputs
	if op.Inputs != nil {
		src = op.Inputs
	}
	for k, v := range src {
		in[k] = deep(v)
	}
	if op.Run != nil {
		in["_run_options"] = op.Run
	}
	ctx := op.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	if op.EventID != "" {
		ctx = trigger.NewContextWithEventId(ctx, op.EventID)
	}
	curMu.Lock()
	if op.Rid != "" {
		in["_rid"] = op.Rid
		runs[op.Rid] = r
	} else {
		cur = r
	}
	curMu.Unlock()
	if op.Rid == "" {
		vsched.TakeSleeps()
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.RunErr = fmt.Errorf("PANIC in Run: %v", p)
			}
		}()
		r.RunErr = b.Act.Run(ctx, in, r)
	}()
	return r
}

func Forget(rid string) {
	curMu.Lock()
	delete(runs, rid)
	curMu.Unlock()
}

// Exec runs to the end.
func Exec(b *Built, s *spec.Scenario, op Options) *Run {
	if Rec != nil {
		Rec.reset()
	}
	if Trc != nil {
		Trc.reset()
	}
	r := Start(b, s, op)
	if r.RunErr != nil {
		return r
	}
	to := op.Timeout
	if to == 0 {
		to = 20 * time.Second
	}
	select {
	case <-r.doneCh:
	case <-r.runCh:
	case <-time.After(to):
		r.TimeOut = true
	}
	if Evs != nil {
		r.Events = Evs.drain()
	}
	if Trc != nil {
		r.Spans = Trc.take()
	}
	return r
}

// Logger is what instances log to.
func Logger() log.Logger { return log.RootLogger() }

// ExecRestart continues a run that was interrupted after n observations.
func ExecRestart(b *Built, s *spec.Scenario, op Options, old *Run, n int) *Run {
	op.OnEval = nil
	seed = map[string]int{}
	for _, o := range old.Obs()[:n] {
		if o.Kind == "eval" {
			seed["*"+o.Flow+"/"+o.Task]++
		}
	}
	defer func() { seed = nil }()
	return Exec(b, s, op)
}

// seed are the evaluations before a restart.
var seed map[string]int

// Snapshot of the trace so far.
func (r *Run) Obs() []ref.Obs {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]ref.Obs(nil), r.Trace...)
}

func (r *Run) Wait(d time.Duration) bool {
	select {
	case <-r.doneCh:
		return true
	case <-time.After(d):
		return false
	}
}

func (r *Run) Finished() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.Dones > 0
}

func (r *Run) Evals() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Trace)
}

// SetEnv sets the environment of a scenario and returns a function restoring it.
func SetEnv(m map[string]string) func() {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	old := map[string]*string{}
	for _, k := range ks {
		if v, ok := os.LookupEnv(k); ok {
			x := v
			old[k] = &x
		} else {
			old[k] = nil
		}
		os.Setenv(k, m[k])
	}
	return func() {
		for k, v := range old {
			if v == nil {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, *v)
			}
		}
	}
}

var _ = support.MockActivity

// Stepped is a run driven step by step, without any limit.
type Stepped struct {
	*Run
	Inst  *instance.IndependentInstance
	After []int // number of observations after each step
	Ended bool
	Busy  bool // the last step had work
}

var stepSeq int

// NewStepped starts the scenario's main flow to be driven by hand.
func NewStepped(s *spec.Scenario, op Options) (*Stepped, error) {
	def, _, err := support.GetDefinition("res://flow:" + s.Main)
	if err != nil {
		return nil, err
	}
	stepSeq++
	var rec state.Recorder
	if Rec != nil {
		rec = Rec
	}
	mode, _ := state.ToRecordingMode(Cfg.Mode)
	inst, err := instance.NewIndependentInstance(fmt.Sprintf("stepped-instance-%d", stepSeq), "res://flow:"+s.Main, def, instance.NewStateInstanceRecorder(rec, mode, false), log.RootLogger())
	if err != nil {
		return nil, err
	}
	st := &Stepped{Run: newRun(s), Inst: inst, Busy: true}
	st.OnEval, st.AfterEval = op.OnEval, op.After
	in := map[string]interface{}{}
	src := s.Inputs
	if op.Inputs != nil {
		src = op.Inputs
	}
	for k, v := range src {
		in[k] = deep(v)
	}
	curMu.Lock()
	cur = st.Run
	curMu.Unlock()
	vsched.TakeSleeps()
	inst.Start(in)
	inst.SetResultHandler(st.Run)
	return st, nil
}

// Step does one step and says whether there may be another one.
func (s *Stepped) Step() bool {
	if s.Inst.Status() >= model.FlowStatusCompleted || !s.Busy {
		return false
	}
	s.Busy = s.Inst.DoStep()
	s.After = append(s.After, len(s.Trace))
	if s.Inst.Status() >= model.FlowStatusCompleted {
		s.Ended = true
		if s.Inst.Status() == model.FlowStatusCompleted {
			d, err := s.Inst.GetReturnData()
			s.HandleResult(d, err)
		} else {
			s.HandleResult(nil, s.Inst.GetError())
		}
		s.Done()
	}
	return !s.Ended && s.Busy
}

// CollectAfter is Collect for what is left of a run after n observations.
func CollectAfter(s *spec.Scenario, old *Run, n int) *Run {
	r := newRun(s)
	for _, o := range old.Obs()[:n] {
		if o.Kind == "eval" {
			r.counts["*"+o.Flow+"/"+o.Task]++
		}
	}
	vsched.TakeSleeps()
	curMu.Lock()
	cur = r
	curMu.Unlock()
	return r
}
