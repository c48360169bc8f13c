package rig

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support/event"
)

// ---- state recorder --------------------------------------------------------

type RecItem struct {
	Kind  string // start, snapshot, step, done
	Snap  *state.Snapshot
	Step  *state.Step
	FS    *state.FlowState
	Text  string // JSON at the moment of recording
	AtObs int
}

type Recorder struct {
	mu    sync.Mutex
	Items []RecItem
	Keep  bool
	Fails bool
	Hook  func(it *RecItem)
}

func (r *Recorder) Name() string { return "verif-recorder" }
func (r *Recorder) Start() error { return nil }
func (r *Recorder) Stop() error  { return nil }
func (r *Recorder) reset() {
	r.mu.Lock()
	r.Items = nil
	r.mu.Unlock()
}
func (r *Recorder) add(it RecItem) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if cur != nil {
		it.AtObs = cur.Evals()
	}
	if r.Hook != nil {
		r.Hook(&it)
	}
	if r.Keep {
		r.Items = append(r.Items, it)
	}
	if r.Fails {
		return errors.New("scripted failure to record")
	}
	return nil
}
func (r *Recorder) RecordStart(s *state.FlowState) error {
	return r.add(RecItem{Kind: "start", FS: s})
}
func (r *Recorder) RecordSnapshot(s *state.Snapshot) error {
	return r.add(RecItem{Kind: "snapshot", Snap: s})
}
func (r *Recorder) RecordStep(s *state.Step) error { return r.add(RecItem{Kind: "step", Step: s}) }
func (r *Recorder) RecordDone(s *state.FlowState) error {
	return r.add(RecItem{Kind: "done", FS: s})
}
func (r *Recorder) Take() []RecItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]RecItem(nil), r.Items...)
}

// ---- tracer ----------------------------------------------------------------

type Span struct {
	ID, Parent int
	Op         string
	Tags       map[string]any
	Fin        int
	Err        error
	ErrN       int // finishes with an error
	AfterDone  bool
	mu         *sync.Mutex
}

func (s *Span) TraceObject() interface{}                 { return s }
func (s *Span) SetTags(tags map[string]interface{}) bool { return true }
func (s *Span) SetTag(k string, v interface{}) bool      { return true }
func (s *Span) LogKV(kvs map[string]interface{}) bool    { return true }
func (s *Span) TraceID() string                          { return "trace" }
func (s *Span) SpanID() string                           { return strconv.Itoa(s.ID) }

type Tracer struct {
	mu    sync.Mutex
	Spans []*Span
}

func (t *Tracer) Name() string { return "verif-tracer" }
func (t *Tracer) Start() error { return nil }
func (t *Tracer) Stop() error  { return nil }
func (t *Tracer) Extract(f trace.CarrierFormat, c interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (t *Tracer) Inject(tc trace.TracingContext, f trace.CarrierFormat, c interface{}) error {
	return nil
}
func (t *Tracer) StartTrace(c trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := &Span{ID: len(t.Spans) + 1, Op: c.Operation, Tags: map[string]any{}, mu: &t.mu}
	for k, v := range c.Tags {
		s.Tags[k] = v
	}
	if p, ok := parent.(*Span); ok && p != nil {
		s.Parent = p.ID
	}
	t.Spans = append(t.Spans, s)
	return s, nil
}
func (t *Tracer) FinishTrace(tc trace.TracingContext, err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	s, ok := tc.(*Span)
	if !ok || s == nil {
		return fmt.Errorf("finish of a foreign span")
	}
	s.Fin++
	if err != nil {
		s.ErrN++
		s.Err = err
	}
	return nil
}
func (t *Tracer) open(s *Span) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return s.Fin == 0
}
func (t *Tracer) unfinished() []int {
	t.mu.Lock()
	defer t.mu.Unlock()
	var out []int
	for _, s := range t.Spans {
		if s.Fin == 0 {
			out = append(out, s.ID)
		}
	}
	return out
}
func (t *Tracer) reset() {
	t.mu.Lock()
	t.Spans = nil
	t.mu.Unlock()
}
func (t *Tracer) take() []*Span {
	t.mu.Lock()
	defer t.mu.Unlock()
	var out []*Span
	for _, s := range t.Spans {
		c := *s
		out = append(out, &c)
	}
	return out
}

// SpansNow copies the spans as they are.
// Reset forgets all spans.
func (t *Tracer) Reset() { t.reset() }

func (t *Tracer) SpansNow() []*Span { return t.take() }

// ---- event listener --------------------------------------------------------

type Event struct {
	Kind             string // flow, task
	Status           string
	Flow, FlowID     string
	PFlow, PFlowID   string
	HostTask, HostID string
	Task, TaskID     string
	Type, Ref        string
	In, Out          map[string]any
	Err              string
	HasErr           bool
	T                time.Time
	N                int // begin, end: index of the evaluation in the trace
}

func (e Event) String() string {
	if e.Kind == "begin" || e.Kind == "end" {
		return fmt.Sprintf("%s of observation %d", e.Kind, e.N)
	}
	if e.Kind == "flow" {
		return fmt.Sprintf("flow %s(%s) %s", e.Flow, e.FlowID, e.Status)
	}
	return fmt.Sprintf("task %s/%s(%s) %s", e.Flow, e.Task, e.FlowID, e.Status)
}

const sentinel = "verifsentinel"

// mark is posted by the probe so that its evaluations take their place among
// the events.
type mark struct {
	at  int
	end bool
}

func postMark(at int, end bool) {
	if Evs != nil {
		coreevent.Post(sentinel, mark{at, end})
	}
}

type Events struct {
	mu   sync.Mutex
	list []Event
	ch   chan int
	n    int
}

func newEvents() *Events {
	e := &Events{ch: make(chan int, 16)}
	_ = coreevent.RegisterListener("verif", e, []string{event.FlowEventType, event.TaskEventType, sentinel})
	return e
}

func (e *Events) HandleEvent(c *coreevent.Context) error {
	switch ev := c.GetEvent().(type) {
	case event.FlowEvent:
		x := Event{Kind: "flow", Status: string(ev.FlowStatus()), Flow: ev.FlowName(), FlowID: ev.FlowID(), PFlow: ev.ParentFlowName(), PFlowID: ev.ParentFlowID(), T: ev.Time()}
		x.HostTask, x.HostID = ev.HostTask().TaskName, ev.HostTask().TaskInstanceId
		x.In, x.Out = deep(ev.FlowInput()).(map[string]any), deep(ev.FlowOutput()).(map[string]any)
		if ev.FlowError() != nil {
			x.Err, x.HasErr = ev.FlowError().Error(), true
		}
		e.mu.Lock()
		e.list = append(e.list, x)
		e.mu.Unlock()
	case event.TaskEvent:
		x := Event{Kind: "task", Status: string(ev.TaskStatus()), Flow: ev.FlowName(), FlowID: ev.FlowID(), Task: ev.TaskName(), TaskID: ev.TaskInstanceId(), Type: ev.TaskType(), Ref: ev.ActivityRef(), T: ev.Time()}
		x.In, x.Out = deep(ev.TaskInput()).(map[string]any), deep(ev.TaskOutput()).(map[string]any)
		if ev.TaskError() != nil {
			x.Err, x.HasErr = ev.TaskError().Error(), true
		}
		e.mu.Lock()
		e.list = append(e.list, x)
		e.mu.Unlock()
	case mark:
		x := Event{Kind: "begin", N: ev.at}
		if ev.end {
			x.Kind = "end"
		}
		e.mu.Lock()
		e.list = append(e.list, x)
		e.mu.Unlock()
	case int:
		e.ch <- ev
	}
	return nil
}

func (e *Events) drain() []Event {
	e.n++
	coreevent.Post(sentinel, e.n)
	for {
		select {
		case k := <-e.ch:
			if k == e.n {
				e.mu.Lock()
				l := e.list
				e.list = nil
				e.mu.Unlock()
				return l
			}
		case <-time.After(20 * time.Second):
			return []Event{{Kind: "lost", Status: "event queue did not drain"}}
		}
	}
}

// DrainEvents waits for the events posted so far and takes them.
func DrainEvents() []Event {
	if Evs == nil {
		return nil
	}
	return Evs.drain()
}

// RootOf is the id of the run an instance belongs to.
func RootOf(id string) string {
	if k := strings.LastIndex(id, "-"); k > 0 {
		return id[:k]
	}
	return id
}
