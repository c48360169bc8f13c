package zzdemo

// Small harness for the demonstrations: a scripted activity, flow loading and
// runs through the flow action.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
)

type probe struct{}

type Input struct {
	In interface{} `md:"in"`
	A  interface{} `md:"a"`
}

func (p *Input) ToMap() map[string]interface{}                  { return map[string]interface{}{"in": p.In, "a": p.A} }
func (p *Input) FromMap(m map[string]interface{}) error { return nil }

type Output struct {
	Out interface{} `md:"out"`
}

func (p *Output) ToMap() map[string]interface{}                  { return map[string]interface{}{"out": p.Out} }
func (p *Output) FromMap(m map[string]interface{}) error { return nil }

var md = activity.ToMetadata(&Input{}, &Output{})

func (*probe) Metadata() *activity.Metadata { return md }

var (
	mu    sync.Mutex
	trace []string // "flow/task" or "flow/task(in)" per evaluation
	acts  = map[string]func(ctx activity.Context, n int) (interface{}, error){}
	count = map[string]int{}
)

func (*probe) Eval(ctx activity.Context) (bool, error) {
	key := ctx.ActivityHost().Name() + "/" + ctx.Name()
	mu.Lock()
	e := key
	if in := ctx.GetInput("in"); in != nil {
		e += fmt.Sprintf("(%v)", in)
	}
	trace = append(trace, e)
	n := count[key]
	count[key]++
	f := acts[key]
	mu.Unlock()
	if f != nil {
		out, err := f(ctx, n)
		if err != nil {
			return false, err
		}
		if out != nil {
			_ = ctx.SetOutput("out", out)
		}
	}
	return true, nil
}

type initCtx struct {
	rm *resource.Manager
	sm *service.Manager
	rs map[string]interface{}
}

func (c *initCtx) ResourceManager() *resource.Manager      { return c.rm }
func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return c.rs }

var (
	rm   = resource.NewManager(map[string]*resource.Resource{})
	sm   = service.NewServiceManager()
	rs   = map[string]interface{}{}
	once sync.Once
)

func setup() {
	once.Do(func() {
		log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
		_ = activity.Register(&probe{})
		if err := action.GetFactory("github.com/project-flogo/flow").Initialize(&initCtx{rm, sm, rs}); err != nil {
			panic(err)
		}
	})
}

// flowDef is written compactly: tasks "A B S=sub:child", links "A>B A>C:expression:$flow.x".
type obj = map[string]interface{}
type arr = []interface{}

func task(id string, in obj) obj {
	a := obj{"ref": "github.com/project-flogo/flow/zzdemo"}
	if in != nil {
		a["input"] = in
	}
	return obj{"id": id, "name": id, "activity": a}
}

func subTask(id, child string, in obj) obj {
	a := obj{"ref": "github.com/project-flogo/flow/activity/subflow", "settings": obj{"flowURI": "res://flow:" + child}}
	if in != nil {
		a["input"] = in
	}
	return obj{"id": id, "name": id, "activity": a}
}

func link(from, to, kind, expr string) obj {
	l := obj{"from": from, "to": to, "type": kind}
	if expr != "" {
		l["value"] = expr
	}
	return l
}

func load(t *testing.T, name string, def obj) {
	setup()
	def["name"] = name
	b, _ := json.Marshal(def)
	res, err := resource.GetLoader("flow").LoadResource(&resource.Config{ID: "flow:" + name, Data: b})
	if err != nil {
		t.Fatal(err)
	}
	rm.SetResource("flow:"+name, res)
}

type result struct {
	mu    sync.Mutex
	data  map[string]interface{}
	err   error
	n     int
	dones int
	ch    chan struct{}
}

func (r *result) HandleResult(d map[string]interface{}, err error) {
	r.mu.Lock()
	r.data, r.err = d, err
	r.n++
	r.mu.Unlock()
}

func (r *result) Done() {
	r.mu.Lock()
	r.dones++
	n := r.dones
	r.mu.Unlock()
	if n == 1 {
		close(r.ch)
	}
}

var errTimeout = errors.New("the run does not end")

// start begins a run of a loaded flow.
func start(t *testing.T, name string, inputs obj) *result {
	setup()
	a, err := action.GetFactory("github.com/project-flogo/flow").New(&action.Config{Settings: obj{"flowURI": "res://flow:" + name}})
	if err != nil {
		t.Fatal(err)
	}
	if inputs == nil {
		inputs = obj{}
	}
	r := &result{ch: make(chan struct{})}
	if err := a.(action.AsyncAction).Run(context.Background(), inputs, r); err != nil {
		t.Fatal(err)
	}
	return r
}

// run runs a loaded flow to its end; the trace is that of this run.
func run(t *testing.T, name string, inputs obj) (*result, string) {
	mu.Lock()
	trace, count = nil, map[string]int{}
	mu.Unlock()
	r := start(t, name, inputs)
	select {
	case <-r.ch:
	case <-time.After(10 * time.Second):
		t.Fatalf("%v; executed: %s", errTimeout, strings.Join(trace, " "))
	}
	mu.Lock()
	defer mu.Unlock()
	return r, strings.Join(trace, " ")
}

func want(t *testing.T, got, exp string) {
	t.Helper()
	if got != exp {
		t.Fatalf("executed %q, expected %q", got, exp)
	}
}

var _ = flow.ActionFactory{}
var _ = instance.OpStart
