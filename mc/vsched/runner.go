package vsched

import (
	"context"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/engine/runner"
)

// NewDirect stands for the engine's direct runner, whose waiting for the end
// of the action the scheduler must control.
func NewDirect() *DirectRunner { return &DirectRunner{} }

type DirectRunner struct{}

// Direct lists the runs that were started through the runner, if not nil.
var Direct *[]*DirectRun

// DirectRun is the result handler of such a run.
type DirectRun struct {
	mu      Mutex
	dones   int
	Results []map[string]interface{}
	Errs    []error
	Left    bool // the caller has gone on
}

func (d *DirectRun) HandleResult(data map[string]interface{}, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Results = append(d.Results, data)
	d.Errs = append(d.Errs, err)
}

func (d *DirectRun) Done() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.dones++
}

func (*DirectRunner) RunAction(ctx context.Context, act action.Action, inputs map[string]interface{}) (map[string]interface{}, error) {
	async, ok := act.(action.AsyncAction)
	if S == nil || !ok {
		return runner.NewDirect().RunAction(ctx, act, inputs)
	}
	d := &DirectRun{}
	if Direct != nil {
		*Direct = append(*Direct, d)
	}
	if err := async.Run(ctx, inputs, d); err != nil {
		return nil, err
	}
	WaitUntil(func() bool { return d.dones > 0 })
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Left = true
	if len(d.Results) > 0 {
		return d.Results[0], d.Errs[0]
	}
	return nil, nil
}
