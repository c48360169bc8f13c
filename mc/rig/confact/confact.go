// Package confact is an activity with settings: each task has its own, which can be
// reconfigured and has to be cleaned up.
package confact

import (
	"errors"
	"fmt"
	"sync"

	"github.com/project-flogo/core/activity"
)

const Ref = "verif.local/vmc/rig/confact"

type Settings struct {
	N int    `md:"n"`
	S string `md:"s"`
	O any    `md:"o"`
}

type Input struct {
	In any    `md:"in"`
	S  string `md:"s"`
	I  int    `md:"i"`
}

func (p *Input) ToMap() map[string]interface{} {
	return map[string]interface{}{"in": p.In, "s": p.S, "i": p.I}
}
func (p *Input) FromMap(m map[string]interface{}) error { return nil }

type Output struct {
	Out any `md:"out"`
}

func (p *Output) ToMap() map[string]interface{}          { return map[string]interface{}{"out": p.Out} }
func (p *Output) FromMap(m map[string]interface{}) error { return nil }

var md = activity.ToMetadata(&Settings{}, &Input{}, &Output{})

// Event is one call of an activity.
type Event struct {
	Op     string // new, eval, reconfigure, cleanup
	Serial int
	Name   string
	Host   string
	Vals   map[string]any
}

func (e Event) String() string {
	return fmt.Sprintf("%s #%d %s/%s %v", e.Op, e.Serial, e.Host, e.Name, e.Vals)
}

var (
	mu     sync.Mutex
	log    []Event
	serial int
)

// Take gives the calls since it was called before.
func Take() []Event {
	mu.Lock()
	defer mu.Unlock()
	l := log
	log = nil
	return l
}

func put(e Event) {
	mu.Lock()
	log = append(log, e)
	mu.Unlock()
}

func Setup() error {
	if err := activity.Register(&Act{}, New); err != nil {
		return err
	}
	return activity.LegacyRegister("verif.local/vmc/rig/confact.legacy", &Legacy{})
}

type Act struct {
	serial     int
	name, host string
	boom       bool
	noclean    bool
}

func New(ctx activity.InitContext) (activity.Activity, error) {
	mu.Lock()
	serial++
	a := &Act{serial: serial, name: ctx.Name(), host: ctx.HostName()}
	mu.Unlock()
	a.take(ctx.Settings())
	if ctx.MapperFactory() == nil || ctx.Logger() == nil {
		return nil, errors.New("confact: incomplete context")
	}
	if s, _ := ctx.Settings()["s"].(string); s == "nonew" {
		return nil, errors.New("confact: no activity")
	}
	put(Event{"new", a.serial, a.name, a.host, keep(ctx.Settings())})
	return a, nil
}

func keep(m map[string]interface{}) map[string]any {
	c := map[string]any{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (a *Act) take(s map[string]interface{}) {
	v, _ := s["s"].(string)
	a.boom, a.noclean = v == "boom", v == "noclean"
}

func (*Act) Metadata() *activity.Metadata { return md }

func (a *Act) Reconfigure(s map[string]interface{}) error {
	put(Event{"reconfigure", a.serial, a.name, a.host, keep(s)})
	a.take(s)
	if v, _ := s["x"].(string); v == "refuse" {
		return errors.New("confact: refused")
	}
	return nil
}

func (a *Act) Cleanup() error {
	put(Event{"cleanup", a.serial, a.name, a.host, nil})
	if a.noclean {
		return errors.New("confact: not cleaned up")
	}
	return nil
}

func (a *Act) Eval(ctx activity.Context) (bool, error) {
	m := map[string]any{}
	for _, n := range []string{"in", "s", "i"} {
		if v := ctx.GetInput(n); v != nil {
			m[n] = v
		}
	}
	put(Event{"eval", a.serial, ctx.Name(), ctx.ActivityHost().Name(), m})
	if a.boom {
		return false, errors.New("confact: boom")
	}
	return true, ctx.SetOutput("out", fmt.Sprintf("%s of %d", a.name, a.serial))
}

// Legacy is a legacy activity: it reads its settings and the configured values of its
// outputs when it is evaluated.
type Legacy struct{}

func (*Legacy) Metadata() *activity.Metadata { return md }

func (*Legacy) Eval(ctx activity.Context) (bool, error) {
	m := map[string]any{}
	lc, ok := ctx.(activity.LegacyCtx)
	if !ok {
		return false, errors.New("confact: not a legacy context")
	}
	if st, ok := ctx.(interface {
		GetSetting(name string) (interface{}, bool)
	}); ok {
		for _, n := range []string{"n", "s", "o"} {
			if v, ok := st.GetSetting(n); ok {
				m["set."+n] = v
			}
		}
	}
	for _, n := range []string{"in", "s", "i"} {
		if v := ctx.GetInput(n); v != nil {
			m[n] = v
		}
	}
	m["out"] = lc.GetOutput("out")
	if err := ctx.SetOutput("out", "own"); err != nil {
		return false, err
	}
	m["own"] = lc.GetOutput("out")
	put(Event{"eval", 0, ctx.Name(), ctx.ActivityHost().Name(), m})
	return true, nil
}
