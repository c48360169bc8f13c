// Package fakeact is an activity that says it returns from a flow and has one
// typed setting.
package fakeact

import (
	"github.com/project-flogo/core/activity"
)

const Ref = "verif.local/vmc/rig/fakeact"

type Settings struct {
	N int `md:"n"`
}

type Input struct {
	V any `md:"v"`
}

func (p *Input) ToMap() map[string]interface{}          { return map[string]interface{}{"v": p.V} }
func (p *Input) FromMap(m map[string]interface{}) error { return nil }

var md = activity.ToMetadata(&Settings{}, &Input{})

type Act struct{}

func (*Act) Metadata() *activity.Metadata            { return md }
func (*Act) Details() *activity.Details              { return &activity.Details{IsReturn: true} }
func (*Act) Eval(ctx activity.Context) (bool, error) { return true, nil }
