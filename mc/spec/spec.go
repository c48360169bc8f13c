// Package spec describes flows, the scripted behaviour of their activities and
// the expressions in them, once: rig turns a description into the definition
// the engine loads, ref gives it its meaning.
package spec

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- expressions ---------------------------------------------------------

// Expr is an expression in a mapping, a link, a loop or a retry setting.
type Expr struct {
	Op   string  `json:"op"`
	V    any     `json:"v,omitempty"`    // lit
	Name string  `json:"name,omitempty"` // flow attribute, task
	F    string  `json:"f,omitempty"`    // field
	A    []*Expr `json:"a,omitempty"`
}

func Lit(v any) *Expr              { return &Expr{Op: "lit", V: v} }
func Flow(n string) *Expr          { return &Expr{Op: "flow", Name: n} }
func Dot(n string) *Expr           { return &Expr{Op: "dot", Name: n} }
func Act(task, field string) *Expr { return &Expr{Op: "act", Name: task, F: field} }
func Acc(task string) *Expr        { return &Expr{Op: "acc", Name: task} }
func Iter(f string) *Expr          { return &Expr{Op: "iter", F: f} }
func IterField(f, sub string) *Expr {
	return &Expr{Op: "iter", F: f, Name: sub}
}
func ErrF(f string) *Expr             { return &Expr{Op: "err", F: f} }
func ErrAt(task, f string) *Expr      { return &Expr{Op: "errat", Name: task, F: f} }
func Ctx(n string) *Expr              { return &Expr{Op: "ctx", Name: n} }
func Eq(a, b *Expr) *Expr             { return &Expr{Op: "eq", A: []*Expr{a, b}} }
func Lt(a, b *Expr) *Expr             { return &Expr{Op: "lt", A: []*Expr{a, b}} }
func And(a, b *Expr) *Expr            { return &Expr{Op: "and", A: []*Expr{a, b}} }
func Or(a, b *Expr) *Expr             { return &Expr{Op: "or", A: []*Expr{a, b}} }
func Fail() *Expr                     { return &Expr{Op: "vfail"} }
func Panic() *Expr                    { return &Expr{Op: "vpanic"} }
func Path(base *Expr, p string) *Expr { return &Expr{Op: "path", F: p, A: []*Expr{base}} } // p: .k, ["k"], [0]
func Obj(kv ...any) *Expr { // object mapping
	e := &Expr{Op: "obj", V: []string{}}
	var ks []string
	for i := 0; i < len(kv); i += 2 {
		ks = append(ks, kv[i].(string))
		e.A = append(e.A, kv[i+1].(*Expr))
	}
	e.V = ks
	return e
}

// Text renders the expression in the engine's expression language (without '=').
func (e *Expr) Text() string {
	switch e.Op {
	case "lit":
		switch v := e.V.(type) {
		case string:
			return `"` + v + `"`
		case nil:
			return "nil"
		default:
			return fmt.Sprint(v)
		}
	case "flow":
		return "$flow." + e.Name
	case "dot":
		return "$." + e.Name
	case "act":
		return "$activity[" + e.Name + "]." + e.F
	case "acc":
		return "$activity[" + e.Name + "]"
	case "iter":
		if e.Name != "" {
			return "$iteration[" + e.F + "]." + e.Name
		}
		return "$iteration[" + e.F + "]"
	case "err":
		if e.F == "" {
			return "$error"
		}
		return "$error." + e.F
	case "errat":
		return "$error[" + e.Name + "]." + e.F
	case "ctx":
		return "$flowctx[" + e.Name + "]"
	case "eq":
		return e.A[0].Text() + " == " + e.A[1].Text()
	case "lt":
		return e.A[0].Text() + " < " + e.A[1].Text()
	case "and":
		return "(" + e.A[0].Text() + ") && (" + e.A[1].Text() + ")"
	case "or":
		return "(" + e.A[0].Text() + ") || (" + e.A[1].Text() + ")"
	case "path":
		return e.A[0].Text() + e.F
	case "vfail":
		return "rig.vfail()"
	case "vpanic":
		return "rig.vpanic()"
	}
	panic("expr op " + e.Op)
}

// Mapping renders the expression as the value of an input mapping.
func (e *Expr) Mapping() any {
	if e.Op == "lit" {
		return e.V
	}
	if e.Op == "obj" {
		m := map[string]any{}
		for i, k := range e.V.([]string) {
			m[k] = e.A[i].mappingInner()
		}
		return map[string]any{"mapping": m}
	}
	return "=" + e.Text()
}

func (e *Expr) mappingInner() any {
	if e.Op == "obj" {
		return e.Mapping().(map[string]any)["mapping"]
	}
	return e.Mapping()
}

// Scope is what an expression is evaluated against.
type Scope interface {
	Value(name string) (any, bool) // engine attribute names: "x", "_A.t.out", "_E", "_E.t", "_fctx.n", "_W.iteration"
}

// EvalError is the failure of an expression; Panic when it panics.
type EvalError struct{ Panic bool }

func (e *EvalError) Error() string { return "expression failed" }

var evalErr = &EvalError{}

// Eval gives the expression its meaning.
func (e *Expr) Eval(s Scope) (any, *EvalError) {
	get := func(n string) (any, *EvalError) {
		v, ok := s.Value(n)
		if !ok {
			return nil, evalErr
		}
		return v, nil
	}
	field := func(v any, f string) (any, *EvalError) {
		m, ok := v.(map[string]any)
		if !ok {
			return nil, evalErr
		}
		x, ok := m[f]
		if !ok {
			return nil, evalErr
		}
		return x, nil
	}
	switch e.Op {
	case "lit":
		return e.V, nil
	case "flow", "dot":
		return get(e.Name)
	case "act":
		return get("_A." + e.Name + "." + e.F)
	case "acc":
		return get("_A." + e.Name)
	case "iter":
		v, er := get("_W.iteration")
		if er != nil {
			return nil, er
		}
		v, er = field(v, e.F)
		if er != nil || e.Name == "" {
			return v, er
		}
		return field(v, e.Name)
	case "err":
		v, er := get("_E")
		if er != nil || e.F == "" {
			return v, er
		}
		return field(v, e.F)
	case "errat":
		v, er := get("_E." + e.Name)
		if er != nil {
			return nil, er
		}
		return field(v, e.F)
	case "ctx":
		return get("_fctx." + e.Name)
	case "eq", "lt", "and", "or":
		a, er := e.A[0].Eval(s)
		if er != nil {
			return nil, er
		}
		b, er := e.A[1].Eval(s)
		if er != nil {
			return nil, er
		}
		switch e.Op {
		case "eq":
			return Canon(a) == Canon(b), nil
		case "lt":
			x, ok1 := Num(a)
			y, ok2 := Num(b)
			if !ok1 || !ok2 {
				return nil, evalErr
			}
			return x < y, nil
		case "and":
			return a == true && b == true, nil
		default:
			return a == true || b == true, nil
		}
	case "obj":
		m := map[string]any{}
		for i, k := range e.V.([]string) {
			v, er := e.A[i].Eval(s)
			if er != nil {
				return nil, er
			}
			m[k] = v
		}
		return m, nil
	case "path":
		v, er := e.A[0].Eval(s)
		if er != nil {
			return nil, er
		}
		p := e.F
		if strings.HasPrefix(p, "[") && !strings.HasPrefix(p, "[\"") {
			l, ok := v.([]any)
			k, err := strconv.Atoi(strings.Trim(p, "[]"))
			if !ok || err != nil || k >= len(l) {
				return nil, evalErr
			}
			return l[k], nil
		}
		m, ok := v.(map[string]any)
		if !ok {
			return nil, evalErr
		}
		return m[strings.Trim(p, ".[]\"")], nil // a missing last part is nil
	case "vfail":
		return nil, evalErr
	case "vpanic":
		return nil, &EvalError{Panic: true}
	}
	panic("expr op " + e.Op)
}

func Num(v any) (float64, bool) {
	switch t := v.(type) {
	case int:
		return float64(t), true
	case int32:
		return float64(t), true
	case int64:
		return float64(t), true
	case float64:
		return t, true
	case json.Number:
		f, err := t.Float64()
		return f, err == nil
	}
	return 0, false
}

// Canon is a canonical text of a value: equal exactly for equal data.
func Canon(v any) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case string:
		return "\"" + t + "\""
	case bool:
		if t {
			return "true"
		}
		return "false"
	case int:
		return fmt.Sprint(t)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// ---- flows ---------------------------------------------------------------

const (
	Dep    = "dependency"
	XExpr  = "expression"
	Label  = "label"
	Error  = "error"
	Otherw = "exprOtherwise"
)

type Link struct {
	From string `json:"from"`
	To   string `json:"to"`
	Kind string `json:"kind"`
	X    *Expr  `json:"x,omitempty"`
}

type Param struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Def  any    `json:"def,omitempty"`
	Val  any    `json:"val,omitempty"` // the default in the declared type, when it differs
}

type Map struct {
	Name string `json:"n"`
	X    *Expr  `json:"x"`
}

type Retry struct {
	Count, Interval *Expr // nil: absent
}

type Loop struct {
	Over  *Expr `json:"over,omitempty"`  // iterator: expression
	OverV any   `json:"overv,omitempty"` // iterator: literal
	While *Expr `json:"while,omitempty"`
	Accum bool  `json:"accum,omitempty"`
	Delay int   `json:"delay,omitempty"`
	Form  int   `json:"form,omitempty"` // spelling of the settings
}

type Task struct {
	ID     string `json:"id"`
	Kind   string `json:"kind,omitempty"` // "", iterator, doWhile
	Loop   *Loop  `json:"loop,omitempty"`
	Retry  *Retry `json:"retry,omitempty"`
	Sub    string `json:"sub,omitempty"` // subflow name; "" is a probe
	BadSub bool   `json:"badsub,omitempty"`
	Detach bool   `json:"detach,omitempty"`
	// schemas of inputs and outputs: the rule a value has to keep
	SIn  map[string]string `json:"sin,omitempty"`
	SOut map[string]string `json:"sout,omitempty"`
	In   []Map             `json:"in,omitempty"`
	// Set by normalisation
	body *Body
	idx  int
	In_  []int `json:"-"` // incoming link indexes
	Out_ []int `json:"-"`
}

type Body struct {
	Tasks []*Task `json:"tasks"`
	Links []*Link `json:"links,omitempty"`
	off   int
	loff  int
}

type FlowDef struct {
	Name string `json:"name"`
	Body
	Handler *Body   `json:"handler,omitempty"`
	In      []Param `json:"fin,omitempty"`
	Out     []Param `json:"fout,omitempty"`
	// all tasks and links, body first
	All   []*Task `json:"-"`
	LAll  []*Link `json:"-"`
	to    []int
	from  []int
	Index map[string]int `json:"-"`
}

// Norm computes indexes; it must be called once a flow is complete.
func (f *FlowDef) Norm() *FlowDef {
	f.All, f.LAll, f.to, f.from = nil, nil, nil, nil
	f.Index = map[string]int{}
	add := func(b *Body) {
		b.off, b.loff = len(f.All), len(f.LAll)
		local := map[string]int{}
		for _, t := range b.Tasks {
			t.idx = len(f.All)
			t.body = b
			t.In_, t.Out_ = nil, nil
			local[t.ID] = t.idx
			if _, dup := f.Index[t.ID]; !dup {
				f.Index[t.ID] = t.idx
			}
			f.All = append(f.All, t)
		}
		for _, l := range b.Links {
			li := len(f.LAll)
			f.LAll = append(f.LAll, l)
			f.from = append(f.from, local[l.From])
			f.to = append(f.to, local[l.To])
			f.All[local[l.From]].Out_ = append(f.All[local[l.From]].Out_, li)
			f.All[local[l.To]].In_ = append(f.All[local[l.To]].In_, li)
		}
	}
	add(&f.Body)
	if f.Handler != nil {
		add(f.Handler)
	}
	return f
}

func (f *FlowDef) To(l int) int   { return f.to[l] }
func (f *FlowDef) From(l int) int { return f.from[l] }

// Task finds a task of the flow or its error handler.
func (f *FlowDef) Task(id string) *Task {
	for _, t := range f.All {
		if t.ID == id {
			return t
		}
	}
	return nil
}
func (f *FlowDef) InHandler(t int) bool { return f.Handler != nil && t >= f.Handler.off }

// Outcome is what one evaluation of a probe does.
type Outcome struct {
	Kind    string         `json:"k"`           // ok, err, coded, retri, panic, ret, reply
	Out     any            `json:"o,omitempty"` // output value; nil: default
	NoOut   bool           `json:"noout,omitempty"`
	NullOut bool           `json:"nullout,omitempty"` // the output is null
	O2      any            `json:"o2,omitempty"`      // second output, when not nil
	Other   any            `json:"oo,omitempty"`      // an output the activity does not declare
	Msg     string         `json:"m,omitempty"`
	Code    string         `json:"c,omitempty"`
	Data    any            `json:"d,omitempty"`
	Ret     map[string]any `json:"r,omitempty"`  // return/reply data
	RetIn   string         `json:"ri,omitempty"` // returns its input "in" under this name
	RetErr  string         `json:"re,omitempty"`
	SetAttr string         `json:"sa,omitempty"` // flow attribute it writes
	SetVal  any            `json:"sv,omitempty"`
}

var OK = Outcome{Kind: "ok"}

// Scenario is one closed system: flows, inputs, and what every probe does.
type Scenario struct {
	Main   string               `json:"main"`
	Flows  map[string]*FlowDef  `json:"flows"`
	Inputs map[string]any       `json:"inputs,omitempty"`
	Script map[string][]Outcome `json:"script,omitempty"` // "flow/task" -> outcome of n-th evaluation (last repeats)
	Env    map[string]string    `json:"env,omitempty"`
	Note   string               `json:"note,omitempty"`
	Opts   map[string]any       `json:"opts,omitempty"`
	key    string
}

func (s *Scenario) Norm() *Scenario {
	for _, f := range s.Flows {
		f.Norm()
	}
	return s
}

// Outcome of the n-th (0-based) evaluation of a probe in one flow instance,
// the g-th in the whole run (script keys starting with * go by that).
func (s *Scenario) Outcome(flow, task string, n, g int) Outcome {
	o := s.Script[flow+"/"+task]
	if len(o) == 0 {
		if o = s.Script["*"+flow+"/"+task]; len(o) > 0 {
			n = g
		}
	}
	if len(o) == 0 {
		return OK
	}
	if n >= len(o) {
		n = len(o) - 1
	}
	return o[n]
}

// Default is the declared default in the declared type.
func (p Param) Default() any {
	if p.Val != nil {
		return p.Val
	}
	return p.Def
}

// Return is the data a "ret" or "reply" outcome gives back.
func (o Outcome) Return(in map[string]any) map[string]any {
	if o.RetIn == "" {
		return o.Ret
	}
	m := map[string]any{o.RetIn: in["in"]}
	for k, v := range o.Ret {
		m[k] = v
	}
	return m
}

// DefaultOut is the output of the n-th evaluation when not scripted.
// SchemaText is what a schema says of a value that it rejects.
func SchemaText(rule string) string { return "vschema: not " + rule }

// SchemaOK tells whether a value keeps the rule of a schema.
func SchemaOK(rule string, v any) bool {
	switch rule {
	case "any":
		return true
	case "null":
		return v == nil
	case "value":
		return v != nil
	case "string":
		_, ok := v.(string)
		return ok
	case "number":
		_, ok := Num(v)
		return ok
	}
	return false // "allowed": nothing is
}

// Rejected are the rules that some value breaks.
func Rejected(rules map[string]string, vals map[string]any) (out []string) {
	for n, r := range rules {
		if v, ok := vals[n]; ok && !SchemaOK(r, v) {
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return
}

func DefaultOut(task string, n int, in map[string]any) any {
	if v, ok := in["in"]; ok && v != nil {
		return fmt.Sprintf("%s#%d(%s)", task, n, strings.ReplaceAll(Canon(v), "\"", "'"))
	}
	return fmt.Sprintf("%s#%d", task, n)
}

func (s *Scenario) JSON() string {
	b, err := json.Marshal(s)
	if err != nil {
		return fmt.Sprintf("unprintable scenario: %v", err)
	}
	return string(b)
}

// FlowNames in a fixed order.
func (s *Scenario) FlowNames() []string {
	var ns []string
	for n := range s.Flows {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// Restore repairs an expression that was read back from JSON.
func (e *Expr) Restore() {
	if e == nil {
		return
	}
	if e.Op == "obj" {
		if l, ok := e.V.([]any); ok {
			var ks []string
			for _, k := range l {
				ks = append(ks, fmt.Sprint(k))
			}
			e.V = ks
		}
	}
	for _, a := range e.A {
		a.Restore()
	}
}
