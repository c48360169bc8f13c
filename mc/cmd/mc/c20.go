package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression"
	"github.com/project-flogo/core/data/mapper"
	coresupport "github.com/project-flogo/core/support"
	"github.com/project-flogo/flow/definition"

	"verif.local/vmc/rig"
	"verif.local/vmc/rig/fakeact"
)

func init() {
	register(&Check{
		ID: "C20",
		Assume: []string{
			"left open: values whose meaning the expression and mapping language of the core library defines (only a table of known valid and known invalid expressions is judged); link types that are none of the ten names (a dependency or a rejection); a null condition; the JSON null where an object is expected",
			"activity schemas, legacy activities and a custom mapper factory are not explored",
		},
		Rule: "every definition reached from base definitions by up to k deviations, a deviation being any JSON position deleted, duplicated, swapped with its neighbour or replaced by each of a domain of values; every byte prefix of the bases; the loaded definition is read back through its accessors and compared with what the JSON says, by an independent reading; distinct by definition text",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "k=1 for the rich and the medium base (all features), k=2 for the small base; all byte prefixes"
			}
			return "k=1 for the rich base, k=2 for the medium and small bases; all byte prefixes"
		},
		Run: run20,
	})
}

var reg20 bool

const base20rich = `{"name":"flw-main","model":"","explicitReply":false,
"metadata":{"input":[{"name":"x","type":"int"},{"name":"y","type":"string","value":"dflt"}],"output":[{"name":"r","type":"any"}]},
"tasks":[
{"id":"tskA","name":"Task A","activity":{"ref":"PROBE","input":{"in":"=$flow.x","a":{"k":[1,null]},"s":"str","i":4,"zz":"plain"},"output":{"out":"o"},"settings":{"p":"q","e":"=1 == 1"}}},
{"id":"tskB","name":"tskB","type":"iterator","settings":{"loopConfig":{"iterateOn":"=$flow.x","condition":"$flow.x == 5","delay":3,"accumulate":true}},"activity":{"ref":"#vprobe","input":{"in":"=$activity[tskA].out"}}},
{"id":"tskC","name":"tskC","type":"doWhile","settings":{"doWhile":{"condition":"=$flow.x == 5","delay":"2"},"accumulate":true},"activity":{"type":"vprobe","ref":"","input":{"b":7}}},
{"id":"tskD","name":"tskD","type":"iterator","settings":{"iterate":[1,2],"accumulate":false},"activity":{"ref":"PROBE"}},
{"id":"tskE","name":"tskE","type":"basic","settings":{"retryOnError":{"count":3,"interval":"=$flow.x"},"other":"=$flow.x","plain":"v"},"activity":{"ref":"SUB","input":{"p":"=$flow.x","q":1},"settings":{"flowURI":"res://flow:other"}}},
{"id":"tskF","name":"tskF","activity":{"ref":"FAKE","settings":{"n":2},"input":{"v":1}}}],
"links":[
{"from":"tskA","to":"tskB","type":"expression","value":"$flow.x == 5","label":"1"},
{"from":"tskA","to":"tskC","type":"exprOtherwise","label":"2"},
{"from":"tskA","to":"tskD","type":"error","name":"nm"},
{"from":"tskB","to":"tskE","type":"dependency","label":"L"},
{"from":"tskC","to":"tskE","type":"label","label":"9","value":"val"},
{"from":"tskD","to":"tskE"},
{"from":"tskE","to":"tskF","type":"default"}],
"errorHandler":{"tasks":[
{"id":"hndA","name":"hndA","activity":{"ref":"PROBE","input":{"in":"=$flow.x"}}},
{"id":"hndB","name":"hndB","type":"iterator","settings":{"loopConfig":{"iterateOn":3}},"activity":{"ref":"PROBE"}},
{"id":"hndC","name":"hndC","activity":{"ref":"FAKE"}}],
"links":[{"from":"hndA","to":"hndB","type":"expression","value":"1 == 1"},{"from":"hndA","to":"hndC","type":"error"}]}}`

const base20medium = `{"name":"flw-main",
"metadata":{"input":[{"name":"x","type":"int"}],"output":[{"name":"r","type":"any"}]},
"tasks":[
{"id":"tskA","name":"tskA","activity":{"ref":"PROBE","input":{"in":"=$flow.x","i":4}}},
{"id":"tskB","name":"tskB","type":"iterator","settings":{"loopConfig":{"iterateOn":"=$flow.x","condition":"$flow.x == 5","delay":3,"accumulate":true}},"activity":{"ref":"PROBE"}},
{"id":"tskC","name":"tskC","type":"doWhile","settings":{"doWhile":{"condition":"=$flow.x == 5"},"accumulate":true,"retryOnError":{"count":3,"interval":"=$flow.x"}},"activity":{"ref":"PROBE"}}],
"links":[
{"from":"tskA","to":"tskB","type":"expression","value":"$flow.x == 5","label":"1"},
{"from":"tskA","to":"tskC","type":"exprOtherwise","label":"2"}],
"errorHandler":{"tasks":[
{"id":"hndA","name":"hndA","activity":{"ref":"PROBE"}},
{"id":"hndB","name":"hndB","activity":{"ref":"FAKE"}}],
"links":[{"from":"hndA","to":"hndB","type":"expression","value":"1 == 1"}]}}`

const base20small = `{"name":"flw-main",
"tasks":[
{"id":"tskA","name":"tskA","type":"iterator","settings":{"loopConfig":{"iterateOn":"=$flow.x","accumulate":true}},"activity":{"ref":"PROBE","input":{"in":"=$flow.x"}}},
{"id":"tskB","name":"tskB","settings":{"retryOnError":{"count":3}},"activity":{"ref":"PROBE"}}],
"links":[
{"from":"tskA","to":"tskB","type":"expression","value":"$flow.x == 5","label":"1"}],
"errorHandler":{"tasks":[
{"id":"hndA","name":"hndA","activity":{"ref":"PROBE"}}]}}`

var domain20 = []any{
	nil, true, false, 7.0, -1.0, "", "=", "nosuch", "x y", "1 ==", "=1 ==", "=$flow.x", "$flow.x == 5", "1 == 1",
	"tskA", "tskB", "hndA", []any{}, mp{}, []any{1.0}, mp{"a": 1.0}, mp{"condition": "1 ==", "iterateOn": "=$flow.x"},
	"iterator", "doWhile", "basic", "expression", "error", "exprOtherwise", "label", "dependency", "default", "0", "1", "2", "3", "4", "true", "string", "#vprobe", "#nosuch", "FAKE",
}

// ---- deviations

type dev20 struct {
	path []any // string keys and int indexes
	op   string
	val  any
}

func (d dev20) String() string {
	v, _ := json.Marshal(d.val)
	return fmt.Sprintf("%v %s %s", d.path, d.op, v)
}

func deep20(v any) any {
	switch t := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[k] = deep20(x)
		}
		return m
	case []any:
		l := make([]any, len(t))
		for i, x := range t {
			l[i] = deep20(x)
		}
		return l
	}
	return v
}

func (d dev20) apply(root any) (any, bool) {
	if len(d.path) == 0 {
		return deep20(d.val), true
	}
	var rec func(v any, p []any) (any, bool)
	rec = func(v any, p []any) (any, bool) {
		switch k := p[0].(type) {
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return v, false
			}
			x, ok := m[k]
			if !ok {
				return v, false
			}
			if len(p) > 1 {
				y, ok := rec(x, p[1:])
				m[k] = y
				return m, ok
			}
			switch d.op {
			case "del":
				delete(m, k)
			case "set":
				m[k] = deep20(d.val)
			default:
				return v, false
			}
			return m, true
		case int:
			l, ok := v.([]any)
			if !ok || k >= len(l) {
				return v, false
			}
			if len(p) > 1 {
				y, ok := rec(l[k], p[1:])
				l[k] = y
				return l, ok
			}
			switch d.op {
			case "del":
				l = append(l[:k:k], l[k+1:]...)
			case "set":
				l[k] = deep20(d.val)
			case "dup":
				l = append(l[:k+1:k+1], append([]any{deep20(l[k])}, l[k+1:]...)...)
			case "swap":
				if k+1 >= len(l) {
					return v, false
				}
				l[k], l[k+1] = l[k+1], l[k]
			}
			return l, true
		}
		return v, false
	}
	return rec(root, d.path)
}

// devs20 lists every deviation of a definition, in a fixed order.
func devs20(v any) []dev20 {
	var out []dev20
	var rec func(v any, path []any)
	at := func(path []any, idx bool) {
		p := append([]any(nil), path...)
		out = append(out, dev20{p, "del", nil})
		if idx {
			out = append(out, dev20{p, "dup", nil}, dev20{p, "swap", nil})
		}
		for _, x := range domain20 {
			if s, ok := x.(string); ok && s == "FAKE" {
				x = fakeact.Ref
			}
			out = append(out, dev20{p, "set", x})
		}
	}
	rec = func(v any, path []any) {
		switch t := v.(type) {
		case map[string]any:
			ks := make([]string, 0, len(t))
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				at(append(path, k), false)
				rec(t[k], append(path, k))
			}
		case []any:
			for i := range t {
				at(append(path, i), true)
				rec(t[i], append(path, i))
			}
		}
	}
	rec(v, nil)
	return out
}

// ---- the independent reading

type open20 struct{} // any value

type exp20 struct {
	must []string // reasons for which it has to be rejected
	may  bool     // may be rejected
}

func (e *exp20) bad(f string, a ...any) { e.must = append(e.must, fmt.Sprintf(f, a...)) }

// expr20 is what is known about an expression.
func expr20(s string) (val any, known, bad bool) {
	switch s {
	case "$flow.x":
		return 5, true, false
	case "$flow.x == 5", "1 == 1":
		return true, true, false
	case "$activity[tskA].out":
		return "outA", true, false
	case "1 ==", "x y":
		return nil, false, true
	}
	return open20{}, false, false
}

// mapped20 is the value a mapping yields.
func (e *exp20) mapped(where string, v any) any {
	s, ok := v.(string)
	if !ok {
		if v == nil {
			return open20{}
		}
		if m, ok := v.(map[string]any); ok {
			for k := range m {
				if k == "mapping" || strings.HasPrefix(k, "@") {
					return open20{}
				}
			}
		}
		return v
	}
	if s == "" || s[0] != '=' {
		return s
	}
	x, known, bad := expr20(s[1:])
	if bad {
		e.bad("%s: invalid expression", where)
	}
	if !known {
		e.may = true
	}
	return x
}

func (e *exp20) str(where string, m map[string]any, k string) string {
	v, ok := m[k]
	if !ok || v == nil {
		return ""
	}
	s, ok := v.(string)
	if !ok {
		e.bad("%s.%s is not a string", where, k)
	}
	return s
}

// obj is an optional object.
func (e *exp20) obj(where string, v any) map[string]any {
	if v == nil {
		return nil
	}
	m, ok := v.(map[string]any)
	if !ok {
		e.bad("%s is not an object", where)
	}
	return m
}

func (e *exp20) list(where string, v any) []any {
	if v == nil {
		return nil
	}
	m, ok := v.([]any)
	if !ok {
		e.bad("%s is not a list", where)
	}
	return m
}

func (e *exp20) integer(where string, v any) any {
	switch t := v.(type) {
	case nil:
		return 0
	case float64:
		return int(t)
	case string:
		n, err := strconv.Atoi(t)
		if err != nil {
			e.bad("%s is not an integer", where)
		}
		return n
	case bool:
		e.may = true
		return open20{}
	}
	e.bad("%s is not an integer", where)
	return nil
}

func (e *exp20) flowExpr(where, s string) any {
	if s != "" && s[0] == '=' {
		s = s[1:]
	}
	x, known, bad := expr20(s)
	if bad {
		e.bad("%s: invalid expression", where)
	}
	if !known {
		e.may = true
	}
	return x
}

// lobj is an object that a setting holds, possibly as JSON text.
func (e *exp20) lobj(where string, v any) (map[string]any, bool) {
	switch t := v.(type) {
	case nil:
		e.may = true
		return nil, true
	case map[string]any:
		return t, true
	case string:
		if t == "" {
			e.may = true
			return nil, true
		}
	}
	e.bad("%s is not an object", where)
	return nil, false
}

func (e *exp20) loop(where string, settings map[string]any, typ string) any {
	m, accOuter, hasOuter, nested := settings, any(nil), false, false
	if v, ok := settings["loopConfig"]; ok {
		m, ok = e.lobj(where+" loopConfig", v)
		nested = true
		if !ok {
			return open20{}
		}
	} else if v, ok := settings["doWhile"]; ok {
		m, ok = e.lobj(where+" doWhile", v)
		nested = true
		if !ok {
			return open20{}
		}
		accOuter, hasOuter = settings["accumulate"]
	}
	out := mp{}
	sub := exp20{}
	var cond, over any
	switch c := m["condition"].(type) {
	case nil:
		if _, ok := m["condition"]; ok {
			sub.may = true
		}
	case string:
		if c != "" {
			cond = sub.flowExpr(where+" condition", c)
			if c == "=" {
				cond = open20{}
			}
		}
	default:
		sub.bad("%s: condition is not an expression", where)
	}
	ov := m["iterateOn"]
	if ov == nil {
		ov = m["iterate"]
	}
	switch o := ov.(type) {
	case nil:
	case string:
		if o == "" {
			sub.bad("%s: empty iterateOn", where)
		} else {
			over = sub.flowExpr(where+" iterateOn", o)
		}
	default:
		over = mp{"raw": o}
	}
	if s, ok := m["delay"].(string); ok && s != "" && s[0] == '=' {
		sub.may = true
		out["delay"] = open20{}
	} else {
		out["delay"] = sub.integer(where+" delay", m["delay"])
	}
	acc := func(v any, was any) any {
		switch t := v.(type) {
		case nil:
			return false
		case bool:
			return t
		case float64:
			sub.may = true
			return open20{}
		case string:
			b, err := strconv.ParseBool(t)
			if err != nil {
				sub.bad("%s: accumulate is not a boolean", where)
			}
			return b
		}
		sub.bad("%s: accumulate is not a boolean", where)
		return was
	}
	out["accumulate"] = acc(m["accumulate"], false)
	if hasOuter {
		out["accumulate"] = acc(accOuter, out["accumulate"])
	}
	none := cond == nil && over == nil
	// the settings of a task that does not loop are not a loop's
	if (none || (!nested && typ != "iterator" && typ != "doWhile")) && len(sub.must) > 0 {
		e.may = true
	} else {
		e.must = append(e.must, sub.must...)
	}
	e.may = e.may || sub.may
	if none {
		if len(sub.must) > 0 {
			return open20{}
		}
		return nil
	}
	out["condition"], out["over"], out["acc"] = cond, over, typ == "doWhile"
	return out
}

func (e *exp20) retry(where string, settings map[string]any) any {
	v, ok := settings["retryOnError"]
	if !ok {
		return nil
	}
	m, ok := e.lobj(where+" retryOnError", v)
	if !ok || m == nil {
		return open20{}
	}
	num := func(k string) any {
		if s, ok := m[k].(string); ok && s != "" && s[0] == '=' {
			x := e.flowExpr(where+" "+k, s)
			if _, ok := x.(int); !ok {
				return open20{}
			}
			return x
		}
		return e.integer(where+" "+k, m[k])
	}
	return mp{"count": num("count"), "interval": num("interval")}
}

var kinds20 = map[string]string{"": "dep", "default": "dep", "dependency": "dep", "0": "dep", "expression": "expr", "1": "expr",
	"label": "label", "2": "label", "error": "error", "3": "error", "exprOtherwise": "otherwise", "4": "otherwise"}

func (e *exp20) body(where string, tv, lv any, def mp) (mp, []any) {
	tasks := mp{}
	for i, v := range e.list(where+" tasks", tv) {
		w := fmt.Sprintf("%s task %d", where, i)
		m, ok := v.(map[string]any)
		if !ok {
			e.bad("%s is not an object", w)
			continue
		}
		id := e.str(w, m, "id")
		if id == "" {
			e.may = true
		}
		if _, dup := tasks[id]; dup {
			e.bad("%s: duplicate id %q", w, id)
		}
		typ := e.str(w, m, "type")
		switch typ {
		case "", "basic", "iterator", "doWhile":
		default:
			e.bad("%s: unknown type", w)
		}
		if typ != "" && def["model"] != "" {
			e.bad("%s: typed task of an unknown model", w)
		}
		settings := e.obj(w+" settings", m["settings"])
		t := mp{"id": id, "name": e.str(w, m, "name"), "type": typ, "loop": e.loop(w, settings, typ), "retry": e.retry(w, settings)}
		sm := mp{}
		for k, v := range settings {
			sm[k] = e.mapped(w+" setting "+k, v)
		}
		t["settings"] = sm
		t["activity"] = e.activity(w+" activity", m["activity"], def)
		tasks[id] = t
	}
	var links []any
	for i, v := range e.list(where+" links", lv) {
		w := fmt.Sprintf("%s link %d", where, i)
		m, ok := v.(map[string]any)
		if !ok {
			e.bad("%s is not an object", w)
			continue
		}
		from, to := e.str(w, m, "from"), e.str(w, m, "to")
		if tasks[from] == nil || tasks[to] == nil {
			e.bad("%s names an unknown task", w)
		}
		e.str(w, m, "name")
		typ, value := e.str(w, m, "type"), e.str(w, m, "value")
		kind, known := kinds20[typ]
		l := mp{"from": from, "to": to, "value": value, "label": e.str(w, m, "label"), "kind": kind, "expr": nil}
		if !known {
			l["kind"] = "dep"
			e.may = true
		}
		if kind == "expr" {
			x, known, bad := expr20(value)
			if bad || value == "" {
				e.bad("%s: invalid expression %q", w, value)
			}
			if !known {
				e.may = true
			}
			l["expr"] = x
		}
		links = append(links, l)
	}
	return tasks, links
}

func (e *exp20) activity(where string, v any, def mp) any {
	if v == nil {
		e.bad("%s is missing", where)
		return nil
	}
	m := e.obj(where, v)
	ref, typ := e.str(where, m, "ref"), e.str(where, m, "type")
	if ref == "" && typ != "" {
		ref = "#" + typ
	}
	if ref == "#vprobe" {
		ref = rig.ProbeRef
	}
	switch ref {
	case fakeact.Ref:
		def["explicit"] = true
	case rig.ProbeRef, rig.SubRef:
	default:
		e.bad("%s: unknown activity %q", where, ref)
	}
	a := mp{"ref": ref, "settings": mp{}, "input": mp{}, "output": mp{}}
	for k, v := range e.obj(where+" settings", m["settings"]) {
		x := v
		if s, ok := v.(string); ok && s != "" && s[0] == '=' {
			var bad, known bool
			x, known, bad = expr20(s[1:])
			if bad {
				e.bad("%s: setting %s: invalid expression", where, k)
			}
			if !known || strings.Contains(s, "$") {
				e.may, x = true, open20{}
			}
		}
		switch {
		case ref == fakeact.Ref && k == "n":
			if _, isOpen := x.(open20); isOpen {
			} else if _, isBool := x.(bool); isBool {
				e.may, x = true, open20{}
			} else {
				x = e.integer(where+" setting n", x)
			}
		case ref == rig.SubRef:
			e.may = e.may || x == nil
			if _, ok := x.(string); !ok {
				e.may, x = true, open20{}
			}
		}
		a["settings"].(mp)[k] = x
	}
	if ref == rig.SubRef {
		if s, _ := m["settings"].(map[string]any); s == nil || s["flowURI"] == nil || s["flowURI"] == "" {
			e.may = true
		}
	}
	in := e.obj(where+" input", m["input"])
	for k, v := range in {
		if s, ok := v.(string); ok && s != "" && s[0] == '=' {
			a["input"].(mp)[k] = e.mapped(where+" input "+k, v)
			continue
		}
		x := e.mapped(where+" input "+k, v)
		if ref == rig.ProbeRef {
			switch k {
			case "i":
				x = e.integer(where+" input i", v)
				if v == nil {
					x = open20{}
				}
			case "s":
				if _, ok := v.(string); !ok {
					x = open20{}
				}
			}
		}
		a["input"].(mp)[k] = x
	}
	for k, v := range e.obj(where+" output", m["output"]) {
		a["output"].(mp)[k] = v
		if v == nil {
			a["output"].(mp)[k] = open20{}
		}
	}
	return a
}

var types20 = map[string]bool{"unknown": true, "any": true, "string": true, "int": true, "int32": true, "int64": true, "float32": true, "float64": true,
	"bool": true, "object": true, "bytes": true, "datetime": true, "array": true, "params": true, "map": true, "connection": true, "integer": true, "long": true, "double": true, "boolean": true, "number": true, "float": true}

func (e *exp20) params(where string, v any) mp {
	out := mp{}
	for i, x := range e.list(where, v) {
		w := fmt.Sprintf("%s %d", where, i)
		m, ok := x.(map[string]any)
		if !ok {
			e.bad("%s is not an object", w)
			continue
		}
		n, t := e.str(w, m, "name"), e.str(w, m, "type")
		p := mp{"type": t, "value": open20{}}
		if _, dup := out[n]; dup || n == "" {
			e.may = true
			p = mp{"type": open20{}, "value": open20{}}
		} else if t == "" {
			e.may = true
			p["type"] = open20{}
		} else if !types20[t] {
			e.bad("%s: unknown type %q", w, t)
		}
		switch val := m["value"].(type) {
		case nil:
		case string:
			switch t {
			case "string", "any":
				p["value"] = val
			case "int":
				p["value"] = e.integer(w+" value", val)
			default:
				e.may = true
			}
		default:
			if t == "any" {
				p["value"] = val
			} else if n, ok := val.(float64); ok && t == "int" {
				p["value"] = int(n)
			} else {
				e.may = true
			}
		}
		out[n] = p
	}
	return out
}

// read20 says what a definition's JSON describes.
func read20(v any) (mp, *exp20) {
	e := &exp20{}
	root, ok := v.(map[string]any)
	if !ok {
		e.bad("not an object")
		return nil, e
	}
	d := mp{"explicit": false}
	d["name"], d["model"] = e.str("flow", root, "name"), e.str("flow", root, "model")
	switch b := root["explicitReply"].(type) {
	case nil:
	case bool:
		d["explicit"] = b
	default:
		e.bad("explicitReply is not a boolean")
	}
	md := e.obj("metadata", root["metadata"])
	if md == nil {
		d["metadata"] = nil
	} else {
		d["metadata"] = mp{"input": e.params("metadata input", md["input"]), "output": e.params("metadata output", md["output"])}
	}
	d["tasks"], d["links"] = e.body("flow", root["tasks"], root["links"], d)
	if h := e.obj("errorHandler", root["errorHandler"]); h != nil {
		t, l := e.body("handler", h["tasks"], h["links"], d)
		d["handler"] = mp{"tasks": t, "links": l}
	} else {
		d["handler"] = nil
	}
	return d, e
}

// ---- reading the loaded definition back

type scope20 struct{}

func (scope20) GetValue(n string) (interface{}, bool) {
	switch n {
	case "x":
		return 5, true
	case "_A.tskA.out":
		return "outA", true
	}
	return nil, false
}
func (scope20) SetValue(n string, v interface{}) error { return nil }

var _ data.Scope = scope20{}

func ev20(x expression.Expr) (v any) {
	defer func() {
		if p := recover(); p != nil {
			v = fmt.Sprintf("panic: %v", p)
		}
	}()
	v, err := x.Eval(scope20{})
	if err != nil {
		return "error: " + err.Error()
	}
	return v
}

func apply20(m mapper.Mapper) (out mp) {
	out = mp{}
	if m == nil || reflect.ValueOf(m).IsNil() {
		return
	}
	defer func() {
		if p := recover(); p != nil {
			out["!"] = fmt.Sprintf("panic: %v", p)
		}
	}()
	r, err := m.Apply(scope20{})
	if err != nil {
		out["!"] = "error: " + err.Error()
	}
	for k, v := range r {
		out[k] = v
	}
	return
}

func dumpTask20(t *definition.Task, want any) mp {
	d := mp{"id": t.ID(), "name": t.Name(), "type": t.TypeID(), "loop": nil, "retry": nil, "activity": nil}
	if l := t.LoopConfig(); l != nil {
		x := mp{"condition": nil, "over": nil, "delay": l.Delay(), "accumulate": l.Accumulate(), "acc": l.ApplyOutputOnAccumulate()}
		if l.Condition() != nil {
			x["condition"] = ev20(l.Condition())
		}
		switch o := l.GetIterateOn().(type) {
		case nil:
		case expression.Expr:
			x["over"] = ev20(o)
		default:
			x["over"] = mp{"raw": o}
		}
		d["loop"] = x
	}
	if r := t.RetryOnErrConfig(); r != nil && !reflect.ValueOf(r).IsNil() {
		x := mp{}
		c, err := r.Count(scope20{})
		x["count"] = c
		if err != nil {
			x["count"] = "error: " + err.Error()
		}
		c, err = r.Interval(scope20{})
		x["interval"] = c
		if err != nil {
			x["interval"] = "error: " + err.Error()
		}
		d["retry"] = x
	}
	d["settings"] = apply20(t.SettingsMapper())
	if a := t.ActivityConfig(); a != nil {
		x := mp{"ref": a.Ref(), "settings": mp{}, "output": mp{}, "input": apply20(a.InputMapper())}
		// there is no accessor for the names
		if w, ok := want.(mp); ok {
			if w, ok := w["activity"].(mp); ok {
				for k := range w["settings"].(mp) {
					if v, ok := a.GetSetting(k); ok {
						x["settings"].(mp)[k] = v
					}
				}
				for k := range w["output"].(mp) {
					x["output"].(mp)[k] = a.GetOutput(k)
				}
			}
		}
		d["activity"] = x
	}
	return d
}

var kindName20 = map[definition.LinkType]string{definition.LtDependency: "dep", definition.LtExpression: "expr", definition.LtLabel: "label", definition.LtError: "error", definition.LtExprOtherwise: "otherwise"}

func dumpLink20(l *definition.Link) mp {
	d := mp{"from": l.FromTask().ID(), "to": l.ToTask().ID(), "kind": kindName20[l.Type()], "label": l.Label(), "value": l.Value(), "expr": nil}
	if l.Expr() != nil {
		d["expr"] = ev20(l.Expr())
	}
	return d
}

// links20 collects the links of tasks as their ends see them.
func links20(tasks []*definition.Task) ([]any, map[int]*definition.Link, error) {
	ids := map[int]*definition.Link{}
	n := 0
	for _, t := range tasks {
		for _, l := range t.ToLinks() {
			if l.FromTask() != t {
				return nil, nil, fmt.Errorf("%s is not a link of task %s", l, t.ID())
			}
			if ids[l.ID()] != nil {
				return nil, nil, fmt.Errorf("two links with id %d", l.ID())
			}
			ids[l.ID()] = l
		}
	}
	seen := map[*definition.Link]int{}
	for _, t := range tasks {
		for _, l := range t.FromLinks() {
			if l.ToTask() != t || ids[l.ID()] != l {
				return nil, nil, fmt.Errorf("%s is not a link into task %s", l, t.ID())
			}
			if seen[l]++; seen[l] > 1 {
				return nil, nil, fmt.Errorf("%s occurs twice at task %s", l, t.ID())
			}
			n++
		}
	}
	if n != len(ids) {
		return nil, nil, fmt.Errorf("%d links leave tasks, %d enter", len(ids), n)
	}
	var order []int
	for id := range ids {
		order = append(order, id)
	}
	sort.Ints(order)
	var out []any
	for _, id := range order {
		out = append(out, dumpLink20(ids[id]))
	}
	return out, ids, nil
}

func dump20(d *definition.Definition, want mp) (mp, error) {
	out := mp{"name": d.Name(), "model": d.ModelID(), "explicit": d.ExplicitReply(), "metadata": nil, "handler": nil}
	if m := d.Metadata(); m != nil {
		f := func(ps map[string]data.TypedValue) mp {
			o := mp{}
			for k, v := range ps {
				o[k] = mp{"type": v.Type().String(), "value": v.Value()}
			}
			return o
		}
		out["metadata"] = mp{"input": f(m.Input), "output": f(m.Output)}
	}
	tasksOf := func(ts []*definition.Task, w any, get func(string) *definition.Task) (mp, error) {
		o := mp{}
		wm, _ := w.(mp)
		for _, t := range ts {
			if get(t.ID()) != t {
				return nil, fmt.Errorf("GetTask(%q) is not the task of that id", t.ID())
			}
			o[t.ID()] = dumpTask20(t, wm[t.ID()])
		}
		return o, nil
	}
	var err error
	if out["tasks"], err = tasksOf(d.Tasks(), want["tasks"], d.GetTask); err != nil {
		return nil, err
	}
	ls, ids, err := links20(d.Tasks())
	if err != nil {
		return nil, err
	}
	out["links"] = ls
	if len(d.Links()) != len(ids) {
		return nil, fmt.Errorf("Links() has %d links, tasks have %d", len(d.Links()), len(ids))
	}
	for id, l := range ids {
		if d.GetLink(id) != l {
			return nil, fmt.Errorf("GetLink(%d) is not %s", id, l)
		}
	}
	if h := d.GetErrorHandler(); h != nil {
		hm := mp{}
		wh, _ := want["handler"].(mp)
		if hm["tasks"], err = tasksOf(h.Tasks(), wh["tasks"], h.GetTask); err != nil {
			return nil, err
		}
		ls, hids, err := links20(h.Tasks())
		if err != nil {
			return nil, err
		}
		for id := range hids {
			if ids[id] != nil {
				return nil, fmt.Errorf("the body and the handler both have a link %d", id)
			}
		}
		hm["links"] = ls
		out["handler"] = hm
	}
	return out, nil
}

// differ20 compares, leaving open what is open.
func differ20(where string, want, got any) string {
	if _, ok := want.(open20); ok {
		return ""
	}
	switch w := want.(type) {
	case mp:
		g, ok := got.(mp)
		if !ok {
			return fmt.Sprintf("%s: want %v, got %v", where, want, got)
		}
		anyOpen := false
		for k, v := range w {
			if _, ok := v.(open20); ok {
				anyOpen = true
			}
			gv, has := g[k]
			if !has && v != nil {
				if _, ok := v.(open20); ok {
					continue
				}
				if g["!"] != nil {
					continue
				}
				return fmt.Sprintf("%s.%s is missing", where, k)
			}
			if s := differ20(where+"."+k, v, gv); s != "" {
				return s
			}
		}
		for k, v := range g {
			if _, ok := w[k]; !ok {
				if k == "!" && anyOpen {
					continue
				}
				return fmt.Sprintf("%s.%s: not described, is %v", where, k, v)
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && got == nil && len(w) == 0 {
			return ""
		}
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: want %v, got %v", where, want, got)
		}
		for i := range w {
			if s := differ20(fmt.Sprintf("%s[%d]", where, i), w[i], g[i]); s != "" {
				return s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(norm20(want), norm20(got)) {
		return fmt.Sprintf("%s: want %v, got %v", where, want, got)
	}
	return ""
}

func norm20(v any) any {
	switch t := v.(type) {
	case map[string]any:
		return fmt.Sprint(t)
	case int:
		return float64(t)
	case int64:
		return float64(t)
	}
	return v
}

const id20 = "flow:res-20"

func load20(text []byte) (def *definition.Definition, err error, panicked any) {
	defer func() {
		if p := recover(); p != nil {
			panicked = p
		}
	}()
	res, err := resource.GetLoader("flow").LoadResource(&resource.Config{ID: id20, Data: append([]byte(nil), text...)})
	if err != nil {
		return nil, err, nil
	}
	if res == nil {
		return nil, nil, nil
	}
	d, _ := res.Object().(*definition.Definition)
	return d, nil, nil
}

func (w *W) case20(text []byte, how string) {
	var v any
	var want mp
	e := &exp20{}
	if err := json.Unmarshal(text, &v); err != nil {
		e.bad("not JSON")
	} else {
		want, e = read20(v)
	}
	w.R.Evals++
	w.Distinct(string(text))
	def, err, p := load20(text)
	scen := mp{"deviations": how, "definition": string(text)}
	key, msg := "", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				key, msg = "unusable", fmt.Sprintf("reading the definition back panics: %v", r)
			}
		}()
		switch {
		case p != nil:
			key, msg = "panic", fmt.Sprintf("loading panics: %v", p)
		case err != nil:
			w.Count("rejected", 1)
			if len(e.must) == 0 && !e.may {
				key, msg = "rejected", "a valid definition is rejected: "+err.Error()
				return
			}
			name, _ := want["name"].(string)
			if s := err.Error(); !strings.Contains(s, id20) && !strings.Contains(s, "res-20") && (name == "" || !strings.Contains(s, name)) {
				key, msg = "anonymous", "the error does not say which flow is at fault: "+s
			}
		case def == nil:
			key, msg = "nothing", "loading yields neither a definition nor an error"
		case len(e.must) > 0:
			key, msg = "accepted", "an invalid definition is accepted: "+strings.Join(e.must, "; ")
		default:
			w.Count("accepted", 1)
			got, err := dump20(def, want)
			if err != nil {
				key, msg = "inconsistent", err.Error()
				return
			}
			if s := differ20("", want, got); s != "" {
				key, msg = "unfaithful", "the loaded definition is not the one described: "+s
			}
		}
	}()
	if key == "" {
		return
	}
	w.Violate(key+": "+strings.SplitN(msg, ":", 2)[0], msg, scen)
}

func base20(s string) any {
	s = strings.NewReplacer("PROBE", rig.ProbeRef, "SUB", rig.SubRef, "FAKE", fakeact.Ref).Replace(s)
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	return v
}

func run20(w *W) {
	if !reg20 {
		reg20 = true
		_ = activity.Register(&fakeact.Act{})
		_ = coresupport.RegisterAlias("activity", "vprobe", rig.ProbeRef)
	}
	enc := func(v any) []byte {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	one := func(root any, d dev20) {
		if v, ok := d.apply(deep20(root)); ok {
			w.case20(enc(v), d.String())
		}
	}
	for _, s := range []string{"null", "", "[]", "7", `"x"`, "{}", "{", "true", `{"name":"flw-main"}`} {
		if w.Next() {
			w.case20([]byte(s), "text")
		}
	}
	bases := []string{base20rich, base20medium, base20small}
	for _, b := range bases {
		root := base20(b)
		if w.Next() {
			w.case20(enc(root), "the base")
			w.Sample(mp{"definition": string(enc(root))})
		}
		for _, d := range devs20(root) {
			if w.Next() {
				one(root, d)
			}
		}
		text := enc(root)
		for i := range text {
			if w.Next() {
				w.case20(text[:i], "prefix")
			}
			if w.Next() {
				w.case20(append(append([]byte(nil), text[:i]...), text[i+1:]...), "byte left out")
			}
		}
	}
	pairs := []string{base20small}
	if !w.Quick() {
		pairs = append(pairs, base20medium)
	}
	for _, b := range pairs {
		root := base20(b)
		ds := devs20(root)
		for i := range ds {
			if w.Stopped() {
				return
			}
			for j := i + 1; j < len(ds); j++ {
				if isPrefix20(ds[i].path, ds[j].path) {
					continue // replaced or removed by the other one
				}
				if !w.Next() {
					continue
				}
				v, ok := ds[j].apply(deep20(root))
				if !ok {
					continue
				}
				if v, ok = ds[i].apply(v); ok {
					w.case20(enc(v), ds[i].String()+" and "+ds[j].String())
				}
			}
		}
	}
}

func isPrefix20(a, b []any) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
