package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"

	"verif.local/vmc/rig"
	"verif.local/vmc/vsched"
)

func init() {
	register(&Check{
		ID: "C21", Sched: true,
		Assume: []string{
			"the scheduler interleaves at every statement of the flow's support package, at its locks and inside the provider",
			"left open: https URIs, contents that are valid in more than one way (a compressed body that no header announces)",
		},
		Rule: "(1) every sequence of lookups of two URIs with every outcome of each provider call, (2) every schedule within the preemption bound of concurrent lookups with every outcome of each provider call, (3) the built-in provider with every encoding (file plain / gzip, HTTP plain / compressed) of valid contents, every truncation and single-byte corruption of them, HTTP statuses, broken bodies, unreachable hosts and malformed URIs, each twice with the content repaired in between; distinct by scenario",
		Bounds: func(tier string) string {
			if tier == "quick" {
				return "(1) 4 lookups, (2) 2 goroutines x up to 2 lookups, 2 preemptions (1 with four lookups), and 3 x 1, 2 preemptions, (3) one corruption per byte"
			}
			return "(1) 5 lookups, (2) 2 goroutines x up to 2 lookups, 3 preemptions (2 with four lookups), and 3 x up to 2, 2 preemptions, (3) eight corruptions per byte"
		},
		Run: run21,
	})
}

// ---- a provider under the explorer's control

const (
	okDef = iota
	provErr
	provNil
	badDef
	provPanic
	nOutcomes21
)

var outNames21 = []string{"ok", "error", "nothing", "invalid definition", "panic"}

type call21 struct {
	uri     string
	out     int
	name    string
	running bool
}

type prov21 struct {
	choose func(n int) int
	outs   int
	calls  []*call21
	begun  map[string]int
}

func (p *prov21) GetFlow(uri string) (*definition.DefinitionRep, error) {
	c := &call21{uri: uri, running: true}
	p.calls = append(p.calls, c)
	defer func() { c.running = false }()
	n := 0
	for _, x := range p.calls {
		if x.uri == uri {
			n++
		}
	}
	c.name = fmt.Sprintf("%s call %d", uri, n)
	c.out = p.choose(p.outs)
	if vsched.S != nil {
		vsched.Yield()
	}
	switch c.out {
	case provErr:
		return nil, errors.New("scripted")
	case provNil:
		return nil, nil
	case badDef:
		return &definition.DefinitionRep{Name: c.name, Tasks: []*definition.TaskRep{{ID: "A", Type: "nosuchtype"}}}, nil
	case provPanic:
		panic("scripted provider panic")
	}
	return &definition.DefinitionRep{Name: c.name}, nil
}

type look21 struct {
	uri        string
	def        *definition.Definition
	err        error
	panicked   any
	callsFrom  int // provider calls begun before the lookup began
	callsTo    int
	startedAt  int
	finishedAt int
}

var clock21 int

func lookup21(fm *flowsupport.FlowManager, p *prov21, uri string) (l *look21) {
	l = &look21{uri: uri, callsFrom: len(p.calls)}
	clock21++
	l.startedAt = clock21
	defer func() {
		if r := recover(); r != nil {
			l.panicked = r
		}
		l.callsTo = len(p.calls)
		clock21++
		l.finishedAt = clock21
	}()
	l.def, l.err = fm.GetFlow(uri)
	return
}

// verdict21 judges a history of lookups.
func verdict21(p *prov21, ls []*look21) (string, string) {
	good := map[string]*call21{}
	for _, c := range p.calls {
		if g := good[c.uri]; g != nil {
			return "loaded again", fmt.Sprintf("%s is asked of the provider again (%s) although it was loaded (%s)", c.uri, c.name, g.name)
		}
		if c.out == okDef {
			good[c.uri] = c
		}
	}
	ptr := map[string]*definition.Definition{}
	for i, l := range ls {
		switch {
		case l.panicked != nil:
			if fmt.Sprint(l.panicked) != "scripted provider panic" {
				return "panic", fmt.Sprintf("lookup %d of %s panics: %v", i, l.uri, l.panicked)
			}
		case l.err == nil && l.def == nil:
			return "nothing", fmt.Sprintf("lookup %d of %s yields neither a definition nor an error", i, l.uri)
		case l.err != nil && l.def != nil:
			return "both", fmt.Sprintf("lookup %d of %s yields a definition and an error", i, l.uri)
		case l.def != nil:
			g := good[l.uri]
			if g == nil || l.def.Name() != g.name {
				return "wrong definition", fmt.Sprintf("lookup %d of %s yields the definition %q", i, l.uri, l.def.Name())
			}
			if q := ptr[l.uri]; q != nil && q != l.def {
				return "two definitions", fmt.Sprintf("lookups of %s yield two definitions", l.uri)
			}
			ptr[l.uri] = l.def
		}
		if l.err != nil || l.panicked != nil {
			// a failure of the provider during this lookup explains it
			ok := false
			for k, c := range p.calls {
				if c.uri == l.uri && c.out != okDef && k < l.callsTo {
					late := true
					for _, o := range ls {
						// the failing call belongs to a lookup that was over before
						if o != l && o.uri == l.uri && o.finishedAt < l.startedAt && k < o.callsTo && k >= o.callsFrom {
							late = false
						}
					}
					if late {
						ok = true
					}
				}
			}
			if !ok {
				return "failure without a cause", fmt.Sprintf("lookup %d of %s fails (%v%v) although the provider did not fail", i, l.uri, l.err, l.panicked)
			}
		}
	}
	// whoever looks up after a failure tries again
	for _, l := range ls {
		if l.def != nil {
			continue
		}
		n := 0
		for k := l.callsFrom; k < l.callsTo; k++ {
			if p.calls[k].uri == l.uri {
				n++
			}
		}
		overlap := false
		for _, o := range ls {
			if o != l && o.uri == l.uri && o.startedAt < l.startedAt && o.finishedAt > l.startedAt {
				overlap = true
			}
		}
		if n == 0 && !overlap {
			return "no new attempt", fmt.Sprintf("a lookup of %s fails without asking the provider", l.uri)
		}
	}
	return "", ""
}

func describe21(p *prov21, ls []*look21) mp {
	var cs, rs []string
	for _, c := range p.calls {
		cs = append(cs, c.name+": "+outNames21[c.out])
	}
	for _, l := range ls {
		s := l.uri + ": "
		if l.def != nil {
			s += l.def.Name()
		} else if l.err != nil {
			s += l.err.Error()
		} else {
			s += fmt.Sprint(l.panicked)
		}
		rs = append(rs, s)
	}
	return mp{"provider": cs, "lookups": rs}
}

func (w *W) seq21() {
	n := 4
	if !w.Quick() {
		n = 5
	}
	uris := []string{"mem://one", "mem://two"}
	for mask := 0; mask < 1<<n; mask++ {
		for first := 0; first < nOutcomes21; first++ {
			if !w.Next() {
				continue
			}
			// all outcomes of the provider's calls
			var rec func(prefix []int)
			rec = func(prefix []int) {
				at := 0
				var got []int
				p := &prov21{outs: nOutcomes21}
				p.choose = func(k int) int {
					x := 0
					if at < len(prefix) {
						x = prefix[at]
					}
					at++
					got = append(got, x)
					return x
				}
				fm := flowsupport.NewFlowManager(p)
				var ls []*look21
				for i := 0; i < n; i++ {
					ls = append(ls, lookup21(fm, p, uris[mask>>i&1]))
				}
				w.R.Evals++
				w.Distinct(fmt.Sprint(mask, got))
				if key, msg := verdict21(p, ls); key != "" {
					w.Violate("sequential: "+key, msg, describe21(p, ls))
					return
				}
				for i := len(prefix); i < len(got); i++ {
					for alt := 1; alt < nOutcomes21; alt++ {
						rec(append(append([]int(nil), got[:i]...), alt))
					}
				}
			}
			if first == 0 {
				rec([]int{0})
			} else {
				rec([]int{first})
			}
		}
	}
}

func (w *W) conc21() {
	type prog = [][]string
	one, two := "mem://one", "mem://two"
	var progs []prog
	for _, a := range [][]string{{one}, {one, one}, {one, two}, {two, one}} {
		for _, b := range [][]string{{one}, {one, one}, {one, two}, {two, one}, {two}} {
			progs = append(progs, prog{a, b})
		}
	}
	for _, c := range []string{one, two} {
		progs = append(progs, prog{{one}, {one}, {c}})
	}
	bound := 2
	if !w.Quick() {
		bound = 3
		progs = append(progs, prog{{one, two}, {two, one}, {one}}, prog{{one, one}, {one, two}, {one}})
	}
	for _, pr := range progs {
		looks := 0
		for _, x := range pr {
			looks += len(x)
		}
		for outs := 1; outs <= nOutcomes21; outs++ {
			if outs == provNil+1 || outs == badDef+1 {
				continue // these fail in the same way
			}
			if outs == nOutcomes21 && (looks > 2 || len(pr) > 2) && w.Quick() {
				continue
			}
			if !w.Next() {
				continue
			}
			b := bound
			if looks > 3 || (len(pr) > 2 && !w.Quick()) {
				b--
			}
			w.Schedules(b, 400000, func(r *SchedRun) bool {
				p := &prov21{outs: outs, choose: r.Data}
				fm := flowsupport.NewFlowManager(p)
				res := make([][]*look21, len(pr))
				r.Do(20000, func() {
					left := len(pr)
					for i := range pr {
						i := i
						vsched.Go(func() {
							for _, u := range pr[i] {
								res[i] = append(res[i], lookup21(fm, p, u))
							}
							left--
						})
					}
				})
				var ls []*look21
				for _, x := range res {
					ls = append(ls, x...)
				}
				w.R.Evals++
				key, msg := verdict21(p, ls)
				if key == "" && r.Outcome == "deadlock" || r.Outcome == "steplimit" {
					key, msg = "stuck", "lookups never return: "+r.Outcome
				}
				if key == "" && r.Panic != nil {
					key, msg = "panic", fmt.Sprint(r.Panic)
				}
				if key == "" && len(r.Races) > 0 {
					key, msg = "race", "lookups can crash the process: "+r.Races[0]
				}
				w.Distinct(fmt.Sprint(pr, outs, r.Trail()))
				if key != "" {
					d := describe21(p, ls)
					d["goroutines"], d["schedule"] = pr, r.Trail()
					w.Violate("concurrent: "+key, msg, d)
					return false
				}
				return true
			})
		}
	}
}

// ---- the built-in provider

func gz21(b []byte) []byte {
	var o bytes.Buffer
	z := gzip.NewWriter(&o)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

func ungz21(b []byte) ([]byte, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

// content21 says what flow a content holds; nil if none.
func content21(text []byte) (want mp, may bool) {
	var v any
	if json.Unmarshal(text, &v) != nil {
		return nil, false
	}
	m, e := read20(v)
	if len(e.must) > 0 {
		return nil, false
	}
	return m, e.may
}

type served21 struct {
	status int
	hdr    string
	body   []byte
	cut    bool // ends before what it announces
	loc    string
}

func run21(w *W) {
	w.seq21()
	w.builtin21()
	w.registry21()
	w.conc21()
}

func (w *W) builtin21() {
	dir, err := os.MkdirTemp("", "c21-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var cur served21
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
		if cur.loc != "" && !strings.HasSuffix(rq.URL.Path, "moved") {
			rw.Header().Set("Location", cur.loc)
			rw.WriteHeader(302)
			return
		}
		if cur.hdr != "" {
			rw.Header().Set("flow-compressed", cur.hdr)
		}
		if cur.cut {
			rw.Header().Set("Content-Length", strconv.Itoa(len(cur.body)+10))
		}
		if cur.status != 0 {
			rw.WriteHeader(cur.status)
		}
		rw.Write(cur.body)
	}))
	defer srv.Close()
	fileURI := func(name string) string { return "file://" + dir + "/" + strings.ReplaceAll(name, " ", "%20") }
	file := filepath.Join(dir, "my flow.json")
	one := func(kind, uri string, want mp, may, mustFail bool, note string, repair func() mp) {
		w.R.Evals++
		w.Distinct(kind + note)
		fm := flowsupport.NewFlowManager(nil)
		call := func() (d *definition.Definition, err error, p any) {
			defer func() {
				if r := recover(); r != nil {
					p = r
				}
			}()
			d, err = fm.GetFlow(uri)
			return
		}
		scen := mp{"kind": kind, "uri": uri, "content": note}
		bad := func(key, msg string) { w.Violate("built-in: "+key, msg, scen) }
		check := func(want mp, may bool) (*definition.Definition, bool) {
			d, err, p := call()
			switch {
			case p != nil:
				bad("panic", fmt.Sprintf("the lookup panics: %v", p))
				return nil, false
			case d == nil && err == nil:
				bad("nothing", "the lookup yields neither a definition nor an error")
				return nil, false
			case err != nil:
				if want != nil && !may {
					bad("failure", "there is a flow at the URI, but the lookup fails: "+err.Error())
					return nil, false
				}
				w.Count("builtin_failed", 1)
				return nil, true
			case want == nil:
				bad("success", "there is no flow at the URI, but the lookup succeeds: "+d.Name())
				return nil, false
			}
			got, err := dump20(d, want)
			if err != nil {
				bad("inconsistent", err.Error())
				return nil, false
			}
			if s := differ20("", want, got); s != "" {
				bad("unfaithful", "not the definition at the URI: "+s)
				return nil, false
			}
			w.Count("builtin_found", 1)
			return d, true
		}
		d, ok := check(want, may)
		if !ok || repair == nil {
			return
		}
		want2 := repair()
		if d == nil {
			d, ok = check(want2, false)
			if !ok {
				return
			}
		}
		if d != nil { // whatever happens at the URI later
			cur = served21{status: 500}
			os.Remove(file)
			if e, err, p := call(); e != d || err != nil || p != nil {
				bad("not cached", fmt.Sprintf("a second lookup does not yield the loaded definition: %v %v", err, p))
			}
		}
	}
	plain := []byte(strings.NewReplacer("PROBE", rig.ProbeRef, "SUB", rig.SubRef, "FAKE", rig.ProbeRef).Replace(base20small))
	var cv any
	json.Unmarshal(plain, &cv)
	plain, _ = json.Marshal(cv)
	repaired, _ := content21(plain)
	texts := map[string][]byte{
		"flow": plain, "empty": {}, "null": []byte("null"), "list": []byte("[]"), "object": []byte("{}"), "number": []byte("7"),
		"no JSON": []byte("flow"), "bad metadata": []byte(`{"name":"f","metadata":{"input":[null]}}`), "invalid flow": []byte(`{"name":"f","tasks":[{"id":"A","type":"nosuch"}]}`),
		"minimal": []byte(`{"name":"f"}`), "1f": {0x1f}, "1f8b": {0x1f, 0x8b}, "1f8b08": {0x1f, 0x8b, 8}, "space": []byte(" "), "xy": []byte("xy"),
		"base64 of JSON": []byte(base64.StdEncoding.EncodeToString(plain)), "gzip of no JSON": gz21([]byte("flow")), "gzip of nothing": gz21(nil),
	}
	// every truncation and corruption
	variants := func(name string, b []byte) {
		for i := range b {
			texts[fmt.Sprintf("%s cut to %d", name, i)] = b[:i]
			bits := []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80}
			if w.Quick() {
				bits = []byte{0x01, 0x10, 0x80}
			}
			for _, x := range bits {
				if x == 0x20 && name == "small" {
					continue // member names are read whatever their case
				}
				c := append([]byte(nil), b...)
				c[i] ^= x
				texts[fmt.Sprintf("%s with byte %d ^ %x", name, i, x)] = c
			}
		}
	}
	small := []byte(`{"name":"f","tasks":[{"id":"A","activity":{"ref":"` + rig.ProbeRef + `"}}]}`)
	texts["small"] = small
	texts["gzip"] = gz21(small)
	texts["base64 gzip"] = []byte(base64.StdEncoding.EncodeToString(gz21(small)))
	b64 := base64.StdEncoding.EncodeToString(gz21(small))
	texts["base64 gzip and junk"] = []byte(b64 + "!!!!")
	texts["base64 gzip, junk, base64"] = []byte(b64 + "!" + b64)
	texts["base64 gzip with newlines"] = []byte(b64[:20] + "\n" + b64[20:] + "\n")
	variants("small", small)
	variants("gzip", gz21(small))
	variants("base64 gzip", []byte(base64.StdEncoding.EncodeToString(gz21(small))))
	fixFile := func() mp {
		os.WriteFile(file, plain, 0o644)
		return repaired
	}
	fixHTTP := func() mp {
		cur = served21{body: plain}
		return repaired
	}
	var names []string
	for n := range texts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b := texts[n]
		// as a file
		if w.Next() {
			os.WriteFile(file, b, 0o644)
			dec := b
			var want mp
			may := false
			if len(b) > 1 && b[0] == 0x1f && b[1] == 0x8b {
				u, err := ungz21(b)
				dec = u
				if err == nil {
					want, may = content21(dec)
				}
			} else {
				want, may = content21(dec)
			}
			one("file", fileURI("my flow.json"), want, may, false, n, fixFile)
		}
		for _, hdr := range []string{"", "true", "TRUE", "false"} {
			if !w.Next() {
				continue
			}
			cur = served21{hdr: hdr, body: b}
			var want mp
			may := false
			if strings.EqualFold(hdr, "true") {
				d, err := base64.StdEncoding.DecodeString(string(b))
				if err == nil {
					if d, err = ungz21(d); err == nil {
						want, may = content21(d)
					}
				}
			} else {
				want, may = content21(b)
				if len(b) > 1 && b[0] == 0x1f && b[1] == 0x8b && want == nil {
					if u, err := ungz21(b); err == nil {
						if want, _ = content21(u); want != nil {
							may = true // compressed without saying so
						}
					}
				}
			}
			one("http "+hdr, srv.URL+"/flow", want, may, false, n, fixHTTP)
		}
	}
	for _, st := range []int{200, 201, 202, 203, 206, 300, 301, 304, 307, 400, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 504} {
		for _, hdr := range []string{"", "true"} {
			if !w.Next() {
				continue
			}
			body := plain
			if hdr != "" {
				body = []byte(base64.StdEncoding.EncodeToString(gz21(plain)))
			}
			cur = served21{status: st, body: body, hdr: hdr}
			want := repaired
			if st >= 300 || st == 304 {
				want = nil
			}
			one("http status", srv.URL+"/flow", want, false, false, fmt.Sprint(st, hdr), fixHTTP)
		}
	}
	if w.Next() {
		cur = served21{body: plain, cut: true}
		one("http cut body", srv.URL+"/flow", nil, false, true, "", fixHTTP)
	}
	if w.Next() {
		cur = served21{body: plain, loc: srv.URL + "/moved"}
		one("http redirect", srv.URL+"/flow", repaired, true, false, "", fixHTTP)
	}
	os.Remove(file)
	ln, _ := net.Listen("tcp", "127.0.0.1:0")
	closed := "http://" + ln.Addr().String() + "/flow"
	ln.Close()
	for _, u := range []string{"", "file://", "file://" + dir, fileURI("none"), "file:///nonexistent/flow.json", "http://", "http://%zz", "http://a b", "http://\x7f", "http://127.0.0.1:99999/", "http://[::1", closed,
		"ftp://x/flow", "flow", "res://flow:nothing", "mem://x", "file:/x", "http:/x", "FILE://x"} {
		if w.Next() {
			os.Remove(file)
			one("uri", u, nil, false, true, u, nil)
		}
	}
	if w.Next() {
		os.Remove(file)
		one("missing file", fileURI("my flow.json"), nil, false, true, "", fixFile)
	}
	// two URIs through one manager
	if w.Next() {
		fm := flowsupport.NewFlowManager(nil)
		for round := 0; round < 2; round++ {
			for i := 0; i < 3; i++ {
				n := fmt.Sprintf("f%d", i)
				if round == 0 {
					os.WriteFile(filepath.Join(dir, n), []byte(`{"name":"`+n+`"}`), 0o644)
				}
				d, err := fm.GetFlow(fileURI(n))
				w.R.Evals++
				if err != nil || d == nil || d.Name() != n {
					w.Violate("built-in: mixed up", fmt.Sprintf("lookup of %s: %v %v", n, d, err), mp{"round": round})
				}
			}
		}
	}
}

// registry21: lookups through the support package (resources and URIs).
func (w *W) registry21() {
	ids := []string{"a", "b", "c"}
	for mask := 0; mask < 1<<len(ids); mask++ {
		if !w.Next() {
			continue
		}
		rm := resource.NewManager(map[string]*resource.Resource{})
		p := &prov21{outs: 1, choose: func(int) int { return 0 }}
		flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), rm)
		for i, n := range ids {
			if mask>>i&1 == 1 {
				res, err := resource.GetLoader("flow").LoadResource(&resource.Config{ID: "flow:" + n, Data: []byte(`{"name":"` + n + `"}`)})
				if err != nil {
					panic(err)
				}
				rm.SetResource("flow:"+n, res)
			}
		}
		rm.SetResource("flow:other", resource.New("other", 5))
		for round := 0; round < 2; round++ {
			for i, n := range ids {
				w.R.Evals++
				w.Distinct(fmt.Sprint("registry", mask, n, round))
				d, isRes, err := flowsupport.GetDefinition("res://flow:" + n)
				if mask>>i&1 == 1 {
					if err != nil || d == nil || d.Name() != n || !isRes {
						w.Violate("registry: lost", fmt.Sprintf("res://flow:%s is registered, but the lookup yields %v %v %v", n, d, isRes, err), mp{"registered": mask})
					}
				} else if d != nil {
					w.Violate("registry: wrong", fmt.Sprintf("res://flow:%s is not registered, but the lookup yields %s", n, d.Name()), mp{"registered": mask})
				}
			}
			if d, _, _ := flowsupport.GetDefinition("res://flow:other"); d != nil {
				w.Violate("registry: wrong", "a resource that is no flow yields a definition", nil)
			}
			d, isRes, err := flowsupport.GetDefinition("mem://x")
			if err != nil || d == nil || d.Name() != "mem://x call 1" || isRes {
				w.Violate("registry: provider", fmt.Sprintf("lookup of mem://x: %v %v %v", d, isRes, err), nil)
			}
		}
	}
	flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(nil), rig.RM)
}
