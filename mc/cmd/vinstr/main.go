// vinstr rewrites the non-test sources of the project-flogo/flow packages below
// /repo into controlled variants and writes a 'go build -overlay' file, so that
// the program built from /repo's current tree can be explored exhaustively:
//
//   - every range over a map asks vsched for the iteration order,
//   - every go statement, sync primitive and time.Sleep goes through vsched,
//   - every condition-only loop announces itself as a possible busy wait,
//   - with -points, every statement of the named packages is a scheduling point.
//
// Nothing in the rewritten code depends on names or the shape of the source:
// the rewriting is driven by syntax and types only.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const shim = "verif.local/vmc/vsched"

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, Dir string }
	Standard   bool
}

func main() {
	out := flag.String("out", "", "output directory")
	points := flag.String("points", "", "comma separated import-path suffixes whose statements become scheduling points")
	drop := flag.String("drop", "", "overlay file to remove the files from that the compiler complains about in the given logs")
	flag.Parse()
	if *drop != "" {
		n, err := dropFiles(*drop, flag.Args())
		if err != nil {
			fmt.Fprintln(os.Stderr, "vinstr:", err)
		}
		if n == 0 || err != nil {
			os.Exit(1)
		}
		return
	}
	if err := run(*out, *points, flag.Args()); err != nil {
		fmt.Fprintln(os.Stderr, "vinstr:", err)
		os.Exit(1)
	}
}

func run(out, points string, roots []string) error {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module,Standard"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	exports := map[string]string{}
	var flow []*pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && strings.HasPrefix(p.Module.Path, "github.com/project-flogo/flow") {
			flow = append(flow, p)
		}
	}
	overlay := map[string]string{}
	var pts []string
	if points != "" {
		pts = strings.Split(points, ",")
	}
	for _, p := range flow {
		stmt := false
		for _, s := range pts {
			if strings.HasSuffix(p.ImportPath, s) {
				stmt = true
			}
		}
		if err := instrument(p, exports, out, overlay, stmt, points != ""); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644)
}

// dropFiles removes from an overlay the files named in the compiler's messages.
func dropFiles(overlay string, logs []string) (int, error) {
	b, err := os.ReadFile(overlay)
	if err != nil {
		return 0, err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &o); err != nil {
		return 0, err
	}
	n := 0
	for _, l := range logs {
		t, err := os.ReadFile(l)
		if err != nil {
			return n, err
		}
		for _, line := range strings.Split(string(t), "\n") {
			i := strings.Index(line, ".go:")
			if i < 0 {
				continue
			}
			name := strings.TrimPrefix(strings.TrimSpace(line[:i+3]), "vet: ")
			for src, dst := range o.Replace {
				rel, base := strings.TrimLeft(name, "./"), filepath.Base(name)
				if src == name || dst == name || filepath.Base(dst) == base || strings.HasSuffix(src, "/"+rel) {
					fmt.Println("not instrumented:", src, line[i+3:])
					delete(o.Replace, src)
					n++
				}
			}
		}
	}
	js, _ := json.MarshalIndent(o, "", " ")
	return n, os.WriteFile(overlay, js, 0o644)
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	used   bool
	n      int
	syncN  string
	timeN  string
	stmt   bool
	races  bool
	exempt map[ast.Stmt]bool
	lost   map[string]bool // package identifiers that may have become unused
	kept   map[string]bool
}

func instrument(p *pkg, exports map[string]string, out string, overlay map[string]string, stmt, races bool) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, fn)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Selections: map[*ast.SelectorExpr]*types.Selection{}, Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, stmt: stmt, races: races, lost: map[string]bool{}, kept: map[string]bool{}}
		r.file(f)
		if !r.used {
			continue
		}
		addImport(f)
		dropUnused(f, r.lost)
		var buf bytes.Buffer
		f.Comments = keepDirectives(f)
		if len(f.Comments) == 0 {
			// generics in modules with an older language version
			buf.WriteString("//go:build go1.18\n\n")
		}
		if err := format.Node(&buf, fset, f); err != nil {
			return fmt.Errorf("%s: %v", names[i], err)
		}
		dst := filepath.Join(out, "src", strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[names[i]] = dst
	}
	return nil
}

// keepDirectives drops the comments: positions no longer match after rewriting.
func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var keep []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
					keep = append(keep, g)
					break
				}
			}
		}
	}
	return keep
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// dropUnused blanks imports of sync or time that the rewriting left unused.
func dropUnused(f *ast.File, lost map[string]bool) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if is.Name != nil {
				name = is.Name.Name
			}
			if lost[name] && !used[name] {
				is.Name = ast.NewIdent("_")
			}
		}
	}
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line))}
}

func (r *rewriter) file(f *ast.File) {
	// 1. selectors of package sync and time
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		switch pn.Imported().Path() {
		case "sync":
			switch s.Sel.Name {
			case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond":
				r.lost[id.Name] = true
				s.X = ast.NewIdent("vsched_")
				r.used = true
			}
		case "github.com/project-flogo/core/engine/runner":
			if s.Sel.Name == "NewDirect" && r.races {
				r.lost[id.Name] = true
				s.X = ast.NewIdent("vsched_")
				r.used = true
			}
		case "time":
			switch s.Sel.Name {
			case "Sleep", "After", "NewTimer":
				r.lost[id.Name] = true
				s.X = ast.NewIdent("vsched_")
				r.used = true
			}
		case "maps":
			switch s.Sel.Name {
			case "Keys", "Values", "All":
				r.lost[id.Name] = true
				s.X = ast.NewIdent("vsched_")
				r.used = true
			}
		}
		return true
	})
	// 2. accesses to maps and synchronising calls that are not controlled
	if r.races {
		r.accesses(f)
	}
	// 3. statements
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.block(fd.Body)
		} else {
			r.exprs(d)
		}
	}
}

// accesses announces every access to a map, and every operation of packages
// that are not instrumented that orders goroutines.
func (r *rewriter) accesses(f *ast.File) {
	isMap := func(e ast.Expr) bool {
		tv, ok := r.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	write := map[*ast.IndexExpr]bool{}
	lhs := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if ix, ok := e.(*ast.IndexExpr); ok {
			write[ix] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.AssignStmt:
			for _, e := range t.Lhs {
				lhs(e)
			}
		case *ast.IncDecStmt:
			lhs(t.X)
		case *ast.RangeStmt:
			if t.Tok == token.ASSIGN {
				lhs(t.Key)
				lhs(t.Value)
			}
		}
		return true
	})
	type edit struct{ do func() }
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.IndexExpr:
			if isMap(t.X) {
				name := "MR"
				if write[t] {
					name = "MW"
				}
				site := r.site(t)
				edits = append(edits, edit{func() { t.X = r.call(name, t.X, site) }})
			}
		case *ast.CallExpr:
			if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(t.Args) > 0 && isMap(t.Args[0]) {
				if _, builtin := r.info.Uses[id].(*types.Builtin); builtin {
					site := r.site(t)
					edits = append(edits, edit{func() { t.Args[0] = r.call("MW", t.Args[0], site) }})
				}
			}
			if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "close" && len(t.Args) == 1 {
				if _, builtin := r.info.Uses[id].(*types.Builtin); builtin {
					edits = append(edits, edit{func() { t.Args[0] = r.call("HB", t.Args[0]) }})
				}
			}
			if se, ok := t.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
						if pn.Imported().Path() == "sync/atomic" && len(t.Args) > 0 {
							edits = append(edits, edit{func() { t.Args[0] = r.call("HB", t.Args[0]) }})
						}
						return true
					}
				}
				if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
					recv, ptr := sel.Recv(), false
					if p, ok := recv.(*types.Pointer); ok {
						recv, ptr = p.Elem(), true
					}
					sig, _ := sel.Obj().Type().(*types.Signature)
					if nm, ok := recv.(*types.Named); ok && nm.Obj().Pkg() != nil && sig != nil && sig.Recv() != nil {
						path := nm.Obj().Pkg().Path()
						_, ptrRecv := sig.Recv().Type().(*types.Pointer)
						own := strings.HasPrefix(path, "github.com/project-flogo/flow") || (path == "sync" && controlled[nm.Obj().Name()])
						if !own && ptrRecv && synchronises(nm, 0) {
							edits = append(edits, edit{func() {
								if ptr {
									se.X = r.call("HB", se.X)
								} else {
									se.X = r.call("HB", &ast.UnaryExpr{Op: token.AND, X: se.X})
								}
							}})
						}
					}
				}
			}
		case *ast.SendStmt:
			edits = append(edits, edit{func() { t.Chan = r.call("HB", t.Chan) }})
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				edits = append(edits, edit{func() { t.X = r.call("HB", t.X) }})
			}
		}
		return true
	})
	for _, e := range edits {
		e.do()
	}
}

var controlled = map[string]bool{"Cond": true, "Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true}

// synchronises says whether a type holds anything of package sync.
func synchronises(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil {
		if p := nm.Obj().Pkg().Path(); p == "sync" || p == "sync/atomic" {
			return true
		}
	}
	if p, ok := t.(*types.Pointer); ok {
		if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil {
			pp := nm.Obj().Pkg().Path()
			return pp == "sync" || pp == "sync/atomic"
		}
		return false
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if synchronises(st.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// exprs rewrites the function literals below n.
func (r *rewriter) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			r.block(fl.Body)
			return false
		}
		return true
	})
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ret := s.(*ast.ReturnStmt); r.stmt && !(ret && len(in) == 1) && r.pointable(s) {
			out = append(out, &ast.ExprStmt{X: r.call("Point")})
		}
		out = append(out, r.stmtRewrite(s))
	}
	return out
}

// pointable says whether the statement itself (for compound statements the
// header) may touch memory that another goroutine can reach: it selects a
// field, indexes, dereferences, calls, or names a package variable.
func (r *rewriter) pointable(s ast.Stmt) bool {
	switch t := s.(type) {
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.BlockStmt:
		return false
	case *ast.ExprStmt:
		if c, ok := t.X.(*ast.CallExpr); ok {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
				switch sel.Sel.Name {
				case "Debug", "Debugf", "Trace", "Tracef", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf":
					return false // logging
				}
			}
		}
	case *ast.IfStmt:
		if t.Init == nil && !r.touches(t.Cond) {
			return false
		}
		if c, ok := t.Cond.(*ast.CallExpr); ok && t.Init == nil {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(sel.Sel.Name, "Enabled") {
				return false // logging
			}
		}
		return true
	case *ast.ForStmt:
		return (t.Init != nil && r.touches(t.Init)) || (t.Cond != nil && r.touches(t.Cond))
	case *ast.RangeStmt:
		return r.touches(t.X)
	case *ast.SwitchStmt:
		return (t.Init != nil && r.touches(t.Init)) || (t.Tag != nil && r.touches(t.Tag))
	case *ast.SelectStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
		return true
	}
	return r.touches(s)
}

func (r *rewriter) touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch t := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr, *ast.SliceExpr:
			found = true
		case *ast.SelectorExpr:
			switch r.info.Uses[t.Sel].(type) {
			case *types.Const, *types.TypeName, *types.Func:
			default:
				found = true
			}
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				found = true
			}
		case *ast.Ident:
			if v, ok := r.info.Uses[t].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) stmtRewrite(s ast.Stmt) ast.Stmt {
	switch t := s.(type) {
	case *ast.BlockStmt:
		r.block(t)
	case *ast.LabeledStmt:
		t.Stmt = r.stmtRewrite(t.Stmt)
	case *ast.IfStmt:
		if t.Init != nil {
			r.exprs(t.Init)
		}
		r.exprs(t.Cond)
		r.block(t.Body)
		if t.Else != nil {
			t.Else = r.stmtRewrite(t.Else)
		}
	case *ast.ForStmt:
		if t.Init != nil {
			r.exprs(t.Init)
		}
		if t.Cond != nil {
			r.exprs(t.Cond)
		}
		if t.Post != nil {
			r.exprs(t.Post)
		}
		r.block(t.Body)
		if t.Post == nil && t.Init == nil {
			t.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Spin")}}, t.Body.List...)
		}
	case *ast.RangeStmt:
		r.exprs(t.X)
		r.block(t.Body)
		if fs := r.mapRange(t); fs != nil {
			return fs
		}
	case *ast.SwitchStmt:
		if t.Init != nil {
			r.exprs(t.Init)
		}
		if t.Tag != nil {
			r.exprs(t.Tag)
		}
		for _, c := range t.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range t.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.SelectStmt:
		for _, c := range t.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.GoStmt:
		r.exprs(t.Call)
		return r.goStmt(t)
	default:
		r.exprs(s)
	}
	return s
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	if tv, ok := r.info.Types[g.Call.Fun]; ok && tv.IsBuiltin() {
		return g
	}
	r.n++
	f := ast.NewIdent(fmt.Sprintf("vgo%d_f", r.n))
	lhs := []ast.Expr{f}
	rhs := []ast.Expr{g.Call.Fun}
	var fun ast.Expr = ast.NewIdent(f.Name)
	if r.generic(g.Call.Fun) {
		// a generic function is no value before its arguments are known
		fun, lhs, rhs = g.Call.Fun, nil, nil
	}
	var args []ast.Expr
	for i, a := range g.Call.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			args = append(args, a)
			continue
		}
		id := ast.NewIdent(fmt.Sprintf("vgo%d_a%d", r.n, i))
		lhs = append(lhs, id)
		rhs = append(rhs, a)
		args = append(args, id)
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if g.Call.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	start := &ast.ExprStmt{X: r.call("Go", lit)}
	if len(lhs) == 0 {
		return start
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, start}}
}

func (r *rewriter) generic(fun ast.Expr) bool {
	switch t := fun.(type) {
	case *ast.Ident:
		_, ok := r.info.Instances[t]
		return ok
	case *ast.SelectorExpr:
		_, ok := r.info.Instances[t.Sel]
		return ok
	}
	return false
}

func (r *rewriter) mapRange(t *ast.RangeStmt) ast.Stmt {
	tv, ok := r.info.Types[t.X]
	if !ok {
		return nil
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return nil
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	simple := func(e ast.Expr) bool {
		_, ok := e.(*ast.Ident)
		return ok || e == nil
	}
	if !simple(t.Key) || !simple(t.Value) {
		return nil
	}
	r.n++
	it := fmt.Sprintf("vrng%d", r.n)
	ref := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(e.(*ast.Ident).Name)}
	}
	next := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{ref(t.Key), ref(t.Value)}}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	if t.Tok == token.DEFINE {
		name := func(e ast.Expr) ast.Expr {
			if blank(e) {
				return ast.NewIdent("_")
			}
			return ast.NewIdent(e.(*ast.Ident).Name)
		}
		init.Lhs = []ast.Expr{ast.NewIdent(it), name(t.Key), name(t.Value)}
		init.Rhs = []ast.Expr{r.call("Range", t.X, r.site(t))}
	} else {
		init.Lhs = []ast.Expr{ast.NewIdent(it)}
		init.Rhs = []ast.Expr{r.call("RangeIt", t.X, r.site(t))}
	}
	return &ast.ForStmt{Init: init, Cond: next, Body: t.Body}
}
