// Command instr rewrites the packages of the repository under check so that
// every concurrency primitive they use (goroutines, channels, select, package
// sync, sync/atomic, time, context, map iteration order) goes through the
// controlled runtime verif/vrt, and writes an overlay for `go build -overlay`.
// The repository itself is never touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path, Dir, GoVersion string }
	Error      *struct{ Err string }
}

var repl = map[string]string{
	"sync":        "verif/vrt/vsync",
	"sync/atomic": "verif/vrt/vatomic",
	"time":        "verif/vrt/vtime",
	"context":     "verif/vrt/vcontext",
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	mod := flag.String("module", "github.com/axgrid/axutils", "module to rewrite")
	out := flag.String("out", "", "output directory")
	skip := flag.String("skip-sched", "", "comma separated packages left alone")
	flag.Parse()
	if *out == "" || flag.NArg() == 0 {
		die("usage: instr -out DIR pkg...")
	}
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,DepOnly,Module,Error"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == *mod {
			pkgs = append(pkgs, p)
		}
	}
	sk := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		sk[s] = true
	}
	overlay := map[string]string{}
	for _, p := range pkgs {
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if sk[p.ImportPath] {
			continue
		}
		rewritePkg(p, exports, *out, overlay)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset *token.FileSet
	src  []byte
	file *token.File
	info *types.Info
	pkg  *types.Package
	n    int
	q    types.Qualifier
}

func rewritePkg(p *listPkg, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
		names = append(names, fn)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
		Implicits:  map[ast.Node]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	odir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(odir, 0o755); err != nil {
		die("%v", err)
	}
	// package variables: how each is re-initialised before every execution
	resets := map[*ast.File][]string{}
	prio := map[types.Object]int{}
	for i, in := range info.InitOrder {
		for _, l := range in.Lhs {
			prio[l] = i + 1
		}
	}
	for i, af := range files {
		r := &rw{fset: fset, src: srcs[i], file: fset.File(af.Pos()), info: info, pkg: tp}
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 && len(vs.Values) != len(vs.Names) {
					var ns []string
					pr := 0
					for _, n := range vs.Names {
						ns = append(ns, n.Name)
						if o := info.Defs[n]; o != nil && prio[o] > pr {
							pr = prio[o]
						}
					}
					resets[af] = append(resets[af], fmt.Sprintf("__vrt.OnReset(%d, func() { %s = %s })", pr, strings.Join(ns, ", "), r.node(vs.Values[0])))
					continue
				}
				for k, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					o := info.Defs[n]
					if skipReset(o.Type()) {
						continue
					}
					if len(vs.Values) > 0 {
						resets[af] = append(resets[af], fmt.Sprintf("__vrt.OnReset(%d, func() { %s = %s })", prio[o], n.Name, r.node(vs.Values[k])))
					} else {
						resets[af] = append(resets[af], fmt.Sprintf("__vrt.OnReset(0, func() { %s = *new(%s) })", n.Name, r.node(vs.Type)))
					}
				}
			}
		}
	}
	for i, af := range files {
		r := &rw{fset: fset, src: srcs[i], file: fset.File(af.Pos()), info: info, pkg: tp}
		body := r.fileText(af)
		if rs := resets[af]; len(rs) > 0 {
			body += "\nfunc init() {\n\t" + strings.Join(rs, "\n\t") + "\n}\n"
		}
		dst := filepath.Join(odir, filepath.Base(names[i]))
		if err := os.WriteFile(dst, []byte(body), 0o644); err != nil {
			die("%v", err)
		}
		overlay[names[i]] = dst
	}
}

func skipReset(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return true
	}
	// error sentinels of a concrete error type are compared by identity
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "Error") != nil {
		return true
	}
	return false
}

func (r *rw) off(p token.Pos) int { return r.file.Offset(p) }

func (r *rw) text(from, to token.Pos) string { return string(r.src[r.off(from):r.off(to)]) }

func (r *rw) fresh(s string) string {
	r.n++
	return fmt.Sprintf("__%s%d", s, r.n)
}

// fileText renders the whole file.
func (r *rw) fileText(af *ast.File) string {
	end := token.Pos(r.file.Base() + r.file.Size())
	s := r.splice(af, token.Pos(r.file.Base()), end)
	return s
}

// node renders n with all rewrites applied.
func (r *rw) node(n ast.Node) string {
	if t, ok := r.rewrite(n); ok {
		return t
	}
	return r.splice(n, n.Pos(), n.End())
}

type edit struct {
	from, to token.Pos
	s        string
}

// splice renders source text from..to, which covers n, replacing the rewritten descendants of n.
func (r *rw) splice(n ast.Node, from, to token.Pos) string {
	var eds []edit
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return c == n
		}
		if f, ok := n.(*ast.File); ok && c == ast.Node(f.Name) {
			eds = append(eds, edit{c.End(), c.End(), "; import __vrt \"verif/vrt\"; var _ = __vrt.Go"})
			return false
		}
		if s, ok := r.rewrite(c); ok {
			eds = append(eds, edit{c.Pos(), c.End(), s})
			return false
		}
		return true
	})
	if _, ok := n.(*ast.File); ok {
		// "import" must precede "var": the guard declaration goes to the end
		for i := range eds {
			eds[i].s = strings.Replace(eds[i].s, "; var _ = __vrt.Go", "", 1)
		}
		sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
		return r.apply(eds, from, to) + "\nvar _ = __vrt.Go\n"
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	return r.apply(eds, from, to)
}

func (r *rw) apply(eds []edit, from, to token.Pos) string {
	var b strings.Builder
	p := from
	for _, e := range eds {
		if e.from < p {
			die("overlapping edits at %s", r.fset.Position(e.from))
		}
		b.WriteString(r.text(p, e.from))
		b.WriteString(e.s)
		p = e.to
	}
	b.WriteString(r.text(p, to))
	return b.String()
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	return coreIs(tv.Type, func(t types.Type) bool { _, ok := t.(*types.Chan); return ok })
}

func (r *rw) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	return coreIs(tv.Type, func(t types.Type) bool { _, ok := t.(*types.Map); return ok })
}

func coreIs(t types.Type, f func(types.Type) bool) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		i, ok := tp.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for k := 0; k < i.NumEmbeddeds(); k++ {
			switch e := i.EmbeddedType(k).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if f(e.Term(j).Type().Underlying()) {
						return true
					}
				}
			default:
				if f(e.Underlying()) {
					return true
				}
			}
		}
		return false
	}
	return f(t.Underlying())
}

func (r *rw) builtin(call *ast.CallExpr, name string) bool {
	id, ok := unparen(call.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func recvOf(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// rewrite returns the replacement of n, if n itself is a rewritten construct.
func (r *rw) rewrite(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.ImportSpec:
		path, _ := strconv.Unquote(n.Path.Value)
		if np, ok := repl[path]; ok {
			name := filepath.Base(path)
			if n.Name != nil {
				name = n.Name.Name
			}
			return name + " " + strconv.Quote(np), true
		}
	case *ast.GoStmt:
		return r.goStmt(n), true
	case *ast.SendStmt:
		return "__vrt.S(" + r.node(n.Chan) + ")(" + r.node(n.Value) + ")", true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return "__vrt.Recv(" + r.node(n.X) + ")", true
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := recvOf(n.Rhs[0]); ok {
				return r.list(n.Lhs) + " " + n.Tok.String() + " __vrt.Recv2(" + r.node(u.X) + ")", true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := recvOf(n.Values[0]); ok {
				t := ""
				if n.Type != nil {
					t = " " + r.node(n.Type)
				}
				return n.Names[0].Name + ", " + n.Names[1].Name + t + " = __vrt.Recv2(" + r.node(u.X) + ")", true
			}
		}
	case *ast.CallExpr:
		if len(n.Args) == 1 {
			if r.builtin(n, "close") {
				return "__vrt.Close(" + r.node(n.Args[0]) + ")", true
			}
			if r.builtin(n, "len") && r.isChan(n.Args[0]) {
				return "__vrt.Len(" + r.node(n.Args[0]) + ")", true
			}
		}
		if sel, ok := unparen(n.Fun).(*ast.SelectorExpr); ok && len(n.Args) == 0 {
			if f, ok := r.info.Uses[sel.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "runtime" && f.Name() == "Gosched" {
				return "func() { _ = " + r.node(sel) + "; __vrt.Gosched() }()", true
			}
		}
	case *ast.RangeStmt:
		if r.isChan(n.X) {
			return r.rangeChan(n), true
		}
		if r.isMap(n.X) {
			return r.rangeMap(n), true
		}
	case *ast.SelectStmt:
		return r.selectStmt(n), true
	}
	return "", false
}

func (r *rw) list(es []ast.Expr) string {
	var ss []string
	for _, e := range es {
		ss = append(ss, r.node(e))
	}
	return strings.Join(ss, ", ")
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// inner renders a block's contents without the braces.
func (r *rw) inner(b *ast.BlockStmt) string {
	s := r.splice(b, b.Pos(), b.End())
	return s[1 : len(s)-1]
}

func (r *rw) ptr(e ast.Expr) string {
	if e == nil || isBlank(e) {
		return "nil"
	}
	return "&" + r.node(e)
}

func (r *rw) rangeChan(n *ast.RangeStmt) string {
	it := r.fresh("r")
	x := r.node(n.X)
	if n.Key == nil || isBlank(n.Key) {
		return "for " + it + " := __vrt.RangeChan(" + x + "); " + it + ".Next(nil); {" + r.inner(n.Body) + "}"
	}
	if n.Tok == token.DEFINE {
		k := r.node(n.Key)
		return "for " + k + ", " + it + " := __vrt.RangeChanV(" + x + "); " + it + ".Next(&" + k + "); {" + r.inner(n.Body) + "}"
	}
	return "for " + it + " := __vrt.RangeChan(" + x + "); " + it + ".Next(" + r.ptr(n.Key) + "); {" + r.inner(n.Body) + "}"
}

func (r *rw) rangeMap(n *ast.RangeStmt) string {
	it := r.fresh("r")
	x := r.node(n.X)
	body := "{" + r.inner(n.Body) + "}"
	if n.Key == nil || n.Tok != token.DEFINE || (isBlank(n.Key) && (n.Value == nil || isBlank(n.Value))) {
		var v ast.Expr
		if n.Value != nil {
			v = n.Value
		}
		return "for " + it + " := __vrt.MapIter(" + x + "); " + it + ".Next(" + r.ptr(n.Key) + ", " + r.ptr(v) + "); " + body
	}
	k, v := r.node(n.Key), "_"
	if n.Value != nil {
		v = r.node(n.Value)
	}
	var vv ast.Expr
	if n.Value != nil {
		vv = n.Value
	}
	return "for " + k + ", " + v + ", " + it + " := __vrt.MapIterKV(" + x + "); " + it + ".Next(" + r.ptr(n.Key) + ", " + r.ptr(vv) + "); " + body
}

func (r *rw) selectStmt(n *ast.SelectStmt) string {
	if len(n.Body.List) == 0 {
		return "for { __vrt.Block() }"
	}
	var names, inits []string
	hasDef := false
	var cases strings.Builder
	idx := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		var body strings.Builder
		if len(cc.Body) > 0 {
			body.WriteString(r.stmts(cc))
		}
		if cc.Comm == nil {
			hasDef = true
			cases.WriteString("\ndefault:" + body.String())
			continue
		}
		c := r.fresh("c")
		pre := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "__vrt.SendCase("+r.node(s.Chan)+")("+r.node(s.Value)+")")
		case *ast.ExprStmt:
			u, ok := recvOf(s.X)
			if !ok {
				die("%s: unexpected select case", r.fset.Position(s.Pos()))
			}
			inits = append(inits, "__vrt.RecvCase("+r.node(u.X)+")")
		case *ast.AssignStmt:
			u, ok := recvOf(s.Rhs[0])
			if !ok {
				die("%s: unexpected select case", r.fset.Position(s.Pos()))
			}
			inits = append(inits, "__vrt.RecvCase("+r.node(u.X)+")")
			m := ".V()"
			if len(s.Lhs) == 2 {
				m = ".VOk()"
			}
			pre = " " + r.list(s.Lhs) + " " + s.Tok.String() + " " + c + m + ";"
		default:
			die("%s: unexpected select case", r.fset.Position(cc.Pos()))
		}
		names = append(names, c)
		cases.WriteString(fmt.Sprintf("\ncase %d:%s%s", idx, pre, body.String()))
		idx++
	}
	hd := ""
	if len(names) > 0 {
		hd = strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	sel := "__vrt.Select(" + strconv.FormatBool(hasDef)
	for _, c := range names {
		sel += ", " + c + ".C()"
	}
	sel += ")"
	res := "switch " + hd + sel + " {" + cases.String()
	if !hasDef {
		res += "\ndefault: panic(\"vrt: unreachable select\")"
	}
	return res + "\n}"
}

// stmts renders the body of a select clause, including the text between the colon and the end.
func (r *rw) stmts(cc *ast.CommClause) string {
	var b strings.Builder
	p := cc.Colon + 1
	for _, s := range cc.Body {
		b.WriteString(r.text(p, s.Pos()))
		b.WriteString(r.node(s))
		p = s.End()
	}
	return b.String()
}

func (r *rw) goStmt(n *ast.GoStmt) string {
	call := n.Call
	fun := unparen(call.Fun)
	if lit, ok := fun.(*ast.FuncLit); ok && len(call.Args) == 0 && lit.Type.Results == nil {
		return "__vrt.Go(" + r.node(lit) + ")"
	}
	var names, vals []string
	fs := ""
	direct := false
	switch f := fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			direct = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := r.info.Types[fun]; ok && tv.IsValue() {
			var x ast.Expr
			if ie, ok := f.(*ast.IndexExpr); ok {
				x = ie.X
			} else {
				x = f.(*ast.IndexListExpr).X
			}
			if id, ok := x.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Func); ok {
					direct = true
				}
			}
		}
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[f]; !ok {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				direct = true
			}
		}
	}
	if direct {
		fs = r.node(call.Fun)
	} else {
		fs = r.fresh("f")
		names = append(names, fs)
		vals = append(vals, r.node(call.Fun))
	}
	var as []string
	tuple := false
	if len(call.Args) == 1 {
		if tv, ok := r.info.Types[call.Args[0]]; ok {
			_, tuple = tv.Type.(*types.Tuple)
		}
	}
	for _, a := range call.Args {
		tv := r.info.Types[a]
		if tuple || tv.Value != nil || tv.IsNil() || tv.IsType() {
			if tv.Value != nil && tv.Value.Kind() == constant.Unknown {
				die("%s: unknown constant", r.fset.Position(a.Pos()))
			}
			as = append(as, r.node(a))
			continue
		}
		nm := r.fresh("a")
		names = append(names, nm)
		vals = append(vals, r.node(a))
		as = append(as, nm)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	s := ""
	if b, ok := fun.(*ast.Ident); ok && direct {
		if _, isb := r.info.Uses[b].(*types.Builtin); isb && b.Name == "close" {
			fs = "__vrt.Close"
		}
	}
	inner := "__vrt.Go(func() { " + fs + "(" + strings.Join(as, ", ") + ell + ") })"
	if len(names) > 0 {
		s = "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; " + inner + " }"
	} else {
		s = inner
	}
	return s
}
