// rewrite: turns packages of the repository into packages that run under the simulator.
//
//	rewrite -src STAGING -out MODULE -slot p1 -module M  pkg...
//
// Imports of packages with effects go to simrt/...; channels, select, go statements and map ranges become calls into
// simrt/core; a scheduling point precedes every statement; package-level variables get a reset function so that one
// package copy can serve as a fresh process image again and again.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var simmed = map[string]bool{"os": true, "time": true, "sync": true, "fmt": true, "path/filepath": true, "os/exec": true, "net/http": true, "context": true, "io/ioutil": true, "os/signal": true, "os/user": true, "math/rand": true, "syscall": true, "crypto/rand": true, "log": true, "github.com/fsnotify/fsnotify": true}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...); os.Exit(1) }

var src, out, slot, module string

type rw struct {
	pkg   *types.Package
	info  *types.Info
	fset  *token.FileSet
	n     int
	inits []string
	dyn   bool // embedded files come from the simulation
}

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func meth(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.StarExpr, *ast.UnaryExpr, *ast.BinaryExpr:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(m)}, a...)
}
func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (r *rw) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}
func isArrow(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// expressions
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.FuncLit:
		r.fields(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				switch pn.Imported().Path() + "." + x.Sel.Name {
				case "os.Args":
					return call(sel("simcore", "OSArgs"))
				case "embed.FS":
					if r.dyn {
						return sel("simcore", "EmbedFS")
					}
				}
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
	case *ast.CallExpr:
		if r.builtin(x.Fun, "make") && len(x.Args) > 0 && r.isChan(x.Args[0]) {
			t := r.info.TypeOf(x.Args[0])
			n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				n = call(ast.NewIdent("int"), r.expr(x.Args[1]))
			}
			if ct, ok := x.Args[0].(*ast.ChanType); ok {
				return call(&ast.IndexExpr{X: sel("simcore", "MakeChan"), Index: r.expr(ct.Value)}, n)
			}
			_ = t
			die("%s: make of a named channel type", r.fset.Position(x.Pos()))
		}
		for _, b := range []string{"close", "len", "cap"} {
			if r.builtin(x.Fun, b) && len(x.Args) == 1 && r.isChan(x.Args[0]) {
				return meth(r.expr(x.Args[0]), map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[b])
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Execute" || s.Sel.Name == "ExecuteC" || s.Sel.Name == "ExecuteContext") {
			if t := r.info.TypeOf(s.X); t != nil && strings.HasSuffix(t.String(), "cobra.Command") {
				s.X = call(sel("simcore", "Prep"), r.expr(s.X))
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return meth(r.expr(x.X), "Recv")
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.expr(x.Elt)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.FuncType:
		r.fields(x)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: sel("simcore", "Chan"), Index: r.expr(x.Value)}}
	default:
		die("%s: expression %T", r.fset.Position(e.Pos()), e)
	}
	return e
}
func (r *rw) fieldList(f *ast.FieldList) {
	if f != nil {
		for _, x := range f.List {
			x.Type = r.expr(x.Type)
		}
	}
}
func (r *rw) fields(f *ast.FuncType) {
	r.fieldList(f.TypeParams)
	r.fieldList(f.Params)
	r.fieldList(f.Results)
}
func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// statements
func (r *rw) point() ast.Stmt { return &ast.ExprStmt{X: call(sel("simcore", "Point"))} }
func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}
func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.ReturnStmt, *ast.GoStmt, *ast.DeferStmt, *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt, *ast.SwitchStmt:
			if a, ok := s.(*ast.AssignStmt); !ok || a.Tok != token.DEFINE || hasCall(a) {
				o = append(o, r.point())
			}
			_ = x
		}
		o = append(o, r.stmt(s))
	}
	return o
}
func hasCall(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.CallExpr:
			f = true
		case *ast.FuncLit:
			return false
		}
		return !f
	})
	return f
}
func (r *rw) tmp() string { r.n++; return "sim_" + strconv.Itoa(r.n) }
func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		r.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: meth(r.expr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isArrow(x.Rhs[0]); ok {
				x.Rhs[0] = meth(r.expr(u.X), "Recv2")
				r.exprs(x.Lhs)
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		c := x.Call
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			return &ast.ExprStmt{X: call(sel("simcore", "Go"), r.expr(fl))}
		}
		b := &ast.BlockStmt{}
		f := r.tmp()
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(f)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
		var args []ast.Expr
		for _, a := range c.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				args = append(args, r.expr(a))
				continue
			}
			t := r.tmp()
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
			args = append(args, ast.NewIdent(t))
		}
		cc := call(ast.NewIdent(f), args...)
		if c.Ellipsis.IsValid() {
			cc.Ellipsis = 1
		}
		b.List = append(b.List, &ast.ExprStmt{X: call(sel("simcore", "Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})})
		return b
	case *ast.DeferStmt:
		x.Call = r.deferCall(x.Call)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.list(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Assign = r.stmt(x.Assign)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post)
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.point()}, x.Body.List...)
	case *ast.RangeStmt:
		ch, mp := r.isChan(x.X), r.isMap(x.X)
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		x.X = r.expr(x.X)
		if ch {
			x.X = meth(x.X, "Iter")
		} else if mp {
			x.X = call(sel("simcore", "MapRange"), x.X)
		}
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.point()}, x.Body.List...)
	default:
		die("%s: statement %T", r.fset.Position(s.Pos()), s)
	}
	return s
}
func (r *rw) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	if k, ok := e.(*ast.CallExpr); ok {
		return k
	}
	die("defer")
	return nil
}
func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	sl := r.tmp()
	lhs := []ast.Expr{ast.NewIdent(sl)}
	rhs := []ast.Expr{call(ast.NewIdent("new"), sel("simcore", "Sel"))}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := "false"
	var cases []ast.Expr
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.list(cc.Body)})
			continue
		}
		t := r.tmp()
		id := ast.NewIdent(t)
		var pre ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs, rhs = append(lhs, id), append(rhs, r.expr(c.Chan))
			cases = append(cases, meth(ast.NewIdent(t), "SendCase", r.expr(c.Value)))
		case *ast.ExprStmt:
			u, ok := isArrow(c.X)
			if !ok {
				die("%s: select case", r.fset.Position(c.Pos()))
			}
			lhs, rhs = append(lhs, id), append(rhs, r.expr(u.X))
			cases = append(cases, meth(ast.NewIdent(t), "RecvCase"))
		case *ast.AssignStmt:
			u, ok := isArrow(c.Rhs[0])
			if !ok {
				die("%s: select case", r.fset.Position(c.Pos()))
			}
			lhs, rhs = append(lhs, id), append(rhs, r.expr(u.X))
			cases = append(cases, meth(ast.NewIdent(t), "RecvCase"))
			m := "Got"
			if len(c.Lhs) == 2 {
				m = "Got2"
			}
			r.exprs(c.Lhs)
			pre = &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{meth(ast.NewIdent(t), m, ast.NewIdent(sl))}}
		}
		body := r.list(cc.Body)
		if pre != nil {
			body = append([]ast.Stmt{pre}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases) - 1)}}, Body: body})
	}
	sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	sw.Tag = call(sel("simcore", "Select"), append([]ast.Expr{ast.NewIdent(sl), ast.NewIdent(def)}, cases...)...)
	return sw
}
func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch x := s.(type) {
		case *ast.ValueSpec:
			x.Type = r.expr(x.Type)
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := isArrow(x.Values[0]); ok {
					x.Values[0] = meth(r.expr(u.X), "Recv2")
					continue
				}
			}
			r.exprs(x.Values)
		case *ast.TypeSpec:
			r.fieldList(x.TypeParams)
			x.Type = r.expr(x.Type)
		}
	}
}

func main() {
	flag.StringVar(&src, "src", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&slot, "slot", "", "")
	flag.StringVar(&module, "module", "", "")
	flag.Parse()
	slots := strings.Split(slot, ",")
	exports := map[string]string{}
	c := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Export", "./cli", "./internal/grayc")
	c.Dir = src
	c.Stderr = os.Stderr
	o, err := c.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
	}
	for _, sl := range slots {
		for _, p := range flag.Args() {
			one(sl, p, exports)
		}
	}
}

func one(slot, pkgdir string, exports map[string]string) {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(filepath.Join(src, pkgdir))
	if err != nil {
		die("%v", err)
	}
	var files []*ast.File
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, _ := build.Default.MatchFile(filepath.Join(src, pkgdir), n); !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, pkgdir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files, names = append(files, f), append(names, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})}
	tp, err := conf.Check(module+"/"+pkgdir, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	r := &rw{pkg: tp, info: info, fset: fset}
	od := filepath.Join(out, slot, outdir(pkgdir))
	os.MkdirAll(od, 0o755)
	pname := files[0].Name.Name
	isMain := pname == "main"
	if isMain {
		pname = "cli"
	}
	// embedded variables: found by their directive
	embeds := map[string]string{}
	var embedFile bytes.Buffer
	dynEmbed := pkgdir == "internal/grayc"
	r.dyn = dynEmbed
	resets := map[string]string{}
	var order []string
	for i, f := range files {
		f.Name = ast.NewIdent(pname)
		var decls []ast.Decl
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				var keep []ast.Spec
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					doc := v.Doc
					if doc == nil && len(g.Specs) == 1 {
						doc = g.Doc
					}
					pat := ""
					if doc != nil {
						for _, c := range doc.List {
							if strings.HasPrefix(c.Text, "//go:embed ") {
								pat += c.Text + "\n"
							}
						}
					}
					if pat == "" {
						keep = append(keep, s)
						continue
					}
					ty := show(fset, v.Type)
					embeds[v.Names[0].Name] = ty
					if !dynEmbed {
						fmt.Fprintf(&embedFile, "\n%svar %s %s\n", pat, v.Names[0].Name, ty)
					} else {
						p := strings.TrimPrefix(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(pat), "//go:embed ")), "all:")
						switch ty {
						case "[]byte":
							resets[v.Names[0].Name] = fmt.Sprintf("simcore.EmbedBytes(%q)", p)
						case "string":
							resets[v.Names[0].Name] = fmt.Sprintf("string(simcore.EmbedBytes(%q))", p)
						default:
							ty = "simcore.EmbedFS"
							resets[v.Names[0].Name] = "simcore.NewEmbedFS()"
						}
						order = append(order, v.Names[0].Name)
						fmt.Fprintf(&embedFile, "\nvar %s %s\n", v.Names[0].Name, ty)
					}
				}
				if len(keep) == 0 {
					continue
				}
				g.Specs = keep
			}
			decls = append(decls, d)
		}
		f.Decls = decls
		_ = i
	}
	// rewrite
	for _, f := range files {
		f.Comments = nil
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				x.Doc = nil
				if x.Tok != token.IMPORT {
					r.genDecl(x)
					for _, s := range x.Specs {
						if v, ok := s.(*ast.ValueSpec); ok {
							v.Doc, v.Comment = nil, nil
						}
					}
				}
			case *ast.FuncDecl:
				x.Doc = nil
				r.fieldList(x.Recv)
				r.fields(x.Type)
				r.block(x.Body)
				if x.Recv == nil && x.Name.Name == "init" {
					n := "simInit" + strconv.Itoa(len(r.inits))
					r.inits = append(r.inits, n)
					x.Name = ast.NewIdent(n)
				}
			}
		}
	}
	// reset of package-level variables: zero values, then initialisers in initialisation order, then init functions
	var reset bytes.Buffer
	var zero bytes.Buffer
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							fmt.Fprintf(&zero, "\t%s = simcore.Zero(%s)\n", n.Name, n.Name)
						}
					}
				}
			}
		}
	}
	usesOf := func(f *ast.File) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					m[id.Name] = true
				}
			}
			return true
		})
		return m
	}
	// each file gets its own initialiser function per variable, so that imports resolve in the file's own scope
	vi := 0
	varFn := map[ast.Expr]string{}
	for _, f := range files {
		var extra []ast.Decl
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					continue
				}
				if len(v.Values) == len(v.Names) {
					for k := range v.Names {
						fn := fmt.Sprintf("simVar%d", vi)
						vi++
						varFn[v.Values[k]] = fn
						extra = append(extra, fnDecl(fn, []ast.Expr{ast.NewIdent(v.Names[k].Name)}, []ast.Expr{v.Values[k]}))
					}
				} else {
					fn := fmt.Sprintf("simVar%d", vi)
					vi++
					varFn[v.Values[0]] = fn
					var l []ast.Expr
					for _, n := range v.Names {
						l = append(l, ast.NewIdent(n.Name))
					}
					extra = append(extra, fnDecl(fn, l, v.Values))
				}
				for _, n := range v.Names {
					order = append(order, n.Name)
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
	}
	// order: dependency order over the package-level names (the rule of the language, by name)
	fmt.Fprintf(&reset, "package %s\n\nimport simcore %q\n\nvar _ = simcore.Point\n", pname, module+"/simrt/core")
	if isMain {
		fmt.Fprintf(&reset, "\nfunc SimReset() {\n")
	} else {
		fmt.Fprintf(&reset, "\nfunc SimReset() {\n")
	}
	reset.Write(zero.Bytes())
	var ek []string
	for k := range resets {
		ek = append(ek, k)
	}
	sort.Strings(ek)
	for _, k := range ek {
		fmt.Fprintf(&reset, "\t%s = %s\n", k, resets[k])
	}
	for _, fn := range initOrder(files, varFn) {
		fmt.Fprintf(&reset, "\t%s()\n", fn)
	}
	for _, n := range r.inits {
		fmt.Fprintf(&reset, "\t%s()\n", n)
	}
	if isMain {
		if o := tp.Scope().Lookup("Version"); o != nil && o.Type().String() == "string" {
			fmt.Fprintf(&reset, "\tif v := simcore.CurVersion(); v != \"\" { Version = v }\n")
		}
	}
	fmt.Fprintf(&reset, "}\n")
	if isMain {
		fmt.Fprintf(&reset, "\nfunc SimMain() { main() }\n")
	}
	os.WriteFile(filepath.Join(od, "zz_reset.go"), reset.Bytes(), 0o644)
	if embedFile.Len() > 0 {
		h := fmt.Sprintf("package %s\n", pname)
		if dynEmbed {
			h += fmt.Sprintf("\nimport simcore %q\n\nvar _ = simcore.Point\n", module+"/simrt/core")
		} else {
			h += "\nimport \"embed\"\n\nvar _ embed.FS\n"
		}
		os.WriteFile(filepath.Join(od, "zz_embed.go"), append([]byte(h), embedFile.Bytes()...), 0o644)
	}
	for i, f := range files {
		used := usesOf(f)
		var specs []ast.Spec
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("simcore"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + "/simrt/core")}})
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			np := p
			name := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			if simmed[p] {
				np = module + "/simrt/" + strings.TrimPrefix(p, "github.com/")
			} else if strings.HasPrefix(p, module+"/") {
				np = module + "/" + slot + outdir(strings.TrimPrefix(p, module))
			}
			if name == "_" && p == "embed" {
				continue
			}
			if name != "_" && name != "." {
				// real package name may differ from the last path element
				rn := name
				for _, q := range tp.Imports() {
					if q.Path() == p && im.Name == nil {
						rn = q.Name()
					}
				}
				if !used[rn] {
					continue
				}
			}
			sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
			if im.Name != nil {
				sp.Name = ast.NewIdent(im.Name.Name)
			}
			specs = append(specs, sp)
		}
		var decls []ast.Decl
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2, Specs: specs})
		decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("simcore", "Point")}}}})
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			decls = append(decls, d)
		}
		f.Decls = decls
		f.Imports = nil
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", names[i], err)
		}
		os.WriteFile(filepath.Join(od, names[i]), b.Bytes(), 0o644)
	}
	// non-Go files (embedded templates and the like)
	if !dynEmbed {
		filepath.Walk(filepath.Join(src, pkgdir), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(filepath.Join(src, pkgdir), p)
			d := filepath.Join(od, rel)
			os.MkdirAll(filepath.Dir(d), 0o755)
			b, _ := os.ReadFile(p)
			return os.WriteFile(d, b, 0o644)
		})
	}
}

// outdir: internal packages become ordinary ones, so that the harness may import them.
func outdir(p string) string { return strings.ReplaceAll(p, "internal", "inner") }
func fnDecl(name string, l, v []ast.Expr) ast.Decl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: v}}}}
}
func show(fset *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, e)
	return b.String()
}

// initOrder: repeatedly the first variable (in declaration order) without an uninitialised dependency, dependencies
// found by name, transitively through functions.
func initOrder(files []*ast.File, varFn map[ast.Expr]string) []string {
	type v struct {
		fn    string
		names []string
		deps  map[string]bool
	}
	var vs []*v
	owner := map[string]*v{}
	fdeps := map[string]map[string]bool{}
	ids := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
		return m
	}
	for _, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if strings.HasPrefix(x.Name.Name, "simVar") {
					continue
				}
				fdeps[x.Name.Name] = ids(x.Body)
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					sp := s.(*ast.ValueSpec)
					if len(sp.Values) == 0 {
						continue
					}
					for k := range sp.Values {
						e := &v{fn: varFn[sp.Values[k]], deps: ids(sp.Values[k])}
						if len(sp.Values) == len(sp.Names) {
							e.names = []string{sp.Names[k].Name}
						} else {
							for _, n := range sp.Names {
								e.names = append(e.names, n.Name)
							}
						}
						vs = append(vs, e)
						for _, n := range e.names {
							owner[n] = e
						}
					}
				}
			}
		}
	}
	need := func(e *v) map[*v]bool {
		res := map[*v]bool{}
		seen := map[string]bool{}
		var w func(m map[string]bool)
		w = func(m map[string]bool) {
			for n := range m {
				if seen[n] {
					continue
				}
				seen[n] = true
				if o := owner[n]; o != nil && o != e {
					res[o] = true
				}
				if f := fdeps[n]; f != nil {
					w(f)
				}
			}
		}
		w(e.deps)
		return res
	}
	deps := map[*v]map[*v]bool{}
	for _, e := range vs {
		deps[e] = need(e)
	}
	done := map[*v]bool{}
	var out []string
	for len(out) < len(vs) {
		var pick *v
		for _, e := range vs {
			if done[e] {
				continue
			}
			ok := true
			for d := range deps[e] {
				if !done[d] {
					ok = false
					break
				}
			}
			if ok {
				pick = e
				break
			}
		}
		if pick == nil { // a false cycle by name: keep declaration order
			for _, e := range vs {
				if !done[e] {
					pick = e
					break
				}
			}
		}
		done[pick] = true
		out = append(out, pick.fn)
	}
	return out
}
