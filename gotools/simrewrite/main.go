// simrewrite turns the alda client into importable packages that run under the
// deterministic runtime of /verif/sim: goroutines, channels, select, map
// traversal, time, files, sockets, processes and HTTP all go through it. The
// client's sources are read from a copy of /repo/client and never changed.
//
//	simrewrite -src DIR -out DIR -slots N
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

type goPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Export     string
	Error      *struct{ Err string }
}

var shims = map[string]string{
	"os": "os", "os/exec": "os/exec", "os/signal": "os/signal", "net": "net", "net/http": "net/http",
	"path/filepath": "path/filepath", "io/ioutil": "io/ioutil", "io": "io", "time": "time", "sync": "sync",
	"context": "context", "fmt": "fmt", "math/rand": "math/rand", "crypto/rand": "crypto/rand",
	"runtime": "runtime", "log": "log",
	"github.com/chzyer/readline":        "x/readline",
	"github.com/AlecAivazis/survey/v2":  "x/survey",
	"github.com/mattn/go-isatty":        "x/isatty",
}

const shimBase = "alda.sim/shim/"

// Rewritten once per slot because they hold per-process state.
func slotTier(p *goPkg) bool {
	if p.Standard {
		return false
	}
	for _, pre := range []string{"alda.io/client", "github.com/spf13/", "github.com/rs/zerolog", "github.com/OpenPeeDeeP/xdg"} {
		if p.ImportPath == pre || strings.HasPrefix(p.ImportPath, pre) {
			return true
		}
	}
	return false
}

// Rewritten, but a single copy is enough.
func sharedTier(p *goPkg) bool {
	for _, pre := range []string{"github.com/daveyarwood/go-osc", "github.com/google/uuid", "github.com/vbauerster/mpb", "github.com/beevik/etree", "github.com/Jeffail/gabs", "github.com/jackpal/bencode-go", "github.com/google/shlex", "github.com/dustin/go-humanize"} {
		if strings.HasPrefix(p.ImportPath, pre) {
			return true
		}
	}
	return false
}

const module = "slots.sim"

// mapped avoids Go's rule for internal packages.
func mapped(path string) string { return strings.ReplaceAll(path, "internal", "internal_") }

func main() {
	src := flag.String("src", "", "copy of the client module")
	out := flag.String("out", "", "output directory")
	slots := flag.Int("slots", 4, "number of slots")
	mainPath := flag.String("main", "alda.io/client", "main package")
	flag.Parse()
	pkgs := load(*src, *mainPath)
	byPath := map[string]*goPkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	exp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	var order []string
	needed := map[string]bool{}
	// only packages reachable from main without going through a stub
	var reach func(path string)
	reach = func(path string) {
		if needed[path] || byPath[path] == nil || byPath[path].Standard {
			return
		}
		if _, ok := shims[path]; ok {
			return
		}
		needed[path] = true
		for _, i := range byPath[path].Imports {
			reach(i)
		}
	}
	reach(*mainPath)
	for _, p := range pkgs {
		if !needed[p.ImportPath] {
			continue
		}
		slot := slotTier(p)
		if !slot && !sharedTier(p) {
			continue
		}
		if len(p.CgoFiles) > 0 || len(p.EmbedFiles) > 0 {
			die("package %s uses cgo or embed, which the simulation does not support", p.ImportPath)
		}
		rw := &rewriter{fset: fset, pkg: p, slot: slot, byPath: byPath, client: strings.HasPrefix(p.ImportPath, "alda.io/client")}
		rw.run(*out, *slots, checked, exp)
		if slot {
			order = append(order, p.ImportPath)
		}
	}
	// go.mod of the slots module
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+module+"\n\ngo 1.19\n"), 0644))
	for i := 0; i < *slots; i++ {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package root\n\nimport (\n\t\"alda.sim/world\"\n")
		for k, p := range order {
			fmt.Fprintf(&b, "\tp%d %q\n", k, fmt.Sprintf("%s/s%d/%s", module, i, mapped(p)))
		}
		fmt.Fprintf(&b, ")\n\nfunc init() {\n\tworld.RegisterSlot(&world.Slot{Name: \"s%d\", Init: func() {\n", i)
		for k := range order {
			fmt.Fprintf(&b, "\t\tp%d.SimInit()\n", k)
		}
		mainIdx := -1
		for k, p := range order {
			if p == *mainPath {
				mainIdx = k
			}
		}
		if mainIdx < 0 {
			die("main package %s was not rewritten", *mainPath)
		}
		fmt.Fprintf(&b, "\t}, Main: func() { p%d.SimMain() }})\n}\n", mainIdx)
		dir := filepath.Join(*out, fmt.Sprintf("s%d", i), "root")
		must(os.MkdirAll(dir, 0755))
		must(os.WriteFile(filepath.Join(dir, "root.go"), b.Bytes(), 0644))
	}
	var b bytes.Buffer
	b.WriteString("package all\n\nimport (\n")
	for i := 0; i < *slots; i++ {
		fmt.Fprintf(&b, "\t_ \"%s/s%d/root\"\n", module, i)
	}
	b.WriteString(")\n")
	must(os.MkdirAll(filepath.Join(*out, "all"), 0755))
	must(os.WriteFile(filepath.Join(*out, "all", "all.go"), b.Bytes(), 0644))
}

func load(dir, mainPath string) []*goPkg {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,EmbedFiles,Imports,ImportMap,Standard,Export,Error", mainPath)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*goPkg
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

type imp struct {
	checked map[string]*types.Package
	exp     types.Importer
	m       map[string]string
}

func (i imp) Import(path string) (*types.Package, error) {
	if r, ok := i.m[path]; ok {
		path = r
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.exp.Import(path)
}

type rewriter struct {
	fset   *token.FileSet
	pkg    *goPkg
	slot   bool
	client bool
	byPath map[string]*goPkg
	info   *types.Info
	files  []*ast.File
	n      int
	useRT  bool
}

func (r *rewriter) fresh(s string) string { r.n++; return fmt.Sprintf("sim_%s%d", s, r.n) }

func (r *rewriter) run(out string, slots int, checked map[string]*types.Package, exp types.Importer) {
	p := r.pkg
	files := append([]string(nil), p.GoFiles...)
	sort.Strings(files)
	for _, f := range files {
		af, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		must(err)
		r.files = append(r.files, af)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp{checked, exp, p.ImportMap}, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, r.fset, r.files, r.info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	checked[p.ImportPath] = tp

	// where each variable is declared
	specOf := map[types.Object]*ast.ValueSpec{}
	fileOf := map[types.Object]int{}
	type uninit struct {
		file  int
		names []string
		typ   ast.Expr
	}
	var uninits []uninit
	for fi, f := range r.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if o := r.info.Defs[n]; o != nil {
						specOf[o] = vs
						fileOf[o] = fi
					}
				}
				if len(vs.Values) == 0 {
					var names []string
					for _, n := range vs.Names {
						if n.Name != "_" {
							names = append(names, n.Name)
						}
					}
					if len(names) > 0 {
						uninits = append(uninits, uninit{fi, names, vs.Type})
					}
				}
			}
		}
	}
	extra := make([]bytes.Buffer, len(r.files))
	var steps []string
	// rewriting happens in place; remember which spec value each initialiser is
	type ini struct {
		file int
		lhs  []string
		spec *ast.ValueSpec
		idx  int // -1: multi-value
	}
	var inits []ini
	for _, in := range r.info.InitOrder {
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		// find the spec
		vs := specOf[in.Lhs[0]]
		if vs == nil {
			continue
		}
		idx := -1
		if len(vs.Values) == len(vs.Names) {
			for i, n := range vs.Names {
				if r.info.Defs[n] == types.Object(in.Lhs[0]) {
					idx = i
				}
			}
		}
		inits = append(inits, ini{fileOf[in.Lhs[0]], lhs, vs, idx})
	}
	// init functions
	var initFuncs []string
	for _, f := range r.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" && r.slot {
				fd.Name.Name = fmt.Sprintf("simInitFunc%d", len(initFuncs)+1)
				initFuncs = append(initFuncs, fd.Name.Name)
			}
			if fd.Name.Name == "main" && p.Name == "main" {
				fd.Name.Name = "SimMain"
			}
		}
	}
	usesRT := make([]bool, len(r.files))
	for i, f := range r.files {
		r.useRT = false
		r.files[i] = r.rewriteFile(f)
		usesRT[i] = r.useRT
	}
	if r.slot {
		for k, u := range uninits {
			fn := fmt.Sprintf("simZero%d", k)
			fmt.Fprintf(&extra[u.file], "\nfunc %s() {\n\tvar simZ %s\n", fn, r.str(u.typ))
			for _, n := range u.names {
				fmt.Fprintf(&extra[u.file], "\t%s = simZ\n", n)
			}
			extra[u.file].WriteString("}\n")
			steps = append(steps, fn)
		}
		for k, in := range inits {
			fn := fmt.Sprintf("simVar%d", k)
			rhs := in.spec.Values[0]
			if in.idx >= 0 {
				rhs = in.spec.Values[in.idx]
			}
			fmt.Fprintf(&extra[in.file], "\nfunc %s() {\n\t%s = %s\n}\n", fn, strings.Join(in.lhs, ", "), r.str(rhs))
			steps = append(steps, fn)
		}
		steps = append(steps, initFuncs...)
		fmt.Fprintf(&extra[0], "\nfunc SimInit() {\n")
		for _, s := range steps {
			fmt.Fprintf(&extra[0], "\t%s()\n", s)
		}
		extra[0].WriteString("}\n")
	}
	for i, f := range r.files {
		if r.slot {
			r.stripInits(f, tp)
		}
		if p.Name == "main" {
			f.Name.Name = "simmain"
		}
		r.imports(f, usesRT[i])
		f.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, r.fset, f); err != nil {
			die("printing %s: %v", files[i], err)
		}
		b.Write(extra[i].Bytes())
		text := b.String()
		if r.slot {
			for s := 0; s < slots; s++ {
				t := strings.ReplaceAll(text, module+"/SLOT/", fmt.Sprintf("%s/s%d/", module, s))
				r.write(filepath.Join(out, fmt.Sprintf("s%d", s), mapped(p.ImportPath), files[i]), t)
			}
		} else {
			r.write(filepath.Join(out, "shared", mapped(p.ImportPath), files[i]), text)
		}
	}
}

// stripInits removes the initialisers of package-level variables, giving every
// variable an explicit type: SimInit assigns them inside a simulation.
func (r *rewriter) stripInits(f *ast.File, tp *types.Package) {
	names := map[string]string{} // import path -> name in f
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if is.Name != nil {
			if is.Name.Name != "_" && is.Name.Name != "." {
				names[path] = is.Name.Name
			}
		}
	}
	var extra []ast.Spec
	qual := func(q *types.Package) string {
		if q == tp {
			return ""
		}
		if n, ok := names[q.Path()]; ok {
			return n
		}
		n := r.fresh("pkg")
		names[q.Path()] = n
		extra = append(extra, &ast.ImportSpec{Name: ast.NewIdent(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(q.Path())}})
		return n
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				specs = append(specs, vs)
				continue
			}
			for _, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				ns := &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(n.Name)}, Type: vs.Type}
				if ns.Type == nil {
					ts := types.TypeString(types.Default(r.info.Defs[n].Type()), qual)
					if strings.Contains(ts, "chan ") || strings.Contains(ts, "chan<-") {
						die("package variable %s of type %s needs an explicit type", n.Name, ts)
					}
					e, err := parser.ParseExpr(ts)
					if err != nil {
						die("type %s: %v", ts, err)
					}
					ns.Type = e
				}
				specs = append(specs, ns)
			}
			if len(vs.Names) == 1 && vs.Names[0].Name == "_" {
				specs = append(specs, vs)
			}
		}
		g.Specs = specs
		if len(specs) != 1 && !g.Lparen.IsValid() {
			g.Lparen, g.Rparen = g.TokPos, g.TokPos
		}
	}
	if len(extra) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: extra, Lparen: f.Package, Rparen: f.Package}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
}

func (r *rewriter) write(path, text string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(text), 0644))
}

func (r *rewriter) str(e ast.Node) string {
	var b bytes.Buffer
	must(format.Node(&b, r.fset, e))
	return b.String()
}

func (r *rewriter) imports(f *ast.File, useRT bool) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			np := path
			if sh, ok := shims[path]; ok {
				np = shimBase + sh
			} else if q := r.byPath[path]; q != nil && !q.Standard {
				if slotTier(q) {
					np = module + "/SLOT/" + mapped(path)
				} else if sharedTier(q) {
					np = module + "/shared/" + mapped(path)
				}
			}
			is.Path.Value = strconv.Quote(np)
			is.EndPos = 0
		}
	}
	if useRT {
		g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"alda.sim/rt"`}}}}
		f.Decls = append([]ast.Decl{g}, f.Decls...)
	}
}

func (r *rewriter) rt(name string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// pkgName reports whether e is a use of the imported package with this path.
func (r *rewriter) pkgName(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func blankIdent(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
func id(s string) *ast.Ident   { return ast.NewIdent(s) }
func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) rewriteFile(f *ast.File) *ast.File {
	skipRecv := map[*ast.UnaryExpr]bool{} // receives handled by their parent
	// selects first (pre-order), everything else bottom-up
	res := astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case *ast.ExprStmt:
					if u, ok := isRecv(s.X); ok {
						skipRecv[u] = true
					}
				case *ast.AssignStmt:
					if u, ok := isRecv(s.Rhs[0]); ok {
						skipRecv[u] = true
					}
				}
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := isRecv(n.Rhs[0]); ok && !skipRecv[u] {
					n.Rhs[0] = &ast.CallExpr{Fun: r.rt("Recv2"), Args: []ast.Expr{u.X}}
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := isRecv(n.Values[0]); ok {
					n.Values[0] = &ast.CallExpr{Fun: r.rt("Recv2"), Args: []ast.Expr{u.X}}
				}
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skipRecv[n] {
				c.Replace(r.call("Recv", n.X))
			}
		case *ast.SendStmt:
			if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
				return true
			}
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendTo", n.Chan), Sel: id("Do")}, Args: []ast.Expr{n.Value}}})
		case *ast.CallExpr:
			if r.builtin(n.Fun, "close") {
				n.Fun = r.rt("Close")
			} else if r.builtin(n.Fun, "len") && len(n.Args) == 1 && isChan(r.typeOf(n.Args[0])) {
				n.Fun = r.rt("Len")
			}
		case *ast.SelectorExpr:
			if r.pkgName(n.X, "os") {
				switch n.Sel.Name {
				case "Args", "Stdin", "Stdout", "Stderr":
					c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: n.X, Sel: id("Sim" + n.Sel.Name)}}}})
				}
			}
		case *ast.GoStmt:
			c.Replace(r.goStmt(n))
		case *ast.RangeStmt:
			if s := r.rangeStmt(n); s != nil {
				c.Replace(s)
			}
		case *ast.SelectStmt:
			if ls, ok := c.Parent().(*ast.LabeledStmt); ok {
				_ = ls // replaced together with its label below
				return true
			}
			c.Replace(r.selectStmt(n, nil))
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
				c.Replace(r.selectStmt(sel, n.Label))
			}
		}
		return true
	})
	f = res.(*ast.File)
	if r.client {
		r.insertP(f)
	}
	return f
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	fl, isLit := ast.Unparen(call.Fun).(*ast.FuncLit)
	if isLit && len(call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.call("Go", fl)}
		}
	}
	wrap := func(c *ast.CallExpr) ast.Stmt {
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
		return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	}
	if tv, ok := r.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		return wrap(call)
	}
	if len(call.Args) == 1 {
		if t, ok := r.typeOf(call.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			return wrap(call)
		}
	}
	blk := &ast.BlockStmt{}
	fn := r.fresh("f")
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	// a function or method named directly needs no copy unless it has a receiver
	simple := false
	switch fx := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		_, simple = r.info.Uses[fx].(*types.Func)
	case *ast.SelectorExpr:
		if pid, ok := fx.X.(*ast.Ident); ok {
			_, simple = r.info.Uses[pid].(*types.PkgName)
			if simple {
				_, simple = r.info.Uses[fx.Sel].(*types.Func)
			}
		}
	case *ast.FuncLit:
		simple = true
	}
	if simple {
		nc.Fun = call.Fun
		if isLit {
			nc.Fun = &ast.ParenExpr{X: call.Fun}
		}
	} else {
		blk.List = append(blk.List, define([]ast.Expr{id(fn)}, call.Fun))
		nc.Fun = id(fn)
	}
	for _, a := range call.Args {
		tv := r.info.Types[a]
		_, lit := ast.Unparen(a).(*ast.FuncLit)
		if tv.Value != nil || tv.IsNil() || lit {
			nc.Args = append(nc.Args, a)
			continue
		}
		v := r.fresh("a")
		blk.List = append(blk.List, define([]ast.Expr{id(v)}, a))
		nc.Args = append(nc.Args, id(v))
	}
	blk.List = append(blk.List, wrap(nc))
	return blk
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(n.X)
	switch {
	case isChan(t):
		it := r.fresh("it")
		if blankIdent(n.Key) {
			return &ast.ForStmt{Init: define([]ast.Expr{id(it)}, r.call("ChanRange0", n.X)), Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id("Next")}, Args: []ast.Expr{id("nil")}}, Body: n.Body}
		}
		k := n.Key
		body := n.Body
		if n.Tok == token.ASSIGN {
			v := r.fresh("v")
			k = id(v)
			body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}}, n.Body.List...)}
		}
		return &ast.ForStmt{Init: define([]ast.Expr{k, id(it)}, r.call("ChanRange", n.X)), Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id("Next")}, Args: []ast.Expr{addr(k)}}, Body: body}
	case isMap(t):
		it := r.fresh("it")
		hk, hv := !blankIdent(n.Key), !blankIdent(n.Value)
		k, v := n.Key, n.Value
		body := n.Body
		if n.Tok == token.ASSIGN && (hk || hv) {
			var pre ast.AssignStmt
			pre.Tok = token.ASSIGN
			if hk {
				s := r.fresh("k")
				pre.Lhs, pre.Rhs = append(pre.Lhs, n.Key), append(pre.Rhs, id(s))
				k = id(s)
			}
			if hv {
				s := r.fresh("v")
				pre.Lhs, pre.Rhs = append(pre.Lhs, n.Value), append(pre.Rhs, id(s))
				v = id(s)
			}
			body = &ast.BlockStmt{List: append([]ast.Stmt{&pre}, n.Body.List...)}
		}
		next := func(name string, args ...ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id(name)}, Args: args}
		}
		switch {
		case hk && hv:
			return &ast.ForStmt{Init: define([]ast.Expr{k, v, id(it)}, r.call("MapIt2", n.X)), Cond: next("Next", addr(k), addr(v)), Body: body}
		case hk:
			return &ast.ForStmt{Init: define([]ast.Expr{k, id(it)}, r.call("MapItK", n.X)), Cond: next("NextK", addr(k)), Body: body}
		case hv:
			return &ast.ForStmt{Init: define([]ast.Expr{v, id(it)}, r.call("MapItV", n.X)), Cond: next("NextV", addr(v)), Body: body}
		default:
			return &ast.ForStmt{Init: define([]ast.Expr{id(it)}, r.call("MapIt0", n.X)), Cond: next("Next0"), Body: body}
		}
	}
	return nil
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	args := []ast.Expr{id("false")}
	hasDefault := false
	idx := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		out := &ast.CaseClause{Body: cc.Body}
		if cc.Comm == nil {
			hasDefault = true
			args[0] = id("true")
			sw.Body.List = append(sw.Body.List, out)
			continue
		}
		v := r.fresh("c")
		out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		args = append(args, id(v))
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			blk.List = append(blk.List, define([]ast.Expr{id(v)}, &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendCaseTo", s.Chan), Sel: id("With")}, Args: []ast.Expr{s.Value}}))
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			blk.List = append(blk.List, define([]ast.Expr{id(v)}, r.call("RecvCase", u.X)))
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			blk.List = append(blk.List, define([]ast.Expr{id(v)}, r.call("RecvCase", u.X)))
			a := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id("V")}}}
			if len(s.Lhs) == 2 {
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: id(v), Sel: id("OK")})
			}
			allBlank := true
			for _, l := range s.Lhs {
				if !blankIdent(l) {
					allBlank = false
				}
			}
			if allBlank {
				a.Tok = token.ASSIGN
			}
			out.Body = append([]ast.Stmt{a}, out.Body...)
		}
		sw.Body.List = append(sw.Body.List, out)
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = r.call("Select", args...)
	if label != nil {
		blk.List = append(blk.List, &ast.LabeledStmt{Label: label, Stmt: sw})
	} else {
		blk.List = append(blk.List, sw)
	}
	return blk
}

// insertP puts a preemption point before every statement.
func (r *rewriter) insertP(f *ast.File) {
	p := func(list []ast.Stmt) []ast.Stmt {
		if len(list) == 0 {
			return list
		}
		r.useRT = true
		out := make([]ast.Stmt, 0, 2*len(list))
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt:
			default:
				out = append(out, &ast.ExprStmt{X: r.call("P")})
			}
			out = append(out, s)
		}
		return out
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					r.block(n.Body, p)
				}
				return false
			case *ast.FuncLit:
				r.block(n.Body, p)
				return false
			}
			return true
		})
	}
}

func (r *rewriter) block(b *ast.BlockStmt, p func([]ast.Stmt) []ast.Stmt) {
	var fixes []func()
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !caseBlock(n) {
				fixes = append(fixes, func() { n.List = p(n.List) })
			}
		case *ast.CaseClause:
			fixes = append(fixes, func() { n.Body = p(n.Body) })
		case *ast.ForStmt:
			// an empty body still needs a point so that endless loops are seen
			if len(n.Body.List) == 0 {
				fixes = append(fixes, func() { r.useRT = true; n.Body.List = []ast.Stmt{&ast.ExprStmt{X: r.call("P")}} })
			}
		}
		return true
	})
	for _, f := range fixes {
		f()
	}
}

func caseBlock(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrewrite: "+f+"\n", a...)
	os.Exit(3)
}
func must(err error) {
	if err != nil {
		die("%v", err)
	}
}
