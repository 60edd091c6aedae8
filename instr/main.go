// instr rewrites the Go files of the checked packages so that map iteration
// order, random numbers, the clock, locks and scheduling points are decided by
// the model checker, and writes a go build overlay. It edits text at positions
// found in the type-checked syntax tree, so every directive and line stays.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Error                         *struct{ Err string }
}

type edit struct {
	off, end int
	text     string
	seq      int
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "directory for the rewritten files")
	plain := flag.Bool("plain", false, "do not rewrite, only add the harness files")
	adds := flag.String("add", "", "comma separated target=source files to add to the overlay")
	overlayFile := flag.String("overlay", "", "overlay file to write")
	web := flag.Bool("web", false, "also add the program at the top of the repository as package internal/zzweb")
	flag.Parse()

	replace := map[string]string{}
	for _, a := range strings.Split(*adds, ",") {
		if t, s, ok := strings.Cut(a, "="); ok {
			replace[t] = s
		}
	}
	if !*plain {
		if err := instrument(*repo, *out, replace); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
	if *web {
		if err := program(*repo, *out, *plain, replace); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlayFile, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(repo, out string, replace map[string]string) error {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Error", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var targets []listPkg
	dec := json.NewDecoder(strings.NewReader(string(o)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Dir == repo || strings.HasPrefix(p.Dir, repo+"/") {
			targets = append(targets, p)
		}
	}
	for _, p := range targets {
		if err := instrumentPkg(repo, out, p, exports, replace); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return nil
}

func instrumentPkg(repo, out string, p listPkg, exports map[string]string, replace map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	g := &globals{info: info, changed: map[types.Object]bool{}}
	for _, f := range files {
		g.scan(f)
	}
	for i, f := range files {
		name := filepath.Join(p.Dir, p.GoFiles[i])
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, name)
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, rewrite(fset, f, src, info, g), 0644); err != nil {
			return err
		}
		replace[name] = dst
	}
	return nil
}

// globals knows the package-level variables of the module.
type globals struct {
	info    *types.Info
	changed map[types.Object]bool // somewhere outside their declaration
	inits   bool                  // the package has an init function
}

// variable returns the package-level variable the expression is, is part of or
// is reached through.
func (g *globals) variable(e ast.Expr) (*types.Var, string) {
	field := ""
	for {
		switch x := e.(type) {
		case *ast.Ident:
			v, ok := g.info.Uses[x].(*types.Var)
			if ok && v.Pkg() != nil && !v.IsField() && v.Parent() == v.Pkg().Scope() && strings.HasPrefix(v.Pkg().Path(), "github.com/CAU-CPSS/logument") {
				return v, v.Pkg().Name() + "." + v.Name() + field
			}
			return nil, ""
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := g.info.Uses[id].(*types.PkgName); ok {
					e = x.Sel
					continue
				}
			}
			field = "." + x.Sel.Name
			e = x.X
		case *ast.IndexExpr:
			field = ""
			e = x.X
		case *ast.SliceExpr:
			field = ""
			e = x.X
		case *ast.StarExpr:
			field = ""
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil, ""
		}
	}
}

type use struct {
	name  string
	write bool
}

func fromSync(o types.Object) bool {
	return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic")
}

// uses lists the uses of package-level variables by the statement itself, not
// by the blocks inside it, and says whether it synchronizes.
func (g *globals) uses(s ast.Node) (list []use, syncs bool) {
	add := func(e ast.Expr, write bool) bool {
		v, name := g.variable(e)
		if v == nil {
			return false
		}
		list = append(list, use{name, write})
		return true
	}
	var walk func(n ast.Node)
	write := func(e ast.Expr) {
		if add(e, true) {
			ast.Inspect(e, func(n ast.Node) bool { // indices
				if x, ok := n.(*ast.IndexExpr); ok {
					walk(x.Index)
				}
				return true
			})
		} else {
			walk(e)
		}
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				return false
			case *ast.SendStmt, *ast.SelectStmt:
				syncs = true
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					if n.Tok == token.DEFINE {
						continue
					}
					write(e)
				}
				for _, e := range n.Rhs {
					walk(e)
				}
				return false
			case *ast.IncDecStmt:
				write(n.X)
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					syncs = true
				}
			case *ast.CallExpr:
				switch f := n.Fun.(type) {
				case *ast.Ident:
					if _, ok := g.info.Uses[f].(*types.Builtin); ok && len(n.Args) > 0 {
						switch f.Name {
						case "delete", "clear", "copy":
							write(n.Args[0])
							for _, a := range n.Args[1:] {
								walk(a)
							}
							return false
						case "close":
							syncs = true
						case "len", "cap":
							t := g.info.Types[n.Args[0]].Type
							if t != nil {
								if _, ok := t.Underlying().(*types.Array); ok {
									return false
								}
							}
						}
					}
				case *ast.SelectorExpr:
					if fromSync(g.info.Uses[f.Sel]) {
						syncs = true
						for _, a := range n.Args {
							if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
								continue
							}
							walk(a)
						}
						return false
					}
					if s := g.info.Selections[f]; s != nil && s.Obj().Pkg() != nil {
						switch s.Obj().Pkg().Path() {
						case "bytes", "strings":
							if n := f.Sel.Name; strings.HasPrefix(n, "Write") || n == "Reset" || n == "Truncate" {
								add(f.X, true)
							}
						}
					}
				}
			case *ast.SelectorExpr:
				return !add(n, false)
			case *ast.Ident:
				add(n, false)
			}
			return true
		})
	}
	walk(s)
	return
}

// scan notes which package-level variables are changed.
func (g *globals) scan(f *ast.File) {
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fn.Recv == nil && fn.Name.Name == "init" {
			g.inits = true
		}
		note := func(e ast.Expr) {
			if v, _ := g.variable(e); v != nil {
				g.changed[v] = true
			}
		}
		ast.Inspect(fn, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					note(e)
				}
			case *ast.IncDecStmt:
				note(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					note(n.X)
				}
			case *ast.CallExpr:
				switch f := n.Fun.(type) {
				case *ast.Ident:
					if f.Name == "delete" || f.Name == "clear" || f.Name == "copy" {
						note(n.Args[0])
					}
				case *ast.SelectorExpr:
					if g.info.Selections[f] != nil {
						note(f.X)
					}
				}
			}
			return true
		})
	}
}

// reset returns code that gives the changed package-level variables of the
// file their initial values again, where that can be done.
func (g *globals) reset(fset *token.FileSet, f *ast.File, src []byte) string {
	if g.inits {
		return ""
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	plain := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				tv := g.info.Types[n.Fun]
				if tv.IsType() || tv.IsBuiltin() {
					return true
				}
				if sel, is := n.Fun.(*ast.SelectorExpr); is {
					if id, is := sel.X.(*ast.Ident); is {
						if pn, is := g.info.Uses[id].(*types.PkgName); is {
							switch pn.Imported().Path() {
							case "sync", "regexp", "strings", "errors", "fmt", "maps", "slices", "bytes", "strconv":
								return true
							}
						}
					}
				}
				ok = false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					ok = false
				}
			}
			return ok
		})
		return ok
	}
	code := ""
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, name := range vs.Names {
				if name.Name == "_" || !g.changed[g.info.Defs[name]] {
					continue
				}
				switch {
				case len(vs.Values) == 0:
					code += fmt.Sprintf("%s = *new(%s); ", name.Name, text(vs.Type))
				case len(vs.Values) == len(vs.Names) && plain(vs.Values[i]):
					code += fmt.Sprintf("%s = %s; ", name.Name, text(vs.Values[i]))
				}
			}
		}
	}
	if code == "" {
		return ""
	}
	return "\nfunc init() { zzrt.OnReset(func() { " + code + "}) }\n"
}

// randFuncs are the functions of math/rand and math/rand/v2 that are decided
// by the checker, and the methods of generators likewise.
var randFuncs = map[string]string{"Float64": "Float64", "Intn": "Intn", "Int63n": "Int63n", "Int31n": "Int31n", "Int": "Int", "Perm": "Perm", "Shuffle": "Shuffle",
	"IntN": "Intn", "Int64N": "Int63n", "Int32N": "Int31n", "N": "N"}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, g *globals) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, s string) { edits = append(edits, edit{off(p), off(p), s, len(edits)}) }
	rep := func(a, b token.Pos, s string) { edits = append(edits, edit{off(a), off(b), s, len(edits)}) }
	needUse := map[string]string{}

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			if _, ok := s.(*ast.GoStmt); ok {
				ins(s.Pos(), "zzrt.G();")
				continue
			}
			uses, syncs := g.uses(s)
			code := ""
			seen := map[use]bool{}
			for _, u := range uses {
				if !seen[u] {
					seen[u] = true
					code += fmt.Sprintf("zzrt.A(%q, %v);", u.name, u.write)
				}
			}
			if len(uses) > 0 || syncs {
				code += "zzrt.S();"
			} else {
				code += "zzrt.P();"
			}
			if _, ok := s.(*ast.DeferStmt); syncs && ok {
				code += "defer zzrt.Y();"
			} else if syncs {
				code += "zzrt.YY();"
			}
			ins(s.Pos(), code)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				ins(n.Body.Lbrace+1, "zzrt.F();")
			}
		case *ast.FuncLit:
			ins(n.Body.Lbrace+1, "zzrt.P();")
		case *ast.ForStmt:
			ins(n.Body.Lbrace+1, "zzrt.P();")
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.RangeStmt:
			ins(n.Body.Lbrace+1, "zzrt.P();")
			if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
				if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
					ins(n.X.Pos(), "zzrt.Range(")
					ins(n.X.End(), ")")
				}
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			name := n.Sel.Name
			switch pn.Imported().Path() {
			case "math/rand", "math/rand/v2":
				if to := randFuncs[name]; to != "" {
					rep(n.Pos(), n.End(), "zzrt."+to)
					needUse[id.Name+".Int"] = ""
				}
			case "time":
				if name == "Now" || name == "Since" {
					rep(n.Pos(), n.End(), "zzrt."+name)
					needUse[id.Name+".Now"] = ""
				}
			case "maps":
				if name == "Keys" || name == "Values" || name == "All" {
					if name == "All" {
						name = "Range"
					}
					rep(n.Pos(), n.End(), "zzrt."+name)
					needUse[id.Name+".Clone[map[int]int]"] = ""
				}
			}
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
				to := randFuncs[sel.Sel.Name]
				switch s.Recv().String() {
				case "*math/rand.Rand", "*math/rand/v2.Rand", "math/rand.Rand", "math/rand/v2.Rand":
					if to != "" {
						ins(n.Pos(), "zzrt.Own"+to+"(")
						comma := ""
						if len(n.Args) > 0 {
							comma = ", "
						}
						rep(sel.X.End(), n.Lparen+1, "."+sel.Sel.Name+comma)
					}
				}
			}
		case *ast.ExprStmt:
			call, ok := n.X.(*ast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			s := info.Selections[sel]
			if s == nil || s.Obj().Pkg() == nil || s.Obj().Pkg().Path() != "sync" {
				return true
			}
			recv := ""
			if fn, ok := s.Obj().(*types.Func); ok {
				recv = fn.Type().(*types.Signature).Recv().Type().String()
			}
			switch {
			case (sel.Sel.Name == "Lock" || sel.Sel.Name == "RLock") && (recv == "*sync.Mutex" || recv == "*sync.RWMutex"):
				ins(n.Pos(), "zzrt.Spin(")
				rep(sel.Sel.Pos(), n.End(), "Try"+sel.Sel.Name+")")
			case sel.Sel.Name == "Do" && recv == "*sync.Once":
				ins(n.Pos(), "zzrt.Once(func() { ")
				ins(n.End(), " })")
			}
		}
		return true
	})
	ins(f.Name.End(), `; import zzrt "github.com/CAU-CPSS/logument/internal/zzrt"`)
	tail := "\nvar _ = zzrt.P\n" + g.reset(fset, f, src)
	for u := range needUse {
		tail += "var _ = " + u + "\n"
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos { // inside a replaced range
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return []byte(b.String())
}

// program adds the main package as a package that can be imported. What starts
// a web server there goes through zzrt.
func program(repo, out string, plain bool, replace map[string]string) error {
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return err
	}
	run := ""
	dir := filepath.Join(repo, "internal", "zzweb")
	for _, name := range names {
		base := filepath.Base(name)
		if strings.HasSuffix(base, "_test.go") {
			continue
		}
		from := name
		if r := replace[name]; r != "" {
			from = r
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			continue
		}
		var edits []edit
		off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
		rep := func(a, b token.Pos, s string) { edits = append(edits, edit{off(a), off(b), s, len(edits)}) }
		rep(f.Name.Pos(), f.Name.End(), "zzweb")
		pkg := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"net/http"` {
				pkg = "http"
				if im.Name != nil {
					pkg = im.Name.Name
				}
			}
		}
		server := ""
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			ast.Inspect(fn, func(n ast.Node) bool {
				call, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				sel, ok := call.Fun.(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != "ListenAndServe" {
					return true
				}
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == pkg && pkg != "" {
					rep(sel.Pos(), sel.End(), "zzrt.ListenAndServe")
					server = pkg
				} else if len(call.Args) == 0 {
					rep(sel.Pos(), sel.Pos(), "zzrt.Serve(")
					rep(sel.X.End(), call.End(), ")")
					server = pkg
				} else {
					return true
				}
				if fn.Recv == nil && fn.Type.Params.NumFields() == 0 && run != "WebDemo" {
					run = fn.Name.Name
				}
				return true
			})
			if fn.Recv == nil && fn.Name.Name == "WebDemo" {
				run = fn.Name.Name
			}
		}
		if !strings.Contains(string(src), "import zzrt ") {
			rep(f.Name.End(), f.Name.End(), `; import zzrt "github.com/CAU-CPSS/logument/internal/zzrt"`)
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		pos := 0
		for _, e := range edits {
			b.Write(src[pos:e.off])
			b.WriteString(e.text)
			pos = e.end
		}
		b.Write(src[pos:])
		b.WriteString("\nvar _ = zzrt.ListenAndServe\n")
		if server != "" {
			b.WriteString("var _ = " + server + ".ListenAndServe\n")
		}
		text := b.String()
		if !plain { // a request may be interrupted before every statement here
			text = strings.ReplaceAll(text, "zzrt.P();", "zzrt.S();")
		}
		dst := filepath.Join(out, "zzweb__"+base)
		if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
			return err
		}
		replace[filepath.Join(dir, base)] = dst
	}
	if run == "" {
		return fmt.Errorf("found no function that starts the web server")
	}
	dst := filepath.Join(out, "zzweb__zz_run.go")
	replace[filepath.Join(dir, "zz_run.go")] = dst
	return os.WriteFile(dst, []byte("package zzweb\n\n// Run starts the web demo.\nfunc Run() { "+run+"() }\n"), 0644)
}
