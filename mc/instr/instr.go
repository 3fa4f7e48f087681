// Package instr copies a Go module and puts a scheduling point before every
// statement, replaces sync and sync/atomic by the controlled stand-ins, and
// hands the go statements to the scheduler.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var oldGo = regexp.MustCompile(`(?m)^go 1\.([0-9]|1[0-9]|20)\s*$`)

// Stats of one instrumentation.
type Stats struct {
	Packages, Files        int
	Stmts, Shared          int
	GoStmts                int
	Channels, Uncontrolled int
	SyncImports            int
	TypeErrors             int
}

type edit struct {
	pos, end int // replace [pos, end)
	text     string
	order    int
}

// Module copies the module at src to dst, instrumented.
func Module(src, dst string) (Stats, error) {
	var st Stats
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return st, err
	}
	path := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = f[1]
		}
	}
	m := &module{src: src, path: path, pkgs: map[string]*pkg{}, fset: token.NewFileSet(), st: &st}
	var dirs []string
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), "_")) {
				return filepath.SkipDir
			}
			dirs = append(dirs, rel)
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel == "go.mod" {
			// the stand-ins for channel operations are generic; no
			// version up to 1.21 gives the code another meaning
			b = oldGo.ReplaceAll(b, []byte("go 1.21\n"))
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return st, err
	}
	for _, d := range dirs {
		ip := path
		if d != "." {
			ip = path + "/" + filepath.ToSlash(d)
		}
		p := m.load(ip)
		if p == nil {
			continue
		}
		st.Packages++
		for i, f := range p.files {
			out, err := m.file(p, f, p.src[i])
			if err != nil {
				return st, err
			}
			rel, _ := filepath.Rel(src, p.names[i])
			if err := os.WriteFile(filepath.Join(dst, rel), out, 0o644); err != nil {
				return st, err
			}
			st.Files++
		}
	}
	return st, nil
}

type module struct {
	src, path string
	pkgs      map[string]*pkg
	fset      *token.FileSet
	st        *Stats
}

type pkg struct {
	files []*ast.File
	names []string
	src   [][]byte
	info  *types.Info
	types *types.Package
}

// Import gives other packages of the module; anything else is left
// unresolved, which the type checker tolerates here.
func (m *module) Import(path string) (*types.Package, error) {
	if path == m.path || strings.HasPrefix(path, m.path+"/") {
		if p := m.load(path); p != nil {
			return p.types, nil
		}
	}
	return nil, fmt.Errorf("not loaded")
}

func (m *module) load(path string) *pkg {
	if p, ok := m.pkgs[path]; ok {
		return p
	}
	m.pkgs[path] = nil
	dir := filepath.Join(m.src, strings.TrimPrefix(strings.TrimPrefix(path, m.path), "/"))
	ents, _ := os.ReadDir(dir)
	p := &pkg{info: &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}}
	for _, e := range ents {
		n := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(m.fset, n, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.src = append(p.src, b)
	}
	if len(p.files) == 0 {
		return nil
	}
	conf := types.Config{Importer: m, Error: func(error) { m.st.TypeErrors++ }, FakeImportC: true}
	p.types, _ = conf.Check(path, m.fset, p.files, p.info)
	m.pkgs[path] = p
	return p
}

func (m *module) global(p *pkg, id *ast.Ident) bool {
	v, ok := p.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Name() == "_" {
		return false
	}
	return v.Parent() == v.Pkg().Scope()
}

// shared tells whether the parts of a statement that are evaluated at the
// statement itself name a package-level variable or use a channel.
func (m *module) shared(p *pkg, s ast.Node) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return n == s
		case *ast.Ident:
			if m.global(p, x) {
				found = true
			}
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && (id.Name == "sync" || id.Name == "atomic") {
				found = true
			}
		}
		return true
	}
	ast.Inspect(s, visit)
	return found
}

func (m *module) file(p *pkg, f *ast.File, src []byte) ([]byte, error) {
	off := func(pos token.Pos) int { return m.fset.Position(pos).Offset }
	var edits []edit
	add := func(pos, end int, text string) {
		edits = append(edits, edit{pos, end, text, len(edits)})
	}
	// closing parentheses come before anything else inserted at the same
	// place, inner ones first
	closer := func(pos int) {
		edits = append(edits, edit{pos, pos, ")", -len(edits) - 1})
	}
	generated := false
	for _, c := range f.Comments {
		if c.Pos() < f.Package && strings.Contains(c.Text(), "Code generated") {
			generated = true
		}
	}
	add(off(f.Name.End()), off(f.Name.End()), `; import vsched "verif/mc/vsched"`)
	tail := "\nvar _ = vsched.P\n"
	names := map[string]string{} // local name of runtime and time
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		local := ""
		if im.Name != nil {
			local = im.Name.Name
		}
		switch ip {
		case "sync", "sync/atomic":
			repl := map[string]string{"sync": `"verif/mc/vsync"`, "sync/atomic": `"verif/mc/vatomic"`}[ip]
			if local == "" {
				repl = map[string]string{"sync": "sync ", "sync/atomic": "atomic "}[ip] + repl
			}
			add(off(im.Path.Pos()), off(im.Path.End()), repl)
			m.st.SyncImports++
		case "runtime", "time":
			if local == "" {
				local = ip
			}
			if local != "_" && local != "." {
				names[local] = ip
				tail += "var _ = " + local + map[string]string{"runtime": ".Gosched", "time": ".Sleep"}[ip] + "\n"
			}
		}
	}
	stmts := func(list []ast.Stmt, entry bool) {
		for i, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			sh := m.shared(p, s)
			at := off(s.Pos())
			switch {
			case sh:
				m.st.Shared++
				add(at, at, "vsched.P(1); ")
				// a point after it too, where one may stand
				if i+1 < len(list) && m.shared(p, list[i+1]) {
					continue
				}
				switch y := s.(type) {
				case *ast.ExprStmt:
					if call, ok := y.X.(*ast.CallExpr); ok {
						if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "panic" {
							break
						}
					}
					e := off(s.End())
					add(e, e, "; vsched.P(1)")
				case *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt:
					e := off(s.End())
					add(e, e, "; vsched.P(1)")
				}
			case !generated || entry && i == 0:
				m.st.Stmts++
				add(at, at, "vsched.P(0); ")
			}
		}
	}
	bodies := map[*ast.BlockStmt]bool{}
	comm, two := map[ast.Node]bool{}, map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				bodies[x.Body] = true
			}
		case *ast.FuncLit:
			bodies[x.Body] = true
		case *ast.BlockStmt:
			stmts(x.List, bodies[x])
		case *ast.CaseClause:
			stmts(x.Body, false)
		case *ast.CommClause:
			stmts(x.Body, false)
		case *ast.GoStmt:
			m.st.GoStmts++
			call := x.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(x.Pos()), off(fl.Pos()), "vsched.Go(")
				add(off(call.Lparen), off(call.Rparen)+1, ")")
			} else {
				add(off(x.Pos()), off(call.Fun.Pos()), "{ vschedF := ")
				var vs []string
				open := off(call.Lparen)
				if len(call.Args) == 0 {
					add(open, off(call.Rparen)+1, "; vsched.Go(func() { vschedF() }) }")
				} else {
					for i := range call.Args {
						vs = append(vs, fmt.Sprintf("vschedA%d", i))
					}
					add(open, open+1, "; "+strings.Join(vs, ", ")+" := ")
					if call.Ellipsis.IsValid() {
						add(off(call.Ellipsis), off(call.Ellipsis)+3, "")
						vs[len(vs)-1] += "..."
					}
					add(off(call.Rparen), off(call.Rparen)+1, "; vsched.Go(func() { vschedF("+strings.Join(vs, ", ")+") }) }")
				}
			}
		case *ast.SelectStmt:
			m.st.Uncontrolled++
			for _, c := range x.Body.List {
				comm[c.(*ast.CommClause).Comm] = true
			}
		case *ast.RangeStmt:
			if tv, ok := p.info.Types[x.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					m.st.Uncontrolled++
				}
			}
		case *ast.SendStmt:
			if !comm[x] {
				m.st.Channels++
				add(off(x.Pos()), off(x.Pos()), "vsched.Send(")
				add(off(x.Arrow), off(x.Arrow)+2, ",")
				closer(off(x.End()))
			}
		case *ast.ExprStmt:
			if comm[x] {
				comm[x.X] = true
			}
		case *ast.AssignStmt:
			if len(x.Rhs) == 1 {
				if comm[x] {
					comm[x.Rhs[0]] = true
				}
				two[x.Rhs[0]] = len(x.Lhs) == 2
			}
		case *ast.ValueSpec:
			if len(x.Values) == 1 {
				two[x.Values[0]] = len(x.Names) == 2
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				m.st.Channels++
				f := "vsched.Recv("
				if two[x] {
					f = "vsched.Recv2("
				}
				add(off(x.OpPos), off(x.OpPos)+2, f)
				closer(off(x.End()))
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				add(off(id.Pos()), off(id.End()), "vsched.Close")
			}
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok {
					switch {
					case names[id.Name] == "runtime" && sel.Sel.Name == "Gosched":
						add(off(sel.Pos()), off(sel.End()), "vsched.Yield")
					case names[id.Name] == "time" && sel.Sel.Name == "Sleep":
						add(off(sel.Pos()), off(x.Rparen)+1, "vsched.Yield()")
					}
				}
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// insertions come before a replacement that starts here
		ii, ij := edits[i].pos == edits[i].end, edits[j].pos == edits[j].end
		if ii != ij {
			return ii
		}
		return edits[i].order < edits[j].order
	})
	var out []byte
	at := 0
	for _, e := range edits {
		if e.pos < at {
			return nil, fmt.Errorf("overlapping edits at offset %d of %s", e.pos, m.fset.Position(f.Pos()).Filename)
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	return append(out, tail...), nil
}

// Runtime copies the antlr runtime, its locks replaced.
func Runtime(src, dst string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		if strings.HasSuffix(e.Name(), ".go") {
			b = []byte(strings.Replace(string(b), `import "sync"`, `import sync "verif/mc/vsynca"`, 1))
			if strings.Contains(string(b), "\t\"sync") {
				return fmt.Errorf("%s: unexpected use of sync", e.Name())
			}
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
