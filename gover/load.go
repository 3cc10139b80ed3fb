package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Program is the code under verification: every non-test file of /repo's package as it is now,
// type-checked together with the contract files.
type Program struct {
	contractDir string
	fset        *token.FileSet
	files       []*ast.File
	contracts   map[*ast.File]bool
	pkg         *types.Package
	info        *types.Info
	decls       map[*types.Func]*ast.FuncDecl
	dropped     []string // contract functions which do not type-check against the current source
	srcFiles    []string
	globals     map[types.Object]ast.Expr
	mutable     map[types.Object]bool // package variables assigned, or whose address is taken, somewhere: true if outside init
	noGhost     bool
	loopNames   map[token.Pos]string
	sets        map[ast.Expr]bool // expressions making a map that one local variable holds and which is only indexed
}

// findSets finds the maps used as local sets: values are struct{} or only true, the variable is only indexed.
func (p *Program) findSets() {
	p.sets = map[ast.Expr]bool{}
	uses, indexed := map[types.Object]int{}, map[types.Object]int{}
	for _, o := range p.info.Uses {
		uses[o]++
	}
	makers := map[types.Object]ast.Expr{}
	def := func(id *ast.Ident, e ast.Expr) {
		v, ok := p.info.Defs[id].(*types.Var)
		if !ok || v.Parent() == nil || v.Parent() == p.pkg.Scope() {
			return
		}
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		if st, ok := m.Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			return
		} else if b, isb := m.Elem().Underlying().(*types.Basic); !ok && !(isb && b.Kind() == types.Bool) {
			return
		}
		switch e := ast.Unparen(e).(type) {
		case *ast.CompositeLit:
			if len(e.Elts) == 0 {
				makers[v] = e
			}
		case *ast.CallExpr:
			if f, ok := e.Fun.(*ast.Ident); ok && p.info.Uses[f] == types.Universe.Lookup("make") {
				makers[v] = e
			}
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for i, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && n.Tok == token.DEFINE && len(n.Lhs) == len(n.Rhs) {
						def(id, n.Rhs[i])
					}
				}
			case *ast.ValueSpec:
				for i, id := range n.Names {
					if len(n.Values) == len(n.Names) {
						def(id, n.Values[i])
					}
				}
			case *ast.IndexExpr:
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
					indexed[p.info.Uses[id]]++
				}
			}
			return true
		})
	}
	for o, e := range makers {
		if uses[o] == indexed[o] {
			p.sets[ast.Unparen(e)] = true
		}
	}
}

func exportData(repo string, imports []string) (map[string]string, error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Export"}, imports...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	m := map[string]string{}
	dec := json.NewDecoder(&out)
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		m[p.ImportPath] = p.Export
	}
	return m, nil
}

func load(repo, contractDir string) (*Program, error) {
	p := &Program{contractDir: contractDir, fset: token.NewFileSet(), contracts: map[*ast.File]bool{}}
	ents, err := os.ReadDir(repo)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || e.IsDir() {
			continue
		}
		if ok, err := build.Default.MatchFile(repo, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(p.fset, filepath.Join(repo, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if f.Name.Name != "query" {
			continue
		}
		p.files = append(p.files, f)
		p.srcFiles = append(p.srcFiles, n)
	}
	if contractDir != "" {
		names, _ := filepath.Glob(filepath.Join(contractDir, "*.go"))
		sort.Strings(names)
		for _, n := range names {
			f, err := parser.ParseFile(p.fset, n, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, f)
			p.contracts[f] = true
		}
	}
	imps := map[string]bool{}
	for _, f := range p.files {
		for _, i := range f.Imports {
			imps[strings.Trim(i.Path.Value, `"`)] = true
		}
	}
	var list []string
	for i := range imps {
		if i != "unsafe" && i != "C" {
			list = append(list, i)
		}
	}
	sort.Strings(list)
	exp, err := exportData(repo, list)
	if err != nil {
		return nil, err
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	for round := 0; ; round++ {
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		var errs []types.Error
		conf := types.Config{Importer: importer.ForCompiler(p.fset, "gc", lookup), Error: func(err error) {
			if e, ok := err.(types.Error); ok {
				errs = append(errs, e)
			}
		}}
		p.pkg, _ = conf.Check("github.com/amarin/query", p.fset, p.files, p.info)
		if len(errs) == 0 {
			break
		}
		removed := false
		for _, e := range errs {
			f := p.fileOf(e.Pos)
			if f == nil || !p.contracts[f] {
				if !e.Soft {
					return nil, fmt.Errorf("type check: %v", e)
				}
				continue
			}
			for i, d := range f.Decls {
				if d.Pos() <= e.Pos && e.Pos <= d.End() {
					if fd, ok := d.(*ast.FuncDecl); ok {
						p.dropped = append(p.dropped, fmt.Sprintf("%s: %s", fd.Name.Name, e.Msg))
					} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
						continue
					}
					f.Decls = append(f.Decls[:i:i], f.Decls[i+1:]...)
					removed = true
					break
				}
			}
		}
		if !removed {
			hard := false
			for _, e := range errs {
				if !strings.Contains(e.Msg, "imported and not used") {
					hard = true
				}
			}
			if hard {
				return nil, fmt.Errorf("type check: %v", errs[0])
			}
			break
		}
		if round > 200 {
			return nil, fmt.Errorf("contracts do not type-check")
		}
	}
	p.findSets()
	p.decls = map[*types.Func]*ast.FuncDecl{}
	p.globals = map[types.Object]ast.Expr{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if fn, ok := p.info.Defs[d.Name].(*types.Func); ok {
					p.decls[fn] = d
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for i, n := range vs.Names {
							if i < len(vs.Values) {
								p.globals[p.info.Defs[n]] = vs.Values[i]
							} else {
								p.globals[p.info.Defs[n]] = nil
							}
						}
					}
				}
			}
		}
	}
	p.findMutable()
	return p, nil
}

// findMutable lists the package variables that the code may change after their initialisation.
func (p *Program) findMutable() {
	p.mutable = map[types.Object]bool{}
	initial := false
	mark := func(e ast.Expr) {
		for e != nil {
			switch v := ast.Unparen(e).(type) {
			case *ast.Ident:
				if o := p.info.ObjectOf(v); o != nil {
					if _, ok := p.globals[o]; ok {
						p.mutable[o] = p.mutable[o] || !initial
					}
				}
				return
			case *ast.IndexExpr:
				e = v.X
			case *ast.SliceExpr:
				e = v.X
			case *ast.SelectorExpr:
				e = v.X
			case *ast.StarExpr:
				e = v.X
			default:
				return
			}
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				initial = n.Recv == nil && n.Name.Name == "init" // happens before any call
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					mark(n.Key)
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
					switch id.Name {
					case "delete", "clear", "copy", "append": // an append may write behind the end of what the variable shows
						if _, ok := p.info.Uses[id].(*types.Builtin); ok && (id.Name != "append" || isSlicing(n.Args[0])) {
							mark(n.Args[0])
						}
					}
				}
				if se, ok := n.Fun.(*ast.SelectorExpr); ok { // a method that takes the address of the variable
					if sel := p.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
						if _, ptr := p.info.TypeOf(se.X).Underlying().(*types.Pointer); ptr {
							return true
						}
						if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
								mark(se.X)
							}
						}
					}
				}
			}
			return true
		})
	}
}

func isSlicing(e ast.Expr) bool {
	_, ok := ast.Unparen(e).(*ast.SliceExpr)
	return ok
}

func (p *Program) fileOf(pos token.Pos) *ast.File {
	for _, f := range p.files {
		if f.FileStart <= pos && pos <= f.FileEnd {
			return f
		}
	}
	return nil
}

func (p *Program) isContractPos(pos token.Pos) bool {
	f := p.fileOf(pos)
	return f != nil && p.contracts[f]
}

func (p *Program) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

type parsed struct {
	fset *token.FileSet
	f    *ast.File
}

func (p *parsed) off(pos token.Pos) int { return p.fset.Position(pos).Offset }

func parseOnly(name string, src []byte) (*parsed, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	return &parsed{fs, f}, nil
}
