package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Loading of /repo's workspace: every package of the five modules from source,
// their dependencies from export data produced by the build.

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

type FuncInfo struct {
	Name string // full name, e.g. common/hashslot.CombineEdges or (metaserver/x.T).M
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *PkgInfo
}

type PkgInfo struct {
	Path  string
	Pkg   *types.Package
	Info  *types.Info
	Files []*ast.File
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*PkgInfo
	Funcs map[string]*FuncInfo
	ByObj map[*types.Func]*FuncInfo
	// number of assignments to package-level variables outside their declaration
	GlobalWrites map[types.Object]int
	GlobalInit   map[types.Object]globalInit
	GlobalUses   map[types.Object]int // all uses of a package variable
	GlobalReads  map[types.Object]int // those that only read its length or elements
}
type globalInit struct {
	E   ast.Expr
	Pkg *PkgInfo
}

var repoDir = "/repo"
var modules = []string{"adminserver", "apiserver", "common", "metaserver", "objectserver"}

// workspaceEnv prepares a private go.work (outside /repo and /opt/vp) and returns the environment.
func workspaceEnv(dir string) ([]string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	var sb strings.Builder
	sb.WriteString("go 1.20\n\nuse (\n")
	for _, m := range modules {
		fmt.Fprintf(&sb, "\t%s\n", filepath.Join(repoDir, "src", m))
	}
	sb.WriteString(")\n")
	if err := os.WriteFile(filepath.Join(dir, "go.work"), []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	lines := map[string]bool{}
	for _, f := range []string{"/opt/vp/gowork/base.sum", filepath.Join(repoDir, "go.work.sum")} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) != "" {
				lines[l] = true
			}
		}
	}
	ks := sortedKeys(lines)
	if err := os.WriteFile(filepath.Join(dir, "go.work.sum"), []byte(strings.Join(ks, "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	env := os.Environ()
	env = append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "GOWORK="+filepath.Join(dir, "go.work"))
	return env, nil
}

func Load(env []string) (*Program, error) {
	args := []string{"list", "-export", "-deps", "-e=false", "-json=ImportPath,Dir,Export,GoFiles,Imports,ImportMap,Standard,Module"}
	for _, m := range modules {
		args = append(args, "./src/"+m+"/...")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	all := map[string]*listPkg{}
	var mine []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pp := p
		all[p.ImportPath] = &pp
		if p.Module != nil && p.Module.Main {
			mine = append(mine, &pp)
		}
	}
	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*PkgInfo{}, Funcs: map[string]*FuncInfo{},
		ByObj: map[*types.Func]*FuncInfo{}, GlobalWrites: map[types.Object]int{}, GlobalInit: map[types.Object]globalInit{},
		GlobalUses: map[types.Object]int{}, GlobalReads: map[types.Object]int{}}
	lookup := func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	gc := importer.ForCompiler(prog.Fset, "gc", lookup).(types.ImporterFrom)
	ismine := map[string]*listPkg{}
	for _, p := range mine {
		ismine[p.ImportPath] = p
	}
	var imp impFunc
	var check func(p *listPkg) (*PkgInfo, error)
	check = func(p *listPkg) (*PkgInfo, error) {
		if pi, ok := prog.Pkgs[p.ImportPath]; ok {
			return pi, nil
		}
		for _, d := range p.Imports {
			if q, ok := ismine[d]; ok {
				if _, err := check(q); err != nil {
					return nil, err
				}
			}
		}
		pi := &PkgInfo{Path: p.ImportPath}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pi.Files = append(pi.Files, af)
		}
		pi.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.20", Sizes: types.SizesFor("gc", "amd64")}
		pkg, err := conf.Check(p.ImportPath, prog.Fset, pi.Files, pi.Info)
		if err != nil {
			return nil, fmt.Errorf("type-check %s: %w", p.ImportPath, err)
		}
		pi.Pkg = pkg
		prog.Pkgs[p.ImportPath] = pi
		return pi, nil
	}
	imp = func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if q, ok := ismine[path]; ok {
			pi, err := check(q)
			if err != nil {
				return nil, err
			}
			return pi.Pkg, nil
		}
		return gc.ImportFrom(path, repoDir, 0)
	}
	sort.Slice(mine, func(i, j int) bool { return mine[i].ImportPath < mine[j].ImportPath })
	for _, p := range mine {
		// front-end resource packages with main are fine too
		if _, err := check(p); err != nil {
			return nil, err
		}
	}
	for _, pi := range prog.Pkgs {
		for _, f := range pi.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					obj, _ := pi.Info.Defs[d.Name].(*types.Func)
					if obj == nil {
						continue
					}
					fi := &FuncInfo{Name: FuncName(obj), Obj: obj, Decl: d, Pkg: pi}
					prog.Funcs[fi.Name] = fi
					prog.ByObj[obj] = fi
				case *ast.GenDecl:
					for _, s := range d.Specs {
						vs, ok := s.(*ast.ValueSpec)
						if !ok || d.Tok != token.VAR {
							continue
						}
						for i, n := range vs.Names {
							if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
								prog.GlobalInit[pi.Info.Defs[n]] = globalInit{vs.Values[i], pi}
							}
						}
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					var id *ast.Ident
					switch e := ast.Unparen(e).(type) {
					case *ast.Ident:
						id = e
					case *ast.SelectorExpr:
						id = e.Sel
					}
					if id == nil {
						return
					}
					if v, ok := pi.Info.Uses[id].(*types.Var); ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
						prog.GlobalWrites[v]++
					}
				}
				pkgVar := func(e ast.Expr) types.Object {
					var id *ast.Ident
					switch e := ast.Unparen(e).(type) {
					case *ast.Ident:
						id = e
					case *ast.SelectorExpr:
						id = e.Sel
					default:
						return nil
					}
					if v, ok := pi.Info.Uses[id].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
						return v
					}
					return nil
				}
				unread := func(e ast.Expr) { // an element is written or its address taken
					for {
						switch x := ast.Unparen(e).(type) {
						case *ast.SelectorExpr:
							e = x.X
							continue
						case *ast.IndexExpr:
							if v := pkgVar(x.X); v != nil {
								prog.GlobalReads[v] -= 1 << 20
							}
							e = x.X
							continue
						}
						return
					}
				}
				switch n := n.(type) {
				case *ast.Ident:
					if v := pkgVar(n); v != nil {
						prog.GlobalUses[v]++
					}
				case *ast.RangeStmt:
					if v := pkgVar(n.X); v != nil {
						prog.GlobalReads[v]++
					}
				case *ast.IndexExpr:
					if v := pkgVar(n.X); v != nil {
						prog.GlobalReads[v]++
					}
				case *ast.SliceExpr:
					unread(&ast.IndexExpr{X: n.X})
				case *ast.CallExpr:
					if f, ok := n.Fun.(*ast.Ident); ok && f.Name == "len" && len(n.Args) == 1 {
						if v := pkgVar(n.Args[0]); v != nil {
							prog.GlobalReads[v]++
						}
					}
				}
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
						unread(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
					unread(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
						unread(n.X)
					}
				}
				return true
			})
		}
	}
	return prog, nil
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

// FuncName: "pkg.F", "(pkg.T).M" (pointer receivers are not distinguished).
func FuncName(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return "(" + n.Obj().Name() + ")." + f.Name()
			}
			return "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + f.Name()
		}
		return "(" + t.String() + ")." + f.Name()
	}
	if f.Pkg() == nil {
		return f.Name()
	}
	return f.Pkg().Path() + "." + f.Name()
}
