// Package load parses and type-checks all packages of the repository from source and builds their SSA form.
// It needs neither the go command nor build caches: the standard library is read from GOROOT, third-party
// modules from the module cache, and modules that are not available offline from type-only stubs.
package load

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ModulePath = "github.com/gocraft/health"

type Package struct {
	Path  string
	Dir   string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	SSA   *ssa.Package
}

type Program struct {
	Fset  *token.FileSet
	Root  string
	Pkgs  map[string]*Package // repository packages by import path
	SSA   *ssa.Program
	Files int

	ctx       build.Context
	goroot    string
	extra     map[string]string // import path prefix -> dir
	types     map[string]*types.Package
	loading   map[string]bool
	errs      []error
	fns       map[*ssa.Function]bool
	addrTaken map[*ssa.Function]bool
}

// Load loads every package below root. stubs is the directory with stub packages.
func Load(root, stubs, modcache string) (*Program, error) {
	p := &Program{
		Fset: token.NewFileSet(), Root: root, Pkgs: map[string]*Package{},
		types: map[string]*types.Package{}, loading: map[string]bool{},
	}
	p.goroot = goroot()
	p.ctx = build.Default
	p.ctx.GOROOT = p.goroot
	p.ctx.CgoEnabled = false
	p.ctx.GOOS, p.ctx.GOARCH = "linux", "amd64"
	p.extra = map[string]string{
		"github.com/gocraft/web": filepath.Join(stubs, "web"),
	}
	// third-party modules: newest version present in the module cache
	for _, m := range []string{"github.com/braintree/manners", "github.com/buger/goterm", "github.com/spf13/cobra",
		"github.com/spf13/pflag", "github.com/inconshreveable/mousetrap", "golang.org/x/sys"} {
		ms, _ := filepath.Glob(filepath.Join(modcache, m+"@*"))
		if len(ms) > 0 {
			sort.Strings(ms)
			p.extra[m] = ms[len(ms)-1]
		}
	}
	p.types["unsafe"] = types.Unsafe

	var dirs []string
	err := filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			b := d.Name()
			if path != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(dirs)
	var paths []string
	for _, d := range dirs {
		bp, err := p.ctx.ImportDir(d, 0)
		if err != nil || len(bp.GoFiles) == 0 {
			if _, ok := err.(*build.NoGoError); ok || err == nil {
				continue
			}
			return nil, fmt.Errorf("%s: %v", d, err)
		}
		rel, _ := filepath.Rel(root, d)
		ip := ModulePath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		paths = append(paths, ip)
	}
	for _, ip := range paths {
		if _, err := p.importPkg(ip, root); err != nil {
			return nil, err
		}
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors: %v", p.errs[0])
	}
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if created[tp] || tp == types.Unsafe {
			return
		}
		created[tp] = true
		for _, i := range tp.Imports() {
			create(i)
		}
		if rp := p.Pkgs[tp.Path()]; rp != nil && rp.Types == tp {
			rp.SSA = p.SSA.CreatePackage(tp, rp.Files, rp.Info, true)
			return
		}
		p.SSA.CreatePackage(tp, nil, nil, true)
	}
	for _, tp := range p.types {
		create(tp)
	}
	for _, rp := range p.Pkgs {
		rp.SSA.Build()
	}
	return p, nil
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	if g := runtime.GOROOT(); g != "" {
		if _, err := os.Stat(filepath.Join(g, "src", "fmt")); err == nil {
			return g
		}
	}
	for _, g := range []string{"/usr/local/go", "/opt/veriftools/go1.27.3"} {
		if _, err := os.Stat(filepath.Join(g, "src", "fmt")); err == nil {
			return g
		}
	}
	return "/usr/local/go"
}

func (p *Program) dirOf(path string) (string, bool) {
	if path == ModulePath {
		return p.Root, true
	}
	if strings.HasPrefix(path, ModulePath+"/") {
		return filepath.Join(p.Root, path[len(ModulePath)+1:]), true
	}
	for pre, d := range p.extra {
		if path == pre {
			return d, false
		}
		if strings.HasPrefix(path, pre+"/") {
			return filepath.Join(d, path[len(pre)+1:]), false
		}
	}
	d := filepath.Join(p.goroot, "src", path)
	if _, err := os.Stat(d); err == nil {
		return d, false
	}
	return filepath.Join(p.goroot, "src", "vendor", path), false
}

type imp struct{ p *Program }

func (i imp) Import(path string) (*types.Package, error) { return i.p.importPkg(path, "") }
func (i imp) ImportFrom(path, dir string, _ types.ImportMode) (*types.Package, error) {
	return i.p.importPkg(path, dir)
}

func (p *Program) importPkg(path, _ string) (*types.Package, error) {
	if tp := p.types[path]; tp != nil {
		return tp, nil
	}
	if p.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	p.loading[path] = true
	defer delete(p.loading, path)
	dir, own := p.dirOf(path)
	bp, err := p.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("import %s: %v", path, err)
	}
	var files []*ast.File
	names := append([]string{}, bp.GoFiles...)
	sort.Strings(names)
	for _, n := range names {
		mode := parser.SkipObjectResolution
		if own {
			mode |= parser.ParseComments
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, mode)
		if err != nil {
			if own {
				return nil, err
			}
			if f == nil {
				continue
			}
		}
		files = append(files, f)
	}
	var info *types.Info
	if own {
		info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
	}
	conf := types.Config{Importer: imp{p}, IgnoreFuncBodies: !own, FakeImportC: true,
		Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if own {
				p.errs = append(p.errs, err)
			}
		}}
	if own {
		conf.GoVersion = "go1.23"
	}
	tp, err := conf.Check(path, p.Fset, files, info)
	if own && err != nil {
		return nil, err
	}
	p.types[path] = tp
	if own {
		p.Pkgs[path] = &Package{Path: path, Dir: dir, Types: tp, Info: info, Files: files}
		p.Files += len(files)
	}
	return tp, nil
}

// Functions returns every function of the repository with a body (methods, closures and instances included).
func (p *Program) Functions() map[*ssa.Function]bool {
	if p.fns != nil {
		return p.fns
	}
	p.fns = map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Pkg == nil {
			continue
		}
		if rp := p.Pkgs[fn.Pkg.Pkg.Path()]; rp != nil && rp.SSA == fn.Pkg && len(fn.Blocks) > 0 {
			p.fns[fn] = true
		}
	}
	return p.fns
}

// AddrTaken lists the functions used as values somewhere.
func (p *Program) AddrTaken() map[*ssa.Function]bool {
	if p.addrTaken != nil {
		return p.addrTaken
	}
	p.addrTaken = map[*ssa.Function]bool{}
	fns := map[*ssa.Function]bool{}
	for fn := range p.Functions() {
		fns[fn] = true
	}
	for _, pk := range p.Pkgs {
		if pk.SSA != nil {
			if in := pk.SSA.Func("init"); in != nil {
				fns[in] = true
			}
		}
	}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().Value == f && op == &c.Common().Value {
						continue
					}
					p.addrTaken[f] = true
				}
			}
		}
	}
	return p.addrTaken
}
