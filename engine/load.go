package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded SSA form of the code under verification.
type Program struct {
	ssa       *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	tpkgs     map[string]*types.Package
	zeroCache sync.Map
	cfuncs    sync.Map
	repoPkgs  map[string]bool
	hfiles    map[string]bool
	interp    map[string]bool
	built     map[*ssa.Package]bool
	sizes     types.Sizes
	intrMap   map[string]intrinsic
	methCache sync.Map
	implCache sync.Map

	rtErrorString types.Type
	mod           string
	natTypes      sync.Map
	revTypes      sync.Map
	cov           sync.Map
}

type goListPkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

// packages whose bodies are interpreted from source (everything else is
// handled by intrinsics or natively).
var interpStd = []string{
	"bytes", "strings", "sort", "errors", "io", "encoding/binary", "encoding/hex", "unicode/utf8",
	"math/bits", "slices", "cmp", "strconv", "internal/strconv", "internal/stringslite", "internal/byteorder",
	"golang.org/x/crypto/hkdf", "math", "container/list", "container/heap", "container/ring", "bufio", "io/ioutil", "sync/atomic",
}

const modPath = "github.com/bifurcation/mint"

func goEnv() []string {
	env := os.Environ()
	env = append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0",
		"GOCACHE=/root/.cache/go-build", "GOMODCACHE=/root/go/pkg/mod", "GOFLAGS=", "GOOS=linux", "GOARCH=amd64", "GOSUMDB=off")
	return env
}

type loader struct {
	p        *Program
	list     map[string]*goListPkg
	overlay  map[string]string // path -> replacement file
	done     map[string]chan struct{}
	mu       sync.Mutex
	files    map[string][]*ast.File
	infos    map[string]*types.Info
	errs     []error
	sem      chan struct{}
	extra    map[string][]string
	excluded map[string]bool
}

// loadProgram loads repo (with harness files overlaid) into SSA form.
func loadProgram(repo, modfile, overlayJSON string, overlay map[string]string, hfiles map[string]bool) (*Program, error) {
	cmd := exec.Command("go", "list", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Imports,ImportMap,Standard,Module,Error",
		"-modfile="+modfile, "-overlay="+overlayJSON, ".", "./syntax")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	p := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		repoPkgs: map[string]bool{modPath: true, modPath + "/syntax": true}, hfiles: hfiles, interp: map[string]bool{}, built: map[*ssa.Package]bool{},
		sizes: types.SizesFor("gc", "amd64"), mod: modPath}
	for _, s := range interpStd {
		p.interp[s] = true
	}
	for s := range p.repoPkgs {
		p.interp[s] = true
	}
	l := &loader{p: p, list: map[string]*goListPkg{}, overlay: overlay, done: map[string]chan struct{}{}, files: map[string][]*ast.File{},
		infos: map[string]*types.Info{}, sem: make(chan struct{}, runtime.NumCPU())}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []string
	for dec.More() {
		var g goListPkg
		if err := dec.Decode(&g); err != nil {
			return nil, err
		}
		if g.Error != nil {
			return nil, fmt.Errorf("go list %s: %s", g.ImportPath, g.Error.Err)
		}
		gg := g
		l.list[g.ImportPath] = &gg
		order = append(order, g.ImportPath)
		l.done[g.ImportPath] = make(chan struct{})
	}
	var wg sync.WaitGroup
	for _, ip := range order {
		wg.Add(1)
		go func(ip string) {
			defer wg.Done()
			defer close(l.done[ip])
			if err := l.check(ip); err != nil {
				l.mu.Lock()
				l.errs = append(l.errs, fmt.Errorf("%s: %v", ip, err))
				l.mu.Unlock()
			}
		}(ip)
	}
	wg.Wait()
	if len(l.errs) > 0 {
		return nil, l.errs[0]
	}
	p.ssa = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	for _, ip := range order {
		tp := p.tpkgs[ip]
		if ip == "unsafe" {
			p.pkgs[ip] = p.ssa.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		p.pkgs[ip] = p.ssa.CreatePackage(tp, l.files[ip], l.infos[ip], true)
	}
	if rt := p.tpkgs["runtime"]; rt != nil {
		p.rtErrorString = rt.Scope().Lookup("errorString").Type()
	}
	p.initIntrinsics()
	return p, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (l *loader) check(ip string) error {
	g := l.list[ip]
	if ip == "unsafe" {
		l.mu.Lock()
		l.p.tpkgs[ip] = types.Unsafe
		l.mu.Unlock()
		return nil
	}
	interp := l.p.interp[ip]
	var files []*ast.File
	names := append([]string{}, g.GoFiles...)
	sort.Strings(names)
	for _, f := range names {
		full := filepath.Join(g.Dir, f)
		src := full
		if r, ok := l.overlay[full]; ok {
			src = r
		}
		data, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		mode := parser.SkipObjectResolution
		af, err := parser.ParseFile(l.p.fset, full, data, mode)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	for _, im := range g.Imports {
		if m, ok := g.ImportMap[im]; ok {
			im = m
		}
		if ch, ok := l.done[im]; ok {
			<-ch
		}
	}
	l.sem <- struct{}{}
	defer func() { <-l.sem }()
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	var firstErr error
	conf := &types.Config{
		Importer: importerFunc(func(path string) (*types.Package, error) {
			if m, ok := g.ImportMap[path]; ok {
				path = m
			}
			l.mu.Lock()
			defer l.mu.Unlock()
			if p := l.p.tpkgs[path]; p != nil {
				return p, nil
			}
			return nil, fmt.Errorf("package %s not loaded", path)
		}),
		IgnoreFuncBodies: !interp && !l.bodies(ip),
		FakeImportC:      true,
		Sizes:            l.p.sizes,
		Error: func(err error) {
			if firstErr == nil {
				firstErr = err
			}
		},
	}
	if g.Module != nil && g.Module.GoVersion != "" {
		conf.GoVersion = "go" + g.Module.GoVersion
	}
	tp, _ := conf.Check(ip, l.p.fset, files, info)
	if firstErr != nil && interp {
		return firstErr
	}
	l.mu.Lock()
	l.p.tpkgs[ip] = tp
	l.files[ip] = files
	l.infos[ip] = info
	l.mu.Unlock()
	return nil
}

// buildPkg builds the SSA bodies of an interpreted package (buildMu held).
func (p *Program) buildPkg(pk *ssa.Package) {
	if p.built[pk] {
		return
	}
	p.built[pk] = true
	if p.interp[pk.Pkg.Path()] {
		pk.Build()
	}
}

func (p *Program) harnessFile(fn string) bool { return p.hfiles[fn] }

func (p *Program) lookupType(pkg, name string) types.Type {
	tp := p.tpkgs[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if _, ok := o.(*types.TypeName); !ok {
		return nil
	}
	return o.Type()
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, modPath, "mint")
}

// bodies reports whether function bodies of a package that is not interpreted
// must be type checked because generic functions are instantiated from it.
func (l *loader) bodies(ip string) bool {
	switch ip {
	case "internal/bytealg", "iter", "maps", "sync/atomic", "sync", "unique", "internal/abi", "internal/sync", "math/rand/v2", "internal/concurrent":
		return true
	}
	return false
}
