package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	Name string
	Doc  string
	Fn   *ssa.Function
	Pkg  string
}

// Program is the loaded code; it is shared by the workers.
type Program struct {
	Prog     *ssa.Program
	Module   string
	RepoDir  string
	Seed     int
	Thorough bool
	Pkgs     map[string]*ssa.Package // harness packages by group
	Main     *ssa.Package

	fnMu       sync.Mutex
	fns        map[*ssa.Function]*Fn
	closures   map[*Fn]*Closure
	globMu     sync.Mutex
	globIdx    map[*ssa.Global]int
	globalList []*ssa.Global
	methMu     sync.RWMutex
	methods    map[methKey]*Closure
	byName     map[nameKey]*Closure
	impl       map[implKey]bool
	embeds     map[*ssa.Global]embed

	tString, tBool, tFloat, tAny, tAnySlice, tAnyMap, tErrorString, tWrapError *TI
	decodeRuneFn, quoteFn                                                      *Fn
}

type embed struct {
	data []byte
	str  bool
}

var tInt64 = tiOf(types.Typ[types.Int])

func floatBits(f float64) uint64 { return math.Float64bits(f) }
func floatOf(n uint64) float64   { return math.Float64frombits(n) }

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const overlayDir = "internal/zzverif"

// harnessOverlay maps the files under the harness directory into the module.
func harnessOverlay(repo, harness string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harness, p)
		m[filepath.Join(repo, overlayDir, rel)] = p
		return nil
	})
	return m, err
}

func loadProgram(repo, harness, group string) (*Program, error) {
	files, err := harnessOverlay(repo, harness)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./"+overlayDir+"/"+group)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, RepoDir: repo, Pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, closures: map[*Fn]*Closure{},
		globIdx: map[*ssa.Global]int{}, methods: map[methKey]*Closure{}, byName: map[nameKey]*Closure{}, impl: map[implKey]bool{}, embeds: map[*ssa.Global]embed{}}
	p.Main = ssaPkgs[0]
	if pkgs[0].Module != nil {
		p.Module = pkgs[0].Module.Path
	} else {
		p.Module = strings.TrimSuffix(pkgs[0].PkgPath, "/"+overlayDir+"/"+group)
	}
	p.tString = tiOf(types.Typ[types.String])
	p.tBool = tiOf(types.Typ[types.Bool])
	p.tFloat = tiOf(types.Typ[types.Float64])
	any_ := types.Universe.Lookup("any").Type()
	p.tAny = tiOf(any_)
	p.tAnySlice = tiOf(types.NewSlice(any_))
	p.tAnyMap = tiOf(types.NewMap(types.Typ[types.String], any_))
	for _, pk := range prog.AllPackages() {
		switch pk.Pkg.Path() {
		case "errors":
			p.tErrorString = tiOf(types.NewPointer(pk.Pkg.Scope().Lookup("errorString").Type()))
		case "fmt":
			if o := pk.Pkg.Scope().Lookup("wrapError"); o != nil {
				p.tWrapError = tiOf(types.NewPointer(o.Type()))
			}
		}
	}
	if f := p.funcByName("unicode/utf8.DecodeRuneInString"); f != nil {
		p.decodeRuneFn = f
	}
	p.quoteFn = p.funcByName("strconv.Quote")
	if err := p.findEmbeds(pkgs); err != nil {
		return nil, err
	}
	return p, nil
}

// findEmbeds reads the files that go:embed directives put into package variables.
func (p *Program) findEmbeds(pkgs []*packages.Package) error {
	var err error
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, p.Module) {
			return
		}
		for i, f := range pk.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					doc := vs.Doc
					if doc == nil {
						doc = g.Doc
					}
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						pat, ok := strings.CutPrefix(c.Text, "//go:embed ")
						if !ok {
							continue
						}
						dir := filepath.Dir(pk.CompiledGoFiles[i])
						b, e := os.ReadFile(filepath.Join(dir, strings.Trim(strings.TrimSpace(pat), "\"`")))
						if e != nil {
							err = e
							continue
						}
						sp := p.Prog.Package(pk.Types)
						if sp == nil {
							continue
						}
						if gl, ok := sp.Members[vs.Names[0].Name].(*ssa.Global); ok {
							_, str := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
							p.embeds[gl] = embed{b, str}
						}
					}
				}
			}
		}
	})
	return err
}

func (p *Program) funcByName(name string) *Fn {
	i := strings.LastIndex(name, ".")
	for _, pk := range p.Prog.AllPackages() {
		if pk.Pkg.Path() == name[:i] {
			if f := pk.Func(name[i+1:]); f != nil {
				return p.fnOf(f)
			}
		}
	}
	return nil
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.globMu.Lock()
	defer p.globMu.Unlock()
	i, ok := p.globIdx[g]
	if !ok {
		i = len(p.globalList)
		p.globIdx[g] = i
		p.globalList = append(p.globalList, g)
	}
	return i
}

var deniedExact = map[string]bool{"runtime": true, "os": true, "reflect": true, "fmt": true, "log": true, "time": true, "syscall": true,
	"io/fs": true, "embed": true, "context": true, "plugin": true, "testing": true, "flag": true, "os/exec": true, "os/signal": true, "crypto": true, "encoding/json": true, "hash/maphash": true, "weak": true, "unique": true, "bufio": false}

func (p *Program) denied(pkg string) bool {
	if deniedExact[pkg] {
		return true
	}
	switch pkg {
	case "internal/stringslite", "internal/bytealg", "internal/byteorder", "internal/strconv", "internal/itoa", "internal/race", "internal/abi", "internal/goarch", "internal/unsafeheader":
		return false
	}
	for _, pre := range []string{"internal/", "runtime/", "encoding/json/", "net/", "crypto/", "math/rand", "log/", "go/", "debug/", "database/"} {
		if strings.HasPrefix(pkg, pre) {
			return true
		}
	}
	return pkg == "net"
}

// initDenied tells whether the initialiser of the package is skipped.
func (p *Program) initDenied(pkg string) bool {
	return p.denied(pkg) || pkg == "internal/bytealg" || pkg == "internal/abi" || pkg == "internal/goarch" || pkg == "sync" || pkg == "sync/atomic" || pkg == "io/ioutil" || pkg == "errors"
}

// harnesses lists the harness functions of the main package for a property.
func (p *Program) harnesses(prop string) []*Harness {
	var out []*Harness
	for name, mem := range p.Main.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, prop+"_") {
			continue
		}
		doc := ""
		if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
			doc = strings.TrimSpace(d.Doc.Text())
		}
		out = append(out, &Harness{Name: name, Doc: doc, Fn: f, Pkg: p.Main.Pkg.Path()})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

type overlayJSON struct{ Replace map[string]string }

func writeOverlay(path string, m map[string]string) error {
	b, err := json.Marshal(overlayJSON{m})
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
