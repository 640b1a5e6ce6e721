package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath = "github.com/dhamidi/texted"
	zvBase  = modPath + "/zzverif"
)

// Shared is the loaded program, common to all workers.
// embed is a string variable with a go:embed directive.
type embed struct{ pkg, name, text string }

var embedRE = regexp.MustCompile(`(?m)^//go:embed (\S+)\s*\n\s*(?:var\s+)?(\w+)\s+string`)

type Shared struct {
	embeds       []embed
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	errorType    types.Type
	stringerType types.Type
	rtErrType    types.Type
	tier         int
	stepMax      int64
	noMerge      bool
	repo, hdir   string
	solver       string
}

// packages whose function bodies are kept and whose initialisers run.
var bodyStd = map[string]bool{
	"errors": true, "io": true, "io/fs": true, "internal/oserror": true, "strings": true, "bytes": true, "strconv": true, "internal/strconv": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true, "cmp": true, "maps": true, "iter": true, "bufio": true, "path": true,
	"path/filepath": true, "internal/filepathlite": true, "math": true, "math/bits": true, "internal/stringslite": true, "internal/bytealg": true, "io/ioutil": true,
	"container/list": true, "context": true, "encoding/xml": true, "encoding/csv": true, "html": true, "text/tabwriter": true, "flag": true, "encoding": true, "internal/byteorder": true,
	"sync": true, "sync/atomic": true, "time": true, "container/heap": true, "container/ring": true, "hash": true, "hash/fnv": true, "encoding/hex": true, "encoding/base64": true,
}

var initStd = map[string]bool{
	"errors": true, "io": true, "io/fs": true, "internal/oserror": true, "strings": true, "bytes": true, "strconv": true, "internal/strconv": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true, "bufio": true, "path": true,
	"path/filepath": true, "math": true, "math/bits": true, "context": true, "encoding/xml": true, "encoding/csv": true, "text/tabwriter": true,
	"time": true, "encoding/hex": true, "encoding/base64": true,
}

func isStd(path string) bool {
	i := strings.IndexByte(path, '/')
	h := path
	if i >= 0 {
		h = path[:i]
	}
	return !strings.Contains(h, ".")
}

var stripPkgs = []string{"github.com/google/uuid", "github.com/yosida95/uritemplate", "github.com/mark3labs/mcp-go/server", "github.com/mark3labs/mcp-go/util"}

func keepBodies(pkg string) bool {
	if isStd(pkg) {
		return bodyStd[pkg]
	}
	for _, s := range stripPkgs {
		if strings.HasPrefix(pkg, s) {
			return false
		}
	}
	return true
}

// harnessOverlay maps virtual files below /repo/zzverif to the harness sources.
func harnessOverlay(repo, hdir string, extra map[string]string) (map[string]string, error) {
	out := map[string]string{}
	es, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if !e.IsDir() {
			continue
		}
		fs, err := filepath.Glob(filepath.Join(hdir, e.Name(), "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			out[filepath.Join(repo, "zzverif", e.Name(), filepath.Base(f))] = f
		}
	}
	for k, v := range extra {
		out[k] = v
	}
	return out, nil
}

func goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

func load(repo, hdir string, pats []string) (*Shared, error) {
	ov, err := harnessOverlay(repo, hdir, nil)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, real := range ov {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	goroot := ""
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: goEnv(), Overlay: overlay, Fset: token.NewFileSet(),
	}
	cfg.ParseFile = func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
		f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		if f == nil {
			return f, err
		}
		if i := strings.Index(filename, "/src/"); i >= 0 && goroot == "" {
			goroot = filename[:i]
		}
		pkg := filepath.Dir(filename)
		keep := true
		if i := strings.LastIndex(pkg, "/pkg/mod/golang.org/toolchain"); i >= 0 {
			j := strings.Index(pkg[i:], "/src/")
			keep = j >= 0 && keepBodies(pkg[i+j+5:])
		} else if i := strings.LastIndex(pkg, "/pkg/mod/"); i >= 0 {
			p := pkg[i+9:]
			for _, s := range stripPkgs {
				h, t := s, ""
				if parts := strings.Split(s, "/"); len(parts) > 3 {
					h, t = strings.Join(parts[:3], "/"), strings.Join(parts[3:], "/")
				}
				if strings.HasPrefix(p, h+"@") || strings.HasPrefix(p, h+"/") {
					if t == "" || strings.HasSuffix(p, "/"+t) {
						keep = false
					}
				}
			}
		} else if i := strings.LastIndex(pkg, "/src/"); i >= 0 && !strings.HasPrefix(pkg, repo+"/") {
			keep = keepBodies(strings.TrimPrefix(pkg[i+5:], "vendor/"))
		}
		if !keep {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && !(fd.Name.Name == "init" && fd.Recv == nil) {
					if fd.Type.TypeParams == nil && fd.Recv == nil || fd.Recv != nil {
						fd.Body = nil
					}
				}
			}
		}
		return f, err
	}
	var full []string
	for _, p := range pats {
		full = append(full, zvBase+"/"+p)
	}
	pkgs, err := packages.Load(cfg, full...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if isStd(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			m := e.Error()
			if !keepBodies(p.PkgPath) || strings.Contains(m, "missing function body") || strings.Contains(m, "imported and not used") || strings.Contains(m, "func init must have a body") {
				continue
			}
			errs = append(errs, m)
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	// packages whose bodies were stripped have "imported and not used" errors: clear them so ssa accepts them
	packages.Visit(pkgs, nil, func(p *packages.Package) { p.IllTyped = false })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	sh := &Shared{prog: prog, pkgs: map[string]*ssa.Package{}, stepMax: 40_000_000, repo: repo, hdir: hdir}
	for _, p := range prog.AllPackages() {
		sh.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, f := range p.CompiledGoFiles {
			src, _ := os.ReadFile(f)
			for _, m := range embedRE.FindAllStringSubmatch(string(src), -1) {
				if b, err := os.ReadFile(filepath.Join(filepath.Dir(f), m[1])); err == nil {
					sh.embeds = append(sh.embeds, embed{p.PkgPath, m[2], string(b)})
				}
			}
		}
	})
	for path, p := range sh.pkgs {
		if !keepBodies(path) {
			continue
		}
		p.Build()
	}
	sh.errorType = types.Universe.Lookup("error").Type()
	if t := sh.namedType("fmt", "Stringer"); t != nil {
		sh.stringerType = t
	}
	sh.rtErrType = sh.namedType("runtime", "errorString")
	if sh.rtErrType == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	return sh, nil
}

func (sh *Shared) ensureBuilt(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic == "package initializer"
}

func (sh *Shared) lookupIntrinsic(fn *ssa.Function) intrinsic {
	if isPkgInit(fn) {
		return pkgInit
	}
	if f, ok := intrinsics[fn.String()]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	return nil
}

func pkgInit(w *W, fn *ssa.Function, args []Value) (Value, bool) {
	path := fn.Pkg.Pkg.Path()
	if isStd(path) && !initStd[path] || !keepBodies(path) {
		return nil, true
	}
	// run the real initializer, tolerating parts outside the engine's reach
	fi := &fnInfo{fn: fn}
	w.compile(fi)
	depth, cur := w.depth, w.cur
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathStop:
				w.initNotes = append(w.initNotes, path+": "+x.kind+": "+x.msg)
			case targetPanic:
				w.initNotes = append(w.initNotes, path+": panic: "+w.panicText(x.v)+x.where)
			default:
				panic(r)
			}
		}()
		w.callBody(fi, nil, nil)
	}()
	w.depth, w.cur = depth, cur
	return nil, true
}

func (sh *Shared) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := sh.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return sh.prog.MethodValue(sel)
}

func (sh *Shared) methodByName(t types.Type, name string) *ssa.Function {
	sel := sh.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return sh.prog.MethodValue(sel)
}

func (sh *Shared) namedType(pkg, name string) types.Type {
	p := sh.pkgs[pkg]
	if p == nil {
		return nil
	}
	m := p.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

func (sh *Shared) ptrTo(pkg, name string) types.Type {
	t := sh.namedType(pkg, name)
	if t == nil {
		panic(pathStop{"unsupported", "type " + pkg + "." + name + " not loaded"})
	}
	return types.NewPointer(t)
}

func (sh *Shared) funcByName(pkg, name string) *ssa.Function {
	p := sh.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (sh *Shared) globalByName(pkg, name string) *ssa.Global {
	p := sh.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

// newWorker builds a worker and runs the package initialisers of the harness package.
func newWorker(sh *Shared, id int, hpkg string, timeoutMS int) (*W, error) {
	tb := newTB()
	w := &W{id: id, sh: sh, tb: tb, code: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Value{}, methods: map[methKey]*ssa.Function{}, implCache: map[implKey]bool{},
		natives: map[*Value]any{}, fnSeen: map[*ssa.Function]bool{}, symPure: map[*ssa.Function]int8{}, onces: map[*Value]bool{}, vfs: newVFS(), stepMax: 200_000_000}
	w.sol = newSolver(tb, sh.solver, timeoutMS)
	if err := w.sol.start(&w.sol.proc[0]); err != nil {
		return nil, err
	}
	w.p = &pathState{known: map[*Term]bool{}, names: map[string]int{}, covers: map[string]bool{}, notes: map[string]bool{}}
	tb.setModel(map[string]uint64{})
	var ierr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				ierr = fmt.Errorf("init: %v %s", r, w.where())
			}
		}()
		setGlobal := func(pkg, name string, v Value) {
			if g := sh.globalByName(pkg, name); g != nil {
				*w.global(g) = v
			}
		}
		w.initEnv(setGlobal)
		for _, e := range sh.embeds {
			setGlobal(e.pkg, e.name, cstr(e.text))
		}
		p := sh.pkgs[zvBase+"/"+hpkg]
		if p == nil {
			panic("no harness package " + hpkg)
		}
		w.callFn(p.Func("init"), nil, nil)
	}()
	if ierr != nil {
		return nil, ierr
	}
	for _, n := range w.initNotes {
		if strings.HasPrefix(n, modPath) {
			return nil, fmt.Errorf("initialiser outside the engine's reach: %s", n)
		}
	}
	return w, nil
}

func (w *W) initEnv(set func(pkg, name string, v Value)) {
	set("os", "Args", []Value{cstr("texted")})
	for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
		p := new(Value)
		*p = &vhandle{std: i + 1, name: "/dev/" + strings.ToLower(n), read: i == 0, write: i > 0}
		set("os", n, p)
	}
	if fs := w.sh.pkgs["io/fs"]; fs != nil {
		w.callFn(fs.Func("init"), nil, nil)
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed"} {
			if g := w.sh.globalByName("io/fs", n); g != nil {
				set("os", n, *w.global(g))
			}
		}
	}
}
