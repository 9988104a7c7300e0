package main

import (
	"crypto/sha256"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// repoRoot is the repository; GOSYM_REPO names a scratch copy of it during development.
var repoRoot = func() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const (
	modPrefix = "github.com/ConsenSys/fc-retrieval/"
	symPath   = modPrefix + "common/pkg/verifsym"
	go123     = "/opt/veriftools/go1.23.12"
)

// modFile copies go.mod and go.sum of a module of the repository, so that no build changes them.
func modFile(dir string) string {
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return ""
	}
	sum, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
	key := sha256.Sum256([]byte(dir + "\x00" + string(mod) + "\x00" + string(sum)))
	tmp := filepath.Join(os.TempDir(), fmt.Sprintf("gosym-mod-%d-%x", os.Getuid(), key[:8]))
	name := filepath.Join(tmp, "go.mod")
	if _, err := os.Stat(name); err == nil {
		return name
	}
	os.MkdirAll(tmp, 0o755)
	for f, data := range map[string][]byte{"go.sum": sum, "go.mod": mod} {
		t := filepath.Join(tmp, fmt.Sprintf("%s.%d", f, os.Getpid()))
		if os.WriteFile(t, data, 0o644) != nil || os.Rename(t, filepath.Join(tmp, f)) != nil {
			return ""
		}
	}
	return name
}

// goEnv is the environment of the repository's own toolchain, for a module of it.
func goEnv(dir string) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "CGO_ENABLED", "GOROOT", "GOWORK":
			continue
		}
		out = append(out, e)
	}
	flags := "-mod=mod"
	if m := modFile(dir); m != "" {
		flags += " -modfile=" + m
	}
	return append(out, "PATH="+go123+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS="+flags, "GOPROXY=off", "CGO_ENABLED=1")
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
}

type Loader struct {
	fset    *token.FileSet
	list    map[string]*listPkg
	tpkgs   map[string]*types.Package
	files   map[string][]*ast.File
	infos   map[string]*types.Info
	errs    map[string][]error
	prog    *ssa.Program
	overlay map[string]string
}

// packages whose function bodies are never executed symbolically
// (runtime services, or modelled by intrinsics).
var denyBodies = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "syscall": true, "net": true,
	"net/http": true, "unsafe": true, "crypto/tls": true, "crypto/x509": true,
	"os/exec": true, "os/user": true, "text/template": true, "html/template": true,
	"database/sql": true, "testing": true, "go/ast": true, "go/parser": true, "go/types": true,
	"encoding/gob": true, "encoding/xml": true,
}

// third-party packages executed from source.
var bodyPrefixes = []string{
	modPrefix,
	"github.com/cbergoon/merkletree",
	"github.com/ant0ine/go-json-rest",
	"github.com/filecoin-project/go-state-types",
	"github.com/filecoin-project/go-address",
	"github.com/filecoin-project/specs-actors",
	"github.com/filecoin-project/lotus/chain/types",
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych",
	"github.com/filecoin-project/lotus/api/apistruct",
	"github.com/filecoin-project/lotus/lib/sigs",
	"github.com/ipfs/go-cid",
	"github.com/multiformats/go-varint",
	"github.com/filecoin-project/go-crypto",
	"github.com/go-redis/redis",
	"github.com/go-openapi/runtime",
	"github.com/go-openapi/swag",
	"github.com/spf13/viper",
}

func wantBodies(p *listPkg) bool {
	if p.Standard {
		if denyBodies[p.ImportPath] || strings.HasPrefix(p.ImportPath, "runtime/") ||
			strings.HasPrefix(p.ImportPath, "internal/runtime") || strings.HasPrefix(p.ImportPath, "go/") {
			return false
		}
		return true
	}
	for _, pre := range bodyPrefixes {
		if strings.HasPrefix(p.ImportPath, pre) {
			return true
		}
	}
	return false
}

// Load type-checks pkgs (given as module dir -> import paths) with overlay and builds SSA.
func Load(modDir string, pkgs []string, overlay map[string]string) (*Loader, error) {
	l := &Loader{fset: token.NewFileSet(), list: map[string]*listPkg{}, tpkgs: map[string]*types.Package{},
		files: map[string][]*ast.File{}, infos: map[string]*types.Info{}, errs: map[string][]error{}, overlay: overlay}
	ovf, err := os.CreateTemp("", "gosym-ov-*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(ovf.Name())
	json.NewEncoder(ovf).Encode(map[string]interface{}{"Replace": overlay})
	ovf.Close()
	args := append([]string{"list", "-e", "-deps", "-overlay", ovf.Name(),
		"-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Imports,ImportMap,Standard,Module"}, pkgs...)
	cmd := exec.Command(go123+"/bin/go", args...)
	cmd.Dir = modDir
	cmd.Env = goEnv(cmd.Dir)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		l.list[p.ImportPath] = p
		order = append(order, p) // go list -deps: dependencies first
	}
	// Parse in parallel.
	type parsed struct {
		files []*ast.File
	}
	res := make([]parsed, len(order))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, p := range order {
		if p.ImportPath == "unsafe" || p.ImportPath == "C" {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(i int, p *listPkg) {
			defer wg.Done()
			defer func() { <-sem }()
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				path := f
				if !filepath.IsAbs(path) {
					path = filepath.Join(p.Dir, f)
				}
				src := path
				if o, ok := overlay[path]; ok {
					src = o
				}
				data, err := os.ReadFile(src)
				if err != nil {
					continue
				}
				mode := parser.SkipObjectResolution
				if strings.HasPrefix(p.ImportPath, modPrefix) {
					mode |= parser.ParseComments
				}
				af, _ := parser.ParseFile(l.fset, path, data, mode)
				if af != nil {
					res[i].files = append(res[i].files, af)
				}
			}
		}(i, p)
	}
	wg.Wait()
	// Type-check: in parallel, each waits for its dependencies.
	done := map[string]chan bool{}
	for _, p := range order {
		done[p.ImportPath] = make(chan bool)
	}
	var mu sync.Mutex
	l.tpkgs["unsafe"] = types.Unsafe
	for i, p := range order {
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			defer close(done[p.ImportPath])
			if p.ImportPath == "unsafe" || p.ImportPath == "C" {
				return
			}
			for _, imp := range p.Imports {
				if m, ok := p.ImportMap[imp]; ok {
					imp = m
				}
				if ch, ok := done[imp]; ok {
					<-ch
				}
			}
			sem <- true
			defer func() { <-sem }()
			gv := ""
			if p.Module != nil && p.Module.GoVersion != "" {
				gv = "go" + p.Module.GoVersion
			} else if p.Standard {
				gv = "go1.23"
			}
			var errs []error
			bodies := wantBodies(p)
			conf := types.Config{
				GoVersion: gv, FakeImportC: true, IgnoreFuncBodies: !bodies,
				Sizes: types.SizesFor("gc", "amd64"),
				Error: func(e error) { errs = append(errs, e) },
				Importer: importerFunc(func(path string) (*types.Package, error) {
					if m, ok := p.ImportMap[path]; ok {
						path = m
					}
					mu.Lock()
					defer mu.Unlock()
					if tp := l.tpkgs[path]; tp != nil {
						return tp, nil
					}
					return nil, fmt.Errorf("no package %s", path)
				}),
			}
			var info *types.Info
			if bodies {
				info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
					Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
					Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
					Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
				}
			}
			tp, _ := conf.Check(p.ImportPath, l.fset, res[i].files, info)
			if tp != nil && p.Name != "" {
				tp.SetName(p.Name)
			}
			mu.Lock()
			l.tpkgs[p.ImportPath] = tp
			l.errs[p.ImportPath] = errs
			l.files[p.ImportPath] = res[i].files
			l.infos[p.ImportPath] = info
			mu.Unlock()
		}(i, p)
	}
	wg.Wait()
	for _, p := range order {
		if strings.HasPrefix(p.ImportPath, modPrefix) && len(l.errs[p.ImportPath]) > 0 {
			return nil, fmt.Errorf("type errors in %s: %v", p.ImportPath, l.errs[p.ImportPath])
		}
	}
	if os.Getenv("GOSYM_TYPEERRS") != "" {
		for _, p := range order {
			if len(l.errs[p.ImportPath]) > 0 {
				fmt.Fprintln(os.Stderr, p.ImportPath, len(l.errs[p.ImportPath]), l.errs[p.ImportPath][0])
			}
		}
	}
	// SSA
	l.prog = ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	paths := make([]string, 0, len(order))
	for _, p := range order {
		paths = append(paths, p.ImportPath)
	}
	l.prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, path := range paths {
		tp := l.tpkgs[path]
		if tp == nil || path == "unsafe" {
			continue
		}
		if l.infos[path] != nil && len(l.errs[path]) == 0 {
			l.prog.CreatePackage(tp, l.files[path], l.infos[path], true)
		} else {
			l.prog.CreatePackage(tp, nil, nil, true)
		}
		l.files[path] = keepIfHarness(path, l.files[path])
		l.infos[path] = nil
	}
	return l, nil
}

func keepIfHarness(path string, f []*ast.File) []*ast.File {
	if strings.HasPrefix(path, modPrefix) {
		return f
	}
	return nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
