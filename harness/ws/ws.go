// Package ws builds scratch Go modules, loads them through the code under test
// and runs its generators on them with in-memory outputs.
package ws

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
)

// Mod is the module path of scratch modules.
const Mod = "ex.test/m"

// Files maps a path relative to a case's directory to file contents.
type Files map[string]string

// Show renders files for humans.
func (f Files) Show() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "== %s\n%s\n", k, f[k])
	}
	return b.String()
}

var (
	gomodOnce sync.Once
	gomod     string
	gosum     []byte
)

// GoMod returns a go.mod (for the given module path) that can import what /repo can.
func GoMod(module string) (string, []byte) {
	gomodOnce.Do(func() {
		repo := RepoDir()
		b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
		if err != nil {
			panic(err)
		}
		gomod = string(b)
		gosum, err = os.ReadFile(filepath.Join(repo, "go.sum"))
		if err != nil {
			panic(err)
		}
	})
	lines := strings.SplitN(gomod, "\n", 2)
	return "module " + module + "\n" + lines[1], gosum
}

// RepoDir is the tree under test.
func RepoDir() string {
	return "/repo"
}

// WriteFiles writes files below dir.
func WriteFiles(dir string, files Files) error {
	for p, c := range files {
		full := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(full, []byte(c), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// InitModule writes go.mod and go.sum.
func InitModule(dir, module string) error {
	m, s := GoMod(module)
	return WriteFiles(dir, Files{"go.mod": m, "go.sum": string(s)})
}

// Loaded is a loaded scratch module.
type Loaded struct {
	Dir    string
	ByPath map[string]*loader.Package
}

// LoadCases writes case i's files below c<i>/ of one module in dir, and loads all packages at once.
func LoadCases(dir string, cases []Files) (*Loaded, error) {
	if err := InitModule(dir, Mod); err != nil {
		return nil, err
	}
	for i, f := range cases {
		if err := WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), f); err != nil {
			return nil, err
		}
	}
	return Load(dir, "./...")
}

// Load loads packages below dir.
func Load(dir string, patterns ...string) (*Loaded, error) {
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, patterns...)
	if err != nil {
		panic(pbt.ToolPanic("loading the packages: " + err.Error()))
	}
	l := &Loaded{Dir: dir, ByPath: map[string]*loader.Package{}}
	for _, r := range roots {
		l.ByPath[r.PkgPath] = r
	}
	return l, nil
}

// Case returns the packages of case i in path order.
func (l *Loaded) Case(i int) []*loader.Package {
	prefix := fmt.Sprintf("%s/c%d", Mod, i)
	var paths []string
	for p := range l.ByPath {
		if p == prefix || strings.HasPrefix(p, prefix+"/") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	var out []*loader.Package
	for _, p := range paths {
		out = append(out, l.ByPath[p])
	}
	return out
}

// MemOut is an output rule that keeps everything in memory.
type MemOut struct {
	mu    sync.Mutex
	Files map[string][]byte
	Opens []string
}

type memFile struct {
	bytes.Buffer
	done func([]byte)
}

func (m *memFile) Close() error { m.done(m.Bytes()); return nil }

// Open implements genall.OutputRule. Keys are "pkgpath|item" (or just item without a package).
func (m *MemOut) Open(pkg *loader.Package, item string) (io.WriteCloser, error) {
	key := item
	if pkg != nil {
		key = pkg.PkgPath + "|" + item
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Opens = append(m.Opens, key)
	return &memFile{done: func(b []byte) {
		m.mu.Lock()
		defer m.mu.Unlock()
		if m.Files == nil {
			m.Files = map[string][]byte{}
		}
		m.Files[key] = append([]byte(nil), b...)
	}}, nil
}

// Result is what one generator run did.
type Result struct {
	Files map[string][]byte
	Opens []string
	Errs  []string
}

func (r Result) Bad() bool { return len(r.Errs) > 0 }

// NewContext makes a generation context as the tool's runtime makes it.
func NewContext(gen genall.Generator, roots []*loader.Package, out genall.OutputRule) (*genall.GenerationContext, error) {
	reg := &markers.Registry{}
	gens := genall.Generators{&gen}
	if err := gens.RegisterMarkers(reg); err != nil {
		return nil, err
	}
	return &genall.GenerationContext{
		Collector:  &markers.Collector{Registry: reg},
		Roots:      roots,
		InputRule:  genall.InputFromFileSystem,
		OutputRule: out,
		Checker:    &loader.TypeChecker{NodeFilters: gens.CheckFilters()},
	}, nil
}

func countErrs(roots []*loader.Package) map[*packages.Package]int {
	m := map[*packages.Package]int{}
	var raw []*packages.Package
	for _, r := range roots {
		raw = append(raw, r.Package)
	}
	packages.Visit(raw, nil, func(p *packages.Package) { m[p] = len(p.Errors) })
	return m
}

// Run runs one generator over roots. Errors already recorded on the packages do not count.
func Run(gen genall.Generator, roots []*loader.Package) Result {
	out := &MemOut{}
	before := countErrs(roots)
	ctx, err := NewContext(gen, roots, out)
	if err != nil {
		return Result{Errs: []string{"register: " + err.Error()}}
	}
	var errs []string
	if err := gen.Generate(ctx); err != nil {
		errs = append(errs, "generate: "+err.Error())
	}
	var raw []*packages.Package
	for _, r := range roots {
		raw = append(raw, r.Package)
	}
	packages.Visit(raw, nil, func(p *packages.Package) {
		for _, e := range p.Errors[min(before[p], len(p.Errors)):] {
			if e.Kind != packages.TypeError {
				errs = append(errs, e.Error())
			}
		}
	})
	return Result{Files: out.Files, Opens: out.Opens, Errs: errs}
}
