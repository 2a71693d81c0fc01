// Package race runs schedules of goroutines over shared registries,
// collectors and type checkers. It is built with the race detector into a
// program of its own, which has few dependencies, so that it builds fast.
package race

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Key is one definition slot of a registry.
type Key struct {
	Name   string
	Target int
	Owner  int // the goroutine that registers it
}

// RegOp is one call.
type RegOp struct {
	Kind string // register, lookup, addhelp, help, all
	Key  int    // register, addhelp, help
	Text string // lookup
	Tgt  int    // lookup
}

// RegCase is a schedule over one registry.
type RegCase struct {
	Keys  []Key
	Procs [][]RegOp
	// Exact orders observations by shared counters (which hide races from the
	// detector, but decide more about the answers).
	Exact bool
	Early []int // keys registered before the goroutines start
}

// ColCase is a schedule over one collector: which goroutine asks what about which package.
type ColCase struct {
	Pkgs  []string
	Need  bool // parse everything first; else every package is one goroutine's
	NoReg bool // the collector has no registry of its own
	Procs [][]ColOp
}

type ColOp struct {
	Kind string // markers, each, pkg, register
	Pkg  int
}

// ChkCase is a schedule over type checkers.
type ChkCase struct {
	Pkgs   []string
	Filter string
	// Checkers have sequences of roots to check, in a goroutine each; Shared
	// makes them one checker.
	Checkers [][]int
	Shared   bool
	// Deps are, for each package, what it must be seen with.
	Sure []int // packages that have to be checked
	Not  []int // packages that must not be
}

// Case is one schedule.
type Case struct {
	Reg *RegCase
	Col *ColCase
	Chk *ChkCase
}

// Spec is a batch.
type Spec struct {
	Dir   string // module, if cases have packages
	Procs int
	Again int // runs of each schedule
	Cases []Case
}

// Verdict is what the child says about a case.
type Verdict struct {
	Case int
	Fail string
	Busy bool // was started
	Key  string
}

// Main runs a spec and prints one JSON verdict per line.
func Main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS", err)
		os.Exit(3)
	}
	var sp Spec
	if err := json.Unmarshal(b, &sp); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS", err)
		os.Exit(3)
	}
	if sp.Procs > 0 {
		runtime.GOMAXPROCS(sp.Procs)
	}
	enc := json.NewEncoder(os.Stdout)
	byPath := map[string]*loader.Package{}
	load := func() {
		if sp.Dir == "" {
			return
		}
		roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: sp.Dir}, "./...")
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(3)
		}
		for _, r := range roots {
			byPath[r.PkgPath] = r
		}
	}
	load()
	for i, c := range sp.Cases {
		_ = enc.Encode(Verdict{Case: i, Busy: true})
		v := Verdict{Case: i}
		pkgs := func(names []string) []*loader.Package {
			out := make([]*loader.Package, len(names))
			for j, n := range names {
				p := byPath[n]
				if p == nil {
					fmt.Fprintln(os.Stderr, "HARNESS no package", n)
					os.Exit(3)
				}
				out[j] = p
			}
			return out
		}
		switch {
		case c.Reg != nil:
			for n := 0; n < max(1, sp.Again) && v.Fail == ""; n++ {
				v.Fail = c.Reg.run()
			}
		case c.Col != nil:
			for n := 0; n < max(1, sp.Again) && v.Fail == ""; n++ {
				v.Fail = c.Col.run(pkgs(c.Col.Pkgs))
			}
		case c.Chk != nil:
			v.Fail, v.Key = c.Chk.run(pkgs(c.Chk.Pkgs))
		}
		_ = enc.Encode(v)
	}
}

type fails struct {
	mu sync.Mutex
	s  string
}

func (f *fails) addf(format string, a ...any) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.s == "" {
		f.s = fmt.Sprintf(format, a...)
	}
}

// together runs the functions in a goroutine each, from a common start.
func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
}

// Candidates are the names a marker can be defined under, the preferred one first.
func Candidates(text string) []string {
	name := strings.TrimPrefix(text, "+")
	i := strings.Index(name, "=")
	if i < 0 {
		return []string{name} // without arguments the text is the name
	}
	name = name[:i]
	out := []string{name}
	if i := strings.LastIndex(name, ":"); i >= 0 {
		out = append(out, name[:i])
	}
	return out
}

const maxVer = 40

func (c *RegCase) run() string {
	reg := &markers.Registry{}
	var f fails
	// the definitions, made beforehand
	defs := make([][]*markers.Definition, len(c.Keys))
	helps := make([][]*markers.DefinitionHelp, len(c.Keys))
	type kv struct{ k, v int }
	of := map[*markers.Definition]kv{}
	at := map[string]int{} // name and target -> key
	for k, key := range c.Keys {
		at[fmt.Sprint(key.Target, key.Name)] = k
		for v := 0; v < maxVer; v++ {
			d, err := markers.MakeDefinition(key.Name, markers.TargetType(key.Target), "")
			if err != nil {
				return "MakeDefinition: " + err.Error()
			}
			defs[k] = append(defs[k], d)
			of[d] = kv{k, v + 1}
			helps[k] = append(helps[k], &markers.DefinitionHelp{Category: fmt.Sprint(k, "/", v)})
		}
	}
	started := make([]atomic.Int64, len(c.Keys))
	done := make([]atomic.Int64, len(c.Keys))
	for _, k := range c.Early {
		if err := reg.Register(defs[k][0]); err != nil {
			return "Register: " + err.Error()
		}
		started[k].Store(1)
		done[k].Store(1)
	}
	final := make([]int, len(c.Keys)) // by the owners
	for _, k := range c.Early {
		final[k] = 1
	}
	together(len(c.Procs), func(g int) {
		low := make([]int, len(c.Keys)) // at least this version is registered
		for _, k := range c.Early {
			low[k] = 1
		}
		help := make([]int, len(c.Keys))
		for n, op := range c.Procs[g] {
			floor := func(k int) int {
				if c.Exact {
					if d := int(done[k].Load()); d > low[k] {
						low[k] = d
					}
				}
				return low[k]
			}
			// judge says whether seeing version v of k after the given floor is possible.
			judge := func(what string, k, v, least int) {
				if v < least {
					f.addf("goroutine %d op %d %s: version %d of %s is seen after version %d was", g, n, what, v, c.Keys[k].Name, least)
				}
				if c.Keys[k].Owner == g && v != low[k] {
					f.addf("goroutine %d op %d %s: version %d of %s is seen by the one that registered version %d", g, n, what, v, c.Keys[k].Name, low[k])
				}
				if c.Exact && v > int(started[k].Load()) {
					f.addf("goroutine %d op %d %s: version %d of %s is seen before it is registered", g, n, what, v, c.Keys[k].Name)
				}
				if v > low[k] {
					low[k] = v
				}
			}
			switch op.Kind {
			case "register":
				v := final[op.Key]
				if v >= maxVer {
					continue
				}
				if c.Exact {
					started[op.Key].Store(int64(v + 1))
				}
				if err := reg.Register(defs[op.Key][v]); err != nil {
					f.addf("Register: %v", err)
				}
				if c.Exact {
					done[op.Key].Store(int64(v + 1))
				}
				low[op.Key], final[op.Key] = v+1, v+1
			case "lookup":
				cands := Candidates(op.Text)
				var ks, least []int
				for _, name := range cands {
					if k, ok := at[fmt.Sprint(op.Tgt, name)]; ok {
						ks, least = append(ks, k), append(least, floor(k))
					}
				}
				got := reg.Lookup(op.Text, markers.TargetType(op.Tgt))
				hit := -1
				if got != nil {
					x, ok := of[got]
					if !ok {
						f.addf("goroutine %d op %d: Lookup(%q) returns an unknown definition", g, n, op.Text)
						continue
					}
					for i, k := range ks {
						if k == x.k {
							hit = i
							judge("Lookup("+op.Text+")", k, x.v, least[i])
						}
					}
					if hit < 0 {
						f.addf("goroutine %d op %d: Lookup(%q, %d) returns %s of target %d", g, n, op.Text, op.Tgt, got.Name, got.Target)
					}
				}
				for i, k := range ks {
					if i == hit {
						break
					}
					if least[i] > 0 {
						f.addf("goroutine %d op %d: Lookup(%q, %d) doesn't find %s, which is registered", g, n, op.Text, op.Tgt, c.Keys[k].Name)
					}
				}
			case "addhelp":
				// keys have helps by their owners only
				h := help[op.Key]
				if h >= maxVer {
					continue
				}
				reg.AddHelp(defs[op.Key][0], helps[op.Key][h])
				help[op.Key] = h + 1
			case "help":
				got := reg.HelpFor(defs[op.Key][0])
				switch {
				case got == nil:
					if help[op.Key] > 0 {
						f.addf("goroutine %d op %d: HelpFor(%s) has nothing after it was added", g, n, c.Keys[op.Key].Name)
					}
				default:
					v := 0
					for i, h := range helps[op.Key] {
						if h == got {
							v = i + 1
						}
					}
					if v == 0 || v < help[op.Key] || c.Keys[op.Key].Owner == g && v != help[op.Key] {
						f.addf("goroutine %d op %d: HelpFor(%s) is %q after number %d", g, n, c.Keys[op.Key].Name, got.Category, help[op.Key])
					} else {
						help[op.Key] = v
					}
				}
			case "all":
				least := make([]int, len(c.Keys))
				for k := range c.Keys {
					least[k] = floor(k)
				}
				seen := map[int]bool{}
				for _, d := range reg.AllDefinitions() {
					x, ok := of[d]
					if !ok || seen[x.k] {
						f.addf("goroutine %d op %d: AllDefinitions has an unknown definition, or two of one name", g, n)
						continue
					}
					seen[x.k] = true
					judge("AllDefinitions()", x.k, x.v, least[x.k])
				}
				for k := range c.Keys {
					if least[k] > 0 && !seen[k] {
						f.addf("goroutine %d op %d: AllDefinitions has no %s", g, n, c.Keys[k].Name)
					}
				}
			}
		}
	})
	// in the end, everything is there
	got := map[int]int{}
	for _, d := range reg.AllDefinitions() {
		x := of[d]
		got[x.k] = x.v
	}
	for k := range c.Keys {
		if got[k] != final[k] {
			f.addf("at the end %s has version %d of %d", c.Keys[k].Name, got[k], final[k])
		}
	}
	return f.s
}

func (c *ColCase) registry() *markers.Registry {
	r := &markers.Registry{}
	for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
		for _, d := range []struct {
			n string
			o any
		}{{"x:int", 0}, {"x:str", ""}, {"x:list", []string{}}, {"x:raw", markers.RawArguments(nil)}, {"x:st", struct {
			A int      `marker:",optional"`
			B []string `marker:",optional"`
		}{}}} {
			if err := r.Define(d.n, t, d.o); err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS", err)
				os.Exit(3)
			}
		}
	}
	return r
}

type colAnswer struct {
	Markers map[ast.Node]markers.MarkerValues
	Types   []*markers.TypeInfo
	Pkg     markers.MarkerValues
	Err     string
}

func ask(col *markers.Collector, kind string, p *loader.Package) (a colAnswer) {
	var err error
	switch kind {
	case "markers":
		a.Markers, err = col.MarkersInPackage(p)
	case "each":
		err = markers.EachType(col, p, func(i *markers.TypeInfo) { a.Types = append(a.Types, i) })
	case "pkg":
		a.Pkg, err = markers.PackageMarkers(col, p)
	}
	if err != nil {
		a = colAnswer{Err: "error"}
	}
	return a
}

func (c *ColCase) run(pkgs []*loader.Package) string {
	var f fails
	if c.Need {
		for _, p := range pkgs {
			p.NeedSyntax()
		}
	}
	col := &markers.Collector{}
	if !c.NoReg {
		col.Registry = c.registry()
	}
	type res struct {
		op ColOp
		a  colAnswer
	}
	results := make([][]res, len(c.Procs))
	together(len(c.Procs), func(g int) {
		for n, op := range c.Procs[g] {
			if op.Kind == "register" {
				if !c.NoReg {
					_ = col.Define(fmt.Sprintf("unused:g%d:n%d", g, n), markers.DescribesType, "")
				}
				continue
			}
			results[g] = append(results[g], res{op, ask(col, op.Kind, pkgs[op.Pkg])})
		}
	})
	for g, rs := range results {
		for n, r := range rs {
			fresh := &markers.Collector{}
			if !c.NoReg {
				fresh.Registry = c.registry()
			}
			if want := ask(fresh, r.op.Kind, pkgs[r.op.Pkg]); !reflect.DeepEqual(r.a, want) {
				f.addf("goroutine %d answer %d (%s of %s) is not that of a fresh collector:\n%s\nfresh:\n%s", g, n, r.op.Kind, pkgs[r.op.Pkg].PkgPath, showAnswer(r.a), showAnswer(want))
			}
		}
	}
	return f.s
}

func showAnswer(a colAnswer) string {
	var sb strings.Builder
	if a.Err != "" {
		return a.Err
	}
	for _, v := range a.Markers {
		fmt.Fprintf(&sb, "  node: %v\n", v)
	}
	for _, t := range a.Types {
		fmt.Fprintf(&sb, "  type %s: %v doc %q\n", t.Name, t.Markers, t.Doc)
		for _, x := range t.Fields {
			fmt.Fprintf(&sb, "    field %s: %v doc %q\n", x.Name, x.Markers, x.Doc)
		}
	}
	fmt.Fprintf(&sb, "  package: %v", a.Pkg)
	return sb.String()
}

// refused are declarations filters refuse.
func filterOf(name string) []loader.NodeFilter {
	no := func(n ast.Node) bool {
		f, ok := n.(*ast.Field)
		return !ok || len(f.Names) == 0 || !strings.HasPrefix(f.Names[0].Name, "Skip")
	}
	switch name {
	case "skip":
		return []loader.NodeFilter{no}
	case "both":
		return []loader.NodeFilter{no, no}
	}
	return nil
}

func (c *ChkCase) run(pkgs []*loader.Package) (string, string) {
	var f fails
	shared := &loader.TypeChecker{NodeFilters: filterOf(c.Filter)}
	together(len(c.Checkers), func(g int) {
		ck := shared
		if !c.Shared {
			ck = &loader.TypeChecker{NodeFilters: filterOf(c.Filter)}
		}
		for _, r := range c.Checkers[g] {
			ck.Check(pkgs[r])
		}
	})
	for _, i := range c.Sure {
		p := pkgs[i]
		if p.Types == nil || !p.Types.Complete() || p.TypesInfo == nil {
			f.addf("%s is not type-checked", p.PkgPath)
		}
	}
	for _, i := range c.Not {
		if pkgs[i].TypesInfo != nil {
			f.addf("%s is type-checked", pkgs[i].PkgPath)
		}
	}
	// what selected declarations look like, and errors that count
	var lines []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind != packages.TypeError || c.Filter == "" {
				pos := e.Pos
				if i := strings.LastIndex(pos, "/"); i >= 0 {
					pos = pos[i:]
				}
				lines = append(lines, fmt.Sprintf("%s error %d %s %s", filepath.Base(p.PkgPath), e.Kind, pos, e.Msg))
			}
		}
		if p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if strings.HasPrefix(n, "Sel") {
				lines = append(lines, fmt.Sprintf("%s %s", filepath.Base(p.PkgPath), p.Types.Scope().Lookup(n).Type().Underlying()))
			}
		}
	}
	sort.Strings(lines)
	return f.s, strings.Join(lines, "\n")
}
