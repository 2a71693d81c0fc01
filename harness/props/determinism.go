package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/genall/help"
	prettyhelp "sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// C09: the same input always gives the same bytes.

type detCase struct {
	files ws.Files // placed below CASE
	roots []string // directories
	order []int
	gens  []genall.Generator
	opts  string
}

// files with their directory as the case index is unknown while generating
func detGens(s *pbt.Src) ([]genall.Generator, string) {
	o := crd.Generator{AllowDangerousTypes: ptrTo(true)}
	var t string
	if s.Chance(30) {
		n := pbt.Pick(s, 0, 5, 20, 60)
		o.MaxDescLen = &n
		t += fmt.Sprintf(" maxDescLen=%d", n)
	}
	if s.Chance(30) {
		o.GenerateEmbeddedObjectMeta = ptrTo(true)
		t += " generateEmbeddedObjectMeta"
	}
	return []genall.Generator{o, deepcopy.Generator{}, rbac.Generator{RoleName: "r"}, webhook.Generator{}}, t
}

func (c *detCase) dirs(s *pbt.Src) {
	m := map[string]bool{}
	for f := range c.files {
		m[filepath.Dir(f)] = true
	}
	for d := range m {
		c.roots = append(c.roots, d)
	}
	sort.Strings(c.roots)
	c.order = s.Perm(len(c.roots))
}

var detConflicts = []string{
	"+kubebuilder:resource:path=ones,scope=Cluster", "+kubebuilder:resource:path=others,shortName=a;b", "+kubebuilder:resource:singular=x,categories=all", "+kubebuilder:resource:scope=Namespaced",
	"+kubebuilder:printcolumn:name=A,type=string,JSONPath=.a", "+kubebuilder:printcolumn:name=B,type=integer,JSONPath=.b,priority=1", "+kubebuilder:printcolumn:name=A,type=date,JSONPath=.c",
	"+kubebuilder:deprecatedversion", "+kubebuilder:deprecatedversion:warning=old", "+kubebuilder:unservedversion", "+kubebuilder:storageversion", "+kubebuilder:skipversion",
	"+kubebuilder:subresource:status", "+kubebuilder:subresource:scale:specpath=.a,statuspath=.b", "+kubebuilder:subresource:scale:specpath=.c,statuspath=.d",
	"+kubebuilder:metadata:labels=a=1;b=2", "+kubebuilder:metadata:labels=a=3", "+kubebuilder:metadata:annotations=x=1;y=2,labels=c=4", "+kubebuilder:metadata:annotations=x=2",
	"+kubebuilder:object:root=true", "+kubebuilder:object:root=false", "+kubebuilder:object:generate=false",
	"+kubebuilder:selectablefield:JSONPath=.spec.a", "+kubebuilder:selectablefield:JSONPath=.spec.b",
	"+kubebuilder:validation:XValidation:rule=a", "+kubebuilder:validation:XValidation:rule=b", "+kubebuilder:validation:MinProperties=1", "+kubebuilder:validation:MinProperties=2",
	"+kubebuilder:pruning:PreserveUnknownFields", "+structType=atomic", "+structType=granular", "+kubebuilder:validation:Optional", "+kubebuilder:validation:Required",
}

var detPkgConflicts = []string{
	"+groupName=g.ex.test", "+groupName=apps.ex.test", "+versionName=v1", "+versionName=v2", "+kubebuilder:validation:Optional", "+kubebuilder:validation:Required",
	"+kubebuilder:object:generate=true", "+kubebuilder:object:generate=false", "+k8s:deepcopy-gen=package", "+kubebuilder:skip",
}

// conflict adds markers anywhere, most of them contradicting others.
func conflict(s *pbt.Src, files ws.Files, n int) {
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for i := 0; i < n; i++ {
		f := names[s.Intn(len(names))]
		lines := strings.Split(files[f], "\n")
		if s.Chance(12) {
			lines = append([]string{"// " + pbt.Pick(s, detPkgConflicts...)}, lines...)
		} else {
			var at []int
			for k, l := range lines {
				if strings.HasPrefix(l, "type ") && !strings.HasSuffix(l, "(") {
					at = append(at, k)
				}
			}
			if len(at) == 0 {
				continue
			}
			k := at[s.Intn(len(at))]
			m := "// " + pbt.Pick(s, detConflicts...)
			lines = append(lines[:k:k], append([]string{m}, lines[k:]...)...)
		}
		files[f] = strings.Join(lines, "\n")
	}
}

func genDetKinds(s *pbt.Src) any {
	c := &detCase{files: ws.Files{}}
	mc := genManifests(s).(*crdCase)
	c.files = mc.files
	conflict(s, c.files, s.Small(8))
	for f, b := range c.files {
		c.files[f] = "// +kubebuilder:object:generate=true\n" + b
	}
	c.dirs(s)
	c.gens, c.opts = detGens(s)
	return c
}

func genDetSchemas(s *pbt.Src) any {
	c := &detCase{}
	cc := constraintCase(s, s.Chance(15)).(*conCase)
	c.files = cc.files
	conflict(s, c.files, s.Small(4))
	c.dirs(s)
	c.gens, c.opts = detGens(s)
	return c
}

func genDetManifests(s *pbt.Src) any {
	c := &detCase{files: ws.Files{}}
	for k, v := range makeWebhooks(s, s.Chance(10)).(*whCase).files {
		c.files["w/"+k] = v
	}
	rc := genRBACCase(s).(*rbacCase)
	for k, v := range rbacFiles(rc.pkgs, "r") {
		c.files[k] = v
	}
	c.dirs(s)
	c.gens, c.opts = detGens(s)
	return c
}

func detKeys(m map[string][]byte) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// diffRuns compares the artifacts of two runs.
func diffRuns(what string, a, b ws.Result) pbt.Outcome {
	if a.Bad() != b.Bad() {
		return pbt.Failf("success differs", "%s: %v versus %v", what, a.Errs, b.Errs)
	}
	if a.Bad() {
		return pbt.OK(false)
	}
	if x, y := fmt.Sprint(detKeys(a.Files)), fmt.Sprint(detKeys(b.Files)); x != y {
		return pbt.Failf("artifacts differ", "%s: %s versus %s", what, x, y)
	}
	for k := range a.Files {
		if !bytes.Equal(a.Files[k], b.Files[k]) {
			return pbt.Failf("contents differ", "%s: %s is\n%s\nversus\n%s", what, k, a.Files[k], b.Files[k])
		}
	}
	return pbt.OK(len(a.Files) > 0)
}

func checkDeterminism(cases []any) []pbt.Outcome {
	dir := Scratch("det")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*detCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	l2, err := ws.Load(dir, "./...")
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*detCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			roots := func(l *ws.Loaded, order []int) (out []*pkgT) {
				for k := range c.roots {
					if order != nil {
						k = order[k]
					}
					out = append(out, l.ByPath[filepath.Join(ws.Mod, fmt.Sprintf("c%d", i), c.roots[k])])
				}
				return out
			}
			multi, n := len(c.roots) > 1, 0
			for _, g := range c.gens {
				name := fmt.Sprintf("%T", g)
				first := ws.Run(g, roots(l, nil))
				if first.Bad() {
					// errors are recorded with the packages, so that later runs are not comparable
					again := ws.Run(g, roots(l2, nil))
					if !again.Bad() {
						return pbt.Failf("success differs", "%s: %v the first time only", name, first.Errs)
					}
					continue
				}
				for _, o := range []struct {
					what  string
					l     *ws.Loaded
					order []int
				}{{"again", l, nil}, {"after another load", l2, nil}, {"with the roots in another order", l2, c.order}} {
					d := diffRuns(name+" "+o.what, first, ws.Run(g, roots(o.l, o.order)))
					if d.Fail != "" {
						return d
					}
					if d.NonTrivial {
						n++
					}
				}
			}
			return pbt.OK(n > 0 && multi)
		})
	}
	return out
}

func showDet(a any) string {
	c := a.(*detCase)
	return c.files.Show() + fmt.Sprintf("options:%s roots: %v order: %v\n", c.opts, c.roots, c.order)
}

// the help of a registry in all its forms
func helpText(reg *markers.Registry, sorter help.SortGroup) string {
	var b bytes.Buffer
	cats := help.ByCategory(reg, sorter)
	_ = json.NewEncoder(&b).Encode(cats)
	for _, cat := range cats {
		_ = prettyhelp.MarkersSummary(cat.Category, cat.Markers).WriteTo(&b)
		_ = prettyhelp.MarkersDetails(true, cat.Category, cat.Markers).WriteTo(&b)
		_ = prettyhelp.MarkersDetails(false, cat.Category, cat.Markers).WriteTo(&b)
	}
	return b.String()
}

type helpCase struct {
	defs   []*markers.Definition
	helps  []*markers.DefinitionHelp
	order  []int
	byOpts bool
}

type helpArgs struct {
	A string `marker:",optional"`
	B *int
	C []string `marker:"see"`
	D map[string]bool
	E float64
	F any
}

func genHelpCase(s *pbt.Src) any {
	c := &helpCase{byOpts: s.Chance(40)}
	n := 2 + s.Small(14)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := pbt.Pick(s, "a", "b", "a:b", "output:a:x", "output:x", "output:b:x", "k:a", "k:b", "k:a:c", "paths", "crd")
		target := pbt.Pick(s, markers.DescribesPackage, markers.DescribesType, markers.DescribesField)
		if k := fmt.Sprint(name, target); used[k] {
			continue
		} else {
			used[k] = true
		}
		out := pbt.Pick[any](s, helpArgs{}, struct{}{}, "", 1, false, markers.RawArguments(nil), []string(nil))
		c.defs = append(c.defs, markers.Must(markers.MakeDefinition(name, target, out)))
		var h *markers.DefinitionHelp
		switch s.Intn(3) {
		case 0:
			h = markers.SimpleHelp(pbt.Pick(s, "one", "two", ""), "summary "+name)
		case 1:
			h = markers.DeprecatedHelp(pbt.Pick(s, "", "a"), pbt.Pick(s, "one", "two"), "old")
		}
		c.helps = append(c.helps, h)
	}
	c.order = s.Perm(len(c.defs))
	return c
}

func checkHelpOrder(cases []any) []pbt.Outcome {
	var mu sync.Mutex // colours are written through a global
	return pbt.Each(func(a any) pbt.Outcome {
		c := a.(*helpCase)
		mu.Lock()
		defer mu.Unlock()
		var first string
		for try := 0; try < 6; try++ {
			reg := &markers.Registry{}
			for k := range c.defs {
				if try%2 == 1 {
					k = c.order[k]
				}
				if err := reg.Register(c.defs[k]); err != nil {
					return pbt.Failf("register", "%v", err)
				}
				if c.helps[k] != nil {
					reg.AddHelp(c.defs[k], c.helps[k])
				}
			}
			var sorter help.SortGroup = help.SortByCategory
			if c.byOpts {
				sorter = help.SortByOption
			}
			t := helpText(reg, sorter)
			if try == 0 {
				first = t
			} else if t != first {
				return pbt.Failf("help differs", "%s\nversus\n%s", first, t)
			}
		}
		names := map[string]bool{}
		for _, d := range c.defs {
			names[d.Name] = true
		}
		return pbt.OK(len(names) < len(c.defs))
	})(cases)
}

func showHelpCase(a any) string {
	c := a.(*helpCase)
	var b strings.Builder
	for i, d := range c.defs {
		fmt.Fprintf(&b, "%s for %v, help %+v\n", d.Name, d.Target, c.helps[i])
	}
	return b.String()
}

// the command line tool, built once per process
var cliOnce sync.Once
var cliPath string
var cliErr error

func cli() string {
	cliOnce.Do(func() {
		cliPath = filepath.Join(Scratch("cli"), "controller-gen")
		cmd := exec.Command("go", "build", "-o", cliPath, "./cmd/controller-gen")
		cmd.Dir = ws.RepoDir()
		if out, err := cmd.CombinedOutput(); err != nil {
			cliErr = fmt.Errorf("building controller-gen: %v\n%s", err, out)
		}
	})
	if cliErr != nil {
		panic(pbt.HarnessPanic(cliErr.Error()))
	}
	return cliPath
}

type cliRun struct {
	out, err string
	code     int
	files    map[string]string // files below the directory, by relative path
}

// treeOf reads a directory.
func treeOf(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// runCLI runs the tool in a directory.
func runCLI(dir string, args ...string) cliRun {
	cmd := exec.Command(cli(), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRun{out: o.String(), err: e.String()}
	if err != nil {
		x, isExit := err.(*exec.ExitError)
		if !isExit {
			panic(pbt.HarnessPanic(err.Error()))
		}
		r.code = x.ExitCode()
	}
	return r
}

type cliDetCase struct {
	c    *detCase
	help []string
}

func genCLIDet(s *pbt.Src) any {
	if s.Chance(30) {
		gens := someOf(s, []string{"crd", "rbac:roleName=x", "webhook", "object", "schemapatch:manifests=x", "applyconfiguration"}, 6)
		return &cliDetCase{help: append(gens, pbt.Pick(s, "-w", "-ww", "-www", "-wwww", "-h", "-hh", "-hhh", "-hhhh"))}
	}
	c := genDetKinds(s).(*detCase)
	return &cliDetCase{c: c}
}

func checkCLIDet(cases []any) []pbt.Outcome {
	return pbt.Each(func(a any) pbt.Outcome {
		c := a.(*cliDetCase)
		if c.help != nil {
			d := Scratch("help")
			defer Drop(d)
			first := runCLI(d, c.help...)
			for i := 0; i < 3; i++ {
				r := runCLI(d, c.help...)
				if r.out != first.out || r.err != first.err || r.code != first.code {
					return pbt.Failf("help differs between processes", "%s%s\nversus\n%s%s", first.out, first.err, r.out, r.err)
				}
			}
			return pbt.OK(first.code == 0)
		}
		var prev []cliRun
		for k := 0; k < 2; k++ {
			d := Scratch("run")
			defer Drop(d)
			if err := ws.InitModule(d, ws.Mod); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			if err := ws.WriteFiles(filepath.Join(d, "c0"), place(c.c.files, 0)); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			args := []string{"crd", "object", "rbac:roleName=r", "webhook", "output:crd:dir=out/crd", "output:dir=out", "output:object:dir=out"}
			var paths []string
			for j := range c.c.roots {
				if k == 1 {
					j = c.c.order[j]
				}
				paths = append(paths, "./"+filepath.Join("c0", c.c.roots[j]))
			}
			args = append(args, "paths="+strings.Join(paths, ";"))
			r := runCLI(d, args...)
			r.files = treeOf(filepath.Join(d, "out"))
			delete(r.files, "zz_generated.deepcopy.go") // that of whichever package came last
			prev = append(prev, r)
		}
		a0, b0 := prev[0], prev[1]
		if a0.code != b0.code {
			return pbt.Failf("success differs between processes", "%s\nversus\n%s", a0.err, b0.err)
		}
		if a0.code != 0 {
			return pbt.OK(false)
		}
		for k := range a0.files {
			if a0.files[k] != b0.files[k] {
				return pbt.Failf("contents differ between processes", "%s:\n%s\nversus\n%s", k, a0.files[k], b0.files[k])
			}
		}
		if len(a0.files) != len(b0.files) {
			return pbt.Failf("artifacts differ between processes", "%d versus %d", len(a0.files), len(b0.files))
		}
		return pbt.OK(len(a0.files) > 0)
	})(cases)
}

func showCLIDet(a any) string {
	c := a.(*cliDetCase)
	if c.help != nil {
		return fmt.Sprintf("controller-gen %q\n", c.help)
	}
	return showDet(c.c)
}

func init() {
	register(&Prop{
		ID:          "C09",
		Rule:        "The inputs of C06, C08, C10 and C12 with contradicting markers added; each generator runs again in the same process on the same packages, on a second load, and with the roots in another order: same success, same files, same bytes. Registries filled in several orders give the same help in every form. A third family compares processes of the built controller-gen. Non-trivial: several roots and some artifact (help: markers of the same name for several targets).",
		Assumptions: []string{"runs that report errors are only compared for success"},
		Families: []*pbt.Family{
			{Name: "kinds", Gen: genDetKinds, Check: checkDeterminism, Show: showDet, Batch: 100, Parallel: 4, Quick: 800, Thorough: 30000, ShrinkBatch: 60},
			{Name: "schemas", Gen: genDetSchemas, Check: checkDeterminism, Show: showDet, Batch: 100, Parallel: 4, Quick: 800, Thorough: 30000, ShrinkBatch: 60},
			{Name: "manifests", Gen: genDetManifests, Check: checkDeterminism, Show: showDet, Batch: 200, Parallel: 4, Quick: 2000, Thorough: 30000, ShrinkBatch: 60},
			{Name: "help", Gen: genHelpCase, Check: checkHelpOrder, Show: showHelpCase, Batch: 200, Parallel: 1, Quick: 2000, Thorough: 50000, ShrinkBatch: 60},
			{Name: "processes", Gen: genCLIDet, Check: checkCLIDet, Show: showCLIDet, Batch: 4, Parallel: 6, Quick: 40, Thorough: 1500, ShrinkBatch: 4},
		},
	})
}
