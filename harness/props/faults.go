package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// ---- C18: a fault anywhere makes the run fail, saying where

type fLine struct {
	text  string
	fault *fault
}

type fault struct {
	what  string
	needs string // generator whose run notices it ("" any)
	by    string // generator that must itself run to notice (marker errors are noticed by any)
	stop  bool   // its generator gives up at it
	text  string // expected somewhere in the report instead of a position
	whole bool   // spoils its package
	pkg   string
	file  string
	line  int
	nopos bool
}

type fFile struct {
	path  string
	lines []fLine
}

func (f *fFile) add(text string) {
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		f.lines = append(f.lines, fLine{text: l})
	}
}

func (f *fFile) bad(text string, x *fault) {
	f.lines = append(f.lines, fLine{text, x})
	x.file, x.line = f.path, len(f.lines)
}

func (f *fFile) String() string {
	var b strings.Builder
	for _, l := range f.lines {
		b.WriteString(l.text + "\n")
	}
	return b.String()
}

type fCase struct {
	files  ws.Files
	pkgs   []string // directories
	roots  []string
	gens   []string
	faults []*fault
}

type fGen struct {
	s      *pbt.Src
	c      *fCase
	budget int             // faults still to place
	spent  map[string]bool // packages that have one
	pkg    string
	many   string          // kind of faults of which a package has many
	later  int
	tail   []func() // what comes after the type
}

// want decides whether the fault goes here.
func (g *fGen) want(pct int) bool {
	if g.many != "" {
		return g.many != "syntax" && g.budget > 0 && g.s.Chance(min(2*pct, 50))
	}
	return g.budget > 0 && !g.spent[g.pkg] && g.s.Chance(pct)
}

func (g *fGen) put(x *fault) *fault {
	g.budget--
	g.spent[g.pkg] = true
	x.pkg = g.pkg
	g.c.faults = append(g.c.faults, x)
	return x
}

var fieldMarkerFaults = []string{
	"+kubebuilder:validation:Minimum=abc", "+kubebuilder:validation:MaxLength=", "+kubebuilder:validation:MaxLength=-", "+kubebuilder:validation:Enum={a", "+kubebuilder:default={a:",
	"+kubebuilder:validation:MaxLength=99999999999999999999", `+kubebuilder:validation:XValidation:message="x"`, `+kubebuilder:validation:XValidation:rule="x",foo="y"`,
	"+kubebuilder:validation:Pattern", "+kubebuilder:validation:ExclusiveMaximum=maybe", "+kubebuilder:validation:UniqueItems=2", `+kubebuilder:validation:Pattern="a`, "+kubebuilder:validation:MaxItems=1.5",
	`+kubebuilder:validation:MaxLength=3 4`, "+kubebuilder:validation:Minimum=1e", `+kubebuilder:validation:Enum=a;b;"c`, "+kubebuilder:example={a",
}
var typeMarkerFaults = []string{
	"+kubebuilder:printcolumn:name=x,JSONPath=.a", `+kubebuilder:resource:path=xs,bogus=1`, "+kubebuilder:validation:MaxProperties=x", "+kubebuilder:subresource:scale:specpath=.spec.n", "+kubebuilder:printcolumn:name=x,type=string,JSONPath=.a,priority=high",
	"+kubebuilder:validation:XValidation:message=x", `+kubebuilder:metadata:annotations={"a`, "+kubebuilder:resource:shortName={a", "+kubebuilder:selectablefield:foo=x",
}

// misapplied are types with a marker that says nothing about them.
var misapplied = func() [][2]string {
	var out [][2]string
	on := func(types string, markers ...string) {
		for _, t := range strings.Split(types, " ") {
			for _, m := range markers {
				out = append(out, [2]string{t, m})
			}
		}
	}
	v := "kubebuilder:validation:"
	length := []string{v + "MaxLength=5", v + "MinLength=1", v + "Pattern=x"}
	number := []string{v + "Maximum=3", v + "Minimum=1", v + "ExclusiveMaximum=true", v + "ExclusiveMinimum=true", v + "MultipleOf=3"}
	items := []string{v + "MaxItems=1", v + "MinItems=1", v + "UniqueItems=true", "listType=set", "listMapKey=a", v + "items:MaxLength=1", v + "items:Pattern=x"}
	props := []string{v + "MaxProperties=1", v + "MinProperties=1", "mapType=atomic"}
	on("bool", length...)
	on("bool string metav1.Time", number...)
	on("bool string int32 map[string]string metav1.Duration", items...)
	on("bool string int64 []string", props...)
	on("int32 *int64 []string map[string]string", length...)
	on("[]string map[string]string", number...)
	on("string int32 []string", "structType=atomic")
	on("int32 int64", v+"Maximum=1.5", v+"Minimum=0.5", v+"MultipleOf=1.5")
	on("[]string", "listType=bogus", v+"items:Maximum=3", v+"items:MaxItems=3", "listMapKey=a")
	on("[]int32", v+"items:MaxLength=3", v+"items:Maximum=1.5")
	on("map[string]string", "mapType=bogus", "structType=bogus")
	on("[]map[string]string", v+"items:MaxLength=3", v+"items:MaxItems=3")
	on("string int32 map[string]string", v+"XValidation:rule=`true`,reason=Bogus")
	return out
}()

// badKinds are markers that parse and that make a CRD of one version impossible.
var badKinds = []string{"kubebuilder:metadata:annotations=\"nothing\"", "kubebuilder:metadata:labels=\"a=b\";\"c\""}

var badTypes = []string{"chan int", "func()", "map[int]string", "complex128", "float64", "float32", "Undefined", "[]Undefined", "map[string]*Undefined", "*chan bool", "[]func(int) string", "map[bool]string", "metav1.NoSuchThing", "interface{ M() }"}

func (g *fGen) field(f *fFile, i int, reach bool) {
	s := g.s
	name, tag := fmt.Sprintf("F%d", i), fmt.Sprintf(" `json:\"f%d\"`", i)
	if s.Bool() {
		f.add("\t// Some words.")
	}
	typ := pbt.Pick(s, "string", "int32", "[]string", "map[string]int64", "*bool", "metav1.Time", "Shared", "*Shared", "[]Shared")
	if !reach && strings.Contains(typ, "Shared") {
		typ = "string"
	}
	if reach && g.want(12) {
		kind := s.Intn(5)
		switch g.many {
		case "markers":
			kind = 0
		case "schemas":
			kind = 1 + s.Intn(4)
		}
		switch kind {
		case 4:
			// a type that writes itself as text, and that is said to be something else
			g.later++
			mine := fmt.Sprintf("Text%s%d", strings.Title(g.pkg), g.later)
			f.add("\t" + name + " " + pbt.Pick(s, "", "*", "[]") + mine + tag)
			shape, what := pbt.Pick(s, "struct{ X int }", "int32", "[]byte"), pbt.Pick(s, "integer", "object", "array", "boolean")
			x := g.put(&fault{what: "text marshaler that is no string", needs: "crd", by: "crd"})
			g.tail = append(g.tail, func() {
				f.add("// " + mine + " is text.\n// +kubebuilder:validation:Type=" + what)
				f.bad("type "+mine+" "+shape, x)
				f.add("func (" + mine + ") MarshalText() ([]byte, error) { return nil, nil }\n")
			})
			return
		case 0:
			f.bad("\t// "+fieldMarkerFaults[s.Intn(len(fieldMarkerFaults))], g.put(&fault{what: "field marker", needs: "crd"}))
		case 1:
			typ = badTypes[s.Intn(len(badTypes))]
			f.bad("\t"+name+" "+typ+tag, g.put(&fault{what: "unsupported type " + typ, needs: "crd", by: "crd"}))
			return
		case 2:
			f.bad("\t"+name+" "+typ, g.put(&fault{what: "no tag", needs: "crd", by: "crd"}))
			return
		case 3:
			m := pbt.Pick(s, misapplied...)
			f.add("\t// +" + m[1])
			f.bad("\t"+name+" "+m[0]+tag, g.put(&fault{what: "marker that doesn't apply: " + m[1] + " on " + m[0], needs: "crd", by: "crd"}))
			return
		}
	} else if s.Chance(30) {
		switch typ {
		case "string":
			f.add("\t// +kubebuilder:validation:MaxLength=5")
		case "int32":
			f.add("\t// +kubebuilder:default=3\n\t// +kubebuilder:validation:Minimum=1")
		case "[]string":
			f.add("\t// +listType=set\n\t// +kubebuilder:validation:MaxItems=4")
		}
	}
	f.add("\t" + name + " " + typ + tag)
}

func (g *fGen) structType(f *fFile, name, head string, reach bool) {
	s := g.s
	f.add("// " + name + " is a type.")
	if g.many != "schemas" && g.want(6) {
		if s.Chance(25) {
			f.bad("// +kubebuilder:object:"+pbt.Pick(s, "generate=maybe", "root=2", "generate="), g.put(&fault{what: "type marker", needs: "object"}))
		} else {
			f.bad("// "+typeMarkerFaults[s.Intn(len(typeMarkerFaults))], g.put(&fault{what: "type marker", needs: "crd"}))
		}
	}
	if s.Chance(20) {
		f.add("// +kubebuilder:validation:MaxProperties=5")
	}
	if reach && g.many == "" && strings.HasPrefix(name, "Kind") && !strings.HasSuffix(name, "Spec") && g.want(8) {
		m := pbt.Pick(s, badKinds...)
		f.add("// +" + m)
		f.bad("type "+name+" struct {", g.put(&fault{what: "kind that cannot be: " + m, needs: "crd", by: "crd"}))
		f.add(head)
	} else {
		f.add("type " + name + " struct {\n" + head)
	}
	for i, n := 0, 1+s.Small(4); i < n; i++ {
		g.field(f, i, reach)
	}
	f.add("}\n")
	for _, more := range g.tail {
		more()
	}
	g.tail = nil
}

var pkgMarkerFaults = []struct {
	text, needs string
	stop        bool
	report      string
}{
	{"+kubebuilder:rbac:groups=a,resources=r,verbs={get", "rbac", false, ""},
	{"+kubebuilder:rbac:groups=a,resources=r,verbs=get,bogus=1", "rbac", false, ""},
	{"+kubebuilder:rbac:groups=a,resources=r", "rbac", false, ""},
	{`+kubebuilder:rbac:groups="a,verbs=get`, "rbac", false, ""},
	{"+kubebuilder:webhook:path=/x", "webhook", false, ""},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=perhaps,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1", "webhook", false, ""},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=Some,admissionReviewVersions=v1", "webhook", true, "SideEffects"},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,admissionReviewVersions=v1", "webhook", true, "SideEffects"},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None", "webhook", false, ""},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1,timeoutSeconds=99", "webhook", true, "imeout"},
	{"+kubebuilder:webhook:name=a.b,path=/x,url=`https://h`,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1", "webhook", true, "`url` or `path`"},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=true,failurePolicy=fail,matchPolicy=some,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1", "webhook", true, "matchPolicy"},
	{"+kubebuilder:webhook:name=a.b,path=/x,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1,webhookVersions=v7", "webhook", true, "v7"},
	{"+kubebuilder:object:generate=7", "object", false, ""},
	{"+groupName=`x", "crd", false, ""},
	{"+kubebuilder:skip=x", "crd", false, ""},
}

func genFaults(s *pbt.Src) any { return genFaultsLike(s, "") }

// genManyFaults makes packages with several faults of a kind.
func genManyFaults(s *pbt.Src) any { return genFaultsLike(s, pbt.Pick(s, "markers", "schemas", "syntax")) }

func genFaultsLike(s *pbt.Src, many string) any {
	c := &fCase{files: ws.Files{}}
	g := &fGen{s: s, c: c, many: many, spent: map[string]bool{}}
	g.budget = s.PickW(2, 6, 3, 1)
	if many != "" {
		g.budget = s.Range(2, 12)
	}
	gens := []string{"crd", "rbac", "webhook", "object"}
	for i, n := range pbt.Shuffle(s, gens) {
		if i == 0 || s.Chance(60) {
			c.gens = append(c.gens, n)
		}
	}
	hasLib := s.Chance(40)
	n := 1 + s.Small(3)
	for i := 0; i < n; i++ {
		g.pkg = fmt.Sprintf("p%d", i)
		c.pkgs = append(c.pkgs, g.pkg)
		c.roots = append(c.roots, g.pkg)
		g.api(i, hasLib && i == 0)
	}
	if hasLib {
		g.pkg = "lib"
		c.pkgs = append(c.pkgs, "lib")
		if s.Bool() {
			c.roots = append(c.roots, "lib")
		}
		f := &fFile{path: "lib/lib.go"}
		// a package merely referred to is noticed by its types only
		f.add("package lib\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n\n// Shared is a type.\ntype Shared struct {\n\tX string `json:\"x\"`\n}\n")
		g.structType(f, "Lib", "\tX string `json:\"x\"`", true)
		c.files[f.path] = f.String()
	}
	c.roots = pbt.Shuffle(s, c.roots)
	return c
}

// genVersionFaults makes kinds with several versions, some of which cannot become a CRD.
func genVersionFaults(s *pbt.Src) any {
	c := &fCase{files: ws.Files{}, gens: []string{"crd"}}
	versions := []string{"v1", "v1beta1", "v2"}[:s.Range(1, 3)]
	kinds := []string{"Alpha", "Beta"}[:s.Range(1, 2)]
	texts := map[string]string{}
	for _, k := range kinds {
		have, skipped, stored, served, anyStored := 0, 0, 0, 0, false
		for _, v := range versions {
			if len(versions) > 1 && !s.Chance(75) {
				continue
			}
			have++
			var marks []string
			stores, unserved, skips := s.Chance(35) && !anyStored, s.Chance(35), s.Chance(15)
			anyStored = anyStored || stores
			if stores {
				marks = append(marks, "storageversion")
			}
			if unserved {
				marks = append(marks, "unservedversion")
			}
			if skips {
				marks = append(marks, "skipversion")
			}
			if s.Chance(20) {
				marks = append(marks, "resource:scope=Cluster")
			}
			texts[v] += "\n"
			for _, m := range pbt.Shuffle(s, marks) {
				texts[v] += "// +kubebuilder:" + m + "\n"
			}
			texts[v] += fmt.Sprintf("type %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tX string `json:\"x\"`\n}\n", k)
			if skips {
				skipped++
				continue
			}
			if stores {
				stored++
			}
			if !unserved {
				served++
			}
		}
		left := have - skipped
		bad := func(what, text string) {
			c.faults = append(c.faults, &fault{what: k + ": " + what, needs: "crd", by: "crd", pkg: versions[0], nopos: true, text: text})
		}
		switch {
		case left == 0: // nothing is generated
		case left > 1 && stored == 0:
			bad("several versions, none stored", k+".g.io")
		case served == 0:
			bad("no version is served", k+".g.io")
		}
	}
	for _, v := range versions {
		c.pkgs = append(c.pkgs, v)
		c.files[v+"/x.go"] = "// +groupName=g.io\npackage " + v + "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n" + texts[v]
	}
	c.roots = pbt.Shuffle(s, c.pkgs)
	return c
}

func (g *fGen) api(i int, lib bool) {
	s, c := g.s, g.c
	f := &fFile{path: g.pkg + "/types.go"}
	if g.many != "schemas" && g.want(20) {
		b := pkgMarkerFaults[s.Intn(len(pkgMarkerFaults))]
		for g.many != "" && b.stop { // seen after the others
			b = pkgMarkerFaults[s.Intn(4)]
		}
		if s.Bool() {
			f.add("// +kubebuilder:rbac:groups=g,resources=r,verbs=get")
		}
		f.bad("// "+b.text, g.put(&fault{what: "package marker " + b.text, needs: b.needs, stop: b.stop, text: b.report}))
	} else if s.Bool() {
		f.add("// +kubebuilder:rbac:groups=g,resources=r,verbs=get\n// +kubebuilder:webhook:name=a.b,path=/x,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1")
	}
	if s.Bool() {
		f.add("// +kubebuilder:object:generate=true")
	}
	f.add(fmt.Sprintf("// +groupName=g%d.io\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"", i))
	libField := ""
	if lib {
		f.add("import \"" + ws.Mod + "/@/lib\"")
		libField = "\tL *lib.Lib `json:\"l\"`"
	}
	f.add("")
	g.structType(f, "Shared", "\tA string `json:\"a\"`", false)
	spec := "\tS Shared `json:\"s\"`"
	if libField != "" {
		spec += "\n" + libField
	}
	kinds := 1 + s.Small(1)
	for k := 0; k < kinds; k++ {
		g.structType(f, fmt.Sprintf("Kind%d", k), fmt.Sprintf("\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec Kind%dSpec `json:\"spec\"`", k), true)
	}
	g2 := f
	if s.Bool() {
		g2 = &fFile{path: g.pkg + "/more.go"}
		g2.add("package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"")
		if lib {
			g2.add("import \"" + ws.Mod + "/@/lib\"")
			f.lines = append(f.lines, fLine{text: "var _ lib.Lib"})
		}
		g2.add("\nvar _ metav1.Time\n")
	}
	for k := 0; k < kinds; k++ {
		g.structType(g2, fmt.Sprintf("Kind%dSpec", k), spec, true)
	}
	c.files[f.path] = f.String()
	c.files[g2.path] = g2.String()
	if g.many == "syntax" {
		for i := range g.s.Range(1, 4) {
			b := &fFile{path: fmt.Sprintf("%s/bad%d.go", g.pkg, i)}
			b.add("package v1\n" + strings.Repeat("\nvar _ int\n", s.Intn(3)) + "\ntype Y struct {")
			b.bad("\tX string )", g.put(&fault{what: "syntax error", whole: true}))
			c.files[b.path] = b.String()
		}
	}
	if g.many == "" && g.want(15) {
		b := &fFile{path: g.pkg + "/bad.go"}
		switch s.Intn(4) {
		case 0:
			b.add("package v1\n\ntype Y struct {")
			b.bad("\tX string )", g.put(&fault{what: "syntax error", whole: true}))
		case 1:
			b.add("package v1\n")
			b.bad("import _ \""+ws.Mod+"/@/nothere"+g.pkg+"\"", g.put(&fault{what: "missing import", whole: true, nopos: true, text: "nothere" + g.pkg}))
		case 2:
			b.bad("package other", g.put(&fault{what: "package clause", whole: true, nopos: true, text: "found packages"}))
		case 3:
			b.add("package v1\n\nfunc f() {")
			b.bad("\tx := := 3", g.put(&fault{what: "syntax error", whole: true}))
			b.add("}")
		}
		c.files[b.path] = b.String()
	}
}

func showFaults(a any) string {
	c := a.(*fCase)
	t := c.files.Show() + fmt.Sprintf("\nroots %v, generators %v\n", c.roots, c.gens)
	for _, f := range c.faults {
		t += fmt.Sprintf("fault: %s in %s:%d\n", f.what, f.file, f.line)
	}
	return t
}

func (c *fCase) generators() genall.Generators {
	var out genall.Generators
	for _, n := range c.gens {
		var g genall.Generator
		switch n {
		case "crd":
			g = crd.Generator{}
		case "rbac":
			g = rbac.Generator{RoleName: "r"}
		case "webhook":
			g = webhook.Generator{}
		case "object":
			g = deepcopy.Generator{}
		}
		out = append(out, &g)
	}
	return out
}

var stderrMu sync.Mutex

// runRuntime runs generators as the tool does, with what it prints.
func runRuntime(gens genall.Generators, roots []*loader.Package, out genall.OutputRule, in genall.InputRule) (bool, string) {
	reg := &markers.Registry{}
	if err := gens.RegisterMarkers(reg); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	var buf bytes.Buffer
	rt := &genall.Runtime{
		Generators: gens,
		GenerationContext: genall.GenerationContext{
			Collector: &markers.Collector{Registry: reg},
			Roots:     roots,
			InputRule: in,
			Checker:   &loader.TypeChecker{NodeFilters: gens.CheckFilters()},
		},
		OutputRules: genall.OutputRules{Default: out},
		ErrorWriter: &buf,
	}
	stderrMu.Lock()
	defer stderrMu.Unlock()
	f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "stderr")
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	old := os.Stderr
	os.Stderr = f
	defer func() {
		os.Stderr = old
		f.Close()
		os.Remove(f.Name())
	}()
	failed := rt.Run()
	text, _ := os.ReadFile(f.Name())
	return failed, buf.String() + string(text)
}

func checkFaults(cases []any) []pbt.Outcome {
	dir := Scratch("fl")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		m := ws.Files{}
		for k, v := range a.(*fCase).files {
			m[k] = strings.ReplaceAll(v, ws.Mod+"/@/", fmt.Sprintf("%s/c%d/", ws.Mod, i))
		}
		files = append(files, m)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*fCase)
		var roots []*pkgT
		for _, r := range c.roots {
			p := l.ByPath[fmt.Sprintf("%s/c%d/%s", ws.Mod, i, r)]
			if p == nil {
				panic(pbt.ToolPanic("not loaded: package " + r + "\n" + showFaults(c)))
			}
			roots = append(roots, p)
		}
		outs[i] = pbt.Guard(func() pbt.Outcome {
			failed, text := runRuntime(c.generators(), roots, &ws.MemOut{}, genall.InputFromFileSystem)
			return c.judge(failed, text, filepath.Join(dir, fmt.Sprintf("c%d", i)))
		})
	}
	return outs
}

// checkFaultsTool does the same through the command line.
func checkFaultsTool(cases []any) []pbt.Outcome {
	dir := Scratch("ft")
	defer Drop(dir)
	if err := ws.InitModule(dir, ws.Mod); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	var wg sync.WaitGroup
	for i, a := range cases {
		c := a.(*fCase)
		cdir := filepath.Join(dir, fmt.Sprintf("c%d", i))
		for k, v := range c.files {
			if err := ws.WriteFiles(cdir, ws.Files{k: strings.ReplaceAll(v, ws.Mod+"/@/", fmt.Sprintf("%s/c%d/", ws.Mod, i))}); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = pbt.Guard(func() pbt.Outcome {
				args := []string{"output:none"}
				for _, g := range c.gens {
					if g == "rbac" {
						g = "rbac:roleName=r"
					}
					args = append(args, g)
				}
				for _, r := range c.roots {
					args = append(args, fmt.Sprintf("paths=./c%d/%s", i, r))
				}
				r := runCLI(dir, args...)
				if r.code != 0 && r.code != 1 || strings.Contains(r.err, "goroutine ") {
					return pbt.Failf("crash", "exit %d\n%s", r.code, r.err)
				}
				return c.judge(r.code != 0, r.out+r.err, cdir)
			})
		}()
	}
	wg.Wait()
	return outs
}

// noticed tells whether the run has to notice the fault.
func (c *fCase) noticed(f *fault) bool {
	has := map[string]bool{}
	for _, g := range c.gens {
		has[g] = true
	}
	if f.whole {
		return true
	}
	if f.needs != "" && !has[f.needs] {
		return false
	}
	isRoot := false
	for _, r := range c.roots {
		isRoot = isRoot || r == f.pkg
	}
	if !isRoot || f.pkg == "lib" && f.by == "crd" { // only schemas look at packages that are referred to, from packages they can make something of
		for _, x := range c.faults {
			if x.pkg == "p0" {
				return false
			}
		}
		return f.needs == "crd"
	}
	return true
}

func (c *fCase) judge(failed bool, text, dir string) pbt.Outcome {
	due := map[*fault]bool{}
	undecided := false
	stopped := map[string]bool{}
	for _, f := range c.faults {
		if c.noticed(f) {
			due[f] = true
			if f.stop {
				stopped[f.needs] = true
			}
		} else {
			undecided = true
		}
	}
	if len(due) == 0 {
		if undecided {
			return pbt.OK(false, "unnoticed")
		}
		if failed || text != "" {
			return pbt.Failf("refused", "valid input: failed %v\n%s", failed, text)
		}
		return pbt.OK(true, "valid")
	}
	if !failed {
		var w []string
		for f := range due {
			w = append(w, fmt.Sprintf("%s (%s:%d)", f.what, f.file, f.line))
		}
		return pbt.Failf("unnoticed", "the run succeeds in spite of: %s\n%s", strings.Join(w, "; "), text)
	}
	for _, f := range c.faults {
		if !due[f] {
			continue
		}
		if f.stop {
			// the first one ends that generator's run
			ok := false
			for _, x := range c.faults {
				ok = ok || due[x] && x.stop && strings.Contains(text, x.text)
			}
			if !ok {
				return pbt.Failf("unreported", "no report of %s\n%s", f.what, text)
			}
			continue
		}
		others := 0 // generators that see it and aren't stopped
		for _, g := range c.gens {
			if !stopped[g] && (f.by == "" || f.by == g) {
				others++
			}
		}
		if others == 0 && !f.whole {
			continue
		}
		want := fmt.Sprintf("%s/%s:%d:", filepath.Base(dir), f.file, f.line)
		if f.nopos {
			want = f.text
		}
		if !strings.Contains(text, want) {
			return pbt.Failf("unreported", "no report of %s (looking for %s)\n%s", f.what, want, text)
		}
	}
	return pbt.OK(true, fmt.Sprintf("%d faults", len(due)))
}

// ---- outputs and inputs that fail

type failCase struct {
	src    ws.Files
	gens   genall.Generators
	names  []string
	stage  string // open, write, short, close, read, input
	nth    int
	header bool
}

type failOut struct {
	stage string
	left  int
	hit   bool
}

var errInjected = errors.New("injected failure")

func (o *failOut) fires(stage string) bool {
	if o.stage != stage || o.hit {
		return false
	}
	if o.left > 0 {
		o.left--
		return false
	}
	o.hit = true
	return true
}

func (o *failOut) Open(*loader.Package, string) (io.WriteCloser, error) {
	if o.fires("open") {
		return nil, errInjected
	}
	return &failFile{o}, nil
}

type failFile struct{ o *failOut }

func (f *failFile) Write(b []byte) (int, error) {
	if f.o.fires("write") {
		return 0, errInjected
	}
	return len(b), nil
}

func (f *failFile) Close() error {
	if f.o.fires("close") {
		return errInjected
	}
	return nil
}

type failIn struct {
	o    *failOut
	body string
}

type failReader struct {
	io.Reader
	o *failOut
}

func (r *failReader) Read(b []byte) (int, error) {
	if r.o.fires("read") {
		return 0, errInjected
	}
	return r.Reader.Read(b)
}
func (r *failReader) Close() error { return nil }

func (i *failIn) OpenForRead(path string) (io.ReadCloser, error) {
	if i.o.fires("input") {
		return nil, errInjected
	}
	body := i.body
	switch filepath.Ext(path) {
	case ".txt":
		body = "# Some header\n"
	case ".go":
		body = "// Some header\n"
	}
	return &failReader{strings.NewReader(body), i.o}, nil
}

func genFailing(s *pbt.Src) any {
	c := &failCase{src: ws.Files{}}
	for i, n := 0, 1+s.Small(2); i < n; i++ {
		c.src[fmt.Sprintf("p%d/x.go", i)] = fmt.Sprintf("// +kubebuilder:rbac:groups=g,resources=r,verbs=get\n// +kubebuilder:webhook:name=a%d.b,path=/x,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1\n// +kubebuilder:object:generate=true\n// +groupName=g%d.io\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\ntype Kind struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n", i, i)
	}
	h := ""
	c.header = s.Bool()
	if c.header {
		h = "header.txt"
	}
	for i, n := range pbt.Shuffle(s, []string{"crd", "rbac", "webhook", "object", "schemapatch"}) {
		if i > 0 && !s.Chance(40) {
			continue
		}
		var g genall.Generator
		switch n {
		case "crd":
			g = crd.Generator{HeaderFile: h}
		case "rbac":
			g = rbac.Generator{RoleName: "r", HeaderFile: h}
		case "webhook":
			g = webhook.Generator{HeaderFile: h}
		case "object":
			g = deepcopy.Generator{HeaderFile: strings.Replace(h, ".txt", ".go", 1)}
		case "schemapatch":
			g = patcherAt("@")
		}
		c.names = append(c.names, n)
		c.gens = append(c.gens, &g)
	}
	c.stage = pbt.Pick(s, "open", "write", "close", "read", "input")
	c.nth = s.Small(5)
	return c
}

func checkFailing(cases []any) []pbt.Outcome {
	dir := Scratch("fo")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*failCase).src)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	manifests := filepath.Join(dir, "manifests")
	crdText := "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec:\n  group: g0.io\n  names:\n    kind: Kind\n  versions:\n  - name: v1\n"
	if err := ws.WriteFiles(manifests, ws.Files{"a.yaml": crdText}); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*failCase)
		roots := l.Case(i)
		outs[i] = pbt.Guard(func() pbt.Outcome {
			o := &failOut{stage: c.stage, left: c.nth}
			var gens genall.Generators
			for k, n := range c.names {
				g := *c.gens[k]
				if n == "schemapatch" {
					g = patcherAt(manifests)
				}
				gens = append(gens, &g)
			}
			failed, text := runRuntime(gens, roots, o, &failIn{o: o, body: crdText})
			for _, r := range roots { // judged by what this run says
				var keep []packages.Error
				for _, e := range r.Errors {
					if !strings.Contains(e.Msg, errInjected.Error()) {
						keep = append(keep, e)
					}
				}
				r.Errors = keep
			}
			if !o.hit {
				if failed {
					return pbt.Failf("refused", "nothing failed, but the run did: %s", text)
				}
				return pbt.OK(false, "no fault")
			}
			if !failed || !strings.Contains(text, errInjected.Error()) {
				return pbt.Failf("lost "+c.stage, "%v: %s number %d fails, the run reports %v and %q", c.names, c.stage, c.nth, failed, text)
			}
			return pbt.OK(true, c.stage)
		})
	}
	return outs
}

func showFailing(a any) string {
	c := a.(*failCase)
	return c.src.Show() + fmt.Sprintf("\ngenerators %v, header %v: %s number %d fails", c.names, c.header, c.stage, c.nth)
}

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "valid input, or a fault that one of the generators in the run has to notice",
		Assumptions: []string{
			"at most one fault per package, or several that are noticed at the same stage; a webhook that cannot be used ends the webhook generator's run",
			"markers of generators that do not run are not looked at",
		},
		Families: []*pbt.Family{{
			Name: "faults", Gen: genFaults, Check: checkFaults, Show: showFaults,
			Batch: 40, Parallel: 3, Quick: 1000, Thorough: 20000, ShrinkBatch: 40,
		}, {
			Name: "many", Gen: genManyFaults, Check: checkFaults, Show: showFaults,
			Batch: 40, Parallel: 3, Quick: 400, Thorough: 20000, ShrinkBatch: 40,
		}, {
			Name: "versions", Gen: genVersionFaults, Check: checkFaults, Show: showFaults,
			Batch: 40, Parallel: 3, Quick: 400, Thorough: 20000, ShrinkBatch: 40,
		}, {
			Name: "tool", Gen: genFaults, Check: checkFaultsTool, Show: showFaults,
			Batch: 8, Parallel: 1, Quick: 48, Thorough: 2000, ShrinkBatch: 8,
		}, {
			Name: "failing-files", Gen: genFailing, Check: checkFailing, Show: showFailing,
			Batch: 60, Parallel: 3, Quick: 600, Thorough: 5000, ShrinkBatch: 40,
		}},
	})
}
