package props

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/gobuffalo/flect"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/typescaffold"

	"verif/pbt"
	"verif/ws"
)

// ---- C21: scaffolded types

type scaf struct {
	kind, resource string
	namespaced     bool
	clients        bool
	help           string
	words          bool   // made of ordinary words, so it has to be accepted
	plural         string // known plural, for kinds of ordinary words
}

type scafCase struct {
	all     []*scaf
	version string
}

var (
	scafKind     = regexp.MustCompile(`^[A-Z][A-Za-z0-9]*$`)
	scafResource = regexp.MustCompile(`^[a-z]([-a-z0-9]*[a-z0-9])?$`)
	scafWords    = [][2]string{{"Widget", "widgets"}, {"Policy", "policies"}, {"Box", "boxes"}, {"Job", "jobs"}, {"Class", "classes"}, {"Key", "keys"}, {"Batch", "batches"}, {"Node", "nodes"}, {"Cluster", "clusters"}, {"Gateway", "gateways"}}
)

// usable tells whether a kind and its resource are valid in an API and in Go.
func (c *scaf) usable() bool {
	return scafKind.MatchString(c.kind) && len(c.kind+"List") <= 63 && scafResource.MatchString(c.wantPlural()) && len(c.wantPlural()) <= 63
}

func (c *scaf) wantPlural() string {
	switch {
	case c.resource != "":
		return c.resource
	case c.plural != "":
		return c.plural
	}
	return flect.Pluralize(strings.ToLower(c.kind))
}

func scafJunk(s *pbt.Src, alphabet string) string {
	rs := []rune(alphabet)
	var sb strings.Builder
	for n := s.Range(1, 8); n > 0; n-- {
		sb.WriteRune(rs[s.Intn(len(rs))])
	}
	return sb.String()
}

func genScaf(s *pbt.Src) *scaf {
	c := &scaf{namespaced: !s.Chance(45), clients: s.Chance(40)}
	switch s.PickW(10, 4, 3, 2) {
	case 0:
		c.words = true
		for n := s.Range(1, 3); n > 0; n-- {
			w := scafWords[s.Intn(len(scafWords))]
			c.kind += w[0]
			if n == 1 {
				c.plural = strings.ToLower(strings.TrimSuffix(c.kind, w[0])) + w[1]
			}
		}
	case 1:
		c.kind = pbt.Pick(s, "A", "Foo1", "HTTPRoute", "API", "APIServer", "ID", "URLMap", "IPPool", "X1Y2", "Foo2Bar", "List", "Spec", "String", "Type", "Object", "FooList", "TLSRoute", "CPUSet", "Status", "Func", "FooBARBaz",
			"Metav1", "ObjectMeta", "TypeMeta", "FooSpec", strings.Repeat("Widget", 9), strings.Repeat("Widget", 10), strings.Repeat("Widget", 11), strings.Repeat("Ab", 29)+"A", strings.Repeat("Ab", 30))
	case 2:
		c.kind = pbt.Pick(s, "", "1Foo", "1", "9", "Fooé", "foo", "Foo_bar", "Foo Bar", "Foo-Bar", "Ünit", "日本", "Foo日本", "Api", "Foo.Bar", "Foo\nBar", "Foo\u00a0Bar", "Fooß", "Foo/Bar", "Å", "Foo٣", "ﬁFoo", "12Foo")
	default:
		c.kind = scafJunk(s, "AaBbFfo01 _-.*/\"`\n{}é٣ñΩ")
		if s.Bool() {
			c.kind = flect.Pascalize(c.kind)
		}
	}
	switch s.PickW(8, 5, 3, 2) {
	case 1:
		c.resource = pbt.Pick(s, "foos", "x", "my-things", "a1", "true", "widgetz", "status", "type", "p0", strings.Repeat("a", 63))
	case 2:
		c.resource = pbt.Pick(s, "Foos", "foo_s", "foo bars", "foo.bars", "-a", "a-", "1a", "é", "a,scope=Cluster", "a\nb", "a\n// +groupName=x", "\"a\"", "a\"", "`a`", "a=b", "{a}", "a;b", " ", "a\n}", "foos/status", strings.Repeat("a", 64), "foosé", "a\t", "\na")
	case 3:
		c.resource = scafJunk(s, "abz09-.A_ \n,=\"é")
	}
	if s.Chance(40) {
		var lines []string
		for n := s.Range(1, 4); n > 0; n-- {
			lines = append(lines, pbt.Pick(s, "Important: run make", "", "more */ words", "{{.Resource.Kind}}", "  indented", "unicode ✓", "a \"quoted\" `word`", "// twice", "%s %d", "<b> & 'x'"))
		}
		c.help = strings.Join(lines, "\n")
	}
	return c
}

func genScaffold(s *pbt.Src) any {
	c := &scafCase{version: pbt.Pick(s, "v1", "v1alpha1", "v2beta3")}
	for n := 1 + s.Small(2); n > 0; n-- {
		c.all = append(c.all, genScaf(s))
	}
	return c
}

func (c *scaf) options() *typescaffold.ScaffoldOptions {
	return &typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Namespaced: c.namespaced, Kind: c.kind, Resource: c.resource}, AdditionalHelp: c.help, GenerateClients: c.clients}
}

// judge decides about accepting, and gives the text if it is.
func (c *scaf) judge() (string, pbt.Outcome) {
	o := c.options()
	err := o.Validate()
	if err == nil && !c.usable() {
		return "", pbt.Failf("accepted", "kind %q with resource %q is accepted", c.kind, c.resource)
	}
	if err != nil {
		if c.words && c.usable() {
			return "", pbt.Failf("rejected", "kind %q with resource %q is rejected: %v", c.kind, c.resource, err)
		}
		return "", pbt.OK(false, "rejected")
	}
	var b bytes.Buffer
	if err := o.Scaffold(&b); err != nil {
		return "", pbt.Failf("scaffold", "kind %q with resource %q: %v", c.kind, c.resource, err)
	}
	return b.String(), pbt.OK(true)
}

// comments are the comment lines that belong to a type: its documentation, and
// the group of comments before it.
func scafComments(f *ast.File, fset *token.FileSet, name string) (out []string) {
	var at, prev token.Pos
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
			if g.Specs[0].(*ast.TypeSpec).Name.Name == name {
				at = g.Pos()
				break
			}
		}
		prev = d.End()
	}
	for _, g := range f.Comments {
		if g.Pos() > prev && g.End() < at {
			for _, c := range g.List {
				out = append(out, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
			}
		}
	}
	return
}

// text judges the scaffold as Go.
func (c *scaf) text(src string) string {
	full := "package x\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n" + src
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", full, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "is not Go: " + err.Error()
	}
	if _, err := format.Source([]byte(full)); err != nil {
		return "cannot be formatted: " + err.Error()
	}
	var types []string
	bodies := map[string]string{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE && g.Tok != token.IMPORT {
			return "has something else than types"
		}
		if g.Tok == token.TYPE {
			n := g.Specs[0].(*ast.TypeSpec).Name.Name
			types = append(types, n)
			bodies[n] = full[g.Pos()-1 : g.End()-1]
		}
	}
	if got, want := fmt.Sprint(types), fmt.Sprintf("[%sSpec %sStatus %s %sList]", c.kind, c.kind, c.kind, c.kind); got != want {
		return "declares " + got + ", want " + want
	}
	if c.help != "" {
		for _, part := range []string{"Spec", "Status"} {
			var got []string
			for _, l := range strings.Split(bodies[c.kind+part], "\n") {
				if strings.HasPrefix(l, "\t//") && !strings.Contains(l, "INSERT ADDITIONAL") {
					got = append(got, strings.TrimPrefix(strings.TrimPrefix(l, "\t//"), " "))
				}
			}
			if x := strings.Join(got, "\n"); x != c.help {
				return fmt.Sprintf("%s%s has the help %q, want %q", c.kind, part, x, c.help)
			}
		}
	}
	for _, name := range []string{c.kind, c.kind + "List"} {
		root, client, global := 0, 0, 0
		for _, l := range scafComments(f, fset, name) {
			switch l {
			case "+k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object":
				root++
			case "+genclient":
				client++
			case "+genclient:nonNamespaced":
				global++
			}
		}
		if root != 1 {
			return fmt.Sprintf("%s asks %d times to be an object", name, root)
		}
		if want := c.clients && name == c.kind; (client > 0) != want {
			return fmt.Sprintf("%s: asks for a client: %v, want %v", name, client > 0, want)
		}
		if want := c.clients && !c.namespaced; (global > 0) != want {
			return fmt.Sprintf("%s: asks for a client without namespace: %v, want %v", name, global > 0, want)
		}
	}
	return ""
}

func checkScaffolds(cases []any) []pbt.Outcome {
	dir := Scratch("scaffold")
	defer Drop(dir)
	out := make([]pbt.Outcome, len(cases))
	accepted := make([][]*scaf, len(cases))
	var files []ws.Files
	for i, a := range cases {
		c := a.(*scafCase)
		var body strings.Builder
		fmt.Fprintf(&body, "// +groupName=g.ex.test\npackage %s\n\nimport (\n\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\t\"k8s.io/apimachinery/pkg/runtime\"\n)\n\nvar _ metav1.TypeMeta\n\nvar _ runtime.Object\n\n", c.version)
		taken := map[string]bool{}
		plurals := map[string]bool{}
		for _, x := range c.all {
			var src string
			out[i] = pbt.Guard(func() (o pbt.Outcome) { src, o = x.judge(); return })
			if out[i].Fail != "" {
				break
			}
			if src == "" {
				continue
			}
			if bad := x.text(src); bad != "" {
				out[i] = pbt.Failf("text", "%s:\n%s", bad, src)
				break
			}
			clash := plurals[x.wantPlural()]
			names := []string{x.kind, x.kind + "Spec", x.kind + "Status", x.kind + "List"}
			for _, n := range names {
				clash = clash || taken[n]
			}
			if clash {
				continue // not to be in one package with another
			}
			plurals[x.wantPlural()] = true
			for _, n := range names {
				taken[n] = true
			}
			accepted[i] = append(accepted[i], x)
			fmt.Fprintf(&body, "%s\nvar _ runtime.Object = &%s{}\nvar _ runtime.Object = &%sList{}\n\n", src, x.kind, x.kind)
		}
		if out[i].Fail != "" || len(accepted[i]) == 0 {
			accepted[i] = nil
			body.Reset()
			fmt.Fprintf(&body, "package %s\n", c.version)
		}
		files = append(files, ws.Files{c.version + "/types.go": body.String()})
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	for i, a := range cases {
		c := a.(*scafCase)
		if accepted[i] == nil {
			continue
		}
		out[i] = pbt.Guard(func() pbt.Outcome {
			roots := l.Case(i)
			dc := ws.Run(deepcopy.Generator{}, roots)
			if dc.Bad() {
				return pbt.Failf("object", "%v\n%s", dc.Errs, files[i].Show())
			}
			for _, b := range dc.Files {
				if err := ws.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i), c.version), ws.Files{"zz_generated.deepcopy.go": string(b)}); err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
			}
			r := ws.Run(crd.Generator{}, roots)
			if r.Bad() {
				return pbt.Failf("crd", "%v\n%s", r.Errs, files[i].Show())
			}
			if len(r.Files) != len(accepted[i]) {
				return pbt.Failf("crd", "%d CRDs for %d kinds: %v\n%s", len(r.Files), len(accepted[i]), sortedKeys(r.Files), files[i].Show())
			}
			for _, x := range accepted[i] {
				if o := x.crd(r.Files, c.version); o != "" {
					return pbt.Failf("crd", "%s: %s\n%s", x.kind, o, files[i].Show())
				}
			}
			return pbt.OK(true)
		})
	}
	// all of it compiles, with the generated methods
	build := exec.Command("go", "build", "-gcflags=-e", "./...")
	build.Dir, build.Env = dir, append(os.Environ(), "GOFLAGS=-mod=mod")
	if text, err := build.CombinedOutput(); err != nil {
		found := false
		for _, m := range regexp.MustCompile(`(?m)^(?:\./)?c(\d+)/.*$`).FindAllStringSubmatch(string(text), -1) {
			var i int
			fmt.Sscan(m[1], &i)
			found = true
			if out[i].Fail == "" {
				out[i] = pbt.Failf("compile", "%s\n%s", m[0], files[i].Show())
			}
		}
		if !found {
			panic(pbt.HarnessPanic("go build: " + string(text)))
		}
	}
	for i := range out {
		if out[i].Fail == "" {
			n := 0
			for _, x := range accepted[i] {
				if x.resource != "" || !x.namespaced || x.help != "" {
					n++
				}
			}
			out[i].NonTrivial = n > 0 || accepted[i] == nil
			out[i].Labels = append(out[i].Labels, fmt.Sprintf("accepted=%d", len(accepted[i])))
		}
	}
	return out
}

func (c *scaf) crd(files map[string][]byte, version string) string {
	name := "g.ex.test_" + c.wantPlural() + ".yaml"
	var b []byte
	for k, v := range files {
		if strings.HasSuffix(k, name) {
			b = v
		}
	}
	if b == nil {
		return fmt.Sprintf("no %s in %v", name, sortedKeys(files))
	}
	var d struct {
		Metadata struct{ Name string }
		Spec     struct {
			Group, Scope string
			Names        struct{ Kind, ListKind, Plural, Singular string }
			Versions     []struct {
				Name            string
				Served, Storage bool
				Schema          struct {
					OpenAPIV3Schema struct {
						Description, Type string
						Properties        map[string]struct{ Type, Description string }
					}
				}
			}
		}
	}
	if err := yaml.Unmarshal(b, &d); err != nil {
		return err.Error()
	}
	scope := "Cluster"
	if c.namespaced {
		scope = "Namespaced"
	}
	got := fmt.Sprint(d.Metadata.Name, d.Spec.Group, d.Spec.Scope, d.Spec.Names)
	want := fmt.Sprint(c.wantPlural()+".g.ex.test", "g.ex.test", scope, struct{ Kind, ListKind, Plural, Singular string }{c.kind, c.kind + "List", c.wantPlural(), strings.ToLower(c.kind)})
	if got != want {
		return fmt.Sprintf("is %s, want %s", got, want)
	}
	if len(d.Spec.Versions) != 1 || d.Spec.Versions[0].Name != version || !d.Spec.Versions[0].Served || !d.Spec.Versions[0].Storage {
		return fmt.Sprintf("has versions %v", d.Spec.Versions)
	}
	sch := d.Spec.Versions[0].Schema.OpenAPIV3Schema
	if sch.Type != "object" || !strings.HasPrefix(sch.Description, c.kind+" is the Schema for the "+c.wantPlural()+" API") {
		return fmt.Sprintf("has a schema of type %s described as %q", sch.Type, sch.Description)
	}
	types := map[string]string{}
	for k, p := range sch.Properties {
		types[k] = p.Type
	}
	if got, want := fmt.Sprint(types), fmt.Sprint(map[string]string{"apiVersion": "string", "kind": "string", "metadata": "object", "spec": "object", "status": "object"}); got != want {
		return fmt.Sprintf("has properties %s, want %s", got, want)
	}
	if x := sch.Properties["spec"].Description; x != c.kind+"Spec defines the desired state of "+c.kind {
		return fmt.Sprintf("has a spec described as %q", x)
	}
	if x := sch.Properties["status"].Description; !strings.HasPrefix(x, c.kind+"Status defines the observed state of "+c.kind+".") {
		return fmt.Sprintf("has a status described as %q", x)
	}
	return ""
}

func (c *scafCase) show() string {
	var sb strings.Builder
	for _, x := range c.all {
		fmt.Fprintf(&sb, "kind %q resource %q namespaced %v clients %v help %q\n", x.kind, x.resource, x.namespaced, x.clients, x.help)
	}
	return sb.String() + "version " + c.version + "\n"
}

// -- the command

var (
	scafOnce sync.Once
	scafBin  string
	scafErr  error
)

type scafCLI struct {
	scaf
	noKind bool
	flag   string // a value for --namespaced, "" for none
	bad    string // something the command has no use for
	order  []int
}

func genScafCLI(s *pbt.Src) any {
	c := &scafCLI{scaf: *genScaf(s)}
	c.help, c.clients, c.namespaced = "", false, true
	c.noKind = s.Chance(8)
	switch s.PickW(5, 3, 2, 1) {
	case 1:
		c.flag, c.namespaced = pbt.Pick(s, "=false", "=F", "=0"), false
	case 2:
		c.flag = pbt.Pick(s, "=true", " ", "=1")
	case 3:
		c.flag, c.bad = "=maybe", "flag"
	}
	if s.Chance(8) {
		c.bad = pbt.Pick(s, "--nope", "--kind", "--resource")
	}
	c.order = s.Perm(3)
	return c
}

func (c *scafCLI) args() []string {
	var parts [][]string
	if !c.noKind {
		parts = append(parts, []string{"--kind=" + c.kind})
	}
	if c.resource != "" {
		parts = append(parts, []string{"--resource", c.resource})
	}
	if c.flag != "" {
		parts = append(parts, []string{"--namespaced" + strings.TrimSpace(c.flag)})
	}
	var out []string
	for _, k := range c.order {
		if k < len(parts) {
			out = append(out, parts[k]...)
		}
	}
	if strings.HasPrefix(c.bad, "--") {
		out = append(out, c.bad)
	}
	return out
}

func checkScafCLI(c *scafCLI) pbt.Outcome {
	scafOnce.Do(func() {
		scafBin = filepath.Join(Scratch("scafcli"), "type-scaffold")
		cmd := exec.Command("go", "build", "-o", scafBin, "./cmd/type-scaffold")
		cmd.Dir = ws.RepoDir()
		if out, err := cmd.CombinedOutput(); err != nil {
			scafErr = fmt.Errorf("building type-scaffold: %v\n%s", err, out)
		}
	})
	if scafErr != nil {
		panic(pbt.HarnessPanic(scafErr.Error()))
	}
	if strings.Contains(c.kind+c.resource, "\x00") {
		return pbt.Outcome{Excluded: "not an argument"}
	}
	cmd := exec.Command(scafBin, c.args()...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) {
		panic(pbt.HarnessPanic(err.Error()))
	}
	src, verdict := c.judge()
	if verdict.Fail != "" {
		return verdict
	}
	if src == "" || c.noKind || c.bad != "" {
		if err == nil || o.Len() > 0 && !strings.HasPrefix(o.String(), "Usage:") || e.Len() == 0 {
			return pbt.Failf("cli", "%q has to fail: exit %v, output %q, errors %q", c.args(), err, o.String(), e.String())
		}
		return pbt.OK(false, "refused")
	}
	if err != nil || o.String() != src {
		return pbt.Failf("cli", "%q: %v %s\n%s\nwant\n%s", c.args(), err, e.String(), o.String(), src)
	}
	return pbt.OK(true)
}

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "scaffolds: something accepted has a resource, no namespace or help, or everything is rejected; command: the scaffold is printed",
		Families: []*pbt.Family{
			{Name: "scaffolds", Gen: genScaffold, Check: checkScaffolds, Show: func(c any) string { return c.(*scafCase).show() }, Batch: 50, Parallel: 2, Quick: 600, Thorough: 12000},
			{Name: "command", Gen: genScafCLI, Check: pbt.Each(checkScafCLI), Show: func(c any) string { return fmt.Sprintf("%q", c.(*scafCLI).args()) }, Batch: 50, Parallel: 4, Quick: 400, Thorough: 20000},
		},
	})
}
