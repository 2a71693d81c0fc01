package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	yaml3 "gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	kyaml "sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"

	"verif/pbt"
	"verif/ws"
)

// ---- a small YAML tree that knows how it is written

type yv struct {
	kind  byte // s scalar, m map, l list
	raw   string
	block string // literal block text of a scalar
	keys  []string
	kids  []*yv
	flow  bool
	dent  bool // list items indented below their key
	head  []string
	line  string
	gap   bool // blank line before
}

func ys(raw string) *yv { return &yv{kind: 's', raw: raw} }
func ym(kv ...any) *yv {
	m := &yv{kind: 'm'}
	for i := 0; i < len(kv); i += 2 {
		m.add(kv[i].(string), kv[i+1].(*yv))
	}
	return m
}
func yl(xs ...*yv) *yv { return &yv{kind: 'l', kids: xs} }
func (m *yv) add(k string, v *yv) {
	m.keys = append(m.keys, k)
	m.kids = append(m.kids, v)
}
func (m *yv) shuffle(s *pbt.Src) *yv {
	p := s.Perm(len(m.keys))
	keys, kids := make([]string, len(p)), make([]*yv, len(p))
	for i, j := range p {
		keys[i], kids[i] = m.keys[j], m.kids[j]
	}
	m.keys, m.kids = keys, kids
	return m
}

func (v *yv) inline() string {
	switch v.kind {
	case 's':
		return v.raw
	case 'm':
		var p []string
		for i, k := range v.keys {
			p = append(p, k+": "+v.kids[i].inline())
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	var p []string
	for _, k := range v.kids {
		p = append(p, k.inline())
	}
	return "[" + strings.Join(p, ", ") + "]"
}

func (v *yv) write(b *strings.Builder, ind string, first bool) {
	for i, kid := range v.kids {
		pad := ind
		if i == 0 && first {
			pad = ""
		}
		if pad != "" || !first || i > 0 {
			if kid.gap {
				b.WriteString("\n")
			}
			for _, h := range kid.head {
				b.WriteString(ind + "# " + h + "\n")
			}
		}
		if v.kind == 'm' {
			b.WriteString(pad + v.keys[i] + ":")
		} else {
			b.WriteString(pad + "-")
		}
		line := ""
		if kid.line != "" {
			line = " # " + kid.line
		}
		switch {
		case kid.kind == 's' && kid.block != "":
			b.WriteString(" |" + line + "\n")
			for _, l := range strings.Split(kid.block, "\n") {
				b.WriteString(ind + "  " + l + "\n")
			}
		case kid.kind == 's' || kid.flow || len(kid.kids) == 0:
			b.WriteString(" " + kid.inline() + line + "\n")
		case v.kind == 'l':
			b.WriteString(" ")
			kid.write(b, ind+"  ", true)
		case kid.kind == 'l' && !kid.dent:
			b.WriteString("\n")
			kid.write(b, ind, false)
		default:
			b.WriteString("\n")
			kid.write(b, ind+"  ", false)
		}
	}
}

// comments in the order written; drop says which mapping values to leave out.
func (v *yv) comments(path []string, first bool, drop func(path []string) bool, out *[]string) {
	for i, kid := range v.kids {
		p := append([]string{}, path...)
		if v.kind == 'm' {
			p = append(p, strings.Trim(v.keys[i], `"'`))
		} else {
			p = append(p, fmt.Sprint(i))
		}
		if !(first && i == 0) && !drop(append(append([]string{}, p...), "#key")) {
			*out = append(*out, kid.head...)
		}
		if drop(p) {
			continue
		}
		if kid.line != "" && (kid.kind == 's' || kid.flow || len(kid.kids) == 0) {
			*out = append(*out, kid.line)
		}
		if kid.kind != 's' && !kid.flow {
			kid.comments(p, v.kind == 'l', drop, out)
		}
	}
}

type spGen struct {
	s *pbt.Src
	n int
}

func (g *spGen) scalar() *yv {
	s := g.s
	if s.Chance(6) {
		return &yv{kind: 's', block: pbt.Pick(s, "some text", "two\nlines", "# not a comment\nx: y")}
	}
	return ys(pbt.Pick(s, "abc", "x-y", `"quoted: x"`, "'single'", "12", "true", "false", `"yes"`, "'no'", "1.5", `"2001-01-01"`, `""`, "~", `"tab\tnewline\n"`, "plain words here", `"#hash"`, "'it''s'", "8080", "a:b", "https://x.y/z", `"\u00e9"`, "世界", "0x10", `"010"`, "a very long plain scalar that goes on and on and on well beyond the eightieth column of the line it is on"))
}

func (g *spGen) any(depth int) *yv {
	s := g.s
	switch k := s.PickW(6, 3, 3); {
	case k == 0 || depth == 0:
		return g.scalar()
	case k == 1:
		m := ym()
		for i, n := 0, s.Small(3); i < n; i++ {
			m.add(fmt.Sprintf("k%d", i), g.any(depth-1))
		}
		g.style(m)
		return m
	default:
		l := yl()
		for i, n := 0, s.Small(3); i < n; i++ {
			l.kids = append(l.kids, g.any(depth-1))
		}
		g.style(l)
		return l
	}
}

func (g *spGen) style(v *yv) {
	v.flow = g.s.Chance(20)
	v.dent = g.s.Bool()
	if v.flow {
		for _, k := range v.kids {
			g.flatten(k)
		}
	}
}
func (g *spGen) flatten(v *yv) {
	v.flow = true
	if v.kind == 's' {
		if v.block != "" || strings.Contains(v.raw, ":") && !strings.HasPrefix(v.raw, `"`) {
			v.block, v.raw = "", "abc"
		}
	}
	for _, k := range v.kids {
		g.flatten(k)
	}
}

// decorate adds comments and blank lines.
func (g *spGen) decorate(v *yv, pct int) {
	for _, k := range v.kids {
		for i := 0; i < 2 && g.s.Chance(pct); i++ {
			g.n++
			k.head = append(k.head, fmt.Sprintf("c%d note", g.n))
		}
		k.gap = g.s.Chance(pct)
		if (k.kind == 's') && k.block == "" && g.s.Chance(pct) {
			g.n++
			k.line = fmt.Sprintf("c%d note", g.n)
		}
		if k.kind != 's' && !k.flow {
			g.decorate(k, pct)
		}
	}
}

// ---- cases

type spDoc struct {
	text     string
	tree     *yv // nil if not judged for comments
	crd      bool
	gk       string
	versions []string
}

type spFile struct {
	name string
	docs []*spDoc
	crd  bool // holds a CRD
}

type spCase struct {
	src    ws.Files
	kinds  map[string]map[string]bool // group/kind -> versions among the roots
	files  []*spFile
	desc   *int
	embed  bool
	others map[string]string // files that are not touched
	n      int

	nonroot string // directory of a package that is only referred to
}

func (f *spFile) text() string {
	var p []string
	for _, d := range f.docs {
		p = append(p, d.text)
	}
	return strings.Join(p, "---\n")
}

func spQuote(s *pbt.Src) string {
	for i := 0; i < 5; i++ {
		w := yamlWords[s.Intn(len(yamlWords))]
		if utf8.ValidString(w) && !strings.Contains(w, "\x00") {
			return strconv.QuoteToASCII(w)
		}
	}
	return `"x"`
}

func spFields(s *pbt.Src) string {
	var b strings.Builder
	for i, n := 0, 1+s.Small(4); i < n; i++ {
		if s.Chance(40) {
			b.WriteString("\t// " + pbt.Pick(s, "A field.", "The \"name\": it's yes.", "yes", "# not a comment", "key: value", "First. Second sentence here. Third one.", "- a list") + "\n")
		}
		f := fmt.Sprintf("F%d", i)
		j := fmt.Sprintf("f%d", i)
		if s.Chance(8) {
			j = pbt.Pick(s, "yes", "on", "y", "null", "true", "n", "123")
		}
		typ := "string"
		switch s.PickW(5, 2, 2, 2, 2) {
		case 0:
			switch s.Intn(5) {
			case 0:
				fmt.Fprintf(&b, "\t// +kubebuilder:validation:Enum={%s,%s}\n", spQuote(s), spQuote(s))
			case 1:
				fmt.Fprintf(&b, "\t// +kubebuilder:default=%s\n", spQuote(s))
			case 2:
				fmt.Fprintf(&b, "\t// +kubebuilder:validation:Pattern=%s\n", spQuote(s))
			case 3:
				fmt.Fprintf(&b, "\t// +kubebuilder:validation:MaxLength=%d\n", s.Intn(100))
			}
		case 1:
			typ = pbt.Pick(s, "int32", "int64", "int")
			if s.Bool() {
				fmt.Fprintf(&b, "\t// +kubebuilder:validation:Maximum=%d\n\t// +kubebuilder:default=%d\n", s.Intn(1000000)*1000, s.Intn(100))
			}
		case 2:
			typ = pbt.Pick(s, "[]string", "[]int32", "map[string]string", "*bool")
		case 3:
			typ = "Shared"
		case 4:
			typ = pbt.Pick(s, "metav1.Time", "metav1.ObjectMeta", "metav1.LabelSelector")
		}
		fmt.Fprintf(&b, "\t%s %s `json:\"%s%s\"`\n", f, typ, j, pbt.Pick(s, "", ",omitempty"))
	}
	return b.String()
}

func spKind(k string) string {
	return fmt.Sprintf("type %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n\n", k)
}

func genSchemaPatch(s *pbt.Src) any {
	c := &spCase{src: ws.Files{}, kinds: map[string]map[string]bool{}, others: map[string]string{}}
	if s.Chance(30) {
		n := pbt.Pick(s, 0, 10, 40)
		c.desc = &n
	}
	c.embed = s.Chance(30)
	groups := []string{"a.example.com", "b.io"}[:1+s.Small(1)]
	kindNames := []string{"Foo", "Bar", "Baz"}[:1+s.Small(2)]
	versions := []string{"v1", "v1beta1", "v2"}
	for gi, grp := range groups {
		for _, ver := range versions[:1+s.Small(2)] {
			var b strings.Builder
			fmt.Fprintf(&b, "// +groupName=%s\npackage %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\ntype Shared struct {\n\tA string `json:\"a\"`\n\tWhen metav1.Time `json:\"when,omitempty\"`\n}\n\n", grp, ver)
			same := ""
			for _, k := range kindNames {
				if !s.Chance(80) {
					continue
				}
				gk := grp + "/" + k
				if c.kinds[gk] == nil {
					c.kinds[gk] = map[string]bool{}
				}
				storage := ""
				if len(c.kinds[gk]) == 0 {
					storage = "// +kubebuilder:storageversion\n"
				}
				c.kinds[gk][ver] = true
				spec := spFields(s)
				if same != "" && s.Chance(30) {
					spec = same
				}
				same = spec
				fmt.Fprintf(&b, "// %s is a kind.\n%stype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\ntype %sSpec struct {\n%s}\n\n", k, storage, k, k, k, spec)
			}
			c.src[fmt.Sprintf("g%d/%s/types.go", gi, ver)] = b.String()
			if s.Chance(15) { // the group version goes on in another package
				c.src[fmt.Sprintf("g%d/%sextra/types.go", gi, ver)] = fmt.Sprintf("// +groupName=%s\n// +versionName=%s\npackage %sextra\n\ntype Helper struct {\n\tX string `json:\"x\"`\n}\n", grp, ver, ver)
			}
		}
	}
	if len(c.kinds) > 0 && s.Chance(20) { // a version among the packages referred to, not among the roots
		var first string
		for _, v := range versions {
			if _, ok := c.src["g0/"+v+"/types.go"]; ok {
				first = v
				break
			}
		}
		if first != "" {
			ref := ws.Mod + "/@/g0/v3"
			c.src["g0/v3/types.go"] = "// +groupName=a.example.com\npackage v3\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\ntype Shared struct {\n\tB string `json:\"b\"`\n}\n\n" + spKind("Foo") + spKind("Bar")
			p := "g0/" + first + "/types.go"
			c.src[p] = strings.Replace(c.src[p], "import metav1", "import v3 \""+ref+"\"\nimport metav1", 1)
			c.src[p] = strings.Replace(c.src[p], "type Shared struct {\n", "type Shared struct {\n\tV3 v3.Shared `json:\"v3\"`\n", 1)
			c.nonroot = "g0/v3"
		}
	}
	if len(c.kinds) == 0 {
		// at least one kind, and metav1 in the roots
		c.src["g0/v1/more.go"] = "package v1\n\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n\n"
		c.src["g0/v1/more.go"] = strings.Replace(c.src["g0/v1/more.go"], "package v1\n", "package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n", 1)
		c.kinds["a.example.com/Foo"] = map[string]bool{"v1": true}
	}
	// manifests
	g := &spGen{s: s}
	var gks []string
	for gk := range c.kinds {
		gks = append(gks, gk)
	}
	sort.Strings(gks)
	gks = append(gks, "a.example.com/Other", "nowhere.io/Foo")
	n := 1 + s.Small(4)
	for i := 0; i < n; i++ {
		f := &spFile{name: fmt.Sprintf("f%d.yaml", i)}
		for d, nd := 0, 1+s.PickW(8, 1, 1); d < nd; d++ {
			if (d > 0 || nd > 1) && s.Chance(25) {
				t := ym("apiVersion", ys("v1"), "kind", ys("ConfigMap"), "data", ym("a", ys(`"yes"`), "b", ys("plain")))
				g.decorate(t, 15)
				var b strings.Builder
				t.write(&b, "", false)
				f.docs = append(f.docs, &spDoc{text: b.String(), tree: t})
				continue
			}
			f.docs = append(f.docs, g.crdDoc(c, gks[s.Intn(len(gks))]))
			f.crd = true
		}
		c.files = append(c.files, f)
	}
	for _, o := range []struct{ name, text string }{
		{"cr.yaml", "apiVersion: a.example.com/v1\nkind: Foo\nspec: {}\n"},
		{"crd.yml", "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec: {group: a.example.com, names: {kind: Foo}, versions: [{name: v1}]}\n"},
		{"notes.txt", "not yaml: [\n"},
		{"empty.yaml", ""},
		{"sub/x.yaml", "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec: {group: a.example.com, names: {kind: Foo}, versions: [{name: v1}]}\n"},
		{"list.yaml", "- a\n- b\n"},
	} {
		if s.Chance(15) {
			c.others[o.name] = o.text
		}
	}
	return c
}

func (g *spGen) crdDoc(c *spCase, gk string) *spDoc {
	s := g.s
	grp, kind, _ := strings.Cut(gk, "/")
	d := &spDoc{crd: true, gk: gk}
	vers := yl()
	names := pbt.Shuffle(s, []string{"v1", "v1beta1", "v2", "v3"})[:1+s.Small(3)]
	for _, v := range names {
		d.versions = append(d.versions, v)
		nm := v
		if s.Bool() {
			nm = strconv.Quote(v)
		}
		ver := ym("name", ys(nm), "served", ys("true"), "storage", ys("false"))
		switch s.PickW(5, 2, 1, 1) {
		case 0:
			ver.add("schema", ym("openAPIV3Schema", ym("type", ys("object"), "properties", ym("old", g.any(2)), "description", g.scalar())))
		case 2:
			ver.add("schema", &yv{kind: 'm'})
		case 3:
			ver.add("schema", ym("openAPIV3Schema", &yv{kind: 'm'}, "other", g.scalar()))
		}
		if s.Chance(30) {
			ver.add("additionalPrinterColumns", yl(ym("name", ys("Age"), "jsonPath", ys(".metadata.creationTimestamp"), "type", ys("date")), ym("name", ys(`"on"`), "type", ys("string"))))
		}
		if s.Chance(30) {
			ver.add("subresources", g.styled(ym("status", &yv{kind: 'm', flow: true})))
		}
		if s.Chance(20) {
			ver.add("extra", g.any(2))
		}
		if s.Chance(40) {
			ver.shuffle(s)
		}
		vers.kids = append(vers.kids, ver)
	}
	vers.dent = s.Bool()
	names2 := ym("kind", ys(kind), "plural", ys(strings.ToLower(kind)+"s"))
	if s.Bool() {
		names2.shuffle(s)
	}
	g.style(names2)
	spec := ym("group", ys(grp), "names", names2, "scope", ys("Namespaced"), "versions", vers)
	if s.Chance(20) {
		spec.add("validation", ym("openAPIV3Schema", ym("type", ys("object"))))
	}
	if s.Chance(20) {
		spec.add("conversion", ym("strategy", ys("None")))
	}
	if s.Chance(20) {
		spec.add("preserveUnknownFields", ys("false"))
	}
	if s.Chance(40) {
		spec.shuffle(s)
	}
	meta := ym("name", ys("xs."+grp))
	if s.Chance(50) {
		meta.add("annotations", ym("a.b/c", ys(`"true"`), "multi", g.scalar(), "x", g.scalar()))
	}
	if s.Chance(30) {
		meta.add("labels", g.styled(ym("l", ys("v"))))
	}
	if s.Chance(20) {
		meta.add("creationTimestamp", ys("null"))
	}
	t := ym("apiVersion", ys(pbt.Pick(s, "apiextensions.k8s.io/v1", `"apiextensions.k8s.io/v1"`)), "kind", ys("CustomResourceDefinition"), "metadata", meta, "spec", spec)
	if s.Chance(20) {
		t.add("status", g.any(2))
	}
	if s.Chance(30) {
		t.shuffle(s)
	}
	g.decorate(t, []int{0, 0, 8, 25}[s.Intn(4)])
	var b strings.Builder
	t.write(&b, "", false)
	d.text, d.tree = b.String(), t
	for _, v := range d.versions {
		if c.kinds[gk][v] {
			c.n++
		}
	}
	return d
}

func (g *spGen) styled(v *yv) *yv { g.style(v); return v }

func showSchemaPatch(a any) string {
	c := a.(*spCase)
	m := ws.Files{}
	for k, v := range c.src {
		m[k] = v
	}
	for _, f := range c.files {
		m["manifests/"+f.name] = f.text()
	}
	for k, v := range c.others {
		m["manifests/"+k] = v
	}
	d := "none"
	if c.desc != nil {
		d = fmt.Sprint(*c.desc)
	}
	return m.Show() + fmt.Sprintf("maxDescLen %s, embedded metadata %v", d, c.embed)
}

func checkOddManifests(cases []any) []pbt.Outcome { return runSchemaPatch(cases, true) }
func checkSchemaPatch(cases []any) []pbt.Outcome  { return runSchemaPatch(cases, false) }

func runSchemaPatch(cases []any, odd bool) []pbt.Outcome {
	dir := Scratch("sp")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		m := ws.Files{}
		for k, v := range a.(*spCase).src {
			m[k] = strings.ReplaceAll(v, ws.Mod+"/@/", fmt.Sprintf("%s/c%d/", ws.Mod, i))
		}
		files = append(files, m)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*spCase)
		md := filepath.Join(dir, fmt.Sprintf("m%d", i))
		var roots []*pkgT
		for _, p := range l.Case(i) {
			if c.nonroot == "" || !strings.HasSuffix(p.PkgPath, "/"+c.nonroot) {
				roots = append(roots, p)
			}
		}
		cg := crd.Generator{MaxDescLen: c.desc}
		sp := schemapatcher.Generator{MaxDescLen: c.desc}
		if c.embed {
			t := true
			cg.GenerateEmbeddedObjectMeta, sp.GenerateEmbeddedObjectMeta = &t, &t
		}
		if odd {
			outs[i] = pbt.Guard(func() pbt.Outcome { return c.judgeOdd(roots, md, sp) })
			continue
		}
		ref := ws.Run(cg, roots)
		if ref.Bad() {
			outs[i] = pbt.Failf("refused", "no manifests for valid types: %v", ref.Errs)
			continue
		}
		outs[i] = pbt.Guard(func() pbt.Outcome { return c.judge(roots, md, sp, ref) })
	}
	return outs
}

// schemata gives the schema of every group/kind/version, as JSON text.
func spSchemata(ref ws.Result) map[string]string {
	out := map[string]string{}
	for _, b := range ref.Files {
		var d apiext.CustomResourceDefinition
		if err := kyaml.Unmarshal(b, &d); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		for _, v := range d.Spec.Versions {
			if v.Schema != nil && v.Schema.OpenAPIV3Schema != nil {
				j, _ := json.Marshal(v.Schema.OpenAPIV3Schema)
				out[d.Spec.Group+"/"+d.Spec.Names.Kind+"/"+v.Name] = string(j)
			}
		}
	}
	return out
}

var spComment = regexp.MustCompile(`# (c\d+ note)`)

func (c *spCase) judge(roots []*pkgT, md string, sp schemapatcher.Generator, ref ws.Result) pbt.Outcome {
	want := spSchemata(ref)
	in := ws.Files{}
	for _, f := range c.files {
		in[f.name] = f.text()
	}
	for k, v := range c.others {
		in[k] = v
	}
	if err := ws.WriteFiles(md, in); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	sp.ManifestsPath = md
	res := ws.Run(sp, roots)
	if res.Bad() {
		return pbt.Failf("refused", "%v", res.Errs)
	}
	seen := map[string]bool{}
	for _, o := range res.Opens {
		if seen[o] {
			return pbt.Failf("files", "%s is written twice", o)
		}
		seen[o] = true
	}
	for _, f := range c.files {
		if f.crd != seen[f.name] {
			return pbt.Failf("files", "%s: holds a CRD %v, written %v", f.name, f.crd, seen[f.name])
		}
		delete(seen, f.name)
	}
	if len(seen) > 0 {
		return pbt.Failf("files", "also writes %v", seen)
	}
	// Which kinds are patched at all: those with at least one version to patch in any file.
	patched := map[string]bool{}
	for _, f := range c.files {
		for _, d := range f.docs {
			for _, v := range d.versions {
				if want[d.gk+"/"+v] != "" {
					patched[d.gk] = true
				}
			}
		}
	}
	for _, f := range c.files {
		if !f.crd {
			continue
		}
		if o := c.judgeFile(f, res.Files[f.name], want, patched); o.Fail != "" {
			return o
		}
	}
	// once more
	for name, b := range res.Files {
		if err := os.WriteFile(filepath.Join(md, name), b, 0o644); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
	}
	again := ws.Run(sp, roots)
	if again.Bad() {
		return pbt.Failf("again", "%v", again.Errs)
	}
	for name, b := range res.Files {
		if !bytes.Equal(b, again.Files[name]) {
			return pbt.Failf("again", "%s changes when patched again:\n%s\nthen\n%s", name, b, again.Files[name])
		}
	}
	return pbt.OK(c.n >= 1)
}

// ---- manifests that are not what they should be

func genOddManifests(s *pbt.Src) any {
	c := genSchemaPatch(s).(*spCase)
	g := &spGen{s: s}
	for _, f := range c.files {
		for _, d := range f.docs {
			for i, n := 0, s.Small(3); i < n; i++ {
				g.damage(d.tree)
			}
			if s.Chance(20) { // anchors and aliases
				d.tree.add("x-anchor", ys("&a {name: v1, schema: {}}"))
				d.tree.add("x-alias", ys("*a"))
				if spec := d.tree.get("spec"); spec != nil {
					if vs := spec.get("versions"); vs != nil && vs.kind == 'l' && !vs.flow {
						vs.kids = append(vs.kids, ys("*a"))
						d.tree.keys = append([]string{"x-anchor"}, d.tree.keys...)
						d.tree.kids = append([]*yv{ys("&a {name: v1, schema: {}}")}, d.tree.kids...)
						d.tree.keys[len(d.tree.keys)-2] = "x-other"
						d.tree.kids[len(d.tree.kids)-2] = ys("1")
					}
				}
			}
			var b strings.Builder
			d.tree.write(&b, "", false)
			d.text = b.String()
		}
	}
	return c
}

func (v *yv) get(k string) *yv {
	for i, x := range v.keys {
		if x == k {
			return v.kids[i]
		}
	}
	return nil
}

// damage replaces, removes or renames something on the way to the schemas.
func (g *spGen) damage(v *yv) {
	s := g.s
	for depth := 0; ; depth++ {
		if len(v.kids) == 0 {
			return
		}
		i := s.Intn(len(v.kids))
		for try := 0; try < 3 && depth < 5; try++ { // mostly along spec, versions, schema
			if v.kind == 'l' || v.keys[i] == "spec" || v.keys[i] == "versions" || v.keys[i] == "schema" || v.keys[i] == "name" || v.keys[i] == "names" {
				break
			}
			i = s.Intn(len(v.kids))
		}
		if depth < 5 && v.kids[i].kind != 's' && s.Chance(70) {
			v = v.kids[i]
			continue
		}
		switch s.Intn(5) {
		case 0:
			v.kids = append(v.kids[:i], v.kids[i+1:]...)
			if v.kind == 'm' {
				v.keys = append(v.keys[:i], v.keys[i+1:]...)
			}
		case 1:
			v.kids[i] = ys(pbt.Pick(s, "~", "", "1", "text", "[]", "{}", `""`, "true", "1.5", "2001-01-01", "[a]", "{name: v1}", "!!str 1", "!x {a: b}", "!!binary aGk="))
		case 2:
			v.kids[i] = yl(v.kids[i])
		case 3:
			v.kids[i] = ym("x", v.kids[i])
		case 4:
			if v.kind == 'm' {
				v.keys[i] = pbt.Pick(s, "x", "1", "~", `"y"`, "[a]", "spec", "schema", "true")
			} else {
				v.kids = append(v.kids, ys("~"))
			}
		}
		return
	}
}

// judgeOdd only asks that the run ends, and leaves readable documents where it ends well.
func (c *spCase) judgeOdd(roots []*pkgT, md string, sp schemapatcher.Generator) pbt.Outcome {
	in := ws.Files{}
	for _, f := range c.files {
		in[f.name] = f.text()
	}
	if err := ws.WriteFiles(md, in); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	sp.ManifestsPath = md
	res := ws.Run(sp, roots)
	if res.Bad() {
		return pbt.OK(true, "error")
	}
	for name, b := range res.Files {
		before, err := readYAML2([]byte(in[name]))
		if err != nil {
			continue
		}
		after, err := readYAML2(b)
		if err != nil {
			return pbt.Failf("unreadable", "%s: %v\n%s", name, err, b)
		}
		if len(after) != len(before) {
			return pbt.Failf("documents", "%s has %d documents, then %d\n%s", name, len(before), len(after), b)
		}
	}
	return pbt.OK(len(res.Files) > 0, "written")
}

func (c *spCase) judgeFile(f *spFile, got []byte, want map[string]string, patched map[string]bool) pbt.Outcome {
	before, err := readYAML2([]byte(f.text()))
	if err != nil || len(before) != len(f.docs) {
		panic(pbt.HarnessPanic(fmt.Sprintf("%v: %d documents\n%s", err, len(before), f.text())))
	}
	after, err := readYAML2(got)
	if err != nil {
		return pbt.Failf("unreadable", "%s: %v\n%s", f.name, err, got)
	}
	if len(after) != len(before) {
		return pbt.Failf("documents", "%s has %d documents, then %d", f.name, len(before), len(after))
	}
	var comments []string
	for i, d := range f.docs {
		x := viaJSON(plain(before[i])).(map[string]any)
		y, ok := viaJSON(plain(after[i])).(map[string]any)
		if !ok {
			return pbt.Failf("content", "%s: not a map", f.name)
		}
		dropped := func(p []string) bool { return false }
		if d.crd && patched[d.gk] {
			spec := x["spec"].(map[string]any)
			delete(spec, "validation")
			index := map[string]string{}
			for n, v := range spec["versions"].([]any) {
				vm := v.(map[string]any)
				name := vm["name"].(string)
				index[fmt.Sprint(n)] = name
				if w := want[d.gk+"/"+name]; w != "" {
					sc, _ := vm["schema"].(map[string]any)
					if sc == nil {
						sc = map[string]any{}
					}
					var ws any
					json.Unmarshal([]byte(w), &ws)
					sc["openAPIV3Schema"] = ws
					vm["schema"] = sc
				} else {
					delete(vm, "schema")
				}
			}
			dropped = func(p []string) bool {
				if len(p) < 2 || p[0] != "spec" {
					return false
				}
				if p[1] == "validation" {
					return true
				}
				if len(p) < 4 || p[1] != "versions" || p[3] != "schema" {
					return false
				}
				if want[d.gk+"/"+index[p[2]]] == "" {
					return true
				}
				return len(p) >= 5 && p[4] == "openAPIV3Schema" && !(len(p) == 6 && p[5] == "#key")
			}
		}
		a, b := canonText(x), canonText(y)
		if a != b {
			return pbt.Failf("content", "%s: want\n%s\ngot\n%s\n%s", f.name, a, b, diffAt(x, y, ""))
		}
		d.tree.comments(nil, false, dropped, &comments)
	}
	var gotC []string
	for _, m := range spComment.FindAllStringSubmatch(string(got), -1) {
		gotC = append(gotC, m[1])
	}
	if o := orderOf(f, got, patched, want); o != "" {
		return pbt.Failf("order", "%s: %s\n%s", f.name, o, got)
	}
	gs, wsort := append([]string{}, gotC...), append([]string{}, comments...)
	sort.Strings(gs)
	sort.Strings(wsort)
	if strings.Join(gs, ",") != strings.Join(wsort, ",") {
		return pbt.Failf("comments", "%s: comments %v, want %v\n%s", f.name, gotC, comments, got)
	}
	return pbt.Outcome{}
}

// plain turns what a YAML reader returns into JSON values.
func plain(v any) any {
	switch v := v.(type) {
	case map[any]any:
		out := map[string]any{}
		for k, x := range v {
			if ks, ok := k.(string); ok {
				out[ks] = plain(x)
			} else {
				out[fmt.Sprintf("%T(%v)", k, k)] = plain(x)
			}
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, x := range v {
			out[k] = plain(x)
		}
		return out
	case []any:
		out := []any{}
		for _, x := range v {
			out = append(out, plain(x))
		}
		return out
	case string, bool, nil, int, int64, uint64, float64:
		return v
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func diffAt(x, y any, at string) string {
	if canonText(x) == canonText(y) {
		return ""
	}
	xm, ok1 := x.(map[string]any)
	ym, ok2 := y.(map[string]any)
	if ok1 && ok2 {
		for k := range xm {
			if _, ok := ym[k]; !ok {
				return at + "." + k + " is missing"
			}
			if d := diffAt(xm[k], ym[k], at+"."+k); d != "" {
				return d
			}
		}
		for k := range ym {
			if _, ok := xm[k]; !ok {
				return at + "." + k + " is added"
			}
		}
	}
	xl, ok1 := x.([]any)
	yl, ok2 := y.([]any)
	if ok1 && ok2 && len(xl) == len(yl) {
		for i := range xl {
			if d := diffAt(xl[i], yl[i], fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
	}
	return fmt.Sprintf("%s: want %s, got %s", at, canonText(x), canonText(y))
}

// orderOf compares the order of keys outside the schemas.
func orderOf(f *spFile, got []byte, patched map[string]bool, want map[string]string) string {
	dec := yaml3.NewDecoder(bytes.NewReader(got))
	for _, d := range f.docs {
		var n yaml3.Node
		if err := dec.Decode(&n); err != nil {
			return err.Error()
		}
		var walk func(v *yv, n *yaml3.Node, at string) string
		walk = func(v *yv, n *yaml3.Node, at string) string {
			if v.kind == 's' || n.Kind == yaml3.ScalarNode {
				return ""
			}
			if v.kind == 'l' {
				for i, k := range v.kids {
					if i < len(n.Content) {
						if o := walk(k, n.Content[i], fmt.Sprintf("%s[%d]", at, i)); o != "" {
							return o
						}
					}
				}
				return ""
			}
			// keys that were there and still are keep their order; new ones come after
			have := map[string]*yv{}
			for i, k := range v.keys {
				have[strings.Trim(k, `"'`)] = v.kids[i]
			}
			var kept []string
			now := map[string]bool{}
			added := ""
			for i := 0; i+1 < len(n.Content); i += 2 {
				k := n.Content[i].Value
				now[k] = true
				if have[k] == nil {
					added = k
					continue
				}
				if added != "" {
					return fmt.Sprintf("%s: new key %s comes before %s", at, added, k)
				}
				kept = append(kept, k)
				if k == "openAPIV3Schema" && strings.HasPrefix(at, ".spec.versions[") {
					continue
				}
				if o := walk(have[k], n.Content[i+1], at+"."+k); o != "" {
					return o
				}
			}
			var w []string
			for _, k := range v.keys {
				if k := strings.Trim(k, `"'`); now[k] {
					w = append(w, k)
				}
			}
			if strings.Join(w, " ") != strings.Join(kept, " ") {
				return fmt.Sprintf("%s: keys were in order %v, then %v", at, w, kept)
			}
			return ""
		}
		if o := walk(d.tree, n.Content[0], ""); o != "" {
			return o
		}
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "at least one version is given a schema",
		Assumptions: []string{
			"manifests are v1 CRDs with a version list; anchors and aliases are outside",
			"comments stand before a key or item, or after a scalar",
		},
		Families: []*pbt.Family{{
			Name: "patch", Gen: genSchemaPatch, Check: checkSchemaPatch, Show: showSchemaPatch,
			Batch: 40, Parallel: 3, Quick: 800, Thorough: 20000, ShrinkBatch: 40,
		}, {
			Name: "odd-manifests", Gen: genOddManifests, Check: checkOddManifests, Show: showSchemaPatch,
			Batch: 40, Parallel: 3, Quick: 800, Thorough: 20000, ShrinkBatch: 40,
		}},
	})
}

func patcherAt(dir string) genall.Generator { return schemapatcher.Generator{ManifestsPath: dir} }
