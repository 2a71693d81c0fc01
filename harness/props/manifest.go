package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/gobuffalo/flect"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/version"

	"verif/jsv"
	"verif/pbt"
	"verif/ws"
)

// C08: the CRD manifest around the schema.

type crdCase struct {
	files    ws.Files
	roots    []string                                    // directories, in root order
	want     map[string]*apiext.CustomResourceDefinition // by file name; schemas hold only the expected property
	preserve *bool
	embedded *bool
	versions []string
	bad      string
	multi    bool // some kind with several versions
}

type crdPkg struct {
	dir, group, version string
	role                string // "", skip, nogroup, nonroot
	idx                 int
	src                 strings.Builder
	head                string
}

// str is a quoted marker string.
func crdStr(s *pbt.Src) (string, string) {
	v := pbt.Pick(s, "plain", "two words", "a: b", "x, y; z", "ünï", "{curly}", "#hash", "it's", "true", "12", "-", "@at", "%p", "a=b", "- item", "null", "~", "", "1e3", "0x1F", "yes")
	return pbt.Pick(s, `"`, "`") + "", v
}

func crdQ(s *pbt.Src) (written, value string) {
	q, v := crdStr(s)
	return q + v + q, v
}

var crdKindNames = []string{"Foo", "Policy", "Mouse", "HTTPRoute", "Bus", "FooBar", "Data", "Gateway", "Index", "X"}

func genManifests(s *pbt.Src) any {
	c := &crdCase{files: ws.Files{}, want: map[string]*apiext.CustomResourceDefinition{}}
	c.preserve = pbt.Pick(s, nil, nil, nil, ptrTo(true), ptrTo(false))
	c.embedded = pbt.Pick(s, nil, ptrTo(true), ptrTo(false))
	c.versions = pbt.Pick(s, nil, nil, []string{"v1"})
	groups := []string{"g.ex.test", "apps.ex.test"}[:1+s.PickW(3, 1)]
	var pkgs []*crdPkg
	for gi, g := range groups {
		vs := someOf(s, []string{"v1", "v2", "v1beta1", "v10", "v2alpha1"}, 4)
		for _, v := range vs {
			p := &crdPkg{dir: fmt.Sprintf("g%d/%s", gi, v), group: g, version: v, idx: len(pkgs)}
			p.head = "// +groupName=" + g + "\n"
			if s.Chance(15) {
				p.version = fmt.Sprintf("v%d", 30+p.idx)
				p.head = pbt.Pick(s, p.head+"// +versionName="+p.version+"\n", "// +versionName="+p.version+"\n"+p.head)
			}
			switch s.PickW(14, 1, 1, 2) {
			case 1:
				p.role = "skip"
				p.head += "// +kubebuilder:skip\n"
			case 2:
				p.role = "nogroup"
				p.head = ""
			case 3:
				if len(pkgs) > 0 {
					p.role = "nonroot"
				}
			}
			if p.role != "" {
				s.Label("package " + p.role)
			}
			if p.role == "" || p.role == "skip" || p.role == "nogroup" || s.Bool() {
				if p.role != "nonroot" {
					c.roots = append(c.roots, p.dir)
				}
			}
			pkgs = append(pkgs, p)
		}
	}
	pbt.Shuffle(s, c.roots)
	for _, g := range groups {
		names := someOf(s, crdKindNames, 4)
		for _, k := range names {
			genKind(s, c, g, k, pkgs)
		}
	}
	for _, p := range pkgs {
		if s.Chance(30) {
			fmt.Fprintf(&p.src, "\ntype %sList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n}\n", "Foo")
		}
		if s.Chance(20) {
			fmt.Fprintf(&p.src, "\n// +kubebuilder:resource:path=nothings\n// +kubebuilder:storageversion\ntype NotOne struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tMeta metav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n")
		}
		if s.Chance(20) {
			fmt.Fprintf(&p.src, "\n// +kubebuilder:subresource:status\ntype NotOneEither struct {\n\tTypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\ntype TypeMeta struct{}\n")
		}
		imports := "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"
		// refer to the next package, which might not be a root
		uses := ""
		if p.idx+1 < len(pkgs) && pkgs[p.idx+1].role != "skip" {
			n := pkgs[p.idx+1]
			imports += fmt.Sprintf("import other \"CASE/%s\"\n", n.dir)
			uses = "\ntype Uses = other.Shared\n"
		} else {
			uses = "\ntype Uses struct { U string `json:\"u\"` }\n"
		}
		sharedT := "\ntype Shared struct { S string `json:\"s\"` }\n\ntype Tmpl struct {\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tX string `json:\"x\"`\n}\n\ntype ATypeMeta = metav1.TypeMeta\n\ntype AObjectMeta = metav1.ObjectMeta\n"
		c.files[p.dir+"/types.go"] = p.head + "package " + strings.ReplaceAll(p.dir[3:], "/", "") + "\n\n" + imports + p.src.String() + uses + sharedT
	}
	return c
}

// genKind adds one kind to the packages of a group.
func genKind(s *pbt.Src, c *crdCase, group, kind string, pkgs []*crdPkg) {
	var in []*crdPkg
	for _, p := range pkgs {
		if p.group == group && s.Chance(70) {
			in = append(in, p)
		}
	}
	type verT struct {
		p       *crdPkg
		v       apiext.CustomResourceDefinitionVersion
		skip    bool
		lines   []string
		columns []string
		fields  []string
	}
	var all, counted []*verT // counted: in the manifest unless skipped
	for _, p := range in {
		v := &verT{p: p, v: apiext.CustomResourceDefinitionVersion{Name: p.version, Served: true}}
		all = append(all, v)
		if p.role == "" {
			counted = append(counted, v)
		}
	}
	d := &apiext.CustomResourceDefinition{
		TypeMeta:   metav1.TypeMeta{APIVersion: "apiextensions.k8s.io/v1", Kind: "CustomResourceDefinition"},
		ObjectMeta: metav1.ObjectMeta{Annotations: map[string]string{"controller-gen.kubebuilder.io/version": version.Version()}},
		Spec: apiext.CustomResourceDefinitionSpec{
			Group: group,
			Names: apiext.CustomResourceDefinitionNames{Kind: kind, ListKind: kind + "List", Plural: strings.ToLower(flect.Pluralize(kind)), Singular: strings.ToLower(kind)},
			Scope: "Namespaced",
		},
	}
	// the names are a matter of all versions
	if len(counted) > 0 && s.Chance(50) {
		n := &d.Spec.Names
		var args []string
		if s.Chance(40) {
			n.Plural = strings.ToLower(kind) + pbt.Pick(s, "z", "en", "ix")
			args = append(args, "path="+n.Plural)
		}
		if s.Chance(30) {
			n.Singular = "one" + strings.ToLower(kind)
			args = append(args, "singular="+n.Singular)
		}
		list := func(name string) []string {
			l := someOf(s, []string{"z1", "b2", "all", "m"}, 3)
			pbt.Shuffle(s, l)
			if s.Bool() {
				args = append(args, name+"="+strings.Join(l, ";"))
			} else {
				args = append(args, name+"={"+strings.Join(l, ",")+"}")
			}
			return l
		}
		if s.Chance(40) {
			n.ShortNames = list("shortName")
		}
		if s.Chance(40) {
			n.Categories = list("categories")
		}
		if s.Chance(50) {
			d.Spec.Scope = apiext.ResourceScope(pbt.Pick(s, "Cluster", "Namespaced"))
			args = append(args, "scope="+string(d.Spec.Scope))
		}
		pbt.Shuffle(s, args)
		line := "+kubebuilder:resource"
		if len(args) > 0 {
			line += ":" + strings.Join(args, ",")
		}
		first := s.Intn(len(counted))
		for i, v := range counted {
			if i == first || s.Chance(30) {
				v.lines = append(v.lines, line)
			}
		}
	}
	d.Name = d.Spec.Names.Plural + "." + group
	live := 0
	for i, v := range all {
		mine := contains(counted, v)
		if s.Chance(12) {
			v.skip = true
			v.lines = append(v.lines, "+kubebuilder:skipversion")
			s.Label("skipped version")
		} else if mine {
			live++
		}
		if s.Chance(30) {
			v.lines = append(v.lines, "+kubebuilder:subresource:status")
			sub(&v.v).Status = &apiext.CustomResourceSubresourceStatus{}
		}
		if s.Chance(20) {
			sc := &apiext.CustomResourceSubresourceScale{SpecReplicasPath: ".spec.r", StatusReplicasPath: ".status.r"}
			args := []string{"specpath=.spec.r", "statuspath=.status.r"}
			if s.Bool() {
				sc.LabelSelectorPath = ptrTo(".status.sel")
				args = append(args, "selectorpath=.status.sel")
			}
			pbt.Shuffle(s, args)
			v.lines = append(v.lines, "+kubebuilder:subresource:scale:"+strings.Join(args, ","))
			sub(&v.v).Scale = sc
		}
		if s.Chance(20) {
			v.lines = append(v.lines, "+kubebuilder:deprecatedversion")
			v.v.Deprecated = true
			if s.Bool() {
				w, val := crdQ(s)
				v.lines[len(v.lines)-1] += ":warning=" + w
				v.v.DeprecationWarning = &val
			}
		}
		if s.Chance(15) {
			v.lines = append(v.lines, "+kubebuilder:unservedversion")
			v.v.Served = false
		}
		for k := s.Small(4); k > 0; k-- {
			col := apiext.CustomResourceColumnDefinition{Type: pbt.Pick(s, "string", "integer", "date", "boolean"), JSONPath: pbt.Pick(s, ".spec.a", ".metadata.creationTimestamp", `.status.conditions[?(@.type==\"Ready\")].status`, ".spec['x']")}
			var args []string
			w, val := crdQ(s)
			if val == "" {
				w, val = "C", "C"
			}
			col.Name = val
			path := `"` + col.JSONPath + `"`
			col.JSONPath = strings.ReplaceAll(col.JSONPath, `\"`, `"`)
			if !strings.Contains(path, "[") && s.Bool() {
				path = col.JSONPath
			}
			args = append(args, "name="+w, "type="+col.Type, "JSONPath="+path)
			if s.Chance(30) {
				w, col.Description = crdQ(s)
				args = append(args, "description="+w)
			}
			if s.Chance(30) {
				col.Format = pbt.Pick(s, "int32", "date-time")
				args = append(args, "format="+col.Format)
			}
			if s.Chance(30) {
				col.Priority = int32(s.Range(0, 10))
				args = append(args, fmt.Sprintf("priority=%d", col.Priority))
			}
			pbt.Shuffle(s, args)
			v.columns = append(v.columns, "+kubebuilder:printcolumn:"+strings.Join(args, ","))
			v.v.AdditionalPrinterColumns = append(v.v.AdditionalPrinterColumns, col)
		}
		for k := s.PickW(6, 1, 1); k > 0; k-- {
			p := pbt.Pick(s, ".spec.one", ".spec.two", ".status.x")
			v.fields = append(v.fields, "+kubebuilder:selectablefield:JSONPath="+pbt.Pick(s, p, `"`+p+`"`, "`"+p+"`"))
			v.v.SelectableFields = append(v.v.SelectableFields, apiext.SelectableField{JSONPath: p})
		}
		if s.Chance(25) {
			for k := s.Small(2); k >= 0; k-- {
				var args []string
				kv := func(name string, into *map[string]string) {
					var l []string
					for j := s.Small(2); j >= 0; j-- {
						key := fmt.Sprintf("%s.ex.test/k%d-%d-%d", name[:1], i, k, j)
						val := pbt.Pick(s, "v", "a=b", "", "with space", "1", "true", "q:r")
						l = append(l, `"`+key+"="+val+`"`)
						if mine {
							if *into == nil {
								*into = map[string]string{}
							}
							(*into)[key] = val
						}
					}
					if s.Bool() {
						args = append(args, name+"="+strings.Join(l, ";"))
					} else {
						args = append(args, name+"={"+strings.Join(l, ",")+"}")
					}
				}
				if s.Bool() {
					kv("labels", &d.Labels)
				}
				if s.Bool() || len(args) == 0 {
					kv("annotations", &d.Annotations)
				}
				v.lines = append(v.lines, "+kubebuilder:metadata:"+strings.Join(args, ","))
			}
		}
	}
	// one storage version, some version served
	var kept []*verT
	for _, v := range counted {
		if !v.skip {
			kept = append(kept, v)
		}
	}
	if len(kept) > 0 {
		st := kept[s.Intn(len(kept))]
		if len(kept) > 1 || s.Bool() {
			st.lines = append(st.lines, "+kubebuilder:storageversion")
		}
		st.v.Storage = true
		served := false
		for _, v := range kept {
			served = served || v.v.Served
		}
		if !served {
			st.v.Served = true
			st.lines = without(st.lines, "+kubebuilder:unservedversion")
		}
		if len(kept) > 1 {
			c.multi = true
		}
	}
	for _, v := range all {
		lines := v.lines
		// the written order matters within one kind of marker only
		order := [][]string{v.columns, v.fields}
		for _, l := range lines {
			order = append(order, []string{l})
		}
		var out []string
		for {
			var nonEmpty []int
			for i := range order {
				if len(order[i]) > 0 {
					nonEmpty = append(nonEmpty, i)
				}
			}
			if len(nonEmpty) == 0 {
				break
			}
			i := nonEmpty[s.Intn(len(nonEmpty))]
			out = append(out, order[i][0])
			order[i] = order[i][1:]
		}
		cut := len(out)
		if s.Chance(30) {
			cut = s.Intn(len(out) + 1)
		}
		b := &v.p.src
		b.WriteString("\n")
		for i, l := range out {
			if i == cut && i > 0 {
				b.WriteString("\n")
			}
			b.WriteString("// " + l + "\n")
		}
		typeMeta, objectMeta := "metav1.TypeMeta", "metav1.ObjectMeta"
		if s.Chance(12) {
			typeMeta = v.p.alias(s, "ATypeMeta", pkgs)
		}
		if s.Chance(12) {
			objectMeta = v.p.alias(s, "AObjectMeta", pkgs)
		}
		fields := []string{"\t" + typeMeta + " `json:\",inline\"`\n", "\t" + objectMeta + " `json:\"metadata,omitempty\"`\n",
			fmt.Sprintf("\tOnly%d string `json:\"only%d\"`\n", v.p.idx, v.p.idx)}
		only := fmt.Sprintf("only%d", v.p.idx)
		props := map[string]schemaT{"apiVersion": {}, "kind": {}, "metadata": {}, only: {}}
		if s.Chance(40) {
			fields = append(fields, "\tT Tmpl `json:\"tmpl,omitempty\"`\n")
			props["tmpl"] = schemaT{}
		}
		if s.Chance(40) {
			fields = append(fields, "\tU Uses `json:\"uses,omitempty\"`\n")
			props["uses"] = schemaT{}
		}
		// properties called like the keywords of schemas and manifests
		for i, n := range []string{"description", "type", "items", "properties", "spec", "status", "name", "required"} {
			if s.Chance(8) {
				fields = append(fields, fmt.Sprintf("\t// Words %d.\n\tK%d string `json:\"%s,omitempty\"`\n", i, i, n))
				props[n] = schemaT{Type: "string", Description: fmt.Sprintf("Words %d.", i)}
			}
		}
		pbt.Shuffle(s, fields)
		fmt.Fprintf(b, "type %s struct {\n%s}\n", kind, strings.Join(fields, ""))
		v.v.Schema = &apiext.CustomResourceValidation{OpenAPIV3Schema: &schemaT{Required: []string{only}, Properties: props}}
	}
	if len(kept) == 0 {
		return
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].p.version < kept[j].p.version })
	for _, v := range kept {
		d.Spec.Versions = append(d.Spec.Versions, v.v)
	}
	c.want[group+"_"+d.Spec.Names.Plural+".yaml"] = d
}

// alias names metadata through an alias of this package or of the one it refers to.
func (p *crdPkg) alias(s *pbt.Src, name string, pkgs []*crdPkg) string {
	s.Label("metadata by alias")
	if p.idx+1 < len(pkgs) && pkgs[p.idx+1].role != "skip" && s.Bool() {
		return "other." + name
	}
	return name
}

func contains[T comparable](l []T, x T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	var out []string
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func sub(v *apiext.CustomResourceDefinitionVersion) *apiext.CustomResourceSubresources {
	if v.Subresources == nil {
		v.Subresources = &apiext.CustomResourceSubresources{}
	}
	return v.Subresources
}

func genBadManifests(s *pbt.Src) any {
	c := genManifests(s).(*crdCase)
	mark := func(line string) {
		for n, src := range c.files {
			for _, k := range crdKindNames {
				src = strings.Replace(src, "\ntype "+k+" struct", "\n// "+line+"\ntype "+k+" struct", 1)
			}
			c.files[n] = src
		}
	}
	how := s.PickW(4, 2, 2, 2, 1, 1)
	if len(c.want) == 0 || how == 0 && !c.multi {
		return c
	}
	switch how {
	case 0:
		c.bad = "no storage version"
		for n, src := range c.files {
			c.files[n] = strings.ReplaceAll(src, "// +kubebuilder:storageversion\n", "")
		}
	case 1:
		c.bad = "nothing served"
		mark("+kubebuilder:unservedversion")
	case 2:
		c.bad = "malformed label"
		mark("+kubebuilder:metadata:labels=" + pbt.Pick(s, "word", `"two words"`, `"a=b";c`, `""`))
	case 3:
		c.bad = "malformed annotation"
		mark("+kubebuilder:metadata:annotations=" + pbt.Pick(s, "word", `"two words"`, `"a=b";c`, `""`))
	case 4:
		c.bad = "unsupported CRD version"
		c.versions = pbt.Pick(s, []string{"v1beta1"}, []string{"v2"}, []string{"v1", "v1beta1"}, []string{"v1", "v3"})
	case 5:
		c.bad = "malformed marker"
		mark("+kubebuilder:" + pbt.Pick(s, "printcolumn:name=x", "resource:sope=Cluster", "subresource:scale:specpath=.a", "selectablefield", "deprecatedversion:warn=x", "printcolumn:name=x,type=string,JSONPath=.a,priority=high", "storageversion=true", "resource:path={a,b}"))
	}
	s.Label(c.bad)
	return c
}

func checkManifests(cases []any) []pbt.Outcome {
	dir := Scratch("man")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*crdCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*crdCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			var roots []*loader.Package
			for _, d := range c.roots {
				p := l.ByPath[fmt.Sprintf("%s/c%d/%s", ws.Mod, i, d)]
				if p == nil {
					panic(pbt.ToolPanic("not loaded: package " + d))
				}
				roots = append(roots, p)
			}
			return judgeManifests(c, ws.Run(crd.Generator{CRDVersions: c.versions, GenerateEmbeddedObjectMeta: c.embedded, DeprecatedV1beta1CompatibilityPreserveUnknownFields: c.preserve}, roots))
		})
	}
	return out
}

func judgeManifests(c *crdCase, r ws.Result) pbt.Outcome {
	if c.bad != "" {
		if !r.Bad() {
			return pbt.Failf("invalid declaration accepted", "%s", c.bad)
		}
		return pbt.OK(true)
	}
	if r.Bad() {
		return pbt.Failf("valid declaration rejected", "%v", r.Errs)
	}
	names := map[string]bool{}
	for n := range c.want {
		names[n] = true
	}
	got := append([]string(nil), r.Opens...)
	sort.Strings(got)
	if g, w := strings.Join(got, " "), strings.Join(jsv.Keys(names), " "); g != w {
		return pbt.Failf("wrong set of manifests", "written: %s; want: %s", g, w)
	}
	for n, w := range c.want {
		if d := diffManifest(c, r.Files[n], w); d != "" {
			return pbt.Failf("wrong manifest", "%s: %s", n, d)
		}
	}
	return pbt.OK(c.multi)
}

func diffManifest(c *crdCase, b []byte, want *apiext.CustomResourceDefinition) string {
	var raw map[string]any
	if err := yaml.Unmarshal(b, &raw); err != nil {
		return err.Error()
	}
	if k := strings.Join(jsv.Keys(raw), " "); k != "apiVersion kind metadata spec" {
		return "has the fields " + k
	}
	if _, has := raw["metadata"].(map[string]any)["creationTimestamp"]; has {
		return "has a creationTimestamp"
	}
	p, has := raw["spec"].(map[string]any)["preserveUnknownFields"]
	if has != (c.preserve != nil) || has && p != *c.preserve {
		return fmt.Sprintf("preserveUnknownFields is %v (present: %v)", p, has)
	}
	delete(raw["spec"].(map[string]any), "preserveUnknownFields")
	var got apiext.CustomResourceDefinition
	clean, _ := json.Marshal(raw)
	if err := yaml.UnmarshalStrict(clean, &got); err != nil {
		return err.Error()
	}
	if len(got.Spec.Versions) != len(want.Spec.Versions) {
		return fmt.Sprintf("has %d versions, want %d", len(got.Spec.Versions), len(want.Spec.Versions))
	}
	w := want.DeepCopy()
	for i := range got.Spec.Versions {
		gv, wv := &got.Spec.Versions[i], &w.Spec.Versions[i]
		if gv.Subresources != nil && *gv.Subresources == (apiext.CustomResourceSubresources{}) {
			gv.Subresources = nil
		}
		if gv.Schema == nil || gv.Schema.OpenAPIV3Schema == nil {
			return gv.Name + " has no schema"
		}
		if d := diffRootSchema(c, gv.Schema.OpenAPIV3Schema, wv.Schema.OpenAPIV3Schema); d != "" {
			return gv.Name + ": " + d
		}
		gv.Schema, wv.Schema = nil, nil
	}
	if g, w := jsonOf(got), jsonOf(w); g != w {
		return "is\n" + g + "\nwant\n" + w
	}
	return ""
}

func diffRootSchema(c *crdCase, sc, want *schemaT) string {
	only := want.Required[0]
	if sc.Type != "object" || strings.Join(sc.Required, " ") != only {
		return fmt.Sprintf("the schema is of another version: requires %v, want %s", sc.Required, only)
	}
	for _, k := range []string{"apiVersion", "kind", only} {
		if sc.Properties[k].Type != "string" {
			return fmt.Sprintf("property %s is %s", k, jsonOf(sc.Properties[k]))
		}
	}
	if m := jsonOf(sc.Properties["metadata"]); m != `{"type":"object"}` {
		return "metadata is " + m
	}
	if g, w := sortedKeys(sc.Properties), sortedKeys(want.Properties); strings.Join(g, " ") != strings.Join(w, " ") {
		return fmt.Sprintf("has the properties %v, want %v", g, w)
	}
	for k, w := range want.Properties {
		if g := jsonOf(sc.Properties[k]); w.Type != "" && g != jsonOf(w) {
			return fmt.Sprintf("property %s is %s, want %s", k, g, jsonOf(w))
		}
	}
	if t, has := sc.Properties["tmpl"]; has {
		m := t.Properties["metadata"]
		want := ""
		if c.embedded != nil && *c.embedded {
			want = "annotations finalizers labels name namespace"
		}
		if k := strings.Join(jsv.Keys(m.Properties), " "); m.Type != "object" || k != want {
			return "embedded metadata is " + jsonOf(m)
		}
	}
	return ""
}

func showManifests(a any) string {
	c := a.(*crdCase)
	out := c.files.Show() + fmt.Sprintf("roots: %v\n", c.roots)
	if c.bad != "" {
		return out + "must be rejected: " + c.bad + "\n"
	}
	for n, d := range c.want {
		out += n + ": " + jsonOf(d) + "\n"
	}
	return out
}

func init() {
	register(&Prop{
		ID:          "C08",
		Rule:        "Models of 1-2 API groups with 1-4 version packages (roots, skipped, without group, only referred to) and kinds in some of them carrying random CRD markers are rendered to Go; the set of written files and every manifest must equal the model (schemas: those of the right version). The second family breaks a documented constraint and must be reported. Non-trivial: some kind has several versions (or the case must be rejected).",
		Assumptions: []string{"versions of a kind do not contradict each other", "the default plural is flect's", "no two kinds of a group share a plural"},
		Families: []*pbt.Family{
			{Name: "manifests", Gen: genManifests, Check: checkManifests, Show: showManifests, Batch: 100, Parallel: 4, Quick: 3000, Thorough: 60000, ShrinkBatch: 60},
			{Name: "invalid", Gen: genBadManifests, Check: checkManifests, Show: showManifests, Batch: 100, Parallel: 4, Quick: 1500, Thorough: 25000, ShrinkBatch: 60},
		},
	})
}
