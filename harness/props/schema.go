package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"

	"verif/jsv"
	"verif/pbt"
	"verif/ws"
)

type schCase struct {
	o     apiOpts
	files ws.Files
	want  schemaT // of the spec
	feats int
	bad   string
}

func genSchemaCase(s *pbt.Src) any {
	o := apiOpts{floats: s.Chance(40), unexported: s.Chance(40)}
	g := genAPI(s, o)
	c := &schCase{o: o}
	root := g.pkgs[0].decls[len(g.pkgs[0].decls)-2]
	c.want = root.expect()
	c.files = g.render()
	c.feats = len(g.feat)
	return c
}

var unsupportedTypes = []string{"any", "interface{}", "error", "func()", "chan int", "complex64", "complex128", "map[int]string", "map[bool]string", "[]any", "*any", "map[string]any",
	"map[string]interface{ M() }", "struct{ A string }", "[]struct{ A string }", "map[string]struct{}", "map[string]chan int", "map[[2]string]string", "func(int) string", "Undefined", "map[string]Undefined", "[]Undefined", "unsafe.Pointer", "Gen[string]", "LocalInt", "[]LocalChan", "AliasAny", "map[LocalInt2]string"}

const unsupportedDecls = `
type Gen[T any] struct { F T ` + "`json:\"f\"`" + ` }
type LocalInt interface{ M() }
type LocalChan chan int
type AliasAny = any
type LocalInt2 int
`

// genUnsupported puts one unsupported type, or a field without a JSON tag, somewhere reachable.
func genUnsupported(s *pbt.Src) any {
	o := apiOpts{unexported: s.Chance(40)}
	g := genAPI(s, o)
	c := &schCase{o: o}
	spec := g.pkgs[0].decls[len(g.pkgs[0].decls)-2]
	// where: the spec or a struct it reaches
	reach := []*apiDecl{spec}
	seen := map[*apiDecl]bool{spec: true}
	var walk func(t *apiType)
	walkDecl := func(d *apiDecl) {
		for _, f := range d.fields {
			if !f.skipped {
				walk(f.typ)
			}
		}
		if d.under != nil {
			walk(d.under)
		}
	}
	walk = func(t *apiType) {
		if t == nil {
			return
		}
		walk(t.elem)
		if t.decl != nil && !seen[t.decl] && !t.decl.text && t.decl.jsonAs == "" {
			seen[t.decl] = true
			if t.decl.isStruct() {
				reach = append(reach, t.decl)
			}
			walkDecl(t.decl)
		}
	}
	walkDecl(spec)
	d := reach[s.Intn(len(reach))]
	typ := unsupportedTypes[s.Intn(len(unsupportedTypes))]
	f := &apiField{goName: "Bad", tag: `json:"bad"`, typ: &apiType{kind: "raw", raw: typ}}
	switch s.PickW(10, 2, 2) {
	case 1:
		typ = "float" + pbt.Pick(s, "32", "64")
		f.typ = pbt.Pick(s, &apiType{kind: typ}, &apiType{kind: "slice", elem: &apiType{kind: typ}}, &apiType{kind: "ptr", elem: &apiType{kind: typ}})
	case 2:
		typ = "no JSON tag"
		f.typ = g.builtin()
		f.tag = pbt.Pick(s, "", `yaml:"x"`, `protobuf:"bytes,1"`)
	}
	if s.Chance(15) && f.tag == `json:"bad"` {
		f.tag = `json:"bad,omitempty"`
	}
	pos := s.Intn(len(d.fields) + 1)
	d.fields = append(d.fields[:pos:pos], append([]*apiField{f}, d.fields[pos:]...)...)
	c.bad = typ + " in " + d.name
	c.files = g.render()
	dir := d.pkg.dir
	c.files[dir+"/gen.go"] = "package " + d.pkg.name + "\n" + unsupportedDecls
	if strings.Contains(typ, "unsafe") {
		for n, b := range c.files {
			if strings.Contains(b, "unsafe.Pointer") {
				c.files[n] = strings.Replace(b, "\n\n", "\n\nimport \"unsafe\"\n", 1)
			}
		}
	}
	return c
}

func showSchemaCase(a any) string {
	c := a.(*schCase)
	return c.files.Show() + "expected: " + jsonOf(c.want) + c.bad + "\n"
}

// structure strips a schema to the keywords that describe structure.
func structure(sc *schemaT) schemaT {
	out := schemaT{Type: sc.Type, Format: sc.Format, XIntOrString: sc.XIntOrString}
	if sc.XPreserveUnknownFields != nil && *sc.XPreserveUnknownFields {
		out.XPreserveUnknownFields = ptrTo(true)
	}
	for i := range sc.AnyOf {
		out.AnyOf = append(out.AnyOf, structure(&sc.AnyOf[i]))
	}
	for i := range sc.AllOf {
		x := structure(&sc.AllOf[i])
		if !reflect.DeepEqual(x, schemaT{}) {
			out.AllOf = append(out.AllOf, x)
		}
	}
	if len(sc.Properties) > 0 {
		out.Properties = map[string]schemaT{}
		for k, v := range sc.Properties {
			out.Properties[k] = structure(&v)
		}
	}
	out.Required = append([]string(nil), sc.Required...)
	sort.Strings(out.Required)
	if sc.Items != nil && sc.Items.Schema != nil {
		out.Items = &apiext.JSONSchemaPropsOrArray{Schema: ptrTo(structure(sc.Items.Schema))}
	}
	if sc.AdditionalProperties != nil {
		out.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true}
		if sc.AdditionalProperties.Schema != nil {
			out.AdditionalProperties.Schema = ptrTo(structure(sc.AdditionalProperties.Schema))
		}
	}
	if sc.Ref != nil {
		out.Ref = sc.Ref
	}
	return out
}

// diffSchema says where two structures differ.
func diffSchema(at string, got, want *schemaT) string {
	if got.Type != want.Type || got.Format != want.Format {
		return fmt.Sprintf("%s is %s/%s, want %s/%s", at, got.Type, got.Format, want.Type, want.Format)
	}
	keys := map[string]bool{}
	for k := range got.Properties {
		keys[k] = true
	}
	for k := range want.Properties {
		keys[k] = true
	}
	for _, k := range jsv.Keys(keys) {
		g, a := got.Properties[k]
		w, b := want.Properties[k]
		if !a {
			return fmt.Sprintf("%s lacks property %q", at, k)
		}
		if !b {
			return fmt.Sprintf("%s has unexpected property %q", at, k)
		}
		if d := diffSchema(at+"."+k, &g, &w); d != "" {
			return d
		}
	}
	if strings.Join(got.Required, "|") != strings.Join(want.Required, "|") {
		return fmt.Sprintf("%s requires %q, want %q", at, got.Required, want.Required)
	}
	if got.Items != nil && want.Items != nil {
		if d := diffSchema(at+"[]", got.Items.Schema, want.Items.Schema); d != "" {
			return d
		}
	}
	if g, w := got.AdditionalProperties, want.AdditionalProperties; g != nil && w != nil && g.Schema != nil && w.Schema != nil {
		if d := diffSchema(at+"{}", g.Schema, w.Schema); d != "" {
			return d
		}
	}
	if g, w := jsonOf(got), jsonOf(want); g != w {
		return fmt.Sprintf("%s is %s, want %s", at, g, w)
	}
	return ""
}

func crdGen(o apiOpts) crd.Generator {
	return crd.Generator{AllowDangerousTypes: ptrTo(o.floats), IgnoreUnexportedFields: ptrTo(o.unexported), GenerateEmbeddedObjectMeta: ptrTo(o.embeddedMeta)}
}

// runCRDs loads a batch of cases and generates CRDs for each.
func runCRDs(cases []ws.Files, gen func(i int) crd.Generator, judge func(i int, r ws.Result, l *ws.Loaded) pbt.Outcome) []pbt.Outcome {
	dir := Scratch("crd")
	defer Drop(dir)
	var files []ws.Files
	for i, f := range cases {
		files = append(files, place(f, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i := range cases {
		out[i] = pbt.Guard(func() pbt.Outcome {
			r := ws.Run(gen(i), l.Case(i))
			return judge(i, r, l)
		})
	}
	return out
}

func oneCRD(r ws.Result) (*apiext.CustomResourceDefinition, string) {
	if len(r.Files) != 1 {
		return nil, fmt.Sprintf("%d files instead of one: %v", len(r.Files), r.Opens)
	}
	for _, b := range r.Files {
		var c apiext.CustomResourceDefinition
		if err := yaml.Unmarshal(b, &c); err != nil {
			return nil, err.Error()
		}
		return &c, ""
	}
	return nil, ""
}

func checkSchemaBatch(cases []any) []pbt.Outcome {
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*schCase).files)
	}
	return runCRDs(files, func(i int) crd.Generator { return crdGen(cases[i].(*schCase).o) }, func(i int, r ws.Result, l *ws.Loaded) pbt.Outcome {
		c := cases[i].(*schCase)
		if c.bad != "" {
			if !r.Bad() {
				return pbt.Failf("unsupported type accepted", "%s", c.bad)
			}
			return pbt.OK(true)
		}
		if r.Bad() {
			return pbt.Failf("supported type rejected", "%v", r.Errs)
		}
		d, bad := oneCRD(r)
		if bad != "" {
			return pbt.Failf("no manifest", "%s", bad)
		}
		if len(d.Spec.Versions) != 1 || d.Spec.Versions[0].Schema == nil {
			return pbt.Failf("no schema", "%v", d.Spec.Versions)
		}
		got, ok := d.Spec.Versions[0].Schema.OpenAPIV3Schema.Properties["spec"]
		if !ok {
			return pbt.Failf("wrong structure", "no spec property")
		}
		g, w := structure(&got), structure(&c.want)
		if df := diffSchema("spec", &g, &w); df != "" {
			return pbt.Failf("wrong structure", "%s", df)
		}
		return pbt.OK(c.feats >= 2)
	})
}

// specProbe is a fixed package with the given declarations and RootSpec body.
func specProbe(key, decls, body string, want schemaT, bad string) Probe {
	files := specFiles(decls, body)
	return Probe{key, func() pbt.Outcome {
		return checkSchemaBatch([]any{&schCase{files: files, want: want, bad: bad}})[0]
	}}
}

func specFiles(decls, body string) ws.Files {
	return ws.Files{
		"v1/f0.go":    "// +groupName=g.ex.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\nimport . \"CASE/deps\"\nimport deps \"CASE/deps\"\n\nvar _ Other\nvar _ deps.Other\n\n" + decls + "\ntype RootSpec struct {\n" + body + "\n}\n\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec RootSpec `json:\"spec\"`\n}\n",
		"deps/d.go":   "package deps\n\nimport \"CASE/deps2\"\n\ntype Other int\ntype Str = string\ntype Far = deps2.Far\n// +kubebuilder:validation:MaxLength=3\ntype Text int\ntype TextA = Text\ntype TextB = TextA\n func (Text) MarshalText() ([]byte, error) { return nil, nil }\n",
		"deps2/d2.go": "package deps2\n\ntype Far struct { X string `json:\"x\"` }\n",
	}
}

func objOf(req string, props map[string]schemaT) schemaT {
	o := schemaT{Type: "object", Properties: props}
	if req != "" {
		o.Required = strings.Split(req, ",")
	}
	return o
}

func schemaProbes() []Probe {
	str := strSchema("")
	type m = map[string]schemaT
	return []Probe{
		specProbe("omitzero", "", "A string `json:\"a,omitzero\"`", objOf("", m{"a": str}), ""),
		specProbe("unnamed-field", "", "A string `json:\",omitempty\"`", objOf("", m{"A": str}), ""),
		specProbe("alias-of-unnamed", "type L = []string", "A L `json:\"a\"`", objOf("a", m{"a": listOf(str)}), ""),
		specProbe("uint8-slice", "type B uint8", "A []uint8 `json:\"a\"`\nB []B `json:\"b\"`", objOf("a,b", m{"a": strSchema("byte"), "b": strSchema("byte")}), ""),
		specProbe("alias-map-key", "type K = string", "A map[K]string `json:\"a\"`", objOf("a", m{"a": mapOf(str)}), ""),
		specProbe("dot-imported-alias", "", "A Str `json:\"a\"`\nB Far `json:\"b\"`", objOf("a,b", m{"a": str, "b": objOf("x", m{"x": str})}), ""),
		specProbe("dot-imported-embedded-alias", "", "Far `json:\",inline\"`", objOf("x", m{"x": str}), ""),
		specProbe("required-inline", "type E struct { X string `json:\"x\"` }", "// +required\nE `json:\",inline\"`", objOf("x", m{"x": str}), ""),
		specProbe("string-option", "type N int", "A *int `json:\"a,string\"`\nB N `json:\"b,string\"`\nC []int `json:\"c,string\"`\nD float64 `json:\"d,string\"`", objOf("a,b,c,d", m{"a": str, "b": str, "c": listOf(schemaT{Type: "integer"}), "d": str}), ""),
		specProbe("any-field", "", "A any `json:\"a\"`", schemaT{}, "any"),
		specProbe("error-field", "", "A error `json:\"a\"`", schemaT{}, "error"),
		specProbe("anonymous-struct-field", "", "A struct{ B string } `json:\"a\"`", schemaT{}, "struct"),
	}
}

func init() {
	register(&Prop{
		ID:          "C04",
		Probes:      schemaProbes(),
		Rule:        "Random API packages (1-3 packages, structs, named/alias/redefined types, marshalers, embedding, tags, well-known types, all import styles) run through the CRD generator; the schema stripped to its structure must equal the structure modelled while generating. Non-trivial: at least two of the listed features occur.",
		Assumptions: []string{"properties of one object have distinct names", "recursive types are outside the supported domain (CRD schemas cannot express them)"},
		Families: []*pbt.Family{
			{Name: "structure", Gen: genSchemaCase, Check: checkSchemaBatch, Show: showSchemaCase, Batch: 150, Parallel: 4, Quick: 3500, Thorough: 80000, ShrinkBatch: 100},
			{Name: "unsupported", Gen: genUnsupported, Check: checkSchemaBatch, Show: showSchemaCase, Batch: 150, Parallel: 4, Quick: 1500, Thorough: 20000, ShrinkBatch: 100},
		},
	})
}
