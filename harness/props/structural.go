package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	structuralschema "k8s.io/apiextensions-apiserver/pkg/apiserver/schema"
	"k8s.io/apimachinery/pkg/util/validation/field"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/yaml"

	"verif/pbt"
	"verif/ws"
)

// ---- C30: schemas are structural, as an API server understands it

type structCase struct {
	o     apiOpts
	max   *int
	files ws.Files
	kind  string
}

// moreLib are types that hold what they like.
var moreLib = []string{"unstructured.Unstructured", "extv1beta1.JSON", "extv1.JSON", "metav1.FieldsV1", "metav1.ManagedFieldsEntry", "extv1.CustomResourceDefinitionNames", "extv1.CustomResourceColumnDefinition", "extv1.CustomResourceConversion", "extv1.SelectableField", "metav1.Verbs", "metav1.Preconditions", "metav1.Status", "metav1.PartialObjectMetadata"}

func genStructural(s *pbt.Src) any {
	c := &structCase{}
	switch s.PickW(4, 3, 3, 1, 1, 1) {
	case 0:
		x := genSchemaCase(s).(*schCase)
		c.o, c.files, c.kind = x.o, x.files, "types"
	case 1:
		c.files, c.kind = constraintCase(s, false).(*conCase).files, "constraints"
	case 2:
		x := genLibraryWith(s, moreLib).(*encCase)
		c.o, c.files, c.kind = x.o, x.files, "libraries"
	case 3:
		c.files, c.kind = genManifests(s).(*crdCase).files, "kinds"
	case 4:
		c.files, c.kind = genDocCase(s).(*docCase).files, "docs"
	case 5:
		c.files, c.kind = genRecursive(s), "recursive"
	}
	c.o.floats = true
	if s.Chance(20) {
		c.max = ptrTo(pbt.Pick(s, 0, 10, 40))
	}
	return c
}

// genRecursive has types that hold each other, with markers that cut every
// loop.
func genRecursive(s *pbt.Src) ws.Files {
	n := s.Range(1, 5)
	var b strings.Builder
	b.WriteString("// +groupName=g.ex.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n")
	for _, i := range s.Perm(n) {
		fmt.Fprintf(&b, "\ntype T%d struct {\n\tN int `json:\"n\"`\n", i)
		for f := range s.Range(1, 4) {
			j := s.Intn(n)
			form := pbt.Pick(s, "*", "[]", "map[string]", "map[string][]", "[]*")
			if j <= i {
				b.WriteString(pbt.Pick(s, "\t// +kubebuilder:validation:Schemaless\n\t// +kubebuilder:pruning:PreserveUnknownFields\n", "\t// Others like it.\n\t// +kubebuilder:pruning:PreserveUnknownFields\n\t// +kubebuilder:validation:Schemaless\n\t// +optional\n"))
			} else if s.Chance(30) {
				form = ""
			}
			fmt.Fprintf(&b, "\tF%d %sT%d `json:\"f%d\"`\n", f, form, j, f)
		}
		b.WriteString("}\n")
	}
	b.WriteString("\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec T0 `json:\"spec\"`\n}\n")
	return ws.Files{"v1/a.go": b.String()}
}

func structuralErrs(v *apiext.JSONSchemaProps) field.ErrorList {
	var in apiextensions.JSONSchemaProps
	if err := apiext.Convert_v1_JSONSchemaProps_To_apiextensions_JSONSchemaProps(v, &in, nil); err != nil {
		return field.ErrorList{field.InternalError(nil, err)}
	}
	st, err := structuralschema.NewStructural(&in)
	if err != nil {
		return field.ErrorList{field.Invalid(nil, "", err.Error())}
	}
	return structuralschema.ValidateStructural(nil, st)
}

func crdsOf(r ws.Result) (out []*apiext.CustomResourceDefinition) {
	for k, b := range r.Files {
		d := &apiext.CustomResourceDefinition{}
		if err := yaml.UnmarshalStrict(b, d); err != nil {
			panic(pbt.HarnessPanic(k + ": " + err.Error()))
		}
		out = append(out, d)
	}
	return out
}

// askedFor are complaints that a marker calls for.
var askedFor = []struct{ says, marker string }{
	{"if x-kubernetes-embedded-resource is", "EmbeddedResource"},
	{"must be false if x-kubernetes-int-or-string is true", "reserveUnknownFields"},
	{"must be false if x-kubernetes-int-or-string is true", "EmbeddedResource"},
	{"must not be empty for specified object fields", "chemaless"},
	{"must not be empty for specified array items", "chemaless"},
	{"must be specified", "validation:Type=array"},
	{"must be a valid regular expression", "Pattern="},
}

func checkStructural(cases []any) []pbt.Outcome {
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*structCase).files)
	}
	return runCRDs(files, func(i int) crd.Generator {
		g := crdGen(cases[i].(*structCase).o)
		g.MaxDescLen = cases[i].(*structCase).max
		return g
	}, func(i int, r ws.Result, l *ws.Loaded) pbt.Outcome {
		c := cases[i].(*structCase)
		if r.Bad() {
			if c.kind == "recursive" {
				return pbt.Failf("loops that markers cut fail", "%v", r.Errs)
			}
			return pbt.OK(false, c.kind+" fails")
		}
		text := ""
		for _, f := range c.files {
			text += f
		}
		nodes, label := 0, "structural"
		for _, d := range crdsOf(r) {
			for _, v := range d.Spec.Versions {
				if v.Schema == nil {
					continue
				}
				b, _ := json.Marshal(v.Schema.OpenAPIV3Schema)
				nodes += bytes.Count(b, []byte(`"type":`))
			errs:
				for _, e := range structuralErrs(v.Schema.OpenAPIV3Schema) {
					for _, a := range askedFor {
						if strings.Contains(e.Error(), a.says) && strings.Contains(text, a.marker) {
							label = "not, as markers ask for it"
							continue errs
						}
					}
					return pbt.Failf("not structural", "%s %s: %v\n%s", d.Name, v.Name, e, b)
				}
			}
		}
		return pbt.OK(nodes > 5, label, c.kind)
	})
}

func init() {
	register(&Prop{
		ID: "C30",
		Probes: []Probe{{"recursive-types", func() pbt.Outcome {
			return checkStructural([]any{&structCase{kind: "probe", o: apiOpts{floats: true}, files: ws.Files{"v1/a.go": "// +groupName=g.ex.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\ntype Node struct {\n\tKids []Node `json:\"kids\"`\n}\n\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec Node `json:\"spec\"`\n}\n"}}})[0]
		}}},
		Rule: "the schemas of the manifests have more than five types",
		Assumptions: []string{
			"structural is what k8s.io/apiextensions-apiserver's ValidateStructural accepts, in the version /repo builds with",
			"markers that ask for something else get it: embedded resources that are no objects, unknown fields of int-or-string, schemaless fields, types other than that of the Go type, patterns that are no regular expressions",
		},
		Families: []*pbt.Family{{
			Name: "structural", Gen: genStructural, Check: checkStructural, Show: func(a any) string { c := a.(*structCase); return c.files.Show() + fmt.Sprint(c.kind) },
			Batch: 60, Parallel: 3, Quick: 1000, Thorough: 40000, ShrinkBatch: 40,
		}},
	})
}
