package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	structuralschema "k8s.io/apiextensions-apiserver/pkg/apiserver/schema"
	"k8s.io/apiextensions-apiserver/pkg/apiserver/schema/pruning"

	"sigs.k8s.io/controller-tools/pkg/crd"

	"verif/jsv"
	"verif/pbt"
	"verif/ws"
)

// What Go encodes and decodes, against the schema.

type encCase struct {
	schCase
	seed    uint64
	library bool // of types of the libraries
}

func genEncodeCase(s *pbt.Src) any {
	o := apiOpts{floats: s.Chance(50), unexported: s.Chance(40), encodable: true}
	g := genAPI(s, o)
	c := &encCase{schCase: schCase{o: o}}
	c.files = g.render()
	c.feats = len(g.feat)
	c.seed = s.Uint(1 << 40)
	return c
}

func showEncode(a any) string {
	c := a.(*encCase)
	return c.files.Show() + fmt.Sprintf("value seed: %d\n", c.seed)
}

const encValues = 12

// encoderSrc is the program that makes values, encodes them, and decodes spoiled encodings.
const encoderSrc = `
import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	apiextv1beta1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
)

var r *rand.Rand

func pick[T any](xs ...T) T { return xs[r.Intn(len(xs))] }

func text() string {
	return pick("", "a", "hello world", "zz", "ünï", "0", "true", "null", "1k", "a\nb", "<&>", "\xff", "\u2028", strings.Repeat("x", r.Intn(40)))
}

func rawJSON() string {
	return pick("{}", "{\"a\":1}", "[1,\"x\"]", "\"s\"", "17", "1.5", "true", "{\"a\":{\"b\":[{}]}}")
}

func when() time.Time { return time.Unix(r.Int63n(4e9), int64(r.Intn(1e9))).UTC() }

func special(v reflect.Value) bool {
	switch x := v.Addr().Interface().(type) {
	case *metav1.Time:
		*x = metav1.NewTime(when())
	case *metav1.MicroTime:
		*x = metav1.NewMicroTime(when())
	case *metav1.Duration:
		x.Duration = time.Duration(r.Int63n(1e15))
	case *resource.Quantity:
		*x = resource.MustParse(pick("0", "1", "-1", "1k", "100m", "1.5Gi", "1e3", "12E", "0.5", ".5", "1u", "1n", "5.", "3Ki", "+7", "1E-3", "9223372036854775807"))
	case *intstr.IntOrString:
		*x = pick(intstr.FromInt32(r.Int31()), intstr.FromString(text()), intstr.FromString("50%"), intstr.FromInt32(0))
	case *runtime.RawExtension:
		x.Raw = []byte(pick("{}", "{\"a\":1}", "{\"apiVersion\":\"v1\",\"kind\":\"X\",\"z\":[{}]}"))
	case *apiextv1.JSON:
		x.Raw = []byte(rawJSON())
	case *apiextv1beta1.JSON:
		x.Raw = []byte(rawJSON())
	case *unstructured.Unstructured:
		x.Object = map[string]any{"kind": "K", "a": text(), "b": []any{map[string]any{"c": text()}}}
	case *metav1.FieldsV1:
		x.Raw = []byte(pick("{}", "{\"f:a\":{}}"))
	case *metav1.ObjectMeta: // what a manifest writes
		*x = metav1.ObjectMeta{}
		fill(reflect.ValueOf(&x.Name).Elem(), 1)
		fill(reflect.ValueOf(&x.Labels).Elem(), 2)
		fill(reflect.ValueOf(&x.Annotations).Elem(), 2)
		fill(reflect.ValueOf(&x.Finalizers).Elem(), 2)
		x.CreationTimestamp = metav1.NewTime(when())
	case *metav1.Condition:
		*x = metav1.Condition{Type: pick("Ready", "ex.test/Foo.bar_x"), Status: pick(metav1.ConditionTrue, metav1.ConditionFalse, metav1.ConditionUnknown), ObservedGeneration: r.Int63(), LastTransitionTime: metav1.NewTime(when()), Reason: pick("A", "Because_of"), Message: text()}
	default:
		return false
	}
	return true
}

func fill(v reflect.Value, depth int) {
	if v.CanAddr() && special(v) {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := v.Type().Bits()
		v.SetInt(pick(0, 1, -1, int64(r.Intn(100)), int64(1)<<(b-1)-1, -int64(1)<<(b-1), int64(r.Uint64())>>(64-b)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := v.Type().Bits()
		v.SetUint(pick(0, 1, uint64(r.Intn(100)), math.MaxUint64>>(64-b), r.Uint64()>>(64-b)))
	case reflect.Float32, reflect.Float64:
		f := pick(0, 1, -1.5, 1e20, 1e21, 1e-7, 3e30, float64(r.Intn(1000))/8)
		v.SetFloat(f)
	case reflect.String:
		v.SetString(text())
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth-1)
	case reflect.Slice:
		n := r.Intn(3)
		if depth < 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(v.Index(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		if depth < 0 {
			return
		}
		for n := r.Intn(3); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			fill(k, depth-1)
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if v.Type().Name() == "PortStatus" && f.Name == "Error" {
				e := "a" // it has a pattern of its own
				v.Field(i).Set(reflect.ValueOf(&e))
				continue
			}
			if f.PkgPath != "" && !f.Anonymous || !v.Field(i).CanSet() {
				continue
			}
			tag := f.Tag.Get("json")
			omit := false
			for _, o := range strings.Split(tag, ",")[1:] {
				omit = omit || o == "omitempty" || o == "omitzero"
			}
			if omit && !(f.Anonymous && strings.HasPrefix(tag, ",")) && r.Intn(3) == 0 {
				if k := v.Field(i).Kind(); k != reflect.Struct && k != reflect.Array {
					continue // left unset
				}
			}
			fill(v.Field(i), depth-1)
		}
	default:
		panic("cannot fill " + v.Type().String())
	}
}

// spoil replaces one random node by a value of another JSON type.
func spoil(x any) (any, bool) {
	n := 0
	var count func(x any)
	count = func(x any) {
		n++
		switch t := x.(type) {
		case map[string]any:
			if t["creationTimestamp"] != nil { return } // metadata is not described in full
			for _, v := range t { count(v) }
		case []any:
			for _, v := range t { count(v) }
		}
	}
	count(x)
	at := r.Intn(n)
	done := false
	var edit func(x any) any
	edit = func(x any) any {
		if at == 0 {
			at--
			nv := pick[any]("zz", json.Number("7"), json.Number("1.5"), true, []any{}, map[string]any{}, []any{"x"}, map[string]any{"k": "v"})
			done = kind(nv) != kind(x)
			if k := kind(nv); k == "number" && kind(x) == "integer" { done = true } else if k == "integer" && kind(x) == "number" { done = false }
			return nv
		}
		at--
		switch t := x.(type) {
		case map[string]any:
			if t["creationTimestamp"] != nil { return x }
			keys := []string{}
			for k := range t { keys = append(keys, k) }
			sortStrings(keys)
			for _, k := range keys { t[k] = edit(t[k]) }
		case []any:
			for i := range t { t[i] = edit(t[i]) }
		}
		return x
	}
	x = edit(x)
	return x, done
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- { a[j], a[j-1] = a[j-1], a[j] }
	}
}

func kind(x any) string {
	switch t := x.(type) {
	case string: return "string"
	case bool: return "bool"
	case nil: return "null"
	case []any: return "array"
	case map[string]any: return "object"
	case json.Number:
		if strings.ContainsAny(string(t), ".eE") { return "number" }
		return "integer"
	}
	return "?"
}

type line struct {
	Case int
	Enc  json.RawMessage
	Bad  json.RawMessage
	Err  string
	Kind bool // rejected because of its type
}

func decode(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil { panic(err) }
	return v
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for i, mk := range roots {
		r = rand.New(rand.NewSource(seeds[i]))
		for k := 0; k < %d; k++ {
			v := mk()
			fill(reflect.ValueOf(v).Elem(), 5)
			b, err := json.Marshal(v)
			if err != nil {
				enc.Encode(line{Case: i, Err: fmt.Sprint("marshal: ", err)})
				continue
			}
			l := line{Case: i, Enc: b}
			if bad, ok := spoil(decode(b)); ok {
				bb, _ := json.Marshal(bad)
				l.Bad = bb
				if err := json.Unmarshal(bb, mk()); err != nil {
					var te *json.UnmarshalTypeError
					l.Err, l.Kind = err.Error(), errors.As(err, &te)
				}
			}
			enc.Encode(l)
		}
	}
}
`

type encLine struct {
	Case int
	Enc  json.RawMessage
	Bad  json.RawMessage
	Err  string
	Kind bool
}

// encodeAll builds and runs the program for a loaded batch.
func encodeAll(dir string, cases []any) ([][]encLine, error) {
	var b strings.Builder
	b.WriteString("package main\n\n")
	for i := range cases {
		fmt.Fprintf(&b, "import c%d \"%s/c%d/v1\"\n", i, ws.Mod, i)
	}
	b.WriteString(strings.Replace(encoderSrc, "%d", fmt.Sprint(encValues), 1))
	b.WriteString("\nvar roots = []func() any{\n")
	for i := range cases {
		fmt.Fprintf(&b, "\tfunc() any { return new(c%d.RootSpec) },\n", i)
	}
	b.WriteString("}\n\nvar seeds = []int64{")
	for _, a := range cases {
		fmt.Fprintf(&b, "%d, ", a.(*encCase).seed)
	}
	b.WriteString("}\n")
	if err := ws.WriteFiles(filepath.Join(dir, "zz"), ws.Files{"main.go": b.String()}); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "zz.bin")
	cmd := exec.Command("go", "build", "-o", bin, "./zz")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v\n%s", err, head(string(out), 3000))
	}
	run := exec.Command(bin)
	var stdout, stderr bytes.Buffer
	run.Stdout, run.Stderr = &stdout, &stderr
	if err := run.Run(); err != nil {
		return nil, fmt.Errorf("run: %v\n%s", err, head(stderr.String(), 3000))
	}
	out := make([][]encLine, len(cases))
	sc := bufio.NewScanner(&stdout)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var l encLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			return nil, err
		}
		out[l.Case] = append(out[l.Case], l)
	}
	return out, sc.Err()
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func checkEncodeBatch(cases []any) []pbt.Outcome {
	dir := Scratch("enc")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*encCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	lines, err := encodeAll(dir, cases)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i := range cases {
		out[i] = pbt.Guard(func() pbt.Outcome {
			c := cases[i].(*encCase)
			var g crd.Generator = crdGen(c.o)
			r := ws.Run(g, l.Case(i))
			if r.Bad() {
				return pbt.Failf("supported type rejected", "%v", r.Errs)
			}
			d, bad := oneCRD(r)
			if bad != "" {
				return pbt.Failf("no manifest", "%s", bad)
			}
			sc := d.Spec.Versions[0].Schema.OpenAPIV3Schema.Properties["spec"]
			st := structural(&sc)
			nested, spoiled := 0, 0
			for _, ln := range lines[i] {
				if ln.Enc == nil {
					panic(pbt.HarnessPanic(ln.Err))
				}
				v, err := jsv.Decode(ln.Enc)
				if err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
				why, err := jsv.Valid(&sc, v, nil, nil)
				if err != nil {
					return pbt.Failf("unusable schema", "%v", err)
				}
				if why != "" {
					return pbt.Failf("encoded value rejected", "%s by %s: %s", why, jsonOf(sc), ln.Enc)
				}
				if un := unnamed(c, &sc, v); len(un) > 0 {
					return pbt.Failf("encoded value would be pruned", "%v of %s by %s", un, ln.Enc, jsonOf(sc))
				}
				if st != nil && len(jsv.Unnamed(&sc, v, "$")) == 0 {
					var obj any
					if err := json.Unmarshal(ln.Enc, &obj); err != nil {
						panic(pbt.HarnessPanic(err.Error()))
					}
					if lost := pruning.PruneWithOptions(map[string]any{"spec": obj}, st, false, structuralschema.UnknownFieldPathOptions{TrackUnknownFieldPaths: true}); len(lost) > 0 {
						return pbt.Failf("an API server prunes an encoded value", "%v of %s by %s", lost, ln.Enc, jsonOf(sc))
					}
				}
				if len(ln.Enc) > 20 {
					nested++
				}
				if ln.Bad != nil && ln.Err != "" {
					spoiled++
					v, err := jsv.Decode(ln.Bad)
					if err != nil {
						panic(pbt.HarnessPanic(err.Error()))
					}
					why, _ := jsv.Valid(&sc, v, nil, nil)
					if why == "" && ln.Kind {
						return pbt.Failf("undecodable value accepted", "%s (%s) by %s", ln.Bad, ln.Err, jsonOf(sc))
					}
				}
			}
			return pbt.OK(nested > 0 && spoiled > 0)
		})
	}
	return out
}

// structural is the schema of a spec as an API server holds it, if it can.
func structural(sc *schemaT) *structuralschema.Structural {
	var in apiextensions.JSONSchemaProps
	if err := apiext.Convert_v1_JSONSchemaProps_To_apiextensions_JSONSchemaProps(&apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"spec": *sc}}, &in, nil); err != nil {
		return nil
	}
	st, err := structuralschema.NewStructural(&in)
	if err != nil {
		return nil
	}
	return st
}

// unnamed lists the parts of a value that would be pruned, less the metadata of objects
// of the libraries within the spec, whose schema names what manifests write, or nothing.
func unnamed(c *encCase, sc *schemaT, v any) (out []string) {
	for _, p := range jsv.Unnamed(sc, v, "$") {
		meta := strings.Contains(p, ".metadata.")
		if c.o.embeddedMeta {
			meta = strings.HasSuffix(p, ".creationTimestamp")
		}
		if !c.library || !meta {
			out = append(out, p)
		}
	}
	return out
}

func encProbe(key, decls, body string) Probe {
	return Probe{key, func() pbt.Outcome {
		files := ws.Files{"v1/f0.go": "// +groupName=g.ex.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n" + decls + "\ntype RootSpec struct {\n" + body + "\n}\n\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec RootSpec `json:\"spec\"`\n}\n"}
		return checkEncodeBatch([]any{&encCase{schCase: schCase{files: files, o: apiOpts{floats: true}}, seed: 1}})[0]
	}}
}

func init() {
	register(&Prop{
		Probes: []Probe{
			encProbe("shadowed-embedded-field", "type E struct { A string `json:\"a\"` }", "E `json:\",inline\"`\nA string `json:\"a,omitempty\"`"),
			encProbe("omitzero", "", "A string `json:\"a,omitzero\"`\nB bool `json:\"b\"`"),
			encProbe("fields-v1", "", "A metav1.FieldsV1 `json:\"a\"`"),
			encProbe("unnamed-field", "", "A string `json:\",omitempty\"`\nB int `json:\",\"`"),
			encProbe("byte-slices", "type B uint8", "A []uint8 `json:\"a\"`\nB []B `json:\"b\"`"),
			encProbe("string-option", "", "A int `json:\"a,string\"`\nB float64 `json:\"b,string\"`"),
		},
		ID:          "C05",
		Rule:        fmt.Sprintf("Random API packages as for C04, compiled together with a program that fills %d random values per type, encodes them, and decodes encodings with one node replaced by another JSON type; the generated schema must accept and name everything encoded, and reject what Go rejects for its type. Non-trivial: a non-empty encoding and a rejected spoiled one occurred.", encValues),
		Assumptions: []string{"slices, maps, pointers and times without omitempty are set, as an API server would require", "the harness's schema evaluator", "values of metav1.Condition satisfy its own validation markers"},
		Families: []*pbt.Family{
			{Name: "encodings", Gen: genEncodeCase, Check: checkEncodeBatch, Show: showEncode, Batch: 100, Parallel: 3, Quick: 2000, Thorough: 20000, ShrinkBatch: 60},
			{Name: "library", Gen: genLibrary, Check: checkEncodeBatch, Show: showEncode, Batch: 60, Parallel: 3, Quick: 360, Thorough: 8000, ShrinkBatch: 30},
		},
	})
}
