package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	yaml2 "gopkg.in/yaml.v2"
	yaml3 "gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	k8syaml "sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

type yamlCase struct {
	objs    []map[string]any
	header  string
	remove  []string // top-level fields that transforms remove, "metadata.creationTimestamp" included
	nStr    int
	strange int
}

var yamlWords = []string{"", " ", "a", "abc def", "true", "false", "yes", "No", "on", "OFF", "y", "n", "null", "~", "Null", "1", "-1", "+1", "0", "007", "0x1F", "0b1", "0o17", "1_000", "1.5", ".5", "5.", "1e3", "1E+3", ".inf", "-.Inf", ".NaN", "nan", "1:30", "1:30:00", "190:20:30", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43.10 -5", "<<", "=", "- a", "-", "--", "---", "...", "--- a", "? a", "?", ": a", ":", "a: b", "a:b", "a:", ":a", "# a", "a #b", "a#b", "&a", "*a", "!a", "!!str a", "|", "| a", ">", "> a", "@a", "`a`", "%a", "{a}", "{", "}", "[a]", "[", "]", ",", "a, b", "'a'", "\"a\"", "\"", "'", "\\", "\\n", "a\\", "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb\n", "a\n  b\nc", "  a\nb", "a \nb", "a\n b", "\ta", "a\t", "a\tb", "\t\n", "a\n\t", "\r", "a\rb", "a\r\nb", "trailing ", " leading", "a  b", "---\na", "a\n---\nb", "a\n...\nb", "# c\na", "a\n# c", "\u0085", "a\u0085b", "\u2028", "a\u2028b", "\u2029", "\u00a0", "\u3000", "é", "世界", "😀", "\ufeff", "a\ufeffb", "\x7f", "\x00", "\x01", "\x1b[0m", "\u0080", "\u009f", "\ufffe", "\uffff", "\ufffd", "\u200b", "\u202e", "\U0010ffff", "<html>&amp;", "{{ .X }}", "$VAR", "%d", "9223372036854775808", "1.0", "key", "metadata", "status", "creationTimestamp", "self.a.all(x, x in ['a', \"b\"])", "^[a-z]([-a-z0-9]*[a-z0-9])?$", "^\\d+(\\.\\d+)*$"}

func (c *yamlCase) str(s *pbt.Src) string {
	c.nStr++
	var b strings.Builder
	switch s.PickW(8, 4, 2, 1) {
	case 0:
		b.WriteString(yamlWords[s.Intn(len(yamlWords))])
	case 1:
		for n := 2 + s.Small(4); n > 0; n-- {
			b.WriteString(yamlWords[s.Intn(len(yamlWords))])
		}
	case 2:
		for n := s.Small(12); n > 0; n-- {
			b.WriteRune(rune(s.Intn(0x80)))
		}
	default:
		// long text: lines get folded
		for n := 20 + s.Small(40); n > 0; n-- {
			b.WriteString(pbt.Pick(s, "word", "averyveryverylongword", "a:", "#", "-", "x'y", "\"q\"", "世界") + pbt.Pick(s, " ", " ", " ", "  ", "\n", "\n\n", "\t", ""))
		}
	}
	t := b.String()
	if t != "" && strings.Trim(t, "abcdefghijklmnopqrstuvwxyz") != "" {
		c.strange++
	}
	return t
}

// key is the key of a map ("<<" is a known finding).
func (c *yamlCase) key(s *pbt.Src) string {
	k := c.str(s)
	if k == "<<" {
		return "<"
	}
	return k
}

func (c *yamlCase) value(s *pbt.Src, depth int) any {
	k := s.PickW(8, 2, 3, 1, 3, 3)
	if depth <= 0 && k >= 4 {
		k = 0
	}
	switch k {
	case 1:
		return s.Bool()
	case 2:
		switch s.Intn(7) {
		case 0:
			return int64(s.Small(100) - 50)
		case 1:
			return int64(s.U64())
		case 2:
			return s.U64()
		case 3:
			return pbt.Pick[any](s, int64(math.MaxInt64), int64(math.MinInt64), uint64(math.MaxUint64), uint64(math.MaxInt64)+1, int64(1)<<53, int64(1)<<53+1, int64(-1)<<53-1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e20, 1e-7, 1e6, 123456789.0, 0.1, -0.0, 1.5e300)
		case 4:
			f := math.Float64frombits(s.U64())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				f = 0.5
			}
			return f
		case 5:
			return float64(int64(s.U64()>>8)) / 1024
		default:
			return float64(s.Small(1000)) / 10
		}
	case 3:
		return nil
	case 4:
		m := map[string]any{}
		for n := s.Small(4); n > 0; n-- {
			m[c.key(s)] = c.value(s, depth-1)
		}
		return m
	case 5:
		l := []any{}
		for n := s.Small(4); n > 0; n-- {
			l = append(l, c.value(s, depth-1))
		}
		return l
	}
	return c.str(s)
}

func genYAMLCase(s *pbt.Src) any {
	c := &yamlCase{}
	for n := 1 + s.Small(3); n > 0; n-- {
		o := map[string]any{"metadata": map[string]any{"name": c.str(s)}, "kind": "K"}
		if s.Chance(70) {
			o["metadata"].(map[string]any)["creationTimestamp"] = nil
		}
		if s.Chance(30) {
			o["metadata"].(map[string]any)["annotations"] = map[string]any{"creationTimestamp": c.str(s), c.key(s): c.str(s)}
		}
		for k := s.Small(4); k > 0; k-- {
			o[c.str(s)+"x"] = c.value(s, 3)
		}
		if s.Chance(50) {
			o["status"] = c.value(s, 1)
		}
		c.objs = append(c.objs, o)
	}
	for n := s.Small(4); n > 0; n-- {
		c.header += pbt.Pick(s, "# Copyright 2020\n", "#\n", "\n", "# --- x\n", "# ünï\n", "  # indented\n", "#a\r\n")
	}
	if s.Chance(10) {
		c.header += "# no newline"
	}
	if s.Bool() {
		c.remove = append(c.remove, "metadata.creationTimestamp")
	}
	if s.Bool() {
		c.remove = append(c.remove, "status")
	}
	return c
}

// canon makes values comparable: numbers by value, maps with string keys.
func canon(v any) any {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out := []any{"map"}
		for _, k := range ks {
			out = append(out, k, canon(x[k]))
		}
		return out
	case map[any]any:
		m := map[string]any{}
		for k, v := range x {
			ks, ok := k.(string)
			if !ok {
				ks = fmt.Sprintf("!%T %v", k, k)
			}
			m[ks] = v
		}
		return canon(m)
	case []any:
		out := []any{"list"}
		for _, e := range x {
			out = append(out, canon(e))
		}
		return out
	case string:
		return "s:" + x
	case bool:
		return fmt.Sprintf("b:%v", x)
	case nil:
		return "null"
	case json.Number:
		// whole numbers that fit are exact, others are floats
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return canon(i)
		}
		if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
			return canon(u)
		}
		f, err := strconv.ParseFloat(x.String(), 64)
		if err != nil {
			return "?" + x.String()
		}
		return canon(f)
	case int:
		return "n:" + strconv.Itoa(x)
	case int64:
		return "n:" + strconv.FormatInt(x, 10)
	case uint64:
		return "n:" + strconv.FormatUint(x, 10)
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			return fmt.Sprintf("f:%v", x)
		}
		return "n:" + new(big.Rat).SetFloat64(x).RatString()
	default:
		return fmt.Sprintf("%T:%v", v, v)
	}
}

func canonText(v any) string {
	b, err := json.Marshal(canon(v))
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return string(b)
}

// wantYAML is what a manifest of the objects holds.
func (c *yamlCase) want() []string {
	var out []string
	for _, o := range c.objs {
		var cp map[string]any
		b, err := json.Marshal(o)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&cp); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		for _, r := range c.remove {
			if r == "status" {
				delete(cp, "status")
			} else {
				delete(cp["metadata"].(map[string]any), "creationTimestamp")
			}
		}
		out = append(out, canonText(cp))
	}
	return out
}

func removeStatus(obj map[string]interface{}) error { delete(obj, "status"); return nil }

// readYAML2 and readYAML3 read every document of a manifest.
func readYAML2(b []byte) ([]any, error) {
	var out []any
	d := yaml2.NewDecoder(bytes.NewReader(b))
	for {
		var v any
		if err := d.Decode(&v); errors.Is(err, io.EOF) {
			return out, nil
		} else if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
}

func readYAML3(b []byte) ([]any, error) {
	var out []any
	d := yaml3.NewDecoder(bytes.NewReader(b))
	for {
		var v any
		if err := d.Decode(&v); errors.Is(err, io.EOF) {
			return out, nil
		} else if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
}

func sameDocs(reader string, got []any, err error, want []string) string {
	if err != nil {
		return reader + " cannot read it: " + err.Error()
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%s reads %d documents instead of %d", reader, len(got), len(want))
	}
	for i := range got {
		if g := canonText(got[i]); g != want[i] {
			return fmt.Sprintf("document %d as read by %s:\n  %s\nwritten:\n  %s", i, reader, g, want[i])
		}
	}
	return ""
}

func checkYAML(c *yamlCase) pbt.Outcome {
	out := &ws.MemOut{}
	ctx := genall.GenerationContext{OutputRule: out}
	var opts []*genall.WriteYAMLOptions
	var objs []any
	for _, o := range c.objs {
		objs = append(objs, o)
	}
	want := c.want()
	before := canonText(any(objs))
	for _, r := range c.remove {
		if r == "status" {
			opts = append(opts, genall.WithTransform(removeStatus))
		} else {
			opts = append(opts, genall.WithTransform(genall.TransformRemoveCreationTimestamp))
		}
	}
	if err := ctx.WriteYAML("f.yaml", c.header, objs, opts...); err != nil {
		return pbt.Failf("object not written", "%v", err)
	}
	if canonText(any(objs)) != before {
		return pbt.Failf("writing changed the objects", "")
	}
	b := out.Files["f.yaml"]
	if !strings.HasPrefix(string(b), c.header) {
		return pbt.Failf("header not first", "%.200q", b)
	}
	if !utf8.Valid(b) {
		return pbt.Failf("not text", "%q", b)
	}
	got, err := readYAML2(b)
	if bad := sameDocs("yaml.v2", got, err, want); bad != "" {
		return pbt.Failf("reads back differently", "%s\nin\n%s", bad, b)
	}
	got, err = readYAML3(b)
	if bad := sameDocs("yaml.v3", got, err, want); bad != "" {
		return pbt.Failf("reads back differently v3", "%s\nin\n%s", bad, b)
	}
	return pbt.OK(c.strange > 0)
}

// ---- whole artifacts

type artCase struct {
	files   ws.Files
	header  string
	hasHdr  bool
	year    string
	fields  map[string]*schemaT // expected parts of the schema of spec
	desc    string
	names   []string // resourceNames of the rules
	nss     map[string]bool
	wh      []string // names of webhooks
	paths   []string
	crdDesc string
}

func genArtCase(s *pbt.Src) any {
	c := &artCase{fields: map[string]*schemaT{}, nss: map[string]bool{}}
	y := &yamlCase{}
	var b strings.Builder
	q := func(v string) string { return strconv.Quote(v) }
	valid := func(v string) string { return strings.ToValidUTF8(v, "x") }
	raw := func(v string) apiext.JSON { j, _ := json.Marshal(v); return apiext.JSON{Raw: j} }
	var body strings.Builder
	for i := 1 + s.Small(3); i > 0; i-- {
		sc := &schemaT{}
		n := fmt.Sprintf("f%d", i)
		if s.Bool() {
			v := valid(y.str(s))
			body.WriteString("\t// +kubebuilder:default=" + q(v) + "\n")
			sc.Default = ptrTo(raw(v))
		}
		if s.Bool() {
			v := valid(y.str(s))
			body.WriteString("\t// +kubebuilder:title=" + q(v) + "\n")
			sc.Title = v
		}
		if s.Bool() {
			v := valid(y.str(s))
			body.WriteString("\t// +kubebuilder:validation:Pattern=" + q(v) + "\n")
			sc.Pattern = v
		}
		if s.Chance(30) {
			v, w := valid(y.str(s)), valid(y.str(s))+"2"
			body.WriteString("\t// +kubebuilder:validation:Enum={" + q(v) + "," + q(w) + "}\n")
			sc.Enum = []apiext.JSON{raw(v), raw(w)}
		}
		if s.Chance(30) {
			v := valid(y.str(s))
			body.WriteString("\t// +kubebuilder:example=" + q(v) + "\n")
			sc.Example = ptrTo(raw(v))
		}
		if s.Chance(30) {
			v := "self == " + q(valid(y.str(s)))
			m := valid(y.str(s))
			body.WriteString("\t// +kubebuilder:validation:XValidation:rule=" + q(v) + ",message=" + q(m) + "\n")
			sc.XValidations = apiext.ValidationRules{{Rule: v, Message: m}}
		}
		fmt.Fprintf(&body, "\tF%d string `json:\"%s\"`\n", i, n)
		c.fields[n] = sc
	}
	for n := s.Small(3); n > 0; n-- {
		v := "n" + valid(y.str(s))
		c.names = append(c.names, v)
		ns := pbt.Pick(s, "", "a", "b")
		c.nss[ns] = true
		fmt.Fprintf(&b, "// +kubebuilder:rbac:groups=g,resources=r,verbs=get,resourceNames=%s", q(v))
		if ns != "" {
			b.WriteString(",namespace=" + ns)
		}
		b.WriteString("\n")
	}
	used := map[string]bool{}
	for n := s.Small(3); n > 0; n-- {
		v := valid(y.str(s))
		p := "/" + valid(y.str(s))
		if used[v] {
			continue
		}
		used[v] = true
		c.wh = append(c.wh, v)
		c.paths = append(c.paths, p)
		fmt.Fprintf(&b, "// +kubebuilder:webhook:name=%s,path=%s,mutating=%v,failurePolicy=fail,groups=g,versions=v1,resources=r,verbs=create,sideEffects=None,admissionReviewVersions=v1\n", q(v), q(p), s.Bool())
	}
	b.WriteString("\n// +groupName=g.ex.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n")
	for n := s.Small(3); n > 0; n-- {
		l := y.str(s)
		l = strings.Map(func(r rune) rune {
			if r == 0 || r == '\n' || r == '\r' || r == 0xfeff || r == utf8.RuneError {
				return 'x'
			}
			return r
		}, l)
		l = "d" + strings.Trim(l, " \t")
		if c.crdDesc != "" {
			c.crdDesc += "\n"
		}
		c.crdDesc += l
		b.WriteString("// " + l + "\n")
	}
	if s.Bool() {
		c.desc = valid(y.str(s))
		b.WriteString("// +kubebuilder:printcolumn:name=x,type=string,JSONPath=.a,description=" + q(c.desc) + "\n")
	}
	b.WriteString("type Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n" + body.String() + "}\n")
	c.files = ws.Files{"v1/f.go": b.String()}
	if s.Chance(80) {
		c.hasHdr = true
		for n := s.Small(5); n > 0; n-- {
			c.header += pbt.Pick(s, "# Copyright YEAR The Authors.\n", "#\n", "\n", "# YEARS and YEAR\n", "#YEAR\n", "# --- x\n", "# ünï YEAR YEAR\n", "# %d\n", "#a\r\n", "# tab\tYEAR\n")
		}
		if s.Chance(20) {
			c.header += "# no newline at the end YEAR"
		}
	}
	c.year = pbt.Pick(s, "", "2024", "2020-2025", "YEAR", "$1", "20 24")
	return c
}

func (c *artCase) wantHeader() string {
	var b strings.Builder
	for i := 0; i < len(c.header); {
		if strings.HasPrefix(c.header[i:], " YEAR") {
			b.WriteString(" " + c.year)
			i += len(" YEAR")
			continue
		}
		b.WriteByte(c.header[i])
		i++
	}
	return b.String()
}

func checkArtifacts(cases []any) []pbt.Outcome {
	dir := Scratch("art")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*artCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i := range cases {
		out[i] = pbt.Guard(func() pbt.Outcome {
			c := cases[i].(*artCase)
			hdr := ""
			if c.hasHdr {
				hdr = filepath.Join(dir, fmt.Sprintf("hdr%d.txt", i))
				if err := os.WriteFile(hdr, []byte(c.header), 0o644); err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
			}
			return c.judge(l.Case(i), hdr)
		})
	}
	return out
}

func (c *artCase) judge(roots []*pkgT, hdr string) pbt.Outcome {
	type gen struct {
		name        string
		with, plain genall.Generator
		docs        int
	}
	ndoc := len(c.nss)
	kinds := map[bool]bool{}
	for _, l := range strings.Split(c.files["v1/f.go"], "\n") {
		if strings.HasPrefix(l, "// +kubebuilder:webhook:") {
			kinds[strings.Contains(l, ",mutating=true,failurePolicy=fail,groups=g,versions=v1,resources=r,verbs=create,sideEffects=None,admissionReviewVersions=v1")] = true
		}
	}
	gens := []gen{
		{"crd", crd.Generator{HeaderFile: hdr, Year: c.year}, crd.Generator{}, 1},
		{"rbac", rbac.Generator{RoleName: "r", HeaderFile: hdr, Year: c.year}, rbac.Generator{RoleName: "r"}, ndoc},
		{"webhook", webhook.Generator{HeaderFile: hdr, Year: c.year}, webhook.Generator{}, len(kinds)},
	}
	for _, g := range gens {
		with, plain := ws.Run(g.with, roots), ws.Run(g.plain, roots)
		if with.Bad() || plain.Bad() {
			return pbt.Failf("valid strings rejected", "%s: %v %v", g.name, with.Errs, plain.Errs)
		}
		if len(with.Files) != len(plain.Files) || g.docs > 0 && len(with.Files) != 1 || g.docs == 0 && len(with.Files) != 0 {
			return pbt.Failf("wrong files", "%s: %v %v", g.name, with.Opens, plain.Opens)
		}
		for name, b := range with.Files {
			p := plain.Files[name]
			if string(b) != c.wantHeader()+string(p) {
				return pbt.Failf("wrong header", "%s writes\n%s\nwant header %q before\n%s", g.name, b, c.wantHeader(), p)
			}
			docs, err := readYAML2(b)
			if err != nil {
				return pbt.Failf("not readable", "%s: %v\n%s", g.name, err, b)
			}
			if len(docs) != g.docs {
				return pbt.Failf("wrong number of documents", "%s: %d instead of %d\n%s", g.name, len(docs), g.docs, b)
			}
			for i, raw := range docs {
				m, ok := raw.(map[any]any)
				if !ok {
					return pbt.Failf("not an object", "%s: %v", g.name, raw)
				}
				if _, ok := m["status"]; ok {
					return pbt.Failf("server-set field written", "%s: status", g.name)
				}
				if md, ok := m["metadata"].(map[any]any); !ok {
					return pbt.Failf("no metadata", "%s: %v", g.name, raw)
				} else if _, ok := md["creationTimestamp"]; ok {
					return pbt.Failf("server-set field written", "%s: creationTimestamp", g.name)
				}
				doc, err := yaml2.Marshal(raw)
				if err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
				_ = i
				switch g.name {
				case "crd":
					if bad := c.judgeCRD(doc); bad != "" {
						return pbt.Failf("string changed", "%s\n%s", bad, b)
					}
				}
			}
			switch g.name {
			case "rbac":
				var got []string
				for _, raw := range docs {
					rules, _ := raw.(map[any]any)["rules"].([]any)
					for _, r := range rules {
						ns, _ := r.(map[any]any)["resourceNames"].([]any)
						for _, n := range ns {
							got = append(got, fmt.Sprint(n))
						}
					}
				}
				if g, w := fmt.Sprintf("%q", uniq(got)), fmt.Sprintf("%q", uniq(c.names)); g != w {
					return pbt.Failf("string changed", "resource names %s instead of %s", g, w)
				}
			case "webhook":
				var got, paths []string
				for _, raw := range docs {
					whs, _ := raw.(map[any]any)["webhooks"].([]any)
					for _, w := range whs {
						m := w.(map[any]any)
						got = append(got, fmt.Sprint(m["name"]))
						svc, _ := m["clientConfig"].(map[any]any)["service"].(map[any]any)
						paths = append(paths, fmt.Sprint(svc["path"]))
					}
				}
				if g, w := fmt.Sprintf("%q", uniq(got)), fmt.Sprintf("%q", uniq(c.wh)); g != w {
					return pbt.Failf("string changed", "webhook names %s instead of %s", g, w)
				}
				if g, w := fmt.Sprintf("%q", uniq(paths)), fmt.Sprintf("%q", uniq(c.paths)); g != w {
					return pbt.Failf("string changed", "webhook paths %s instead of %s", g, w)
				}
			}
		}
	}
	return pbt.OK(c.header != "" || len(c.fields) > 1)
}

func (c *artCase) judgeCRD(doc []byte) string {
	var d apiext.CustomResourceDefinition
	if err := k8syaml.Unmarshal(doc, &d); err != nil {
		return err.Error()
	}
	v := d.Spec.Versions[0]
	if c.desc != "" && v.AdditionalPrinterColumns[0].Description != c.desc {
		return fmt.Sprintf("column description %q instead of %q", v.AdditionalPrinterColumns[0].Description, c.desc)
	}
	root := v.Schema.OpenAPIV3Schema
	if root.Description != c.crdDesc {
		return fmt.Sprintf("description %q instead of %q", root.Description, c.crdDesc)
	}
	for n, w := range c.fields {
		g := root.Properties[n]
		for _, x := range []struct{ k, a, b string }{
			{"title", g.Title, w.Title}, {"pattern", g.Pattern, w.Pattern},
			{"default", canonJSON(g.Default), canonJSON(w.Default)}, {"example", canonJSON(g.Example), canonJSON(w.Example)},
			{"rules", canonText(viaJSON(g.XValidations)), canonText(viaJSON(w.XValidations))}, {"enum", canonText(viaJSON(g.Enum)), canonText(viaJSON(w.Enum))},
		} {
			if x.a != x.b {
				return fmt.Sprintf("%s of %s is %q instead of %q", x.k, n, x.a, x.b)
			}
		}
	}
	return ""
}

func viaJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	var o any
	if err := json.Unmarshal(b, &o); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return o
}

func canonJSON(j *apiext.JSON) string {
	if j == nil {
		return ""
	}
	return canonText(viaJSON(j))
}

func showYAMLCase(a any) string {
	c := a.(*yamlCase)
	b, _ := json.MarshalIndent(c.objs, "", " ")
	return fmt.Sprintf("header %q, removing %v\n%s\n", c.header, c.remove, b)
}

func oneYAML(o map[string]any) func() pbt.Outcome {
	return func() pbt.Outcome {
		o["metadata"] = map[string]any{}
		return checkYAML(&yamlCase{objs: []map[string]any{o}})
	}
}

func init() {
	register(&Prop{
		ID:          "C13",
		Rule:        "Random objects (strings that look like other YAML types, every kind of line break, control characters, long folded text, extreme numbers, nested maps and lists) are written by the YAML writer with header and transforms and read back with two YAML libraries; random packages whose markers, documentation, roles and webhooks carry such strings go through the CRD, RBAC and webhook generators with header files and years. Non-trivial: a string that is not just letters, resp. a header or several fields.",
		Assumptions: []string{"header files consist of YAML comments", "numbers are those a float64 or a 64-bit integer holds", "the map key << is a known finding"},
		Probes: []Probe{
			{"delete-character", oneYAML(map[string]any{"a": "x\x7fy"})},
			{"c1-control", oneYAML(map[string]any{"a": "x\u0080y"})},
			{"next-line", oneYAML(map[string]any{"a": "x\u0085y"})},
			{"byte-order-mark", oneYAML(map[string]any{"a": "x\ufeffy"})},
			{"non-character", oneYAML(map[string]any{"a": "x\uffffy"})},
			{"merge-key", oneYAML(map[string]any{"a": map[string]any{"<<": "x"}})},
		},
		Families: []*pbt.Family{
			{Name: "objects", Gen: genYAMLCase, Check: pbt.Each(checkYAML), Show: showYAMLCase, Batch: 500, Parallel: 8, Quick: 60000, Thorough: 4000000},
			{Name: "artifacts", Gen: genArtCase, Check: checkArtifacts, Show: func(a any) string {
				c := a.(*artCase)
				return c.files.Show() + fmt.Sprintf("header %v %q year %q\n", c.hasHdr, c.header, c.year)
			}, Batch: 100, Parallel: 4, Quick: 1500, Thorough: 50000, ShrinkBatch: 60},
		},
	})
}
