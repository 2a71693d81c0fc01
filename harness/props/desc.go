package props

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"

	"verif/pbt"
	"verif/ws"
)

// limited is the description that a limit leaves, from the documented rule.
func limited(d string, limit int) string {
	if limit < 0 {
		return d
	}
	if limit == 0 {
		return ""
	}
	if len(d) <= limit {
		return d
	}
	fit, sentence, word := 0, 0, 0 // ends of the longest whole-character prefix, of the last sentence, start of the last space
	for i := 0; i < len(d); {
		r, n := utf8.DecodeRuneInString(d[i:])
		if i+n > limit {
			break
		}
		if i > 0 && unicode.Is(unicode.STerm, r) {
			sentence = i + n
		}
		if i > 0 && unicode.Is(unicode.White_Space, r) {
			word = i
		}
		i += n
		fit = i
	}
	switch {
	case sentence > 0:
		return d[:sentence]
	case word > 0:
		return d[:word] + "..."
	}
	return d[:fit] + "..."
}

// sameLimited compares; what a limited text is followed by ("..." or nothing) is free.
func sameLimited(got, full string, limit int) bool {
	want := limited(full, limit)
	if got == want {
		return true
	}
	trim := func(s string) string { return strings.TrimSuffix(s, "...") }
	return limit > 0 && len(full) > limit && got == trim(want)
}

var descRunes = []string{"a", "B", "c", "z", "0", "_", " ", " ", " ", "\n", "\t", "\u00a0", "\u2003", "\u3000", "\u0085", ".", "!", "?", "。", "؟", "।", "…", ",", "é", "世", "界", "😀", "e\u0301", "\u200d", "\ufeff", "\U0001F1E6", "\u2029", ":", "-"}

func descString(s *pbt.Src, max int) string {
	var b strings.Builder
	mode := s.PickW(5, 2, 2, 1)
	for n := s.Small(max); n > 0; n-- {
		switch mode {
		case 0:
			b.WriteString(descRunes[s.Intn(len(descRunes))])
		case 1: // no sentence ends
			b.WriteString(pbt.Pick(s, "a", "b", "é", "世", " ", "\u3000", "😀"))
		case 2: // no spaces
			b.WriteString(pbt.Pick(s, "a", "é", "世", "😀", "x", "-"))
		default:
			b.WriteString(pbt.Pick(s, "word", "Kubernetes", " is ", " and ", ". ", "! Then", "... ", "e.g. "))
		}
	}
	return b.String()
}

// ---- limits on arbitrary schemas

type descCase struct {
	schema *schemaT
	limit  int
	n      int
}

func descSchema(s *pbt.Src, depth int, c *descCase) schemaT {
	out := schemaT{}
	if s.Chance(75) {
		out.Description = descString(s, 40)
		c.n++
	}
	if s.Chance(20) {
		out.Title = descString(s, 10)
		out.Pattern = descString(s, 20)
		out.ID = descString(s, 20)
	}
	if s.Chance(15) {
		out.ExternalDocs = &apiext.ExternalDocumentation{Description: descString(s, 40), URL: descString(s, 30)}
		out.Default = &apiext.JSON{Raw: []byte(`{"description":"a long description. it stays"}`)}
		out.Example = &apiext.JSON{Raw: []byte(`"a long description. it stays"`)}
		out.Enum = []apiext.JSON{{Raw: []byte(`"a long description. it stays"`)}}
		out.XValidations = apiext.ValidationRules{{Rule: "self.description != ''", Message: "a long description. it stays"}}
	}
	if s.Chance(20) {
		out.Type = pbt.Pick(s, "object", "string", "array")
		out.Required = []string{"description", "a"}
	}
	if s.Chance(8) {
		out.Ref = ptrTo(pbt.Pick(s, "#/definitions/A", "", "#/definitions/B"))
	}
	if depth <= 0 {
		return out
	}
	sub := func() *schemaT { x := descSchema(s, depth-1, c); return &x }
	subs := func() (o []schemaT) {
		for n := 1 + s.Small(2); n > 0; n-- {
			o = append(o, *sub())
		}
		return
	}
	m := func() map[string]schemaT {
		o := map[string]schemaT{}
		for n := s.Small(3); n > 0; n-- {
			o[pbt.Pick(s, "a", "b", "description", "d", "metadata")] = *sub()
		}
		return o
	}
	for n := s.Small(3); n > 0; n-- {
		switch s.Intn(15) {
		case 0:
			out.Properties = m()
		case 1:
			out.Items = &apiext.JSONSchemaPropsOrArray{Schema: sub()}
		case 2:
			out.Items = &apiext.JSONSchemaPropsOrArray{JSONSchemas: subs()}
		case 3:
			out.AllOf = subs()
		case 4:
			out.AnyOf = subs()
		case 5:
			out.OneOf = subs()
		case 6:
			out.Not = sub()
		case 7:
			out.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: sub()}
		case 8:
			out.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: s.Bool()}
		case 9:
			out.PatternProperties = m()
		case 10:
			out.Dependencies = apiext.JSONSchemaDependencies{"a": {Schema: sub()}, "b": {Property: []string{"x", "description. y"}}}
		case 11:
			out.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: sub()}
		case 12:
			out.Definitions = apiext.JSONSchemaDefinitions(m())
		default:
			out.Properties = m()
		}
	}
	return out
}

func genDescCase(s *pbt.Src) any {
	c := &descCase{}
	sc := descSchema(s, 3, c)
	c.schema = &sc
	switch s.PickW(3, 6, 2, 1) {
	case 0:
		c.limit = 0
	case 1:
		c.limit = 1 + s.Intn(25)
	case 2:
		c.limit = 1 + s.Intn(120)
	default:
		c.limit = -1 - s.Intn(3)
	}
	return c
}

// eachSchema visits a schema and everything in it.
func eachSchema(at string, sc *schemaT, f func(string, *schemaT)) {
	f(at, sc)
	one := func(k string, p *schemaT) {
		if p != nil {
			eachSchema(at+"/"+k, p, f)
		}
	}
	many := func(k string, xs []schemaT) {
		for i := range xs {
			eachSchema(fmt.Sprintf("%s/%s[%d]", at, k, i), &xs[i], f)
		}
	}
	named := func(k string, m map[string]schemaT) {
		var ks []string
		for n := range m {
			ks = append(ks, n)
		}
		sort.Strings(ks)
		for _, n := range ks {
			v := m[n]
			eachSchema(at+"/"+k+"."+n, &v, f)
			m[n] = v
		}
	}
	if sc.Items != nil {
		one("items", sc.Items.Schema)
		many("items", sc.Items.JSONSchemas)
	}
	many("allOf", sc.AllOf)
	many("anyOf", sc.AnyOf)
	many("oneOf", sc.OneOf)
	one("not", sc.Not)
	if sc.AdditionalProperties != nil {
		one("additionalProperties", sc.AdditionalProperties.Schema)
	}
	if sc.AdditionalItems != nil {
		one("additionalItems", sc.AdditionalItems.Schema)
	}
	named("properties", sc.Properties)
	named("patternProperties", sc.PatternProperties)
	named("definitions", sc.Definitions)
	var ks []string
	for n := range sc.Dependencies {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	for _, n := range ks {
		one("dependencies."+n, sc.Dependencies[n].Schema)
	}
}

// descsOf takes the descriptions out of a schema.
func descsOf(sc *schemaT) (*schemaT, []string, []string) {
	sc = sc.DeepCopy()
	var at, d []string
	eachSchema("", sc, func(p string, x *schemaT) {
		at = append(at, p)
		d = append(d, x.Description)
		x.Description = ""
	})
	return sc, at, d
}

// limitedSchema says what is wrong with a limited schema.
func limitedSchema(full, got *schemaT, limit int) string {
	fs, at, fd := descsOf(full)
	gs, _, gd := descsOf(got)
	if a, b := jsonOf(fs), jsonOf(gs); a != b {
		return fmt.Sprintf("limit %d changed more than descriptions: %s instead of %s", limit, b, a)
	}
	for i := range fd {
		if !sameLimited(gd[i], fd[i], limit) {
			return fmt.Sprintf("limit %d at %q: %q becomes %q, want %q", limit, at[i], fd[i], gd[i], limited(fd[i], limit))
		}
		if utf8.ValidString(fd[i]) && !utf8.ValidString(gd[i]) {
			return fmt.Sprintf("limit %d at %q: %q is not valid text", limit, at[i], gd[i])
		}
	}
	return ""
}

func checkDesc(c *descCase) pbt.Outcome {
	full := c.schema.DeepCopy()
	crd.TruncateDescription(c.schema, c.limit)
	if bad := limitedSchema(full, c.schema, c.limit); bad != "" {
		return pbt.Failf("wrong limited description", "%s", bad)
	}
	again := c.schema.DeepCopy()
	_, _, fd := descsOf(full)
	cut := 0
	for _, d := range fd {
		if len(d) > c.limit {
			cut++
		}
	}
	_ = again
	return pbt.OK(cut > 0)
}

// ---- documentation of programs

type docNode struct {
	any   bool // the description is not decided
	desc  string
	props map[string]*docNode
	elem  *docNode
}

type docType struct {
	name   string
	pkg    string // "v1" or "deps"
	doc    string
	blank  bool
	kind   string // struct string list map ref
	under  *docType
	fields []*docField
	known  string
}

type docField struct {
	name  string // JSON name, "" for embedded
	doc   string
	blank bool
	shape string // "", "[]", "map", "*"
	typ   *docType
}

func (t *docType) node() *docNode {
	n := &docNode{desc: t.doc, any: t.blank}
	switch t.kind {
	case "struct":
		n.props = map[string]*docNode{}
		t.addProps(n.props)
	case "list", "map":
		n.elem = t.under.node()
	case "ref":
		u := t.under.node()
		n.props, n.elem = u.props, u.elem
		if n.desc == "" {
			n.desc, n.any = u.desc, n.any || u.any
		}
	}
	return n
}

func (t *docType) addProps(m map[string]*docNode) {
	for t.kind == "ref" {
		t = t.under
	}
	for _, f := range t.fields {
		if f.name == "" {
			f.typ.addProps(m)
			continue
		}
		var n *docNode
		switch f.shape {
		case "[]", "map":
			n = &docNode{elem: f.typ.node()}
		default:
			n = f.typ.node()
		}
		if f.doc != "" {
			n.desc, n.any = f.doc, false
		} else if f.blank {
			n.any = true
		}
		m[f.name] = n
	}
}

type docCase struct {
	files  ws.Files
	want   *docNode
	limits []int
	ndocs  int

	versions int
}

type docGen struct {
	s     *pbt.Src
	c     *docCase
	ids   int
	blank bool
}

var docLines = []string{
	"Foo is a thing.", "It does. This and that! Does it?", "plain text", "TODO: later", "TODOs are", "todo lower", "see TODO", "--- hidden", "---", "-- shown", "```yaml", "```", "~~~", "~~~", "", "", "  indented code", "\ttabbed", "a: b", "key: [x, y]", "'quoted' \"double\"", "Ünïcode 世界。次の文", "한국어 문장", "# heading", "* item", "- item", "nolint:all", "http://example.com/a?b=c#d", "ends with space  ", "1 + plus later", "trailing\\", "null", "true", "1e3", "{{ .Template }}", "%d %s", "<html>&amp;", "|", "> quoted", "emoji 😀 done", "No end at all but rather long text that goes on and on",
}

// docFor makes a documentation comment: its source and its text.
func (g *docGen) docFor(pre string) (src, text string) {
	s := g.s
	g.blank = false
	if s.Chance(20) {
		return "", ""
	}
	g.ids++
	var lines []string // as Go reads the comments of the group, before trimming
	var b strings.Builder
	block := false
	one := func(lineComment bool) {
		t := docLines[s.Intn(len(docLines))]
		if s.Chance(10) {
			t = fmt.Sprintf("Text %d. More.", g.ids)
		}
		if lineComment {
			switch s.PickW(10, 1, 2) {
			case 0:
				b.WriteString(pre + "// " + t + "\n")
				lines = append(lines, t)
			case 1: // directives are no documentation
				b.WriteString(pre + "//nolint:lll\n")
			default:
				t = strings.TrimLeft(t, " \t")
				if strings.HasPrefix(t, "+") || strings.HasPrefix(t, "nolint") || strings.HasPrefix(t, "http") {
					t = "x" + t[1:] + " "
				}
				b.WriteString(pre + "//" + t + "\n")
				if strings.Contains(t, ":") && directive(t) {
					return
				}
				lines = append(lines, t)
			}
			return
		}
		block = true
		var ls []string
		for n := 1 + s.Small(3); n > 0; n-- {
			l := docLines[s.Intn(len(docLines))]
			ls = append(ls, l)
		}
		sep := pbt.Pick(s, "\n", "\n"+pre, "\n"+pre+"  ")
		body := strings.Join(ls, sep)
		lead := pbt.Pick(s, " ", "", "\n", "\n"+pre)
		body = lead + body + pbt.Pick(s, " ", "\n", "\n"+pre)
		b.WriteString(pre + "/*" + body + "*/\n")
		lines = append(lines, strings.Split(body, "\n")...)
	}
	mode := s.PickW(8, 2, 1)
	for n := 1 + s.Small(5); n > 0; n-- {
		if s.Chance(15) { // a marker: not documentation
			b.WriteString(pre + "//" + pbt.Pick(s, " ", "", "\t") + pbt.Pick(s, "+optional", "+kubebuilder:foo:bar=1", "+k8s:nothing", "+kubebuilder:validation:foo") + "\n")
			continue
		}
		one(mode == 0 || mode == 2 && s.Bool())
	}
	// Go's rules for comment text
	var sq []string
	for _, l := range lines {
		l = strings.TrimRight(l, " \t\r")
		if l == "" && (len(sq) == 0 || sq[len(sq)-1] == "") {
			continue
		}
		sq = append(sq, l)
	}
	// the documented rules: markers, TODO lines and what follows --- are left out, except in code
	var out []string
	code := false
	for _, l := range sq {
		if block {
			l = strings.TrimSpace(l)
		}
		if strings.HasPrefix(l, "```") || strings.HasPrefix(l, "~~~") {
			code = !code
		}
		if !code && strings.HasPrefix(l, "TODO") {
			continue
		}
		if !code && strings.HasPrefix(l, "---") {
			break
		}
		out = append(out, l)
	}
	text = strings.Join(out, "\n")
	if strings.Trim(text, "\n") == "" && text != "" {
		text = "" // only blank lines are left: whether that counts as documentation is not said
		g.blank = true
	} else {
		g.blank = false
		text = strings.TrimRight(text, "\n")
	}
	if text != "" {
		g.c.ndocs++
	}
	return b.String(), text
}

// directive reports whether Go takes the text right after // as a directive.
func directive(t string) bool {
	for _, p := range []string{"line ", "extern ", "export "} {
		if strings.HasPrefix(t, p) {
			return true
		}
	}
	i := strings.Index(t, ":")
	if i <= 0 || i+1 >= len(t) {
		return false
	}
	for j := 0; j <= i+1; j++ {
		if j == i {
			continue
		}
		if b := t[j]; !('a' <= b && b <= 'z' || '0' <= b && b <= '9') {
			return false
		}
	}
	return true
}

var docKnown = []struct{ expr, imp string }{
	{"metav1.Time", "metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\""},
	{"metav1.Duration", "metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\""},
	{"intstr.IntOrString", "\"k8s.io/apimachinery/pkg/util/intstr\""},
	{"resource.Quantity", "\"k8s.io/apimachinery/pkg/api/resource\""},
	{"string", ""}, {"int32", ""}, {"bool", ""}, {"[]byte", ""},
}

func genDocCase(s *pbt.Src) any {
	c := &docCase{files: ws.Files{}}
	g := &docGen{s: s, c: c}
	type file struct {
		b    strings.Builder
		imps map[string]bool
	}
	fs := map[string]*file{"v1": {imps: map[string]bool{}}, "deps": {imps: map[string]bool{}}}
	var pool []*docType
	expr := func(t *docType, in string) string {
		if t.known != "" {
			for _, k := range docKnown {
				if k.expr == t.known && k.imp != "" {
					fs[in].imps[k.imp] = true
				}
			}
			return t.known
		}
		if t.pkg != in {
			fs[in].imps["\"CASE/"+t.pkg+"\""] = true
			return t.pkg + "." + t.name
		}
		return t.name
	}
	pickType := func(in string) *docType {
		var ok []*docType
		for _, t := range pool {
			if in == "v1" || t.pkg == "deps" {
				ok = append(ok, t)
			}
		}
		if len(ok) == 0 || s.Chance(35) {
			return &docType{known: docKnown[s.Intn(len(docKnown))].expr}
		}
		return ok[s.Intn(len(ok))]
	}
	more := 0 // versions with the same types
	if s.Chance(25) {
		more = s.Range(1, 5)
	}
	ntypes := 1 + s.Small(6)
	for i := 0; i <= ntypes+1; i++ {
		root := i == ntypes+1
		t := &docType{name: fmt.Sprintf("T%d", i), pkg: pbt.Pick(s, "v1", "v1", "deps")}
		t.kind = []string{"struct", "string", "list", "map", "ref"}[s.PickW(6, 2, 1, 1, 1)]
		if root || i == ntypes {
			t.kind, t.pkg = "struct", "v1"
		}
		if root {
			t.name = "Root"
		}
		f := fs[t.pkg]
		group := s.Chance(15)
		src, text := g.docFor(map[bool]string{true: "\t", false: ""}[group])
		t.doc, t.blank = text, g.blank
		if root {
			ind := map[bool]string{true: "\t", false: ""}[group]
			src += ind + "// +kubebuilder:printcolumn:name=x,type=string,JSONPath=.a,description=\"a long description. it stays\"\n"
			if more > 0 {
				src += ind + "// +kubebuilder:storageversion\n"
			}
		}
		open, end := "type ", ""
		if group {
			f.b.WriteString("// Not documentation of one type.\ntype (\n")
			open, end = "\t", "\n)\n"
		}
		f.b.WriteString(src + open + t.name + " ")
		switch t.kind {
		case "string":
			f.b.WriteString("string" + pbt.Pick(s, "", " // trailing"))
		case "list", "map", "ref":
			t.under = pickType(t.pkg)
			if t.kind == "ref" && t.under.known != "" {
				t.kind = "string"
				f.b.WriteString("string")
				break
			}
			f.b.WriteString(map[string]string{"list": "[]", "map": "map[string]", "ref": ""}[t.kind] + expr(t.under, t.pkg))
		case "struct":
			f.b.WriteString("struct {\n")
			if root {
				f.imps[docKnown[0].imp] = true
				f.b.WriteString("\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n")
			}
			nf := s.Small(5)
			if root {
				nf++
			}
			for j := 0; j < nf; j++ {
				src, text := g.docFor("\t")
				ft := pickType(t.pkg)
				fd := &docField{name: fmt.Sprintf("f%d_%d", i, j), doc: text, blank: g.blank, typ: ft}
				fd.shape = []string{"", "[]", "map", "*"}[s.PickW(6, 2, 2, 2)]
				if root && j == nf-1 {
					fd.typ, fd.shape = pool[len(pool)-1], ""
				}
				base := fd.typ
				for base.kind == "ref" {
					base = base.under
				}
				f.b.WriteString(src)
				if base.kind == "struct" && fd.shape != "[]" && fd.shape != "map" && s.Chance(20) && !overlaps(t, fd.typ) {
					fd.name = ""
					f.b.WriteString("\t" + map[string]string{"*": "*", "": ""}[fd.shape] + expr(fd.typ, t.pkg) + " `json:\",inline\"`")
				} else {
					extra := ""
					if s.Chance(6) && fd.typ.known == "string" && fd.shape == "" {
						extra = "\t// +kubebuilder:default=\"a long description. it stays\"\n"
						f.b.WriteString(extra)
					}
					f.b.WriteString(fmt.Sprintf("\tF%d_%d %s%s `json:\"%s%s\"`", i, j, map[string]string{"": "", "[]": "[]", "map": "map[string]", "*": "*"}[fd.shape], expr(fd.typ, t.pkg), fd.name, pbt.Pick(s, "", ",omitempty")))
				}
				f.b.WriteString(pbt.Pick(s, "\n", "\n", " // trailing text.\n", "\n\n"))
				t.fields = append(t.fields, fd)
			}
			f.b.WriteString("}")
		}
		f.b.WriteString(end + "\n\n")
		if !root {
			pool = append(pool, t)
			continue
		}
		c.want = t.node()
	}
	for _, p := range []string{"v1", "deps"} {
		f := fs[p]
		var imps []string
		for i := range f.imps {
			imps = append(imps, i)
		}
		sort.Strings(imps)
		var b strings.Builder
		if p == "v1" {
			b.WriteString("// +groupName=g.ex.test\n")
		}
		b.WriteString("package " + p + "\n\n")
		for _, i := range imps {
			b.WriteString("import " + i + "\n")
		}
		text := b.String() + "\n" + f.b.String()
		if s.Chance(5) {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		c.files[p+"/f.go"] = text
		for v := range more {
			if p == "v1" {
				v := fmt.Sprint("v", v+2)
				text := strings.Replace(strings.Replace(text, "package v1", "package "+v, 1), "// +kubebuilder:storageversion", "// +kubebuilder:unservedversion", 1)
				c.files[v+"/f.go"] = text
			}
		}
	}
	c.versions = 1 + more
	c.limits = []int{0, 1 + s.Intn(12), 1 + s.Intn(80), -1}
	return c
}

func overlaps(t, u *docType) bool {
	a, b := map[string]*docNode{}, map[string]*docNode{}
	t.addProps(a)
	u.addProps(b)
	for k := range b {
		if a[k] != nil {
			return true
		}
	}
	// the same Go name twice
	for _, f := range t.fields {
		if f.name == "" && f.typ.name == u.name {
			return true
		}
	}
	return false
}

func diffDocs(at string, got *schemaT, want *docNode) string {
	if g := strings.TrimRight(got.Description, "\n"); g != want.desc && !want.any {
		return fmt.Sprintf("description of %s is %q, want %q", at, got.Description, want.desc)
	}
	var ks []string
	for k := range want.props {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p, ok := got.Properties[k]
		if !ok {
			return at + " lacks property " + k
		}
		if d := diffDocs(at+"."+k, &p, want.props[k]); d != "" {
			return d
		}
	}
	if want.elem != nil {
		switch {
		case got.Items != nil && got.Items.Schema != nil:
			return diffDocs(at+"[]", got.Items.Schema, want.elem)
		case got.AdditionalProperties != nil && got.AdditionalProperties.Schema != nil:
			return diffDocs(at+"{}", got.AdditionalProperties.Schema, want.elem)
		default:
			return at + " has no elements"
		}
	}
	return ""
}

func checkDocs(cases []any) []pbt.Outcome {
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*docCase).files)
	}
	return runCRDs(files, func(i int) crd.Generator { return crd.Generator{} }, func(i int, r ws.Result, l *ws.Loaded) pbt.Outcome {
		c := cases[i].(*docCase)
		if r.Bad() {
			return pbt.Failf("valid package rejected", "%v", r.Errs)
		}
		full, bad := oneCRD(r)
		if bad != "" {
			return pbt.Failf("no manifest", "%s", bad)
		}
		if len(full.Spec.Versions) != c.versions {
			return pbt.Failf("versions missing", "%d instead of %d", len(full.Spec.Versions), c.versions)
		}
		for _, v := range full.Spec.Versions {
			if v.Schema == nil {
				return pbt.Failf("no schema", "")
			}
			if d := diffDocs("Root", v.Schema.OpenAPIV3Schema, c.want); d != "" {
				return pbt.Failf("wrong description", "%s %s", v.Name, d)
			}
		}
		for _, lim := range c.limits {
			r2 := ws.Run(crd.Generator{MaxDescLen: ptrTo(lim)}, l.Case(i))
			if r2.Bad() {
				return pbt.Failf("limit makes the run fail", "%v", r2.Errs)
			}
			lc, bad := oneCRD(r2)
			if bad != "" {
				return pbt.Failf("no manifest", "%s", bad)
			}
			if len(lc.Spec.Versions) != c.versions {
				return pbt.Failf("limit loses versions", "%d instead of %d", len(lc.Spec.Versions), c.versions)
			}
			a, b := full.DeepCopy(), lc.DeepCopy()
			for k := range a.Spec.Versions {
				v, w := &a.Spec.Versions[k], &b.Spec.Versions[k]
				if d := limitedSchema(v.Schema.OpenAPIV3Schema, w.Schema.OpenAPIV3Schema, lim); d != "" {
					return pbt.Failf("wrong limited description", "%s %s", v.Name, d)
				}
				v.Schema, w.Schema = nil, nil
			}
			if x, y := jsonOf(a), jsonOf(b); x != y {
				return pbt.Failf("limit changes more than descriptions", "%s\n%s", x, y)
			}
		}
		return pbt.OK(c.ndocs >= 2)
	})
}

func init() {
	register(&Prop{
		ID:          "C20",
		Rule:        "Descriptions in random schemas (every position of a sub-schema, any Unicode) are limited and compared with a rune-wise reference model, everything else unchanged; random packages with line, block and mixed comments, markers, TODO lines, code blocks and --- sections are generated with and without limits and every description in the CRD compared with the documentation written. Non-trivial: at least one description was longer than the limit, resp. at least two documented fields or types.",
		Assumptions: []string{"limits count bytes", "a cut text may be followed by an ellipsis, which does not count", "trailing blank lines of a documentation text are not significant"},
		Families: []*pbt.Family{
			{Name: "limits", Gen: genDescCase, Check: pbt.Each(checkDesc), Show: func(a any) string {
				c := a.(*descCase)
				y, _ := yaml.Marshal(c.schema)
				return fmt.Sprintf("limit %d\n%s", c.limit, y)
			}, Batch: 500, Parallel: 8, Quick: 80000, Thorough: 4000000},
			{Name: "documentation", Gen: genDocCase, Check: checkDocs, Show: func(a any) string {
				c := a.(*docCase)
				return c.files.Show() + fmt.Sprintf("limits %v\n", c.limits)
			}, Batch: 150, Parallel: 4, Quick: 1800, Thorough: 60000, ShrinkBatch: 100},
		},
	})
}
