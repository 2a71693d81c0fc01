package props

import (
	"fmt"
	"sort"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"verif/pbt"
	"verif/ws"
)

// A model of Go API packages, rendered to source, with the schema structure
// the documentation promises for it.

type apiPkg struct {
	dir, name string
	optional  bool // optional by default
	decls     []*apiDecl
	extra     []string // package-level comment lines
}

type apiType struct {
	kind  string // builtin name, bytes, slice, array, map, ptr, decl, known, raw
	elem  *apiType
	key   *apiType
	n     int
	decl  *apiDecl
	known string
	raw   string
}

type apiField struct {
	goName     string // "" for embedded
	tag        string // whole tag text, "" for none
	typ        *apiType
	doc        []string // comment lines without "//"
	json       string   // property name
	inline     bool
	skipped    bool // not in the output
	required   bool
	quoted     bool // ,string
	schemaless bool
}

type apiDecl struct {
	pkg       *apiPkg
	name      string
	fields    []*apiField // struct
	under     *apiType    // otherwise
	alias     bool
	text      bool   // implements encoding.TextMarshaler
	jsonAs    string // implements json.Marshaler, with this +kubebuilder:validation:Type
	doc       []string
	valueRecv bool // MarshalJSON has a value receiver
}

func (d *apiDecl) isStruct() bool { return d.under == nil }

func (d *apiDecl) hasMethods() bool {
	if d.text || d.jsonAs != "" {
		return true
	}
	if d.alias {
		return d.under.hasMethods()
	}
	return false
}

func (t *apiType) hasMethods() bool {
	switch t.kind {
	case "decl":
		return t.decl.hasMethods()
	case "known":
		return true
	}
	return false
}

// what the package docs say about well-known types (structure only)
type knownType struct {
	imp, alias, name string
	schema           schemaT
}

func ptrTo[T any](v T) *T { return &v }

func strSchema(format string) schemaT { return schemaT{Type: "string", Format: format} }

var knownTypes = map[string]knownType{
	"Time":         {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "Time", strSchema("date-time")},
	"MicroTime":    {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "MicroTime", strSchema("date-time")},
	"Duration":     {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "Duration", strSchema("")},
	"Quantity":     {"k8s.io/apimachinery/pkg/api/resource", "resource", "Quantity", schemaT{XIntOrString: true, AnyOf: []schemaT{{Type: "integer"}, {Type: "string"}}}},
	"IntOrString":  {"k8s.io/apimachinery/pkg/util/intstr", "intstr", "IntOrString", schemaT{XIntOrString: true, AnyOf: []schemaT{{Type: "integer"}, {Type: "string"}}}},
	"RawExtension": {"k8s.io/apimachinery/pkg/runtime", "runtime", "RawExtension", schemaT{Type: "object", XPreserveUnknownFields: ptrTo(true)}},
	"JSON":         {"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1", "apiextv1", "JSON", schemaT{XPreserveUnknownFields: ptrTo(true)}},
	"LabelSelector": {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "LabelSelector", schemaT{Type: "object", Properties: map[string]schemaT{
		"matchLabels": mapOf(strSchema("")),
		"matchExpressions": listOf(schemaT{Type: "object", Required: []string{"key", "operator"}, Properties: map[string]schemaT{
			"key": strSchema(""), "operator": strSchema(""), "values": listOf(strSchema(""))}}),
	}}},
	"Condition": {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "Condition", schemaT{Type: "object", Required: []string{"lastTransitionTime", "message", "reason", "status", "type"}, Properties: map[string]schemaT{
		"type": strSchema(""), "status": strSchema(""), "observedGeneration": {Type: "integer", Format: "int64"}, "lastTransitionTime": strSchema("date-time"), "reason": strSchema(""), "message": strSchema("")}}},
	"GroupVersionKind": {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "GroupVersionKind", schemaT{Type: "object", Required: []string{"group", "kind", "version"}, Properties: map[string]schemaT{
		"group": strSchema(""), "version": strSchema(""), "kind": strSchema("")}}},
	"ConditionStatus": {"k8s.io/apimachinery/pkg/apis/meta/v1", "metav1", "ConditionStatus", strSchema("")},
}

func mapOf(v schemaT) schemaT {
	return schemaT{Type: "object", AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: &v}}
}
func listOf(v schemaT) schemaT {
	return schemaT{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: &v}}
}

var knownNames = []string{"Time", "Duration", "Quantity", "IntOrString", "RawExtension", "JSON", "LabelSelector", "Condition", "GroupVersionKind", "MicroTime", "ConditionStatus"}

// builtin kinds with the JSON type and format of their encoding
var builtinSchema = map[string]schemaT{
	"string": strSchema(""), "bool": {Type: "boolean"},
	"int": {Type: "integer"}, "int8": {Type: "integer"}, "int16": {Type: "integer"}, "int32": {Type: "integer", Format: "int32"}, "int64": {Type: "integer", Format: "int64"},
	"uint": {Type: "integer"}, "uint8": {Type: "integer"}, "uint16": {Type: "integer"}, "uint32": {Type: "integer", Format: "int32"}, "uint64": {Type: "integer", Format: "int64"},
	"byte": {Type: "integer"}, "rune": {Type: "integer", Format: "int32"},
	"float32": {Type: "number"}, "float64": {Type: "number"},
}
var builtinNames = []string{"string", "int32", "bool", "int64", "int", "uint8", "int8", "int16", "uint", "uint16", "uint32", "uint64", "byte", "rune"}

// expect is the structure of the schema of a type.
func (t *apiType) expect() schemaT {
	switch t.kind {
	case "slice":
		if t.elem.isByte() {
			return strSchema("byte")
		}
		return listOf(t.elem.expect())
	case "array":
		return listOf(t.elem.expect())
	case "map":
		return mapOf(t.elem.expect())
	case "ptr":
		return t.elem.expect()
	case "known":
		k := knownTypes[t.known].schema
		return *k.DeepCopy()
	case "decl":
		return t.decl.expect()
	}
	return builtinSchema[t.kind]
}

// isByte says whether slices of the type are encoded as base64.
func (t *apiType) isByte() bool {
	switch t.kind {
	case "byte", "uint8":
		return true
	case "decl":
		return !t.decl.hasMethods() && t.decl.under != nil && t.decl.under.isByte()
	}
	return false
}

// quotable: the types for which encoding/json respects ",string".
func (t *apiType) quotable() bool {
	switch t.kind {
	case "decl":
		return !t.decl.hasMethods() && t.decl.under != nil && t.decl.under.quotable()
	case "known":
		return t.known == "ConditionStatus"
	}
	_, ok := builtinSchema[t.kind]
	return ok
}

func (d *apiDecl) expect() schemaT {
	switch {
	case d.text:
		return strSchema("")
	case d.jsonAs != "":
		return schemaT{Type: d.jsonAs}
	case !d.isStruct():
		return d.under.expect()
	}
	out := schemaT{Type: "object", Properties: map[string]schemaT{}}
	req := map[string]bool{}
	for _, f := range d.fields {
		switch {
		case f.skipped:
		case f.inline:
			in := f.typ.expect()
			for k, v := range in.Properties {
				out.Properties[k] = v
			}
			for _, r := range in.Required {
				req[r] = true
			}
		default:
			out.Properties[f.json] = f.typ.expect()
			if f.quoted {
				out.Properties[f.json] = strSchema("")
			}
			if f.required {
				req[f.json] = true
			}
		}
	}
	for r := range req {
		out.Required = append(out.Required, r)
	}
	sort.Strings(out.Required)
	return out
}

// rendering

type goFile struct {
	pkg     *apiPkg
	imports map[string]string // path -> local name ("." for dot)
	style   map[string]string
	b       strings.Builder
}

func (g *goFile) use(path, name string) string {
	local := name
	if st, ok := g.style[path]; ok {
		local = st
	}
	g.imports[path] = local
	if local == "." {
		return ""
	}
	return local + "."
}

func (g *goFile) expr(t *apiType) string {
	switch t.kind {
	case "slice":
		return "[]" + g.expr(t.elem)
	case "array":
		return fmt.Sprintf("[%d]%s", t.n, g.expr(t.elem))
	case "map":
		return "map[" + g.expr(t.key) + "]" + g.expr(t.elem)
	case "ptr":
		return "*" + g.expr(t.elem)
	case "known":
		k := knownTypes[t.known]
		return g.use(k.imp, k.alias) + k.name
	case "decl":
		if t.decl.pkg == g.pkg {
			return t.decl.name
		}
		return g.use("CASE/"+t.decl.pkg.dir, t.decl.pkg.name) + t.decl.name
	case "raw":
		return t.raw
	}
	return t.kind
}

func writeDoc(b *strings.Builder, pre string, doc []string) {
	for _, l := range doc {
		if l == "" {
			b.WriteString(pre + "//\n")
			continue
		}
		b.WriteString(pre + "// " + l + "\n")
	}
}

func (g *goFile) decl(d *apiDecl) {
	b := &g.b
	writeDoc(b, "", d.doc)
	if d.jsonAs != "" {
		b.WriteString("// +kubebuilder:validation:Type=" + d.jsonAs + "\n")
	}
	eq := ""
	if d.alias {
		eq = "= "
	}
	if !d.isStruct() {
		fmt.Fprintf(b, "type %s %s%s\n\n", d.name, eq, g.expr(d.under))
	} else {
		fmt.Fprintf(b, "type %s struct {\n", d.name)
		for _, f := range d.fields {
			writeDoc(b, "\t", f.doc)
			b.WriteString("\t")
			if f.goName != "" {
				b.WriteString(f.goName + " ")
			}
			b.WriteString(g.expr(f.typ))
			if f.tag != "" {
				b.WriteString(" `" + f.tag + "`")
			}
			b.WriteString("\n")
		}
		b.WriteString("}\n\n")
	}
	if d.text {
		fmt.Fprintf(b, "func (x %s) MarshalText() ([]byte, error) { return []byte(\"txt\"), nil }\n\nfunc (x *%s) UnmarshalText(b []byte) error { return nil }\n\n", d.name, d.name)
	}
	if d.jsonAs != "" {
		lit := map[string]string{"string": `"js"`, "integer": "7", "boolean": "true"}[d.jsonAs]
		recv := "x *" + d.name
		if d.valueRecv {
			recv = "x " + d.name
		}
		fmt.Fprintf(b, "func (%s) MarshalJSON() ([]byte, error) { return []byte(%q), nil }\n\nfunc (x *%s) UnmarshalJSON(b []byte) error { if string(b) != %q { return &json.UnmarshalTypeError{Value: string(b), Type: reflect.TypeOf(b)} }; return nil }\n\n", recv, lit, d.name, lit)
		g.imports["encoding/json"] = "json"
		g.imports["reflect"] = "reflect"
	}
}

func (g *goFile) render(head string) string {
	var b strings.Builder
	b.WriteString(head)
	fmt.Fprintf(&b, "package %s\n\n", g.pkg.name)
	var paths []string
	for p := range g.imports {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fmt.Fprintf(&b, "import %s %q\n", g.imports[p], p)
	}
	b.WriteString("\n" + g.b.String())
	return b.String()
}

// renderPkg splits the declarations over files. CASE/ in import paths stands
// for the import path of the case.
func renderPkg(s *pbt.Src, p *apiPkg, others []*apiPkg, files ws.Files) {
	nf := 1 + s.Small(1)
	style := map[string]string{}
	for i, o := range others {
		switch s.PickW(6, 3, 3) {
		case 1:
			style["CASE/"+o.dir] = fmt.Sprintf("imp%d", i)
		case 2:
			style["CASE/"+o.dir] = "."
		}
	}
	if s.Chance(15) {
		style["k8s.io/apimachinery/pkg/apis/meta/v1"] = "m"
	}
	var gfs []*goFile
	for i := 0; i < nf; i++ {
		gfs = append(gfs, &goFile{pkg: p, imports: map[string]string{}, style: style})
	}
	for _, d := range p.decls {
		gfs[s.Intn(nf)].decl(d)
	}
	for i, g := range gfs {
		head := ""
		if i == 0 {
			for _, l := range p.extra {
				head += "// " + l + "\n"
			}
			if p.optional {
				head += "// +kubebuilder:validation:Optional\n"
			}
		}
		name := fmt.Sprintf("f%d.go", i)
		if p.dir != "" {
			name = p.dir + "/" + name
		}
		files[name] = g.render(head)
	}
}

// generation

type apiOpts struct {
	embeddedMeta bool // metadata within specs has a schema
	floats       bool // allowDangerousTypes
	unexported   bool // unexported fields are skipped
	encodable    bool // Go encodes every value as the schema says: no omitted required fields, no marshaler with a pointer receiver
}

type apiGen struct {
	s        *pbt.Src
	o        apiOpts
	pkgs     []*apiPkg
	decls    []*apiDecl // in dependency order: later ones first
	n        int
	dash     bool
	keywords map[string]bool
	feat     map[string]bool
}

func (g *apiGen) label(l string) {
	g.feat[l] = true
	g.s.Label(l)
}

func (g *apiGen) usable(pkg *apiPkg, ok func(*apiDecl) bool) []*apiDecl {
	var out []*apiDecl
	for _, d := range g.decls {
		if ok == nil || ok(d) {
			out = append(out, d)
		}
	}
	return out
}

func (g *apiGen) builtin() *apiType {
	if g.o.floats && g.s.Chance(12) {
		return &apiType{kind: pbt.Pick(g.s, "float64", "float32")}
	}
	return &apiType{kind: builtinNames[g.s.PickW(8, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1)]}
}

// typ makes a type usable for a field. mapValue restricts to what maps may hold.
func (g *apiGen) typ(depth int) *apiType {
	s := g.s
	if depth <= 0 {
		return g.builtin()
	}
	switch s.PickW(5, 6, 3, 2, 3, 3, 1) {
	case 1:
		if ds := g.usable(nil, nil); len(ds) > 0 {
			g.label("named")
			return &apiType{kind: "decl", decl: ds[s.Intn(len(ds))]}
		}
	case 2:
		return &apiType{kind: "slice", elem: g.typ(depth - 1)}
	case 3:
		return &apiType{kind: "map", key: g.mapKey(), elem: g.typ(depth - 1)}
	case 4:
		t := g.typ(depth - 1)
		if t.kind != "ptr" {
			t = &apiType{kind: "ptr", elem: t}
		}
		return t
	case 5:
		g.label("known")
		return &apiType{kind: "known", known: knownNames[s.Intn(len(knownNames))]}
	case 6:
		return &apiType{kind: "array", n: s.Range(1, 3), elem: g.typ(depth - 1)}
	}
	return g.builtin()
}

func (d *apiDecl) stringLike() bool {
	if d.under == nil || d.hasMethods() {
		return false
	}
	return d.under.kind == "string" || d.under.kind == "decl" && d.under.decl.stringLike()
}

func (g *apiGen) mapKey() *apiType {
	if ds := g.usable(nil, (*apiDecl).stringLike); len(ds) > 0 && g.s.Chance(40) {
		g.label("named map key")
		return &apiType{kind: "decl", decl: ds[g.s.Intn(len(ds))]}
	}
	return &apiType{kind: "string"}
}

func (g *apiGen) jsonName() string {
	g.n++
	switch g.s.PickW(8, 1, 1, 1, 1, 1, 1) {
	case 6: // called like a keyword of schemas
		for range 3 {
			n := pbt.Pick(g.s, "description", "type", "items", "properties", "additionalProperties", "required", "metadata", "kind", "status", "allOf", "default", "enum", "nullable", "true", "null", "on", "title")
			if !g.keywords[n] {
				if g.keywords == nil {
					g.keywords = map[string]bool{}
				}
				g.keywords[n] = true
				return n
			}
		}
	case 1:
		return fmt.Sprintf("F-%d", g.n)
	case 2:
		return fmt.Sprintf("$f.%d", g.n)
	case 3:
		return fmt.Sprintf("f %d", g.n)
	case 4:
		return fmt.Sprintf("ü_%d", g.n)
	case 5:
		return fmt.Sprint(g.n)
	}
	return fmt.Sprintf("f%d", g.n)
}

func (g *apiGen) field(pkg *apiPkg) *apiField {
	s := g.s
	g.n++
	f := &apiField{goName: fmt.Sprintf("F%d", g.n)}
	kind := s.PickW(12, 3, 1, 2, 1, 1)
	switch kind {
	case 1: // inlined embedded struct
		if ds := g.usable(pkg, func(d *apiDecl) bool { return g.inlinable(d) }); len(ds) > 0 {
			d := ds[s.Intn(len(ds))]
			f.goName = ""
			f.inline = true
			f.typ = &apiType{kind: "decl", decl: d}
			if s.Chance(30) && !d.aliasChain() {
				f.typ = &apiType{kind: "ptr", elem: f.typ}
			}
			f.tag = pbt.Pick(s, `json:",inline"`, `json:","`, `json:""`, `json:",omitempty"`)
			g.label("inline")
			if s.Chance(15) {
				f.doc = []string{pbt.Pick(s, "+required", "+optional", "+kubebuilder:validation:Required", "+kubebuilder:validation:Optional", "words")}
			}
			return f
		}
	case 2: // embedded, but named by its tag
		if ds := g.usable(pkg, func(d *apiDecl) bool { return !d.hasMethods() && d.isStruct() }); len(ds) > 0 {
			f.goName = ""
			f.typ = &apiType{kind: "decl", decl: ds[s.Intn(len(ds))]}
			g.label("named embedded")
		}
	case 3: // skipped
		f.typ = g.typ(2)
		f.tag = `json:"-"`
		f.skipped = true
		g.label("skipped")
		return f
	case 4: // unexported
		if g.o.unexported {
			f.goName = fmt.Sprintf("u%d", g.n)
			f.typ = g.typ(1)
			f.skipped = true
			f.tag = pbt.Pick(s, "", `json:"u"`, `json:",omitempty"`)
			g.label("unexported")
			return f
		}
	}
	if f.typ == nil {
		f.typ = g.typ(3)
	}
	f.json = g.jsonName()
	tagName := f.json
	comma := ""
	if kind == 5 && !g.dash {
		g.dash = true
		f.json, tagName, comma = "-", "-", ","
		g.label("dash")
	}
	if kind != 5 && f.goName != "" && s.Chance(6) { // named after the field
		f.json, tagName, comma = f.goName, "", ","
		g.label("named by field")
	}
	omit := false
	switch s.PickW(5, 5, 1) {
	case 1:
		omit = true
		comma = ",omitempty"
	case 2:
		omit = true
		comma = pbt.Pick(s, ",omitzero", ",omitempty,omitzero")
		g.label("omitzero")
	}
	if s.Chance(5) {
		comma += ",string"
		g.label("string option")
		t := f.typ
		if t.kind == "ptr" {
			t = t.elem
		}
		f.quoted = f.goName != "" && t.quotable()
		if t.kind == "float64" || t.kind == "float32" {
			g.label("quoted float")
		}
	}
	f.required = !omit && !pkg.optional
	switch s.PickW(12, 1, 1, 1, 1, 1) {
	case 1:
		f.doc, f.required = []string{"+optional"}, false
	case 2:
		f.doc, f.required = []string{"+kubebuilder:validation:Optional"}, false
	case 3:
		if !omit || !g.o.encodable {
			f.doc, f.required = []string{"+kubebuilder:validation:Required"}, true
		}
	case 4:
		if !omit || !g.o.encodable {
			f.doc, f.required = []string{"+required"}, true
		}
	case 5:
		f.doc = []string{"words"}
	}
	pre, post := "", ""
	if s.Chance(8) {
		pre = pbt.Pick(s, `protobuf:"bytes,1" `, `yaml:"other" `)
	}
	if s.Chance(8) {
		post = pbt.Pick(s, ` patchStrategy:"merge"`, ` x:"json:nope"`)
	}
	f.tag = pre + fmt.Sprintf("json:%q", tagName+comma) + post
	if strings.Contains(tagName, "ü") {
		f.tag = pre + `json:"` + tagName + comma + `"` + post
	}
	return f
}

func (d *apiDecl) aliasChain() bool { return d.alias && d.under.kind == "ptr" }

// inlinable: a struct without methods, directly or through a definition or alias
func (g *apiGen) inlinable(d *apiDecl) bool {
	if d.hasMethods() {
		return false
	}
	if d.isStruct() {
		return true
	}
	return d.under.kind == "decl" && g.inlinable(d.under.decl)
}

// usedInline keeps embedding sane: one struct embeds a type only once, and property names stay unique.
func (d *apiDecl) props(m map[string]int) {
	if d.under != nil {
		if d.under.kind == "decl" {
			d.under.decl.props(m)
		}
		return
	}
	for _, f := range d.fields {
		switch {
		case f.skipped:
		case f.inline:
			t := f.typ
			if t.kind == "ptr" {
				t = t.elem
			}
			t.decl.props(m)
		default:
			m[f.json]++
		}
	}
}

// embedded type names are Go field names
func (d *apiDecl) embNames(m map[string]int) {
	for _, f := range d.fields {
		if f.goName == "" {
			t := f.typ
			if t.kind == "ptr" {
				t = t.elem
			}
			m[t.decl.name]++
		}
	}
}

// newDecl makes a declaration that uses only existing ones.
func (g *apiGen) newDecl(pkg *apiPkg) *apiDecl {
	s := g.s
	g.n++
	d := &apiDecl{pkg: pkg, name: fmt.Sprintf("T%d", g.n)}
	if s.Chance(25) {
		d.doc = append(d.doc, "words about it")
	}
	switch s.PickW(9, 3, 2, 2, 1, 1, 2, 1) {
	case 0:
		for k := s.Small(5); k >= 0; k-- {
			f := g.field(pkg)
			d.fields = append(d.fields, f)
			m, e := map[string]int{}, map[string]int{}
			d.props(m)
			d.embNames(e)
			dup := false
			for _, n := range m {
				dup = dup || n > 1
			}
			for _, n := range e {
				dup = dup || n > 1
			}
			if dup { // what Go does with repeated names is out of scope
				d.fields = d.fields[:len(d.fields)-1]
			}
		}
	case 1:
		d.under = g.builtin()
	case 2:
		d.under = &apiType{kind: "slice", elem: g.typ(2)}
	case 3:
		d.under = &apiType{kind: "map", key: g.mapKey(), elem: g.typ(2)}
	case 4:
		d.under = g.builtin()
		d.text = true
		g.label("text marshaler")
	case 5:
		d.under = &apiType{kind: pbt.Pick(s, "string", "int64", "bool")}
		d.jsonAs = pbt.Pick(s, "string", "integer", "boolean")
		d.valueRecv = g.o.encodable || s.Bool()
		g.label("json marshaler")
	case 6: // type A B
		if ds := g.usable(pkg, func(d *apiDecl) bool { return !d.hasMethods() && (d.isStruct() || d.under.kind != "ptr") }); len(ds) > 0 {
			d.under = &apiType{kind: "decl", decl: ds[s.Intn(len(ds))]}
			g.label("redefinition")
		} else {
			d.under = g.builtin()
		}
	case 7: // alias
		d.alias = true
		d.under = g.typ(2)
		if d.under.kind == "ptr" {
			d.under = d.under.elem
		}
		g.label("alias")
	}
	return d
}

// genAPI makes 1-3 packages; the root kind is called Root, in the first one.
func genAPI(s *pbt.Src, o apiOpts) *apiGen {
	g := &apiGen{s: s, o: o, feat: map[string]bool{}}
	np := 1 + s.PickW(5, 4, 2)
	dirs := []string{"v1", "deps/v1", "shared-types"}
	names := []string{"v1", "v1", "shared"}
	for i := 0; i < np; i++ {
		p := &apiPkg{dir: dirs[i], name: names[i], optional: s.Chance(15)}
		if i == 0 {
			p.extra = []string{"+groupName=g.ex.test"}
		}
		g.pkgs = append(g.pkgs, p)
	}
	if np > 1 {
		g.pkgs[1].dir = pbt.Pick(s, "deps/v1", "deps/v1", "deps/v1", "~deps/v1", "deps/v~x1", "d-e_p.s/v1~x")
		g.pkgs[1].name = pbt.Pick(s, "depv1", "v1dep")
		g.label("several packages")
	}
	for pi := np - 1; pi >= 0; pi-- {
		for k := s.Small(6); k > 0; k-- {
			d := g.newDecl(g.pkgs[pi])
			g.pkgs[pi].decls = append(g.pkgs[pi].decls, d)
			g.decls = append(g.decls, d)
		}
	}
	// the spec
	spec := &apiDecl{pkg: g.pkgs[0], name: "RootSpec"}
	for k := 1 + s.Small(6); k > 0; k-- {
		f := g.field(g.pkgs[0])
		spec.fields = append(spec.fields, f)
		m, e := map[string]int{}, map[string]int{}
		spec.props(m)
		spec.embNames(e)
		for _, n := range m {
			if n > 1 {
				spec.fields = spec.fields[:len(spec.fields)-1]
				break
			}
		}
		for _, n := range e {
			if n > 1 && len(spec.fields) > 0 && spec.fields[len(spec.fields)-1] == f {
				spec.fields = spec.fields[:len(spec.fields)-1]
				break
			}
		}
	}
	g.pkgs[0].decls = append(g.pkgs[0].decls, spec)
	meta := func(name, tag string) *apiField {
		return &apiField{typ: &apiType{kind: "raw", raw: "metav1." + name}, tag: tag}
	}
	root := &apiDecl{pkg: g.pkgs[0], name: "Root"}
	root.fields = []*apiField{meta("TypeMeta", `json:",inline"`), meta("ObjectMeta", `json:"metadata,omitempty"`),
		{goName: "Spec", typ: &apiType{kind: "decl", decl: spec}, tag: `json:"spec"`}}
	g.pkgs[0].decls = append(g.pkgs[0].decls, root)
	return g
}

// render writes all packages. The import path CASE is filled in by place.
func (g *apiGen) render() ws.Files {
	files := ws.Files{}
	for i, p := range g.pkgs {
		renderPkg(g.s, p, g.pkgs[i+1:], files)
	}
	// the root needs metav1 under that very name
	for n, c := range files {
		if strings.Contains(c, "metav1.TypeMeta") {
			if !strings.Contains(c, `import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"`) {
				files[n] = strings.Replace(c, "\n\n", "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n", 1)
			}
		}
	}
	return files
}

// place fills in the import path of case i.
func place(f ws.Files, i int) ws.Files {
	out := ws.Files{}
	for k, v := range f {
		out[k] = strings.ReplaceAll(v, "\"CASE/", fmt.Sprintf("\"%s/c%d/", ws.Mod, i))
	}
	return out
}
