package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"sigs.k8s.io/controller-tools/pkg/crd"

	"verif/jsv"
	"verif/pbt"
	"verif/ws"
)

// C06: markers add exactly their own keyword.

// cnode is a schema as the set of keyword values at each place. What is
// combined with allOf is one place.
type cnode struct {
	kw    map[string]map[string]bool
	rules []string
	props map[string]*cnode
	items *cnode
	addl  *cnode
}

func newNode() *cnode { return &cnode{kw: map[string]map[string]bool{}, props: map[string]*cnode{}} }

func (n *cnode) set(k, v string) {
	if n.kw[k] == nil {
		n.kw[k] = map[string]bool{}
	}
	n.kw[k][v] = true
}

func (n *cnode) replace(k, v string) { n.kw[k] = map[string]bool{v: true} }

func (n *cnode) merge(o *cnode) {
	for k, vs := range o.kw {
		for v := range vs {
			n.set(k, v)
		}
	}
	n.rules = append(n.rules, o.rules...)
	for k, p := range o.props {
		if n.props[k] == nil {
			n.props[k] = newNode()
		}
		n.props[k].merge(p)
	}
	if o.items != nil {
		if n.items == nil {
			n.items = newNode()
		}
		n.items.merge(o.items)
	}
	if o.addl != nil {
		if n.addl == nil {
			n.addl = newNode()
		}
		n.addl.merge(o.addl)
	}
}

func (n *cnode) keys() []string {
	var out []string
	for k, vs := range n.kw {
		for v := range vs {
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return out
}

func ruleNo(r string) (site, no int) {
	i := strings.Index(r, "site")
	if i < 0 {
		return -1, 0
	}
	fmt.Sscanf(r[i:], "site%d_%d", &site, &no)
	return
}

// diff says where got is not what is wanted.
func (n *cnode) diff(at string, want *cnode) string {
	g, w := n.keys(), want.keys()
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("%s has %q, want %q", at, g, w)
	}
	gr, wr := append([]string(nil), n.rules...), append([]string(nil), want.rules...)
	last, times := map[int]int{}, map[string]int{}
	for _, r := range gr {
		times[r]++
	}
	for _, r := range gr {
		s, k := ruleNo(r)
		if k < last[s] && times[r] == 1 && s >= 0 {
			return fmt.Sprintf("%s has its rules in the order %q", at, gr)
		}
		last[s] = k
	}
	sort.Strings(gr)
	sort.Strings(wr)
	if strings.Join(gr, "\n") != strings.Join(wr, "\n") {
		return fmt.Sprintf("%s has rules %q, want %q", at, gr, wr)
	}
	ks := map[string]bool{}
	for k := range n.props {
		ks[k] = true
	}
	for k := range want.props {
		ks[k] = true
	}
	for _, k := range jsv.Keys(ks) {
		if n.props[k] == nil || want.props[k] == nil {
			return fmt.Sprintf("%s: property %q: present %v, want %v", at, k, n.props[k] != nil, want.props[k] != nil)
		}
		if d := n.props[k].diff(at+"."+k, want.props[k]); d != "" {
			return d
		}
	}
	if (n.items == nil) != (want.items == nil) || (n.addl == nil) != (want.addl == nil) {
		return fmt.Sprintf("%s: items or additionalProperties differ", at)
	}
	if n.items != nil {
		if d := n.items.diff(at+"[]", want.items); d != "" {
			return d
		}
	}
	if n.addl != nil {
		return n.addl.diff(at+"{}", want.addl)
	}
	return ""
}

func normJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "not JSON: " + string(b)
	}
	o, _ := json.Marshal(v)
	return string(o)
}

// nodeOf reads a generated schema.
func nodeOf(sc *schemaT) *cnode {
	n := newNode()
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	for _, k := range []string{"description", "properties", "items", "additionalProperties", "allOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "x-kubernetes-validations", "required"} {
		delete(m, k)
	}
	for k, v := range m {
		n.set(k, normJSON(v))
	}
	for _, r := range sc.Required {
		n.set("required", r)
	}
	bound(n, "minimum", sc.Minimum, sc.ExclusiveMinimum)
	bound(n, "maximum", sc.Maximum, sc.ExclusiveMaximum)
	for _, r := range sc.XValidations {
		n.rules = append(n.rules, jsonOf(r))
	}
	for k, v := range sc.Properties {
		n.props[k] = nodeOf(&v)
	}
	if sc.Items != nil && sc.Items.Schema != nil {
		n.items = nodeOf(sc.Items.Schema)
	}
	if sc.AdditionalProperties != nil {
		n.addl = newNode()
		if sc.AdditionalProperties.Schema != nil {
			n.addl = nodeOf(sc.AdditionalProperties.Schema)
		}
	}
	for i := range sc.AllOf {
		n.merge(nodeOf(&sc.AllOf[i]))
	}
	return n
}

func bound(n *cnode, k string, v *float64, excl bool) {
	switch {
	case v != nil && excl:
		n.set(k, jsonOf(*v)+" exclusive")
	case v != nil:
		n.set(k, jsonOf(*v))
	case excl:
		n.set(k, "exclusive")
	}
}

// conSite is a place that carries markers: a field, or a type.
type conSite struct {
	id     int
	items  bool   // the items of an unnamed list are known to this site
	typ    string // the JSON type at the site, "" behind a name
	intstr bool
	ityp   string // of the items
	field  bool
	free   bool // the type can be overridden
	used   map[string]bool
	rules  int
	lines  []string
	self   *cnode // what it adds
	item   *cnode
	min    [2]*float64
	excl   [2]bool
	imin   [2]*float64
	iexcl  [2]bool
	obj    bool // a map or struct, also behind a name
	arr    bool
}

type conGen struct {
	*apiGen
	sites  int
	marked int
	fields map[*apiField]*conSite
	decls  map[*apiDecl]*conSite
}

func (g *conGen) str() (written, value string) {
	s := g.s
	word := func() string {
		return pbt.Pick(s, "a", "Foo", "x9", "abc_def", "kube-system", "t", "Z")
	}
	switch s.PickW(3, 3, 2) {
	case 1:
		v := word() + pbt.Pick(s, " b", ": c", ", d", ";e", "{f}", `\"q\"`, "=g", "é", "//h", "'", "", "<&>", " ")
		return `"` + v + `"`, strings.ReplaceAll(v, `\"`, `"`)
	case 2:
		v := word() + pbt.Pick(s, `\d+$`, " b", `"q"`, "^[a-z]*", "")
		return "`" + v + "`", v
	}
	w := word()
	return w, w
}

func (g *conGen) strQuoted() (written, value string) {
	for {
		w, v := g.str()
		if strings.HasPrefix(w, `"`) || strings.HasPrefix(w, "`") {
			return w, v
		}
		return `"` + w + `"`, v
	}
}

// anyVal is a value of any type, in marker syntax, with its JSON.
func (g *conGen) anyVal(depth int) (written string, val any) {
	s := g.s
	w := []int{4, 4, 2, 2, 2, 1}
	if depth == 0 {
		w = w[:3]
	}
	switch s.PickW(w...) {
	case 1:
		n := s.Range(0, 1000) - 200
		return fmt.Sprint(n), n
	case 2:
		b := s.Bool()
		return fmt.Sprint(b), b
	case 3:
		var ws []string
		var vs []any
		kind := s.Intn(3)
		for k := s.Range(1, 3); k > 0; k-- {
			var a string
			var b any
			switch kind { // lists have one type of element
			case 0:
				n := s.Intn(50)
				a, b = fmt.Sprint(n), n
			case 1:
				a, b = g.strQuoted()
			case 2:
				x := s.Bool()
				a, b = fmt.Sprint(x), x
			}
			ws, vs = append(ws, a), append(vs, b)
		}
		return "{" + strings.Join(ws, pbt.Pick(s, ",", ", ")) + "}", vs
	case 4:
		var ws []string
		m := map[string]any{}
		for k := s.Range(1, 3); k > 0; k-- {
			a, b := g.anyVal(depth - 1)
			key := fmt.Sprintf("k%d", k)
			ws, m[key] = append(ws, key+":"+pbt.Pick(s, "", " ")+a), b
		}
		return "{" + strings.Join(ws, pbt.Pick(s, ",", ", ")) + "}", m
	case 5:
		return "{}", map[string]any{}
	}
	return g.strQuoted()
}

var conKinds = []string{"Maximum", "Minimum", "ExclusiveMaximum", "ExclusiveMinimum", "MultipleOf", "MaxLength", "MinLength", "Pattern", "MaxItems", "MinItems", "UniqueItems",
	"MinProperties", "MaxProperties", "Enum", "Format", "XPreserveUnknownFields", "XEmbeddedResource", "XIntOrString", "XValidation",
	"nullable", "kubebuilder:default", "default", "kubebuilder:example", "kubebuilder:title", "EmbeddedResource", "pruning", "listType", "mapType", "structType", "Type"}

// applicable says whether a marker can apply to a value of the given type;
// unknown for types behind a name.
func applicable(kind, typ string, intstr bool) (yes, known bool) {
	switch kind {
	case "Maximum", "Minimum", "ExclusiveMaximum", "ExclusiveMinimum", "MultipleOf":
		return typ == "integer" || typ == "number", typ != ""
	case "MaxLength", "MinLength", "Pattern":
		return typ == "string" || intstr, typ != "" || intstr
	case "MaxItems", "MinItems", "UniqueItems", "listType":
		return typ == "array", typ != ""
	case "MinProperties", "MaxProperties", "mapType":
		return typ == "object", typ != ""
	case "structType":
		return typ == "object", typ != ""
	}
	return true, true
}

func fieldOnly(kind string) bool {
	switch kind {
	case "nullable", "kubebuilder:default", "default", "kubebuilder:example", "kubebuilder:title", "EmbeddedResource":
		return true
	}
	return false
}

func hasItemsForm(kind string) bool {
	switch kind {
	case "nullable", "kubebuilder:default", "default", "kubebuilder:example", "kubebuilder:title", "EmbeddedResource", "pruning", "listType", "mapType", "structType":
		return false
	}
	return true
}

// add puts one marker of the given kind on a site (or on its items). It
// reports whether it did.
func (g *conGen) add(st *conSite, kind string, items bool) bool {
	s := g.s
	n, typ, pre := st.self, st.typ, "kubebuilder:validation:"
	mm, ex := &st.min, &st.excl
	if items {
		if !st.items || !hasItemsForm(kind) {
			return false
		}
		n, typ, pre = st.item, st.ityp, "kubebuilder:validation:items:"
		mm, ex = &st.imin, &st.iexcl
	}
	if fieldOnly(kind) && !st.field {
		return false
	}
	if yes, known := applicable(kind, typ, !items && st.intstr); !yes || !known {
		return false
	}
	uk := kind
	switch kind {
	case "EmbeddedResource":
		uk = "XEmbeddedResource"
	case "pruning":
		uk = "XPreserveUnknownFields"
	case "structType", "mapType":
		uk = "mapType"
	}
	if items {
		uk += " items"
	}
	if st.used[uk] && kind != "XValidation" {
		return false
	}
	num := func() float64 {
		v := float64(s.Range(0, 400) - 100)
		if typ == "number" && s.Chance(40) {
			v += 0.25 * float64(s.Range(1, 3))
		}
		return v
	}
	count := func() string { return fmt.Sprint(s.Range(0, 1000)) }
	line := ""
	switch kind {
	case "Maximum", "Minimum":
		v := num()
		line = fmt.Sprintf("%s%s=%v", pre, kind, v)
		mm[b2i(kind == "Maximum")] = &v
	case "ExclusiveMaximum", "ExclusiveMinimum":
		v := s.Chance(75)
		line = fmt.Sprintf("%s%s=%v", pre, kind, v)
		ex[b2i(kind == "ExclusiveMaximum")] = v
	case "MultipleOf":
		v := num()
		line = fmt.Sprintf("%s%s=%v", pre, kind, v)
		n.set("multipleOf", jsonOf(v))
	case "MaxLength", "MinLength", "MaxItems", "MinItems", "MinProperties", "MaxProperties":
		v := count()
		line = pre + kind + "=" + v
		n.set(strings.ToLower(kind[:1])+kind[1:], v)
	case "UniqueItems":
		v := s.Chance(75)
		line = fmt.Sprintf("%s%s=%v", pre, kind, v)
		if v {
			n.set("uniqueItems", "true")
		}
	case "Pattern":
		w, v := g.str()
		line = pre + "Pattern=" + w
		n.set("pattern", jsonOf(v))
	case "Format":
		v := pbt.Pick(s, "date-time", "ipv4", "uri", "password")
		line = pre + "Format=" + v
		n.replace("format", jsonOf(v))
	case "Enum":
		var ws []string
		var vs []any
		k := s.Intn(3)
		for i := s.Range(1, 4); i > 0; i-- {
			var w string
			var v any
			switch k {
			case 1:
				x := s.Intn(100)
				w, v = fmt.Sprint(x), x
			case 2:
				w, v = g.strQuoted()
			default:
				x := fmt.Sprintf("v%d", s.Intn(9))
				w, v = x, x
			}
			ws, vs = append(ws, w), append(vs, v)
		}
		if s.Bool() || k == 2 {
			line = pre + "Enum={" + strings.Join(ws, ",") + "}"
		} else {
			line = pre + "Enum=" + strings.Join(ws, ";")
		}
		n.set("enum", normJSON([]byte(jsonOf(vs))))
	case "XPreserveUnknownFields":
		line = pre + kind
		n.set("x-kubernetes-preserve-unknown-fields", "true")
	case "pruning":
		line = "kubebuilder:pruning:PreserveUnknownFields"
		n.set("x-kubernetes-preserve-unknown-fields", "true")
	case "XEmbeddedResource", "EmbeddedResource":
		line = pre + kind
		n.set("x-kubernetes-embedded-resource", "true")
	case "XIntOrString":
		line = pre + kind
		n.set("x-kubernetes-int-or-string", "true")
	case "XValidation":
		for k := s.Small(2); k >= 0; k-- {
			st.rules++
			var args []string
			r := map[string]any{}
			arg := func(k string) {
				w, v := g.strQuoted()
				args = append(args, k+"="+w)
				r[k] = v
			}
			rule := fmt.Sprintf("self.size() > %d && 'site%d_%03d' != ''", s.Intn(5), st.id, st.rules)
			if items {
				rule = fmt.Sprintf("self.size() > %d && 'site%d_%03d' != ''", s.Intn(5), st.id+500, st.rules)
			}
			args = append(args, "rule="+pbt.Pick(s, `"`+rule+`"`, "`"+rule+"`"))
			r["rule"] = rule
			if s.Chance(40) {
				arg("message")
			}
			if s.Chance(15) {
				arg("messageExpression")
			}
			if s.Chance(25) {
				v := pbt.Pick(s, "FieldValueRequired", "FieldValueInvalid", "FieldValueForbidden", "FieldValueDuplicate")
				args = append(args, "reason="+v)
				r["reason"] = v
			}
			if s.Chance(25) {
				args = append(args, `fieldPath=".a.b"`)
				r["fieldPath"] = ".a.b"
			}
			if s.Chance(15) {
				b := s.Bool()
				args = append(args, fmt.Sprintf("optionalOldSelf=%v", b))
				r["optionalOldSelf"] = b
			}
			pbt.Shuffle(s, args)
			st.lines = append(st.lines, "+"+pre+"XValidation:"+strings.Join(args, ","))
			n.rules = append(n.rules, ruleJSON(r))
			g.marked++
		}
		return true
	case "nullable":
		line = "nullable"
		n.set("nullable", "true")
	case "kubebuilder:default", "kubebuilder:example":
		w, v := g.anyVal(2)
		line = kind + "=" + w
		k := strings.TrimPrefix(kind, "kubebuilder:")
		if k == "default" && typ == "array" && w == "{}" {
			v = []any{}
		}
		n.replace(k, normJSON([]byte(jsonOf(v))))
	case "default":
		if s.Chance(15) {
			// a constant elsewhere, which nobody evaluates
			line = "default=" + pbt.Pick(s, "ref(Answer)", "ref(ex.test/other/pkg.Answer)", " ref(Answer)", "ref()")
			break
		}
		var v any
		switch s.PickW(3, 3, 1, 2, 2) {
		case 0:
			_, v = g.str()
		case 1:
			v = pbt.Pick[any](s, 0, 5, -3, 2147483648, int64(9007199254740993), int64(-9223372036854775808), 0.5)
		case 2:
			v = s.Bool()
		case 3:
			v = []any{1, "b"}
		case 4:
			v = map[string]any{"x": 1, "y": []any{}}
		}
		line = "default=" + jsonOf(v)
		if !st.used["kubebuilder:default"] {
			n.replace("default", normJSON([]byte(jsonOf(v))))
		}
	case "kubebuilder:title":
		w, v := g.strQuoted()
		line = kind + "=" + w
		n.set("title", jsonOf(v))
	case "listType":
		v := pbt.Pick(s, "atomic", "set", "map")
		line = "listType=" + v
		n.set("x-kubernetes-list-type", jsonOf(v))
		if v == "map" {
			var ks []string
			for k := s.Range(1, 3); k > 0; k-- {
				key := fmt.Sprintf("k%d", s.Intn(9))
				ks = append(ks, key)
				st.lines = append(st.lines, "+listMapKey="+key)
				g.marked++
			}
			n.set("x-kubernetes-list-map-keys", jsonOf(ks))
		}
	case "mapType", "structType":
		v := pbt.Pick(s, "atomic", "granular")
		line = kind + "=" + v
		n.set("x-kubernetes-map-type", jsonOf(v))
	default:
		return false
	}
	st.used[uk] = true
	st.lines = append(st.lines, "+"+line)
	g.marked++
	return true
}

func ruleJSON(r map[string]any) string {
	// in the order of the Kubernetes type
	var parts []string
	for _, k := range []string{"rule", "message", "messageExpression", "reason", "fieldPath", "optionalOldSelf"} {
		if v, ok := r[k]; ok {
			parts = append(parts, jsonOf(k)+":"+jsonOf(v))
		}
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// siteFor describes the place of a field's or declaration's own type.
func (g *conGen) site(t *apiType, local func(d *apiDecl) bool) *conSite {
	g.sites++
	st := &conSite{id: g.sites, used: map[string]bool{}, self: newNode(), item: newNode()}
	for t != nil && t.kind == "ptr" {
		t = t.elem
	}
	st.typ, st.items, st.ityp = shape(t)
	return st
}

// shape is the JSON type that can be told from the type expression alone.
func shape(t *apiType) (typ string, items bool, ityp string) {
	switch t.kind {
	case "ptr":
		return shape(t.elem)
	case "slice", "array":
		if t.kind == "slice" && t.elem.isByte() {
			return "string", false, ""
		}
		it, _, _ := shape(t.elem)
		return "array", true, it
	case "map":
		return "object", false, ""
	case "decl", "known", "raw":
		return "", false, ""
	}
	return builtinSchema[t.kind].Type, false, ""
}

func (st *conSite) finish(s *pbt.Src) {
	bound(st.self, "minimum", st.min[0], st.excl[0])
	bound(st.self, "maximum", st.min[1], st.excl[1])
	bound(st.item, "minimum", st.imin[0], st.iexcl[0])
	bound(st.item, "maximum", st.imin[1], st.iexcl[1])
	// any order, except among repetitions of one marker
	order := s.Perm(len(st.lines))
	byName := map[string][]int{}
	name := func(l string) string {
		for _, p := range []string{"+listMapKey", "+kubebuilder:validation:XValidation", "+kubebuilder:validation:items:XValidation"} {
			if strings.HasPrefix(l, p) {
				return p
			}
		}
		return l
	}
	for _, i := range order {
		n := name(st.lines[i])
		byName[n] = append(byName[n], i)
	}
	for n := range byName {
		sort.Ints(byName[n])
	}
	var out []string
	for _, i := range order {
		n := name(st.lines[i])
		out = append(out, st.lines[byName[n][0]])
		byName[n] = byName[n][1:]
	}
	st.lines = out
}

// node is the schema of a type with all its constraints.
func (g *conGen) node(t *apiType) *cnode {
	switch t.kind {
	case "slice", "array":
		if t.kind == "array" || !t.elem.isByte() {
			n := newNode()
			n.set("type", `"array"`)
			n.items = g.node(t.elem)
			return n
		}
	case "map":
		n := newNode()
		n.set("type", `"object"`)
		n.addl = g.node(t.elem)
		return n
	case "ptr":
		return g.node(t.elem)
	case "decl":
		return g.declNode(t.decl)
	case "known":
		return knownNode(t.known)
	}
	sc := t.expect()
	return nodeOf(&sc)
}

var (
	knownOnce  sync.Once
	knownNodes map[string]*cnode
)

// knownNode is the schema of a well-known type in a field without any marker.
func knownNode(name string) *cnode {
	knownOnce.Do(func() {
		dir := Scratch("known")
		defer Drop(dir)
		fields := ""
		imports := map[string]string{}
		for n, k := range knownTypes {
			imports[k.imp] = k.alias
			fields += fmt.Sprintf("\t%s %s.%s `json:\"%s\"`\n", n, k.alias, k.name, n)
		}
		src := "// +groupName=g.ex.test\npackage v1\n\n"
		for p, a := range imports {
			src += fmt.Sprintf("import %s %q\n", a, p)
		}
		src += "\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata\"`\n" + fields + "}\n"
		l, err := ws.LoadCases(dir, []ws.Files{{"v1/a.go": src}})
		if err != nil {
			panic(pbt.HarnessPanic("known: " + err.Error()))
		}
		r := ws.Run(crd.Generator{}, l.Case(0))
		d, bad := oneCRD(r)
		if bad != "" || r.Bad() {
			// every case with such a type then fails: a value of it has no schema
			knownNodes = map[string]*cnode{}
			for n := range knownTypes {
				knownNodes[n] = newNode()
				knownNodes[n].set("known type", fmt.Sprintf("%s %v", bad, r.Errs))
			}
			return
		}
		knownNodes = map[string]*cnode{}
		for n := range knownTypes {
			sc, ok := d.Spec.Versions[0].Schema.OpenAPIV3Schema.Properties[n]
			if !ok {
				knownNodes[n] = newNode()
				knownNodes[n].set("known type", "no schema at all")
				continue
			}
			knownNodes[n] = nodeOf(&sc)
		}
	})
	n := newNode()
	n.merge(knownNodes[name])
	return n
}

// apply overlays a site's markers on the schema of the type it is written on.
func (st *conSite) apply(n *cnode) {
	if st == nil {
		return
	}
	for _, k := range []string{"type", "x-kubernetes-map-type"} { // these override
		if len(st.self.kw[k]) > 0 {
			delete(n.kw, k)
		}
		if len(st.item.kw[k]) > 0 && n.items != nil {
			delete(n.items.kw, k)
		}
	}
	// a format written on a type expression overrides; behind a name both hold
	if st.typ != "" && len(st.self.kw["format"]) > 0 {
		delete(n.kw, "format")
	}
	if st.ityp != "" && len(st.item.kw["format"]) > 0 {
		delete(n.items.kw, "format")
	}
	for _, k := range []string{"title", "example"} {
		if len(st.self.kw[k]) > 0 {
			delete(n.kw, k)
		}
	}
	n.merge(st.self)
	if n.items != nil {
		n.items.merge(st.item)
	}
}

func (g *conGen) declNode(d *apiDecl) *cnode {
	var n *cnode
	switch {
	case d.text:
		n = newNode()
		n.set("type", `"string"`)
	case d.jsonAs != "":
		n = newNode()
		n.set("type", jsonOf(d.jsonAs))
	case !d.isStruct():
		n = g.node(d.under)
	default:
		n = newNode()
		n.set("type", `"object"`)
		for _, f := range d.fields {
			if f.skipped {
				continue
			}
			fn := g.node(f.typ)
			if f.quoted {
				fn = newNode()
				fn.set("type", `"string"`)
			}
			if f.schemaless {
				fn = newNode()
			}
			g.fields[f].apply(fn)
			if f.inline {
				n.merge(fn)
				continue
			}
			n.props[f.json] = fn
			if f.required {
				n.set("required", f.json)
			}
		}
	}
	g.decls[d].apply(n)
	return n
}

type conCase struct {
	o     apiOpts
	files ws.Files
	want  *cnode
	bad   string
	marks int
}

// reachable lists the declarations the spec's schema is made of.
func (g *conGen) reachable(spec *apiDecl) []*apiDecl {
	var out []*apiDecl
	seen := map[*apiDecl]bool{}
	var walk func(t *apiType)
	var decl func(d *apiDecl)
	decl = func(d *apiDecl) {
		if seen[d] {
			return
		}
		seen[d] = true
		out = append(out, d)
		if d.text || d.jsonAs != "" {
			return
		}
		for _, f := range d.fields {
			if !f.skipped && !f.quoted && !f.schemaless {
				walk(f.typ)
			}
		}
		walk(d.under)
	}
	walk = func(t *apiType) {
		if t == nil {
			return
		}
		if t.kind == "slice" && t.elem.isByte() {
			return // a string
		}
		walk(t.elem)
		if t.decl != nil {
			decl(t.decl)
		}
	}
	decl(spec)
	return out
}

func (g *conGen) fieldSite(f *apiField) *conSite {
	if f.quoted && !f.schemaless {
		st := g.site(&apiType{kind: "string"}, nil)
		st.field = true
		return st
	}
	if f.schemaless {
		st := g.site(&apiType{kind: "raw"}, nil)
		st.field, st.free = true, true
		return st
	}
	st := g.site(f.typ, nil)
	st.field = true
	t := f.typ
	for t.kind == "ptr" {
		t = t.elem
	}
	_, st.free = builtinSchema[t.kind]
	if f.inline {
		st.free = false
	}
	return st
}

func (g *conGen) declSite(d *apiDecl) *conSite {
	var st *conSite
	switch {
	case d.text:
		st = g.site(&apiType{kind: "string"}, nil)
	case d.jsonAs != "":
		st = g.site(&apiType{kind: "raw"}, nil)
		st.typ = d.jsonAs
	case d.isStruct():
		st = g.site(&apiType{kind: "map"}, nil)
	default:
		st = g.site(d.under, nil)
	}
	return st
}

// what makes sense below an inlined field
var inlineKinds = []string{"XValidation", "XPreserveUnknownFields", "pruning"}

func (g *conGen) decorate(st *conSite, kinds []string, n int) {
	s := g.s
	if st.free && s.Chance(12) {
		typ := pbt.Pick(s, "string", "integer", "number", "boolean", "object", "array")
		st.typ = typ
		st.self.replace("type", jsonOf(typ))
		st.used["Type"] = true
		st.lines = append(st.lines, "+kubebuilder:validation:Type="+typ)
		g.label("type override")
		g.marked++
	}
	if st.items && st.ityp != "" && st.ityp != "array" && st.ityp != "object" && len(kinds) > len(inlineKinds) && s.Chance(8) {
		st.ityp = pbt.Pick(s, "string", "integer", "number", "boolean")
		st.item.replace("type", jsonOf(st.ityp))
		line := "+kubebuilder:validation:items:Type=" + st.ityp
		g.label("items type override")
		g.marked++
		defer func() { // it counts before the others, wherever it is written
			at := s.Intn(len(st.lines) + 1)
			st.lines = append(st.lines[:at:at], append([]string{line}, st.lines[at:]...)...)
		}()
	}
	if st.used["Type"] == false && st.typ != "" && s.Chance(5) && len(kinds) > len(inlineKinds) && st.typ != "array" {
		// an int-or-string
		if g.add(st, "XIntOrString", false) {
			st.intstr = true
			g.label("int or string")
		}
	}
	for i := 0; i < n; i++ {
		kind := kinds[s.Intn(len(kinds))]
		items := st.items && s.Chance(35)
		for try := 0; try < 4; try++ {
			if g.add(st, kind, items) {
				break
			}
			kind = kinds[s.Intn(len(kinds))]
		}
	}
}

func genConstraints(s *pbt.Src) any  { return constraintCase(s, false) }
func genInapplicable(s *pbt.Src) any { return constraintCase(s, true) }

func constraintCase(s *pbt.Src, bad bool) any {
	o := apiOpts{floats: s.Chance(60)}
	g := &conGen{apiGen: genAPI(s, o), fields: map[*apiField]*conSite{}, decls: map[*apiDecl]*conSite{}}
	spec := g.pkgs[0].decls[len(g.pkgs[0].decls)-2]
	reach := g.reachable(spec)
	for _, d := range reach {
		for _, f := range d.fields {
			if !f.skipped && !f.inline && s.Chance(3) {
				f.schemaless = true
				g.label("schemaless")
			}
		}
	}
	reach = g.reachable(spec)
	var sites []*conSite
	finish := func(st *conSite, doc *[]string) {
		st.finish(s)
		if len(*doc) > 0 && s.Bool() {
			*doc = append(append([]string{}, st.lines...), *doc...)
		} else {
			*doc = append(*doc, st.lines...)
		}
	}
	type target struct {
		st    *conSite
		doc   *[]string
		kinds []string
		f     *apiField
	}
	var ts []target
	for _, d := range reach {
		// an alias of a named type is that type: what is written on it is not considered
		if d != spec && !(d.alias && (d.under.kind == "decl" || d.under.kind == "known")) {
			st := g.declSite(d)
			g.decls[d] = st
			kinds := conKinds
			if d.under != nil && d.under.kind == "decl" || d.isStruct() && g.inlined(d, reach) {
				kinds = inlineKinds
			}
			ts = append(ts, target{st, &d.doc, kinds, nil})
		}
		for _, f := range d.fields {
			if f.skipped || d.text || d.jsonAs != "" {
				continue
			}
			st := g.fieldSite(f)
			g.fields[f] = st
			kinds := conKinds
			if f.inline {
				kinds = inlineKinds
			}
			ts = append(ts, target{st, &f.doc, kinds, f})
		}
	}
	for _, t := range ts {
		n := 0
		switch s.PickW(4, 4, 3, 1) {
		case 1:
			n = 1 + s.Small(2)
		case 2:
			n = 2 + s.Small(5)
		case 3:
			n = 8 + s.Small(12)
		}
		g.decorate(t.st, t.kinds, n)
		sites = append(sites, t.st)
	}
	c := &conCase{o: o}
	if bad && len(ts) > 0 {
		t := ts[s.Intn(len(ts))]
		line := g.misfit(t.st, t.f)
		if line != "" {
			t.st.lines = append(t.st.lines, "+"+line)
			c.bad = line
			s.Label("misfit " + strings.SplitN(line, "=", 2)[0])
		}
	}
	for _, t := range ts {
		finish(t.st, t.doc)
		if t.f != nil && t.f.schemaless {
			*t.doc = append(*t.doc, "+kubebuilder:validation:Schemaless")
		}
	}
	c.want = g.declNode(spec)
	c.files = g.render()
	c.marks = g.marked
	return c
}

// inlined: fields of other structs take over the whole type
func (g *conGen) inlined(d *apiDecl, reach []*apiDecl) bool {
	for _, r := range reach {
		for _, f := range r.fields {
			if f.inline {
				t := f.typ
				for t.kind == "ptr" {
					t = t.elem
				}
				x := t.decl
				for {
					if x == d {
						return true
					}
					if x.under == nil || x.under.kind != "decl" {
						break
					}
					x = x.under.decl
				}
			}
		}
	}
	return false
}

// misfit is a marker that cannot apply at a place.
func (g *conGen) misfit(st *conSite, f *apiField) string {
	s := g.s
	val := map[string]string{"ExclusiveMaximum": "true", "ExclusiveMinimum": "true", "UniqueItems": "true", "Pattern": "x", "listType": "atomic", "mapType": "atomic", "structType": "atomic"}
	numeric := func(typ string) string {
		return pbt.Pick(s, "Maximum", "Minimum", "MultipleOf") + "=" + pbt.Pick(s, "1.5", "-0.25", "7.75")
	}
	for try := 0; try < 12; try++ {
		switch s.PickW(8, 3, 2, 2, 1, 1, 1) {
		case 0: // wrong type
			kind := conKinds[s.Intn(13)]
			if s.Chance(25) {
				kind = pbt.Pick(s, "listType", "mapType", "structType")
			}
			items := s.Chance(40) && st.items && hasItemsForm(kind)
			typ := st.typ
			if items {
				typ = st.ityp
			}
			if yes, known := applicable(kind, typ, st.intstr || st.used["XIntOrString"] || st.used["XIntOrString items"]); yes || !known {
				continue
			}
			v := val[kind]
			if v == "" {
				v = "1"
			}
			pre := "kubebuilder:validation:"
			switch {
			case items:
				pre += "items:"
			case strings.HasSuffix(kind, "Type"):
				pre = ""
			}
			return pre + kind + "=" + v
		case 1: // fraction for an integer
			if st.typ == "integer" {
				return "kubebuilder:validation:" + numeric("")
			}
			if st.items && st.ityp == "integer" {
				return "kubebuilder:validation:items:" + numeric("")
			}
		case 2: // items of something that isn't a list
			if st.typ != "" && st.typ != "array" {
				return "kubebuilder:validation:items:" + pbt.Pick(s, "MaxLength=3", "Enum=a;b", "Format=uri", "XIntOrString")
			}
		case 3: // unknown list, map and struct types
			if st.typ == "array" && !st.used["listType"] {
				return "listType=" + pbt.Pick(s, "list", "Map", `""`, "granular")
			}
			if st.typ == "object" && !st.used["mapType"] {
				return pbt.Pick(s, "mapType", "structType") + "=" + pbt.Pick(s, "map", "set", "Atomic", `""`)
			}
		case 4: // key without an associative list
			if st.typ == "array" && !st.used["listType"] {
				return "listMapKey=k"
			}
			if st.typ != "" && st.typ != "array" {
				return "listMapKey=k"
			}
		case 5:
			return "kubebuilder:validation:XValidation:rule=\"true\",reason=" + pbt.Pick(s, "FieldValueWrong", "Invalid", "fieldValueInvalid")
		case 6:
			if f != nil && !st.used["kubebuilder:title"] && !f.inline {
				return "kubebuilder:title=" + pbt.Pick(s, "5", "true", "{a: b}")
			}
		}
	}
	return ""
}

func checkConstraints(cases []any) []pbt.Outcome {
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*conCase).files)
	}
	return runCRDs(files, func(i int) crd.Generator { return crdGen(cases[i].(*conCase).o) }, func(i int, r ws.Result, l *ws.Loaded) pbt.Outcome {
		c := cases[i].(*conCase)
		if c.bad != "" {
			if !r.Bad() {
				return pbt.Failf("inapplicable marker accepted", "%s", c.bad)
			}
			return pbt.OK(true)
		}
		if r.Bad() {
			return pbt.Failf("applicable marker rejected", "%v", r.Errs)
		}
		d, bad := oneCRD(r)
		if bad != "" {
			return pbt.Failf("no manifest", "%s", bad)
		}
		got, ok := d.Spec.Versions[0].Schema.OpenAPIV3Schema.Properties["spec"]
		if !ok {
			return pbt.Failf("wrong constraints", "no spec property")
		}
		if df := nodeOf(&got).diff("spec", c.want); df != "" {
			return pbt.Failf("wrong constraints", "%s", df)
		}
		return pbt.OK(c.marks >= 3)
	})
}

func showConCase(a any) string {
	c := a.(*conCase)
	out := c.files.Show()
	if c.bad != "" {
		out += "must be rejected: " + c.bad + "\n"
	}
	return out
}

// conProbe is a fixed package, with the expected constraints given as a schema.
func conProbe(key, decls, body string, want schemaT, bad string) Probe {
	files := specFiles(decls, body)
	return Probe{key, func() pbt.Outcome {
		for i := 0; i < 8; i++ { // some depend on the iteration order of maps
			if o := checkConstraints([]any{&conCase{files: files, want: nodeOf(&want), bad: bad}})[0]; o.Fail != "" {
				return o
			}
		}
		return pbt.OK(true)
	}}
}

func conProbes() []Probe {
	type m = map[string]schemaT
	j := func(s string) schemaT {
		var sc schemaT
		if err := json.Unmarshal([]byte(s), &sc); err != nil {
			panic(err)
		}
		return sc
	}
	many := ""
	rules := ""
	for i := 1; i < 16; i++ {
		many += fmt.Sprintf("// +kubebuilder:validation:XValidation:rule=\"'site1_%03d'\"\n", i)
		rules += fmt.Sprintf(`,{"rule":"'site1_%03d'"}`, i)
	}
	return []Probe{
		conProbe("type-and-list-type", "", "// +kubebuilder:validation:Type=array\n// +listType=set\nA string `json:\"a\"`", objOf("a", m{"a": j(`{"type":"array","x-kubernetes-list-type":"set"}`)}), ""),
		conProbe("many-rules", "", many+"// +kubebuilder:validation:Pattern=x\nA string `json:\"a\"`", objOf("a", m{"a": j(`{"type":"string","pattern":"x","x-kubernetes-validations":[` + rules[1:] + `]}`)}), ""),
		conProbe("big-default", "", "// +default=9007199254740993\nA int64 `json:\"a\"`", objOf("a", m{"a": j(`{"type":"integer","format":"int64","default":9007199254740993}`)}), ""),
		conProbe("format-of-alias", "// +kubebuilder:validation:Format=x\ntype L = int64", "A L `json:\"a\"`", objOf("a", m{"a": j(`{"type":"integer","format":"x"}`)}), ""),
		conProbe("rule-on-pointer-type", "// +kubebuilder:validation:XValidation:rule=\"true\"\ntype L *[]string", "A L `json:\"a\"`", objOf("a", m{"a": j(`{"type":"array","items":{"type":"string"},"x-kubernetes-validations":[{"rule":"true"}]}`)}), ""),
		conProbe("alias-of-text-marshaler", "", "A deps.TextA `json:\"a\"`\nB deps.TextB `json:\"b\"`", objOf("a,b", m{"a": j(`{"type":"string","maxLength":3}`), "b": j(`{"type":"string","maxLength":3}`)}), ""),
		conProbe("untyped-marshaler", "// +kubebuilder:validation:MinProperties=1\ntype L struct { X string `json:\"x\"` }\nfunc (L) MarshalJSON() ([]byte, error) { return nil, nil }", "A L `json:\"a\"`", objOf("a", m{"a": j(`{"type":"object","minProperties":1,"required":["x"],"properties":{"x":{"type":"string"}}}`)}), ""),
	}
}

func init() {
	register(&Prop{
		ID:          "C06",
		Probes:      conProbes(),
		Rule:        "The API packages of C04 with 0-20 validation, topology, default and metadata markers on every reachable field, type and list, in shuffled order; the generated schema, as the set of keyword values at each place, must equal the type's structure plus exactly the written values. In the second family one marker that cannot apply is added and must be reported. Non-trivial: at least three markers (or the misfit).",
		Assumptions: []string{"no marker but XValidation and listMapKey is repeated at one place", "markers whose applicability depends on a type behind a name are not generated there"},
		Families: []*pbt.Family{
			{Name: "constraints", Gen: genConstraints, Check: checkConstraints, Show: showConCase, Batch: 150, Parallel: 4, Quick: 3000, Thorough: 60000, ShrinkBatch: 100},
			{Name: "inapplicable", Gen: genInapplicable, Check: checkConstraints, Show: showConCase, Batch: 150, Parallel: 4, Quick: 1500, Thorough: 20000, ShrinkBatch: 100},
		},
	})
}
