package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
)

// mt is the type of a marker argument.
type mt struct {
	kind string // string int int32 float bool any slice map
	elem *mt
	ptr  bool
}

func (m *mt) rtype() reflect.Type {
	var t reflect.Type
	switch m.kind {
	case "string":
		t = reflect.TypeOf("")
	case "int":
		t = reflect.TypeOf(0)
	case "int32":
		t = reflect.TypeOf(int32(0))
	case "float":
		t = reflect.TypeOf(float64(0))
	case "bool":
		t = reflect.TypeOf(false)
	case "any":
		t = reflect.TypeOf((*any)(nil)).Elem()
	case "slice":
		t = reflect.SliceOf(m.elem.rtype())
	case "map":
		t = reflect.MapOf(reflect.TypeOf(""), m.elem.rtype())
	}
	if m.ptr {
		t = reflect.PointerTo(t)
	}
	return t
}

func (m *mt) String() string { return m.rtype().String() }

func genMT(s *pbt.Src, depth int) *mt {
	k := s.PickW(6, 5, 2, 3, 4, 3, 4, 3)
	if depth <= 0 && k >= 6 {
		k = 0
	}
	switch k {
	case 6:
		e := genMT(s, depth-1)
		if e.kind == "any" { // lists of any are not a documented argument type
			e = &mt{kind: "string"}
		}
		e.ptr = s.Chance(12)
		return &mt{kind: "slice", elem: e}
	case 7:
		e := genMT(s, depth-1)
		e.ptr = e.kind != "any" && s.Chance(12)
		return &mt{kind: "map", elem: e}
	}
	return &mt{kind: []string{"string", "int", "int32", "float", "bool", "any"}[k]}
}

// position of a value, which decides which spellings are unambiguous
type mctx struct {
	inDelim  bool // inside {...}
	inLegacy bool // item of a;b;c
	inAny    bool // its type must be guessed
}

var strAtoms = []string{"a", "b", "xyz", "foo", "Hello", "0", "42", "-", ".", "_", "/", " ", "true", "é", "世", ",", ";", ":", "{", "}", "=", "+", "\"", "`", "'", "\\", "\n", "\t", "\\n", "$", "^[a-z]+$", "//", "/*", "*/", "#", "@", "\x00", "\x7f", "\u2028", "0x", "1e5", "😀"}

func genText(s *pbt.Src) string {
	n := s.Small(6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strAtoms[s.Intn(len(strAtoms))])
	}
	return b.String()
}

// bareText says whether v may be written bare there.
func bareText(v string, c mctx) bool {
	if v == "" || strings.TrimSpace(v) != v || strings.Contains(v, "\n") || strings.ContainsAny(v, ",;:{}\"`'\x00\u2028\t\x7f\\") {
		return false
	}
	first, _ := utf8.DecodeRuneInString(v)
	if first == '=' {
		return false
	}
	if c.inAny {
		// only text that cannot be taken for another type, nor for a malformed number
		if !(first >= 'a' && first <= 'z' || first >= 'A' && first <= 'Z' || first == '/') {
			return false
		}
		for _, w := range strings.FieldsFunc(v, func(r rune) bool { return !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') }) {
			if w == "true" || w == "false" || strings.ContainsAny(w, "0123456789") {
				return false
			}
		}
	}
	return true
}

func spellString(s *pbt.Src, v string, c mctx) string {
	if bareText(v, c) && s.Chance(60) {
		return v
	}
	rawOK := utf8.ValidString(v) && !strings.ContainsAny(v, "`\n\r\x00") && !strings.ContainsRune(v, '\ufeff')
	if rawOK && s.Chance(40) {
		return "`" + v + "`"
	}
	return strconv.Quote(v)
}

func genInt(s *pbt.Src, bits int) int64 {
	var v int64
	switch s.Intn(4) {
	case 0:
		v = int64(s.Intn(10))
	case 1:
		v = int64(s.Intn(100000))
	case 2:
		v = int64(s.U64() >> 1)
	case 3:
		v = pbt.Pick(s, int64(0), math.MaxInt32, math.MaxInt64, math.MaxInt32+1, 1<<53+1)
	}
	if s.Chance(30) {
		v = -v
		if v != 0 && s.Chance(10) {
			v--
		}
		if v > 0 {
			v = math.MinInt64
		}
	}
	if bits == 32 && (v > math.MaxInt32 || v < math.MinInt32) {
		v = int64(int32(v))
	}
	return v
}

func genFloat(s *pbt.Src) float64 {
	var f float64
	switch s.Intn(4) {
	case 0:
		f = float64(s.Intn(100)) / 4
	case 1:
		f = float64(s.Intn(1000000)) / 1000
	case 2:
		f = math.Float64frombits(s.U64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		f = math.Abs(f)
	case 3:
		f = pbt.Pick(s, 0.1, 1e6, 1e-9, math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53)
	}
	if f != 0 && s.Chance(30) {
		f = -f
	}
	return f
}

func spellFloat(s *pbt.Src, f float64, any bool) string {
	t := strconv.FormatFloat(f, pbt.Pick(s, byte('g'), 'f', 'e'), -1, 64)
	if len(t) > 60 {
		t = strconv.FormatFloat(f, 'g', -1, 64)
	}
	if any && !strings.ContainsAny(t, ".e") {
		t += ".0"
	}
	return t
}

// genMV generates a value of the type (as reflect.Value of its rtype) and a spelling of it.
func genMV(s *pbt.Src, m *mt, c mctx) (reflect.Value, string) {
	out := reflect.New(m.rtype()).Elem()
	if m.ptr {
		inner := *m
		inner.ptr = false
		v, t := genMV(s, &inner, c)
		p := reflect.New(inner.rtype())
		p.Elem().Set(v)
		out.Set(p)
		return out, t
	}
	switch m.kind {
	case "string":
		v := genText(s)
		out.SetString(v)
		return out, spellString(s, v, c)
	case "int", "int32":
		bits := 64
		if m.kind == "int32" {
			bits = 32
		}
		v := genInt(s, bits)
		out.SetInt(v)
		return out, strconv.FormatInt(v, 10)
	case "float":
		v := genFloat(s)
		out.SetFloat(v)
		return out, spellFloat(s, v, c.inAny)
	case "bool":
		v := s.Bool()
		out.SetBool(v)
		return out, strconv.FormatBool(v)
	case "any":
		v, t := genAny(s, c, 2)
		out.Set(v)
		return out, t
	case "slice":
		n := s.Small(4)
		out.Set(reflect.Zero(m.rtype()))
		scalar := m.elem.kind != "slice" && m.elem.kind != "map" && m.elem.kind != "any"
		// the legacy form cannot hold nested lists and cannot be empty
		legacy := scalar && n > 0 && !c.inLegacy && !c.inAny && s.Chance(45)
		sep := pbt.Pick(s, ",", ", ", " , ")
		if legacy {
			sep = pbt.Pick(s, ";", "; ")
		}
		var parts []string
		for i := 0; i < n; i++ {
			v, t := genMV(s, m.elem, mctx{inDelim: !legacy || c.inDelim, inLegacy: legacy, inAny: c.inAny})
			out = reflect.Append(out, v)
			parts = append(parts, t)
		}
		if legacy {
			return out, strings.Join(parts, sep)
		}
		return out, "{" + strings.Join(parts, sep) + "}"
	case "map":
		n := s.Small(3)
		out.Set(reflect.MakeMap(m.rtype()))
		var parts []string
		colon := pbt.Pick(s, ":", ": ")
		for i := 0; i < n; i++ {
			k := genText(s)
			if out.MapIndex(reflect.ValueOf(k)).IsValid() {
				continue
			}
			kt := spellString(s, k, mctx{inDelim: true, inAny: c.inAny})
			v, t := genMV(s, m.elem, mctx{inDelim: true, inAny: c.inAny})
			out.SetMapIndex(reflect.ValueOf(k), v)
			parts = append(parts, kt+colon+t)
		}
		return out, "{" + strings.Join(parts, pbt.Pick(s, ",", ", ")) + "}"
	}
	panic("kind " + m.kind)
}

// genAny generates a value whose type the parser has to guess.
func genAny(s *pbt.Src, c mctx, depth int) (reflect.Value, string) {
	c.inAny = true
	w := []int{5, 4, 3, 3, 3, 3}
	if depth <= 0 {
		w = []int{5, 4, 3, 3}
	}
	var m *mt
	switch s.PickW(w...) {
	case 0:
		m = &mt{kind: "string"}
	case 1:
		m = &mt{kind: "int"}
	case 2:
		m = &mt{kind: "float"}
	case 3:
		m = &mt{kind: "bool"}
	case 4: // a list: of scalars, lists, or maps
		e := &mt{kind: pbt.Pick(s, "string", "int", "float", "bool")}
		if depth > 1 && s.Chance(25) {
			e = &mt{kind: "slice", elem: e}
		} else if depth > 1 && s.Chance(20) {
			e = &mt{kind: "map", elem: &mt{kind: "any"}}
		}
		return genAnyList(s, e, c, depth)
	case 5: // an object; always map[string]any
		out := map[string]any{}
		n := s.Small(3)
		var parts []string
		for i := 0; i < n; i++ {
			k := genText(s)
			if _, dup := out[k]; dup {
				continue
			}
			kt := spellString(s, k, mctx{inDelim: true, inAny: true})
			v, t := genAny(s, mctx{inDelim: true}, depth-1)
			out[k] = v.Interface()
			parts = append(parts, kt+pbt.Pick(s, ":", ": ")+t)
		}
		return reflect.ValueOf(out), "{" + strings.Join(parts, pbt.Pick(s, ",", ", ")) + "}"
	}
	return genMV(s, m, c)
}

// genAnyList generates a non-empty list (an empty one is read as an empty object).
func genAnyList(s *pbt.Src, e *mt, c mctx, depth int) (reflect.Value, string) {
	n := 1 + s.Small(3)
	out := reflect.Zero(reflect.SliceOf(e.rtype()))
	scalar := e.kind != "slice" && e.kind != "map"
	legacy := scalar && n > 1 && !c.inDelim && !c.inLegacy && s.Chance(45)
	var parts []string
	for i := 0; i < n; i++ {
		var v reflect.Value
		var t string
		switch e.kind {
		case "slice":
			v, t = genAnyList(s, e.elem, mctx{inDelim: true, inAny: true}, depth-1)
		case "map":
			v, t = genAny(s, mctx{inDelim: true}, 0)
			v, t = reflect.ValueOf(map[string]any{"k": v.Interface()}), "{k: "+t+"}"
		default:
			v, t = genMV(s, e, mctx{inDelim: !legacy, inLegacy: legacy, inAny: true})
		}
		out = reflect.Append(out, v)
		parts = append(parts, t)
	}
	if legacy {
		return out, strings.Join(parts, ";")
	}
	return out, "{" + strings.Join(parts, pbt.Pick(s, ",", ", ")) + "}"
}

type mfield struct {
	goName, arg string
	opt         bool
	m           *mt
	tag         string
	present     bool
	val         reflect.Value
	text        string
}

type markerCase struct {
	name   string
	form   string // struct, anon, customany
	fields []mfield
	order  []int
	anon   *mt
	val    reflect.Value
	raw    string
	bad    string // the injected mistake, "" for a valid marker
	target markers.TargetType
	decoys []string
}

func genMarkerCase(s *pbt.Src, invalid bool) *markerCase {
	c := &markerCase{target: markers.TargetType(s.Intn(3))}
	c.name = pbt.Pick(s, "t", "test:mk", "kubebuilder:validation:Foo", "a.b/c:d-e")
	switch s.PickW(6, 4, 2) {
	case 0:
		c.form = "struct"
	case 1:
		c.form = "anon"
	case 2:
		c.form = "customany"
	}
	if s.Chance(50) {
		c.decoys = []string{"sibling", "othertarget", "child"}
	}
	switch c.form {
	case "anon":
		c.anon = genMT(s, 2)
		if c.anon.kind == "any" {
			c.anon = &mt{kind: "string"}
		}
		if s.Chance(15) {
			c.anon.ptr = true
		}
		v, t := genMV(s, c.anon, mctx{})
		c.val = v
		c.raw = "+" + c.name + "=" + t
	case "customany":
		v, t := genAny(s, mctx{}, 3)
		c.val = v
		c.raw = "+" + c.name + "=" + t
	case "struct":
		names := []string{"Alpha", "Beta", "GammaRay", "D", "Maximum", "Kind"}
		n := s.Small(5)
		for i := 0; i < n; i++ {
			f := mfield{goName: names[i], m: genMT(s, 2)}
			f.arg = strings.ToLower(f.goName[:1]) + f.goName[1:]
			switch s.Intn(5) {
			case 1:
				f.tag, f.opt = `marker:",optional"`, true
			case 2:
				f.arg = f.goName + "X"
				f.tag = `marker:"` + f.arg + `"`
			case 3:
				f.m.ptr, f.opt = true, true
			case 4:
				f.arg = "o" + f.goName
				f.tag, f.opt = `marker:"`+f.arg+`,optional"`, true
			}
			if f.m.kind == "any" && f.m.ptr {
				f.m.ptr, f.opt = false, false
			}
			f.present = !f.opt || s.Chance(60)
			if f.present {
				f.val, f.text = genMV(s, f.m, mctx{})
			}
			c.fields = append(c.fields, f)
		}
		c.order = s.Perm(n)
		c.render(s)
	}
	if invalid {
		c.spoil(s)
	}
	return c
}

func (c *markerCase) render(s *pbt.Src) {
	var parts []string
	for _, i := range c.order {
		if f := c.fields[i]; f.present {
			parts = append(parts, f.arg+"="+f.text)
		}
	}
	c.raw = "+" + c.name
	if len(parts) > 0 {
		c.raw += ":" + strings.Join(parts, pbt.Pick(s, ",", ", "))
	}
}

// wrongSpelling spells a value that is not of the type.
func wrongSpelling(s *pbt.Src, m *mt) (string, string) {
	switch m.kind {
	case "int":
		return pbt.Pick(s, "foo", `"5"`, "1.5", "true", "{1}", "-", "99999999999999999999", "5 6", "--5", "1;2"), "not an int"
	case "int32":
		return pbt.Pick(s, "foo", `"5"`, "1.5", "2147483648", "-2147483649", "4294967297", "99999999999999999999", "true", "1;2"), "not an int32"
	case "float":
		return pbt.Pick(s, "foo", `"5"`, "true", "{1.5}", "-", "1e999", "1.5.5", "1.5;2"), "not a number"
	case "bool":
		return pbt.Pick(s, "foo", `"true"`, "1", "True", "{true}", "truefalse", "true;false", "true false"), "not a bool"
	case "slice":
		switch m.elem.kind {
		case "int", "int32", "bool", "float":
			t, w := wrongSpelling(s, m.elem)
			if strings.ContainsAny(t, ";{") {
				t = "foo"
			}
			return "{" + t + "}", "item " + w
		}
		return pbt.Pick(s, "{a", "{a,b", "{a b} c", "{a}}"), "malformed list"
	case "map":
		switch m.elem.kind {
		case "int", "int32", "bool", "float":
			if s.Bool() {
				t, w := wrongSpelling(s, m.elem)
				if strings.ContainsAny(t, ";{") {
					t = "foo"
				}
				return "{k: " + t + "}", "value " + w
			}
		}
		return pbt.Pick(s, "foo", "{k}", "{k: ", "{k", "5", "true"), "malformed map"
	case "string":
		return pbt.Pick(s, `"abc`, "`abc", `"a" "b"`, `"a"b`, "{a,b}", "`a`,", `"\q"`), "malformed string"
	case "any":
		return pbt.Pick(s, `"abc`, "{a", "true false", `"a"b`, "{1, foo}", "1 2", "{k: 1"), "malformed any value"
	}
	panic("kind")
}

func (c *markerCase) spoil(s *pbt.Src) {
	switch c.form {
	case "anon":
		m := *c.anon
		m.ptr = false
		t, w := wrongSpelling(s, &m)
		c.raw, c.bad = "+"+c.name+"="+t, w
		if !c.anon.ptr && s.Chance(15) {
			c.raw, c.bad = "+"+c.name, "missing value"
		}
		return
	case "customany":
		t, w := wrongSpelling(s, &mt{kind: "any"})
		c.raw, c.bad = "+"+c.name+"="+t, w
		return
	}
	var required, present []int
	for i, f := range c.fields {
		if !f.opt {
			required = append(required, i)
		}
		if f.present {
			present = append(present, i)
		}
	}
	if len(c.fields) == 0 {
		return // no arguments to spoil: handled by the caller
	}
	opts := []string{"unknown"}
	if len(required) > 0 {
		opts = append(opts, "missing", "missing")
	}
	if len(present) > 0 {
		opts = append(opts, "wrong", "wrong", "wrong", "trailing")
	}
	switch opts[s.Intn(len(opts))] {
	case "unknown":
		c.bad = "unknown argument"
		switch {
		case len(present) == 0:
			c.raw = "+" + c.name + ":zzz=1"
		case s.Bool():
			c.raw += ",zzz=1" // bare strings and ;-lists end at the comma
		default:
			c.raw = strings.Replace(c.raw, "+"+c.name+":", "+"+c.name+":zzz=1,", 1)
		}
	case "missing":
		i := required[s.Intn(len(required))]
		c.fields[i].present = false
		c.render(s)
		c.bad = "missing argument " + c.fields[i].arg
	case "wrong":
		i := present[s.Intn(len(present))]
		m := *c.fields[i].m
		m.ptr = false
		c.fields[i].text, c.bad = wrongSpelling(s, &m)
		// last, so that what follows cannot complete it
		var order []int
		for _, k := range c.order {
			if k != i {
				order = append(order, k)
			}
		}
		c.order = append(order, i)
		c.render(s)
		c.bad = "argument " + c.fields[i].arg + " " + c.bad
	case "trailing":
		c.raw += pbt.Pick(s, ",", ", ,", "}", ",5", ",a b", ",=")
		c.bad = "trailing text"
	}
}

type customAny struct {
	Value interface{}
}

func (c *markerCase) output() any {
	switch c.form {
	case "anon":
		return reflect.New(c.anon.rtype()).Elem().Interface()
	case "customany":
		return customAny{}
	}
	var fs []reflect.StructField
	for _, f := range c.fields {
		fs = append(fs, reflect.StructField{Name: f.goName, Type: f.m.rtype(), Tag: reflect.StructTag(f.tag)})
	}
	return reflect.New(reflect.StructOf(fs)).Elem().Interface()
}

func (c *markerCase) expected() any {
	switch c.form {
	case "anon":
		return c.val.Interface()
	case "customany":
		return customAny{Value: c.val.Interface()}
	}
	v := reflect.New(reflect.TypeOf(c.output())).Elem()
	for _, f := range c.fields {
		if f.present {
			v.FieldByName(f.goName).Set(f.val)
		}
	}
	return v.Interface()
}

// registry registers the definition and its decoys.
func (c *markerCase) registry() (*markers.Registry, error) {
	reg := &markers.Registry{}
	var def *markers.Definition
	var err error
	if c.form == "customany" {
		def, err = markers.MakeAnyTypeDefinition(c.name, c.target, customAny{})
	} else {
		def, err = markers.MakeDefinition(c.name, c.target, c.output())
	}
	if err != nil {
		return nil, err
	}
	if err := reg.Register(def); err != nil {
		return nil, err
	}
	other := markers.TargetType((int(c.target) + 1) % 3)
	for _, d := range c.decoys {
		var err error
		switch d {
		case "sibling":
			err = reg.Define(c.name+"x", c.target, false)
		case "othertarget":
			err = reg.Define(c.name, other, []bool{})
		case "child":
			err = reg.Define(c.name+":qqchild", c.target, false)
		}
		if err != nil {
			return nil, err
		}
	}
	return reg, nil
}

func showMarker(a any) string {
	c := a.(*markerCase)
	var b strings.Builder
	fmt.Fprintf(&b, "definition %q (%s): %T\nmarker: %s\n", c.name, c.form, c.output(), strconv.QuoteToGraphic(c.raw))
	if c.bad != "" {
		fmt.Fprintf(&b, "mistake: %s\n", c.bad)
	}
	return b.String()
}

func looseEqual(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	if b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return looseEqual(a.Elem(), b.Elem())
	case reflect.Slice: // an empty list may be nil
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !looseEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !looseEqual(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !looseEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func checkMarkerValue(c *markerCase) pbt.Outcome {
	reg, err := c.registry()
	if err != nil {
		return pbt.Failf("definition rejected", "%v", err)
	}
	def := reg.Lookup(c.raw, c.target)
	if def == nil {
		return pbt.Failf("marker not found", "no definition for %q", c.raw)
	}
	if def.Name != c.name || def.Target != c.target {
		return pbt.Failf("wrong definition", "got %q/%v", def.Name, def.Target)
	}
	v, err := def.Parse(c.raw)
	if c.bad != "" {
		if err == nil {
			return pbt.Failf("invalid marker accepted", "%s: got %#v", c.bad, v)
		}
		return pbt.OK(true, "invalid: "+strings.Fields(c.bad)[0])
	}
	if err != nil {
		return pbt.Failf("valid marker rejected", "%v", err)
	}
	want := c.expected()
	if !looseEqual(reflect.ValueOf(v), reflect.ValueOf(want)) {
		return pbt.Failf("wrong value", "got  %#v\nwant %#v", v, want)
	}
	return pbt.OK(strings.ContainsAny(c.raw, "={"), c.form)
}

func init() {
	batchOf := func(name string, invalid bool, q, t int) *pbt.Family {
		return &pbt.Family{Name: name, Gen: func(s *pbt.Src) any {
			c := genMarkerCase(s, invalid)
			if invalid && c.bad == "" { // a marker without arguments: nothing to spoil
				c = &markerCase{name: "t", form: "anon", anon: &mt{kind: "int"}, raw: "+t=foo", bad: "not an int"}
			}
			return c
		}, Check: pbt.Each(checkMarkerValue), Show: showMarker, Batch: 500, Parallel: 8, Quick: q, Thorough: t, ShrinkBatch: 4000}
	}
	register(&Prop{
		ID:          "C01",
		Probes:      parseProbes,
		Rule:        "Random definitions (structs with required/optional/pointer/renamed fields, anonymous and any-typed markers over scalars, lists, maps, nesting 2) with decoy definitions; a value tree of the type is spelled in a random documented spelling and must parse back to it. The second family injects one mistake (missing, unknown, ill-typed or out-of-range argument, trailing text), which must be an error. Non-trivial: the marker has at least one argument.",
		Assumptions: []string{";-lists are only generated outside {…} when the type must be guessed (the documentation excludes nesting them)", "bare strings for any-typed values start with a letter and hold no digits, so that they cannot be read as another type", "single-quoted strings and repeated arguments are outside the documented syntax"},
		Families: []*pbt.Family{
			batchOf("values", false, 1200000, 12000000),
			batchOf("mistakes", true, 500000, 5000000),
		},
	})
}
