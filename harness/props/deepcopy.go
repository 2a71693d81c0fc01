package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/pbt"
	"verif/ws"
)

// ---- generator of Go packages for deepcopy (C14)

type dcNamed struct {
	Name   string
	Pkg    int    // index of the package
	Kind   string // struct slice map basic alias ptr
	Manual string // how copy methods are written by hand, "" if not
	Key    bool   // usable as a map key
	Object bool
	src    string
}

type dcPkg struct {
	dir, name string
	imports   map[string]string // alias -> path
	decls     []string
	types     []*dcNamed
}

type dcCase struct {
	pkgs   []*dcPkg // the last one may use all the others
	seed   uint64
	nils   bool // for the known finding
	odd    bool // has types that the generator may refuse
	labels []string
}

const casePath = "CASEPATH"

var dcExternals = []struct{ expr, alias, path string }{
	{"metav1.Time", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"resource.Quantity", "resource", "k8s.io/apimachinery/pkg/api/resource"},
	{"metav1.ObjectMeta", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"metav1.LabelSelector", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"metav1.Duration", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"intstr.IntOrString", "intstr", "k8s.io/apimachinery/pkg/util/intstr"},
	{"runtime.RawExtension", "runtime", "k8s.io/apimachinery/pkg/runtime"},
	{"apiext.JSON", "apiext", "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"},
	{"metav1.Condition", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"metav1.FieldsV1", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"json.RawMessage", "json", "encoding/json"},
}

type dcGen struct {
	s    *pbt.Src
	c    *dcCase
	p    *dcPkg
	pi   int
	cur  string // struct being declared
	kids []string
	odd  bool
}

func (g *dcGen) label(l string) { g.c.labels = append(g.c.labels, l) }

// ref writes a reference to a type from package p.
func (g *dcGen) ref(t *dcNamed) string {
	args := ""
	if t.Kind == "generic" {
		args = "[" + g.key() + "]"
	}
	if t.Pkg == g.pi {
		return t.Name + args
	}
	q := g.c.pkgs[t.Pkg]
	alias := fmt.Sprintf("dep%d", t.Pkg)
	g.p.imports[alias] = casePath + "/" + q.dir
	return alias + "." + t.Name + args
}

func (g *dcGen) earlier(ok func(*dcNamed) bool) []*dcNamed {
	var out []*dcNamed
	for i, p := range g.c.pkgs {
		if i > g.pi {
			break
		}
		for _, t := range p.types {
			if ok(t) {
				out = append(out, t)
			}
		}
	}
	return out
}

func (g *dcGen) basic() string {
	return pbt.Pick(g.s, "string", "int", "bool", "int64", "int32", "byte", "float64", "uint8", "rune", "uint64", "float32", "complex128", "int8")
}

func (g *dcGen) key() string {
	keys := g.earlier(func(t *dcNamed) bool { return t.Key })
	if len(keys) > 0 && g.s.Chance(30) {
		return g.ref(keys[g.s.Intn(len(keys))])
	}
	return pbt.Pick(g.s, "string", "int", "bool", "int64")
}

// typ writes a type expression.
func (g *dcGen) typ(depth int) string {
	s := g.s
	w := []int{3, 5, 4, 4, 4, 3, 2}
	if depth <= 0 {
		w = []int{3, 5, 0, 0, 0, 2, 0}
	}
	switch s.PickW(w...) {
	case 1:
		ts := g.earlier(func(*dcNamed) bool { return true })
		if len(ts) > 0 {
			return g.ref(ts[s.Intn(len(ts))])
		}
	case 2:
		return "[]" + g.typ(depth-1)
	case 3:
		return "map[" + g.key() + "]" + g.typ(depth-1)
	case 4:
		t := g.typ(depth - 1)
		if strings.HasPrefix(t, "*") && !s.Chance(25) {
			return t
		}
		return "*" + t
	case 5:
		e := dcExternals[s.Intn(len(dcExternals))]
		g.p.imports[e.alias] = e.path
		return e.expr
	case 6: // recursion
		if g.cur != "" {
			n := g.cur
			if len(g.kids) > 0 && s.Bool() {
				n = g.kids[s.Intn(len(g.kids))]
			}
			return pbt.Pick(s, "*", "[]", "[]*", "map[string]", "map[string]*") + n
		}
	}
	return g.basic()
}

// shallowManual: a struct whose only reason for a deep copy is a hand-written
// method of a basic type; whether that counts is not decided, so such structs get a slice too.
func (g *dcGen) structBody() string {
	s := g.s
	var b strings.Builder
	b.WriteString("struct {\n")
	n := s.Small(5)
	pad := false
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("F%d", i)
		switch s.PickW(12, 2, 2, 1) {
		case 1:
			name = fmt.Sprintf("f%d", i)
		case 2: // embedded
			ts := g.earlier(func(t *dcNamed) bool {
				return !used[t.Name] && t.Manual == "" && (t.Kind == "struct" || t.Kind == "slice" || t.Kind == "map" || t.Kind == "basic")
			})
			if len(ts) > 0 {
				t := ts[s.Intn(len(ts))]
				used[t.Name] = true
				star := ""
				if s.Chance(35) {
					star = "*"
				}
				g.label("embedded")
				fmt.Fprintf(&b, "\t%s%s\n", star, g.ref(t))
				continue
			}
		case 3:
			if g.odd && s.Chance(50) {
				g.label("blank field")
				fmt.Fprintf(&b, "\t_ %s\n", pbt.Pick(s, "struct{}", "int", "[]string"))
				continue
			}
		}
		t := g.typ(1 + s.Small(2))
		if strings.Contains(t, "ManB") {
			pad = true
		}
		fmt.Fprintf(&b, "\t%s %s\n", name, t)
	}
	if pad {
		b.WriteString("\tPad []byte\n")
	}
	b.WriteString("}")
	return b.String()
}

// manual writes the hand-made copy methods of a type.
func (g *dcGen) manual(t *dcNamed) string {
	s := g.s
	ptrLike := t.Kind == "slice" || t.Kind == "map"
	modes := []string{"copy-ptr", "into-ptr", "copy-val", "both-ptr", "into-ptr+copy-val"}
	if ptrLike || t.Kind == "basic" {
		modes = append(modes, "into-val", "into-val+copy-val")
	}
	t.Manual = pbt.Pick(s, modes...)
	g.label("manual " + t.Kind + " " + t.Manual)
	n := t.Name
	var b strings.Builder
	has := func(x string) bool { return strings.Contains(t.Manual, x) }
	if has("copy-ptr") || has("both-ptr") {
		fmt.Fprintf(&b, "func (in *%[1]s) DeepCopy() *%[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tout := copy%[1]s(*in)\n\treturn &out\n}\n", n)
	}
	if has("copy-val") {
		fmt.Fprintf(&b, "func (in %[1]s) DeepCopy() %[1]s { return copy%[1]s(in) }\n", n)
	}
	if has("into-ptr") || has("both-ptr") {
		fmt.Fprintf(&b, "func (in *%[1]s) DeepCopyInto(out *%[1]s) { *out = copy%[1]s(*in) }\n", n)
	}
	if has("into-val") {
		fmt.Fprintf(&b, "func (in %[1]s) DeepCopyInto(out *%[1]s) { *out = copy%[1]s(in) }\n", n)
	}
	switch t.Kind {
	case "struct":
		fmt.Fprintf(&b, "func copy%[1]s(in %[1]s) %[1]s {\n\tout := in\n\tif in.Items != nil {\n\t\tout.Items = append([]string{}, in.Items...)\n\t}\n\tif in.P != nil {\n\t\tx := *in.P\n\t\tout.P = &x\n\t}\n\tout.Mark++\n\treturn out\n}\n", n)
	case "slice":
		fmt.Fprintf(&b, "func copy%[1]s(in %[1]s) %[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\treturn append(append(%[1]s{}, in...), \"+\")\n}\n", n)
	case "map":
		fmt.Fprintf(&b, "func copy%[1]s(in %[1]s) %[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tout := %[1]s{}\n\tfor k, v := range in {\n\t\tout[k] = v\n\t}\n\tout[\"+\"] += \"+\"\n\treturn out\n}\n", n)
	case "basic":
		fmt.Fprintf(&b, "func copy%[1]s(in %[1]s) %[1]s { return in + \"+\" }\n", n)
	}
	return b.String()
}

func (g *dcGen) declare(i int) {
	s := g.s
	t := &dcNamed{Pkg: g.pi}
	switch s.PickW(16, 6, 6, 4, 8, 4, 6, 4, 5) {
	case 0:
		t.Name, t.Kind = fmt.Sprintf("S%d", i), "struct"
		g.cur = t.Name
		body := ""
		if s.Chance(12) { // a type marked as an object
			t.Object = true
			g.p.imports["metav1"] = dcExternals[0].path
			g.label("object")
			mark := pbt.Pick(s, "+kubebuilder:object:root=true", "+k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object")
			if s.Chance(25) {
				t.Name = fmt.Sprintf("Man%d", i)
				t.src = fmt.Sprintf("// %s\ntype %s struct {\n\tmetav1.TypeMeta\n\tItems []string\n\tP *int\n\tMark int\n}\n", mark, t.Name)
				t.src += g.manual(t)
				break
			}
			body = strings.Replace(g.structBody(), "struct {", "struct {\n\tmetav1.TypeMeta\n\tmetav1.ObjectMeta\n", 1)
			t.src = fmt.Sprintf("// %s\ntype %s %s\n", mark, t.Name, body)
			break
		}
		body = g.structBody()
		t.src = fmt.Sprintf("type %s %s\n", t.Name, body)
		if s.Chance(40) {
			g.kids = append(g.kids, t.Name)
		}
	case 1:
		t.Name, t.Kind = fmt.Sprintf("L%d", i), "slice"
		t.src = fmt.Sprintf("type %s []%s\n", t.Name, g.typ(2))
	case 2:
		t.Name, t.Kind = fmt.Sprintf("M%d", i), "map"
		t.src = fmt.Sprintf("type %s map[%s]%s\n", t.Name, g.key(), g.typ(2))
	case 3:
		t.Name, t.Kind, t.Key = fmt.Sprintf("B%d", i), "basic", true
		t.src = fmt.Sprintf("type %s %s\n", t.Name, g.basic())
	case 4:
		t.Kind = pbt.Pick(s, "struct", "slice", "map", "basic")
		switch t.Kind {
		case "struct":
			t.Name = fmt.Sprintf("Man%d", i)
			t.src = fmt.Sprintf("type %s struct {\n\tItems []string\n\tP *int\n\tMark int\n}\n", t.Name)
		case "slice":
			t.Name = fmt.Sprintf("ManL%d", i)
			t.src = fmt.Sprintf("type %s []string\n", t.Name)
		case "map":
			t.Name = fmt.Sprintf("ManM%d", i)
			t.src = fmt.Sprintf("type %s map[string]string\n", t.Name)
		case "basic":
			t.Name = fmt.Sprintf("ManB%d", i)
			t.src = fmt.Sprintf("type %s string\n", t.Name)
		}
		t.src += g.manual(t)
	case 5:
		t.Name, t.Kind, t.Key = fmt.Sprintf("K%d", i), "struct", true
		t.src = fmt.Sprintf("type %s struct {\n\tA string\n\tB int\n}\n", t.Name)
	case 6: // Go alias
		t.Name, t.Kind = fmt.Sprintf("A%d", i), "alias"
		g.cur = ""
		x := g.typ(1)
		t.Key = x == "string" || x == "int" || x == "bool"
		if strings.Contains(x, "ManB") {
			t.Name = fmt.Sprintf("AManB%d", i) // keeps the padding rule
		}
		g.label("alias")
		t.src = fmt.Sprintf("type %s = %s\n", t.Name, x)
	case 7: // a type defined by another
		ts := g.earlier(func(x *dcNamed) bool {
			return x.Manual == "" && x.Kind != "alias" && !strings.HasPrefix(x.Name, "GA") && !x.Object && (x.Pkg == g.pi || x.Kind != "struct")
		})
		if len(ts) == 0 {
			t.Name, t.Kind = fmt.Sprintf("L%d", i), "slice"
			t.src = fmt.Sprintf("type %s []string\n", t.Name)
			break
		}
		x := ts[s.Intn(len(ts))]
		t.Name, t.Kind, t.Key = fmt.Sprintf("D%d", i), x.Kind, x.Key
		if x.Kind == "generic" {
			t.Kind = "struct"
		}
		g.label("defined by named")
		t.src = fmt.Sprintf("type %s %s\n", t.Name, g.ref(x))
	case 8: // generic types, which need hand-written methods or none
		t.Kind = "generic"
		switch s.PickW(3, 3, 2) {
		case 0:
			g.label("generic with methods")
			t.Name = fmt.Sprintf("ManG%d", i)
			t.Manual = pbt.Pick(s, "both-ptr", "into-ptr+copy-val")
			t.src = strings.ReplaceAll("type N[T any] struct {\n\tItems []T\n\tP *T\n\tMark int\n}\n"+
				"func copyN[T any](in N[T]) N[T] {\n\tout := in\n\tif in.Items != nil {\n\t\tout.Items = append([]T{}, in.Items...)\n\t}\n\tif in.P != nil {\n\t\tx := *in.P\n\t\tout.P = &x\n\t}\n\tout.Mark++\n\treturn out\n}\n"+
				"func (in *N[T]) DeepCopyInto(out *N[T]) { *out = copyN(*in) }\n", "N[", t.Name+"[")
			t.src = strings.ReplaceAll(t.src, "copyN", "copy"+t.Name)
			if t.Manual == "both-ptr" {
				t.src += fmt.Sprintf("func (in *%[1]s[T]) DeepCopy() *%[1]s[T] {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tout := copy%[1]s(*in)\n\treturn &out\n}\n", t.Name)
			} else {
				t.src += fmt.Sprintf("func (in %[1]s[T]) DeepCopy() %[1]s[T] { return copy%[1]s(in) }\n", t.Name)
			}
		case 1:
			g.label("generic without references")
			t.Name = fmt.Sprintf("G%d", i)
			t.src = fmt.Sprintf("// %s\ntype %s[T any] struct {\n\tV T\n\tN int\n}\n", "+kubebuilder:object:generate=false", t.Name)
		case 2:
			g.label("generic alias")
			t.Name = fmt.Sprintf("GA%d", i)
			t.src = fmt.Sprintf("type %s[T any] = %s\n", t.Name, pbt.Pick(s, "[]T", "map[string]T", "*T", "map[string][]T"))
		}
	}
	g.cur = ""
	g.p.types = append(g.p.types, t)
	g.p.decls = append(g.p.decls, t.src)
}

func genDeepCopyCase(s *pbt.Src) any {
	c := &dcCase{}
	g := &dcGen{s: s, c: c, odd: s.Chance(10)}
	np := s.PickW(4, 4, 2) // helper packages
	dirs := pbt.Shuffle(s, []string{"b", "core/v1", "apps/v1", "meta/v1", "runtime", "x-y.z", "v1", "pkg/a"})
	if s.Chance(12) {
		dirs = append(pbt.Shuffle(s, []string{"in", "out", "type", "string", "new", "key", "api/2024", "2024", "val", "len", "x", "copy", "~b/v1", "v1~x"}), dirs...)
		g.label("odd directory")
	}
	for pi := 0; pi <= np; pi++ {
		p := &dcPkg{imports: map[string]string{}, name: fmt.Sprintf("dep%d", pi)}
		if pi < np {
			p.dir = dirs[pi]
			if s.Bool() {
				p.name = pbt.Pick(s, "v1", "b", "api")
			}
		} else {
			p.dir, p.name = "root", pbt.Pick(s, "root", "v1", "runtime", "a")
		}
		g.p, g.pi, g.kids = p, pi, nil
		c.pkgs = append(c.pkgs, p)
		for i, n := 0, 1+s.Small(6); i < n; i++ {
			g.declare(i)
		}
		if pi == np && g.odd && s.Bool() {
			// package-level names that an import could take
			p.decls = append(p.decls, fmt.Sprintf("var %s = 1\n", pbt.Pick(s, "v1", "metav1v1", "corev1", "appsv1", "resource1")))
			g.label("package-level name")
		}
	}
	c.seed = s.U64()
	return c
}

// genOddDeepCopyCase makes a package whose types may hold anything Go allows:
// the generator reports what it cannot copy, or generates code that copies it.
func genOddDeepCopyCase(s *pbt.Src) any {
	c := &dcCase{odd: true, seed: s.U64()}
	p := &dcPkg{imports: map[string]string{}, dir: "root", name: "root"}
	c.pkgs = []*dcPkg{p}
	skip := "// +kubebuilder:object:generate=false\n"
	p.decls = append(p.decls,
		skip+"type Iface interface{ M() }\n", skip+"type Arr [3]string\n", skip+"type Fn func()\n", skip+"type Any any\n", skip+"type Chan chan int\n",
		skip+"type Anon = struct{ X []string }\n", skip+"type Flat = struct{ X string }\n", skip+"type Opt[T any] struct{ V T }\n",
		"type lower struct{ a int }\n", "type lowerName string\n", "type lowerList []string\n")
	var names []string
	var typ func(d int, key bool) string
	typ = func(d int, key bool) string {
		w := []int{6, 3, 3, 3, 3, 1, 1, 1, 1}
		if d <= 0 {
			w = []int{6, 3, 0, 0, 0, 0, 0, 1, 0}
		}
		if key {
			w = []int{6, 3, 0, 0, 1, 1, 1, 0, 0}
		}
		switch s.PickW(w...) {
		case 1:
			odd := []string{"Iface", "Arr", "Any", "Flat", "lower", "lowerName", "error", "any", "uintptr", "struct{}", "[2]int", "struct{ A int }", "interface{ N() }", "Opt[int]", "Opt[Opt[bool]]"}
			if !key {
				odd = append(odd, "Fn", "Chan", "Anon", "lowerList", "func(int) string", "chan bool", "struct{ A []string }", "struct{ A map[string]string }")
			}
			o := odd[s.Intn(len(odd))]
			c.labels = append(c.labels, o)
			return o
		case 2:
			return "[]" + typ(d-1, false)
		case 3:
			return "map[" + typ(0, true) + "]" + typ(d-1, false)
		case 4:
			return "*" + typ(d-1, false)
		case 5:
			return fmt.Sprintf("[%d]", 1+s.Small(3)) + typ(d-1, key)
		case 6:
			return "struct{ A " + typ(d-1, key) + " }"
		case 7:
			if len(names) > 0 {
				return names[s.Intn(len(names))]
			}
		case 8:
			return "**" + typ(d-1, false)
		}
		return pbt.Pick(s, "string", "int", "bool", "float64")
	}
	for i, n := 0, 1+s.Small(2); i < n; i++ {
		t := &dcNamed{Name: fmt.Sprintf("T%d", i), Kind: "struct"}
		switch s.PickW(5, 1, 1, 1) {
		case 0:
			var b strings.Builder
			for f, m := 0, 1+s.Small(2); f < m; f++ {
				fmt.Fprintf(&b, "\tF%d %s\n", f, typ(s.Intn(3), false))
			}
			if s.Chance(10) {
				fmt.Fprintf(&b, "\t%s\n", pbt.Pick(s, "Iface", "Arr", "Any", "lower", "lowerName", "lowerList", "Opt[int]", "error"))
			}
			clash := ""
			if s.Chance(12) { // called like the methods, but something else
				m := pbt.Pick(s, "DeepCopy", "DeepCopyInto", "DeepCopyObject")
				c.labels = append(c.labels, m)
				switch s.Intn(2) {
				case 0:
					fmt.Fprintf(&b, "\t%s %s\n", m, pbt.Pick(s, "bool", "*string", "func(*int)", "func() *int"))
				default: // brought by an embedded type, which is fine
					fmt.Fprintf(&b, "\tE%s\n", t.Name)
					clash = fmt.Sprintf("\ntype E%s struct {\n\t%s int\n\tL []string\n}\n", t.Name, pbt.Pick(s, m, "X"))
				}
			}
			t.src = fmt.Sprintf("type %s struct {\n%s}\n%s", t.Name, b.String(), clash)
			if clash == "" && s.Chance(10) {
				t.Kind = "generic"
				t.src = fmt.Sprintf("type %s[P any] struct {\n%s\tV P\n}\n", t.Name, b.String())
			}
		case 1:
			t.Kind = "slice"
			t.src = fmt.Sprintf("type %s []%s\n", t.Name, typ(2, false))
		case 2:
			t.Kind = "map"
			t.src = fmt.Sprintf("type %s map[%s]%s\n", t.Name, typ(0, true), typ(2, false))
		case 3: // may have no methods at all
			t.Kind = "ptr"
			t.src = fmt.Sprintf("type %s %s\n", t.Name, typ(2, false))
		}
		if t.Kind == "struct" {
			names = append(names, t.Name)
		}
		p.types = append(p.types, t)
		p.decls = append(p.decls, t.src)
	}
	return c
}

func (p *dcPkg) source(prefix string, skipImports bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "// +kubebuilder:object:generate=true\n\npackage %s\n\n", p.name)
	body := strings.Join(p.decls, "\n")
	var as []string
	for a := range p.imports {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		if regexp.MustCompile(`\b` + a + `\.`).MatchString(body) {
			alias := a
			fmt.Fprintf(&b, "import %s %q\n", alias, strings.ReplaceAll(p.imports[a], casePath, prefix))
		}
	}
	b.WriteString("\n" + body)
	return b.String()
}

func (c *dcCase) files(i int) ws.Files {
	f := ws.Files{}
	prefix := fmt.Sprintf("%s/c%d", ws.Mod, i)
	for _, p := range c.pkgs {
		f[p.dir+"/types.go"] = p.source(prefix, false)
	}
	return f
}

func showDeepCopyCase(a any) string {
	c := a.(*dcCase)
	return c.files(0).Show() + fmt.Sprintf("seed %d", c.seed)
}

const dcDriver = `package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"
	"unsafe"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
)

type line struct {
	Case  int
	Type  string
	Fail  string
	Count int // values copied
	Deep  int // values that held references
}

var r *rand.Rand
var nils = NILS // nil pointers in maps to types whose DeepCopy has a value receiver

func rw(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var (
	tTime = reflect.TypeOf(metav1.Time{})
	tGoTime = reflect.TypeOf(time.Time{})
	tQty  = reflect.TypeOf(resource.Quantity{})
	tRaw  = reflect.TypeOf(runtime.RawExtension{})
	tJSON = reflect.TypeOf(apiext.JSON{})
)

func opaque(t reflect.Type) bool { return t == tGoTime || t == tQty || t == tRaw }

func fill(v reflect.Value, d int) {
	v = rw(v)
	switch v.Type() {
	case tGoTime:
		v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), int64(r.Intn(1e9))).UTC()))
		return
	case tQty:
		q := resource.MustParse([]string{"0", "1", "100m", "2Gi", "123456789012345678901234567890", "0.00000000012", "-3k"}[r.Intn(7)])
		if r.Intn(2) == 0 { _ = q.String() }
		v.Set(reflect.ValueOf(q))
		return
	case tRaw:
		x := runtime.RawExtension{}
		if r.Intn(2) == 0 { x.Raw = []byte("{}") }
		v.Set(reflect.ValueOf(x))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(100)) - 20)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.Intn(100)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(64)) / 4)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(9)), 1))
	case reflect.String:
		v.SetString([]string{"", "a", "b", "xyz"}[r.Intn(4)])
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" { continue }
			fill(v.Field(i), d-1)
		}
	case reflect.Pointer:
		if d <= 0 || r.Intn(4) == 0 { v.SetZero(); return }
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), d-1)
		v.Set(p.Convert(v.Type()))
	case reflect.Slice:
		if d <= 0 || r.Intn(5) == 0 { v.SetZero(); return }
		n := r.Intn(4)
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(3))
		for i := 0; i < n; i++ { fill(s.Index(i), d-1) }
		v.Set(s)
	case reflect.Map:
		if d <= 0 || r.Intn(5) == 0 { v.SetZero(); return }
		m := reflect.MakeMap(v.Type())
		for n := r.Intn(4); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			fill(k, d-1)
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, d-1)
			if !nils && e.Kind() == reflect.Pointer && e.IsNil() {
				// a known finding
				if _, ok := e.Type().Elem().MethodByName("DeepCopy"); ok { continue }
				if _, ok := e.Type().Elem().MethodByName("DeepCopyInto"); ok { continue }
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	}
}

// clone is the reference deep copy: structural, with hand-written methods (mark) applied once.
func clone(v reflect.Value, mark bool) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	src := reflect.New(v.Type()).Elem()
	src.Set(v)
	if opaque(v.Type()) {
		if v.Type() == tQty {
			q := src.Addr().Interface().(*resource.Quantity)
			out.Set(reflect.ValueOf(q.DeepCopy()))
			return out
		}
		if v.Type() == tRaw {
			x := src.Interface().(runtime.RawExtension)
			if x.Raw != nil { x.Raw = append([]byte{}, x.Raw...) }
			out.Set(reflect.ValueOf(x))
			return out
		}
		out.Set(src)
		return out
	}
	man := mark && strings.HasPrefix(v.Type().Name(), "Man") && strings.HasPrefix(v.Type().PkgPath(), "ex.test/")
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" { continue }
			rw(out.Field(i)).Set(clone(rw(src.Field(i)), mark))
		}
		if man {
			f := out.FieldByName("Mark")
			f.SetInt(f.Int() + 1)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem(), mark))
			out.Set(p.Convert(v.Type()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), 0, v.Len()+1)
			for i := 0; i < v.Len(); i++ { s = reflect.Append(s, clone(v.Index(i), mark)) }
			if man { s = reflect.Append(s, reflect.ValueOf("+")) }
			out.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() { m.SetMapIndex(k, clone(v.MapIndex(k), mark)) }
			if man {
				x := m.MapIndex(reflect.ValueOf("+"))
				s := "+"
				if x.IsValid() { s = x.String() + "+" }
				m.SetMapIndex(reflect.ValueOf("+"), reflect.ValueOf(s))
			}
			out.Set(m)
		}
	case reflect.String:
		out.Set(src)
		if man { out.SetString(src.String() + "+") }
	default:
		out.Set(src)
	}
	return out
}

// span is a piece of memory that a value refers to.
type span struct{ lo, hi uintptr; what string }

func spans(v reflect.Value, path string, out *[]span) {
	if v.Type() == tGoTime { return }
	src := v
	if !v.CanAddr() {
		src = reflect.New(v.Type()).Elem()
		src.Set(v)
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" { continue }
			spans(rw(src.Field(i)), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem().Size() > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + v.Type().Elem().Size(), path})
			spans(v.Elem(), "(*"+path+")", out)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), path})
		}
		for i := 0; i < v.Len(); i++ { spans(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out) }
	case reflect.Map:
		if !v.IsNil() {
			*out = append(*out, span{v.Pointer(), v.Pointer() + 1, path})
			for _, k := range v.MapKeys() { spans(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out) }
		}
	}
}

func shared(a, b []span) string {
	for _, x := range a {
		for _, y := range b {
			if x.lo < y.hi && y.lo < x.hi { return "original" + x.what + " and copy" + y.what }
		}
	}
	return ""
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if b, err := json.Marshal(v.Interface()); err == nil { s = string(b) }
	if len(s) > 400 { s = s[:400] }
	return s
}

func check(i int, name string, t reflect.Type, obj bool, seed int64) (l line) {
	l = line{Case: i, Type: name}
	defer func() {
		if e := recover(); e != nil { l.Fail = fmt.Sprintf("copying panics: %v", e) }
	}()
	r = rand.New(rand.NewSource(seed))
	refs := t.Kind() == reflect.Slice || t.Kind() == reflect.Map
	into, ok := reflect.PointerTo(t).MethodByName("DeepCopyInto")
	if !ok { l.Fail = "no DeepCopyInto"; return }
	_ = into
	if _, ok := reflect.PointerTo(t).MethodByName("DeepCopy"); !ok { l.Fail = "no DeepCopy"; return }
	if obj {
		if _, ok := reflect.New(t).Interface().(runtime.Object); !ok { l.Fail = "not a runtime.Object"; return }
	}
	for n := 0; n < VALUES; n++ {
		p := reflect.New(t)
		fill(p.Elem(), 6)
		if refs && p.Elem().IsNil() { continue }
		want := clone(p.Elem(), true)
		before := clone(p.Elem(), false)
		var os []span
		spans(p, "", &os)
		l.Count++
		if len(os) > 1 { l.Deep++ }
		verdict := func(what string, got reflect.Value) bool {
			if !reflect.DeepEqual(got.Interface(), want.Interface()) {
				l.Fail = fmt.Sprintf("%s of %s gives %s, want %s", what, show(before), show(got), show(want))
				return false
			}
			if !reflect.DeepEqual(p.Elem().Interface(), before.Interface()) {
				l.Fail = fmt.Sprintf("%s changes the original %s to %s", what, show(before), show(p.Elem()))
				return false
			}
			var cs []span
			spans(got, "", &cs)
			if sh := shared(os, cs); sh != "" {
				l.Fail = fmt.Sprintf("%s of %s shares memory: %s", what, show(before), sh)
				return false
			}
			return true
		}
		x := p.MethodByName("DeepCopy").Call(nil)[0]
		if x.Kind() == reflect.Pointer && x.Type().Elem() == t { x = x.Elem() }
		hold := reflect.New(t)
		if x.Type() != t { l.Fail = "DeepCopy returns " + x.Type().String(); return }
		hold.Elem().Set(x)
		if !verdict("DeepCopy", hold.Elem()) { return }
		dirty := reflect.New(t)
		fill(dirty.Elem(), 4)
		p.MethodByName("DeepCopyInto").Call([]reflect.Value{dirty})
		if !verdict("DeepCopyInto", dirty.Elem()) { return }
		if obj {
			o := p.Interface().(runtime.Object).DeepCopyObject()
			if reflect.TypeOf(o) != reflect.PointerTo(t) { l.Fail = fmt.Sprintf("DeepCopyObject returns %T", o); return }
			if !verdict("DeepCopyObject", reflect.ValueOf(o).Elem()) { return }
		}
	}
	return
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, t := range types {
		enc.Encode(check(t.i, t.name, t.t, t.obj, t.seed))
	}
}

type entry struct { i int; name string; t reflect.Type; obj bool; seed int64 }
`

const dcValues = 12

type dcLine struct {
	Case        int
	Type, Fail  string
	Count, Deep int
}

// buildAndDrive compiles the generated code of the cases and runs the driver over those that compile.
func dcDrive(dir string, cases []any, skip map[int]string) ([][]dcLine, error) {
	lines := make([][]dcLine, len(cases))
	env := append(os.Environ(), "GOFLAGS=-mod=mod")
	// compile everything; errors are printed per package
	vet := exec.Command("go", "build", "-gcflags=-e", "./...")
	vet.Dir, vet.Env = dir, env
	out, err := vet.CombinedOutput()
	if err != nil {
		cur := -1
		found := false
		for _, l := range strings.Split(string(out), "\n") {
			var i int
			if n, _ := fmt.Sscanf(l, "# "+ws.Mod+"/c%d/", &i); n == 1 {
				cur = i
				continue
			}
			if cur < 0 || l == "" {
				continue
			}
			found = true
			if _, dup := skip[cur]; !dup {
				skip[cur] = "the generated code does not compile: " + l
			}
		}
		if !found {
			// errors outside packages, such as import problems
			for _, m := range regexp.MustCompile(`(?m)^c(\d+)/.*$`).FindAllStringSubmatch(string(out), -1) {
				var i int
				fmt.Sscan(m[1], &i)
				if _, dup := skip[i]; !dup {
					skip[i] = "the generated code does not compile: " + m[0]
				}
				found = true
			}
		}
		if !found {
			return nil, fmt.Errorf("go build: %v\n%s", err, head(string(out), 2000))
		}
	}
	var imp, body strings.Builder
	for i, a := range cases {
		if _, bad := skip[i]; bad {
			continue
		}
		c := a.(*dcCase)
		for pi, p := range c.pkgs {
			used := false
			for _, t := range p.types {
				if t.Kind == "alias" || t.Kind == "ptr" || t.Kind == "generic" || t.Kind == "basic" && t.Manual == "" {
					continue
				}
				used = true
				fmt.Fprintf(&body, "\t{%d, %q, reflect.TypeOf((*c%dp%d.%s)(nil)).Elem(), %v, %d},\n", i, p.dir+"."+t.Name, i, pi, t.Name, t.Object, int64(c.seed>>1)+int64(pi))
			}
			if used {
				fmt.Fprintf(&imp, "import c%dp%d %q\n", i, pi, fmt.Sprintf("%s/c%d/%s", ws.Mod, i, p.dir))
			}
		}
	}
	src := "package main\n\nimport \"reflect\"\n" + imp.String() + "\nvar _ = reflect.TypeOf\nvar types = []entry{\n" + body.String() + "}\n"
	if err := ws.WriteFiles(filepath.Join(dir, "zz"), ws.Files{"main.go": strings.Replace(strings.Replace(dcDriver, "VALUES", fmt.Sprint(dcValues), 1), "NILS", fmt.Sprint(cases[0].(*dcCase).nils), 1), "types.go": src}); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "zz.bin")
	cmd := exec.Command("go", "build", "-o", bin, "./zz")
	cmd.Dir, cmd.Env = dir, env
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v\n%s", err, head(string(out), 3000))
	}
	run := exec.Command(bin)
	var stdout, stderr bytes.Buffer
	run.Stdout, run.Stderr = &stdout, &stderr
	if err := run.Run(); err != nil {
		return nil, fmt.Errorf("run: %v\n%s", err, head(stderr.String(), 3000))
	}
	sc := bufio.NewScanner(&stdout)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var l dcLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			return nil, err
		}
		lines[l.Case] = append(lines[l.Case], l)
	}
	return lines, sc.Err()
}

func checkDeepCopyBatch(cases []any) []pbt.Outcome {
	dir := Scratch("dc")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, a.(*dcCase).files(i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	skip := map[int]string{}
	for i := range cases {
		roots := l.Case(i)
		for _, r := range roots {
			if len(r.Errors) > 0 {
				panic(pbt.HarnessPanic(fmt.Sprintf("generated package does not load: %v\n%s", r.Errors, showDeepCopyCase(cases[i]))))
			}
		}
		var res ws.Result
		outs[i] = pbt.Guard(func() pbt.Outcome {
			res = ws.Run(deepcopy.Generator{}, roots)
			return pbt.Outcome{}
		})
		if outs[i].Fail != "" {
			skip[i] = ""
			continue
		}
		bad := ""
		for _, e := range typeErrors(roots) {
			// the sources themselves must be valid Go: a fault of the generator of cases
			panic(pbt.HarnessPanic(fmt.Sprintf("%s\n%s", e, showDeepCopyCase(cases[i]))))
		}
		if res.Bad() && cases[i].(*dcCase).odd {
			outs[i] = pbt.OK(true, append(cases[i].(*dcCase).labels, "refused")...)
			skip[i] = "refused"
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("c%d", i)))
			continue
		}
		if res.Bad() {
			bad = "the generator refuses valid types: " + res.Errs[0]
			outs[i] = pbt.Failf("refused", "%s", bad)
			skip[i] = bad
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("c%d", i)))
			continue
		}
		for k, b := range res.Files {
			pkg, item, _ := strings.Cut(k, "|")
			rel := strings.TrimPrefix(pkg, ws.Mod+"/")
			if err := os.WriteFile(filepath.Join(dir, rel, item), b, 0o644); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
		}
	}
	lines, err := dcDrive(dir, cases, skip)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	for i := range cases {
		if outs[i].Fail != "" || skip[i] == "refused" {
			continue
		}
		if why, bad := skip[i]; bad {
			if strings.Contains(why, "/types.go:") {
				// valid until the generated methods met the hand-written ones, or a fault of the generator of cases
				if !strings.Contains(why, "already declared") && !strings.Contains(why, "zz_generated") {
					panic(pbt.HarnessPanic(why + "\n" + showDeepCopyCase(cases[i])))
				}
			}
			outs[i] = pbt.Failf("compile", "%s", why)
			continue
		}
		n, deep := 0, 0
		for _, ln := range lines[i] {
			n += ln.Count
			deep += ln.Deep
			if ln.Fail != "" {
				class := strings.Fields(ln.Fail)[0]
				switch {
				case strings.Contains(ln.Fail, "panics"):
					class = "panic"
				case strings.Contains(ln.Fail, "shares memory"):
					class = "shared"
				case strings.Contains(ln.Fail, "changes the original"):
					class = "original"
				case strings.Contains(ln.Fail, ", want "):
					class = "unequal"
				}
				outs[i] = pbt.Failf(class, "%s: %s", ln.Type, ln.Fail)
				break
			}
		}
		if outs[i].Fail == "" {
			outs[i] = pbt.OK(deep >= 3, cases[i].(*dcCase).labels...)
		}
	}
	return outs
}

func typeErrors(roots []*loader.Package) []string {
	var out []string
	for _, r := range roots {
		for _, e := range r.Errors {
			if e.Kind == 3 { // packages.TypeError
				out = append(out, e.Error())
			}
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "at least three values with references were copied",
		Assumptions: []string{
			"types are named structs, slices, maps and basic types, pointers to them, named types over them and aliases; defined pointer types (type P *T), generic types that need generated methods, arrays, interfaces, channels, functions and anonymous structs need not be supported (in report-or-copy such a type is reported or copied properly); structs without copy methods that get none (unexported, of other packages, or with generation disabled) are outside, as are methods called like the generated ones but of another shape (the compiler reports them; pinned by the golden file)",
			"structs whose only hand-written copy method is that of a basic-typed field, and which hold no reference, are outside: the generator copies them like a basic value in some positions",
			"map keys are copied as they are",
		},
		Probes: []Probe{{Key: "map-nil-pointer", Run: func() pbt.Outcome {
			c := &dcCase{seed: 1, nils: true, pkgs: []*dcPkg{{dir: "root", name: "root",
				imports: map[string]string{"resource": "k8s.io/apimachinery/pkg/api/resource"},
				decls:   []string{"type M map[string]*resource.Quantity\n"},
				types:   []*dcNamed{{Name: "M", Kind: "map"}}}}}
			return checkDeepCopyBatch([]any{c})[0]
		}}},
		Families: []*pbt.Family{{
			Name: "compile-and-copy", Gen: genDeepCopyCase, Check: checkDeepCopyBatch, Show: showDeepCopyCase,
			Batch: 40, Parallel: 3, Quick: 880, Thorough: 12000, ShrinkBatch: 40,
		}, {
			Name: "report-or-copy", Gen: genOddDeepCopyCase, Check: checkDeepCopyBatch, Show: showDeepCopyCase,
			Batch: 60, Parallel: 3, Quick: 360, Thorough: 6000, ShrinkBatch: 40,
		}},
	})
}
