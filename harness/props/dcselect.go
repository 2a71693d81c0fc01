package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"

	"verif/pbt"
	"verif/ws"
)

// ---- which types get deep-copy methods (C15)

type dsCase struct {
	files ws.Files
	want  map[string][]string // package directory -> "Type.Method"
	name  map[string]string   // package names
	hdr   string
	year  string
	n     int
}

type dsType struct {
	name    string
	markers []string
	decl    string
	methods string
	want    []string
}

func genDCSelect(s *pbt.Src) any {
	c := &dsCase{files: ws.Files{}, want: map[string][]string{}, name: map[string]string{}}
	if s.Chance(40) {
		c.hdr = pbt.Pick(s, "/*\nCopyright YEAR Somebody.\n*/", "// Copyright YEAR Somebody\n", "// no date", "// YEAR\n// until YEAR YEARS")
		c.year = pbt.Pick(s, "", "2026", "1999-2026")
	}
	for pi, np := 0, 1+s.Small(2); pi < np; pi++ {
		dir := fmt.Sprintf("p%d", pi)
		name := pbt.Pick(s, "v1", dir, "api")
		c.name[dir] = name
		enabled, pm := dsPkgMarkers(s)
		var types []*dsType
		for i, n := 0, s.Small(6); i < n; i++ {
			types = append(types, dsGenType(s, i, enabled))
		}
		// spread over files
		nf := 1 + s.Small(2)
		bufs := make([]strings.Builder, nf)
		uses := make([]bool, nf)
		for _, t := range types {
			f := s.Intn(nf)
			b := &bufs[f]
			doc := ""
			for _, m := range t.markers {
				doc += "// +" + m + "\n"
			}
			if doc != "" {
				switch s.PickW(4, 2, 2) {
				case 1:
					doc = "// A type.\n" + doc
				case 2:
					doc += "\n// A type.\n"
				}
			}
			if strings.Contains(t.decl, "metav1.") {
				uses[f] = true
			}
			if s.Chance(20) {
				ind := strings.ReplaceAll(strings.TrimSuffix(doc, "\n"), "\n", "\n\t")
				if ind != "" {
					ind = "\t" + ind + "\n"
				}
				fmt.Fprintf(b, "type (\n%s\t%s\n)\n\n", ind, t.decl)
			} else {
				fmt.Fprintf(b, "%stype %s\n\n", doc, t.decl)
			}
			b.WriteString(t.methods)
			c.want[dir] = append(c.want[dir], t.want...)
			c.n += len(t.markers)
		}
		sort.Strings(c.want[dir])
		c.n += len(pm)
		mf := s.Intn(nf)
		for f := range bufs {
			h := ""
			tail := ""
			if f == mf {
				for _, m := range pm {
					if s.Chance(30) {
						tail += "// +" + m + "\n\n"
					} else {
						h += "// +" + m + "\n"
					}
				}
				if h != "" && s.Bool() {
					h += "\n"
				}
			}
			src := h + "package " + name + "\n\n"
			if uses[f] {
				src += "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n"
			}
			if tail != "" {
				src += tail + "const someConst = 1\n\n"
			}
			c.files[fmt.Sprintf("%s/f%d.go", dir, f)] = src + bufs[f].String()
		}
	}
	return c
}

func dsPkgMarkers(s *pbt.Src) (bool, []string) {
	newM := func() (bool, string) {
		v := s.PickW(5, 3)
		return v != 1, pbt.Pick(s, "kubebuilder:object:generate") + []string{"=true", "=false"}[v]
	}
	oldM := func() (bool, string) {
		i := s.Intn(6)
		return i < 3, "k8s:deepcopy-gen=" + []string{"package", "package,register", "package,x,y", "false", "register,package", "true"}[i]
	}
	switch s.PickW(3, 4, 3, 2) {
	case 1:
		e, m := newM()
		return e, []string{m}
	case 2:
		e, m := oldM()
		return e, []string{m}
	case 3: // the new form wins
		e, m := newM()
		_, o := oldM()
		return e, pbt.Shuffle(s, []string{m, o})
	}
	return false, nil
}

func dsGenType(s *pbt.Src, i int, pkgEnabled bool) *dsType {
	t := &dsType{}
	exported := !s.Chance(15)
	t.name = fmt.Sprintf("T%d", i)
	if !exported {
		t.name = fmt.Sprintf("t%d", i)
	}
	// markers
	object := 0 // 1 new true, 2 new false
	legacyObject := false
	enabled := pkgEnabled
	newType, oldType := 0, 0
	if s.Chance(30) {
		newType = 1 + s.Intn(2)
		t.markers = append(t.markers, "kubebuilder:object:generate"+[]string{"", "=true", "=false", ""}[newType])
	}
	if s.Chance(20) {
		oldType = 1 + s.Intn(4)
		t.markers = append(t.markers, "k8s:deepcopy-gen="+[]string{"", "true", "false", "package", "nonsense"}[oldType])
	}
	if s.Chance(30) {
		object = 1 + s.Intn(2)
		t.markers = append(t.markers, "kubebuilder:object:root"+[]string{"", "=true", "=false", ""}[object])
	}
	for s.Chance(20) && len(t.markers) < 5 {
		v := pbt.Pick(s, "k8s.io/apimachinery/pkg/runtime.Object", "k8s.io/apimachinery/pkg/runtime.Other", "Object")
		legacyObject = legacyObject || v == "k8s.io/apimachinery/pkg/runtime.Object"
		t.markers = append(t.markers, "k8s:deepcopy-gen:interfaces="+v)
	}
	t.markers = pbt.Shuffle(s, t.markers)
	isObject := legacyObject
	if object != 0 {
		isObject = object != 2
	}
	switch {
	case newType != 0:
		enabled = newType != 2
	case oldType != 0:
		enabled = oldType == 1
	default:
		enabled = pkgEnabled || isObject
	}
	// declaration
	copied := false
	kind := s.PickW(8, 2, 2, 2, 1, 1, 1, 1, 1)
	canMan := true
	value := false // methods have value receivers
	switch kind {
	case 0:
		copied = true
		if isObject && s.Chance(80) {
			t.decl = t.name + " struct {\n\tmetav1.TypeMeta\n\tmetav1.ObjectMeta\n\tA []string\n}"
		} else {
			t.decl = t.name + " struct {\n\t" + pbt.Pick(s, "A []string", "A int", "A map[string]*int", "Inner []struct{}") + "\n}"
		}
		if strings.Contains(t.decl, "Inner") {
			t.decl = t.name + " struct{}"
		}
	case 1:
		copied, value = true, true
		t.decl = t.name + pbt.Pick(s, " []string", " []int", " [][]string")
	case 2:
		copied, value = true, true
		t.decl = t.name + pbt.Pick(s, " map[string]string", " map[string][]int")
	case 3:
		t.decl = t.name + pbt.Pick(s, " string", " int", " bool", " float64")
	case 4: // alias
		t.decl = t.name + " = " + pbt.Pick(s, "string", "metav1.Time", "[]string", "struct{ A []string }")
		canMan = false
	case 5:
		t.decl = t.name + " metav1.TypeMeta"
		copied = true
	case 6:
		t.decl = t.name + " metav1.ConditionStatus" // a string
	case 7:
		t.decl = t.name + " *string"
		canMan = false
	case 8: // interfaces and functions only when excluded
		if enabled && exported {
			t.markers = append([]string{"kubebuilder:object:generate=false"}, t.markers...)
			var ms []string
			for _, m := range t.markers {
				if m == "kubebuilder:object:generate=false" || !strings.HasPrefix(m, "kubebuilder:object:generate") {
					ms = append(ms, m)
				}
			}
			t.markers, enabled = ms, false
		}
		t.decl = t.name + pbt.Pick(s, " interface{ Foo() }", " func(int) string")
		canMan = false
	}
	into, cp, obj := false, false, false
	if canMan && s.Chance(25) {
		recv := "*" + t.name
		if (value || kind == 3 || kind == 6) && s.Bool() {
			recv = t.name
		}
		k := s.Intn(4)
		cp, into = k == 0 || k == 2, k == 1 || k == 2
		if cp {
			body := "return in"
			if strings.HasPrefix(recv, "*") && s.Chance(25) && kind == 0 {
				recv = t.name
			}
			t.methods += fmt.Sprintf("func (in %s) DeepCopy() %s { %s }\n\n", recv, recv, body)
		}
		if into {
			star := "*"
			if strings.HasPrefix(recv, "*") {
				t.methods += fmt.Sprintf("func (in %s) DeepCopyInto(out %s%s) { *out = *in }\n\n", recv, star, t.name)
			} else {
				t.methods += fmt.Sprintf("func (in %s) DeepCopyInto(out %s%s) { *out = in }\n\n", recv, star, t.name)
			}
		}
		if k == 3 || s.Chance(10) {
			obj = true
			t.methods += fmt.Sprintf("func (in %s) DeepCopyObject() interface{} { return nil }\n\n", recv)
		}
	}
	if kind == 3 || kind == 6 || kind == 5 {
		copied = copied || cp || into
	}
	if enabled && exported && copied {
		if !into {
			t.want = append(t.want, t.name+".DeepCopyInto")
		}
		if !cp {
			t.want = append(t.want, t.name+".DeepCopy")
		}
		if isObject && !obj {
			t.want = append(t.want, t.name+".DeepCopyObject")
		}
	}
	return t
}

func showDCSelect(a any) string {
	c := a.(*dsCase)
	return c.files.Show() + fmt.Sprintf("header %q year %q\nwant %v", c.hdr, c.year, c.want)
}

func checkDCSelect(cases []any) []pbt.Outcome {
	dir := Scratch("ds")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*dsCase).files)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	outs := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*dsCase)
		outs[i] = pbt.Guard(func() pbt.Outcome {
			g := deepcopy.Generator{}
			if c.hdr != "" {
				g.HeaderFile = filepath.Join(dir, fmt.Sprintf("hdr%d", i))
				g.Year = c.year
				if err := os.WriteFile(g.HeaderFile, []byte(c.hdr), 0o644); err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
			}
			roots := l.Case(i)
			res := ws.Run(g, roots)
			for _, e := range typeErrors(roots) {
				if !strings.Contains(e, "imported and not used") {
					panic(pbt.HarnessPanic(e + "\n" + showDCSelect(c)))
				}
			}
			if res.Bad() {
				return pbt.Failf("refused", "%v", res.Errs)
			}
			return judgeDCSelect(c, i, res)
		})
	}
	return outs
}

func judgeDCSelect(c *dsCase, i int, res ws.Result) pbt.Outcome {
	prefix := fmt.Sprintf("%s/c%d/", ws.Mod, i)
	for k := range res.Files {
		pkg, item, _ := strings.Cut(k, "|")
		if item != "zz_generated.deepcopy.go" {
			return pbt.Failf("file", "writes %s", k)
		}
		if len(c.want[strings.TrimPrefix(pkg, prefix)]) == 0 {
			return pbt.Failf("file", "writes %s, where nothing is selected:\n%s", k, res.Files[k])
		}
	}
	if len(res.Opens) != len(res.Files) {
		return pbt.Failf("file", "opens %v", res.Opens)
	}
	for dir, want := range c.want {
		b, ok := res.Files[prefix+dir+"|zz_generated.deepcopy.go"]
		if !ok {
			if len(want) > 0 {
				return pbt.Failf("file", "no file for %s, want %v", dir, want)
			}
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), "x.go", b, parser.ParseComments)
		if err != nil {
			return pbt.Failf("parse", "%v\n%s", err, b)
		}
		var got []string
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					continue
				}
				return pbt.Failf("decl", "unexpected declaration in\n%s", b)
			}
			if fd.Recv == nil {
				return pbt.Failf("decl", "unexpected function %s", fd.Name)
			}
			rt := fd.Recv.List[0].Type
			if st, ok := rt.(*ast.StarExpr); ok {
				rt = st.X
			}
			got = append(got, rt.(*ast.Ident).Name+"."+fd.Name.Name)
		}
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return pbt.Failf("methods", "%s gets %v, want %v", dir, got, want)
		}
		if f.Name.Name != c.name[dir] {
			return pbt.Failf("package", "package %s, want %s", f.Name.Name, c.name[dir])
		}
		text := string(b)
		if !strings.HasPrefix(text, "//go:build !ignore_autogenerated\n\n") {
			return pbt.Failf("tag", "no build tag:\n%s", head(text, 200))
		}
		pre, _, ok := strings.Cut(text, "// Code generated by controller-gen. DO NOT EDIT.\n\npackage ")
		if !ok {
			return pbt.Failf("generated", "no generated-code line:\n%s", head(text, 300))
		}
		hdr := strings.TrimSpace(strings.TrimPrefix(pre, "//go:build !ignore_autogenerated\n\n"))
		if want := strings.TrimSpace(strings.ReplaceAll(c.hdr, " YEAR", " "+c.year)); strings.Join(strings.Fields(hdr), " ") != strings.Join(strings.Fields(want), " ") {
			return pbt.Failf("header", "header %q, want %q", hdr, want)
		}
	}
	return pbt.OK(c.n >= 2)
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "at least two selecting markers",
		Assumptions: []string{
			"of several values for one marker on the same package or type, only one is written (apart from the legacy interface marker)",
			"interfaces and functions are excluded by a marker where they would be selected (selecting them is an error); defined pointer types get no methods",
		},
		Families: []*pbt.Family{{
			Name: "selection", Gen: genDCSelect, Check: checkDCSelect, Show: showDCSelect,
			Batch: 120, Parallel: 3, Quick: 3000, Thorough: 60000, ShrinkBatch: 60,
		}},
	})
}
