package props

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/pbt"
	"verif/ws"
)

// ---- C24: which packages are type-checked

// tcRef is a mention of another package's type, with what has to be passed to get to it.
type tcRef struct {
	to     int
	guards []string
}

type tcField struct {
	typ  string // the type that has the field
	idx  int
	refs []tcRef
}

type tcPkg struct {
	name   string
	refs   []tcRef // in type declarations
	dots   map[int]bool
	fields []tcField
	broken string
}

type tcCase struct {
	files   ws.Files
	clean   ws.Files // without what generators have no business with
	pkgs    []*tcPkg
	roots   []int
	filters [][]string // guards each filter refuses
	filter  string
	breaks  []int
}

// passes tells whether the reference is followed.
func (c *tcCase) passes(r tcRef) bool {
	for _, g := range r.guards {
		if !c.open(g) {
			return false
		}
	}
	return true
}

func (c *tcCase) open(guard string) bool {
	if len(c.filters) == 0 {
		return true
	}
	for _, f := range c.filters {
		refused := false
		for _, g := range f {
			refused = refused || g == guard
		}
		if !refused {
			return true
		}
	}
	return false
}

func (c *tcCase) closure() map[int]bool {
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, r := range c.pkgs[i].refs {
			if c.passes(r) {
				visit(r.to)
			}
		}
		for d := range c.pkgs[i].dots {
			visit(d)
		}
	}
	for _, r := range c.roots {
		visit(r)
	}
	return seen
}

// refusing makes a filter that refuses nodes.
func refusing(guards []string) loader.NodeFilter {
	return func(n ast.Node) bool {
		for _, g := range guards {
			hit := false
			switch n := n.(type) {
			case *ast.InterfaceType:
				hit = g == "interface"
			case *ast.MapType:
				hit = g == "map"
			case *ast.FuncType:
				hit = g == "func"
			case *ast.ChanType:
				hit = g == "chan"
			case *ast.StarExpr:
				hit = g == "pointer"
			case *ast.ArrayType:
				hit = g == "slice"
			case *ast.Field:
				_, tag := loader.ParseAstTag(n.Tag).Lookup("json")
				hit = g == "untagged" && !tag
			}
			if hit {
				return false
			}
		}
		return true
	}
}

type tcGen struct {
	s    *pbt.Src
	c    *tcCase
	i    int
	p    *tcPkg
	call map[int]string // what this file calls each package it imports; "." for a dot import
	used map[int]bool
	self string // how many types declared so far
}

func with(g []string, more ...string) []string {
	return append(append([]string(nil), g...), more...)
}

// ext mentions a name of another package.
func (g *tcGen) ext(guards []string, name string, refs *[]tcRef) string {
	var ks []int
	for k := range g.call {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Ints(ks)
	k := ks[g.s.Intn(len(ks))]
	g.used[k] = true
	name = strings.ReplaceAll(name, "#", fmt.Sprint(k))
	if g.call[k] == "." {
		return name
	}
	*refs = append(*refs, tcRef{k, guards})
	return g.call[k] + "." + name
}

// typ writes a type expression.
func (g *tcGen) typ(depth int, guards []string, refs *[]tcRef) string {
	s := g.s
	if depth <= 0 {
		if s.Chance(60) {
			if t := g.ext(guards, pbt.Pick(s, "S#", "J#", "A#"), refs); t != "" {
				return t
			}
		}
		return pbt.Pick(s, "string", "int32", "bool", fmt.Sprintf("*S%d", g.i))
	}
	sub := func(more ...string) string { return g.typ(depth-1-s.Small(1), with(guards, more...), refs) }
	switch s.PickW(3, 2, 2, 2, 1, 1, 1, 2, 2, 1, 1) {
	case 0:
		return g.typ(0, guards, refs)
	case 1:
		return "*" + sub("pointer")
	case 2:
		return "[]" + sub("slice")
	case 3:
		return "map[string]" + sub("map")
	case 4:
		return "chan " + sub("chan")
	case 5:
		return "func(" + sub("func", "untagged") + ") " + sub("func", "untagged")
	case 6:
		n := pbt.Pick(s, "2", "4", fmt.Sprintf("len(tab%d.x)", g.i))
		in := with(guards, "slice")
		if s.Bool() {
			if t := g.ext(in, "N#", refs); t != "" {
				n = t
			}
		}
		return "[" + n + "]" + g.typ(depth-1, in, refs)
	case 7:
		return "interface{ M(x " + sub("interface", "untagged", "func") + ") }"
	case 8:
		out := "struct {"
		for i := 0; i <= s.Small(1); i++ {
			tag, gd := g.tag(i)
			out += fmt.Sprintf(" X%d %s%s;", i, sub(gd...), tag)
		}
		return out + " }"
	case 9:
		if t := g.ext(guards, "G#", refs); t != "" {
			return t + "[" + sub() + "]"
		}
		return "any"
	default:
		return "(" + sub() + ")"
	}
}

func (g *tcGen) tag(i int) (string, []string) {
	switch g.s.PickW(5, 2, 1, 1) {
	case 0:
		return fmt.Sprintf(" `json:\"x%d\"`", i), nil
	case 1:
		return "", []string{"untagged"}
	case 2:
		return fmt.Sprintf(" `yaml:\"x%d\"`", i), []string{"untagged"}
	default:
		return " `json:\"-\"`", nil
	}
}

func genRefs(s *pbt.Src) any { return genTC(s, false) }
func genJunk(s *pbt.Src) any { return genTC(s, true) }

func genTC(s *pbt.Src, run bool) any {
	c := &tcCase{files: ws.Files{}, clean: ws.Files{}}
	n := 2 + s.Small(6)
	if run {
		c.filters = [][]string{{"interface", "untagged"}, {"interface"}}
		c.filter = "crd and object"
	} else {
		switch s.PickW(3, 3, 2, 1, 3) {
		case 0:
			c.filter, c.filters = "crd", [][]string{{"interface", "untagged"}}
		case 1:
			c.filter, c.filters = "object", [][]string{{"interface"}}
		case 2:
			c.filter, c.filters = "crd and object", [][]string{{"interface", "untagged"}, {"interface"}}
		case 3:
			c.filter = "none"
		default:
			c.filter = "own"
			all := []string{"interface", "untagged", "map", "func", "chan"}
			for i := 0; i <= s.Small(1); i++ {
				var f []string
				for _, g := range all {
					if s.Bool() {
						f = append(f, g)
					}
				}
				c.filters = append(c.filters, f)
			}
		}
	}
	for i := 0; i < n; i++ {
		p := &tcPkg{name: fmt.Sprintf("q%d", i), dots: map[int]bool{}}
		if s.Chance(20) {
			p.name = pbt.Pick(s, "v1", "api", "q1", "types")
		}
		c.pkgs = append(c.pkgs, p)
	}
	// from the last, which imports nothing, to the first
	for i := n - 1; i >= 0; i-- {
		c.write(s, i, run)
	}
	c.roots = []int{0}
	for i := 1; i < n; i++ {
		if s.Chance(15) {
			c.roots = append(c.roots, i)
		}
	}
	cl := c.closure()
	for i := range c.pkgs {
		if !cl[i] && s.Chance(60) {
			c.breaks = append(c.breaks, i)
			text := pbt.Pick(s, "func (", "type X struct {", "var x int = \"\"", "type Y Undefined", ")")
			c.pkgs[i].broken = text
			c.files[fmt.Sprintf("q%d/broken.go", i)] = "package " + c.pkgs[i].name + "\n\n" + text + "\n"
		}
	}
	return c
}

func (c *tcCase) write(s *pbt.Src, i int, run bool) {
	p := c.pkgs[i]
	for f := 0; f <= s.Small(1); f++ {
		g := &tcGen{s: s, c: c, i: i, p: p, call: map[int]string{}, used: map[int]bool{}}
		names := map[string]bool{}
		for j := i + 1; j < len(c.pkgs); j++ {
			if !s.Chance(60) {
				continue
			}
			name := c.pkgs[j].name
			switch s.PickW(6, 2, 1) {
			case 1:
				name = pbt.Pick(s, "a", "q2", "v1", "meta", "q3", c.pkgs[s.Intn(len(c.pkgs))].name)
			case 2:
				name = "."
			}
			if name != "." && names[name] {
				name = fmt.Sprintf("im%d", j)
			}
			names[name] = true
			g.call[j] = name
		}
		var clean, junk strings.Builder
		var cleanUses map[int]bool
		if f == 0 {
			// what generators are for
			if run {
				clean.WriteString("// +kubebuilder:object:generate=true\n")
			}
			fmt.Fprintf(&clean, "type S%d struct {\n", i)
			for k, nf := 0, 1+s.Small(3); k < nf; k++ {
				var refs []tcRef
				var t string
				tag, gd := fmt.Sprintf(" `json:\"x%d\"`", k), []string(nil)
				if run {
					if t = g.ext(nil, "S#", &refs); t == "" || s.Chance(25) {
						t, refs = pbt.Pick(s, "string", "int32", "bool"), nil
					}
					w := pbt.Pick(s, "%s", "*%s", "[]%s", "map[string]%s", "[]*%s")
					if strings.Contains(w, "*") && len(refs) == 0 {
						w = "[]%s"
					}
					t = fmt.Sprintf(w, t)
				} else {
					tag, gd = g.tag(k)
					t = g.typ(2, gd, &refs)
				}
				p.refs = append(p.refs, refs...)
				p.fields = append(p.fields, tcField{fmt.Sprintf("S%d", i), k, refs})
				fmt.Fprintf(&clean, "\tX%d %s%s\n", k, t, tag)
			}
			clean.WriteString("}\n\n")
			if run && (i == 0 || s.Chance(30)) {
				fmt.Fprintf(&clean, "// +kubebuilder:object:root=true\ntype K%d struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec S%d `json:\"spec\"`\n}\n\n", i, i)
			}
			cleanUses = map[int]bool{}
			for k := range g.used {
				cleanUses[k] = true
			}
			// the names other packages may mention
			fmt.Fprintf(&junk, "var tab%d struct{ x [3]string }\n\nconst N%d = %d\n\ntype G%d[T any] struct {\n\tV T `json:\"v\"`\n}\n\n", i, i, 2+i, i)
			var refs []tcRef
			fmt.Fprintf(&junk, "type J%d %s\n\n", i, g.typ(2, nil, &refs))
			fmt.Fprintf(&junk, "type A%d = %s\n\n", i, g.typ(1, nil, &refs))
			p.refs = append(p.refs, refs...)
		}
		for k := 0; k < s.Small(4); k++ {
			var refs []tcRef
			switch s.Intn(7) {
			case 0:
				fmt.Fprintf(&junk, "var V%d_%d %s\n\n", f, k, g.typ(1, nil, &refs))
				refs = nil
			case 1:
				fmt.Fprintf(&junk, "func F%d_%d(x %s) {\n\tvar y %s\n\t_ = y\n}\n\n", f, k, g.typ(1, nil, &refs), g.typ(1, nil, &refs))
				refs = nil
			case 2:
				fmt.Fprintf(&junk, "func (S%d) M%d_%d(x %s) {}\n\n", i, f, k, g.typ(1, nil, &refs))
				refs = nil
			case 3:
				fmt.Fprintf(&junk, "type I%d_%d interface {\n\tM(x %s)\n", f, k, g.typ(1, []string{"interface", "untagged", "func"}, &refs))
				junk.WriteString("}\n\n")
			case 4:
				name := fmt.Sprintf("U%d_%d", f, k)
				fmt.Fprintf(&junk, "type (\n\t%s struct {\n", name)
				for m := 0; m <= s.Small(2); m++ {
					var fr []tcRef
					tag, gd := g.tag(m)
					fmt.Fprintf(&junk, "\t\tx%d %s%s\n", m, g.typ(1, gd, &fr), tag)
					p.fields = append(p.fields, tcField{name, m, fr})
					refs = append(refs, fr...)
				}
				junk.WriteString("\t}\n)\n\n")
			case 5:
				// embedded
				tag, gd := g.tag(0)
				if t := g.ext(gd, "S#", &refs); t != "" {
					name := fmt.Sprintf("E%d_%d", f, k)
					fmt.Fprintf(&junk, "type %s struct {\n\t%s%s\n}\n\n", name, t, tag)
					p.fields = append(p.fields, tcField{name, 0, refs})
				}
			default:
				if t := g.ext(nil, "N#", &refs); t != "" {
					fmt.Fprintf(&junk, "const C%d_%d = %s + 1\n\n", f, k, t)
				}
				refs = nil
			}
			p.refs = append(p.refs, refs...)
		}
		imports := func(used map[int]bool, blanks bool) string {
			var b strings.Builder
			b.WriteString("import (\n")
			if run && strings.Contains(clean.String(), "metav1.") {
				b.WriteString("\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n")
			}
			for j := range c.pkgs {
				name, ok := g.call[j]
				if !ok {
					continue
				}
				if !used[j] {
					if blanks {
						fmt.Fprintf(&b, "\t_ \"%s/@/q%d\"\n", ws.Mod, j)
					}
					continue
				}
				if name == "." {
					p.dots[j] = true
				}
				if name == c.pkgs[j].name && j%2 == 0 {
					fmt.Fprintf(&b, "\t\"%s/@/q%d\"\n", ws.Mod, j)
				} else {
					fmt.Fprintf(&b, "\t%s \"%s/@/q%d\"\n", name, ws.Mod, j)
				}
			}
			b.WriteString(")\n\n")
			return b.String()
		}
		head := ""
		if run && f == 0 {
			head = fmt.Sprintf("// +groupName=g%d.io\n// +versionName=v1\n", i)
		}
		head += "package " + p.name + "\n\n"
		file := fmt.Sprintf("q%d/f%d.go", i, f)
		if f == 0 {
			c.clean[file] = head + imports(cleanUses, false) + clean.String()
		}
		c.files[file] = head + imports(g.used, s.Bool()) + clean.String() + junk.String()
	}
}

func showRefs(a any) string {
	c := a.(*tcCase)
	var cl []int
	for i := range c.closure() {
		cl = append(cl, i)
	}
	sort.Ints(cl)
	return fmt.Sprintf("roots %v, filter %s %v: packages %v, broken %v\n%s", c.roots, c.filter, c.filters, cl, c.breaks, c.files.Show())
}

func atCase(files ws.Files, i int, sub string) ws.Files {
	out := ws.Files{}
	for k, v := range files {
		out[k] = strings.ReplaceAll(v, "/@/", fmt.Sprintf("/c%d/%s", i, sub))
	}
	return out
}

func invalidIn(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Basic:
		return t.Kind() == types.Invalid
	case *types.Named:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
			return true
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if invalidIn(t.TypeArgs().At(i), seen) {
				return true
			}
		}
	case *types.Alias:
		return false // what it stands for may not have been selected
	case *types.Pointer:
		return invalidIn(t.Elem(), seen)
	case *types.Slice:
		return invalidIn(t.Elem(), seen)
	case *types.Array:
		return t.Len() < 0 || invalidIn(t.Elem(), seen)
	case *types.Chan:
		return invalidIn(t.Elem(), seen)
	case *types.Map:
		return invalidIn(t.Key(), seen) || invalidIn(t.Elem(), seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if invalidIn(t.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Signature:
		return invalidIn(t.Params(), seen) || invalidIn(t.Results(), seen)
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if invalidIn(t.At(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface:
		for i := 0; i < t.NumExplicitMethods(); i++ {
			if invalidIn(t.ExplicitMethod(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func checkRefs(cases []any) []pbt.Outcome {
	dir := Scratch("refs")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, atCase(a.(*tcCase).files, i, ""))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return eachCase(cases, func(i int, a any) pbt.Outcome {
		c := a.(*tcCase)
		pkgs := make([]*loader.Package, len(c.pkgs))
		for k := range c.pkgs {
			if pkgs[k] = l.ByPath[fmt.Sprintf("%s/c%d/q%d", ws.Mod, i, k)]; pkgs[k] == nil {
				return pbt.Failf("not loaded", "package q%d is not loaded", k)
			}
		}
		tc := &loader.TypeChecker{}
		switch c.filter {
		case "crd":
			tc.NodeFilters = genall.Generators{genOf(crd.Generator{})}.CheckFilters()
		case "object":
			tc.NodeFilters = genall.Generators{genOf(deepcopy.Generator{})}.CheckFilters()
		case "crd and object":
			tc.NodeFilters = genall.Generators{genOf(crd.Generator{}), genOf(deepcopy.Generator{})}.CheckFilters()
		case "own":
			for _, f := range c.filters {
				tc.NodeFilters = append(tc.NodeFilters, refusing(f))
			}
		}
		var roots []*loader.Package
		for _, r := range c.roots {
			roots = append(roots, pkgs[r])
			tc.Check(pkgs[r])
		}
		cl := c.closure()
		for k, p := range pkgs {
			done := p.Types != nil && p.Types.Complete() && p.TypesInfo != nil
			switch {
			case cl[k] && !done:
				return pbt.Failf("unchecked", "package q%d is referred to, but has not been type-checked", k)
			case !cl[k] && p.TypesInfo != nil:
				return pbt.Failf("checked", "package q%d has been type-checked, though nothing selected refers to it", k)
			case !cl[k] && p.Syntax != nil:
				return pbt.Failf("parsed", "package q%d has been parsed, though nothing selected refers to it", k)
			}
		}
		for _, e := range allErrors(roots) {
			if e.Kind != packages.TypeError {
				return pbt.Failf("error", "error %v", e)
			}
		}
		fields := 0
		for k := range cl {
			for _, f := range c.pkgs[k].fields {
				all := true
				for _, r := range f.refs {
					all = all && c.passes(r)
				}
				if !all {
					continue
				}
				obj := pkgs[k].Types.Scope().Lookup(f.typ)
				if obj == nil {
					return pbt.Failf("no-type", "package q%d has no type %s", k, f.typ)
				}
				st, ok := obj.Type().Underlying().(*types.Struct)
				if !ok || st.NumFields() <= f.idx {
					return pbt.Failf("no-field", "q%d.%s has no field %d", k, f.typ, f.idx)
				}
				fields++
				if t := st.Field(f.idx).Type(); invalidIn(t, map[types.Type]bool{}) {
					return pbt.Failf("invalid", "field %d of q%d.%s has type %v, errors %v", f.idx, k, f.typ, t, pkgs[k].Errors)
				}
			}
		}
		labels := []string{"filter " + c.filter}
		if len(cl) < len(pkgs) {
			labels = append(labels, "partial")
		}
		if len(c.breaks) > 0 {
			labels = append(labels, "broken bystanders")
		}
		return pbt.OK(len(cl) > 1 && fields > 0, labels...)
	})
}

func eachCase(cases []any, f func(i int, a any) pbt.Outcome) []pbt.Outcome {
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		out[i] = pbt.Guard(func() pbt.Outcome { return f(i, a) })
	}
	return out
}

func genOf(g genall.Generator) *genall.Generator { return &g }

func checkJunk(cases []any) []pbt.Outcome {
	run := func(clean bool) (*ws.Loaded, func(i int) (ws.Result, ws.Result)) {
		dir := Scratch("junk")
		var files []ws.Files
		for i, a := range cases {
			c := a.(*tcCase)
			f := c.files
			if clean {
				f = c.clean
			}
			files = append(files, atCase(f, i, ""))
		}
		l, err := ws.LoadCases(dir, files)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		return l, func(i int) (ws.Result, ws.Result) {
			var roots []*loader.Package
			for _, r := range cases[i].(*tcCase).roots {
				roots = append(roots, l.ByPath[fmt.Sprintf("%s/c%d/q%d", ws.Mod, i, r)])
			}
			out := &ws.MemOut{}
			gens := genall.Generators{genOf(crd.Generator{}), genOf(deepcopy.Generator{})}
			failed, text := runRuntime(gens, roots, out, genall.InputFromFileSystem)
			r := ws.Result{Files: out.Files}
			if failed || text != "" {
				r.Errs = append(r.Errs, "fails: "+text)
			}
			return r, r
		}
	}
	lc, cleanRun := run(true)
	defer Drop(lc.Dir)
	lj, junkRun := run(false)
	defer Drop(lj.Dir)
	return eachCase(cases, func(i int, a any) pbt.Outcome {
		c := a.(*tcCase)
		want, _ := cleanRun(i)
		if want.Bad() {
			return pbt.Failf("refused", "a valid program is refused: %v", want.Errs)
		}
		got, _ := junkRun(i)
		if got.Bad() {
			return pbt.Failf("fails", "the run fails over code it has no business with: %v", got.Errs)
		}
		if o := diffRuns("without bystanders and with them", want, got); o.Fail != "" {
			return o
		}
		if len(want.Files) == 0 {
			return pbt.Failf("nothing", "nothing is generated")
		}
		return pbt.OK(len(c.breaks) > 0 || len(c.closure()) > 1, fmt.Sprintf("broken bystanders %v", len(c.breaks) > 0))
	})
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "the checked packages are more than the root",
		Assumptions: []string{
			"a dot import counts as a reference; array lengths are literals or constants named by their package (generators look at the types only)",
			"one checker per set of packages, as the tool uses them",
		},
		Families: []*pbt.Family{
			{Name: "references", Gen: genRefs, Check: checkRefs, Show: showRefs, Batch: 60, Parallel: 4, Quick: 6000, Thorough: 100000, ShrinkBatch: 40},
			{Name: "bystanders", Gen: genJunk, Check: checkJunk, Show: showRefs, Batch: 75, Parallel: 4, Quick: 600, Thorough: 20000, ShrinkBatch: 30},
		},
	})
}
