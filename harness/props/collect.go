package props

import (
	"fmt"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
	"verif/ws"
)

// Model of where a marker comment belongs, from the documented rule.

type colMarker struct {
	name string // registered marker name, or an unregistered one
	n    int
}

// which targets each marker is registered for
var colDefs = map[string][]markers.TargetType{
	"t:typ":   {markers.DescribesType},
	"t:pkg":   {markers.DescribesPackage},
	"t:fld":   {markers.DescribesField},
	"t:typkg": {markers.DescribesType, markers.DescribesPackage},
	"t:all":   {markers.DescribesType, markers.DescribesPackage, markers.DescribesField},
	"t:fldpk": {markers.DescribesField, markers.DescribesPackage},
}
var colNames = []string{"t:typ", "t:pkg", "t:fld", "t:typkg", "t:all", "t:fldpk", "t:none"}

func colHas(name string, t markers.TargetType) bool {
	for _, x := range colDefs[name] {
		if x == t {
			return true
		}
	}
	return false
}

type colCase struct {
	files ws.Files
	// entity ("pkg", "T", "T.F", "T.#0" for embedded fields) -> marker name -> values in order
	want map[string]map[string][]int
	docs map[string]string
	nmk  int
	nent int
}

type colGen struct {
	s    *pbt.Src
	b    *strings.Builder
	c    *colCase
	ids  int
	pre  string    // indentation
	hold []colLine // the last free group, not yet decided
}

func (g *colGen) land(entity string, m colMarker) {
	if g.c.want[entity] == nil {
		g.c.want[entity] = map[string][]int{}
	}
	g.c.want[entity][m.name] = append(g.c.want[entity][m.name], m.n)
}

var docWords = []string{"Foo holds things.", "plain text", "second line", "with `code`", "a: b", "+ not a marker? no", "x - y", "Ünïcode 世界", "ends here", "  indented", "\tcode line", "http://example.com", "text +t:typ=99 inside", "--", "todo lower", "TODOS"}

// line kinds of a comment group
type colLine struct {
	text string // comment text after "//"
	m    *colMarker
}

// group makes a comment group; doc lines only when it can be documentation.
func (g *colGen) group(isDoc bool) []colLine {
	var out []colLine
	n := 1 + g.s.Small(4)
	for i := 0; i < n; i++ {
		switch {
		case g.s.Chance(55):
			m := &colMarker{name: colNames[g.s.Intn(len(colNames))], n: g.ids}
			g.ids++
			g.c.nmk++
			out = append(out, colLine{text: pbt.Pick(g.s, " ", "", "   ", "\t") + fmt.Sprintf("+%s=%d", m.name, m.n) + pbt.Pick(g.s, "", " ", "  "), m: m})
		case isDoc && g.s.Chance(30):
			out = append(out, colLine{text: pbt.Pick(g.s, "", " TODO: do it", " ---", " ```", " ~~~yaml", " TODO(x) fix", " --- text")})
		default:
			w := docWords[g.s.Intn(len(docWords))]
			if strings.HasPrefix(w, "+") {
				w = "x " + w
			}
			out = append(out, colLine{text: " " + w})
		}
	}
	return out
}

func (g *colGen) write(ls []colLine) {
	for _, l := range ls {
		g.b.WriteString(g.pre + "//" + l.text + "\n")
	}
}

// docText is the documentation of a doc comment, from the documented formatting conventions.
func docText(ls []colLine) string {
	var lines []string
	for _, l := range ls {
		if l.m != nil {
			continue
		}
		t := l.text
		t = strings.TrimPrefix(t, " ")
		t = strings.TrimRight(t, " \t")
		lines = append(lines, t)
	}
	// as Go documentation: no leading/trailing blank lines, runs of blank lines collapse
	var squeezed []string
	for _, l := range lines {
		if l == "" && (len(squeezed) == 0 || squeezed[len(squeezed)-1] == "") {
			continue
		}
		squeezed = append(squeezed, l)
	}
	for len(squeezed) > 0 && squeezed[len(squeezed)-1] == "" {
		squeezed = squeezed[:len(squeezed)-1]
	}
	var out []string
	code := false
	for _, l := range squeezed {
		if strings.HasPrefix(l, "```") || strings.HasPrefix(l, "~~~") {
			code = !code
		}
		if !code {
			if strings.HasPrefix(l, "TODO") {
				continue
			}
			if strings.HasPrefix(l, "---") {
				break
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (g *colGen) pkgMarkers(ls []colLine) {
	for _, l := range ls {
		if l.m != nil && colHas(l.m.name, markers.DescribesPackage) {
			g.land("pkg", *l.m)
		}
	}
}

// frees writes n free comment groups that belong to the package.
func (g *colGen) frees(n int) {
	for i := 0; i < n; i++ {
		var ls []colLine
		if g.s.Chance(8) { // no marker in a block comment
			fmt.Fprintf(g.b, "%s/*%s+t:all=%d\n%s+t:typkg=1 */\n", g.pre, pbt.Pick(g.s, " ", "", "\n"), g.ids, g.pre)
			g.ids++
		} else {
			ls = g.group(false)
			g.write(ls)
		}
		g.toPkg()
		g.hold = ls
		g.b.WriteString("\n")
	}
}

// toPkg decides that the last free group belongs to the package.
func (g *colGen) toPkg() { g.pkgMarkers(g.hold); g.hold = nil }

// typeClosest assigns the closest group above a type.
func (g *colGen) typeClosest(name string, ls []colLine) {
	for _, l := range ls {
		if l.m == nil {
			continue
		}
		switch {
		case colHas(l.m.name, markers.DescribesType):
			g.land(name, *l.m)
		case colHas(l.m.name, markers.DescribesPackage):
			g.land("pkg", *l.m)
		}
	}
}

func (g *colGen) typeDoc(name string, ls []colLine) {
	for _, l := range ls {
		if l.m != nil && colHas(l.m.name, markers.DescribesType) {
			g.land(name, *l.m)
		}
	}
	g.c.docs[name] = docText(ls)
}

func (g *colGen) trailing() string {
	switch g.s.PickW(6, 2, 2) {
	case 1:
		return " // trailing text"
	case 2:
		g.ids++
		return fmt.Sprintf(" // +%s=%d", colNames[g.s.Intn(len(colNames))], g.ids-1) // belongs to nothing
	}
	return ""
}

func (g *colGen) fields(typ string, depth int, visible bool) {
	n := g.s.Small(4)
	embedded := 0
	for i := 0; i < n; i++ {
		// groups that are not the closest are in the struct, and belong to nothing
		nabove := g.s.PickW(6, 4, 2)
		var closest []colLine
		for k := 0; k < nabove; k++ {
			ls := g.group(false)
			g.write(ls)
			g.b.WriteString("\n")
			closest = ls
		}
		var doc []colLine
		if g.s.Chance(60) {
			doc = g.group(true)
			g.write(doc)
		}
		g.ids++
		fname := fmt.Sprintf("F%d", g.ids)
		names := []string{fname}
		isEmb := false
		switch g.s.PickW(6, 2, 2, 2) {
		case 0:
			tag := pbt.Pick(g.s, "", " `json:\"x\"`")
			g.b.WriteString(g.pre + fname + " string" + tag + g.trailing() + "\n")
		case 1:
			names = append(names, fname+"b")
			g.b.WriteString(g.pre + strings.Join(names, ", ") + " int" + g.trailing() + "\n")
		case 2:
			isEmb = true
			g.c.files["emb.go"] = g.c.files["emb.go"] + fmt.Sprintf("type E%d struct{}\n", g.ids)
			g.b.WriteString(g.pre + fmt.Sprintf("E%d", g.ids) + g.trailing() + "\n")
			names = []string{fmt.Sprintf("#%d", embedded)}
			embedded++
		case 3:
			if depth <= 0 {
				g.b.WriteString(g.pre + fname + " []string" + g.trailing() + "\n")
				break
			}
			g.b.WriteString(g.pre + fname + " struct {\n")
			old := g.pre
			g.pre += "\t"
			g.fields("", depth-1, false)
			g.pre = old
			g.b.WriteString(g.pre + "}" + g.trailing() + "\n")
		}
		_ = isEmb
		if visible {
			for _, nm := range names {
				ent := typ + "." + nm
				g.c.nent++
				for _, ls := range [][]colLine{closest, doc} {
					for _, l := range ls {
						if l.m != nil && colHas(l.m.name, markers.DescribesField) {
							g.land(ent, *l.m)
						}
					}
				}
				g.c.docs[ent] = docText(doc)
			}
		}
		if g.s.Chance(40) {
			g.b.WriteString("\n")
		}
	}
	// what is left in the struct belongs to nothing
	for k := g.s.PickW(8, 2, 1); k > 0; k-- {
		g.write(g.group(false))
		g.b.WriteString("\n")
	}
}

func (g *colGen) typeBody(name string) {
	switch g.s.PickW(6, 2, 1, 1, 1) {
	case 0:
		g.b.WriteString(name + " struct {\n")
		old := g.pre
		g.pre += "\t"
		g.fields(name, 1, true)
		g.pre = old
		g.b.WriteString(g.pre + "}" + g.trailing() + "\n")
	case 1:
		g.b.WriteString(name + " string" + g.trailing() + "\n")
	case 2:
		g.b.WriteString(name + " []map[string]int" + g.trailing() + "\n")
	case 3:
		g.b.WriteString(name + " = int" + g.trailing() + "\n")
	case 4:
		g.b.WriteString(name + " interface {\n" + g.pre + "\t// M does.\n" + g.pre + "\tM(a, b int) string\n" + g.pre + "}\n")
	}
}

func genCollectCase(s *pbt.Src) any {
	c := &colCase{files: ws.Files{}, want: map[string]map[string][]int{}, docs: map[string]string{}}
	g := &colGen{s: s, c: c}
	c.files["emb.go"] = "package p\n"
	nf := 1 + s.Small(1)
	for f := 0; f < nf; f++ {
		g.b = &strings.Builder{}
		g.frees(s.PickW(6, 3, 1))
		g.toPkg()
		if s.Chance(50) { // package documentation
			doc := g.group(true)
			g.write(doc)
			g.pkgMarkers(doc)
		}
		g.b.WriteString("package p\n" + pbt.Pick(s, "", "\n"))
		if s.Chance(40) {
			g.b.WriteString("\n")
			g.frees(s.PickW(6, 3, 1))
			g.toPkg()
			if s.Bool() {
				doc := g.group(true)
				g.write(doc) // documentation of an import: belongs to nothing
			}
			if s.Bool() {
				g.b.WriteString("import _ \"fmt\"\n")
			} else {
				g.b.WriteString("import (\n\t// why\n\t_ \"fmt\"\n\n\t_ \"strings\"" + g.trailing() + "\n)\n")
			}
		}
		nd := s.Small(6)
		for i := 0; i < nd; i++ {
			g.b.WriteString("\n")
			g.ids++
			id := g.ids
			switch s.PickW(8, 3, 2, 2, 3) {
			case 0: // type
				g.frees(s.PickW(6, 2, 1))
				name := fmt.Sprintf("T%d", id)
				c.nent++
				if s.Chance(50) {
					g.frees(1)
					g.b.WriteString(pbt.Pick(s, "", "\n"))
				}
				g.typeClosest(name, g.hold)
				g.hold = nil
				var doc []colLine
				if s.Chance(60) {
					doc = g.group(true)
					g.write(doc)
				}
				g.typeDoc(name, doc)
				g.b.WriteString("type ")
				g.typeBody(name)
			case 1: // grouped types
				g.frees(s.PickW(6, 3, 1))
				g.toPkg()
				if s.Chance(40) {
					g.write(g.group(true)) // documentation of the group: belongs to nothing
				}
				g.b.WriteString("type (\n")
				g.pre = "\t"
				for k := 1 + s.Small(2); k > 0; k-- {
					g.ids++
					name := fmt.Sprintf("T%d", g.ids)
					c.nent++
					if s.Chance(40) {
						ls := g.group(false)
						g.write(ls)
						g.b.WriteString("\n")
						g.typeClosest(name, ls)
					}
					var doc []colLine
					if s.Chance(60) {
						doc = g.group(true)
						g.write(doc)
					}
					g.typeDoc(name, doc)
					g.b.WriteString("\t")
					g.typeBody(name)
					g.b.WriteString("\n")
				}
				g.pre = ""
				g.b.WriteString(")\n")
			case 2: // const
				g.frees(s.PickW(6, 3, 1))
				g.toPkg()
				if s.Chance(50) {
					g.write(g.group(true))
				}
				if s.Bool() {
					fmt.Fprintf(g.b, "const C%d = 1%s\n", id, g.trailing())
				} else {
					fmt.Fprintf(g.b, "const (\n\tC%d = 1 // one\n\tD%d = 2\n)\n", id, id)
				}
			case 3: // var
				g.frees(s.PickW(6, 3, 1))
				g.toPkg()
				if s.Chance(50) {
					g.write(g.group(true))
				}
				fmt.Fprintf(g.b, "var V%d = 1%s\n", id, g.trailing())
			case 4: // func
				g.frees(s.PickW(6, 3, 1))
				g.toPkg()
				if s.Chance(50) {
					g.write(g.group(true))
				}
				fmt.Fprintf(g.b, "func Fn%d(a int) {\n", id)
				if s.Bool() { // in a function body: belongs to nothing
					g.pre = "\t"
					g.write(g.group(false))
					g.pre = ""
				}
				g.b.WriteString("}\n")
			}
		}
		if s.Chance(40) {
			g.b.WriteString("\n")
			g.frees(1 + s.Small(1))
		}
		g.toPkg()
		c.files[fmt.Sprintf("f%d.go", f)] = g.b.String()
	}
	return c
}

func showCollect(a any) string {
	c := a.(*colCase)
	return c.files.Show() + fmt.Sprintf("expected: %v\n", c.want)
}

func colRegistry() *markers.Registry {
	reg := &markers.Registry{}
	var names []string
	for n := range colDefs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, t := range colDefs[n] {
			if err := reg.Define(n, t, 0); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
		}
	}
	return reg
}

// collected reads everything back through the public API.
func collected(reg *markers.Registry, pkg *pkgT) (got map[string]map[string][]int, docs map[string]string, err error) {
	got, docs = map[string]map[string][]int{}, map[string]string{}
	add := func(ent string, mv markers.MarkerValues) {
		for name, vals := range mv {
			for _, v := range vals {
				if got[ent] == nil {
					got[ent] = map[string][]int{}
				}
				got[ent][name] = append(got[ent][name], v.(int))
			}
		}
	}
	col := &markers.Collector{Registry: reg}
	err = markers.EachType(col, pkg, func(info *markers.TypeInfo) {
		add(info.Name, info.Markers)
		docs[info.Name] = info.Doc
		emb := 0
		for _, f := range info.Fields {
			n := f.Name
			if n == "" {
				n = fmt.Sprintf("#%d", emb)
				emb++
			}
			add(info.Name+"."+n, f.Markers)
			docs[info.Name+"."+n] = f.Doc
		}
	})
	if err != nil {
		return
	}
	pm, err := markers.PackageMarkers(col, pkg)
	if err != nil {
		return nil, nil, err
	}
	add("pkg", pm)
	return
}

func checkCollect(cases []any) []pbt.Outcome {
	dir := Scratch("col")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*colCase).files)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	reg := colRegistry()
	out := make([]pbt.Outcome, len(cases))
	for i := range cases {
		c := cases[i].(*colCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			pkg := l.Case(i)[0]
			if len(pkg.Errors) > 0 {
				panic(pbt.HarnessPanic("bad generated source: " + pkg.Errors[0].Error() + "\n" + c.files.Show()))
			}
			got, docs, err := collected(reg, pkg)
			if err != nil {
				return pbt.Failf("collection failed", "%v", err)
			}
			ents := map[string]bool{}
			for e := range got {
				ents[e] = true
			}
			for e := range c.want {
				ents[e] = true
			}
			var keys []string
			for e := range ents {
				keys = append(keys, e)
			}
			sort.Strings(keys)
			for _, e := range keys {
				for _, n := range colNames {
					if fmt.Sprint(got[e][n]) != fmt.Sprint(c.want[e][n]) {
						return pbt.Failf("wrong markers", "on %s, %s: got %v, want %v", e, n, got[e][n], c.want[e][n])
					}
				}
			}
			for e, d := range docs {
				if strings.HasPrefix(e, "E") {
					continue
				}
				if w, ok := c.docs[e]; !ok || w != d {
					return pbt.Failf("wrong documentation", "of %s: got %q, want %q", e, d, w)
				}
			}
			return pbt.OK(c.nmk >= 2 && c.nent >= 1)
		})
	}
	return out
}

func init() {
	register(&Prop{
		ID:          "C03",
		Rule:        "Random Go files (package docs, imports, single and grouped types, struct fields single/multi-name/embedded/nested, consts, vars, functions with bodies, trailing comments, free comment groups) with marker comments registered for different targets in every comment position; the association computed while generating must equal what the collector reports, in order, and docs must equal the modelled documentation. Non-trivial: at least two markers and one type or field.",
		Assumptions: []string{"the association rule documented on the collector and in the package documentation", "markers directly behind a closing brace are not generated (undocumented)"},
		Families:    []*pbt.Family{{Name: "association", Gen: genCollectCase, Check: checkCollect, Show: showCollect, Batch: 200, Parallel: 4, Quick: 3000, Thorough: 80000}},
	})
}
