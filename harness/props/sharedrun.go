package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
	"verif/ws"
)

// -- one collector, checker and parser for a history of uses

type histOp struct {
	kind string // gen, schema, flat, crd, markers, each
	n    uint64
}

type histCase struct {
	detCase
	desc *int
	ops  []histOp
}

func genHistory(s *pbt.Src) any {
	c := &histCase{}
	switch s.PickW(5, 3, 2) {
	case 0:
		c.detCase = *genDetKinds(s).(*detCase)
	case 1:
		c.detCase = *genDetSchemas(s).(*detCase)
	default:
		c.detCase = *genDetManifests(s).(*detCase)
	}
	if s.Chance(40) {
		n := pbt.Pick(s, 0, 7, 40)
		c.desc = &n
	}
	for n := s.Range(2, 14); n > 0; n-- {
		c.ops = append(c.ops, histOp{[]string{"gen", "schema", "flat", "crd", "markers", "each"}[s.PickW(25, 20, 20, 20, 10, 10)], s.Uint(1 << 20)})
	}
	return c
}

// histSide is a set of objects to ask, over one load.
type histSide struct {
	roots  []*loader.Package
	col    *markers.Collector
	chk    *loader.TypeChecker
	parser *crd.Parser
	kinds  []schema.GroupKind // of the roots
}

func (c *histCase) side(roots []*loader.Package) *histSide {
	reg := &markers.Registry{}
	var gens genall.Generators
	for i := range c.gens {
		gens = append(gens, &c.gens[i])
	}
	if err := gens.RegisterMarkers(reg); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return &histSide{roots: roots, col: &markers.Collector{Registry: reg}, chk: &loader.TypeChecker{NodeFilters: gens.CheckFilters()}}
}

func (s *histSide) crds() *crd.Parser {
	if s.parser == nil {
		s.parser = &crd.Parser{Collector: s.col, Checker: s.chk, AllowDangerousTypes: true}
		crd.AddKnownTypes(s.parser)
		for _, r := range s.roots {
			s.parser.NeedPackage(r)
		}
		// before other packages are needed: later it finds their kinds, too
		if meta := crd.FindMetav1(s.roots); meta != nil {
			s.kinds = crd.FindKubeKinds(s.parser, meta)
		}
	}
	return s.parser
}

func (s *histSide) errs(before map[*packages.Package]int) (out []string) {
	var raw []*packages.Package
	for _, r := range s.roots {
		raw = append(raw, r.Package)
	}
	packages.Visit(raw, nil, func(p *packages.Package) {
		for _, e := range p.Errors[min(before[p], len(p.Errors)):] {
			if e.Kind != packages.TypeError {
				out = append(out, e.Error())
			}
		}
	})
	return
}

func nodeName(n ast.Node) string {
	switch n := n.(type) {
	case *ast.File:
		return fmt.Sprintf("file %d", n.Pos())
	case *ast.TypeSpec:
		return fmt.Sprintf("type %s", n.Name.Name)
	case *ast.Field:
		return fmt.Sprintf("field %d", n.Pos())
	}
	return fmt.Sprintf("%T %d", n, n.Pos())
}

// dumpMarkers is everything a collector says about packages.
func dumpMarkers(col *markers.Collector, pkgs []*loader.Package) string {
	var lines []string
	for _, p := range pkgs {
		m, err := col.MarkersInPackage(p)
		if err != nil {
			lines = append(lines, p.PkgPath+": error")
			continue
		}
		for n, vals := range m {
			for k, vs := range vals {
				for _, v := range vs {
					b, _ := json.Marshal(v)
					lines = append(lines, fmt.Sprintf("%s: %s: %s: %T %+v %s", p.PkgPath, nodeName(n), k, v, v, b))
				}
			}
		}
	}
	// values with pointers print addresses, the same ones only within one collector
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func dumpTypes(col *markers.Collector, pkgs []*loader.Package) string {
	var sb strings.Builder
	vals := func(m markers.MarkerValues) string {
		var out []string
		for _, k := range sortedKeys(m) {
			b, _ := json.Marshal(m[k])
			out = append(out, k+"="+string(b))
		}
		return strings.Join(out, " ")
	}
	for _, p := range pkgs {
		pm, err := markers.PackageMarkers(col, p)
		fmt.Fprintf(&sb, "%s %s %v\n", p.PkgPath, vals(pm), err != nil)
		err = markers.EachType(col, p, func(t *markers.TypeInfo) {
			fmt.Fprintf(&sb, "  %s %q %s\n", t.Name, t.Doc, vals(t.Markers))
			for _, f := range t.Fields {
				fmt.Fprintf(&sb, "    %s %q %q %s\n", f.Name, f.Doc, f.Tag, vals(f.Markers))
			}
		})
		fmt.Fprintf(&sb, "%v\n", err != nil)
	}
	return sb.String()
}

// ask does one operation and tells the answer; bad means that errors were reported.
func (s *histSide) ask(c *histCase, op histOp) (answer string, bad bool) {
	before := countErrs(s.roots)
	var b bytes.Buffer
	switch op.kind {
	case "gen":
		out := &ws.MemOut{}
		g := c.gens[op.n%uint64(len(c.gens))]
		err := g.Generate(&genall.GenerationContext{Collector: s.col, Roots: s.roots, Checker: s.chk, InputRule: genall.InputFromFileSystem, OutputRule: out})
		if err != nil {
			return err.Error(), true
		}
		for _, k := range sortedKeys(out.Files) {
			fmt.Fprintf(&b, "== %s\n%s\n", k, out.Files[k])
		}
	case "schema", "flat":
		p := s.crds()
		var ids []crd.TypeIdent
		for id := range p.Types {
			for _, r := range s.roots {
				if id.Package == r {
					ids = append(ids, id)
				}
			}
		}
		if len(ids) == 0 {
			return "", false
		}
		sort.Slice(ids, func(i, j int) bool {
			return ids[i].Package.PkgPath < ids[j].Package.PkgPath || ids[i].Package == ids[j].Package && ids[i].Name < ids[j].Name
		})
		id := ids[op.n%uint64(len(ids))]
		var x any
		if op.kind == "flat" {
			p.NeedFlattenedSchemaFor(id)
			x = p.FlattenedSchemata[id]
		} else {
			p.NeedSchemaFor(id)
			x = p.Schemata[id]
		}
		j, _ := json.MarshalIndent(x, "", " ")
		fmt.Fprintf(&b, "%s %s", id.Name, j)
	case "crd":
		p := s.crds()
		if len(s.kinds) == 0 {
			return "", false
		}
		k := s.kinds[op.n%uint64(len(s.kinds))]
		p.NeedCRDFor(k, c.desc)
		j, _ := json.MarshalIndent(p.CustomResourceDefinitions[k], "", " ")
		fmt.Fprintf(&b, "%s %s", k, j)
	case "markers", "each":
		b.WriteString(dumpTypes(s.col, s.roots))
	}
	errs := s.errs(before)
	if len(errs) > 0 {
		return strings.Join(errs, "\n"), true
	}
	return b.String(), false
}

func countErrs(roots []*loader.Package) map[*packages.Package]int {
	m := map[*packages.Package]int{}
	var raw []*packages.Package
	for _, r := range roots {
		raw = append(raw, r.Package)
	}
	packages.Visit(raw, nil, func(p *packages.Package) { m[p] = len(p.Errors) })
	return m
}

func checkHistories(cases []any) []pbt.Outcome {
	dir := Scratch("hist")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*histCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	l2, err := ws.Load(dir, "./...")
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	return eachCase(cases, func(i int, a any) pbt.Outcome {
		c := a.(*histCase)
		roots := func(l *ws.Loaded) (out []*loader.Package) {
			for _, r := range c.roots {
				out = append(out, l.ByPath[filepath.Join(ws.Mod, fmt.Sprintf("c%d", i), r)])
			}
			return out
		}
		shared := c.side(roots(l))
		first := dumpMarkers(shared.col, shared.roots)
		n, kinds := 0, map[string]bool{}
		for k, op := range c.ops {
			want, badWant := c.side(roots(l2)).ask(c, op)
			if badWant {
				// errors stay with the packages, so the rest is not comparable
				if n == 0 {
					return pbt.Outcome{Excluded: "reports errors"}
				}
				break
			}
			got, bad := shared.ask(c, op)
			if bad {
				return pbt.Failf("errors", "operation %d (%s) fails after others: %s", k, op.kind, got)
			}
			if got != want {
				return pbt.Failf("answer", "operation %d (%s) after others gives\n%s\nand alone\n%s", k, op.kind, diffHist(got, want), diffHist(want, got))
			}
			if now := dumpMarkers(shared.col, shared.roots); now != first {
				return pbt.Failf("markers", "the markers that were collected are changed by operation %d (%s):\n%s\nbefore\n%s", k, op.kind, diffHist(now, first), diffHist(first, now))
			}
			if len(want) > 40 {
				n++
				kinds[op.kind] = true
			}
		}
		return pbt.OK(n > 2 && len(kinds) > 1)
	})
}

// diffHist is a text from a little before the place where it differs from another.
func diffHist(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(al) && i < len(bl) && al[i] == bl[i] {
		i++
	}
	return strings.Join(al[max(0, i-3):min(len(al), i+5)], "\n")
}

func (c *histCase) show() string {
	var ops []string
	for _, o := range c.ops {
		ops = append(ops, fmt.Sprintf("%s/%d", o.kind, o.n))
	}
	d := ""
	if c.desc != nil {
		d = fmt.Sprint(*c.desc)
	}
	return c.files.Show() + fmt.Sprintf("options:%s roots: %v descriptions: %s operations: %s\n", c.opts, c.roots, d, strings.Join(ops, " "))
}
