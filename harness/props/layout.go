package props

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// ---- C29: the same declarations laid out differently

type layCase struct {
	files, other ws.Files
	roots        []string
	gens         []genall.Generator
	opts         string
	did          []string
}

// chunk is a declaration with what is written before it.
type chunk struct {
	text string
	uses map[string]bool // names before a dot
	typ  string          // set if it declares just this type, with no more comments than its doc
	doc  string
	spec string // such a type without the word
}

type layFile struct {
	name    string
	head    string // up to and with the package clause
	pkg     string
	imports []layImport
	fixed   bool // the imports may not be touched
	chunks  []*chunk
	tail    string
}

type layImport struct{ name, text string }

// parseLayout takes a file apart, and returns nil if it is not one that can be.
func parseLayout(name, src string, files ws.Files) *layFile {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	lineEnd := func(o int) int {
		if i := strings.IndexByte(src[o:], '\n'); i >= 0 {
			return o + i + 1
		}
		return len(src)
	}
	l := &layFile{name: name, pkg: f.Name.Name}
	at := lineEnd(off(f.Name.End()))
	l.head = src[:at]
	imported := at
	for _, d := range f.Decls {
		from, to := at, lineEnd(off(d.End()))
		// NB: a comment that starts on the line of the declaration stays with it
		for _, g := range f.Comments {
			for _, c := range g.List {
				if a := off(c.Pos()); a >= off(d.End()) && a < to {
					to = max(to, lineEnd(off(c.End())))
				}
			}
		}
		if from > off(d.Pos()) {
			return nil // two declarations on one line
		}
		gd, isGen := d.(*ast.GenDecl)
		if isGen && gd.Tok == token.IMPORT {
			if len(l.chunks) > 0 {
				return nil
			}
			for _, g := range f.Comments {
				if a := off(g.Pos()); a >= from && a < to {
					l.fixed = true
				}
			}
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				p, _ := strconv.Unquote(is.Path.Value)
				n := path.Base(p)
				if is.Name != nil {
					n = is.Name.Name
				} else if rest, ok := strings.CutPrefix(p, "CASE/"); ok {
					for other, text := range files {
						if path.Dir(other) == rest {
							if pf, err := parser.ParseFile(token.NewFileSet(), "", text, parser.PackageClauseOnly); err == nil {
								n = pf.Name.Name
							}
						}
					}
				}
				if n == "." || n == "_" {
					l.fixed = true
				}
				l.imports = append(l.imports, layImport{n, src[off(is.Pos()):off(is.End())]})
			}
			at, imported = to, to
			continue
		}
		c := &chunk{text: src[from:to], uses: map[string]bool{}}
		ast.Inspect(d, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					c.uses[id.Name] = true
				}
			}
			return true
		})
		if isGen && gd.Tok == token.TYPE && !gd.Lparen.IsValid() && len(gd.Specs) == 1 {
			ts := gd.Specs[0].(*ast.TypeSpec)
			groups := 0
			for _, g := range f.Comments {
				if a := off(g.Pos()); a >= from && a < off(d.Pos()) || a >= off(d.End()) && a < to {
					groups++
				}
			}
			if gd.Doc == nil && groups == 0 || gd.Doc != nil && groups == 1 {
				c.typ = ts.Name.Name
				if gd.Doc != nil {
					c.doc = strings.TrimSpace(src[off(gd.Doc.Pos()):off(gd.Pos())])
				}
				c.spec = strings.TrimSpace(src[off(ts.Pos()):to])
			}
		}
		l.chunks = append(l.chunks, c)
		at = to
	}
	l.tail = src[at:]
	if l.fixed {
		l.head = src[:imported]
	}
	return l
}

func (l *layFile) render() string {
	var b strings.Builder
	b.WriteString(l.head)
	if !l.fixed {
		for _, im := range l.imports {
			for _, c := range l.chunks {
				if c.uses[im.name] {
					b.WriteString("\nimport " + im.text + "\n")
					break
				}
			}
		}
	}
	for _, c := range l.chunks {
		if !strings.HasSuffix(b.String(), "\n") {
			b.WriteString("\n")
		}
		b.WriteString(c.text)
	}
	if l.tail != "" && !strings.HasPrefix(l.tail, "\n") {
		b.WriteString("\n")
	}
	b.WriteString(l.tail)
	return b.String()
}

var bystanders = []string{
	"\n// zz%[1]d does things.\nfunc zz%[1]d() {\n\t// +kubebuilder:validation:Nothing\n\ttype local struct{ A int }\n\t_ = local{}\n}\n",
	"\nvar zz%[1]d = map[string]int{\"a\": 1}\n",
	"\n// zz%[1]d is a constant.\nconst zz%[1]d = `x`\n",
	"\nconst (\n\tzz%[1]d = iota\n\tzzz%[1]d\n)\n",
	"\nvar _ = func(in int) (out string) { return \"\" }\n",
}

// renameImports gives the imports of a file other names.
func renameImports(s *pbt.Src, src string) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments)
	if err != nil {
		return src, false
	}
	type edit struct {
		at, to int
		text   string
	}
	var edits []edit
	names := map[string]string{}
	for _, im := range f.Imports {
		if im.Name == nil || im.Name.Name == "." || im.Name.Name == "_" || s.Chance(30) {
			continue
		}
		n := fmt.Sprintf("%s%d", pbt.Pick(s, "impo", "metav1x", "zz_", "X"), len(names)+70)
		names[im.Name.Name] = n
		edits = append(edits, edit{fset.Position(im.Name.Pos()).Offset, fset.Position(im.Name.End()).Offset, n})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Obj == nil && names[id.Name] != "" {
				edits = append(edits, edit{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, names[id.Name]})
			}
		}
		return true
	})
	sort.Slice(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	out, at := "", 0
	for _, e := range edits {
		out += src[at:e.at] + e.text
		at = e.to
	}
	return out + src[at:], len(edits) > 0
}

// relayout writes the same declarations in another way.
func (c *layCase) relayout(s *pbt.Src) {
	c.other = ws.Files{}
	did := map[string]bool{}
	pkgs := map[string][]*layFile{}
	var dirs []string
	for _, f := range sortedKeys(c.files) {
		dir := path.Dir(f)
		src := c.files[f]
		if s.Chance(25) {
			var yes bool
			if src, yes = renameImports(s, src); yes {
				did["imports renamed"] = true
			}
		}
		l := parseLayout(f, src, c.files)
		if l == nil {
			c.other[f] = src
			continue
		}
		if pkgs[dir] == nil {
			dirs = append(dirs, dir)
		}
		pkgs[dir] = append(pkgs[dir], l)
	}
	n := 0
	for _, dir := range dirs {
		fs := pkgs[dir]
		for _, l := range append([]*layFile(nil), fs...) {
			if s.Chance(60) && len(l.chunks) > 1 {
				l.chunks = pbt.Shuffle(s, l.chunks)
				did["reordered"] = true
			}
			if s.Chance(50) && !l.fixed && len(l.chunks) > 1 {
				more := &layFile{name: path.Join(dir, pbt.Pick(s, "aa", "zz", "m")+fmt.Sprintf("_%d.go", len(fs))), head: pbt.Pick(s, "", "// Some words.\n\n") + "package " + l.pkg + "\n", pkg: l.pkg, imports: l.imports}
				var left []*chunk
				for _, ch := range l.chunks {
					if s.Bool() {
						more.chunks = append(more.chunks, ch)
					} else {
						left = append(left, ch)
					}
				}
				l.chunks = left
				fs = append(fs, more)
				did["split"] = true
			}
		}
		for _, l := range fs {
			if s.Chance(40) {
				// types into groups
				var out []*chunk
				for i := 0; i < len(l.chunks); {
					k := i
					for k < len(l.chunks) && l.chunks[k].typ != "" && s.Chance(60) {
						k++
					}
					if k == i {
						out = append(out, l.chunks[i])
						i++
						continue
					}
					g := &chunk{text: "\ntype (\n", uses: map[string]bool{}}
					for ; i < k; i++ {
						if l.chunks[i].doc != "" {
							g.text += "\t" + l.chunks[i].doc + "\n"
						}
						g.text += "\t" + l.chunks[i].spec + "\n"
						for u := range l.chunks[i].uses {
							g.uses[u] = true
						}
						if i+1 < k {
							g.text += pbt.Pick(s, "\n", "")
						}
					}
					g.text += ")\n"
					out = append(out, g)
					did["grouped"] = true
				}
				l.chunks = out
			}
			if s.Chance(40) {
				for range s.Range(1, 3) {
					n++
					at := s.Intn(len(l.chunks) + 1)
					b := bystanders[s.Intn(len(bystanders))]
					if strings.Contains(b, "%") {
						b = fmt.Sprintf(b, n)
					}
					l.chunks = append(l.chunks[:at:at], append([]*chunk{{text: b}}, l.chunks[at:]...)...)
				}
				did["bystanders"] = true
			}
			name, text := l.name, l.render()
			if s.Chance(15) {
				text = strings.ReplaceAll(text, "\n", "\r\n")
				did["CRLF"] = true
			}
			if s.Chance(15) {
				name = path.Join(dir, pbt.Pick(s, "a", "z", "q")+"q_"+path.Base(name))
				did["renamed"] = true
			}
			c.other[name] = text
		}
		if s.Chance(15) {
			did["files that don't count"] = true
			c.other[path.Join(dir, "in_test.go")] = "// +groupName=elsewhere\npackage " + fs[0].pkg + "\n\n// +kubebuilder:object:root=true\ntype InTest struct {\n\tA chan int\n}\n"
			c.other[path.Join(dir, "never.go")] = "//go:build never\n\n// +groupName=nowhere\npackage " + fs[0].pkg + "\n\n// +kubebuilder:object:root=true\ntype Never struct {\n\tA chan int\n}\n"
		}
	}
	for d := range did {
		c.did = append(c.did, d)
	}
	sort.Strings(c.did)
}

func genLayout(s *pbt.Src) any {
	c := &layCase{files: ws.Files{}}
	o := crd.Generator{AllowDangerousTypes: ptrTo(true)}
	if s.Chance(30) {
		o.MaxDescLen = ptrTo(pbt.Pick(s, 0, 5, 20, 60))
		c.opts += fmt.Sprintf(" maxDescLen=%d", *o.MaxDescLen)
	}
	if s.Chance(30) {
		o.GenerateEmbeddedObjectMeta = ptrTo(true)
		c.opts += " generateEmbeddedObjectMeta"
	}
	c.gens = []genall.Generator{o, deepcopy.Generator{}, rbac.Generator{RoleName: "r"}, webhook.Generator{}}
	switch s.PickW(3, 3, 3, 2, 2, 2) {
	case 0:
		c.files = genManifests(s).(*crdCase).files
	case 1:
		c.files = constraintCase(s, false).(*conCase).files
	case 2:
		c.files = genSchemaCase(s).(*schCase).files
	case 3:
		d := genDeepCopyCase(s).(*dcCase)
		for _, p := range d.pkgs {
			c.files[p.dir+"/types.go"] = p.source("CASE", false)
		}
	case 4:
		c.files = rbacFiles(genRBACCase(s).(*rbacCase).pkgs, "r")
	case 5:
		c.files = genDocCase(s).(*docCase).files
	}
	if s.Chance(50) {
		for _, f := range sortedKeys(c.files) {
			if !strings.Contains(c.files[f], "object:generate") {
				c.files[f] = "// +kubebuilder:object:generate=true\n" + c.files[f]
			}
		}
	}
	m := map[string]bool{}
	for f := range c.files {
		m[path.Dir(f)] = true
	}
	for d := range m {
		c.roots = append(c.roots, d)
	}
	sort.Strings(c.roots)
	c.relayout(s)
	return c
}

func (c *layCase) show() string {
	return c.files.Show() + "and as:\n" + c.other.Show() + fmt.Sprintf("options:%s %v\n", c.opts, c.did)
}

// fullNames writes paths for the names of imports, which depend on which import is needed first.
func fullNames(src []byte) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return string(src)
	}
	paths := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if im.Name != nil {
			paths[im.Name.Name] = p
		} else {
			paths[path.Base(p)] = p
		}
	}
	type edit struct {
		at, to int
		text   string
	}
	var edits []edit
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			edits = append(edits, edit{fset.Position(d.Pos()).Offset, fset.Position(d.End()).Offset, "imports"})
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && paths[id.Name] != "" {
					edits = append(edits, edit{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, "<" + paths[id.Name] + ">"})
				}
			}
			return true
		})
	}
	var all []string
	for _, im := range f.Imports {
		all = append(all, im.Path.Value)
	}
	sort.Strings(all)
	sort.Slice(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	out, at := strings.Join(all, " ")+"\n", 0
	for _, e := range edits {
		out += string(src[at:e.at])
		if e.text[0] == '<' {
			out += e.text
		}
		at = e.to
	}
	return out + string(src[at:])
}

func checkLayout(cases []any) []pbt.Outcome {
	load := func(files []ws.Files) *ws.Loaded {
		dir := Scratch("lay")
		l, err := ws.LoadCases(dir, files)
		if err != nil {
			panic(pbt.HarnessPanic("load: " + err.Error()))
		}
		return l
	}
	var one, two []ws.Files
	for i, a := range cases {
		c := a.(*layCase)
		one, two = append(one, place(c.files, i)), append(two, place(c.other, i))
	}
	l1, l2 := load(one), load(two)
	defer Drop(l1.Dir)
	defer Drop(l2.Dir)
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*layCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			roots := func(l *ws.Loaded) (out []*pkgT) {
				for _, r := range c.roots {
					out = append(out, l.ByPath[filepath.Join(ws.Mod, fmt.Sprintf("c%d", i), r)])
				}
				return out
			}
			n := 0
			for _, g := range c.gens {
				a, b := ws.Run(g, roots(l1)), ws.Run(g, roots(l2))
				if a.Bad() != b.Bad() {
					return pbt.Failf("success differs", "%T: %v\nand laid out differently: %v", g, a.Errs, b.Errs)
				}
				if a.Bad() {
					continue
				}
				if x, y := fmt.Sprint(detKeys(a.Files)), fmt.Sprint(detKeys(b.Files)); x != y {
					return pbt.Failf("artifacts differ", "%T: %s\nand laid out differently: %s", g, x, y)
				}
				for k := range a.Files {
					if !bytes.Equal(a.Files[k], b.Files[k]) && (!strings.HasSuffix(k, ".go") || fullNames(a.Files[k]) != fullNames(b.Files[k])) {
						return pbt.Failf("contents differ", "%s is\n%s\nand laid out differently\n%s", k, a.Files[k], b.Files[k])
					}
					n++
				}
			}
			return pbt.OK(n > 0 && len(c.did) > 0, c.did...)
		})
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "something is generated, and the other layout differs",
		Assumptions: []string{
			"comments move with the declaration they precede; files with dot imports keep their imports, so no declaration leaves them",
			"webhook markers are left out, their order is that of the source",
			"generated code is compared up to the names it gives to imports",
		},
		Families: []*pbt.Family{{
			Name: "layout", Gen: genLayout, Check: checkLayout, Show: func(a any) string { return a.(*layCase).show() },
			Batch: 60, Parallel: 3, Quick: 900, Thorough: 30000, ShrinkBatch: 40,
		}},
	})
}
