package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall/help"
	"sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
	"verif/ws"
)

// ---- help against the parser

type hdCase struct {
	reg  *markers.Registry
	def  *markers.Definition
	opts bool
	seed []uint64 // choices for the use of the marker
	from string
}

func genHelpDoc(s *pbt.Src) any {
	c := &hdCase{}
	switch s.PickW(5, 2, 3) {
	case 0:
		r := regsOnce()[0]
		c.reg, c.def, c.from = r.reg, r.defs[s.Intn(len(r.defs))], "shipped markers"
	case 1:
		r := regsOnce()[1]
		c.reg, c.def, c.from, c.opts = r.reg, r.defs[s.Intn(len(r.defs))], "options", true
	default:
		for {
			mc := genMarkerCase(s, false)
			reg, err := mc.registry()
			if err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			defs := reg.AllDefinitions()
			sort.Slice(defs, func(i, j int) bool {
				return defs[i].Name < defs[j].Name || defs[i].Name == defs[j].Name && defs[i].Target < defs[j].Target
			})
			c.reg, c.from = reg, "random markers"
			c.def = defs[s.Intn(len(defs))]
			if s.Bool() {
				reg.AddHelp(c.def, &markers.DefinitionHelp{Category: pbt.Pick(s, "", "x"), FieldHelp: map[string]markers.DetailedHelp{"Alpha": {Summary: "first"}, "Nope": {Summary: "of no field"}}})
			}
			break
		}
	}
	for i := 0; i < 12; i++ {
		c.seed = append(c.seed, s.U64())
	}
	return c
}

// sampleArg is text for an argument as the help describes it.
func sampleArg(s *pbt.Src, a help.Argument, depth int) (string, bool) {
	switch a.Type {
	case "int":
		return pbt.Pick(s, "0", "1", "-7", "42"), true
	case "float64":
		return pbt.Pick(s, "0", "1", "2.5", "-0.25", "1e3"), true
	case "string":
		return pbt.Pick(s, "a", `"b c"`, "`d`", `""`), true
	case "bool":
		return pbt.Pick(s, "true", "false"), true
	case "any":
		if depth < 0 {
			return "1", true
		}
		return pbt.Pick(s, "1", "true", `"x"`, "{}"), true // also JSON
	case "slice", "map":
		if a.ItemType == nil || depth < -2 {
			return "{}", a.ItemType != nil
		}
		var parts []string
		for i, n := 0, s.Small(2); i < n; i++ {
			t, ok := sampleArg(s, *a.ItemType, depth-1)
			if !ok {
				return "", false
			}
			if a.Type == "map" {
				t = fmt.Sprintf("k%d: %s", i, t)
			}
			parts = append(parts, t)
		}
		return "{" + strings.Join(parts, ",") + "}", true
	}
	return "", false
}

// wrongArg is text that is no value of the argument's type.
func wrongArg(s *pbt.Src, a help.Argument) (string, bool) {
	switch a.Type {
	case "int":
		return pbt.Pick(s, `"x"`, "1.5", "true", "{1}"), true
	case "float64":
		return pbt.Pick(s, `"x"`, "true", "{1}"), true
	case "bool":
		return pbt.Pick(s, `"x"`, "1", "{true}"), true
	case "map":
		return pbt.Pick(s, `"x"`, "1", "a"), true
	case "slice":
		if a.ItemType != nil && (a.ItemType.Type == "int" || a.ItemType.Type == "float64" || a.ItemType.Type == "bool") {
			return pbt.Pick(s, `{"x"}`, `{{}}`, `"x"`), true
		}
	}
	return "", false
}

func parseWith(reg *markers.Registry, def *markers.Definition, text string) error {
	found := reg.Lookup(text, def.Target)
	if found != def {
		return fmt.Errorf("%q is looked up as another marker", text)
	}
	_, err := def.Parse(text)
	return err
}

func checkHelpDoc(c *hdCase) pbt.Outcome {
	var sorter help.SortGroup = help.SortByCategory
	if c.opts {
		sorter = help.SortByOption
	}
	cats := help.ByCategory(c.reg, sorter)
	// every definition once, under its target, in one category
	type key struct{ name, target string }
	seen := map[key]int{}
	var doc *help.MarkerDoc
	for _, cat := range cats {
		for i, m := range cat.Markers {
			seen[key{m.Name, m.Target}]++
			if m.Name == c.def.Name && m.Target == c.def.Target.String() {
				doc = &cat.Markers[i]
				if !c.opts && cat.Category != m.Category {
					return pbt.Failf("wrong category", "%s is listed under %q instead of %q", m.Name, cat.Category, m.Category)
				}
			}
			if d := m.DeprecatedInFavorOf; d != nil && *d != "" && c.from != "random markers" {
				found := false
				for _, o := range c.reg.AllDefinitions() {
					found = found || o.Name == *d
				}
				if !found {
					return pbt.Failf("help names an unknown marker", "%s is deprecated in favour of %s", m.Name, *d)
				}
			}
			if c.from == "shipped markers" && m.Category == "" {
				return pbt.Failf("marker without category", "%s is not shown by -w", m.Name)
			}
		}
	}
	want := map[key]int{}
	for _, d := range c.reg.AllDefinitions() {
		want[key{d.Name, d.Target.String()}]++
	}
	if fmt.Sprint(seen) != fmt.Sprint(want) {
		return pbt.Failf("help does not list the markers", "%v instead of %v", seen, want)
	}
	if doc == nil {
		return pbt.Failf("marker missing in help", "%s for %v", c.def.Name, c.def.Target)
	}
	if c.from == "random markers" {
		if h := c.reg.HelpFor(c.def); h != nil {
			for _, f := range doc.Fields {
				w := ""
				if strings.EqualFold(strings.TrimLeft(strings.TrimSuffix(f.Name, "X"), "o"), "alpha") {
					w = "first"
				}
				if f.Summary != w {
					return pbt.Failf("help of another argument", "%s: %q", f.Name, f.Summary)
				}
			}
		}
	}
	nt := len(doc.Fields) > 0
	s := pbt.Replay(c.seed)
	name := "+" + c.def.Name
	if doc.Empty() {
		if err := parseWith(c.reg, c.def, name); err != nil {
			return pbt.Failf("help too short", "%s takes no arguments according to the help, but: %v", name, err)
		}
		return pbt.OK(nt)
	}
	if doc.AnonymousField() {
		f := doc.Fields[0]
		if f.Type == "raw" {
			if err := parseWith(c.reg, c.def, name+"=any thing"); err != nil {
				return pbt.Failf("documented use rejected", "%s: %v", name, err)
			}
			return pbt.OK(nt)
		}
		v, ok := sampleArg(s, f.Argument, 2)
		if !ok {
			return pbt.Failf("no usable type", "%s: %s", name, f.TypeString())
		}
		if err := parseWith(c.reg, c.def, name+"="+v); err != nil {
			return pbt.Failf("documented use rejected", "%s=%s for %s: %v", name, v, f.TypeString(), err)
		}
		if w, ok := wrongArg(s, f.Argument); ok {
			if err := parseWith(c.reg, c.def, name+"="+w); err == nil {
				return pbt.Failf("undocumented use accepted", "%s=%s for %s", name, w, f.TypeString())
			}
		}
		return pbt.OK(nt)
	}
	use := func(skip map[string]bool, change map[string]string) (string, bool) {
		var parts []string
		for _, f := range doc.Fields {
			if skip[f.Name] {
				continue
			}
			v, ok := sampleArg(s, f.Argument, 2)
			if !ok {
				return "", false
			}
			if w, ok := change[f.Name]; ok {
				v = w
			}
			parts = append(parts, f.Name+"="+v)
		}
		if x, ok := change[""]; ok {
			parts = append(parts, x)
		}
		parts = pbt.Shuffle(s, parts)
		if len(parts) == 0 {
			return name, true
		}
		return name + ":" + strings.Join(parts, ","), true
	}
	ok1 := func(skip map[string]bool) *pbt.Outcome {
		text, ok := use(skip, nil)
		if !ok {
			o := pbt.Failf("no usable type", "%s", jsonOf(doc))
			return &o
		}
		if err := parseWith(c.reg, c.def, text); err != nil {
			o := pbt.Failf("documented use rejected", "%s: %v", text, err)
			return &o
		}
		return nil
	}
	bad := func(why string, skip map[string]bool, change map[string]string) *pbt.Outcome {
		text, _ := use(skip, change)
		if err := parseWith(c.reg, c.def, text); err == nil {
			o := pbt.Failf("undocumented use accepted", "%s (%s)", text, why)
			return &o
		}
		return nil
	}
	if o := ok1(nil); o != nil {
		return *o
	}
	opt := map[string]bool{}
	for _, f := range doc.Fields {
		if f.Optional {
			opt[f.Name] = true
		}
	}
	if o := ok1(opt); o != nil {
		return *o
	}
	for _, f := range doc.Fields {
		if f.Optional {
			if o := ok1(map[string]bool{f.Name: true}); o != nil {
				return *o
			}
		} else if o := bad("without the required "+f.Name, map[string]bool{f.Name: true}, nil); o != nil {
			return *o
		}
		if w, ok := wrongArg(s, f.Argument); ok {
			if o := bad("no "+f.TypeString(), nil, map[string]string{f.Name: w}); o != nil {
				return *o
			}
		}
	}
	if o := bad("unknown argument", nil, map[string]string{"": "unknownArgument=1"}); o != nil {
		return *o
	}
	return pbt.OK(nt)
}

func showHelpDoc(a any) string {
	c := a.(*hdCase)
	return fmt.Sprintf("%s: %s for %v: %s\n", c.from, c.def.Name, c.def.Target, jsonOf(help.ForDefinition(c.def, c.reg.HelpFor(c.def))))
}

// ---- the command line's help

type hcCase struct {
	gens []string
	n    int
}

func genHelpCLI(s *pbt.Src) any {
	return &hcCase{gens: pbt.Subset(s, []string{"crd", "object", "webhook", "applyconfiguration", "rbac:roleName=x", "schemapatch:manifests=y"}, 45)}
}

func checkHelpCLI(cases []any) []pbt.Outcome {
	return pbt.Each(func(c *hcCase) pbt.Outcome {
		dir := Scratch("hcli")
		defer Drop(dir)
		reg := &markers.Registry{}
		all := allGenerators()
		for _, g := range c.gens {
			if err := all[strings.Split(g, ":")[0]].RegisterMarkers(reg); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
		}
		for _, x := range []struct {
			flag string
			cats []help.CategoryDoc
		}{{"w", help.ByCategory(reg, help.SortByCategory)}, {"h", help.ByCategory(optionsRegistry(), help.SortByOption)}} {
			for level := 1; level <= 4; level++ {
				r := runCLI(dir, append([]string{"-" + strings.Repeat(x.flag, level)}, c.gens...)...)
				if r.code != 0 {
					return pbt.Failf("help fails", "exit %d: %.300s", r.code, r.err)
				}
				if level == 4 {
					i := strings.Index(r.out, "[{\"category\"")
					if i < 0 && len(x.cats) > 0 {
						return pbt.Failf("no JSON help", "%.300s", r.out)
					}
					if len(x.cats) == 0 {
						continue
					}
					var got []help.CategoryDoc
					if err := json.NewDecoder(strings.NewReader(r.out[i:])).Decode(&got); err != nil {
						return pbt.Failf("no JSON help", "%v", err)
					}
					if a, b := jsonOf(got), jsonOf(x.cats); a != b {
						return pbt.Failf("JSON help differs", "%s\n%s", a, b)
					}
					continue
				}
				text := r.out + r.err
				if bad := printed(text, x.cats, level); bad != "" {
					return pbt.Failf("help incomplete", "-%s of %q: %s", strings.Repeat(x.flag, level), c.gens, bad)
				}
			}
		}
		return pbt.OK(len(c.gens) > 0)
	})(cases)
}

// argType is the type of an argument as help writes it.
func argType(a help.Argument) string {
	switch a.Type {
	case "slice":
		return "[]" + argType(*a.ItemType)
	case "map":
		return "map[string]" + argType(*a.ItemType)
	}
	return a.Type
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// printed looks for all that the help of a level has to say in its text, in
// order and regardless of layout.
func printed(text string, cats []help.CategoryDoc, level int) string {
	bare := func(s string) string {
		return strings.Join(strings.Fields(ansi.ReplaceAllString(s, "")), "")
	}
	rest := bare(text)
	bad := ""
	if strings.Contains(rest, "(use)") {
		bad = "a marker is said to be replaced by nothing: (use )"
	}
	need := func(what, piece string) {
		if bad != "" || bare(piece) == "" {
			return
		}
		i := strings.Index(rest, bare(piece))
		if i < 0 {
			bad = fmt.Sprintf("%s is missing: %q", what, piece)
			return
		}
		rest = rest[i+len(bare(piece)):]
	}
	for _, cat := range cats {
		if cat.Category == "" {
			continue
		}
		need("the category", cat.Category)
		for _, m := range cat.Markers {
			at := m.Name + " of " + m.Target
			arg := func(f help.FieldHelp, sep string) string {
				t := sep + f.Name + "=<" + argType(f.Argument) + ">"
				if f.Optional {
					t = "[" + t + "]"
				}
				return t
			}
			use := ""
			if m.DeprecatedInFavorOf != nil && *m.DeprecatedInFavorOf != "" {
				use = "(use " + *m.DeprecatedInFavorOf + ")"
			}
			need("the name of "+at, "+"+m.Name)
			anon := len(m.Fields) == 1 && m.Fields[0].Name == ""
			if level == 1 {
				sep := ":"
				if anon {
					sep = ""
				}
				for _, f := range m.Fields {
					need("argument "+f.Name+" of "+at, arg(f, sep))
					sep = ","
				}
				need("the target of "+at, m.Target)
				need("the replacement of "+at, use)
				need("the summary of "+at, m.Summary)
				continue
			}
			need("the target of "+at, m.Target)
			if anon {
				need("the argument of "+at, arg(m.Fields[0], ""))
			}
			need("the replacement of "+at, use)
			need("the summary of "+at, m.Summary)
			if level == 3 {
				need("the details of "+at, m.Details)
			}
			if anon {
				continue
			}
			for _, f := range m.Fields {
				need("argument "+f.Name+" of "+at, arg(f, ""))
				need("the summary of argument "+f.Name+" of "+at, f.Summary)
				if level == 3 {
					need("the details of argument "+f.Name+" of "+at, f.Details)
				}
			}
		}
	}
	return bad
}

// ---- printed help of random documents

func genPrinted(s *pbt.Src) any {
	text := func(n int) string {
		var w []string
		for i, k := 0, s.Small(n); i < k; i++ {
			w = append(w, pbt.Pick(s, "alpha", "beta", "gamma", "\n", "is", "`x`", "+", "[y]", "世界", "\n\n", "e.g.", "%d", "%", "\\", "{", "}"))
		}
		return strings.Join(w, " ")
	}
	var typ func(d int) *help.Argument
	typ = func(d int) *help.Argument {
		a := &help.Argument{Type: pbt.Pick(s, "string", "int", "bool", "float64", "any", "raw", "slice", "map")}
		if a.Type == "slice" || a.Type == "map" {
			if d <= 0 {
				a.Type = "string"
			} else {
				a.ItemType = typ(d - 1)
			}
		}
		return a
	}
	var cats []help.CategoryDoc
	for i, n := 0, 1+s.Small(2); i < n; i++ {
		cat := help.CategoryDoc{Category: pbt.Pick(s, "CRD", "a category", "output rules (optionally as output:<generator>:...)")}
		for k, m := 0, s.Small(4); k < m; k++ {
			d := help.MarkerDoc{Name: pbt.Pick(s, "kubebuilder:x", "a", "k8s:deepcopy-gen", "k8s:deepcopy-gen:interfaces"), Target: pbt.Pick(s, "type", "field", "package"), Category: cat.Category}
			d.Summary = text(6)
			if s.Bool() {
				d.Details = text(12) + pbt.Pick(s, "", " omega")
			}
			switch s.Intn(5) {
			case 0:
				d.DeprecatedInFavorOf = ptrTo("")
			case 1:
				d.DeprecatedInFavorOf = ptrTo("the:other")
			}
			switch s.Intn(4) {
			case 0:
				d.Fields = []help.FieldHelp{{Argument: *typ(2), DetailedHelp: help.DetailedHelp{Summary: text(2)}}}
				d.Fields[0].Optional = s.Chance(20)
			case 1, 2:
				for _, n := range pbt.Subset(s, []string{"alpha", "b", "gammaRay", "x"}, 60) {
					f := help.FieldHelp{Name: n, Argument: *typ(2)}
					f.Optional, f.Summary = s.Bool(), text(6)
					if s.Bool() {
						f.Details = text(12) + pbt.Pick(s, "", " omega")
					}
					d.Fields = append(d.Fields, f)
				}
			}
			cat.Markers = append(cat.Markers, d)
		}
		cats = append(cats, cat)
	}
	return cats
}

func checkPrinted(cats []help.CategoryDoc) pbt.Outcome {
	n := 0
	for level := 1; level <= 3; level++ {
		var b bytes.Buffer
		for _, cat := range cats {
			n += len(cat.Markers)
			span := pretty.MarkersSummary(cat.Category, cat.Markers)
			if level > 1 {
				span = pretty.MarkersDetails(level == 3, cat.Category, cat.Markers)
			}
			if err := span.WriteTo(&b); err != nil {
				return pbt.Failf("help fails", "%v", err)
			}
		}
		if bad := printed(b.String(), cats, level); bad != "" {
			return pbt.Failf("help incomplete", "level %d: %s\n%s", level, bad, b.String())
		}
		if level < 3 && strings.Contains(b.String(), "omega") {
			return pbt.Failf("help excessive", "level %d has details\n%s", level, b.String())
		}
	}
	return pbt.OK(n > 3)
}

// ---- helpgen

type hgType struct {
	pkg, name, cat string
	hasCat         bool
	summary        string
	details        string
	fields         map[string][2]string
}

type hgCase struct {
	files  ws.Files
	types  []hgType
	header string
	year   string
	npkg   int
	ndoc   int
}

// helpOf splits documentation into summary and details.
func helpOf(name, doc string) (string, string) {
	lines := strings.Split(doc, "\n")
	sum := lines[0]
	if sum == name {
		sum = ""
	} else if strings.HasPrefix(sum, name+" ") {
		sum = sum[len(name)+1:]
	}
	return sum, strings.TrimSpace(strings.Join(lines[1:], "\n"))
}

func genHelpgen(s *pbt.Src) any {
	c := &hgCase{files: ws.Files{}, npkg: 1 + s.Small(2)}
	d := &docGen{s: s, c: &docCase{}}
	for p := 0; p < c.npkg; p++ {
		pkg := fmt.Sprintf("p%d", p)
		var b strings.Builder
		b.WriteString("package " + pkg + "\n\n")
		for i := s.Small(4); i >= 0; i-- {
			name := pbt.Pick(s, "Foo", "bar", "It", "Thing") + strconv.Itoa(i)
			src, doc := d.docFor("")
			if s.Chance(40) {
				first := name + pbt.Pick(s, " is it.", "", " ", "s are", ". That", " has \"quotes\" and `ticks` \\ %s %d")
				src = "// " + first + "\n" + src
				if d.blank || strings.Contains(src, "/*") {
					src, doc = "// "+first+"\n", ""
				}
				doc = strings.TrimRight(strings.TrimRight(first, " ")+"\n"+doc, "\n")
				if strings.HasPrefix(doc, first+"\n\n\n") {
					doc = strings.Replace(doc, "\n\n\n", "\n\n", 1)
				}
			}
			if d.blank {
				src, doc = "", ""
			}
			t := hgType{pkg: pkg, name: name, fields: map[string][2]string{}}
			marked := s.Chance(75)
			b.WriteString(src)
			if marked {
				b.WriteString("// +controllertools:marker:generateHelp")
				if s.Chance(60) {
					t.hasCat = true
					t.cat = pbt.Pick(s, "CRD", "two words", "it's \"q\"", "世界")
					b.WriteString(":category=" + strconv.Quote(t.cat))
				}
				b.WriteString("\n")
			}
			t.summary, t.details = helpOf(name, doc)
			switch s.PickW(5, 1, 1) {
			case 0:
				b.WriteString("type " + name + " struct {\n")
				for k := s.Small(4); k > 0; k-- {
					fn := fmt.Sprintf("F%d", k)
					fsrc, fdoc := d.docFor("\t")
					if d.blank {
						fsrc, fdoc = "", ""
					}
					b.WriteString(fsrc)
					names := []string{fn}
					if s.Chance(15) {
						names = append(names, fn+"b")
					}
					b.WriteString("\t" + strings.Join(names, ", ") + " " + pbt.Pick(s, "string", "*int", "[]string", "map[string]any", "struct{ X int }") + pbt.Pick(s, "", " `marker:\",optional\"`") + pbt.Pick(s, "", " // trailing") + "\n")
					for _, n := range names {
						a, z := helpOf(n, fdoc)
						t.fields[n] = [2]string{a, z}
						c.ndoc++
					}
				}
				b.WriteString("}\n\n")
			case 1:
				b.WriteString("type " + name + " " + pbt.Pick(s, "string", "int", "[]string", "map[string]int", "bool") + "\n\n")
			default:
				b.WriteString("type " + name + " []struct{ A int }\n\n")
			}
			if marked {
				c.types = append(c.types, t)
			}
		}
		text := b.String()
		c.files[pkg+"/f.go"] = text
	}
	for n := s.Small(3); n > 0; n-- {
		c.header += pbt.Pick(s, "// Copyright YEAR The Authors.\n", "//\n", "\n", "/* YEARS\n   and YEAR */\n", "// %d ünï\n")
	}
	c.year = pbt.Pick(s, "", "2024", "2020-2025")
	return c
}

var helpgenPath = func() func() string {
	var path string
	return func() string {
		if path == "" {
			p := filepath.Join(Scratch("cli"), "helpgen")
			cmd := exec.Command("go", "build", "-o", p, "./cmd/helpgen")
			cmd.Dir = ws.RepoDir()
			if out, err := cmd.CombinedOutput(); err != nil {
				panic(pbt.HarnessPanic(fmt.Sprintf("building helpgen: %v\n%s", err, out)))
			}
			path = p
		}
		return path
	}
}()

func run(dir, exe string, args ...string) (string, error) {
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

// controllerToolsModule makes dir a module that can import the code under test.
func controllerToolsModule(dir string) {
	if err := ws.InitModule(dir, ws.Mod); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	p := filepath.Join(dir, "go.mod")
	b, err := os.ReadFile(p)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	b = append(b, []byte("\nrequire sigs.k8s.io/controller-tools v0.0.0\n\nreplace sigs.k8s.io/controller-tools => "+ws.RepoDir()+"\n")...)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
}

func checkHelpgen(cases []any) []pbt.Outcome {
	dir := Scratch("hg")
	defer Drop(dir)
	controllerToolsModule(dir)
	exe := helpgenPath()
	out := make([]pbt.Outcome, len(cases))
	fail := make([]bool, len(cases))
	var main, uses strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n")
	var decls strings.Builder
	for i, a := range cases {
		c := a.(*hgCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			cd := filepath.Join(dir, fmt.Sprintf("c%d", i))
			if err := ws.WriteFiles(cd, c.files); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			hdr := filepath.Join(dir, fmt.Sprintf("hdr%d.txt", i))
			if err := os.WriteFile(hdr, []byte(c.header), 0o644); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			arg := "generate"
			if c.header != "" {
				arg += ":headerFile=" + hdr
				if c.year != "" {
					arg += ",year=" + strconv.Quote(c.year)
				}
			}
			if o, err := run(dir, exe, arg, "paths=./"+filepath.Base(cd)+"/..."); err != nil {
				return pbt.Failf("helpgen fails", "%v: %s", err, o)
			}
			marked := map[string]bool{}
			for _, t := range c.types {
				marked[t.pkg] = true
			}
			for p := 0; p < c.npkg; p++ {
				pkg := fmt.Sprintf("p%d", p)
				b, err := os.ReadFile(filepath.Join(cd, pkg, "zz_generated.markerhelp.go"))
				if (err == nil) != marked[pkg] {
					return pbt.Failf("wrong files", "%s: %v", pkg, err)
				}
				if err != nil {
					continue
				}
				want := ""
				for j, part := range strings.Split(c.header, " YEAR") {
					if j > 0 {
						want += " " + c.year
					}
					want += part
				}
				if !strings.Contains(squeezeSpace(string(b)), squeezeSpace(want)) {
					return pbt.Failf("wrong header", "want %q in\n%.400s", want, b)
				}
				files := treeOf(filepath.Join(cd, pkg))
				if len(files) != 2 {
					return pbt.Failf("wrong files", "%v", jsonOf(files))
				}
			}
			return pbt.OK(c.ndoc > 0)
		})
		if out[i].Fail != "" {
			fail[i] = true
			continue
		}
		fmt.Fprintf(&uses, "\t{\n\t\tm := map[string]any{}\n")
		imp := map[string]bool{}
		for _, t := range c.types {
			if !imp[t.pkg] {
				imp[t.pkg] = true
				fmt.Fprintf(&main, "\tc%d%s \"%s/c%d/%s\"\n", i, t.pkg, ws.Mod, i, t.pkg)
			}
		}
		// unexported types are reached through an exported variable
		for pkg := range imp {
			var b strings.Builder
			b.WriteString("package " + pkg + "\n\nvar Helps = map[string]any{\n")
			for _, t := range c.types {
				if t.pkg == pkg {
					fmt.Fprintf(&b, "\t%q: (*new(%s)).Help(),\n", t.name, t.name)
				}
			}
			b.WriteString("}\n")
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("c%d", i), pkg, "zz_use.go"), []byte(b.String()), 0o644); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			fmt.Fprintf(&uses, "\t\tm[%q] = c%d%s.Helps\n", pkg, i, pkg)
		}
		fmt.Fprintf(&uses, "\t\tout[\"%d\"] = m\n\t}\n", i)
	}
	main.WriteString(")\n\nfunc main() {\n\tout := map[string]any{}\n" + uses.String() + "\t_ = json.NewEncoder(os.Stdout).Encode(out)\n}\n" + decls.String())
	if err := ws.WriteFiles(filepath.Join(dir, "prog"), ws.Files{"main.go": main.String()}); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	text, err := run(dir, "go", "run", "-mod=mod", "./prog")
	if err != nil {
		// find out whose code does not compile
		blamed := false
		for i := range cases {
			if !fail[i] && strings.Contains(text, fmt.Sprintf("c%d/p", i)) {
				out[i] = pbt.Failf("generated help does not compile", "%.600s", text)
				blamed = true
			}
		}
		if !blamed {
			panic(pbt.HarnessPanic("running the program: " + text))
		}
		return out
	}
	var got map[string]map[string]map[string]markers.DefinitionHelp
	if err := json.Unmarshal([]byte(text), &got); err != nil {
		panic(pbt.HarnessPanic(err.Error() + ": " + text))
	}
	for i, a := range cases {
		if fail[i] {
			continue
		}
		c := a.(*hgCase)
		for _, t := range c.types {
			h := got[strconv.Itoa(i)][t.pkg][t.name]
			bad := ""
			switch {
			case h.Category != t.cat:
				bad = fmt.Sprintf("category %q instead of %q", h.Category, t.cat)
			case strings.TrimRight(h.Summary, " ") != strings.TrimRight(t.summary, " "):
				bad = fmt.Sprintf("summary %q instead of %q", h.Summary, t.summary)
			case h.Details != t.details:
				bad = fmt.Sprintf("details %q instead of %q", h.Details, t.details)
			case len(h.FieldHelp) != len(t.fields):
				bad = fmt.Sprintf("fields %v instead of %v", h.FieldHelp, t.fields)
			}
			for n, w := range t.fields {
				if g := h.FieldHelp[n]; g.Summary != w[0] || g.Details != w[1] {
					bad = fmt.Sprintf("field %s: %q instead of %q", n, g, w)
				}
			}
			if bad != "" {
				out[i] = pbt.Failf("wrong help", "%s.%s: %s", t.pkg, t.name, bad)
			}
		}
	}
	return out
}

func squeezeSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

func init() {
	register(&Prop{
		ID:          "C22",
		Rule:        "Every shipped marker, every command-line option and random marker definitions: uses written from nothing but the help (all arguments, optional ones left out, sample values per type) must parse, and uses the help rules out (missing required, unknown, wrongly typed arguments) must not; the help lists every definition once per target. The tool's -w/-h levels are run for random sets of generators and, with random help documents, their text is searched for all names, targets, arguments with types, replacements, summaries and (at the third level) details. Random packages with annotated types go through helpgen, the output is compiled and its Help values compared with the documentation written. Non-trivial: the marker has arguments; some generator is chosen; some field is documented.",
		Assumptions: []string{"embedded fields of marker types are outside (they are not marker arguments)", "the layout of the text help is not part of the property, only that it says everything that the help documents hold, in their order"},
		Families: []*pbt.Family{
			{Name: "parser", Gen: genHelpDoc, Check: pbt.Each(checkHelpDoc), Show: showHelpDoc, Batch: 200, Parallel: 8, Quick: 30000, Thorough: 600000},
			{Name: "cli", Gen: genHelpCLI, Check: checkHelpCLI, Show: func(a any) string { return fmt.Sprint(a.(*hcCase).gens) + "\n" }, Batch: 4, Parallel: 6, Quick: 48, Thorough: 400},
			{Name: "printed", Gen: genPrinted, Check: pbt.Each(checkPrinted), Show: func(a any) string { return jsonOf(a) }, Batch: 500, Parallel: 8, Quick: 20000, Thorough: 400000},
			{Name: "helpgen", Gen: genHelpgen, Check: checkHelpgen, Show: func(a any) string {
				c := a.(*hgCase)
				return c.files.Show() + fmt.Sprintf("header %q year %q\n", c.header, c.year)
			}, Batch: 15, Parallel: 6, Quick: 360, Thorough: 6000, ShrinkBatch: 8},
		},
	})
}
