package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// ---- C19: where artifacts go

type orRule struct {
	kind   string // dir, none, stdout, artifacts; "" for none given
	config string
	code   string
}

type orGen struct {
	name string
	opt  string // text after the name
	make func(dir string) genall.Generator
	rule orRule
}

type orCase struct {
	src     ws.Files
	late    ws.Files // written after loading
	gens    []*orGen // in option order
	def     orRule
	roots   []string // package directories among the roots, "" is the working directory
	opts    []string
	invalid string // why the options are wrong
	help    bool
	nontriv bool
}

func orSource(s *pbt.Src, c *orCase) []string {
	var dirs []string
	add := func(dir, text string) {
		c.src[filepath.Join(dir, "x.go")] = text
		dirs = append(dirs, dir)
	}
	rb := func(n int) string {
		return fmt.Sprintf("// +kubebuilder:rbac:groups=g%d,resources=r%d,verbs=get\n", n, s.Intn(3))
	}
	wh := func(n int) string {
		return fmt.Sprintf("// +kubebuilder:webhook:name=w%d.io,path=/p%d,mutating=%v,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,sideEffects=None,admissionReviewVersions=v1\n", n, n, s.Bool())
	}
	extra := func(n int) string {
		t := ""
		if s.Bool() {
			t += rb(n)
		}
		if s.Bool() {
			t += wh(n)
		}
		return t
	}
	for i, n := 0, 1+s.Small(2); i < n; i++ {
		dc := ""
		if s.Chance(70) {
			dc = "// +kubebuilder:object:generate=true\n"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%s// +groupName=g%d.io\n%spackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n", extra(i), i, dc)
		for k := 0; k <= s.Small(1); k++ {
			fmt.Fprintf(&b, "type Kind%d struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tF%d []string `json:\"f%d\"`\n}\n\n", k, i, s.Intn(4))
		}
		add(fmt.Sprintf("api/p%d", i), b.String())
	}
	if s.Chance(50) {
		add("ctl", extra(7)+"package ctl\n\nvar X int\n")
	}
	if s.Chance(40) {
		dc := ""
		if s.Bool() {
			dc = "// +kubebuilder:object:generate=true\n"
		}
		add("", extra(8)+dc+"package root\n\ntype T struct {\n\tM map[string]string\n}\n")
	}
	return dirs
}

func orDir(s *pbt.Src) string {
	return pbt.Pick(s, "out", "out/sub/dir", "./o", "config", "config/crd", "x y", "api", "out/", "./out/../o2", "@/abs", "manifests2")
}

func orRuleOf(s *pbt.Src) orRule {
	switch s.PickW(4, 2, 2, 3) {
	case 0:
		return orRule{kind: "dir", config: orDir(s)}
	case 1:
		return orRule{kind: "none"}
	case 2:
		return orRule{kind: "stdout"}
	}
	r := orRule{kind: "artifacts", config: orDir(s)}
	if s.Bool() {
		r.code = orDir(s)
	}
	return r
}

func orQuote(s *pbt.Src, v string) string {
	if strings.Contains(v, " ") || s.Chance(25) {
		return pbt.Pick(s, `"`+v+`"`, "`"+v+"`")
	}
	return v
}

func (r orRule) option(s *pbt.Src, gen string) string {
	p := "output:"
	if gen != "" {
		p += gen + ":"
	}
	p += r.kind
	switch r.kind {
	case "dir":
		p += "=" + orQuote(s, r.config)
	case "artifacts":
		a := "config=" + orQuote(s, r.config)
		if r.code != "" {
			b := "code=" + orQuote(s, r.code)
			if s.Bool() {
				a, b = b, a
			}
			a += "," + b
		}
		p += ":" + a
	}
	return p
}

func (g *orGen) option() string {
	if g.opt == "" {
		return g.name
	}
	return g.name + ":" + g.opt
}

func genOutputRules(s *pbt.Src) any {
	c := &orCase{src: ws.Files{}, late: ws.Files{}}
	dirs := orSource(s, c)
	zero, forty, yes := 0, 40, true
	known := []*orGen{
		{name: "crd", make: func(string) genall.Generator { return crd.Generator{} }},
		{name: "rbac", opt: "roleName=some-role", make: func(string) genall.Generator { return rbac.Generator{RoleName: "some-role"} }},
		{name: "webhook", make: func(string) genall.Generator { return webhook.Generator{} }},
		{name: "object", make: func(string) genall.Generator { return deepcopy.Generator{} }},
		{name: "schemapatch", opt: "manifests=manifests", make: func(d string) genall.Generator {
			return schemapatcher.Generator{ManifestsPath: filepath.Join(d, "manifests")}
		}},
	}
	switch s.Intn(4) {
	case 1:
		known[0].opt, known[0].make = "maxDescLen=0", func(string) genall.Generator { return crd.Generator{MaxDescLen: &zero} }
	case 2:
		known[0].opt, known[0].make = "maxDescLen=40,allowDangerousTypes=true", func(string) genall.Generator {
			return crd.Generator{MaxDescLen: &forty, AllowDangerousTypes: &yes}
		}
	case 3:
		known[0].opt, known[0].make = `headerFile="hdr.txt",year=2031`, func(d string) genall.Generator {
			return crd.Generator{HeaderFile: filepath.Join(d, "hdr.txt"), Year: "2031"}
		}
		c.src["hdr.txt"] = "# Copyright YEAR someone\n"
	}
	if s.Chance(25) {
		known[1].opt, known[1].make = "fileName=my.yaml,roleName=r2", func(string) genall.Generator { return rbac.Generator{RoleName: "r2", FileName: "my.yaml"} }
	}
	if s.Chance(25) {
		known[3].opt, known[3].make = "headerFile=hdr.go.txt", func(d string) genall.Generator {
			return deepcopy.Generator{HeaderFile: filepath.Join(d, "hdr.go.txt")}
		}
		c.src["hdr.go.txt"] = "// Some header\n"
	}
	var chosen []*orGen
	for i, g := range pbt.Shuffle(s, known) {
		if i == 0 || s.Chance(45) {
			if g.name == "schemapatch" && s.Chance(50) {
				continue
			}
			chosen = append(chosen, g)
		}
	}
	if len(chosen) == 0 {
		chosen = known[:1]
	}
	c.gens = chosen
	for _, g := range chosen {
		if g.name == "schemapatch" {
			c.src["manifests/a.yaml"] = "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec:\n  group: g0.io\n  names:\n    kind: Kind0\n  versions:\n  - name: v1\n    served: true\n"
			c.src["manifests/other.yaml"] = "a: b\n"
		}
	}
	// rules
	if s.Chance(40) {
		c.def = orRuleOf(s)
	}
	var opts, genOpts []string
	if c.def.kind != "" {
		opts = append(opts, c.def.option(s, ""))
	}
	for _, g := range c.gens {
		genOpts = append(genOpts, g.option())
		if s.Chance(40) {
			g.rule = orRuleOf(s)
			opts = append(opts, g.rule.option(s, g.name))
			c.nontriv = true
		}
	}
	// paths
	has := map[string]bool{}
	for _, d := range dirs {
		has[d] = true
	}
	switch k := s.Intn(5); {
	case k == 0 && has[""]:
		c.roots = []string{""}
	case k == 1:
		c.roots = dirs
		opts = append(opts, "paths="+pbt.Pick(s, "./...", `"./..."`, "{./...}"))
	case k == 2:
		for _, d := range dirs {
			if strings.HasPrefix(d, "api/") {
				c.roots = append(c.roots, d)
			}
		}
		opts = append(opts, "paths=./api/...")
	default:
		var list []string
		for _, d := range pbt.Shuffle(s, dirs) {
			if len(c.roots) == 0 || s.Bool() {
				c.roots = append(c.roots, d)
				p := "./" + d
				if d == "" {
					p = "."
				}
				list = append(list, p)
			}
		}
		switch s.Intn(3) {
		case 0:
			for _, p := range list {
				opts = append(opts, "paths="+p)
			}
		case 1:
			opts = append(opts, "paths="+strings.Join(list, ";"))
		case 2:
			opts = append(opts, "paths={"+strings.Join(list, ",")+"}")
		}
	}
	if s.Chance(12) {
		c.spoil(s, &opts, &genOpts)
	}
	// any order, but generators keep theirs
	all := pbt.Shuffle(s, append(make([]string, len(genOpts)), opts...))
	gi := 0
	for _, o := range all {
		if o == "" {
			o = genOpts[gi]
			gi++
		}
		if s.Chance(10) {
			o = "+" + o
		}
		c.opts = append(c.opts, o)
	}
	switch c.invalid {
	case "empty option":
		c.opts = append(c.opts, "")
		c.opts = pbt.Shuffle(s, c.opts)
	case "plus only":
		c.opts = append(c.opts, "+")
	}
	if c.invalid == "" && s.Chance(5) {
		c.help = true
		c.opts = append(c.opts, pbt.Pick(s, "-w", "-www", "-h", "-hhhh", "--version"))
	}
	// things that are there already
	for _, g := range c.gens {
		if r := c.ruleOf(g); (r.kind == "dir" || r.kind == "artifacts") && s.Chance(30) {
			c.late[filepath.Join(r.config, pbt.Pick(s, "role.yaml", "manifests.yaml", "keep.txt", "g0.io_kind0s.yaml", "deep/keep.yaml"))] = strings.Repeat("older content\n", 1+s.Intn(400))
		}
	}
	if s.Chance(30) { // a stale generated file, which is not compiled in
		c.late[filepath.Join(dirs[s.Intn(len(dirs))], "zz_generated.deepcopy.go")] = "//go:build !ignore_autogenerated\n\npackage v1\n\nvar _ NoSuchType\n" + strings.Repeat("// old\n", s.Intn(200))
	}
	for k, v := range c.late {
		if strings.HasPrefix(k, "@") {
			delete(c.late, k)
			_ = v
		}
	}
	return c
}

func (c *orCase) spoil(s *pbt.Src, opts, genOpts *[]string) {
	bad := []struct{ why, opt string }{
		{"unknown generator", "foo"}, {"unknown generator", "crds"}, {"unknown generator", "crd:foo:bar=1"},
		{"unknown rule", "output:foo"}, {"unknown rule", "output:crd:foo=x"}, {"unknown rule", "output"}, {"unknown rule", "output:nobody:dir=x"},
		{"bad argument", "output:artifacts:code=x"}, {"bad argument", "output:artifacts"}, {"bad argument", "output:dir"}, {"bad argument", "output:none=1"},
		{"bad argument", "output:artifacts:config=x,nothing=y"},
		{"empty option", ""}, {"plus only", ""}, {"bad path list", "paths"}, {"bad path list", "paths={./api"},
	}
	names := map[string]bool{}
	for _, g := range c.gens {
		names[g.name] = true
	}
	for _, g := range []string{"crd", "rbac", "webhook", "object", "schemapatch", "applyconfiguration"} {
		if !names[g] {
			bad = append(bad, struct{ why, opt string }{"not invoked", "output:" + g + ":stdout"}, struct{ why, opt string }{"not invoked", "output:" + g + ":dir=out"})
		}
	}
	if !names["rbac"] {
		bad = append(bad, struct{ why, opt string }{"bad argument", "rbac"}, struct{ why, opt string }{"bad argument", "rbac:roleName=x,foo=y"})
	}
	if !names["crd"] {
		bad = append(bad, struct{ why, opt string }{"bad argument", "crd:maxDescLen=many"}, struct{ why, opt string }{"bad argument", "crd:=3"}, struct{ why, opt string }{"bad argument", "crd=yes"})
	}
	bad = append(bad, struct{ why, opt string }{"twice", c.gens[0].option()}, struct{ why, opt string }{"nothing to do", ""})
	b := bad[s.Intn(len(bad))]
	c.invalid = b.why
	if b.why == "nothing to do" {
		*genOpts = nil
		var o []string
		for _, x := range *opts {
			if !strings.HasPrefix(x, "output:") || strings.Count(strings.SplitN(x, "=", 2)[0], ":") == 1 {
				o = append(o, x)
			}
		}
		*opts = o
		return
	}
	if b.opt != "" {
		*opts = append(*opts, b.opt)
	}
}

// ruleOf is the documented precedence: own rule, default rule, config/<generator> and the package's own directory.
func (c *orCase) ruleOf(g *orGen) orRule {
	if g.rule.kind != "" {
		return g.rule
	}
	if c.def.kind != "" {
		return c.def
	}
	return orRule{kind: "artifacts", config: "config/" + g.name}
}

func showOutputRules(a any) string {
	c := a.(*orCase)
	return c.src.Show() + "\nthere already: " + fmt.Sprint(sortedKeys(c.late)) + "\noptions: " + fmt.Sprintf("%q", c.opts)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func checkOutputRules(cases []any) []pbt.Outcome {
	dir := Scratch("or")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*orCase).src)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	// what each generator produces, in memory
	arts := make([][]map[string][]byte, len(cases))
	for i, a := range cases {
		c := a.(*orCase)
		if c.invalid != "" || c.help {
			continue
		}
		var roots []*pkgT
		for _, d := range c.roots {
			p := l.ByPath[strings.TrimSuffix(fmt.Sprintf("%s/c%d/%s", ws.Mod, i, d), "/")]
			if p == nil {
				panic(pbt.ToolPanic("not loaded: package " + d))
			}
			roots = append(roots, p)
		}
		for _, g := range c.gens {
			r := ws.Run(g.make(filepath.Join(dir, fmt.Sprintf("c%d", i))), roots)
			if r.Bad() {
				panic(pbt.ToolPanic(fmt.Sprintf("refused: %s: %v\n%s", g.name, r.Errs, showOutputRules(c))))
			}
			arts[i] = append(arts[i], r.Files)
		}
	}
	outs := make([]pbt.Outcome, len(cases))
	var wg sync.WaitGroup
	for i, a := range cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = pbt.Guard(func() pbt.Outcome {
				return a.(*orCase).judge(filepath.Join(dir, fmt.Sprintf("c%d", i)), fmt.Sprintf("%s/c%d", ws.Mod, i), filepath.Join(dir, fmt.Sprintf("abs%d", i)), arts[i])
			})
		}()
	}
	wg.Wait()
	return outs
}

func (c *orCase) judge(dir, mod, abs string, arts []map[string][]byte) pbt.Outcome {
	late := ws.Files{}
	for k, v := range c.late {
		late[k] = v
	}
	if err := ws.WriteFiles(dir, late); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	var args []string
	for _, o := range c.opts {
		args = append(args, strings.ReplaceAll(o, "@/abs", abs))
	}
	want := map[string][]string{} // path -> acceptable contents
	for k, v := range treeOf(dir) {
		want[k] = []string{v}
	}
	wantDirs := dirsOf(dir)
	var stdout [][]string // per generator, pieces in any order
	if c.invalid == "" && !c.help {
		for gi, g := range c.gens {
			r := c.ruleOf(g)
			var pieces []string
			now := map[string][]string{}
			for key, b := range arts[gi] {
				pkg, item, isCode := strings.Cut(key, "|")
				if !isCode {
					item = key
				}
				d := ""
				text := orVersion.ReplaceAllString(string(b), "version: X")
				switch r.kind {
				case "none":
					continue
				case "stdout":
					pieces = append(pieces, text)
					continue
				case "dir":
					d = r.config
				case "artifacts":
					d = r.config
					if isCode {
						d = r.code
						if d == "" {
							d = strings.TrimPrefix(strings.TrimPrefix(pkg, mod), "/")
						}
					}
				}
				d = strings.ReplaceAll(d, "@/abs", abs)
				p := filepath.Join(d, item)
				if filepath.IsAbs(p) {
					p, _ = filepath.Rel(dir, p)
				}
				now[p] = append(now[p], text)
				for q := filepath.Dir(p); q != "." && q != ".."; q = filepath.Dir(q) {
					wantDirs[q] = true
				}
			}
			for p, v := range now {
				want[p] = v
			}
			stdout = append(stdout, pieces)
		}
	}
	r := runCLI(dir, args...)
	r.out = orVersion.ReplaceAllString(r.out, "version: X")
	if strings.Contains(r.err, "goroutine ") || r.code != 0 && r.code != 1 {
		return pbt.Failf("crash", "%v: exit %d\n%s", args, r.code, r.err)
	}
	got := treeOf(dir)
	gotDirs := dirsOf(dir)
	for k, v := range treeOf(abs) {
		p, _ := filepath.Rel(dir, filepath.Join(abs, k))
		got[p] = v
	}
	if c.invalid != "" && r.code == 0 {
		return pbt.Failf("accepted", "%s: %q exits 0\n%s", c.invalid, args, r.err)
	}
	if c.invalid == "" && r.code != 0 {
		return pbt.Failf("refused", "%q exits %d\n%s", args, r.code, r.err)
	}
	for _, p := range sortedKeys(want) {
		g, ok := got[p]
		if !ok {
			return pbt.Failf("missing", "%q: %s is not written", args, p)
		}
		found := false
		for _, w := range want[p] {
			found = found || w == g || w == orVersion.ReplaceAllString(g, "version: X")
		}
		if !found {
			return pbt.Failf("content", "%q: %s holds\n%s\nwant\n%s", args, p, g, strings.Join(want[p], "\nor\n"))
		}
	}
	for _, p := range sortedKeys(got) {
		if want[p] == nil {
			return pbt.Failf("extra", "%q: %s is written", args, p)
		}
	}
	for d := range gotDirs {
		if !wantDirs[d] {
			return pbt.Failf("extra", "%q: directory %s is made", args, d)
		}
	}
	if c.help || c.invalid != "" {
		return pbt.OK(true, "no run")
	}
	if !concatOf(r.out, stdout) {
		return pbt.Failf("stdout", "%q prints\n%s\nwant the concatenation of\n%q", args, r.out, stdout)
	}
	n := 0
	for _, f := range arts {
		n += len(f)
	}
	return pbt.OK(n >= 1 && (c.nontriv || c.def.kind != ""), "run")
}

// concatOf tells whether text is the pieces of each group, in any order within the group.
func concatOf(text string, groups [][]string) bool {
	if len(groups) == 0 {
		return text == ""
	}
	if len(groups[0]) == 0 {
		return concatOf(text, groups[1:])
	}
	for i, p := range groups[0] {
		if strings.HasPrefix(text, p) {
			rest := append(append([]string{}, groups[0][:i]...), groups[0][i+1:]...)
			if concatOf(text[len(p):], append([][]string{rest}, groups[1:]...)) {
				return true
			}
		}
	}
	return false
}

// the version the tool was built as, which differs between the binary and the harness
var orVersion = regexp.MustCompile(`version: v[0-9][-+.0-9a-z]*|version: \(devel\)|version: \(unknown\)`)

func dirsOf(dir string) map[string]bool {
	m := map[string]bool{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() && p != dir {
			r, _ := filepath.Rel(dir, p)
			m[r] = true
		}
		return nil
	})
	return m
}

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "something is generated and at least one output rule is given, or the options are wrong",
		Assumptions: []string{
			"no output rule is given twice for one generator",
			"several code files written to one directory or to standard output have no defined order",
		},
		Probes: []Probe{{Key: "applyconfiguration-ignores-rules", Run: func() pbt.Outcome {
			dir := Scratch("or")
			defer Drop(dir)
			if err := ws.InitModule(dir, ws.Mod); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			src := ws.Files{"api/x.go": "// +kubebuilder:ac:generate=true\n// +groupName=g.io\npackage api\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:resource\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n"}
			if err := ws.WriteFiles(dir, src); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			before := treeOf(dir)
			r := runCLI(dir, "applyconfiguration", "paths=./api", "output:applyconfiguration:none")
			if r.code != 0 {
				return pbt.OK(false) // another problem, which other checks report
			}
			if after := treeOf(dir); len(after) != len(before) {
				return pbt.Failf("extra", "output:applyconfiguration:none writes files: %v", sortedKeys(after))
			}
			return pbt.OK(true)
		}}},
		Families: []*pbt.Family{{
			Name: "options", Gen: genOutputRules, Check: checkOutputRules, Show: showOutputRules,
			Batch: 12, Parallel: 2, Quick: 240, Thorough: 8000, ShrinkBatch: 12,
		}, {
			Name: "rule-calls", Gen: genRuleCalls, Check: pbt.Each(checkRuleCalls), Show: showRuleCalls,
			Batch: 100, Parallel: 4, Quick: 2000, Thorough: 60000,
		}},
	})
}
