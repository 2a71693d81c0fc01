package props

import (
	"fmt"
	"go/build/constraint"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// ---- C26: options

// optArg is one documented argument of an option.
type optArg struct {
	name, field, kind string // kind: bool, int, string, strings
	required          bool
}

var (
	argHeader = optArg{"headerFile", "HeaderFile", "string", false}
	argYear   = optArg{"year", "Year", "string", false}
	argMaxLen = optArg{"maxDescLen", "MaxDescLen", "int", false}
	argMeta   = optArg{"generateEmbeddedObjectMeta", "GenerateEmbeddedObjectMeta", "bool", false}
)

// optGens is what the documentation says the generators' options are.
var optGens = map[string]struct {
	zero any
	args []optArg
}{
	"crd": {crd.Generator{}, []optArg{
		{"ignoreUnexportedFields", "IgnoreUnexportedFields", "bool", false},
		{"allowDangerousTypes", "AllowDangerousTypes", "bool", false},
		argMaxLen, {"crdVersions", "CRDVersions", "strings", false}, argMeta, argHeader, argYear,
		{"deprecatedV1beta1CompatibilityPreserveUnknownFields", "DeprecatedV1beta1CompatibilityPreserveUnknownFields", "bool", false},
	}},
	"rbac":               {rbac.Generator{}, []optArg{{"roleName", "RoleName", "string", true}, {"fileName", "FileName", "string", false}, argHeader, argYear}},
	"object":             {deepcopy.Generator{}, []optArg{argHeader, argYear}},
	"webhook":            {webhook.Generator{}, []optArg{argHeader, argYear}},
	"schemapatch":        {schemapatcher.Generator{}, []optArg{{"manifests", "ManifestsPath", "string", true}, argMaxLen, argMeta}},
	"applyconfiguration": {applyconfiguration.Generator{}, []optArg{argHeader}},
}

type optCase struct {
	opts  []string
	gens  []string          // names in the order given
	want  map[string]any    // name → the generator with its arguments
	paths []string          // package paths the roots must be
	def   genall.OutputRule // nil when none is given
	rules map[string]genall.OutputRule
	wrong string // what is wrong with the options, if anything
}

// optString spells a string value.
func optString(s *pbt.Src) (val, text string) {
	switch s.PickW(5, 3, 2, 1) {
	case 0:
		v := pbt.Pick(s, "a", "x-y", "hack/header.txt", "./manifests", "manager-role", "v1", "2024", "abc.def", "9x", "true-ish", "/abs/dir", "role_1")
		return v, v
	case 1:
		v := pbt.Pick(s, "", "a b", "2024", "a,b", "a;b", "x=y", "{a}", "quote\"d", "back\\slash", "né", "true", "12", "+a", "a:b")
		return v, strconv.Quote(v)
	case 2:
		v := pbt.Pick(s, "a b", "a\"b", "x,y", "c:\\d", "it's", "")
		return v, "`" + v + "`"
	default:
		v := pbt.Pick(s, "a b", "x.y z", "a/b c")
		return v, v // unquoted, up to the next separator
	}
}

func optValue(s *pbt.Src, kind string) (val any, text string) {
	switch kind {
	case "bool":
		b := s.Bool()
		return b, strconv.FormatBool(b)
	case "int":
		n := pbt.Pick(s, 0, 1, 7, 80, 1000, -1, 2147483647)
		return n, strconv.Itoa(n)
	case "string":
		return optString(s)
	}
	n := s.Range(1, 3)
	var vs, ts []string
	for range n {
		v := pbt.Pick(s, "v1", "v1beta1", "v2", "x")
		vs = append(vs, v)
		if s.Chance(30) {
			v = strconv.Quote(v)
		}
		ts = append(ts, v)
	}
	if s.Chance(60) {
		return vs, "{" + strings.Join(ts, pbt.Pick(s, ",", ", ")) + "}"
	}
	return vs, strings.Join(ts, ";")
}

// setArg sets a field of a generator or output rule, through a pointer where it is one.
func setArg(g reflect.Value, field string, val any) {
	f := g.FieldByName(field)
	if !f.IsValid() {
		panic(pbt.HarnessPanic(fmt.Sprintf("%s has no field %s", g.Type(), field)))
	}
	v := reflect.ValueOf(val)
	if f.Kind() == reflect.Pointer {
		p := reflect.New(f.Type().Elem())
		p.Elem().Set(v.Convert(f.Type().Elem()))
		f.Set(p)
		return
	}
	f.Set(v.Convert(f.Type()))
}

// genGenOpt makes a generator option.
func genGenOpt(s *pbt.Src, name string, wrong *string) (opt string, want any) {
	spec := optGens[name]
	g := reflect.New(reflect.TypeOf(spec.zero)).Elem()
	var parts []string
	bad := ""
	if *wrong == "argument" {
		bad = pbt.Pick(s, "unknown", "ill-typed", "missing", "repeated-case")
	}
	args := append([]optArg{}, spec.args...)
	args = pbt.Shuffle(s, args)
	did := false
	for _, a := range args {
		if bad == "missing" && a.required && !did {
			did = true
			continue
		}
		if !a.required && !s.Chance(35) && !(bad == "ill-typed" && !did && a.kind != "string" && a.kind != "strings") {
			continue
		}
		val, text := optValue(s, a.kind)
		if bad == "ill-typed" && !did && (a.kind == "int" || a.kind == "bool") {
			did = true
			text = pbt.Pick(s, "maybe", "{1}", "\"true\"", "1.5", "", "yes!")
		}
		setArg(g, a.field, val)
		parts = append(parts, a.name+"="+text)
	}
	switch bad {
	case "unknown":
		did = true
		parts = append(parts, pbt.Pick(s, "nosuch=1", "nosuch=true", "MaxDescLen=1", "rolename=x", "output=x"))
	case "repeated-case":
		did = true
		parts = append(parts, "HeaderFile=x")
	}
	if bad != "" && did {
		*wrong = "argument-" + bad
	} else if bad != "" {
		*wrong = ""
	}
	opt = name
	if len(parts) > 0 {
		opt += ":" + strings.Join(parts, pbt.Pick(s, ",", ",", ", "))
	}
	return opt, g.Interface()
}

// optRule makes an output rule and its spelling after "output:" or "output:<generator>:".
func optRule(s *pbt.Src) (genall.OutputRule, string) {
	dir := func() string { return pbt.Pick(s, "out", "./out", "a/b", "config/crd", "/abs", "\"x y\"") }
	un := func(t string) string { return strings.Trim(t, "\"") }
	switch s.PickW(4, 2, 2, 3) {
	case 0:
		d := dir()
		return genall.OutputToDirectory(un(d)), "dir=" + d
	case 1:
		return genall.OutputToNothing, "none"
	case 2:
		return genall.OutputToStdout, "stdout"
	}
	c := dir()
	r := genall.OutputArtifacts{Config: genall.OutputToDirectory(un(c))}
	t := "artifacts:config=" + c
	if s.Chance(50) {
		d := dir()
		r.Code = genall.OutputToDirectory(un(d))
		if s.Chance(50) {
			t = "artifacts:code=" + d + ",config=" + c
		} else {
			t += ",code=" + d
		}
	}
	return r, t
}

// optRoots are the packages of the module the options are tried on.
var optRoots = []string{"", "/a", "/a/in", "/b", "/b2"}

func genOptCase(s *pbt.Src) any {
	c := &optCase{want: map[string]any{}, rules: map[string]genall.OutputRule{}}
	if s.Chance(25) {
		c.wrong = pbt.Pick(s, "unknown-option", "argument", "argument", "argument", "duplicate", "rule-alone", "rule-argument", "rule-unknown", "bad-paths")
	}
	names := []string{"applyconfiguration", "crd", "object", "rbac", "schemapatch", "webhook"}
	c.gens = pbt.Subset(s, names, 45)
	if len(c.gens) == 0 && !s.Chance(10) {
		c.gens = []string{pbt.Pick(s, names...)}
	}
	c.gens = pbt.Shuffle(s, c.gens)
	badAt := -1
	if c.wrong == "argument" {
		if len(c.gens) == 0 {
			c.wrong = ""
		} else {
			badAt = s.Intn(len(c.gens))
		}
	}
	var genOpts, others []string
	for i, n := range c.gens {
		none := ""
		w := &none
		if i == badAt {
			w = &c.wrong
		}
		o, v := genGenOpt(s, n, w)
		genOpts = append(genOpts, o)
		c.want[n] = v
	}
	// output rules: the last default one counts, and one per generator
	for n := s.PickW(5, 4, 1); n > 0; n-- {
		r, t := optRule(s)
		c.def = r
		others = append(others, "output:"+t)
	}
	for _, g := range c.gens {
		if s.Chance(25) {
			r, t := optRule(s)
			c.rules[g] = r
			others = append(others, "output:"+g+":"+t)
		}
	}
	// paths
	set := map[string]bool{}
	add := func(p string) {
		set[p] = true
	}
	np := s.PickW(2, 5, 3)
	for range np {
		var ts []string
		n := s.Range(1, 3)
		for range n {
			switch s.PickW(5, 2, 2, 2) {
			case 0:
				r := pbt.Pick(s, optRoots...)
				add(ws.Mod + r)
				ts = append(ts, "."+r)
			case 1:
				r := pbt.Pick(s, optRoots...)
				add(ws.Mod + r)
				ts = append(ts, ws.Mod+r)
			case 2:
				add(ws.Mod + "/a")
				add(ws.Mod + "/a/in")
				ts = append(ts, "./a/...")
			case 3:
				for _, r := range optRoots {
					add(ws.Mod + r)
				}
				ts = append(ts, "./...")
			}
		}
		switch s.PickW(3, 3, 1) {
		case 0:
			others = append(others, "paths="+strings.Join(ts, ";"))
		case 1:
			others = append(others, "paths={"+strings.Join(ts, pbt.Pick(s, ",", ", "))+"}")
		case 2:
			for i := range ts {
				ts[i] = strconv.Quote(ts[i])
			}
			others = append(others, "paths={"+strings.Join(ts, ",")+"}")
		}
	}
	if np == 0 {
		add(ws.Mod) // no paths: the package of the current directory
	}
	for p := range set {
		c.paths = append(c.paths, p)
	}
	sort.Strings(c.paths)
	switch c.wrong {
	case "unknown-option":
		others = append(others, pbt.Pick(s, "nosuch", "crds", "Crd", "nosuch:a=1", "nosuch=1", "path=./a", "outputs:none", "deepcopy"))
	case "duplicate":
		if len(c.gens) == 0 {
			c.wrong = ""
			break
		}
		none := ""
		o, _ := genGenOpt(s, pbt.Pick(s, c.gens...), &none)
		others = append(others, o)
	case "rule-alone":
		var rest []string
		for _, n := range names {
			if c.want[n] == nil {
				rest = append(rest, n)
			}
		}
		if len(rest) == 0 {
			c.wrong = ""
			break
		}
		_, t := optRule(s)
		others = append(others, "output:"+pbt.Pick(s, rest...)+":"+t)
	case "rule-argument":
		pre := "output:"
		if len(c.gens) > 0 && s.Bool() {
			pre += pbt.Pick(s, c.gens...) + ":"
		}
		others = append(others, pre+pbt.Pick(s, "artifacts", "artifacts:code=x", "artifacts:config=x,nosuch=y", "artifacts:config={a,b}", "dir={a,b}", "stdout:a=b", "none:x=1"))
	case "rule-unknown":
		others = append(others, pbt.Pick(s, "output:nosuch", "output:file=x", "output:crd", "output", "output:crd:file=x"))
	case "bad-paths":
		others = append(others, pbt.Pick(s, "paths={./a", "paths={./a} ./b", "paths={./a;./b}", "paths"))
	}
	// generators keep their order; everything else goes anywhere (rules keep theirs)
	i, j := 0, 0
	for i < len(genOpts) || j < len(others) {
		if j == len(others) || i < len(genOpts) && s.Bool() {
			c.opts = append(c.opts, genOpts[i])
			i++
		} else {
			c.opts = append(c.opts, others[j])
			j++
		}
	}
	for i := range c.opts {
		if s.Chance(10) {
			c.opts[i] = "+" + c.opts[i]
		}
	}
	return c
}

func (c *optCase) show() string {
	var sb strings.Builder
	for _, o := range c.opts {
		fmt.Fprintf(&sb, "option  %s\n", o)
	}
	if c.wrong != "" {
		fmt.Fprintf(&sb, "wrong: %s\n", c.wrong)
	}
	return sb.String()
}

// optModule is the module the options are tried on.
var optModule = sync.OnceValue(func() string {
	dir := Scratch("opt")
	if err := ws.InitModule(dir, ws.Mod); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	f := ws.Files{"x.go": "package m\n", "a/x.go": "package a\n", "a/in/x.go": "package in\n", "b/x.go": "package b\n", "b2/x.go": "package b2\n"}
	if err := ws.WriteFiles(dir, f); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return dir
})

type markerKey struct {
	name   string
	target markers.TargetType
}

func markerKeys(reg *markers.Registry) map[markerKey]bool {
	m := map[markerKey]bool{}
	for _, d := range reg.AllDefinitions() {
		m[markerKey{d.Name, d.Target}] = true
	}
	return m
}

var optReg = sync.OnceValue(optionsRegistry)

func checkOptCase(c *optCase) pbt.Outcome {
	if c.wrong != "" && !strings.Contains(c.wrong, "-") {
		return pbt.OK(false)
	}
	rt, err := genall.FromOptionsWithConfig(&packages.Config{Dir: optModule()}, optReg(), c.opts)
	reg, regErr := genall.RegistryFromOptions(optReg(), c.opts)
	if c.wrong != "" {
		if err == nil {
			return pbt.Failf("accepted-"+c.wrong, "options that are wrong (%s) are accepted", c.wrong)
		}
		if regErr == nil {
			return pbt.Failf("accepted-"+c.wrong, "options that are wrong (%s) are accepted by RegistryFromOptions", c.wrong)
		}
		return pbt.OK(true, c.wrong)
	}
	if err != nil {
		return pbt.Failf("refused", "the options are refused: %v", err)
	}
	if regErr != nil {
		return pbt.Failf("refused", "the options are refused by RegistryFromOptions: %v", regErr)
	}
	if len(rt.Generators) != len(c.gens) {
		return pbt.Failf("generators", "%d generators are run, %d are named", len(rt.Generators), len(c.gens))
	}
	wantMarkers := map[markerKey]bool{}
	for i, n := range c.gens {
		got := any(*rt.Generators[i])
		if v := reflect.ValueOf(got); v.Kind() == reflect.Pointer && !v.IsNil() {
			got = v.Elem().Interface()
		}
		if !reflect.DeepEqual(got, c.want[n]) {
			return pbt.Failf("arguments", "generator %d runs as %T %s\nthe options say %T %s", i, got, jsonOf(got), c.want[n], jsonOf(c.want[n]))
		}
		own := &markers.Registry{}
		if err := (*rt.Generators[i]).RegisterMarkers(own); err != nil {
			return pbt.Failf("markers", "%s: %v", n, err)
		}
		for k := range markerKeys(own) {
			wantMarkers[k] = true
		}
		want := c.rules[n]
		if want == nil {
			want = c.def
		}
		if want == nil {
			want = genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join("config", n))}
		}
		if rule := rt.OutputRules.ForGenerator(rt.Generators[i]); !reflect.DeepEqual(rule, want) {
			return pbt.Failf("rule", "the output of %s goes to %T %s\nthe options say %T %s", n, rule, jsonOf(rule), want, jsonOf(want))
		}
	}
	for what, r := range map[string]*markers.Registry{"the registry of these options": reg, "the collector of the run": rt.Collector.Registry} {
		if got := markerKeys(r); !reflect.DeepEqual(got, wantMarkers) {
			return pbt.Failf("markers", "%s has %d markers, the generators named have %d", what, len(got), len(wantMarkers))
		}
	}
	roots := map[string]bool{}
	for _, r := range rt.Roots {
		roots[r.PkgPath] = true
	}
	if got := sortedKeys(roots); strings.Join(got, " ") != strings.Join(c.paths, " ") {
		return pbt.Failf("roots", "the run looks at %v\nthe options say %v", got, c.paths)
	}
	// what the filters of the named generators select is what is type-checked: one filter per generator that has one
	n := 0
	for _, g := range rt.Generators {
		if _, ok := (*g).(genall.NeedsTypeChecking); ok {
			n++
		}
	}
	if rt.Checker == nil || len(rt.Checker.NodeFilters) != n {
		return pbt.Failf("filters", "the type checker has %d filters, %d generators have one", len(rt.Checker.NodeFilters), n)
	}
	labels := []string{fmt.Sprintf("generators-%d", len(c.gens))}
	if c.def != nil {
		labels = append(labels, "default-rule")
	}
	if len(c.rules) > 0 {
		labels = append(labels, "own-rule")
	}
	return pbt.OK(len(c.opts) > 0, labels...)
}

func firstLines(t string, n int) string {
	ls := strings.Split(strings.TrimSpace(t), "\n")
	return strings.Join(ls[:min(n, len(ls))], "\n")
}

// ---- the same through the command line: build tags, exit codes, usage

type cliOptCase struct {
	kind    string // tags, success, wrong, none, failing, version, help
	args    []string
	tags    map[string]bool
	exprs   []string // build constraints of the files t0.go, t1.go, …
	outFile bool
}

var optTags = []string{"ta", "tb", "tc", "ignore_autogenerated"}

func genTagExpr(s *pbt.Src, depth int) string {
	switch s.PickW(5, 2, 2, 1) {
	case 1:
		if depth > 0 {
			return "(" + genTagExpr(s, depth-1) + " && " + genTagExpr(s, depth-1) + ")"
		}
	case 2:
		if depth > 0 {
			return "(" + genTagExpr(s, depth-1) + " || " + genTagExpr(s, depth-1) + ")"
		}
	case 3:
		if depth > 0 {
			return "!(" + genTagExpr(s, depth-1) + ")"
		}
	}
	return pbt.Pick(s, "", "!") + pbt.Pick(s, optTags...)
}

func genCLIOpt(s *pbt.Src) any {
	c := &cliOptCase{tags: map[string]bool{}}
	c.kind = []string{"tags", "success", "wrong", "none", "failing", "version", "help"}[s.PickW(50, 10, 20, 4, 12, 4, 6)]
	base := []string{"rbac:roleName=x", "paths=.", "output:dir=out"}
	if s.Bool() {
		base[2] = "output:stdout"
	} else {
		c.outFile = true
	}
	switch c.kind {
	case "tags":
		for n := s.Range(1, 6); n > 0; n-- {
			c.exprs = append(c.exprs, genTagExpr(s, 2))
		}
		var given []string
		if s.Chance(70) {
			given = pbt.Subset(s, append([]string{}, optTags...), 40)
			if len(given) == 0 && s.Bool() {
				given = []string{pbt.Pick(s, optTags...)}
			}
		}
		if len(given) == 0 {
			c.tags["ignore_autogenerated"] = true // the default
			break
		}
		for _, t := range given {
			c.tags[t] = true
		}
		flag := []string{"--load-build-tags=" + strings.Join(given, ",")}
		switch s.PickW(2, 1, 1) {
		case 1:
			flag = []string{"--load-build-tags", strings.Join(given, ",")}
		case 2:
			flag = nil
			for _, t := range given {
				flag = append(flag, "--load-build-tags="+t)
			}
		}
		if s.Bool() {
			base = append(base, flag...)
		} else {
			base = append(append([]string{}, flag...), base...)
		}
	case "wrong":
		base = append(base, pbt.Pick(s, "nosuch", "crd:nosuch=1", "crd:maxDescLen=x", "rbac:roleName=y", "output:crd:none", "output:nosuch", "webhook:year={a,b}", "schemapatch", "output:artifacts", "--nosuch"))
		if s.Chance(25) {
			base = append(base, pbt.Pick(s, "-w", "-ww", "-wwww"))
		}
	case "none":
		base = base[1:]
		if s.Bool() {
			base = base[:1]
		}
	case "version":
		base = []string{"--version"}
		if s.Bool() {
			base = append(base, "rbac:roleName=x", "paths=.", "output:dir=out")
		}
	case "help":
		base = append(base, pbt.Pick(s, "-h", "-hh", "-hhh", "-hhhh", "--help", "-w", "-ww", "-www", "-wwww", "--detailed-help", "--which-markers"))
	}
	c.args = base
	if c.kind != "tags" {
		c.args = pbt.Shuffle(s, c.args)
	}
	return c
}

func (c *cliOptCase) show() string {
	return fmt.Sprintf("%s: controller-gen %s\nfiles with constraints: %q", c.kind, strings.Join(c.args, " "), c.exprs)
}

func checkCLIOpt(c *cliOptCase) pbt.Outcome {
	dir := Scratch("co")
	defer Drop(dir)
	if err := ws.InitModule(dir, ws.Mod); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	f := ws.Files{"x.go": "// +kubebuilder:rbac:groups=g,resources=always,verbs=get\npackage m\n"}
	want := []string{"always"}
	for i, e := range c.exprs {
		f[fmt.Sprintf("t%d.go", i)] = fmt.Sprintf("//go:build %s\n\n// +kubebuilder:rbac:groups=g,resources=res%d,verbs=get\n\npackage m\n", e, i)
		x, err := constraint.Parse("//go:build " + e)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		if x.Eval(func(t string) bool { return c.tags[t] }) {
			want = append(want, fmt.Sprintf("res%d", i))
		}
	}
	if c.kind == "failing" {
		f["x.go"] = "// +kubebuilder:rbac:groups=g,resources=always,verbs={get\npackage m\n"
	}
	if err := ws.WriteFiles(dir, f); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	r := runCLI(dir, c.args...)
	text := r.out + r.err
	usage := strings.Contains(text, "Usage:")
	_, statErr := os.Stat(filepath.Join(dir, "out"))
	wrote := statErr == nil
	runs := c.kind == "tags" || c.kind == "success"
	switch c.kind {
	case "wrong", "none", "failing":
		if r.code == 0 {
			return pbt.Failf("exit-"+c.kind, "the exit code is 0\n%s", firstLines(text, 5))
		}
		if r.code != 1 {
			return pbt.Failf("crash", "the exit code is %d\n%s", r.code, firstLines(r.err, 12))
		}
		if usage != (c.kind != "failing") {
			return pbt.Failf("usage-"+c.kind, "the usage is printed: %v\n%s", usage, firstLines(text, 5))
		}
		if c.kind != "failing" && !strings.Contains(r.err, "Error:") {
			return pbt.Failf("unexplained-"+c.kind, "standard error has no error message\n%s", firstLines(r.err, 5))
		}
	default:
		if r.code != 0 {
			return pbt.Failf("exit-"+c.kind, "the exit code is %d\n%s", r.code, firstLines(text, 8))
		}
	}
	if !runs && c.kind != "failing" {
		if wrote || strings.Contains(r.out, "kind: ClusterRole") {
			return pbt.Failf("ran-"+c.kind, "the generators run:\n%s", firstLines(r.out, 8))
		}
	}
	if c.kind == "version" && !strings.Contains(text, "Version:") {
		return pbt.Failf("version", "the version is not printed:\n%s", firstLines(text, 5))
	}
	if !runs {
		return pbt.OK(true, c.kind)
	}
	doc := r.out
	if c.outFile {
		if strings.Contains(r.out, "ClusterRole") {
			return pbt.Failf("place", "a directory is asked for and the role is printed")
		}
		b, err := os.ReadFile(filepath.Join(dir, "out", "role.yaml"))
		if err != nil {
			return pbt.Failf("place", "no role is written: %v\n%s", err, firstLines(text, 5))
		}
		doc = string(b)
	}
	var got []string
	for _, l := range strings.Split(doc, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "- always") || strings.HasPrefix(l, "- res") {
			got = append(got, strings.TrimPrefix(l, "- "))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return pbt.Failf("tags", "with the build tags %v the files with the markers %v count\nthe role has %v", sortedKeys(c.tags), want, got)
	}
	return pbt.OK(true, c.kind)
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "at least one option is given",
		Assumptions: []string{
			"the last default output rule counts",
		},
		Families: []*pbt.Family{
			{Name: "options", Quick: 1200, Thorough: 40000, Batch: 1, Parallel: 8,
				Gen: genOptCase, Show: func(c any) string { return c.(*optCase).show() },
				Check: pbt.Each(checkOptCase)},
			{Name: "commands", Quick: 250, Thorough: 6000, Batch: 1, Parallel: 8,
				Gen: genCLIOpt, Show: func(c any) string { return c.(*cliOptCase).show() },
				Check: pbt.Each(checkCLIOpt)},
		},
	})
}
