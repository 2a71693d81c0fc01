package props

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verif/pbt"
	"verif/ws"
)

// ---- apply configurations (C25)

//go:embed acmod/mod.txt
var acGoMod []byte

//go:embed acmod/sum.txt
var acGoSum []byte

//go:embed acmod/driver.txt
var acDriver string

type acType struct {
	name    string
	root    bool     // has ObjectMeta
	tagged  bool     // has fields with a JSON name
	explic  int      // 0: no ac:generate marker, 1: true, -1: false
	res     bool     // has a resource marker
	client  string   // genclient tags
	refs    []string // types of this package in fields with a JSON name
	hidden  []string // types of this package in other fields
	body    []string
	doc     []string // comment lines on the type
	far     []string // comment lines in the group above
	grouped bool
	file    int
	isSlice bool // a named slice type
}

type acPkg struct {
	dir     string
	name    string
	on      int // package marker: 0 none, 1 true, -1 false
	out     string
	types   []*acType
	markers []string // of the package
	inFile  int      // where they are: 0 doc.go, 1 a file with types, above its package clause, 2 detached in a file
	imports map[string]string
	group   string
}

type acCase struct {
	pkgs   []*acPkg
	header string
	fault  string // the marker that is wrong
	spell  int
	again  bool
	labels []string
}

var acDirs = []string{"api/v1", "api/v1alpha1", "apis/batch/v1", "apis/batch/v2", "pkg/apis/core/v1beta1", "api/widgets/v1", "my-group/v2"}
var acNames = []string{"Widget", "Gadget", "Probe", "Rule", "Policy", "Port", "Volume", "Step", "Window", "Target", "Quota", "Limit"}
var acFields = []string{"Size", "Color", "Replicas", "Mode", "Ports", "Rules", "Items", "Weight", "Enabled", "Limits", "Path", "HostName", "URL", "Extra"}

var acPlain = []struct{ expr, alias, path string }{
	{"string", "", ""}, {"int32", "", ""}, {"int64", "", ""}, {"bool", "", ""}, {"*string", "", ""}, {"*int32", "", ""}, {"*bool", "", ""},
	{"[]string", "", ""}, {"[]int32", "", ""}, {"[]byte", "", ""}, {"map[string]string", "", ""}, {"map[string]int32", "", ""}, {"map[string][]string", "", ""}, {"[][]string", "", ""},
	{"*[]string", "", ""},
	{"metav1.Time", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"*metav1.Time", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"metav1.Duration", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"metav1.LabelSelector", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"*metav1.LabelSelector", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"[]metav1.Condition", "metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"},
	{"resource.Quantity", "resource", "k8s.io/apimachinery/pkg/api/resource"},
	{"intstr.IntOrString", "intstr", "k8s.io/apimachinery/pkg/util/intstr"},
	{"*intstr.IntOrString", "intstr", "k8s.io/apimachinery/pkg/util/intstr"},
	{"runtime.RawExtension", "runtime", "k8s.io/apimachinery/pkg/runtime"},
	{"corev1.LocalObjectReference", "corev1", "k8s.io/api/core/v1"},
	{"[]corev1.EnvVar", "corev1", "k8s.io/api/core/v1"},
	{"corev1.Protocol", "corev1", "k8s.io/api/core/v1"},
}

func genAC(s *pbt.Src) any {
	c := &acCase{spell: s.Intn(3), again: s.Chance(12)}
	if s.Chance(40) {
		c.header = pbt.Pick(s, "// Copyright The Authors.\n", "/*\nSome licence.\n*/\n", "// One line\n\n// Another group\n")
	}
	dirs := someOf(s, acDirs, 1+s.PickW(5, 3, 2))
	if len(dirs) == 0 {
		dirs = acDirs[:1]
	}
	for _, d := range dirs {
		p := &acPkg{dir: d, name: path.Base(d), imports: map[string]string{}}
		c.pkgs = append(c.pkgs, p)
		c.genPkg(s, p)
	}
	if s.Chance(12) {
		c.genFault(s)
	}
	return c
}

func (c *acCase) genPkg(s *pbt.Src, p *acPkg) {
	p.on = s.PickW(2, 6, 1)
	if p.on == 2 {
		p.on = -1
	}
	switch p.on {
	case 1:
		p.markers = append(p.markers, "+kubebuilder:ac:generate=true")
	case -1:
		p.markers = append(p.markers, "+kubebuilder:ac:generate=false")
	}
	if s.Chance(35) {
		p.out = pbt.Pick(s, "generated", "clients/apply", "../../client/"+strings.NewReplacer("/", "", "-", "").Replace(p.dir), "../ac"+p.name+strings.NewReplacer("/", "", "-", "").Replace(p.dir))
		q := p.out
		if s.Chance(30) {
			q = `"` + q + `"`
		}
		p.markers = append(p.markers, "+kubebuilder:ac:output:package="+q)
	}
	if s.Chance(30) {
		p.group = pbt.Pick(s, "example.com", "batch.ex.test", "")
		p.markers = append(p.markers, "+groupName="+p.group)
	}
	if s.Chance(20) {
		p.markers = append(p.markers, "+k8s:deepcopy-gen=package")
	}
	p.markers = pbt.Shuffle(s, p.markers)
	p.inFile = s.PickW(5, 2, 2)
	names := pbt.Shuffle(s, acNames)
	n := s.Range(1, 5)
	if s.Chance(10) {
		n = s.Range(5, 9)
	}
	var helpers []*acType
	for i := 0; i < n; i++ {
		t := &acType{name: names[i], file: s.Intn(2), grouped: s.Chance(15)}
		t.root = i >= n-2 && s.Chance(75) || i == n-1 && s.Chance(60)
		if !t.root && len(helpers) > 0 && s.Chance(10) {
			h := helpers[s.Intn(len(helpers))]
			if !h.isSlice {
				t.isSlice = true
				t.body = []string{"[]" + h.name}
				t.refs = []string{h.name}
				p.types = append(p.types, t)
				helpers = append(helpers, t)
				continue
			}
		}
		c.genBody(s, p, t, helpers)
		c.genMarkers(s, p, t)
		p.types = append(p.types, t)
		if !t.root {
			helpers = append(helpers, t)
		}
	}
	if s.Chance(40) {
		for _, t := range p.types {
			if t.root {
				p.types = append(p.types, &acType{name: t.name + "List", file: t.file, tagged: true, body: []string{
					"metav1.TypeMeta `json:\",inline\"`", "metav1.ListMeta `json:\"metadata,omitempty\"`", "Items []" + t.name + " `json:\"items\"`"},
					refs: []string{t.name}, doc: []string{"+kubebuilder:object:root=true"}})
				break
			}
		}
	}
}

func (c *acCase) genBody(s *pbt.Src, p *acPkg, t *acType, helpers []*acType) {
	if t.root {
		t.tagged = true
		t.body = append(t.body, "metav1.TypeMeta `json:\",inline\"`", "metav1.ObjectMeta `json:\"metadata,omitempty\"`")
	} else if s.Chance(6) {
		return // an empty struct
	}
	fields := pbt.Shuffle(s, acFields)
	n := s.Range(1, 4)
	for i := 0; i < n; i++ {
		name := fields[i]
		typ := ""
		var ref string
		if len(helpers) > 0 && s.Chance(55) {
			h := helpers[s.Intn(len(helpers))]
			ref = h.name
			form := s.PickW(5, 4, 5, 3)
			if h.isSlice && form == 2 {
				form = 0
			}
			typ = [...]string{"", "*", "[]", "map[string]"}[form] + h.name
			if h.isSlice && form == 1 {
				typ = h.name
			}
		} else if !t.root && s.Chance(8) {
			typ, ref = "[]"+t.name, t.name // of itself
		} else if len(c.pkgs) > 1 && s.Chance(15) {
			q := c.pkgs[s.Intn(len(c.pkgs)-1)]
			var cand []string
			for _, x := range q.types {
				if !x.root && !x.isSlice && !strings.HasSuffix(x.name, "List") {
					cand = append(cand, x.name)
				}
			}
			if len(cand) > 0 {
				alias := "dep" + strings.NewReplacer("/", "", "-", "").Replace(q.dir)
				p.imports[alias] = casePath + "/" + q.dir
				typ = pbt.Pick(s, "", "*", "[]") + alias + "." + cand[s.Intn(len(cand))]
			}
		}
		if typ == "" {
			e := acPlain[s.Intn(len(acPlain))]
			if e.alias == "corev1" && !s.Chance(25) {
				e = acPlain[0] // loading it takes long
			}
			typ = e.expr
			if e.alias != "" {
				p.imports[e.alias] = e.path
			}
		}
		json := strings.ToLower(name[:1]) + name[1:]
		if name == "URL" {
			json = "url"
		}
		if s.Chance(10) {
			json = "x-" + json
		}
		tag := json
		switch s.PickW(5, 6, 1, 1) {
		case 1:
			tag += ",omitempty"
		case 2:
			tag = "-"
		case 3:
			tag = ""
		}
		if tag == "-" || tag == "" {
			if ref != "" {
				t.hidden = append(t.hidden, ref)
			}
			if tag == "-" {
				t.body = append(t.body, name+" "+typ+" `json:\"-\"`")
			} else {
				t.body = append(t.body, name+" "+typ)
			}
			continue
		}
		t.tagged = true
		if ref != "" {
			t.refs = append(t.refs, ref)
		}
		t.body = append(t.body, fmt.Sprintf("%s %s `json:%q`", name, typ, tag))
	}
	// embed a struct whose fields are named otherwise
	if s.Chance(20) {
		e := &acType{name: t.name + "Base", file: t.file, tagged: true}
		for i, f := range []string{"First", "Second"}[:s.Range(1, 2)] {
			x := acPlain[s.Intn(15)]
			e.body = append(e.body, fmt.Sprintf("%s%s %s `json:\"%s%s,omitempty\"`", f, t.name, x.expr, strings.ToLower(f), t.name))
			_ = i
		}
		p.types = append(p.types, e)
		if s.Chance(70) {
			t.body = append(t.body, e.name+" `json:\",inline\"`")
		} else {
			t.body = append(t.body, e.name+" `json:\"base\"`")
		}
		t.refs = append(t.refs, e.name)
		t.tagged = true
	}
}

func (c *acCase) genMarkers(s *pbt.Src, p *acPkg, t *acType) {
	var ms []string
	if t.root {
		if s.Chance(80) {
			t.res = true
			ms = append(ms, pbt.Pick(s, "+kubebuilder:resource", "+kubebuilder:resource:scope=Cluster", "+kubebuilder:resource:path=things,shortName=a;b", "+kubebuilder:resource:singular=thing"))
		}
		if s.Chance(60) {
			ms = append(ms, "+kubebuilder:object:root=true")
		}
		if s.Chance(30) {
			ms = append(ms, "+kubebuilder:subresource:status")
		}
		switch s.PickW(6, 2, 2) {
		case 1:
			t.explic = 1
		case 2:
			t.explic = -1
		}
		if s.Chance(15) {
			t.client = pbt.Pick(s, "+genclient", "+genclient\n+genclient:nonNamespaced", "+genclient\n+genclient:noStatus")
			ms = append(ms, strings.Split(t.client, "\n")...)
		}
	} else if s.Chance(12) {
		t.explic = pbt.Pick(s, 1, -1)
	}
	switch t.explic {
	case 1:
		ms = append(ms, "+kubebuilder:ac:generate=true")
	case -1:
		ms = append(ms, "+kubebuilder:ac:generate=false")
	}
	if s.Chance(40) {
		ms = append(ms, t.name+" does things.")
	}
	ms = pbt.Shuffle(s, ms)
	if len(ms) > 0 && s.Chance(30) {
		k := s.Intn(len(ms) + 1)
		t.far, ms = ms[:k], ms[k:]
	}
	t.doc = ms
}

func (c *acCase) genFault(s *pbt.Src) {
	p := c.pkgs[s.Intn(len(c.pkgs))]
	bad := pbt.Pick(s, "+kubebuilder:ac:generate=maybe", "+kubebuilder:ac:generate=1", "+kubebuilder:ac:generate", "+kubebuilder:ac:generate=true,x=1", "+kubebuilder:ac:generate=True")
	c.fault = bad
	if s.Chance(50) {
		var ts []*acType
		for _, t := range p.types {
			if !t.isSlice {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			t := ts[s.Intn(len(ts))]
			t.doc = append(t.doc, bad)
			return
		}
	}
	p.markers = append(p.markers, bad)
}

func comment(lines []string) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString("// " + l + "\n")
	}
	return b.String()
}

func (p *acPkg) files(prefix string) ws.Files {
	out := ws.Files{}
	clause := "package " + p.name + "\n"
	ms := comment(p.markers)
	doc := clause
	if p.inFile == 0 && ms != "" {
		doc = "// Package " + p.name + " has types.\n" + ms + clause
	}
	out[p.dir+"/groupversion_info.go"] = doc + "\nimport \"k8s.io/apimachinery/pkg/runtime/schema\"\n\nvar SchemeGroupVersion = schema.GroupVersion{Group: \"" + p.group + "\", Version: \"" + p.name + "\"}\n"
	for f := 0; f < 2; f++ {
		var b strings.Builder
		for _, t := range p.types {
			if t.file != f {
				continue
			}
			if len(t.far) > 0 {
				b.WriteString(comment(t.far) + "\n")
			}
			body := " struct {\n\t" + strings.Join(t.body, "\n\t") + "\n}\n"
			if t.isSlice {
				body = " " + t.body[0] + "\n"
			}
			if t.grouped && len(t.far) == 0 {
				b.WriteString("type (\n" + comment(t.doc) + t.name + body + ")\n\n")
				continue
			}
			b.WriteString(comment(t.doc) + "type " + t.name + body + "\n")
		}
		if b.Len() == 0 && f > 0 {
			continue
		}
		src := clause
		if f == 0 && p.inFile == 1 {
			src = ms + clause
		}
		imports := map[string]string{"metav1": "k8s.io/apimachinery/pkg/apis/meta/v1"}
		for a, pa := range p.imports {
			imports[a] = strings.Replace(pa, casePath, ws.Mod+"/"+prefix, 1)
		}
		src += "\nimport (\n"
		for _, a := range sortedKeys(imports) {
			if strings.Contains(b.String(), a+".") {
				src += "\t" + a + " \"" + imports[a] + "\"\n"
			}
		}
		src += ")\n\n"
		if f == 0 && p.inFile == 2 {
			src += ms + "\nvar _ = 0\n\n"
		}
		out[fmt.Sprintf("%s/types%d.go", p.dir, f)] = src + b.String()
	}
	return out
}

func showAC(a any) string {
	c := a.(*acCase)
	all := ws.Files{}
	for _, p := range c.pkgs {
		for n, x := range p.files("c0") {
			all[n] = x
		}
	}
	return fmt.Sprintf("header %q\n%s", c.header, all.Show())
}

func (p *acPkg) outDir() string {
	o := p.out
	if o == "" {
		o = "applyconfiguration"
	}
	return path.Join(p.dir, o)
}

func (p *acPkg) byName(n string) *acType {
	for _, t := range p.types {
		if t.name == n {
			return t
		}
	}
	return nil
}

func (t *acType) selected(p *acPkg) bool {
	switch {
	case t.explic != 0:
		return t.explic > 0
	case p.on <= 0:
		return false
	}
	return t.res || t.client != ""
}

// want tells which types must have apply configurations, and which may.
func (p *acPkg) want() (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	var reach func(set map[string]bool, t *acType, all bool)
	seen := map[string]bool{}
	reach = func(set map[string]bool, t *acType, all bool) {
		if seen[t.name] {
			return
		}
		seen[t.name] = true
		if t.tagged {
			set[t.name] = true
		}
		for _, r := range t.refs {
			reach(set, p.byName(r), all)
		}
		if all {
			for _, r := range t.hidden {
				reach(set, p.byName(r), all)
			}
		}
	}
	for pass, set := range []map[string]bool{must, may} {
		seen = map[string]bool{}
		for _, t := range p.types {
			// a type without ObjectMeta cannot be applied by itself, whatever its markers
			if t.selected(p) && (t.root || pass == 1) {
				reach(set, t, pass == 1)
			}
		}
	}
	return must, may
}

// asks says whether anything has to be generated for the package, or may.
func (p *acPkg) asks() bool {
	if p.on > 0 {
		return true
	}
	for _, t := range p.types {
		if t.explic > 0 {
			return true
		}
	}
	return false
}

var acTypeRe = regexp.MustCompile(`^(\w+)ApplyConfiguration$`)

// declared lists the apply configurations in a directory.
func acDeclared(dir string) (map[string]bool, error) {
	out := map[string]bool{}
	fs, err := os.ReadDir(dir)
	if os.IsNotExist(err) {
		return out, nil
	}
	for _, f := range fs {
		if !strings.HasSuffix(f.Name(), ".go") {
			continue
		}
		x, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, f.Name()), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range x.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, sp := range g.Specs {
				if m := acTypeRe.FindStringSubmatch(sp.(*ast.TypeSpec).Name.Name); m != nil {
					out[m[1]] = true
				}
			}
		}
	}
	return out, nil
}

func (p *acPkg) typesDir() string {
	parts := strings.Split(p.dir, "/")
	return path.Join(p.outDir(), strings.Join(parts[len(parts)-2:], "/"))
}

func keysOf(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// judgeTree compares what was written for the case with what it asks for.
func (c *acCase) judgeTree(before, after map[string]string, dir string, header string) (got []map[string]bool, o pbt.Outcome) {
	allowed := map[string]bool{}
	for _, p := range c.pkgs {
		must, may := p.want()
		have, err := acDeclared(filepath.Join(dir, p.typesDir()))
		if err != nil {
			return nil, pbt.Failf("syntax", "%v", err)
		}
		got = append(got, have)
		for n := range must {
			if !have[n] {
				return nil, pbt.Failf("missing", "%s: no apply configuration for %s (has: %s; wants: %s)", p.dir, n, keysOf(have), keysOf(must))
			}
		}
		for n := range have {
			if !may[n] {
				return nil, pbt.Failf("unwanted", "%s: an apply configuration for %s, which did not ask (has: %s; may have: %s)", p.dir, n, keysOf(have), keysOf(may))
			}
			allowed[path.Join(p.typesDir(), strings.ToLower(n)+".go")] = true
		}
		if p.asks() {
			allowed[path.Join(p.outDir(), "utils.go")] = true
			allowed[path.Join(p.outDir(), "internal", "internal.go")] = true
		}
	}
	for n, b := range after {
		old, was := before[n]
		switch {
		case was && old != b:
			return nil, pbt.Failf("source", "%s was changed", n)
		case was:
		case !allowed[n]:
			return nil, pbt.Failf("unwanted", "%s was written", n)
		case !strings.HasPrefix(b, header):
			return nil, pbt.Failf("header", "%s does not begin with the header %q:\n%s", n, header, head(b, 300))
		}
	}
	for n := range before {
		if _, ok := after[n]; !ok {
			return nil, pbt.Failf("source", "%s was removed", n)
		}
	}
	return got, pbt.Outcome{}
}

type acLine struct {
	Case       int
	Type, Fail string
	Sets       int
}

func checkAC(cases []any) []pbt.Outcome {
	dir := Scratch("ac")
	defer Drop(dir)
	must := func(err error) {
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
	}
	must(os.WriteFile(filepath.Join(dir, "go.mod"), acGoMod, 0o644))
	must(os.WriteFile(filepath.Join(dir, "go.sum"), acGoSum, 0o644))
	outs := make([]pbt.Outcome, len(cases))
	before := make([]map[string]string, len(cases))
	for i, a := range cases {
		for _, p := range a.(*acCase).pkgs {
			must(ws.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), p.files(fmt.Sprintf("c%d", i))))
		}
		before[i] = treeOf(filepath.Join(dir, fmt.Sprintf("c%d", i)))
	}
	cli()
	// faults each on their own, the others by four
	var groups [][]int
	var cur []int
	for i, a := range cases {
		if a.(*acCase).fault != "" {
			groups = append(groups, []int{i})
			continue
		}
		if cur = append(cur, i); len(cur) == 4 {
			groups, cur = append(groups, cur), nil
		}
	}
	if len(cur) > 0 {
		groups = append(groups, cur)
	}
	got := make([][]map[string]bool, len(cases))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for gi, g := range groups {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			acRun(dir, gi, g, cases, before, got, outs)
		}()
	}
	wg.Wait()
	skip := map[int]string{}
	for i := range cases {
		if outs[i].Fail != "" || outs[i].HarnessErr != "" {
			skip[i] = outs[i].Fail
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("c%d", i)))
		} else if cases[i].(*acCase).fault != "" {
			skip[i] = "fault"
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("c%d", i)))
		}
	}
	lines, err := acDrive(dir, cases, got, skip)
	must(err)
	for i := range cases {
		if outs[i].Fail != "" || outs[i].HarnessErr != "" || cases[i].(*acCase).fault != "" {
			continue
		}
		if why, bad := skip[i]; bad {
			outs[i] = pbt.Failf("compile", "%s", why)
			continue
		}
		sets := 0
		for _, l := range lines[i] {
			sets += l.Sets
			if l.Fail != "" {
				outs[i] = pbt.Failf("behaviour", "%s: %s", l.Type, l.Fail)
				break
			}
		}
		if outs[i].Fail == "" {
			labels := []string{}
			for _, p := range cases[i].(*acCase).pkgs {
				for _, t := range p.types {
					if t.explic < 0 && t.root {
						labels = append(labels, "type off")
					}
					if t.explic > 0 && p.on <= 0 && t.root {
						labels = append(labels, "type on, package off")
					}
				}
				if p.out != "" {
					labels = append(labels, "own output package")
				}
			}
			outs[i] = pbt.OK(sets >= 10, labels...)
		}
	}
	return outs
}

// acRun runs the tool for some of the cases.
func acRun(dir string, gi int, g []int, cases []any, before []map[string]string, got [][]map[string]bool, outs []pbt.Outcome) {
	first := cases[g[0]].(*acCase)
	arg := "applyconfiguration"
	if first.header != "" {
		name := fmt.Sprintf("header%d.txt", gi)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(first.header), 0o644); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		arg += ":headerFile=" + name
	}
	args := []string{arg}
	for _, i := range g {
		args = append(args, fmt.Sprintf([...]string{"paths=./c%d/...", "paths=ex.test/m/c%d/...", "paths=" + dir + "/c%d/..."}[first.spell], i))
	}
	r := runCLI(dir, args...)
	if first.fault != "" {
		outs[g[0]] = pbt.OK(true, "fault")
		if r.code == 0 {
			outs[g[0]] = pbt.Failf("silent", "%s has no meaning, and the run succeeds\n%s", first.fault, r.err)
			return
		}
		if !strings.Contains(r.err, ".go:") {
			outs[g[0]] = pbt.Failf("position", "%s has no meaning, and the error does not say where it is:\n%s", first.fault, r.err)
		}
		return
	}
	if r.code != 0 {
		for _, i := range g {
			if len(g) == 1 {
				outs[i] = pbt.Failf("refused", "controller-gen %q: exit %d\n%s%s", args, r.code, head(r.out, 500), head(r.err, 2500))
			} else {
				acRun(dir, gi*100+i+1000, []int{i}, cases, before, got, outs)
			}
		}
		return
	}
	for _, i := range g {
		sub := filepath.Join(dir, fmt.Sprintf("c%d", i))
		after := treeOf(sub)
		got[i], outs[i] = cases[i].(*acCase).judgeTree(before[i], after, sub, first.header)
		before[i] = after
	}
	if first.again {
		if r := runCLI(dir, args...); r.code != 0 {
			outs[g[0]] = pbt.Failf("again", "a second run over its own output fails: %s", head(r.err, 2000))
			return
		}
		for _, i := range g {
			if outs[i].Fail != "" {
				continue
			}
			after := treeOf(filepath.Join(dir, fmt.Sprintf("c%d", i)))
			for n, b := range after {
				if before[i][n] != b {
					outs[i] = pbt.Failf("again", "a second run changes %s", n)
				}
			}
		}
	}
}

func acDrive(dir string, cases []any, got [][]map[string]bool, skip map[int]string) ([][]acLine, error) {
	lines := make([][]acLine, len(cases))
	env := append(os.Environ(), "GOFLAGS=-mod=mod")
	build := func() (string, error) {
		cmd := exec.Command("go", "build", "-gcflags=-e", "./...")
		cmd.Dir, cmd.Env = dir, env
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	if out, err := build(); err != nil {
		found := false
		for _, m := range regexp.MustCompile(`(?m)^(?:\./)?c(\d+)/.*$`).FindAllStringSubmatch(out, -1) {
			var i int
			fmt.Sscan(m[1], &i)
			if strings.Contains(m[0], "groupversion_info.go") || regexp.MustCompile(`/types\d\.go:`).MatchString(m[0]) {
				return nil, fmt.Errorf("the case itself does not compile: %s\n%s", m[0], showAC(cases[i]))
			}
			if _, dup := skip[i]; !dup {
				skip[i] = "the generated code does not compile: " + m[0]
			}
			found = true
		}
		if !found {
			return nil, fmt.Errorf("go build: %v\n%s", err, head(out, 2000))
		}
	}
	var imp, body strings.Builder
	n := 0
	for i, a := range cases {
		if _, bad := skip[i]; bad {
			continue
		}
		for pi, p := range a.(*acCase).pkgs {
			have := got[i][pi]
			if len(have) == 0 {
				continue
			}
			n++
			api, ac, ut := fmt.Sprintf("a%d", n), fmt.Sprintf("g%d", n), fmt.Sprintf("u%d", n)
			base := fmt.Sprintf("%s/c%d/", ws.Mod, i)
			fmt.Fprintf(&imp, "import %s %q\nimport %s %q\nimport %s %q\n", api, base+p.dir, ac, base+p.typesDir(), ut, base+p.outDir())
			for _, name := range strings.Fields(keysOf(have)) {
				t := p.byName(name)
				kind := "helper"
				if t.root && (t.selected(p)) {
					kind = "root"
					if strings.Contains(t.client, "nonNamespaced") {
						kind = "cluster"
					}
				}
				fmt.Fprintf(&body, "\t{%d, %q, %q, reflect.TypeOf(%s.%s{}), reflect.TypeOf(&%s.%sApplyConfiguration{}), reflect.ValueOf(%s.%s), %s.ForKind(%s.SchemeGroupVersion.WithKind(%q)), %s.ForKind(%s.SchemeGroupVersion.WithKind(%q))},\n",
					i, p.dir+"."+name, kind, api, name, ac, name, ac, name, ut, api, name, ut, api, "No"+name)
			}
		}
	}
	if n == 0 {
		return lines, nil
	}
	src := "package main\n\nimport \"reflect\"\n" + imp.String() + "\nvar types = []entry{\n" + body.String() + "}\n"
	if err := ws.WriteFiles(filepath.Join(dir, "zz"), ws.Files{"main.go": acDriver, "types.go": src}); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "zz.bin")
	cmd := exec.Command("go", "build", "-o", bin, "./zz")
	cmd.Dir, cmd.Env = dir, env
	if out, err := cmd.CombinedOutput(); err != nil {
		// what the driver uses of the generated packages is part of what they promise
		m := regexp.MustCompile(`undefined: g(\d+)\.(\w+)`).FindStringSubmatch(string(out))
		if m == nil {
			return nil, fmt.Errorf("build: %v\n%s", err, head(string(out), 3000))
		}
		return nil, fmt.Errorf("the generated code lacks %s\n%s", m[2], head(string(out), 3000))
	}
	run := exec.Command(bin)
	var stdout, stderr bytes.Buffer
	run.Stdout, run.Stderr = &stdout, &stderr
	if err := run.Run(); err != nil {
		return nil, fmt.Errorf("run: %v\n%s", err, head(stderr.String(), 3000))
	}
	sc := bufio.NewScanner(&stdout)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var l acLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			return nil, err
		}
		lines[l.Case] = append(lines[l.Case], l)
	}
	return lines, sc.Err()
}

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "at least ten setters of generated types were called, or a marker without meaning was noticed",
		Assumptions: []string{
			"which types get apply configurations, where and with what header is this code's; the setters come from k8s.io/code-generator and are checked as part of the result",
			"fields of type []*T, pointers to slices of structs, embedded pointers and unexported types are outside, code-generator supports none of them",
			"types reached only through fields without a JSON name, and types without ObjectMeta that ask for themselves, may have apply configurations or not",
			"apiVersion in constructors and one output package shared by several API packages are not checked",
		},
		Families: []*pbt.Family{
			{Name: "packages", Gen: genAC, Check: checkAC, Show: showAC, Batch: 24, Parallel: 1, Quick: 48, Thorough: 900, ShrinkBatch: 6},
		},
	})
}
