package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/pbt"
	"verif/ws"
)

// ---- C17: which packages a set of roots names

type lrFault struct {
	what string
	file string
	line int
	text string // expected in the report, besides the position
}

type lrPkg struct {
	dir      string // relative to the case, "." for its top
	name     string
	mod      *lrMod
	imports  []*lrPkg
	files    []string // those that count
	excluded bool     // every file is left out by its build constraints
	tests    bool     // only test files
	fault    *lrFault
}

func (p *lrPkg) id() string {
	rel, _ := filepath.Rel(p.mod.dir, p.dir)
	return path.Join(p.mod.path, filepath.ToSlash(rel))
}

type lrMod struct {
	dir   string
	path  string
	needs map[*lrMod]bool
}

func (m *lrMod) closure(seen map[*lrMod]bool) {
	if seen[m] {
		return
	}
	seen[m] = true
	for n := range m.needs {
		n.closure(seen)
	}
}

type lrRoot struct {
	text string // with @ for the absolute path of the case
	why  string // kind of root
	ids  []string
	may  []string // packages it may name as well
	fail string   // the root names nothing: what a report has to mention
	file string   // a file root, its directory
}

type lrCase struct {
	tags  []string // build tags given
	given bool
	src   ws.Files
	mods  []*lrMod
	pkgs  []*lrPkg
	dirs  []string // directories without packages
	cwd   string
	roots []*lrRoot
	cycle bool
	quote []int
}

func (c *lrCase) modOf(dir string) *lrMod {
	var best *lrMod
	for _, m := range c.mods {
		if m.dir == "." || dir == m.dir || strings.HasPrefix(dir, m.dir+"/") {
			if best == nil || len(m.dir) > len(best.dir) || best.dir == "." {
				best = m
			}
		}
	}
	return best
}

func lrIgnored(elem string) bool {
	return strings.HasPrefix(elem, "_") || strings.HasPrefix(elem, ".") || elem == "testdata"
}

// below lists the elements of dir under base, or false when it isn't there.
func below(base, dir string) ([]string, bool) {
	switch {
	case base == dir:
		return nil, true
	case base == ".":
		return strings.Split(dir, "/"), true
	case strings.HasPrefix(dir, base+"/"):
		return strings.Split(dir[len(base)+1:], "/"), true
	}
	return nil, false
}

// walked tells whether a walk from base gets to dir without entering ignored directories.
func walked(base, dir string) bool {
	elems, ok := below(base, dir)
	if !ok {
		return false
	}
	for _, e := range elems {
		if lrIgnored(e) {
			return false
		}
	}
	return true
}

func (p *lrPkg) listed() bool { return !p.excluded }

// under names the packages of base/..., over module borders.
func (c *lrCase) under(base string) (ids []string) {
	// a module is entered when a walk of the directories finds it, and then walked on its own
	for _, p := range c.pkgs {
		if !p.listed() {
			continue
		}
		if _, in := below(base, p.dir); !in {
			continue
		}
		start := base
		if p.mod != c.modOf(base) {
			start = p.mod.dir
			if _, in := below(base, start); !in {
				continue
			}
		}
		if walked(start, p.dir) {
			ids = append(ids, p.id())
		}
	}
	return ids
}

func lrGlob(pattern string) *regexp.Regexp {
	q := strings.ReplaceAll(regexp.QuoteMeta(pattern), `\.\.\.`, `.*`)
	if strings.HasSuffix(q, `/.*`) {
		q = strings.TrimSuffix(q, `/.*`) + `(/.*)?`
	}
	return regexp.MustCompile(`^` + q + `$`)
}

func genRoots(s *pbt.Src) any {
	c := &lrCase{src: ws.Files{}}
	if c.given = s.Chance(30); c.given {
		for _, t := range pbt.Shuffle(s, []string{"mine", "ignore_autogenerated", "more"}) {
			if s.Chance(40) {
				c.tags = append(c.tags, t)
			}
		}
	}
	// directories
	top := &lrMod{dir: ".", path: "ex.test/top", needs: map[*lrMod]bool{}}
	hasTop := !s.Chance(12)
	if hasTop {
		c.mods = append(c.mods, top)
	}
	dirs := []string{"."}
	elems := []string{"a", "b", "api", "v1", "v1beta1", "deep", "x-y", "apis", "a.b"}
	for i, n := 0, 2+s.Small(7); i < n; i++ {
		parent := dirs[s.Intn(len(dirs))]
		e := elems[s.Intn(len(elems))]
		if s.Chance(12) {
			e = pbt.Pick(s, "testdata", "_x", ".hid")
		}
		d := path.Join(parent, e)
		known := false
		for _, x := range dirs {
			known = known || x == d
		}
		if strings.Count(d, "/") > 3 || known {
			continue
		}
		dirs = append(dirs, d)
	}
	// modules
	for _, d := range dirs[1:] {
		pct := 20
		if !hasTop && !strings.Contains(d, "/") {
			pct = 100
		}
		skip := false
		for _, e := range strings.Split(d, "/") {
			// whether a module in a directory that Go ignores is entered is left open
			skip = skip || (lrIgnored(e) && c.modOf(d) != nil)
		}
		if skip || !s.Chance(pct) {
			continue
		}
		m := &lrMod{dir: d, needs: map[*lrMod]bool{}}
		if up := c.modOf(d); up != nil && s.Bool() {
			rel, _ := filepath.Rel(up.dir, d)
			m.path = path.Join(up.path, rel)
			if strings.Contains(m.path, "_x") || strings.Contains(m.path, "/.") || strings.HasSuffix(m.path, "/v1") {
				m.path = ""
			}
		}
		if m.path == "" {
			m.path = fmt.Sprintf("ex.test/n%d", len(c.mods))
		}
		c.mods = append(c.mods, m)
	}
	// packages
	for i, d := range dirs {
		m := c.modOf(d)
		if m == nil || s.Chance(15) {
			c.dirs = append(c.dirs, d)
			continue
		}
		p := &lrPkg{dir: d, name: fmt.Sprintf("p%d", i), mod: m}
		if bad := regexp.MustCompile(`(^|/)(\.|_)`).MatchString(p.id()); !bad {
			for _, q := range c.pkgs {
				if q.tests || q.excluded || !s.Chance(35) || regexp.MustCompile(`(^|/)(\.|_)`).MatchString(q.id()) {
					continue
				}
				if q.mod != m {
					// not both ways between two modules
					cl := map[*lrMod]bool{}
					q.mod.closure(cl)
					if cl[m] {
						continue
					}
					m.needs[q.mod] = true
				}
				p.imports = append(p.imports, q)
			}
		}
		if len(p.imports) == 0 {
			switch s.PickW(12, 1, 1) {
			case 1:
				p.tests = true
			case 2:
				p.excluded = true
			}
		}
		c.pkgs = append(c.pkgs, p)
	}
	if len(c.pkgs) == 0 {
		m := &lrMod{dir: "only", path: "ex.test/only", needs: map[*lrMod]bool{}}
		c.mods = append(c.mods, m)
		c.pkgs = append(c.pkgs, &lrPkg{dir: "only", name: "only", mod: m})
	}
	var loops [][2]*lrPkg
	if s.Chance(8) {
		for _, p := range c.pkgs {
			for _, q := range p.imports {
				if q.mod == p.mod && q.listed() {
					loops = append(loops, [2]*lrPkg{q, p})
				}
			}
		}
	}
	if len(loops) > 0 {
		l := loops[s.Intn(len(loops))]
		l[0].imports = append(l[0].imports, l[1])
		c.cycle = true
	}
	budget := 0
	if s.Chance(30) && !c.cycle {
		budget = 1 + s.Small(2)
	}
	for _, p := range c.pkgs {
		faulty := budget > 0 && s.Bool()
		if faulty {
			budget--
		}
		c.write(s, p, faulty)
	}
	for _, d := range c.dirs {
		c.src[path.Join(d, "README")] = "nothing to see\n"
	}
	for _, m := range c.mods {
		var b strings.Builder
		fmt.Fprintf(&b, "module %s\n\ngo 1.24\n", m.path)
		cl := map[*lrMod]bool{}
		m.closure(cl)
		for _, n := range c.mods {
			if cl[n] && n != m {
				rel, _ := filepath.Rel(m.dir, n.dir)
				if !strings.HasPrefix(rel, "../") {
					rel = "./" + rel
				}
				fmt.Fprintf(&b, "\nrequire %s v0.0.0\n\nreplace %s => %s\n", n.path, n.path, rel)
			}
		}
		c.src[path.Join(m.dir, "go.mod")] = b.String()
	}
	// where from, and which
	c.cwd = "."
	if s.Chance(40) {
		c.cwd = dirs[s.Intn(len(dirs))]
	}
	for i, n := 0, 1+s.Small(3); i < n; i++ {
		if r := c.root(s); r != nil {
			c.roots = append(c.roots, r)
		}
	}
	if len(c.roots) == 0 {
		p := c.pkgs[0]
		for _, q := range c.pkgs {
			if p.excluded {
				p = q
			}
		}
		c.roots = append(c.roots, c.dirRoot(p.dir, c.spell(s, p.dir)))
	}
	c.quote = []int{s.Intn(3), s.Intn(3)}
	return c
}

// tagged tells whether a build tag is set.
func (c *lrCase) tagged(t string) bool {
	if !c.given {
		return t == "ignore_autogenerated"
	}
	return slices.Contains(c.tags, t)
}

func (c *lrCase) write(s *pbt.Src, p *lrPkg, faulty bool) {
	n := 1 + s.Small(1)
	put := func(name, text string, counts bool) {
		c.src[path.Join(p.dir, name)] = text
		if counts {
			p.files = append(p.files, name)
		}
	}
	typ := func(n int) string { return fmt.Sprintf("T%d", n) }
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.go", i)
		var lines []string
		add := func(format string, args ...any) {
			lines = append(lines, strings.Split(fmt.Sprintf(format, args...), "\n")...)
		}
		if p.excluded {
			none := []string{"ignore", "someday"}
			for _, t := range []string{"ignore_autogenerated", "mine"} {
				if c.tagged(t) {
					none = append(none, "!"+t)
				} else {
					none = append(none, t)
				}
			}
			add("//go:build %s\n", pbt.Pick(s, none...))
		}
		if i == 0 {
			add("// +kubebuilder:object:generate=true")
		}
		add("package %s\n", p.name)
		fault := ""
		if faulty && i == n-1 && !p.excluded && !p.tests {
			fault = pbt.Pick(s, "syntax", "import", "type", "clause")
		}
		var refs []*lrPkg
		if i == 0 {
			refs = p.imports
		}
		if len(refs) > 0 || fault == "import" {
			add("import (")
			for _, q := range refs {
				add("\t%s%q", pbt.Pick(s, "", q.name+" "), q.id())
			}
			if fault == "import" {
				add("\tnosuch \"%s/nosuch/%s\"", p.mod.path, p.name)
				p.fault = &lrFault{what: "missing import", line: len(lines), text: "nosuch"}
			}
			add(")\n")
		}
		add("type %s struct {", typ(i))
		for j, q := range refs {
			add("\tF%d *%s.T0 `json:\"f%d\"`", j, q.name, j)
		}
		add("\tA []int `json:\"a\"`")
		switch fault {
		case "import":
			add("\tX *nosuch.T `json:\"x\"`")
		case "type":
			add("\tX *Nope `json:\"x\"`")
			p.fault = &lrFault{what: "undefined type", line: len(lines), text: "Nope"}
		case "syntax":
			add("\tX *) `json:\"x\"`")
			p.fault = &lrFault{what: "syntax error", line: len(lines)}
		}
		add("}\n")
		if p.fault != nil && p.fault.file == "" {
			p.fault.file = name
		}
		if p.tests {
			name = fmt.Sprintf("f%d_test.go", i)
		}
		put(name, strings.Join(lines, "\n"), !p.excluded && !p.tests)
		if fault == "clause" {
			put("other.go", "package other\n", false)
			p.fault = &lrFault{what: "two packages in a directory", text: "found packages"}
		}
	}
	if p.excluded {
		return
	}
	// files that don't count, or not always
	if s.Chance(25) && !(p.tests && c.given) {
		put("zz_generated.other.go", fmt.Sprintf("//go:build !ignore_autogenerated\n\npackage %s\n\nfunc (T0) X() {}\n", p.name), !c.tagged("ignore_autogenerated"))
	}
	if s.Chance(25) && !p.tests {
		neg := s.Bool()
		put("mine.go", fmt.Sprintf("//go:build %smine\n\npackage %s\n\ntype Mine struct{}\n", map[bool]string{true: "!"}[neg], p.name), c.tagged("mine") != neg)
	}
	if s.Chance(15) {
		put("more_test.go", fmt.Sprintf("package %s%s\n\nvar Broken int = \"\"\n", p.name, pbt.Pick(s, "", "_test")), false)
	}
	if s.Chance(15) {
		put("f_windows.go", fmt.Sprintf("package %s\n\nvar Broken int = \"\"\n", p.name), false)
	}
	if s.Chance(10) {
		put("gen.go", "//go:build ignore\n\npackage main\n\nvar Broken int = \"\"\n", false)
	}
	if s.Chance(10) {
		put("_old.go", "package old\n", false)
	}
}

// spell writes a directory as a root.
func (c *lrCase) spell(s *pbt.Src, d string) string {
	if s.Chance(20) {
		return path.Join("@", d)
	}
	rel, _ := filepath.Rel(c.cwd, d)
	if !strings.HasPrefix(rel, ".") || s.Chance(20) {
		rel = "./" + rel
	}
	switch s.Intn(8) {
	case 1:
		rel += "/"
	case 2:
		rel += "/."
	case 3:
		rel = "./" + rel
	case 4:
		if d != "." && path.Base(d) != ".." {
			rel += "/../" + path.Base(d)
		}
	case 5:
		rel = strings.Replace(rel, "/", "//", 1)
	}
	return rel
}

func (c *lrCase) pkgAt(d string) *lrPkg {
	for _, p := range c.pkgs {
		if p.dir == d {
			return p
		}
	}
	return nil
}

func (c *lrCase) dirRoot(d, text string) *lrRoot {
	r := &lrRoot{text: text, why: "directory"}
	p := c.pkgAt(d)
	switch {
	case p == nil:
		r.fail = "no Go files"
		if c.modOf(d) == nil {
			r.fail = "go.mod"
		}
	case p.excluded:
		r.fail = "build constraints"
	default:
		r.ids = []string{p.id()}
	}
	return r
}

func (c *lrCase) failing() bool {
	for _, r := range c.roots {
		if r.fail != "" {
			return true
		}
	}
	return false
}

func (c *lrCase) root(s *pbt.Src) *lrRoot {
	var dirs []string
	for _, p := range c.pkgs {
		dirs = append(dirs, p.dir)
	}
	dirs = append(dirs, c.dirs...)
	switch s.PickW(5, 5, 3, 2, 2, 1) {
	case 0: // a directory
		d := dirs[s.Intn(len(dirs))]
		r := c.dirRoot(d, c.spell(s, d))
		if r.fail != "" && (c.failing() || !s.Chance(20)) {
			return nil
		}
		return r
	case 1: // everything below one
		d := dirs[s.Intn(len(dirs))]
		if c.modOf(d) == nil {
			return nil
		}
		return &lrRoot{text: strings.TrimSuffix(c.spell(s, d), "/") + "/...", why: "tree", ids: c.under(d)}
	case 2: // by name
		m := c.modOf(c.cwd)
		if m == nil {
			return nil
		}
		cl := map[*lrMod]bool{}
		m.closure(cl)
		p := c.pkgs[s.Intn(len(c.pkgs))]
		if !cl[p.mod] || regexp.MustCompile(`(^|/)(\.|_)`).MatchString(p.id()) || p.excluded {
			return nil
		}
		if s.Bool() {
			return &lrRoot{text: p.id(), why: "name", ids: []string{p.id()}}
		}
		r := &lrRoot{text: p.id() + "/...", why: "names"}
		rx := lrGlob(r.text)
		for _, q := range c.pkgs {
			if cl[q.mod] && q.listed() && rx.MatchString(q.id()) && walked(q.mod.dir, q.dir) {
				r.ids = append(r.ids, q.id())
			}
		}
		return r
	case 3: // a wildcard elsewhere
		p := c.pkgs[s.Intn(len(c.pkgs))]
		base := c.mods[s.Intn(len(c.mods))].dir
		el, in := below(base, p.dir)
		if !in || len(el) == 0 {
			return nil
		}
		i := s.Intn(len(el))
		pat := append([]string(nil), el[:i]...)
		if s.Bool() {
			pat = append(pat, pbt.Pick(s, "...", el[i][:1]+"..."), el[len(el)-1])
			if i == len(el)-1 {
				pat[len(pat)-1] += "..."
			}
		} else {
			pat = append(pat, el[i][:1+s.Intn(len(el[i]))]+"...")
		}
		full := path.Join(base, strings.Join(pat, "/"))
		if path.Base(full) == "..." || strings.Contains(strings.ReplaceAll(full, "...", ""), "..") {
			return nil
		}
		head := full[:strings.Index(full, "...")]
		walk := path.Dir(head + "x")
		if _, in := below(base, walk); !in || c.modOf(walk) == nil {
			return nil
		}
		rel := c.relTo(full)
		r := &lrRoot{text: rel, why: "wildcard"}
		rx := lrGlob(full)
		for _, q := range c.pkgs {
			if !q.listed() || !walked(walk, q.dir) || !rx.MatchString(q.dir) {
				continue
			}
			if q.mod == c.modOf(walk) {
				r.ids = append(r.ids, q.id())
			} else {
				r.may = append(r.may, q.id())
			}
		}
		return r
	case 4: // a file
		p := c.pkgs[s.Intn(len(c.pkgs))]
		if len(p.files) != 1 || p.fault != nil || c.cycle {
			return nil
		}
		for _, r := range c.roots {
			if r.file == p.dir {
				return nil
			}
		}
		return &lrRoot{text: c.relTo(path.Join(p.dir, p.files[0])), why: "file", file: p.dir}
	default: // nothing there
		if c.failing() {
			return nil
		}
		return &lrRoot{text: pbt.Pick(s, "./nothere", "./nothere/...", "ex.test/top/nothere", "./nothere.go"), why: "nothing", fail: "nothere"}
	}
}

func (c *lrCase) relTo(full string) string {
	rel, _ := filepath.Rel(c.cwd, full)
	if !strings.HasPrefix(rel, ".") {
		rel = "./" + rel
	}
	return rel
}

func showRoots(a any) string {
	c := a.(*lrCase)
	var b strings.Builder
	fmt.Fprintf(&b, "in %s:", c.cwd)
	for _, r := range c.roots {
		fmt.Fprintf(&b, " %s", r.text)
	}
	if c.given {
		fmt.Fprintf(&b, " tags %v", c.tags)
	}
	b.WriteString("\n")
	for _, r := range c.roots {
		fmt.Fprintf(&b, "  %s (%s): %v %s\n", r.text, r.why, r.ids, r.fail)
	}
	return b.String() + c.src.Show()
}

func (c *lrCase) want() (must, may map[string]bool, files map[string]bool, fail string) {
	must, may, files = map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range c.roots {
		for _, id := range r.ids {
			must[id] = true
		}
		for _, id := range r.may {
			may[id] = true
		}
		if r.file != "" {
			files[r.file] = true
		}
		if r.fail != "" {
			fail = r.fail
		}
	}
	return
}

func (c *lrCase) byID(id string) *lrPkg {
	for _, p := range c.pkgs {
		if p.id() == id {
			return p
		}
	}
	return nil
}

func allErrors(roots []*loader.Package) (out []packages.Error) {
	var raw []*packages.Package
	seen := map[*loader.Package]bool{}
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		raw = append(raw, p.Package)
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	packages.Visit(raw, nil, func(p *packages.Package) { out = append(out, p.Errors...) })
	return out
}

func reported(errs []packages.Error, f *lrFault, dir string) bool {
	for _, e := range errs {
		text := e.Error()
		if f.file == "" {
			if strings.Contains(text, f.text) && strings.Contains(text, dir) {
				return true
			}
			continue
		}
		if strings.Contains(text, fmt.Sprintf("%s:%d", f.file, f.line)) && strings.Contains(text, f.text) {
			return true
		}
	}
	return false
}

func (c *lrCase) judge(dir string) pbt.Outcome {
	cwd := filepath.Join(dir, c.cwd)
	if c.quote[0] > 0 && !slices.ContainsFunc(c.roots, func(r *lrRoot) bool { return !strings.HasPrefix(r.text, "@") }) {
		cwd = "" // none of the roots asks where from
	}
	cfg := &packages.Config{Dir: cwd}
	if c.given {
		cfg.BuildFlags = []string{"-tags=" + strings.Join(c.tags, ",")}
	}
	var roots []string
	for _, r := range c.roots {
		roots = append(roots, strings.Replace(r.text, "@", dir, 1))
	}
	pkgs, err := loader.LoadRootsWithConfig(cfg, roots...)
	must, may, files, fail := c.want()
	if cfg.Dir != cwd {
		return pbt.Failf("directory", "the configuration's directory is %s after loading, was %s", cfg.Dir, cwd)
	}
	if err != nil {
		if fail == "" {
			return pbt.Failf("load-error", "loading failed: %v", err)
		}
		return pbt.OK(true, "fails")
	}
	if fail != "" {
		for _, e := range allErrors(pkgs) {
			if strings.Contains(e.Error(), fail) {
				return pbt.OK(true, "fails")
			}
		}
		return pbt.Failf("unreported", "nothing says that a root names no package (%s); errors %v", fail, allErrors(pkgs))
	}
	byID := map[string]*loader.Package{}
	for _, p := range pkgs {
		rel := "?"
		if len(p.CompiledGoFiles) > 0 {
			rel, _ = filepath.Rel(dir, filepath.Dir(p.CompiledGoFiles[0]))
		}
		if p.ID == "command-line-arguments" {
			if !files[rel] {
				return pbt.Failf("files", "a package of files in %s that no root names", rel)
			}
			delete(files, rel)
			m := c.pkgAt(rel)
			if len(p.CompiledGoFiles) != 1 || filepath.Base(p.CompiledGoFiles[0]) != m.files[0] {
				return pbt.Failf("files", "file root in %s loads %v", rel, p.CompiledGoFiles)
			}
			continue
		}
		if byID[p.ID] != nil {
			return pbt.Failf("twice", "package %s is loaded twice", p.ID)
		}
		byID[p.ID] = p
		if !must[p.ID] && !may[p.ID] {
			return pbt.Failf("extra", "package %s isn't named by any root (errors %v)", p.ID, p.Errors)
		}
		m := c.byID(p.ID)
		if m.fault == nil && !c.cycle {
			var got []string
			for _, f := range p.CompiledGoFiles {
				r, _ := filepath.Rel(dir, f)
				got = append(got, r)
			}
			var want []string
			for _, f := range m.files {
				want = append(want, path.Join(m.dir, f))
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return pbt.Failf("package-files", "package %s consists of %v, expected %v", p.ID, got, want)
			}
		}
	}
	for id := range must {
		if byID[id] == nil {
			return pbt.Failf("missing", "package %s isn't loaded; loaded %v", id, sortedKeys(byID))
		}
	}
	if len(files) > 0 {
		return pbt.Failf("missing", "no package for the file named in %v", sortedKeys(files))
	}
	// one identity, however reached
	if out := c.identity(pkgs, byID); out.Fail != "" {
		return out
	}
	// checking ends, and reports what is wrong where
	done := make(chan struct{})
	go func() {
		defer close(done)
		tc := &loader.TypeChecker{}
		for _, p := range pkgs {
			tc.Check(p)
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		return pbt.Failf("hang", "checking the packages doesn't end")
	}
	errs := allErrors(pkgs)
	if c.cycle {
		// only what the roots reach matters
		for _, p := range pkgs {
			if p.ID == "command-line-arguments" {
				return pbt.OK(true, "cycle")
			}
		}
		if c.reachesCycle(byID) {
			for _, e := range errs {
				if strings.Contains(e.Error(), "import cycle") {
					return pbt.OK(true, "cycle")
				}
			}
			return pbt.Failf("cycle-unreported", "no error tells of the import cycle: %v", errs)
		}
		return pbt.OK(false, "cycle")
	}
	faults := 0
	reach := map[*lrPkg]bool{}
	var visit func(p *lrPkg)
	visit = func(p *lrPkg) {
		if reach[p] {
			return
		}
		reach[p] = true
		for _, q := range p.imports {
			visit(q)
		}
	}
	for id := range byID {
		m := c.byID(id)
		visit(m)
		if m.fault == nil {
			continue
		}
		faults++
		if !reported(errs, m.fault, m.dir) {
			return pbt.Failf("fault-unreported", "%s in %s (%s:%d) isn't among the errors: %v", m.fault.what, id, m.fault.file, m.fault.line, errs)
		}
	}
	for _, r := range c.roots {
		if r.file != "" {
			visit(c.pkgAt(r.file))
		}
	}
	any := false
	for p := range reach {
		any = any || p.fault != nil
	}
	if !any {
		if len(errs) > 0 {
			return pbt.Failf("spurious-error", "errors without a fault: %v", errs)
		}
		for _, p := range pkgs {
			if p.Types == nil || !p.Types.Complete() {
				return pbt.Failf("unchecked", "package %s has no types after a check", p.ID)
			}
		}
	}
	labels := []string{}
	for _, r := range c.roots {
		labels = append(labels, r.why)
	}
	if faults > 0 {
		labels = append(labels, "faults")
	}
	return pbt.OK(len(byID) > 1 || faults > 0 || len(c.roots) > 1, labels...)
}

func (c *lrCase) reachesCycle(byID map[string]*loader.Package) bool {
	seen := map[*lrPkg]int{}
	found := false
	var visit func(p *lrPkg)
	visit = func(p *lrPkg) {
		if seen[p] == 1 {
			found = true
		}
		if seen[p] != 0 {
			return
		}
		seen[p] = 1
		for _, q := range p.imports {
			visit(q)
		}
		seen[p] = 2
	}
	for id := range byID {
		visit(c.byID(id))
	}
	return found
}

func (c *lrCase) identity(pkgs []*loader.Package, byID map[string]*loader.Package) pbt.Outcome {
	single := len(c.roots) == 1 && (c.roots[0].why == "directory" || c.roots[0].why == "name" || c.roots[0].why == "names" || len(c.mods) == 1)
	first := map[string]*loader.Package{}
	seen := map[*loader.Package]bool{}
	var bad pbt.Outcome
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if seen[p] || bad.Fail != "" {
			return
		}
		seen[p] = true
		if m := c.byID(p.ID); m != nil && m.fault == nil && !c.cycle {
			for _, q := range m.imports {
				if p.Imports()[q.id()] == nil {
					bad = pbt.Failf("imports", "package %s has no import %s", p.ID, q.id())
					return
				}
			}
		}
		for name, q := range p.Imports() {
			if q.PkgPath != name && !c.cycle && q.PkgPath != "" {
				bad = pbt.Failf("imports", "import %s of %s is %s", name, p.ID, q.PkgPath)
				return
			}
			if root := byID[q.ID]; root != nil && root != q && !c.cycle {
				bad = pbt.Failf("identity", "the %s that %s imports isn't the root", q.ID, p.ID)
				return
			}
			if single {
				if first[q.ID] == nil {
					first[q.ID] = q
				}
				if first[q.ID] != q {
					bad = pbt.Failf("identity", "two packages %s", q.ID)
					return
				}
			}
			visit(q)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	return bad
}

func checkRoots(cases []any) []pbt.Outcome { return eachDir("roots", cases, (*lrCase).judge) }

func eachDir(name string, cases []any, judge func(c *lrCase, dir string) pbt.Outcome) []pbt.Outcome {
	top := Scratch(name)
	defer Drop(top)
	outs := make([]pbt.Outcome, len(cases))
	var wg sync.WaitGroup
	for i, a := range cases {
		c := a.(*lrCase)
		dir := filepath.Join(top, fmt.Sprintf("c%d", i))
		if err := ws.WriteFiles(dir, c.src); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = pbt.Guard(func() pbt.Outcome { return judge(c, dir) })
		}()
	}
	wg.Wait()
	return outs
}

// tool runs controller-gen object and looks at which packages got a file.
func (c *lrCase) tool(dir string) pbt.Outcome {
	must, may, files, fail := c.want()
	args := []string{"object"}
	var all []string
	for _, r := range c.roots {
		t := strings.Replace(r.text, "@", dir, 1)
		if c.quote[1] == 1 {
			t = "`" + t + "`"
		}
		all = append(all, t)
	}
	switch c.quote[0] {
	case 0:
		args = append(args, "paths="+strings.Join(all, ";"))
	case 1:
		args = append(args, "paths={"+strings.Join(all, ",")+"}")
	default:
		for _, t := range all {
			args = append(args, "paths="+t)
		}
	}
	if c.given {
		args = append(args, "--load-build-tags="+strings.Join(c.tags, ","))
	}
	r := runCLI(filepath.Join(dir, c.cwd), args...)
	if fail != "" {
		if r.code == 0 {
			return pbt.Failf("tool-unreported", "%v succeeds though a root names no package (%s)\n%s", args, fail, r.err)
		}
		return pbt.OK(true, "fails")
	}
	var reach func(p *lrPkg) bool
	seen := map[*lrPkg]bool{}
	reach = func(p *lrPkg) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		bad := p.fault != nil
		for _, q := range p.imports {
			bad = reach(q) || bad
		}
		return bad
	}
	bad := false
	dirs := map[string]bool{}
	for id := range must {
		p := c.byID(id)
		bad = reach(p) || bad
		dirs[p.dir] = len(p.files) > 0
	}
	for id := range may {
		bad = reach(c.byID(id)) || bad
	}
	for d := range files {
		bad = reach(c.pkgAt(d)) || bad
		dirs[d] = true
	}
	if bad || c.cycle {
		return pbt.OK(false, "faults")
	}
	if r.code != 0 {
		return pbt.Failf("tool-fails", "%v fails: %s", args, r.err)
	}
	for _, p := range c.pkgs {
		_, err := os.Stat(filepath.Join(dir, p.dir, "zz_generated.deepcopy.go"))
		if got := err == nil; got != dirs[p.dir] && !may[p.id()] {
			return pbt.Failf("tool-packages", "%v: package %s generated: %v, expected %v", args, p.id(), got, dirs[p.dir])
		}
	}
	labels := []string{}
	for _, r := range c.roots {
		labels = append(labels, r.why)
	}
	return pbt.OK(len(must) > 0, labels...)
}

func checkRootsTool(cases []any) []pbt.Outcome { return eachDir("rootstool", cases, (*lrCase).tool) }

func init() {
	register(&Prop{
		ID:   "C17",
		Rule: "more than one package or root, or a fault in a package",
		Assumptions: []string{
			"modules in directories that Go's patterns leave out (testdata, _x, .x, vendor) are not generated: whether `...` enters them is left open",
			"packages that are no roots are one per load only: modules may pin different versions of them",
		},
		Families: []*pbt.Family{
			{Name: "roots", Gen: genRoots, Check: checkRoots, Show: showRoots, Batch: 4, Parallel: 3, Quick: 2500, Thorough: 40000, ShrinkBatch: 12},
			{Name: "tool", Gen: genRoots, Check: checkRootsTool, Show: showRoots, Batch: 4, Parallel: 3, Quick: 900, Thorough: 15000, ShrinkBatch: 12},
		},
	})
}
