package props

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/pbt"
)

// ---- C19: the output rules themselves, as a generator calls them
//
// Each case is a history of Open/Write/Close calls on one rule, against a model of the files below the scratch directory.

type rcOpen struct {
	gen   int // -1: the generator no rule was given for
	pkg   int // -1: no package
	item  string
	parts []string
}

type rcCase struct {
	rule  string // dir, artifacts, none, pergen
	conf  string
	code  string
	pre   map[string]string // files there before
	dirs  []string
	opens []rcOpen
}

var rcItems = []string{"a.yaml", "b.go", "sub/c.yaml", "sub/deep/d.go", "odd name.txt", "./e.yaml", "sub/../f.yaml", ".hidden"}
var rcDirs = []string{"out", "out/x", "p0", "p0/sub", "new/dir", "p1"}

func genRuleCalls(s *pbt.Src) any {
	c := &rcCase{rule: pbt.Pick(s, "dir", "artifacts", "artifacts", "none", "pergen"), conf: pbt.Pick(s, rcDirs...), pre: map[string]string{}}
	if s.Bool() {
		c.code = pbt.Pick(s, rcDirs...)
	}
	for _, d := range []string{"p0", "p1", "out", "p0/sub", "p0/sub/deep", "new"} {
		if s.Chance(50) {
			c.dirs = append(c.dirs, d)
		}
	}
	for _, f := range []string{"out/a.yaml", "p0/a.yaml", "p0/sub/c.yaml", "p1/b.go", "new/dir/f.yaml", "out/x/sub/c.yaml"} {
		if s.Chance(25) {
			c.pre[f] = strings.Repeat("old ", 1+s.Intn(40))
		}
	}
	for n := 1 + s.Small(6); n > 0; n-- {
		o := rcOpen{gen: s.Intn(4) - 1, pkg: s.Intn(3) - 1, item: pbt.Pick(s, rcItems...)}
		for k := s.Small(3); k > 0; k-- {
			o.parts = append(o.parts, pbt.Pick(s, "x\n", "longer text\n", "", "---\n", strings.Repeat("y", 100)))
		}
		c.opens = append(c.opens, o)
	}
	return c
}

func showRuleCalls(a any) string {
	c := a.(*rcCase)
	b := &strings.Builder{}
	fmt.Fprintf(b, "rule %s config=%q code=%q dirs=%v\n", c.rule, c.conf, c.code, c.dirs)
	for _, f := range sortedKeys(c.pre) {
		fmt.Fprintf(b, "  before: %s (%d bytes)\n", f, len(c.pre[f]))
	}
	for _, o := range c.opens {
		fmt.Fprintf(b, "  Open(generator %d, package %d, %q) then write %q\n", o.gen, o.pkg, o.item, o.parts)
	}
	return b.String()
}

func checkRuleCalls(c *rcCase) pbt.Outcome {
	dir := Scratch("rc")
	defer Drop(dir)
	mk := func(d string) {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
	}
	isDir := map[string]bool{".": true}
	addDir := func(d string) {
		for d = filepath.Clean(d); d != "."; d = filepath.Dir(d) {
			isDir[d] = true
		}
	}
	for _, d := range c.dirs {
		mk(d)
		addDir(d)
	}
	want := map[string]string{}
	for f, t := range c.pre {
		mk(filepath.Dir(f))
		addDir(filepath.Dir(f))
		if err := os.WriteFile(filepath.Join(dir, f), []byte(t), 0o644); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		want[f] = t
	}
	// the package p1 has its files in two directories, as one with generated (cgo) files has: the first counts
	pkgs := []*loader.Package{
		{Package: &packages.Package{ID: "p0", CompiledGoFiles: []string{filepath.Join(dir, "p0", "z.go")}}},
		{Package: &packages.Package{ID: "p1", CompiledGoFiles: []string{filepath.Join(dir, "p1", "a.go"), filepath.Join(dir, "cache", "a.go")}}},
	}
	abs := func(d string) genall.OutputToDirectory {
		if d == "" {
			return ""
		}
		return genall.OutputToDirectory(filepath.Join(dir, d))
	}
	gens := make([]*genall.Generator, 4)
	names := []string{"crd", "x", "rbac"}
	byName := map[string]*genall.Generator{}
	for i := range gens {
		gens[i] = new(genall.Generator)
		if i < len(names) {
			byName[names[i]] = gens[i]
		}
	}
	var rules genall.OutputRules
	switch c.rule {
	case "dir":
		rules.Default = abs(c.conf)
	case "artifacts":
		rules.Default = genall.OutputArtifacts{Config: abs(c.conf), Code: abs(c.code)}
	case "none":
		rules.Default = genall.OutputToNothing
	case "pergen":
		rules = genall.DirectoryPerGenerator(string(abs(c.conf)), byName)
	}
	real := 0
	for _, o := range c.opens {
		gen := gens[3]
		conf, code := c.conf, c.code
		if o.gen >= 0 {
			gen = gens[o.gen]
		}
		if c.rule == "pergen" {
			code = ""
			if o.gen >= 0 {
				conf = filepath.Join(conf, names[o.gen])
			}
		}
		var pkg *loader.Package
		if o.pkg >= 0 {
			pkg = pkgs[o.pkg]
		}
		target, mkdirs := "", true
		switch {
		case c.rule == "none":
		case c.rule == "dir" || pkg == nil:
			target = filepath.Join(conf, o.item)
		case code != "":
			target = filepath.Join(code, o.item)
		default:
			// next to the package's files; the package's directory is made when it is not there, others are not
			target, mkdirs = filepath.Join(fmt.Sprintf("p%d", o.pkg), o.item), false
			addDir(fmt.Sprintf("p%d", o.pkg))
		}
		out, err := rules.ForGenerator(gen).Open(pkg, o.item)
		fails := target != "" && (isDir[target] || !mkdirs && !isDir[filepath.Dir(target)])
		if fails {
			if err == nil {
				out.Close()
				return pbt.Failf("no-error", "opening %q (%s) does not fail", o.item, target)
			}
			continue
		}
		if err != nil {
			return pbt.Failf("error", "opening %q for %s: %v", o.item, target, err)
		}
		text := strings.Join(o.parts, "")
		for _, p := range o.parts {
			if n, err := io.WriteString(out, p); err != nil || n != len(p) {
				return pbt.Failf("write", "writing %q: %d, %v", o.item, n, err)
			}
		}
		if err := out.Close(); err != nil {
			return pbt.Failf("close", "closing %q: %v", o.item, err)
		}
		if target != "" {
			want[target] = text
			addDir(filepath.Dir(target))
			real++
		}
	}
	got := treeOf(dir)
	for _, f := range sortedKeys(want) {
		if t, ok := got[f]; !ok {
			return pbt.Failf("missing", "%s is not there; there are %v", f, sortedKeys(got))
		} else if t != want[f] {
			return pbt.Failf("content", "%s has %q, want %q", f, t, want[f])
		}
	}
	for _, f := range sortedKeys(got) {
		if _, ok := want[f]; !ok {
			return pbt.Failf("extra", "%s was written and nothing asked for it", f)
		}
	}
	return pbt.OK(real >= 2)
}
