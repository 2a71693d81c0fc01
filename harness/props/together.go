package props

import (
	"bytes"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall"

	"verif/pbt"
	"verif/ws"
)

// ---- C27: several generators in one run, against each alone

type togetherCase struct {
	detCase
	pick []int // generators, in the order of the run
}

func genTogether(s *pbt.Src) any {
	c := &togetherCase{}
	var d *detCase
	switch s.PickW(4, 3, 2) {
	case 0:
		d = genDetKinds(s).(*detCase)
	case 1:
		d = genDetSchemas(s).(*detCase)
	default:
		d = &detCase{files: ws.Files{}}
		d.gens, d.opts = detGens(s)
	}
	if len(d.files) == 0 || s.Chance(50) {
		for k, v := range genDetManifests(s).(*detCase).files {
			d.files["m/"+k] = v
		}
		d.roots = nil
		d.dirs(s)
	}
	c.detCase = *d
	n := len(c.gens)
	c.pick = pbt.Shuffle(s, pbt.Subset(s, []int{0, 1, 2, 3}[:n], 80))
	if len(c.pick) < 2 {
		c.pick = s.Perm(n)
	}
	return c
}

func (c *togetherCase) show() string {
	out := c.files.Show() + fmt.Sprintf("options:%s roots: %v\ngenerators:", c.opts, c.roots)
	for _, i := range c.pick {
		out += fmt.Sprintf(" %T", c.gens[i])
	}
	return out + "\n"
}

func checkTogether(cases []any) []pbt.Outcome {
	dir := Scratch("tg")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*togetherCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	// every generator that runs alone has packages of its own
	var alone [4]*ws.Loaded
	for i := range alone {
		if alone[i], err = ws.Load(dir, "./..."); err != nil {
			panic(pbt.HarnessPanic("load: " + err.Error()))
		}
	}
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*togetherCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			roots := func(l *ws.Loaded) (out []*pkgT) {
				for _, r := range c.roots {
					out = append(out, l.ByPath[filepath.Join(ws.Mod, fmt.Sprintf("c%d", i), r)])
				}
				return out
			}
			want := map[string][]byte{}
			var bad []string
			makers, hurt := 0, ""
			var gens genall.Generators
			for _, k := range c.pick {
				g := c.gens[k]
				gens = append(gens, &g)
				r := ws.Run(g, roots(alone[k]))
				if r.Bad() {
					bad = append(bad, fmt.Sprintf("%T: %v", g, r.Errs))
					continue
				}
				if len(r.Files) > 0 {
					makers++
				}
				for n, b := range r.Files {
					want[n] = b
				}
			}
			o := &ws.MemOut{}
			failed, text := runRuntime(gens, roots(l), o, genall.InputFromFileSystem)
			if failed != (len(bad) > 0) {
				return pbt.Failf("success differs", "together: failed %v\n%s\nalone:\n%s", failed, text, strings.Join(bad, "\n"))
			}
			if failed {
				hurt = "fails"
				return pbt.OK(false, hurt)
			}
			if x, y := fmt.Sprint(detKeys(want)), fmt.Sprint(detKeys(o.Files)); x != y {
				return pbt.Failf("artifacts differ", "alone: %s\ntogether: %s", x, y)
			}
			for n := range want {
				if !bytes.Equal(want[n], o.Files[n]) {
					return pbt.Failf("contents differ", "%s is alone\n%s\nand together\n%s", n, want[n], o.Files[n])
				}
			}
			return pbt.OK(makers > 1, fmt.Sprintf("%d generators write", makers))
		})
	}
	return out
}

// ---- C28: running again over earlier output

type againCase struct {
	before, after *fCase
	extra         map[string]string // markers added to the packages, by directory
	args          []string
	gens          []string
}

// againSources makes packages without faults.
func againSources(s *pbt.Src, n int) *fCase {
	c := &fCase{files: ws.Files{}}
	g := &fGen{s: s, c: c, spent: map[string]bool{}}
	for i := range n {
		g.pkg = fmt.Sprintf("p%d", i)
		c.roots = append(c.roots, g.pkg)
		g.api(i, false)
	}
	for f, t := range c.files {
		t = strings.ReplaceAll(t, "// +groupName=", pbt.Pick(s, "", "// +kubebuilder:ac:generate=true\n")+"// +groupName=")
		lines := strings.Split(t, "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "// Kind") && !strings.Contains(l, "Spec") {
				lines[i] += pbt.Pick(s, "", "\n// +kubebuilder:object:root=true") + pbt.Pick(s, "", "\n// +kubebuilder:resource:shortName=x")
			}
		}
		c.files[f] = strings.Join(lines, "\n")
	}
	return c
}

func genAgain(s *pbt.Src) any {
	n := s.Range(1, 2)
	c := &againCase{before: againSources(s, n), after: againSources(s, n)}
	c.gens = pbt.Subset(s, []string{"crd", "rbac:roleName=r", "webhook", "object", "applyconfiguration"}, 65)
	if len(c.gens) == 0 {
		c.gens = []string{"object"}
	}
	c.args = append(c.args, c.gens...)
	for _, r := range c.after.roots {
		c.args = append(c.args, "paths=./"+r)
	}
	switch s.PickW(3, 2, 1) {
	case 1:
		c.args = append(c.args, "output:dir=out")
	case 2:
		for _, g := range c.gens {
			if g == "crd" {
				c.args = append(c.args, "output:crd:artifacts:config=crds")
			}
		}
	}
	return c
}

func (c *againCase) show() string {
	return "before:\n" + c.before.files.Show() + "after:\n" + c.after.files.Show() + "controller-gen " + strings.Join(c.args, " ") + "\n"
}

func checkAgain(c *againCase) pbt.Outcome {
	tree := func(srcs ...*fCase) (dir string, last cliRun, files []map[string]string) {
		dir = Scratch("ag")
		if err := ws.InitModule(dir, ws.Mod); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		for i, src := range srcs {
			if i > 0 {
				for f := range srcs[i-1].files {
					removeIn(dir, f)
				}
			}
			if err := ws.WriteFiles(dir, src.files); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			last = runCLI(dir, c.args...)
			files = append(files, treeOf(dir))
			if last.code != 0 {
				break
			}
		}
		return dir, last, files
	}
	clean, r, trees := tree(c.after)
	want := trees[0]
	defer Drop(clean)
	if r.code != 0 {
		return pbt.Failf("refused", "the run over a clean tree fails\n%s", firstLines(r.err, 12))
	}
	stale, r, trees := tree(c.before, c.after)
	defer Drop(stale)
	if r.code != 0 {
		return pbt.Failf("refused-again", "the run over earlier output fails\n%s", firstLines(r.err, 12))
	}
	first, got := trees[0], trees[1]
	for f := range got {
		if _, made := want[f]; !made && first[f] != got[f] {
			return pbt.Failf("left-over", "%s, which a clean tree does not get, is now\n%s\nand was\n%s", f, got[f], first[f])
		}
	}
	for f := range first {
		if _, left := got[f]; !left && c.before.files[f] == "" {
			return pbt.Failf("left-over", "%s was removed", f)
		}
	}
	var names []string
	for f := range want {
		names = append(names, f)
	}
	sort.Strings(names)
	made, differ := 0, 0
	for _, f := range names {
		g, has := got[f]
		if !has {
			return pbt.Failf("missing", "%s is not written over earlier output", f)
		}
		if g != want[f] {
			return pbt.Failf("differs", "%s is in a clean tree\n%s\nand over earlier output\n%s", f, want[f], g)
		}
		if c.after.files[f] == "" && !strings.HasPrefix(f, "go.") {
			made++
		}
	}
	// once more, nothing may change
	r = runCLI(stale, c.args...)
	if r.code != 0 {
		return pbt.Failf("refused-again", "the run over its own output fails\n%s", firstLines(r.err, 12))
	}
	third := treeOf(stale)
	if len(third) != len(got) {
		return pbt.Failf("unstable", "another run changes the files: %v\nversus %v", sortedKeys(got), sortedKeys(third))
	}
	for f := range got {
		if third[f] != got[f] {
			return pbt.Failf("unstable", "another run changes %s from\n%s\nto\n%s", f, got[f], third[f])
		}
	}
	if len(got) > len(want) {
		differ = 1
	}
	return pbt.OK(made > 0, fmt.Sprintf("left-over files: %v", differ > 0))
}

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "at least two of the generators write something",
		Assumptions: []string{
			"runs that fail are compared in that they fail",
		},
		Families: []*pbt.Family{{
			Name: "together", Gen: genTogether, Check: checkTogether, Show: func(a any) string { return a.(*togetherCase).show() },
			Batch: 60, Parallel: 3, Quick: 1500, Thorough: 40000, ShrinkBatch: 40,
		}},
	})
	register(&Prop{
		ID:   "C28",
		Rule: "something is generated",
		Assumptions: []string{
			"what earlier runs left and the new sources do not lead to (manifests of removed kinds) stays",
		},
		Families: []*pbt.Family{{
			Name: "again", Gen: genAgain, Check: pbt.Each(checkAgain), Show: func(a any) string { return a.(*againCase).show() },
			Batch: 1, Parallel: 8, Quick: 70, Thorough: 2500,
		}},
	})
}
