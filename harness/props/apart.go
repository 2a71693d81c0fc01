package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	admissionregv1 "k8s.io/api/admissionregistration/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/yaml"

	"verif/pbt"
	"verif/ws"
)

// ---- C31: several packages in one run, against each alone

// docsIn are the documents of a manifest.
func docsIn(b []byte) (out [][]byte) {
	for _, d := range strings.Split("\n"+string(b), "\n---\n") {
		if strings.TrimSpace(d) != "" {
			out = append(out, []byte(d))
		}
	}
	return out
}

func mustYAML(b []byte, into any) {
	if err := yaml.UnmarshalStrict(b, into); err != nil {
		panic(pbt.ToolPanic(fmt.Sprintf("%v in\n%s", err, b)))
	}
}

// parts are what a run says, by what it is about, in a form in which the
// parts of several packages add up.
func partsOf(gen any, r ws.Result) map[string]string {
	out := map[string]string{}
	put := func(k, v string) {
		if old, has := out[k]; has && old != v {
			v = old + "\n" + v
		}
		out[k] = v
	}
	for name, b := range r.Files {
		switch gen.(type) {
		case deepcopy.Generator:
			out[name] = string(b)
		case crd.Generator:
			for _, doc := range docsIn(b) {
				var d apiext.CustomResourceDefinition
				mustYAML(doc, &d)
				for _, v := range d.Spec.Versions {
					v.Storage = false // what is stored depends on the other versions
					put(fmt.Sprintf("%s %s %s", d.Spec.Group, d.Spec.Names.Kind, v.Name), jsonOf(v))
				}
			}
		case rbac.Generator:
			for _, doc := range docsIn(b) {
				var role rbacv1.Role // holds all a ClusterRole does
				mustYAML(doc, &role)
				grant := func(of ...string) {
					out[fmt.Sprintf("%s %q %q %q", role.Kind, role.Name, role.Namespace, of)] = "granted"
				}
				for _, rule := range role.Rules {
					for _, v := range rule.Verbs {
						for _, u := range rule.NonResourceURLs {
							grant("url", u, v)
						}
						for _, g := range rule.APIGroups {
							for _, r := range rule.Resources {
								if len(rule.ResourceNames) == 0 {
									grant("all", g, r, v)
								}
								for _, n := range rule.ResourceNames {
									grant("named", g, r, n, v)
								}
							}
						}
					}
				}
			}
		case webhook.Generator:
			for _, doc := range docsIn(b) {
				var kind struct {
					Kind     string
					Webhooks []any
				}
				if err := yaml.Unmarshal(doc, &kind); err != nil {
					panic(pbt.ToolPanic(err.Error()))
				}
				for _, w := range kind.Webhooks {
					out[kind.Kind+" "+jsonOf(w)] += "#"
				}
				if kind.Kind == "MutatingWebhookConfiguration" {
					mustYAML(doc, &admissionregv1.MutatingWebhookConfiguration{})
				}
			}
		}
	}
	return out
}

// allVerbs drops grants of one verb where all are granted.
func allVerbs(m map[string]string) {
	for k := range m {
		i := strings.LastIndex(k, " ")
		if _, all := m[k[:i]+` "*"]`]; all && k[i:] != ` "*"]` {
			delete(m, k)
		}
	}
}

func genApart(s *pbt.Src) any {
	c := &togetherCase{detCase: detCase{files: ws.Files{}}}
	c.gens, c.opts = detGens(s)
	c.pick = []int{s.PickW(10, 4, 3, 3)}
	add := func(below string, files ws.Files) {
		for k, v := range files {
			if below != "" {
				v = strings.ReplaceAll(strings.ReplaceAll(v, "\"CASE/", "\"CASE/"+below+"/"), "+groupName=", "+groupName="+below)
			}
			c.files[filepath.Join(below, k)] = "// +kubebuilder:object:generate=true\n" + v
		}
	}
	if c.pick[0] < 2 {
		if s.Chance(70) {
			add("", genManifests(s).(*crdCase).files)
		}
		if s.Chance(70) {
			add("n", genManifests(s).(*crdCase).files)
		}
		for i := range 2 {
			if len(c.files) < 2 || s.Chance(35) {
				add(fmt.Sprint("k", i), constraintCase(s, false).(*conCase).files)
			}
		}
	} else {
		for k, v := range genDetManifests(s).(*detCase).files {
			c.files["m/"+k] = v
		}
		if s.Chance(40) {
			for k, v := range genDetManifests(s).(*detCase).files {
				c.files["o/"+k] = v
			}
		}
	}
	c.dirs(s)
	return c
}

func checkApart(cases []any) []pbt.Outcome {
	dir := Scratch("ap")
	defer Drop(dir)
	var files []ws.Files
	for i, a := range cases {
		files = append(files, place(a.(*togetherCase).files, i))
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	alone, err := ws.Load(dir, "./...")
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*togetherCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			gen := c.gens[c.pick[0]]
			root := func(l *ws.Loaded, r string) *pkgT {
				return l.ByPath[filepath.Join(ws.Mod, fmt.Sprintf("c%d", i), r)]
			}
			want, failed, makers := map[string]string{}, 0, 0
			var all []*pkgT
			for _, r := range c.roots {
				one := ws.Run(gen, []*pkgT{root(alone, r)})
				if one.Bad() {
					failed++
					continue
				}
				all = append(all, root(l, r))
				p := partsOf(gen, one)
				if len(p) > 0 {
					makers++
				}
				for k, v := range p {
					if old, has := want[k]; has {
						if _, hooks := gen.(webhook.Generator); hooks {
							v += old
						} else if _, crds := gen.(crd.Generator); crds && old != v {
							return pbt.OK(false, "one version of a kind in two packages")
						}
					}
					want[k] = v
				}
			}
			r := ws.Run(gen, all)
			if r.Bad() {
				return pbt.OK(false, "fails together")
			}
			got := partsOf(gen, r)
			if _, is := gen.(rbac.Generator); is {
				allVerbs(want)
				allVerbs(got)
			}
			for _, k := range detKeysOf(want, got) {
				if want[k] != got[k] {
					return pbt.Failf("differs", "%s is of packages alone\n%s\nand together\n%s", k, want[k], got[k])
				}
			}
			return pbt.OK(makers > 1, fmt.Sprintf("%T", gen), fmt.Sprintf("%d packages write", min(makers, 4)), fmt.Sprintf("%d fail", min(failed, 2)))
		})
	}
	return out
}

func detKeysOf(ms ...map[string]string) (out []string) {
	seen := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}


func init() {
	register(&Prop{
		ID:   "C31",
		Rule: "at least two of the packages lead to something on their own",
		Assumptions: []string{
			"only runs that succeed are compared, with the packages that succeed alone; versions of a kind need a storage version together, but not alone",
		},
		Families: []*pbt.Family{{
			Name: "apart", Gen: genApart, Check: checkApart, Show: func(a any) string { return a.(*togetherCase).show() },
			Batch: 60, Parallel: 3, Quick: 1200, Thorough: 40000, ShrinkBatch: 40,
		}},
	})
}
