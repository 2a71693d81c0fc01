package props

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/yaml"

	"verif/pbt"
	"verif/ws"
)

type rbacMarker struct {
	Groups, Resources, Names, Verbs, URLs []string
	NS                                    string
	text                                  string // as written
	place                                 int
}

type rbacCase struct {
	pkgs  [][]rbacMarker // markers per package
	alt   [][]rbacMarker // the same markers, distributed and ordered differently
	order []int          // root order of the alternative run
	role  string
}

var bareOK = func(s string) bool {
	if s == "" || s == "true" || s == "false" {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '.' || r == '-') {
			return false
		}
	}
	return s[0] != '-' && s[0] != '.'
}

// renderStr writes a marker string: quoted, raw-quoted or (when possible) bare.
func renderStr(s *pbt.Src, v string) string {
	if bareOK(v) && s.Chance(60) {
		return v
	}
	if s.Chance(20) && !strings.ContainsAny(v, "`\r") {
		return "`" + v + "`"
	}
	return strconv.Quote(v)
}

// renderList writes a marker list in one of its two forms.
func renderList(s *pbt.Src, vs []string) string {
	var parts []string
	for _, v := range vs {
		parts = append(parts, renderStr(s, v))
	}
	if len(vs) == 0 || s.Chance(40) {
		sep := pbt.Pick(s, ",", ", ")
		return "{" + strings.Join(parts, sep) + "}"
	}
	return strings.Join(parts, ";")
}

func genRBACMarker(s *pbt.Src, prev []rbacMarker) rbacMarker {
	groups := []string{"", "core", "apps", "batch", "x.example.com", "*", "apps&batch"}
	resources := []string{"pods", "deployments", "jobs", "pods/status", "*", "*/scale", "pods&jobs"}
	names := []string{"n1", "n2", "", "n1&n2", "a + b"}
	verbs := []string{"get", "list", "watch", "create", "*", "update", "get*", "**", "Get", "all"}
	urls := []string{"/healthz", "/metrics", "/a&b", "/api/*", "*"}
	pick := func(pool []string, max int) []string {
		n := 1 + s.Small(max-1)
		var out []string
		for i := 0; i < n; i++ {
			// early entries of the pool are likelier, so that markers overlap
			out = append(out, pool[min(s.Intn(len(pool)), s.Intn(len(pool)))])
		}
		return out
	}
	var m rbacMarker
	if s.Chance(88) {
		m.Groups = pick(groups, 3)
	}
	if s.Chance(88) {
		m.Resources = pick(resources, 3)
	}
	if s.Chance(20) {
		m.Names = pick(names, 2)
	}
	m.Verbs = pick(verbs, 3)
	if s.Chance(20) {
		m.URLs = pick(urls, 2)
	}
	if s.Chance(25) {
		m.NS = pbt.Pick(s, "ns1", "ns2", "kube-system", "default", "NS1", "a.b")
	}
	if len(prev) > 0 && s.Chance(55) {
		// a neighbour of an earlier marker: the same in all but one dimension
		n := m
		m = prev[s.Intn(len(prev))]
		switch s.Intn(6) {
		case 0:
			m.Groups = n.Groups
		case 1:
			m.Resources = n.Resources
		case 2:
			m.Verbs = n.Verbs
		case 3:
			m.URLs = n.URLs
		case 4:
			m.Names = n.Names
		case 5:
			m.Groups, m.Verbs = n.Groups, n.Verbs
		}
	}
	type arg struct{ k, v string }
	var args []arg
	if m.Groups != nil {
		args = append(args, arg{"groups", renderList(s, m.Groups)})
	}
	if m.Resources != nil {
		args = append(args, arg{"resources", renderList(s, m.Resources)})
	}
	if m.Names != nil {
		args = append(args, arg{"resourceNames", renderList(s, m.Names)})
	}
	args = append(args, arg{"verbs", renderList(s, m.Verbs)})
	if m.URLs != nil {
		args = append(args, arg{"urls", renderList(s, m.URLs)})
	}
	if m.NS != "" {
		args = append(args, arg{"namespace", renderStr(s, m.NS)})
	}
	args = pbt.Shuffle(s, args)
	var parts []string
	for _, a := range args {
		parts = append(parts, a.k+"="+a.v)
	}
	m.text = "+kubebuilder:rbac:" + strings.Join(parts, ",")
	m.place = s.Intn(4)
	return m
}

func genRBACCase(s *pbt.Src) any {
	c := &rbacCase{role: pbt.Pick(s, "manager-role", "r", "my-operator")}
	np := 1 + s.Small(2)
	var all []rbacMarker
	for i := 0; i < np; i++ {
		var ms []rbacMarker
		n := s.Small(9)
		if i == 0 && n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			m := genRBACMarker(s, all)
			ms = append(ms, m)
			all = append(all, m)
		}
		c.pkgs = append(c.pkgs, ms)
	}
	np2 := 1 + s.Small(2)
	c.alt = make([][]rbacMarker, np2)
	for _, i := range s.Perm(len(all)) {
		p := s.Intn(np2)
		m := all[i]
		m.place = s.Intn(4)
		c.alt[p] = append(c.alt[p], m)
	}
	c.order = s.Perm(np2)
	return c
}

func rbacFiles(pkgs [][]rbacMarker, sub string) ws.Files {
	f := ws.Files{}
	for i, ms := range pkgs {
		var doc, free, fn, tail strings.Builder
		for _, m := range ms {
			switch m.place {
			case 0:
				fmt.Fprintf(&free, "// %s\n", m.text)
			case 1:
				fmt.Fprintf(&fn, "// %s\n", m.text)
			case 3:
				fmt.Fprintf(&tail, "\n// %s\n", m.text)
			case 2:
				fmt.Fprintf(&doc, "//%s\n", m.text)
			}
		}
		f[fmt.Sprintf("%s/p%d/p.go", sub, i)] = fmt.Sprintf("%spackage p%d\n\n%s\n// T is a type.\ntype T struct{}\n\n%s\n// R does things.\nfunc R() {}\n%s", doc.String(), i, free.String(), fn.String(), tail.String())
	}
	return f
}

func showRBAC(a any) string {
	c := a.(*rbacCase)
	var b strings.Builder
	for i, ms := range c.pkgs {
		fmt.Fprintf(&b, "package p%d:\n", i)
		for _, m := range ms {
			fmt.Fprintf(&b, "  // %s\n", m.text)
		}
	}
	return b.String()
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func resourceMatch(rs []string, r string) bool {
	for _, x := range rs {
		if x == "*" || x == r {
			return true
		}
		if strings.HasPrefix(x, "*/") && strings.HasSuffix(r, x[1:]) && strings.Count(r, "/") == 1 {
			return true
		}
	}
	return false
}

func urlMatch(us []string, u string) bool {
	for _, x := range us {
		if x == "*" || x == u || strings.HasSuffix(x, "*") && strings.HasPrefix(u, strings.TrimSuffix(x, "*")) {
			return true
		}
	}
	return false
}

func allowsRes(r rbacv1.PolicyRule, verb, group, res, name string) bool {
	return (has(r.Verbs, verb) || has(r.Verbs, "*")) && (has(r.APIGroups, group) || has(r.APIGroups, "*")) &&
		resourceMatch(r.Resources, res) && (len(r.ResourceNames) == 0 || has(r.ResourceNames, name))
}

func allowsURL(r rbacv1.PolicyRule, verb, url string) bool {
	return (has(r.Verbs, verb) || has(r.Verbs, "*")) && urlMatch(r.NonResourceURLs, url)
}

// markerRules is what the markers ask for, per namespace, straight from the documentation.
func markerRules(pkgs [][]rbacMarker) map[string][]rbacv1.PolicyRule {
	out := map[string][]rbacv1.PolicyRule{}
	for _, ms := range pkgs {
		for _, m := range ms {
			var g []string
			for _, x := range m.Groups {
				if x == "core" {
					x = ""
				}
				g = append(g, x)
			}
			out[m.NS] = append(out[m.NS], rbacv1.PolicyRule{APIGroups: g, Resources: m.Resources, ResourceNames: m.Names, Verbs: m.Verbs, NonResourceURLs: m.URLs})
		}
	}
	return out
}

type roleDoc struct {
	Kind     string `json:"kind"`
	API      string `json:"apiVersion"`
	Metadata struct {
		Name      string `json:"name"`
		Namespace string `json:"namespace"`
	} `json:"metadata"`
	Rules []rbacv1.PolicyRule `json:"rules"`
}

// splitDocs splits a generated manifest at its document markers.
func splitDocs(b []byte) [][]byte {
	var out [][]byte
	for i, d := range bytes.Split(append([]byte("\n"), b...), []byte("\n---\n")) {
		if i == 0 {
			continue // the header
		}
		out = append(out, d)
	}
	return out
}

func parseRoles(b []byte) ([]roleDoc, error) {
	var out []roleDoc
	for _, d := range splitDocs(b) {
		var r roleDoc
		if err := yaml.UnmarshalStrict(d, &r); err != nil {
			return nil, err
		}
		out = append(out, r)
	}
	return out, nil
}

func uniq(xs ...[]string) []string {
	m := map[string]bool{}
	for _, l := range xs {
		for _, x := range l {
			m[x] = true
		}
	}
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func rbacUniverse(c *rbacCase) (verbs, groups, resources, names, urls []string) {
	for _, ms := range c.pkgs {
		for _, m := range ms {
			verbs = uniq(verbs, m.Verbs)
			groups = uniq(groups, m.Groups)
			resources = uniq(resources, m.Resources)
			names = uniq(names, m.Names)
			urls = uniq(urls, m.URLs)
		}
	}
	groups = uniq(groups, []string{"", "zz.other"})
	verbs = uniq(verbs, []string{"zzverb"})
	resources = uniq(resources, []string{"zzres", "zzres/scale"})
	names = uniq(names, []string{"", "zzname"})
	urls = uniq(urls, []string{"/zz", "/api/zz"})
	return
}

// judgeGrants compares the permissions of generated roles with those of the markers.
func judgeGrants(c *rbacCase, docs []roleDoc) pbt.Outcome {
	want := markerRules(c.pkgs)
	got := map[string][]rbacv1.PolicyRule{}
	seen := map[string]bool{}
	for _, d := range docs {
		ns := d.Metadata.Namespace
		if d.Metadata.Name != c.role || d.API != "rbac.authorization.k8s.io/v1" {
			return pbt.Failf("wrong role identity", "%+v", d)
		}
		if (ns == "") != (d.Kind == "ClusterRole") || (ns != "") != (d.Kind == "Role") {
			return pbt.Failf("wrong role kind", "%s in namespace %q", d.Kind, ns)
		}
		if seen[ns] {
			return pbt.Failf("two roles for one namespace", "%q", ns)
		}
		seen[ns] = true
		got[ns] = d.Rules
	}
	verbs, groups, resources, names, urls := rbacUniverse(c)
	var nss []string
	for ns := range want {
		nss = append(nss, ns)
	}
	for ns := range got {
		nss = append(nss, ns)
	}
	any := func(rs []rbacv1.PolicyRule, f func(rbacv1.PolicyRule) bool) bool {
		for _, r := range rs {
			if f(r) {
				return true
			}
		}
		return false
	}
	for _, ns := range uniq(nss) {
		for _, v := range verbs {
			for _, u := range urls {
				f := func(r rbacv1.PolicyRule) bool { return allowsURL(r, v, u) }
				if w, g := any(want[ns], f), any(got[ns], f); w != g {
					return pbt.Failf("permission "+map[bool]string{true: "lost", false: "invented"}[w], "namespace %q verb %q url %q: markers grant %v, role grants %v\nroles: %+v", ns, v, u, w, g, got[ns])
				}
			}
			for _, gr := range groups {
				for _, re := range resources {
					for _, na := range names {
						f := func(r rbacv1.PolicyRule) bool { return allowsRes(r, v, gr, re, na) }
						if w, g := any(want[ns], f), any(got[ns], f); w != g {
							return pbt.Failf("permission "+map[bool]string{true: "lost", false: "invented"}[w], "namespace %q verb %q group %q resource %q name %q: markers grant %v, role grants %v\nroles: %+v", ns, v, gr, re, na, w, g, got[ns])
						}
					}
				}
			}
		}
	}
	return pbt.OK(true)
}

func rbacLabels(c *rbacCase) (nontrivial bool, labels []string) {
	n, overlap := 0, false
	l := map[string]bool{}
	var flat []rbacMarker
	for _, ms := range c.pkgs {
		for _, m := range ms {
			for _, o := range flat {
				if o.NS == m.NS && (fmt.Sprint(o.Groups) == fmt.Sprint(m.Groups) || fmt.Sprint(o.Resources) == fmt.Sprint(m.Resources)) {
					overlap = true
				}
			}
			flat = append(flat, m)
			n++
			if m.URLs != nil {
				l["urls"] = true
			}
			if m.NS != "" {
				l["namespaced"] = true
			}
			if m.Groups == nil {
				l["groups unset"] = true
			}
			if m.Names != nil {
				l["resourceNames"] = true
			}
		}
	}
	if overlap {
		l["mergeable markers"] = true
	}
	if len(c.pkgs) > 1 {
		l["several roots"] = true
	}
	for k := range l {
		labels = append(labels, k)
	}
	return n >= 2 && overlap, labels
}

func rbacProbe(check func([]any) []pbt.Outcome, ms ...rbacMarker) func() pbt.Outcome {
	return func() pbt.Outcome {
		var alt []rbacMarker
		for i := range ms {
			m := &ms[i]
			var parts []string
			add := func(k string, vs []string) {
				if vs == nil {
					return
				}
				var q []string
				for _, v := range vs {
					q = append(q, strconv.Quote(v))
				}
				parts = append(parts, k+"={"+strings.Join(q, ",")+"}")
			}
			add("groups", m.Groups)
			add("resources", m.Resources)
			add("resourceNames", m.Names)
			add("verbs", m.Verbs)
			add("urls", m.URLs)
			m.text = "+kubebuilder:rbac:" + strings.Join(parts, ",")
			alt = append([]rbacMarker{*m}, alt...)
		}
		var last pbt.Outcome
		for try := 0; try < 12; try++ { // the defects depended on map order
			last = check([]any{&rbacCase{pkgs: [][]rbacMarker{ms}, alt: [][]rbacMarker{alt}, order: []int{0}, role: "r"}})[0]
			if last.Fail != "" {
				break
			}
		}
		return last
	}
}

func rbacProbes(check func([]any) []pbt.Outcome) []Probe {
	return []Probe{
		{"rbac-unset-vs-empty-group", rbacProbe(check, rbacMarker{Groups: []string{""}, Verbs: []string{"get"}}, rbacMarker{Resources: []string{"pods"}, Verbs: []string{"get"}})},
		{"rbac-unset-vs-empty-name", rbacProbe(check, rbacMarker{Groups: []string{""}, Resources: []string{"pods"}, Names: []string{""}, Verbs: []string{"get"}}, rbacMarker{Groups: []string{""}, Resources: []string{"pods"}, Verbs: []string{"list"}})},
		{"rbac-merged-group-overwrites", rbacProbe(check, rbacMarker{Groups: []string{"a"}, Resources: []string{"r"}, Verbs: []string{"get"}}, rbacMarker{Groups: []string{"b"}, Resources: []string{"r"}, Verbs: []string{"get"}}, rbacMarker{Groups: []string{"a", "b"}, Resources: []string{"r"}, Verbs: []string{"list"}})},
	}
}

func runRBACBatch(cases []any, judge func(c *rbacCase, l *ws.Loaded, i int) pbt.Outcome) []pbt.Outcome {
	dir := Scratch("rbac")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		c := a.(*rbacCase)
		f := rbacFiles(c.pkgs, "a")
		for k, v := range rbacFiles(c.alt, "b") {
			f[k] = v
		}
		files = append(files, f)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i := range cases {
		out[i] = pbt.Guard(func() pbt.Outcome { return judge(cases[i].(*rbacCase), l, i) })
	}
	return out
}

func rbacRoots(l *ws.Loaded, i int, sub string, n int, order []int) (out []*pkgT) {
	for k := 0; k < n; k++ {
		j := k
		if order != nil {
			j = order[k]
		}
		p := l.ByPath[fmt.Sprintf("%s/c%d/%s/p%d", ws.Mod, i, sub, j)]
		if p == nil {
			panic(pbt.ToolPanic("package not loaded"))
		}
		out = append(out, p)
	}
	return
}

func checkRBACGrants(cases []any) []pbt.Outcome {
	return runRBACBatch(cases, func(c *rbacCase, l *ws.Loaded, i int) pbt.Outcome {
		res := ws.Run(rbac.Generator{RoleName: c.role}, rbacRoots(l, i, "a", len(c.pkgs), nil))
		if res.Bad() {
			return pbt.Failf("valid markers rejected", "%v", res.Errs)
		}
		docs, err := parseRoles(res.Files["role.yaml"])
		if err != nil {
			return pbt.Failf("role manifest unreadable", "%v", err)
		}
		o := judgeGrants(c, docs)
		if o.Fail == "" {
			o.NonTrivial, o.Labels = rbacLabels(c)
		}
		return o
	})
}

func sortedUnique(xs []string) bool {
	for i := 1; i < len(xs); i++ {
		if xs[i-1] >= xs[i] {
			return false
		}
	}
	return true
}

func checkRBACNormal(cases []any) []pbt.Outcome {
	return runRBACBatch(cases, func(c *rbacCase, l *ws.Loaded, i int) pbt.Outcome {
		gen := rbac.Generator{RoleName: c.role}
		a := ws.Run(gen, rbacRoots(l, i, "a", len(c.pkgs), nil))
		b := ws.Run(gen, rbacRoots(l, i, "b", len(c.alt), c.order))
		if a.Bad() || b.Bad() {
			return pbt.Failf("valid markers rejected", "%v %v", a.Errs, b.Errs)
		}
		if !bytes.Equal(a.Files["role.yaml"], b.Files["role.yaml"]) {
			return pbt.Failf("order dependence", "the same markers, distributed and ordered differently, give different roles:\n%s\nversus\n%s\nalternative layout:\n%s", a.Files["role.yaml"], b.Files["role.yaml"], showRBAC(&rbacCase{pkgs: c.alt}))
		}
		docs, err := parseRoles(a.Files["role.yaml"])
		if err != nil {
			return pbt.Failf("role manifest unreadable", "%v", err)
		}
		prev := ""
		for k, d := range docs {
			if k > 0 && d.Metadata.Namespace <= prev {
				return pbt.Failf("roles out of namespace order", "%q after %q", d.Metadata.Namespace, prev)
			}
			prev = d.Metadata.Namespace
			seen := map[string]bool{}
			for _, r := range d.Rules {
				for _, xs := range [][]string{r.APIGroups, r.Resources, r.ResourceNames, r.Verbs, r.NonResourceURLs} {
					if !sortedUnique(xs) {
						return pbt.Failf("list not sorted and duplicate-free", "%q in %+v", xs, r)
					}
				}
				if has(r.Verbs, "*") && len(r.Verbs) != 1 {
					return pbt.Failf("wildcard verb beside others", "%+v", r)
				}
				if len(r.Verbs) == 0 {
					return pbt.Failf("rule without verbs", "%+v", r)
				}
				key := fmt.Sprintf("%q|%q|%q|%q", r.APIGroups, r.Resources, r.ResourceNames, r.NonResourceURLs)
				if seen[key] {
					return pbt.Failf("two rules for the same target", "%s", key)
				}
				seen[key] = true
			}
		}
		nt, labels := rbacLabels(c)
		return pbt.OK(nt, labels...)
	})
}

func init() {
	register(&Prop{
		ID:          "C10",
		Rule:        "Random sets of RBAC markers (1-3 root packages, small overlapping pools, quoted/bare/list forms, nil and empty lists, wildcards, separators inside values); every request in a finite universe (all mentioned strings plus fresh ones) is evaluated against the markers and against the generated roles by an independent RBAC evaluator. Non-trivial: at least two markers of one namespace share their groups or resources (so that merging happens).",
		Assumptions: []string{"Kubernetes RBAC matching semantics as re-implemented in the harness (verbs/groups/resources wildcards, subresource wildcards, resourceNames, URL prefixes)"},
		Probes:      rbacProbes(checkRBACGrants),
		Families:    []*pbt.Family{{Name: "grants", Gen: genRBACCase, Check: checkRBACGrants, Show: showRBAC, Batch: 250, Parallel: 4, Quick: 3000, Thorough: 60000, ShrinkBatch: 64}},
	})
	register(&Prop{
		ID:       "C11",
		Rule:     "The same marker multiset is written in two layouts (different packages, comment positions, orders, root orders); both runs must give identical bytes, and every list must be sorted, duplicate-free and free of repeated targets. Non-trivial: at least two markers of one namespace share their groups or resources.",
		Probes:   rbacProbes(checkRBACNormal),
		Families: []*pbt.Family{{Name: "normal-form", Gen: genRBACCase, Check: checkRBACNormal, Show: showRBAC, Batch: 250, Parallel: 4, Quick: 3000, Thorough: 60000, ShrinkBatch: 64}},
	})
}
