package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	admissionregv1 "k8s.io/api/admissionregistration/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
	"verif/ws"
)

// C12: webhook manifests.

type whCase struct {
	files ws.Files
	roots []string
	order []int // a second order of the roots
	mut   *admissionregv1.MutatingWebhookConfiguration
	val   *admissionregv1.ValidatingWebhookConfiguration
	bad   string
}

type whArg struct{ k, v string }

func whMarker(s *pbt.Src, name string, args []whArg) string {
	args = pbt.Shuffle(s, append([]whArg(nil), args...))
	var parts []string
	for _, a := range args {
		parts = append(parts, a.k+"="+a.v)
	}
	return "+kubebuilder:" + name + ":" + strings.Join(parts, ",")
}

// recase spells a word in another letter case.
func recase(s *pbt.Src, v string) string {
	return pbt.Pick(s, strings.ToLower(v), v, strings.ToUpper(v), strings.ToLower(v[:1])+v[1:])
}

// whValue is one webhook as the markers describe it.
type whValue struct {
	mutating bool
	mw       admissionregv1.MutatingWebhook // the common fields are used for both kinds
	args     []whArg
}

func genWebhook(s *pbt.Src, n int, used map[string]bool) *whValue {
	w := &whValue{mutating: s.Bool()}
	set := func(k, v string) { w.args = append(w.args, whArg{k, v}) }
	set("mutating", strconv.FormatBool(w.mutating))
	for {
		w.mw.Name = pbt.Pick(s, "b", "a", "c", "B", "default", "aa", "a.b") + pbt.Pick(s, "", ".x.ex.test", "-2.ex.test", ".ünï", " with, odd = signs")
		if n > 20 {
			w.mw.Name += strconv.Itoa(n)
		}
		if key := fmt.Sprint(w.mutating) + w.mw.Name; !used[key] {
			used[key] = true
			break
		}
		n += 10
	}
	set("name", renderStr(s, w.mw.Name))
	list := func(k string, pool ...string) []string {
		m := s.Small(3) + 1
		if s.Chance(5) && k != "admissionReviewVersions" {
			m = 0
		}
		var out []string
		for i := 0; i < m; i++ {
			out = append(out, pbt.Pick(s, pool...))
		}
		set(k, renderList(s, out))
		return out
	}
	var r admissionregv1.RuleWithOperations
	for _, g := range list("groups", "apps", "core", "", "*", "x.ex.test", "Core", "batch") {
		if g == "core" {
			g = ""
		}
		r.APIGroups = append(r.APIGroups, g)
	}
	r.Resources = list("resources", "pods", "deployments", "*", "pods/status", "*/scale", "foos")
	r.APIVersions = list("versions", "v1", "v1beta1", "*", "v2")
	for _, v := range list("verbs", "create", "update", "delete", "connect", "*", "CREATE", "Update", "dElete", "patch", "Other") {
		switch u := strings.ToUpper(v); u {
		case "CREATE", "UPDATE", "DELETE", "CONNECT":
			v = u
		}
		r.Operations = append(r.Operations, admissionregv1.OperationType(v))
	}
	w.mw.Rules = []admissionregv1.RuleWithOperations{r}
	w.mw.AdmissionReviewVersions = list("admissionReviewVersions", "v1", "v1beta1", "v1alpha1")
	fp := pbt.Pick(s, "Fail", "Ignore")
	set("failurePolicy", renderStr(s, recase(s, fp)))
	w.mw.FailurePolicy = ptrTo(admissionregv1.FailurePolicyType(fp))
	se := pbt.Pick(s, "None", "NoneOnDryRun")
	set("sideEffects", renderStr(s, recase(s, se)))
	w.mw.SideEffects = ptrTo(admissionregv1.SideEffectClass(se))
	if s.Chance(50) {
		mp := pbt.Pick(s, "Exact", "Equivalent")
		set("matchPolicy", renderStr(s, recase(s, mp)))
		w.mw.MatchPolicy = ptrTo(admissionregv1.MatchPolicyType(mp))
	}
	if s.Chance(50) {
		t := pbt.Pick(s, 1, 30, 10, 2, 29)
		set("timeoutSeconds", strconv.Itoa(t))
		w.mw.TimeoutSeconds = ptrTo(int32(t))
	}
	if s.Chance(30) {
		rp := pbt.Pick(s, "Never", "IfNeeded")
		set("reinvocationPolicy", renderStr(s, recase(s, rp)))
		w.mw.ReinvocationPolicy = ptrTo(admissionregv1.ReinvocationPolicyType(rp))
	}
	if s.Chance(20) {
		set("webhookVersions", renderList(s, pbt.Pick(s, []string{"v1"}, nil, []string{"v1", "v1"})))
	}
	if s.Chance(25) {
		u := pbt.Pick(s, "https://ex.test/x", "https://ex.test:9443/validate?a=b,c", "https://h/{a};b", "https://[::1]:8/")
		set("url", strconv.Quote(u))
		w.mw.ClientConfig.URL = &u
		if s.Chance(30) {
			// without a path there is no service
			set("serviceName", "unused")
		}
		return w
	}
	path := pbt.Pick(s, "/validate-apps-v1-deployment", "/mutate--v1-pod", "/m", "/a b", "/validate-x-ex-test-v1-foo")
	set("path", renderStr(s, path))
	svc := &admissionregv1.ServiceReference{Name: "webhook-service", Namespace: "system", Path: &path}
	if s.Chance(30) {
		svc.Name = pbt.Pick(s, "svc", "other-service")
		set("serviceName", renderStr(s, svc.Name))
	} else if s.Chance(10) {
		set("serviceName", `""`)
	}
	if s.Chance(30) {
		svc.Namespace = pbt.Pick(s, "ns", "other-ns")
		set("serviceNamespace", renderStr(s, svc.Namespace))
	}
	if s.Chance(30) {
		svc.Port = ptrTo(pbt.Pick[int32](s, 443, 9443, 1, 65535, 2147483647))
		set("servicePort", strconv.Itoa(int(*svc.Port)))
	}
	w.mw.ClientConfig.Service = svc
	return w
}

func (w *whValue) validating() admissionregv1.ValidatingWebhook {
	m := w.mw
	return admissionregv1.ValidatingWebhook{Name: m.Name, ClientConfig: m.ClientConfig, Rules: m.Rules, FailurePolicy: m.FailurePolicy, MatchPolicy: m.MatchPolicy,
		SideEffects: m.SideEffects, TimeoutSeconds: m.TimeoutSeconds, AdmissionReviewVersions: m.AdmissionReviewVersions}
}

func genWebhooks(s *pbt.Src) any    { return makeWebhooks(s, false) }
func genBadWebhooks(s *pbt.Src) any { return makeWebhooks(s, true) }
func without1(a []whArg, k string) (out []whArg) {
	for _, x := range a {
		if x.k != k {
			out = append(out, x)
		}
	}
	return out
}

func makeWebhooks(s *pbt.Src, bad bool) any {
	c := &whCase{files: ws.Files{}}
	np := 1 + s.PickW(5, 3, 2)
	c.order = s.Perm(np)
	used := map[string]bool{}
	confNames := [2]string{"validating-webhook-configuration", "mutating-webhook-configuration"}
	var all []*whValue
	perPkg := make([][]string, np)
	byPkg := make([][]*whValue, np)
	for p := range perPkg {
		for k := s.Small(4); k > 0; k-- {
			w := genWebhook(s, len(all), used)
			byPkg[p] = append(byPkg[p], w)
			all = append(all, w)
		}
	}
	if bad && len(all) == 0 {
		w := genWebhook(s, 0, used)
		byPkg[0], all = append(byPkg[0], w), append(all, w)
	}
	confPkg := [2]int{-1, -1}
	for m, kind := range []string{"false", "true"} {
		if s.Chance(40) {
			n := pbt.Pick(s, "my-webhooks", "conf", "n.ex.test", "")
			written := renderStr(s, n)
			for p := range perPkg {
				if confPkg[m] < 0 || n != "" && s.Chance(30) {
					confPkg[m] = p
					perPkg[p] = append(perPkg[p], whMarker(s, "webhookconfiguration", []whArg{{"mutating", kind}, {"name", written}}))
				}
			}
			if n != "" {
				confNames[m] = n
			}
		} else if s.Chance(5) {
			// without a name, it changes nothing
			perPkg[0] = append(perPkg[0], whMarker(s, "webhookconfiguration", []whArg{{"mutating", kind}}))
		}
	}
	if bad {
		c.breakWebhooks(s, all[s.Intn(len(all))], perPkg)
		s.Label(c.bad)
	}
	for p := range perPkg {
		for _, w := range byPkg[p] {
			perPkg[p] = append(perPkg[p], whMarker(s, "webhook", w.args))
		}
		f := fmt.Sprintf("p%d", p)
		c.roots = append(c.roots, f)
		var a, b [4]strings.Builder
		for _, m := range pbt.Shuffle(s, perPkg[p]) {
			w := &a
			if s.Chance(30) {
				w = &b
			}
			fmt.Fprintf(&w[s.Intn(4)], "// %s\n", m)
		}
		for i, x := range [][4]strings.Builder{a, b} {
			if i == 1 && x[0].Len()+x[1].Len()+x[2].Len()+x[3].Len() == 0 {
				break
			}
			c.files[fmt.Sprintf("%s/f%d.go", f, i)] = fmt.Sprintf("%spackage p%d\n\n%s\n// T%d is a type.\ntype T%d struct{}\n\n%s\n// R%d does things.\nfunc R%d() {}\n\n%s", x[0].String(), p, x[1].String(), i, i, x[2].String(), i, i, x[3].String())
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].mw.Name < all[j].mw.Name })
	for _, w := range all {
		if w.mutating {
			if c.mut == nil {
				c.mut = &admissionregv1.MutatingWebhookConfiguration{TypeMeta: metav1.TypeMeta{APIVersion: "admissionregistration.k8s.io/v1", Kind: "MutatingWebhookConfiguration"}, ObjectMeta: metav1.ObjectMeta{Name: confNames[1]}}
			}
			c.mut.Webhooks = append(c.mut.Webhooks, w.mw)
		} else {
			if c.val == nil {
				c.val = &admissionregv1.ValidatingWebhookConfiguration{TypeMeta: metav1.TypeMeta{APIVersion: "admissionregistration.k8s.io/v1", Kind: "ValidatingWebhookConfiguration"}, ObjectMeta: metav1.ObjectMeta{Name: confNames[0]}}
			}
			c.val.Webhooks = append(c.val.Webhooks, w.validating())
		}
	}
	return c
}

// breakWebhooks breaks one documented constraint.
func (c *whCase) breakWebhooks(s *pbt.Src, w *whValue, perPkg [][]string) {
	set := func(k, v string) { w.args = append(without1(w.args, k), whArg{k, v}) }
	switch s.Intn(12) {
	case 0:
		c.bad = "url and path"
		set("url", `"https://h/p"`)
		set("path", "/p")
	case 1:
		c.bad = "neither url nor path"
		w.args = without1(without1(w.args, "url"), "path")
	case 2:
		c.bad = "unsupported webhook version"
		set("webhookVersions", renderList(s, pbt.Pick(s, []string{"v1beta1"}, []string{"v1", "v1beta1"}, []string{"v2"}, []string{"V1"}, []string{""})))
	case 3:
		c.bad = "side effects"
		if s.Chance(30) {
			w.args = without1(w.args, "sideEffects")
		} else {
			set("sideEffects", pbt.Pick(s, "Some", "some", "SOME", "Unknown", "unknown", "what", `""`))
		}
	case 4:
		c.bad = "timeout"
		set("timeoutSeconds", pbt.Pick(s, "-1", "31", "100", "-30", "4294967297", "4294967306", "2147483648", "-4294967295", "9223372036854775807", "-9223372036854775808"))
	case 5:
		c.bad = "no admission review versions"
		if s.Chance(50) {
			w.args = without1(w.args, "admissionReviewVersions")
		} else {
			set("admissionReviewVersions", "{}")
		}
	case 6:
		c.bad = "match policy"
		set("matchPolicy", pbt.Pick(s, "Fuzzy", `"exact "`, "Exactly", "none"))
	case 7:
		c.bad = "duplicate webhookconfiguration"
		p := s.Intn(len(perPkg))
		k := pbt.Pick(s, "true", "false")
		for i := 0; i < 2; i++ {
			perPkg[p] = append(perPkg[p], whMarker(s, "webhookconfiguration", []whArg{{"mutating", k}, {"name", pbt.Pick(s, "x", "y")}}))
		}
	case 8:
		c.bad = "required argument missing"
		w.args = without1(w.args, pbt.Pick(s, "mutating", "name", "groups", "resources", "verbs", "versions", "failurePolicy"))
	case 9:
		c.bad = "unknown argument"
		set(pbt.Pick(s, "verb", "servicename", "port", "Name"), "x")
	case 10:
		c.bad = "service port"
		set("servicePort", pbt.Pick(s, "http", "2147483648", "4294967297", "4.5"))
	case 11:
		if len(perPkg) < 2 {
			c.bad = "wrong type"
			set("mutating", pbt.Pick(s, "yes", "1", `"true"`))
			return
		}
		c.bad = "conflicting webhookconfiguration"
		k := pbt.Pick(s, "true", "false")
		perPkg[0] = append(perPkg[0], whMarker(s, "webhookconfiguration", []whArg{{"mutating", k}, {"name", "one"}}))
		perPkg[len(perPkg)-1] = append(perPkg[len(perPkg)-1], whMarker(s, "webhookconfiguration", []whArg{{"mutating", k}, {"name", "another"}}))
	}
}

func checkWebhooks(cases []any) []pbt.Outcome {
	dir := Scratch("wh")
	defer Drop(dir)
	var files []ws.Files
	for _, a := range cases {
		files = append(files, a.(*whCase).files)
	}
	l, err := ws.LoadCases(dir, files)
	if err != nil {
		panic(pbt.HarnessPanic("load: " + err.Error()))
	}
	out := make([]pbt.Outcome, len(cases))
	for i, a := range cases {
		c := a.(*whCase)
		out[i] = pbt.Guard(func() pbt.Outcome {
			var roots, roots2 []*pkgT
			for k := range c.roots {
				roots = append(roots, l.ByPath[fmt.Sprintf("%s/c%d/%s", ws.Mod, i, c.roots[k])])
				roots2 = append(roots2, l.ByPath[fmt.Sprintf("%s/c%d/%s", ws.Mod, i, c.roots[c.order[k]])])
			}
			r := ws.Run(webhook.Generator{}, roots)
			if c.bad != "" {
				if !r.Bad() {
					return pbt.Failf("invalid webhook accepted", "%s\n%s", c.bad, r.Files["manifests.yaml"])
				}
				return pbt.OK(true)
			}
			if o := judgeWebhooks(c, r); o.Fail != "" {
				return o
			}
			r2 := ws.Run(webhook.Generator{}, roots2)
			if o := judgeWebhooks(c, r2); o.Fail != "" {
				o.Fail += " (with the roots in another order)"
				return o
			}
			n := 0
			if c.mut != nil {
				n += len(c.mut.Webhooks)
			}
			if c.val != nil {
				n += len(c.val.Webhooks)
			}
			return pbt.OK(n >= 2)
		})
	}
	return out
}

func judgeWebhooks(c *whCase, r ws.Result) pbt.Outcome {
	if r.Bad() {
		return pbt.Failf("valid webhooks rejected", "%v", r.Errs)
	}
	var want []any
	if c.mut != nil {
		want = append(want, c.mut)
	}
	if c.val != nil {
		want = append(want, c.val)
	}
	if len(want) == 0 {
		if len(r.Opens) > 0 {
			return pbt.Failf("manifest without webhooks", "%v", r.Opens)
		}
		return pbt.OK(false)
	}
	if len(r.Opens) != 1 || r.Opens[0] != "manifests.yaml" {
		return pbt.Failf("wrong set of manifests", "%v", r.Opens)
	}
	b := r.Files["manifests.yaml"]
	if !bytes.HasPrefix(b, []byte("---\n")) {
		return pbt.Failf("manifest does not begin a document", "%s", b)
	}
	docs := splitDocs(b)
	if len(docs) != len(want) {
		return pbt.Failf("wrong number of configurations", "%d, want %d", len(docs), len(want))
	}
	for i, w := range want {
		var raw map[string]any
		if err := yaml.UnmarshalStrict(docs[i], &raw); err != nil {
			return pbt.Failf("manifest unreadable", "%v\n%s", err, docs[i])
		}
		j, _ := json.Marshal(w)
		var wr map[string]any
		_ = json.Unmarshal(j, &wr)
		if m := wr["metadata"].(map[string]any); m["creationTimestamp"] == nil {
			delete(m, "creationTimestamp")
		}
		if g, w := jsonOf(raw), jsonOf(wr); g != w {
			return pbt.Failf("wrong webhook configuration", "is\n%s\nwant\n%s", g, w)
		}
	}
	return pbt.OK(true)
}

func showWebhooks(a any) string {
	c := a.(*whCase)
	if c.bad != "" {
		return c.files.Show() + "must be rejected: " + c.bad + "\n"
	}
	return c.files.Show() + "want: " + jsonOf(c.mut) + "\n" + jsonOf(c.val) + "\n"
}

func init() {
	register(&Prop{
		ID:          "C12",
		Rule:        "Models of webhooks (1-3 root packages, 1-2 files each) are spelled as markers in random argument order, quoting and position; the manifest must equal the model's configurations for two orders of the roots. The second family breaks one documented constraint, which must be reported. Non-trivial: at least two webhooks (or the case must be rejected).",
		Assumptions: []string{"webhook names are unique within a configuration", "unknown failure policies, verbs and reinvocation policies are not validated"},
		Families: []*pbt.Family{
			{Name: "webhooks", Gen: genWebhooks, Check: checkWebhooks, Show: showWebhooks, Batch: 250, Parallel: 4, Quick: 5000, Thorough: 100000, ShrinkBatch: 64},
			{Name: "invalid", Gen: genBadWebhooks, Check: checkWebhooks, Show: showWebhooks, Batch: 250, Parallel: 4, Quick: 3000, Thorough: 50000, ShrinkBatch: 64},
		},
	})
}
