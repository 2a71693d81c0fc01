package props

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"

	"verif/pbt"
)

// allGenerators are the generators of the command line tool, under their option names.
func allGenerators() map[string]genall.Generator {
	return map[string]genall.Generator{
		"crd": crd.Generator{}, "rbac": rbac.Generator{}, "object": deepcopy.Generator{},
		"webhook": webhook.Generator{}, "schemapatch": schemapatcher.Generator{}, "applyconfiguration": applyconfiguration.Generator{},
	}
}

// shippedRegistry has every marker of every generator; optionsRegistry every command-line option.
func shippedRegistry() *markers.Registry {
	reg := &markers.Registry{}
	for _, g := range allGenerators() {
		if err := g.RegisterMarkers(reg); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
	}
	return reg
}

func optionsRegistry() *markers.Registry {
	reg := &markers.Registry{}
	add := func(name string, obj any, help bool) {
		def, err := markers.MakeDefinition(name, markers.DescribesPackage, obj)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		if err := reg.Register(def); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		if h, ok := obj.(genall.HasHelp); ok && help {
			reg.AddHelp(def, h.Help())
		}
	}
	rules := map[string]genall.OutputRule{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}
	for n, g := range allGenerators() {
		add(n, g, true)
		for rn, r := range rules {
			add("output:"+n+":"+rn, r, true)
		}
	}
	for rn, r := range rules {
		add("output:"+rn, r, true)
	}
	if err := genall.RegisterOptionsMarkers(reg); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return reg
}

type regInfo struct {
	reg  *markers.Registry
	defs []*markers.Definition
}

var regsOnce = sync.OnceValue(func() []regInfo {
	var out []regInfo
	for _, r := range []*markers.Registry{shippedRegistry(), optionsRegistry()} {
		defs := r.AllDefinitions()
		sort.Slice(defs, func(i, j int) bool {
			if defs[i].Name != defs[j].Name {
				return defs[i].Name < defs[j].Name
			}
			return defs[i].Target < defs[j].Target
		})
		out = append(out, regInfo{r, defs})
	}
	return out
})

type fuzzCase struct {
	raw    string
	reg    int
	def    *markers.Definition // the definition aimed at
	direct bool                // parse with def even when the lookup finds another
}

var soup = []string{"{", "}", ",", ";", ":", "=", "\"", "'", "`", "\\", "+", "-", "0", "1", "42", "-1", "1.5", "1e9", "0x", "0b2", "1_0", "true", "false", "tru", "a", "foo", "é", "世", "\xff", "\xc3", "\x00", " ", "\t", "\u2028", "\ufeff", "//", "/*", "*/", "{}", "{{", "}}", "\"a\"", "`b`", "\"\\", "'x'", "{a: b}", "{1,2}", "a;b", ".", "..", "name=", "value", "name=`x`", "=", "self.x == 1", "99999999999999999999", "1e999", "null", "nil", "@", "🙂", "\r", "\"\\u12\"", "\"\\x\""}

func genSoup(s *pbt.Src, max int) string {
	n := s.Small(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if s.Chance(5) {
			b.WriteByte(byte(s.Intn(256)))
			continue
		}
		b.WriteString(soup[s.Intn(len(soup))])
	}
	return b.String()
}

func mtOf(a *markers.Argument) *mt {
	switch a.Type {
	case markers.IntType:
		return &mt{kind: "int32"}
	case markers.NumberType:
		return &mt{kind: "float"}
	case markers.BoolType:
		return &mt{kind: "bool"}
	case markers.AnyType:
		return &mt{kind: "any"}
	case markers.SliceType:
		return &mt{kind: "slice", elem: mtOf(a.ItemType)}
	case markers.MapType:
		return &mt{kind: "map", elem: mtOf(a.ItemType)}
	}
	return &mt{kind: "string"}
}

func genFuzzCase(s *pbt.Src) any {
	regs := regsOnce()
	c := &fuzzCase{reg: s.PickW(8, 2)}
	defs := regs[c.reg].defs
	c.def = defs[s.Intn(len(defs))]
	switch s.PickW(4, 4, 1) {
	case 0: // the marker with arbitrary arguments
		c.raw = "+" + c.def.Name + pbt.Pick(s, "=", ":", "", ":=", "=:", "::", ":a=") + genSoup(s, 12)
	case 1: // a valid spelling, damaged
		var names []string
		for n := range c.def.Fields {
			names = append(names, n)
		}
		sort.Strings(names)
		c.raw = "+" + c.def.Name
		for i, n := range names {
			a := c.def.Fields[n]
			_, t := genMV(s, mtOf(&a), mctx{})
			switch {
			case n == "":
				c.raw += "=" + t
			case i == 0:
				c.raw += ":" + n + "=" + t
			default:
				c.raw += "," + n + "=" + t
			}
		}
		for k := s.Small(4); k > 0 && len(c.raw) > 1; k-- {
			i := 1 + s.Intn(len(c.raw)-1)
			switch s.Intn(4) {
			case 0:
				c.raw = c.raw[:i] + c.raw[i+1:]
			case 1:
				c.raw = c.raw[:i] + soup[s.Intn(len(soup))] + c.raw[i:]
			case 2:
				c.raw = c.raw[:i]
				if c.raw == "" {
					c.raw = "+"
				}
			case 3:
				j := 1 + s.Intn(len(c.raw)-1)
				if i > j {
					i, j = j, i
				}
				c.raw = c.raw[:j] + c.raw[i:j] + c.raw[j:]
			}
		}
	case 2:
		c.raw = "+" + genSoup(s, 20)
	}
	c.raw = strings.TrimSpace(strings.ReplaceAll(c.raw, "\n", " "))
	if !strings.HasPrefix(c.raw, "+") {
		c.raw = "+" + c.raw
	}
	c.direct = s.Chance(30)
	return c
}

func showFuzz(a any) string {
	c := a.(*fuzzCase)
	return fmt.Sprintf("marker %s against %q (%v)", strconv.Quote(c.raw), c.def.Name, c.def.Target)
}

func checkFuzz(c *fuzzCase) (o pbt.Outcome) {
	reg := regsOnce()[c.reg].reg
	pbt.Limit(func() string { return showFuzz(c) }, func() {
		found := 0
		for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
			def := reg.Lookup(c.raw, t)
			if c.direct && t == c.def.Target {
				def = c.def
			}
			if def == nil {
				continue
			}
			if def.Target != t {
				o = pbt.Failf("wrong target", "lookup for %v gave a definition for %v", t, def.Target)
				return
			}
			found++
			v1, e1 := def.Parse(c.raw)
			v2, e2 := def.Parse(c.raw)
			if (e1 == nil) != (e2 == nil) {
				o = pbt.Failf("unstable verdict", "%v then %v", e1, e2)
				return
			}
			if e1 != nil {
				if e1.Error() == "" {
					o = pbt.Failf("empty error", "%#v", e1)
					return
				}
				continue
			}
			if reflect.TypeOf(v1) != def.Output {
				o = pbt.Failf("wrong result type", "%T instead of %v", v1, def.Output)
				return
			}
			if !reflect.DeepEqual(v1, v2) && fmt.Sprintf("%#v", v1) != fmt.Sprintf("%#v", v2) {
				o = pbt.Failf("unstable value", "%#v then %#v", v1, v2)
				return
			}
		}
		if o.Fail == "" {
			o = pbt.OK(found > 0)
		}
	})
	return o
}

func init() {
	register(&Prop{
		ID:          "C02",
		Rule:        "Marker texts (arbitrary token soup, soup behind real marker names, damaged valid markers; invalid UTF-8, NULs, unterminated quotes) looked up and parsed, twice, against every definition shipped by all generators and all command-line options. Non-trivial: some definition was found for the text and parsed it.",
		Assumptions: []string{"texts have no newline and start with '+', as the comment scanner guarantees"},
		Families:    []*pbt.Family{{Name: "fuzz", Gen: genFuzzCase, Check: pbt.Each(checkFuzz), Show: showFuzz, Batch: 500, Parallel: 8, Quick: 2000000, Thorough: 25000000, ShrinkBatch: 2000}},
	})
}
