package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/jsv"
	"verif/pbt"
)

type schemaT = apiext.JSONSchemaProps

// A graph of types with schemas as the schema generator writes them:
// references with constraints beside them, embedded types in allOf.

type flTypeID struct {
	pkg  int
	name string
}

type flType struct {
	id     flTypeID
	kind   string // string, integer, array, object, map
	schema schemaT
}

type flCase struct {
	types  []*flType // types[i] refers only to later types
	values [][]any   // per type, values to try
	order  []int     // order of flattening in the second run
}

var flPkgs = []string{"root", "ex.test/other", "ex.test/third"}

func (id flTypeID) String() string { return flPkgs[id.pkg] + "." + id.name }

// constraints adds keywords for a kind.
func flConstrain(s *pbt.Src, sc *schemaT, kind string, pct int, nullable bool) {
	i64 := func(n int) *int64 { v := int64(n); return &v }
	switch kind {
	case "string":
		if s.Chance(pct) {
			sc.MaxLength = i64(s.Range(0, 5))
		}
		if s.Chance(pct) {
			sc.MinLength = i64(s.Range(0, 3))
		}
		if s.Chance(pct) {
			sc.Pattern = pbt.Pick(s, "^a", "b$", "^[a-c]*$", "")
		}
		if s.Chance(pct / 2) {
			sc.Enum = flEnum(s, []string{`"a"`, `"ab"`, `"b"`, `"abc"`, `""`})
		}
	case "integer":
		if s.Chance(pct) {
			m := float64(s.Range(-2, 6))
			sc.Maximum = &m
			sc.ExclusiveMaximum = s.Chance(40)
		}
		if s.Chance(pct) {
			m := float64(s.Range(-4, 3))
			sc.Minimum = &m
			sc.ExclusiveMinimum = s.Chance(40)
		}
		if s.Chance(pct / 2) {
			m := float64(s.Range(1, 3))
			sc.MultipleOf = &m
		}
		if s.Chance(pct / 2) {
			sc.Enum = flEnum(s, []string{"0", "1", "2", "4", "-3"})
		}
	case "array":
		if s.Chance(pct) {
			sc.MaxItems = i64(s.Range(0, 3))
		}
		if s.Chance(pct) {
			sc.MinItems = i64(s.Range(0, 2))
		}
		sc.UniqueItems = s.Chance(pct / 2)
	case "object", "map":
		if s.Chance(pct) {
			sc.MaxProperties = i64(s.Range(0, 4))
		}
		if s.Chance(pct) {
			sc.MinProperties = i64(s.Range(0, 2))
		}
	}
	sc.Nullable = nullable && s.Chance(pct/2)
	if s.Chance(20) {
		sc.Description = pbt.Pick(s, "one", "two", "three")
	}
	if s.Chance(10) {
		sc.Title = pbt.Pick(s, "t1", "t2")
	}
}

func flEnum(s *pbt.Src, pool []string) []apiext.JSON {
	var out []apiext.JSON
	for _, v := range pbt.Subset(s, pool, 60) {
		out = append(out, apiext.JSON{Raw: []byte(v)})
	}
	return out
}

// property kinds are fixed by name so that merges never conflict in type
var flPropKinds = map[string]string{"a": "string", "b": "integer", "c": "array", "d": "object", "e": "string", "f": "integer", "m": "map"}
var flPropNames = []string{"a", "b", "c", "d", "e", "f", "m"}

type flGen struct {
	s     *pbt.Src
	c     *flCase
	after []*flType // types that may be referred to
	cur   int       // package of the type being made
	null  bool      // with nullable schemas, and then without embedding (what nullable means for a property that is declared twice is not defined)
}

func (g *flGen) ref(t *flType) *string {
	name := ""
	if t.id.pkg != g.cur {
		name = flPkgs[t.id.pkg]
	}
	l := crd.TypeRefLink(name, t.id.name)
	return &l
}

func (g *flGen) ofKind(kind string) []*flType {
	var out []*flType
	for _, t := range g.after {
		if t.kind == kind {
			out = append(out, t)
		}
	}
	return out
}

// make makes a schema of a kind, by reference if possible.
func (g *flGen) make(kind string, depth int) schemaT {
	s := g.s
	if ts := g.ofKind(kind); len(ts) > 0 && s.Chance(65) {
		sc := schemaT{Ref: g.ref(ts[s.Intn(len(ts))])}
		if s.Chance(60) {
			flConstrain(s, &sc, kind, 30, g.null)
		}
		return sc
	}
	return g.base(kind, depth)
}

func (g *flGen) base(kind string, depth int) schemaT {
	s := g.s
	sc := schemaT{Type: kind}
	switch kind {
	case "array":
		it := g.make("string", depth-1)
		sc.Items = &apiext.JSONSchemaPropsOrArray{Schema: &it}
	case "map":
		sc.Type = "object"
		it := g.make("string", depth-1)
		sc.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: &it}
	case "object":
		sc.Properties = map[string]schemaT{}
		if depth > 0 {
			for _, n := range flPropNames {
				if s.Chance(40) {
					sc.Properties[n] = g.make(flPropKinds[n], depth-1)
					if s.Chance(40) {
						sc.Required = append(sc.Required, n)
					}
				}
			}
		}
		for k := s.PickW(6, 3, 1); k > 0 && !g.null; k-- {
			if ts := g.ofKind("object"); len(ts) > 0 {
				e := schemaT{Ref: g.ref(ts[s.Intn(len(ts))])}
				if s.Chance(30) {
					flConstrain(s, &e, "object", 30, g.null)
				}
				sc.AllOf = append(sc.AllOf, e)
			}
		}
	}
	flConstrain(s, &sc, kind, 15, g.null)
	return sc
}

func genFlatten(s *pbt.Src) any {
	c := &flCase{}
	g := &flGen{s: s, c: c, null: s.Chance(25)}
	n := s.Range(1, 7)
	used := map[flTypeID]bool{}
	// types are made last first
	for i := 0; i < n; i++ {
		id := flTypeID{pkg: s.Intn(len(flPkgs)), name: pbt.Pick(s, "A", "B", "C", "D")}
		for used[id] {
			id.name += "x"
		}
		used[id] = true
		g.cur = id.pkg
		t := &flType{id: id}
		if len(g.after) > 0 && s.Chance(30) { // type A B
			to := g.after[s.Intn(len(g.after))]
			t.kind = to.kind
			t.schema = schemaT{Ref: g.ref(to)}
			if s.Chance(60) {
				flConstrain(s, &t.schema, t.kind, 30, g.null)
			}
		} else {
			t.kind = pbt.Pick(s, "object", "string", "integer", "array", "object", "map")
			t.schema = g.base(t.kind, 2)
		}
		g.after = append(g.after, t)
	}
	for i := len(g.after) - 1; i >= 0; i-- {
		c.types = append(c.types, g.after[i])
	}
	c.order = s.Perm(n)
	fv := &flValues{s: s, c: c}
	for _, t := range c.types {
		var vs []any
		for k := 0; k < 6; k++ {
			vs = append(vs, fv.value(&t.schema, t.id.pkg, 0))
		}
		c.values = append(c.values, vs)
	}
	return c
}

// flValues makes values near the boundaries of a schema.
type flValues struct {
	s *pbt.Src
	c *flCase
}

func (c *flCase) resolve(ref string, ctx any) (*schemaT, any, error) {
	cur := ctx.(int)
	// an independent reading of "#/definitions/<path with ~1 for />~0<type>"
	rest := strings.TrimPrefix(ref, "#/definitions/")
	name, pkg := rest, cur
	if i := strings.LastIndex(rest, "~0"); i >= 0 {
		name = rest[i+2:]
		path := strings.ReplaceAll(rest[:i], "~1", "/")
		pkg = -1
		for k, p := range flPkgs {
			if p == path {
				pkg = k
			}
		}
	}
	for _, t := range c.types {
		if t.id.pkg == pkg && t.id.name == name {
			return &t.schema, pkg, nil
		}
	}
	return nil, nil, fmt.Errorf("no type for %q", ref)
}

// conj collects all schemas that apply at one place.
func (c *flCase) conj(sc *schemaT, pkg int, out *[]flAt) {
	*out = append(*out, flAt{sc, pkg})
	if sc.Ref != nil {
		if t, p, err := c.resolve(*sc.Ref, pkg); err == nil {
			c.conj(t, p.(int), out)
		}
	}
	for i := range sc.AllOf {
		c.conj(&sc.AllOf[i], pkg, out)
	}
}

type flAt struct {
	sc  *schemaT
	pkg int
}

func (f *flValues) value(sc *schemaT, pkg, depth int) any {
	s := f.s
	var all []flAt
	f.c.conj(sc, pkg, &all)
	if s.Chance(4) {
		return pbt.Pick[any](s, nil, "zz", json.Number("7"), true, []any{}, map[string]any{})
	}
	typ := ""
	for _, a := range all {
		if a.sc.Type != "" {
			typ = a.sc.Type
		}
	}
	var enums []any
	for _, a := range all {
		for _, e := range a.sc.Enum {
			if v, err := jsv.Decode(e.Raw); err == nil {
				enums = append(enums, v)
			}
		}
	}
	if len(enums) > 0 && s.Chance(60) {
		return enums[s.Intn(len(enums))]
	}
	var lens []int64
	add := func(p *int64) {
		if p != nil {
			lens = append(lens, *p, *p-1, *p+1)
		}
	}
	pickLen := func(max int) int {
		n := s.Range(0, max)
		if len(lens) > 0 && s.Chance(80) {
			n = int(lens[s.Intn(len(lens))])
		}
		if n < 0 {
			n = 0
		}
		return n
	}
	switch typ {
	case "string":
		for _, a := range all {
			add(a.sc.MaxLength)
			add(a.sc.MinLength)
		}
		n := pickLen(4)
		b := ""
		for i := 0; i < n; i++ {
			b += pbt.Pick(s, "a", "b", "c", "é")
		}
		if s.Chance(70) && n > 0 {
			b = "a" + b[1:]
			if n > 1 {
				b = "a" + strings.Repeat("b", n-1)
			}
		}
		return b
	case "integer":
		var cand []int
		for _, a := range all {
			for _, p := range []*float64{a.sc.Maximum, a.sc.Minimum} {
				if p != nil {
					cand = append(cand, int(*p), int(*p)-1, int(*p)+1)
				}
			}
		}
		if len(cand) > 0 && s.Chance(80) {
			return json.Number(fmt.Sprint(cand[s.Intn(len(cand))]))
		}
		return json.Number(fmt.Sprint(s.Range(-5, 8)))
	case "array":
		for _, a := range all {
			add(a.sc.MaxItems)
			add(a.sc.MinItems)
		}
		n := pickLen(2)
		out := []any{}
		for i := 0; i < n; i++ {
			var items []flAt
			for _, a := range all {
				if a.sc.Items != nil && a.sc.Items.Schema != nil {
					items = append(items, flAt{a.sc.Items.Schema, a.pkg})
				}
			}
			if len(items) == 0 {
				out = append(out, "a")
				continue
			}
			it := items[s.Intn(len(items))]
			out = append(out, f.value(it.sc, it.pkg, depth+1))
		}
		return out
	case "object":
		out := map[string]any{}
		for _, a := range all {
			for _, k := range jsv.Keys(a.sc.Properties) {
				req := false
				for _, r := range a.sc.Required {
					req = req || r == k
				}
				if _, has := out[k]; has && s.Bool() {
					continue
				}
				if req && s.Chance(92) || !req && s.Chance(45) {
					p := a.sc.Properties[k]
					out[k] = f.value(&p, a.pkg, depth+1)
				}
			}
			if ap := a.sc.AdditionalProperties; ap != nil && ap.Schema != nil {
				for k := s.Range(0, 2); k > 0; k-- {
					out[pbt.Pick(s, "k1", "k2", "a")] = f.value(ap.Schema, a.pkg, depth+1)
				}
			}
		}
		if s.Chance(10) {
			out["zz"] = true
		}
		return out
	}
	return "a"
}

func showFlatten(a any) string {
	c := a.(*flCase)
	var b strings.Builder
	for i, t := range c.types {
		j, _ := json.Marshal(t.schema)
		fmt.Fprintf(&b, "%s: %s\n", t.id, j)
		for _, v := range c.values[i] {
			j, _ := json.Marshal(v)
			fmt.Fprintf(&b, "    value %s\n", j)
		}
	}
	return b.String()
}

func (c *flCase) flattener() (*crd.Flattener, []crd.TypeIdent, []*loader.Package) {
	var pkgs []*loader.Package
	over := map[string]crd.PackageOverride{}
	for _, p := range flPkgs {
		pkgs = append(pkgs, &loader.Package{Package: &packages.Package{PkgPath: p}})
		over[p] = func(*crd.Parser, *loader.Package) {}
	}
	par := &crd.Parser{Schemata: map[crd.TypeIdent]schemaT{}, PackageOverrides: over}
	fl := &crd.Flattener{Parser: par, LookupReference: func(ref string, ctx *loader.Package) (crd.TypeIdent, error) {
		typ, name, err := crd.RefParts(ref)
		if err != nil {
			return crd.TypeIdent{}, err
		}
		if name == "" {
			return crd.TypeIdent{Name: typ, Package: ctx}, nil
		}
		for i, p := range flPkgs {
			if p == name {
				return crd.TypeIdent{Name: typ, Package: pkgs[i]}, nil
			}
		}
		return crd.TypeIdent{}, fmt.Errorf("unknown package %q", name)
	}}
	var ids []crd.TypeIdent
	for _, t := range c.types {
		id := crd.TypeIdent{Name: t.id.name, Package: pkgs[t.id.pkg]}
		ids = append(ids, id)
		par.Schemata[id] = *t.schema.DeepCopy()
	}
	return fl, ids, pkgs
}

type errSink struct {
	mu   sync.Mutex
	errs []string
}

func (e *errSink) AddError(err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.errs = append(e.errs, err.Error())
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

// leftovers finds references and merge leftovers.
func leftovers(sc *schemaT) string {
	bad := ""
	note := func(at, what string) {
		if bad == "" {
			bad = what + " at " + at
		}
	}
	jsv.Walk(sc, "$", func(at string, x *schemaT) {
		if x.Ref != nil {
			note(at, "reference "+*x.Ref)
		}
		for i := range x.AllOf {
			if reflect.DeepEqual(x.AllOf[i], schemaT{}) {
				note(at, "empty allOf branch")
			}
			if len(x.AllOf[i].AllOf) > 0 {
				note(at, "nested allOf")
			}
			if x.AllOf[i].Type != "" {
				note(at, "type in allOf")
			}
		}
		if x.ExclusiveMaximum && x.Maximum == nil {
			note(at, "exclusiveMaximum without maximum")
		}
		if x.ExclusiveMinimum && x.Minimum == nil {
			note(at, "exclusiveMinimum without minimum")
		}
		if !sort.StringsAreSorted(x.Required) && len(x.AllOf) > 0 {
			_ = at
		}
		seen := map[string]bool{}
		for _, r := range x.Required {
			if seen[r] && false {
				note(at, "required repeats "+r)
			}
			seen[r] = true
		}
	})
	return bad
}

// docs compares the documentation of a flattened schema with that of its
// source: what is written beside a reference wins over what the referenced type
// says. Places that several embedded types define are left out.
func (c *flCase) docs(flat, src *schemaT, pkg int, at string) string {
	desc, title := "", ""
	cur, p := src, pkg
	for {
		if desc == "" {
			desc = cur.Description
		}
		if title == "" {
			title = cur.Title
		}
		if cur.Ref == nil {
			break
		}
		t, tp, err := c.resolve(*cur.Ref, p)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		cur, p = t, tp.(int)
	}
	if flat.Description != desc {
		return fmt.Sprintf("%s: description %q, want %q", at, flat.Description, desc)
	}
	if flat.Title != title {
		return fmt.Sprintf("%s: title %q, want %q", at, flat.Title, title)
	}
	var all []flAt
	c.conj(src, pkg, &all)
	type sub struct {
		flat *schemaT
		get  func(*schemaT) *schemaT
		at   string
	}
	var subs []sub
	for _, k := range jsv.Keys(flat.Properties) {
		f := flat.Properties[k]
		subs = append(subs, sub{&f, func(x *schemaT) *schemaT {
			if v, ok := x.Properties[k]; ok {
				return &v
			}
			return nil
		}, at + "." + k})
	}
	if flat.Items != nil && flat.Items.Schema != nil {
		subs = append(subs, sub{flat.Items.Schema, func(x *schemaT) *schemaT {
			if x.Items == nil {
				return nil
			}
			return x.Items.Schema
		}, at + "[]"})
	}
	if flat.AdditionalProperties != nil && flat.AdditionalProperties.Schema != nil {
		subs = append(subs, sub{flat.AdditionalProperties.Schema, func(x *schemaT) *schemaT {
			if x.AdditionalProperties == nil {
				return nil
			}
			return x.AdditionalProperties.Schema
		}, at + "{}"})
	}
	for _, sb := range subs {
		var from []flAt
		for _, a := range all {
			if x := sb.get(a.sc); x != nil {
				from = append(from, flAt{x, a.pkg})
			}
		}
		if len(from) == 1 {
			if bad := c.docs(sb.flat, from[0].sc, from[0].pkg, sb.at); bad != "" {
				return bad
			}
		}
	}
	return ""
}

func checkFlatten(c *flCase) pbt.Outcome {
	fl, ids, pkgs := c.flattener()
	var flat []*schemaT
	sink := &errSink{}
	for _, id := range ids {
		part := fl.FlattenType(id)
		if part == nil {
			return pbt.Failf("flattening failed", "%v", pkgs)
		}
		flat = append(flat, crd.FlattenEmbedded(part, sink))
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return pbt.Failf("flattening failed", "%v", e)
		}
	}
	if len(sink.errs) > 0 {
		return pbt.Failf("flattening failed", "%v", sink.errs)
	}
	refs, merged := 0, 0
	for i, t := range c.types {
		if !reflect.DeepEqual(fl.Parser.Schemata[ids[i]], t.schema) {
			return pbt.Failf("source schema changed", "of %s: now %s", t.id, jsonOf(fl.Parser.Schemata[ids[i]]))
		}
		if l := leftovers(flat[i]); l != "" {
			return pbt.Failf("leftovers", "%s in the flattened %s: %s", l, t.id, jsonOf(flat[i]))
		}
		if bad := c.docs(flat[i], &t.schema, t.id.pkg, t.id.String()); bad != "" {
			return pbt.Failf("documentation", "%s; flattened: %s", bad, jsonOf(flat[i]))
		}
		jsv.Walk(&t.schema, "", func(_ string, x *schemaT) {
			if x.Ref != nil {
				refs++
				if jsonOf(x) != jsonOf(schemaT{Ref: x.Ref}) {
					merged++
				}
			}
		})
		for _, v := range c.values[i] {
			want, err := jsv.Valid(&t.schema, v, c.resolve, t.id.pkg)
			if err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			got, err := jsv.Valid(flat[i], v, nil, nil)
			if err != nil {
				return pbt.Failf("flattened schema unusable", "%v in %s", err, jsonOf(flat[i]))
			}
			if (want == "") != (got == "") {
				return pbt.Failf("meaning changed", "%s accepts %s: with references %q, flattened %q; flattened: %s", t.id, jsonOf(v), orOK(want), orOK(got), jsonOf(flat[i]))
			}
		}
	}
	// another order on a fresh flattener, and again on the used one
	fl2, ids2, _ := c.flattener()
	for _, i := range c.order {
		p := fl2.FlattenType(ids2[i])
		o := crd.FlattenEmbedded(p, sink)
		if jsonOf(o) != jsonOf(flat[i]) {
			return pbt.Failf("depends on history", "%s flattened after others: %s, first: %s", c.types[i].id, jsonOf(o), jsonOf(flat[i]))
		}
	}
	for i := range ids {
		if o := crd.FlattenEmbedded(fl.FlattenType(ids[i]), sink); jsonOf(o) != jsonOf(flat[i]) {
			return pbt.Failf("depends on history", "%s flattened again: %s, first: %s", c.types[i].id, jsonOf(o), jsonOf(flat[i]))
		}
		o := crd.FlattenEmbedded(fl.FlattenSchema(c.types[i].schema, ids[i].Package), sink)
		if jsonOf(o) != jsonOf(flat[i]) {
			return pbt.Failf("depends on history", "%s as a bare schema: %s, as a type: %s", c.types[i].id, jsonOf(o), jsonOf(flat[i]))
		}
	}
	return pbt.OK(refs >= 2 && merged >= 1)
}

func orOK(s string) string {
	if s == "" {
		return "accepted"
	}
	return s
}

var _ = big.NewInt

func init() {
	register(&Prop{
		ID:          "C07",
		Probes:      flProbes(),
		Rule:        "Random acyclic graphs of schemas over three packages (aliases, properties, items, map values and embedded types by reference, constraints beside references, equal names in several packages) and values near the boundaries; flattened and referenced schemas must accept the same values and say the same (documentation beside a reference wins over the type's), no reference or merge leftover may remain, sources stay unchanged and results do not depend on the order. Non-trivial: at least two references, one with constraints beside it.",
		Assumptions: []string{"the harness's JSON schema evaluator; nullable widens, everything else restricts"},
		Families:    []*pbt.Family{{Name: "graphs", Gen: genFlatten, Check: pbt.Each(checkFlatten), Show: showFlatten, Batch: 200, Parallel: 8, Quick: 150000, Thorough: 2000000, ShrinkBatch: 2000}},
	})
}

func flProbe(c *flCase) func() pbt.Outcome {
	for i := range c.types {
		c.order = append(c.order, i)
	}
	return func() pbt.Outcome { return pbt.Guard(func() pbt.Outcome { return checkFlatten(c) }) }
}

func flProbes() []Probe {
	str := func(x string) *string { return &x }
	num := func(x float64) *float64 { return &x }
	return []Probe{
		{"exclusive-maximum-hoisted", flProbe(&flCase{types: []*flType{
			{id: flTypeID{0, "A"}, kind: "integer", schema: schemaT{Ref: str("#/definitions/B"), Maximum: num(10)}},
			{id: flTypeID{0, "B"}, kind: "integer", schema: schemaT{Type: "integer", Maximum: num(10), ExclusiveMaximum: true}},
		}, values: [][]any{{json.Number("10"), json.Number("9")}, {json.Number("10")}}})},
		{"exclusive-minimum-hoisted", flProbe(&flCase{types: []*flType{
			{id: flTypeID{0, "A"}, kind: "integer", schema: schemaT{Ref: str("#/definitions/B"), Minimum: num(1), ExclusiveMinimum: true}},
			{id: flTypeID{0, "B"}, kind: "integer", schema: schemaT{Type: "integer", Minimum: num(1)}},
		}, values: [][]any{{json.Number("1"), json.Number("2")}, {json.Number("1")}}})},
		{"same-name-in-two-packages", flProbe(&flCase{types: []*flType{
			{id: flTypeID{0, "A"}, kind: "string", schema: schemaT{Ref: str("#/definitions/D")}},
			{id: flTypeID{0, "D"}, kind: "string", schema: schemaT{Ref: str("#/definitions/ex.test~1other~0B")}},
			{id: flTypeID{1, "B"}, kind: "string", schema: schemaT{Ref: str("#/definitions/D")}},
			{id: flTypeID{1, "D"}, kind: "string", schema: schemaT{Type: "string"}},
		}, values: [][]any{{"a", true}, {"a"}, {"a"}, {"a"}}})},
	}
}
