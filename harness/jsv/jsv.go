// Package jsv decides whether a JSON value conforms to an OpenAPI v3 schema as
// Kubernetes uses it, and which parts of a value a structural schema names.
package jsv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"sync"
	"time"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

// Schema is the schema type.
type Schema = apiext.JSONSchemaProps

// Resolve finds what a reference, seen in a context, means. The returned
// context applies to references inside the result.
type Resolve func(ref string, ctx any) (*Schema, any, error)

// Decode parses JSON keeping numbers exact.
func Decode(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// Num reads a number exactly (nil if v is not a number).
func Num(v any) *big.Rat {
	switch n := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(string(n))
		if !ok {
			return nil
		}
		return r
	case int:
		return new(big.Rat).SetInt64(int64(n))
	case int64:
		return new(big.Rat).SetInt64(n)
	case float64:
		return new(big.Rat).SetFloat64(n)
	}
	return nil
}

// Equal compares JSON values, numbers by value.
func Equal(a, b any) bool {
	if x, y := Num(a), Num(b); x != nil || y != nil {
		return x != nil && y != nil && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, has := y[k]
			if !has || !Equal(x[k], v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

type v struct {
	res Resolve
	err error
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func re(p string) *regexp.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := reCache[p]; ok {
		return r
	}
	r, err := regexp.Compile(p)
	if err != nil {
		r = nil
	}
	reCache[p] = r
	return r
}

// Valid reports "" if the value conforms, otherwise why not. err is for a
// schema that cannot be judged.
func Valid(s *Schema, val any, res Resolve, ctx any) (why string, err error) {
	x := &v{res: res}
	why = x.check(s, val, ctx, "$", 0)
	return why, x.err
}

func typeOf(val any) string {
	switch val.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	}
	if n := Num(val); n != nil {
		if n.IsInt() {
			return "integer"
		}
		return "number"
	}
	return "?"
}

func (x *v) fail(err error) string {
	if x.err == nil {
		x.err = err
	}
	return "unjudged"
}

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// nullable says whether null is allowed: "nullable" widens the schema it is
// written beside, so it counts wherever it is written on a reference chain.
func (x *v) nullable(s *Schema, ctx any, depth int) bool {
	if s.Nullable {
		return true
	}
	if depth > 200 {
		return false
	}
	if s.Ref != nil && *s.Ref != "" && x.res != nil {
		if t, tctx, err := x.res(*s.Ref, ctx); err == nil && x.nullable(t, tctx, depth+1) {
			return true
		}
	}
	for i := range s.AllOf {
		if x.nullable(&s.AllOf[i], ctx, depth+1) {
			return true
		}
	}
	return false
}

func (x *v) check(s *Schema, val any, ctx any, at string, depth int) string {
	if depth > 200 {
		return x.fail(fmt.Errorf("schema too deep"))
	}
	if val == nil && x.nullable(s, ctx, depth) {
		return ""
	}
	if s.Ref != nil && *s.Ref != "" {
		if x.res == nil {
			return x.fail(fmt.Errorf("unexpected reference %s", *s.Ref))
		}
		t, tctx, err := x.res(*s.Ref, ctx)
		if err != nil {
			return x.fail(err)
		}
		if why := x.check(t, val, tctx, at, depth+1); why != "" {
			return why
		}
	}
	typ := typeOf(val)
	if s.Type != "" && s.Type != typ && !(s.Type == "number" && typ == "integer") {
		return fmt.Sprintf("%s: is %s, not %s", at, typ, s.Type)
	}
	if s.XIntOrString && typ != "integer" && typ != "string" {
		return fmt.Sprintf("%s: is %s, not int or string", at, typ)
	}
	if len(s.Enum) > 0 {
		found := false
		for _, e := range s.Enum {
			ev, err := Decode(e.Raw)
			if err != nil {
				return x.fail(fmt.Errorf("enum value %q: %v", e.Raw, err))
			}
			found = found || Equal(ev, val)
		}
		if !found {
			return at + ": not in enum"
		}
	}
	switch typ {
	case "integer", "number":
		n := Num(val)
		if s.Maximum != nil {
			c := n.Cmp(rat(*s.Maximum))
			if c > 0 || c == 0 && s.ExclusiveMaximum {
				return at + ": above maximum"
			}
		}
		if s.Minimum != nil {
			c := n.Cmp(rat(*s.Minimum))
			if c < 0 || c == 0 && s.ExclusiveMinimum {
				return at + ": below minimum"
			}
		}
		if s.MultipleOf != nil && *s.MultipleOf != 0 {
			if !new(big.Rat).Quo(n, rat(*s.MultipleOf)).IsInt() {
				return at + ": not a multiple"
			}
		}
	case "string":
		str := val.(string)
		n := int64(utf8.RuneCountInString(str))
		if s.MaxLength != nil && n > *s.MaxLength {
			return at + ": too long"
		}
		if s.MinLength != nil && n < *s.MinLength {
			return at + ": too short"
		}
		if s.Pattern != "" {
			r := re(s.Pattern)
			if r == nil {
				return x.fail(fmt.Errorf("bad pattern %q", s.Pattern))
			}
			if !r.MatchString(str) {
				return at + ": does not match pattern"
			}
		}
		switch s.Format {
		case "date-time":
			if _, err := time.Parse(time.RFC3339Nano, str); err != nil {
				return at + ": not a date-time"
			}
		case "byte":
			if !re(`^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$`).MatchString(str) {
				return at + ": not base64"
			}
		}
	case "array":
		arr := val.([]any)
		n := int64(len(arr))
		if s.MaxItems != nil && n > *s.MaxItems {
			return at + ": too many items"
		}
		if s.MinItems != nil && n < *s.MinItems {
			return at + ": too few items"
		}
		if s.UniqueItems {
			for i := range arr {
				for j := range arr[:i] {
					if Equal(arr[i], arr[j]) {
						return at + ": repeated items"
					}
				}
			}
		}
		if s.Items != nil && s.Items.Schema != nil {
			for i, e := range arr {
				if why := x.check(s.Items.Schema, e, ctx, fmt.Sprintf("%s[%d]", at, i), depth+1); why != "" {
					return why
				}
			}
		}
	case "object":
		obj := val.(map[string]any)
		n := int64(len(obj))
		if s.MaxProperties != nil && n > *s.MaxProperties {
			return at + ": too many properties"
		}
		if s.MinProperties != nil && n < *s.MinProperties {
			return at + ": too few properties"
		}
		for _, r := range s.Required {
			if _, has := obj[r]; !has {
				return fmt.Sprintf("%s: %q is missing", at, r)
			}
		}
		for _, k := range Keys(obj) {
			p, named := s.Properties[k]
			if named {
				if why := x.check(&p, obj[k], ctx, at+"."+k, depth+1); why != "" {
					return why
				}
				continue
			}
			if s.AdditionalProperties != nil {
				if s.AdditionalProperties.Schema != nil {
					if why := x.check(s.AdditionalProperties.Schema, obj[k], ctx, at+"."+k, depth+1); why != "" {
						return why
					}
				} else if !s.AdditionalProperties.Allows {
					return at + "." + k + ": not allowed"
				}
			}
		}
	}
	for i := range s.AllOf {
		if why := x.check(&s.AllOf[i], val, ctx, at, depth+1); why != "" {
			return why
		}
	}
	if len(s.AnyOf) > 0 {
		first := ""
		ok := false
		for i := range s.AnyOf {
			why := x.check(&s.AnyOf[i], val, ctx, at, depth+1)
			if why == "" {
				ok = true
				break
			}
			if first == "" {
				first = why
			}
		}
		if !ok {
			return "anyOf: " + first
		}
	}
	if len(s.OneOf) > 0 {
		n := 0
		for i := range s.OneOf {
			if x.check(&s.OneOf[i], val, ctx, at, depth+1) == "" {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("%s: oneOf matched %d times", at, n)
		}
	}
	if s.Not != nil && x.check(s.Not, val, ctx, at, depth+1) == "" {
		return at + ": matches not"
	}
	return ""
}

// Keys are the sorted keys.
func Keys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Unnamed lists the parts of the value that the structural schema does not
// name, so that they would be pruned. Metadata of the root is the server's.
func Unnamed(s *Schema, val any, at string) []string {
	var out []string
	switch t := val.(type) {
	case map[string]any:
		if s.XPreserveUnknownFields != nil && *s.XPreserveUnknownFields || s.XEmbeddedResource {
			for _, k := range Keys(t) {
				if p, ok := s.Properties[k]; ok {
					out = append(out, Unnamed(&p, t[k], at+"."+k)...)
				}
			}
			return out
		}
		for _, k := range Keys(t) {
			switch p, ok := s.Properties[k]; {
			case ok:
				out = append(out, Unnamed(&p, t[k], at+"."+k)...)
			case s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil:
				out = append(out, Unnamed(s.AdditionalProperties.Schema, t[k], at+"."+k)...)
			case s.AdditionalProperties != nil && s.AdditionalProperties.Allows:
			default:
				out = append(out, at+"."+k)
			}
		}
	case []any:
		for i, e := range t {
			if s.Items != nil && s.Items.Schema != nil {
				out = append(out, Unnamed(s.Items.Schema, e, fmt.Sprintf("%s[%d]", at, i))...)
			}
		}
	}
	return out
}

// Walk visits every schema in s (itself included) with its path.
func Walk(s *Schema, at string, f func(at string, s *Schema)) {
	if s == nil {
		return
	}
	f(at, s)
	for _, k := range Keys(s.Properties) {
		p := s.Properties[k]
		Walk(&p, at+"."+k, f)
	}
	for _, k := range Keys(s.PatternProperties) {
		p := s.PatternProperties[k]
		Walk(&p, at+"/pattern "+k, f)
	}
	for _, k := range Keys(s.Definitions) {
		p := s.Definitions[k]
		Walk(&p, at+"/definition "+k, f)
	}
	for _, k := range Keys(s.Dependencies) {
		Walk(s.Dependencies[k].Schema, at+"/dependency "+k, f)
	}
	for i := range s.AllOf {
		Walk(&s.AllOf[i], fmt.Sprintf("%s/allOf%d", at, i), f)
	}
	for i := range s.AnyOf {
		Walk(&s.AnyOf[i], fmt.Sprintf("%s/anyOf%d", at, i), f)
	}
	for i := range s.OneOf {
		Walk(&s.OneOf[i], fmt.Sprintf("%s/oneOf%d", at, i), f)
	}
	Walk(s.Not, at+"/not", f)
	if s.Items != nil {
		Walk(s.Items.Schema, at+"[]", f)
		for i := range s.Items.JSONSchemas {
			Walk(&s.Items.JSONSchemas[i], fmt.Sprintf("%s[%d]", at, i), f)
		}
	}
	if s.AdditionalProperties != nil {
		Walk(s.AdditionalProperties.Schema, at+"{}", f)
	}
	if s.AdditionalItems != nil {
		Walk(s.AdditionalItems.Schema, at+"/additionalItems", f)
	}
}
