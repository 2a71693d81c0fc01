From ccb3821c7d63dc9d97e5795fbc1c0a3396e51f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 01/80] fix: keep RBAC rules with different targets apart when
 merging

An unset list and a list holding one empty string (and values containing
the separators) produced the same key, so rules with different targets
were merged: permissions were lost or granted depending on marker order.
---
 pkg/rbac/parser.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..7016601 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -25,6 +25,7 @@ package rbac
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	rbacv1 "k8s.io/api/rbac/v1"
@@ -85,28 +86,38 @@ func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].Str
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinKeys(r.Groups),
+		Resources:     joinKeys(r.Resources),
+		ResourceNames: joinKeys(r.ResourceNames),
+		URLs:          joinKeys(r.URLs),
 	}
 }
 
+// joinKeys joins the given strings such that different lists never
+// produce the same result (e.g. an unset list and one with an empty string).
+func joinKeys(strs []string) string {
+	quoted := make([]string, len(strs))
+	for i, str := range strs {
+		quoted[i] = strconv.Quote(str)
+	}
+	return strings.Join(quoted, "&")
+}
+
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKeys(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWithResourcesResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKeys(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWitGroupResourcesResourceNamesVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKeys(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.Resources, key.ResourceNames, verbs)
 }
 
-- 
2.43.0


From 6b74f775a56379dda276cb3d05dee5b0a6a2444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/80] fix: do not drop RBAC rules when a merge yields an
 existing target

Merging rules by group or URL could produce the same target as another
rule with different verbs; one of the two was dropped at random.
---
 pkg/rbac/parser.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 7016601..f4a3c9e 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -127,6 +127,17 @@ func (r *Rule) addVerbs(verbs []string) {
 	r.Verbs = removeDupAndSort(append(r.Verbs, verbs...))
 }
 
+// addRule adds the given rule to the map, merging its verbs into the rule
+// that's already present for the same key, if any.
+func addRule(rules map[ruleKey]*Rule, rule *Rule) {
+	key := rule.key()
+	if existing, ok := rules[key]; ok {
+		existing.addVerbs(rule.Verbs)
+		return
+	}
+	rules[key] = rule
+}
+
 // normalize removes duplicates from each field of a Rule, and sorts each field.
 func (r *Rule) normalize() {
 	r.Groups = removeDupAndSort(r.Groups)
@@ -244,12 +255,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				}
 			}
 
-			key := rule.key()
-			if _, ok := ruleMap[key]; !ok {
-				ruleMap[key] = rule
-				continue
-			}
-			ruleMap[key].addVerbs(rule.Verbs)
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate resources
@@ -267,9 +273,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.Resources = append(rule.Resources, mergeRule.Resources...)
 			}
-
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate groups
@@ -287,8 +291,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate URLs
@@ -306,8 +309,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// sort the Rules in rules according to their ruleKeys
-- 
2.43.0


From 617afbc3103c0d2bc630b26a69007c153bb168be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 03/80] fix: accept negative numbers after a space in markers

A space after the colon of a map entry made a negative number fail to
parse, e.g. {key: -1}.
---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..9160e5c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -516,7 +516,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -542,7 +542,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From c32497478fce3e52a0f7afae716e66da247b8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 04/80] fix: reject marker integers that do not fit the
 argument's type

Values beyond 32 bits silently wrapped around for int32 arguments.
---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 9160e5c..fa6d70a 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -551,7 +551,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -561,6 +560,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("integer %d is out of range for %s", val, out.Type()))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From b0cd8087f7ce7200fd1135017f21b21aee037563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 05/80] fix: keep bare marker strings that are followed by a
 space

A space before a separator made the parser lose the last word of a bare
string, e.g. {a , b} was read as an empty string and b.
---
 pkg/markers/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index fa6d70a..385ec64 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -402,11 +402,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	// NB: skipping whitespace resets the token text, so compute the end right after scanning
+	endPos := startPos + len(scanner.TokenText())
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Position.Offset + len(scanner.TokenText())
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From b96f3d530a4ea3aa7ca42925d71fb94b9c7fb9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 06/80] fix: keep package markers found above types in file
 order

---
 pkg/markers/collect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..4671177 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -192,6 +193,11 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 		}
 		visitor.nodeMarkers[node] = markers[:endOfMarkers] // re-set after trimming the package markers
 	}
+	// the type-level fallbacks above were found in random order, so go back to
+	// the order in the file
+	sort.SliceStable(visitor.pkgMarkers, func(i, j int) bool {
+		return visitor.pkgMarkers[i].Pos() < visitor.pkgMarkers[j].Pos()
+	})
 	visitor.nodeMarkers[file] = visitor.pkgMarkers
 
 	return visitor.nodeMarkers
-- 
2.43.0


From 12cb100cbbc72cb0e2563998e2810f4233c24836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 07/80] fix: keep exclusive bounds with their bound when
 flattening

---
 pkg/crd/flatten.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..715616a 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -57,7 +57,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	}
 
 	dstVal := reflect.Indirect(reflect.ValueOf(dst))
-	srcVal := reflect.ValueOf(src)
+	srcVal := reflect.Indirect(reflect.ValueOf(&src))
 	typ := dstVal.Type()
 
 	srcRemainder := apiext.JSONSchemaProps{}
@@ -158,6 +158,16 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 			dstRemVal.Field(i).Set(dstField)
 			// ...and clear the original
 			dstField.Set(zeroVal)
+
+			// exclusivity has no meaning without its bound, so keep them together
+			switch fieldName {
+			case "Maximum":
+				srcRemainder.ExclusiveMaximum, dstRemainder.ExclusiveMaximum = src.ExclusiveMaximum, dst.ExclusiveMaximum
+				src.ExclusiveMaximum, dst.ExclusiveMaximum = false, false
+			case "Minimum":
+				srcRemainder.ExclusiveMinimum, dstRemainder.ExclusiveMinimum = src.ExclusiveMinimum, dst.ExclusiveMinimum
+				src.ExclusiveMinimum, dst.ExclusiveMinimum = false, false
+			}
 		}
 	}
 
-- 
2.43.0


From dfaf859e9ff06409807d16d057b16c403d946477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 08/80] fix: resolve references to types with the same name in
 different packages

---
 pkg/crd/flatten.go        |  5 +++++
 pkg/crd/schema_visitor.go | 28 ++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 715616a..9461c4a 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -385,6 +385,11 @@ type flattenVisitor struct {
 	originalField  apiext.JSONSchemaProps
 }
 
+// refScope makes references relative to the package that they're written in.
+func (f *flattenVisitor) refScope() interface{} {
+	return f.currentPackage
+}
+
 func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor {
 	if baseSchema == nil {
 		// end-of-node marker, cache the results
diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..ac7056d 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -48,6 +48,26 @@ type schemaWalker struct {
 	visitor SchemaVisitor
 }
 
+// refScoper is implemented by visitors for which the same reference may mean
+// different things in different places (like in different packages).
+type refScoper interface {
+	refScope() interface{}
+}
+
+// scopedRef is a reference together with the scope that gives it its meaning.
+type scopedRef struct {
+	scope interface{}
+	ref   string
+}
+
+// scopeRef qualifies the given reference with the scope of the given visitor.
+func scopeRef(visitor SchemaVisitor, ref string) scopedRef {
+	if scoper, isScoper := visitor.(refScoper); isScoper {
+		return scopedRef{scope: scoper.refScope(), ref: ref}
+	}
+	return scopedRef{ref: ref}
+}
+
 // walkSchema walks the given schema, saving modifications made by the visitor
 // (this is as simple as passing a pointer in most cases, but special care
 // needs to be taken to persist with maps).  It also visits referenced
@@ -59,9 +79,9 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 	// Walk a potential chain of schema references, keeping track of seen
 	// references to avoid circular references
 	subVisitor := w.visitor
-	seenRefs := map[string]bool{}
+	seenRefs := map[scopedRef]bool{}
 	if schema.Ref != nil {
-		seenRefs[*schema.Ref] = true
+		seenRefs[scopeRef(subVisitor, *schema.Ref)] = true
 	}
 	for {
 		subVisitor = subVisitor.Visit(schema)
@@ -72,10 +92,10 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		defer subVisitor.Visit(nil)
 
 		// Break if schema is not a reference or a cycle is detected
-		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[*schema.Ref] {
+		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[scopeRef(subVisitor, *schema.Ref)] {
 			break
 		}
-		seenRefs[*schema.Ref] = true
+		seenRefs[scopeRef(subVisitor, *schema.Ref)] = true
 	}
 
 	// walk sub-schemata
-- 
2.43.0


From c95df247e5d1a3445140044e8140943709a474e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 09/80] fix: fields with omitzero are not required

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..5510b9c 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -432,7 +432,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			switch opt {
 			case "inline":
 				inline = true
-			case "omitempty":
+			case "omitempty", "omitzero":
 				omitEmpty = true
 			}
 		}
-- 
2.43.0


From 51f7468bbc21dc9d3d09cdcff206d79f6ccd59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 10/80] fix: use the Go name of fields whose JSON tag has no
 name

---
 pkg/crd/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 5510b9c..d3a161c 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -437,6 +437,10 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			}
 		}
 		fieldName := jsonOpts[0]
+		if fieldName == "" && field.Name != "" && !inline {
+			// the tag doesn't rename the field, so it goes by its Go name
+			fieldName = field.Name
+		}
 		inline = inline || fieldName == "" // anonymous fields are inline fields in YAML/JSON
 
 		// if no default required mode is set, default to required
-- 
2.43.0


From 75c404f714ebdbb56e3e02f8f2734225da0bba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 11/80] fix: report predeclared types as unsupported and accept
 aliases of unnamed types

---
 pkg/crd/schema.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index d3a161c..1c5e72e 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -295,7 +295,18 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	var typeNameInfo *types.TypeName
+	if namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName }); isNamed {
+		typeNameInfo = namedInfo.Obj()
+	} else {
+		// the target of an alias needn't have a name, so refer to the alias itself
+		typeNameInfo, _ = ctx.pkg.TypesInfo.ObjectOf(ident).(*types.TypeName)
+	}
+	if typeNameInfo == nil || typeNameInfo.Pkg() == nil {
+		// predeclared non-basic types, like any and error
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -315,7 +326,11 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed || typeInfo.Obj().Pkg() == nil {
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From 2f1e83db3ac53005a5092758fdbb9ffbc8c9761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 12/80] fix: treat slices of every byte type as base64 strings

---
 pkg/crd/schema.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 1c5e72e..999ecdf 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -39,11 +39,6 @@ const (
 	defPrefix = "#/definitions/"
 )
 
-// byteType is the types.Type for byte (see the types documention
-// for why we need to look this up in the Universe), saved
-// for quick comparison.
-var byteType = types.Universe.Lookup("byte").Type()
-
 // SchemaMarker is any marker that needs to modify the schema of the underlying type or field.
 type SchemaMarker interface {
 	// ApplyToSchema is called after the rest of the schema for a given type
@@ -341,11 +336,21 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 	// NB(directxman12): we special-case things like resource.Quantity during the "collapse" phase.
 }
 
+// encodesAsByte checks if slices of the given type are encoded as base64 strings by encoding/json.
+func encodesAsByte(eltType types.Type) bool {
+	if eltType == nil {
+		return false
+	}
+	basicInfo, isBasic := eltType.Underlying().(*types.Basic)
+	// NB: byte is an alias of uint8
+	return isBasic && basicInfo.Kind() == types.Uint8 && !implements(eltType, jsonMarshaler) && !implements(eltType, textMarshaler)
+}
+
 // arrayToSchema creates a schema for the items of the given array, dealing appropriately
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if array.Len == nil && encodesAsByte(eltType) {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From 0c2bcc07bb97a25db76f43e3fa46ccbe92ddac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 13/80] fix: accept aliases of strings as map keys

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 999ecdf..5020a36 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -380,7 +380,7 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 				return &apiext.JSONSchemaProps{}
 			}
 			keyInfo = nil // stop iterating
-		case *types.Named:
+		case *types.Named, *types.Alias:
 			keyInfo = typedKey.Underlying()
 		default:
 			ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("map keys must be strings, not %s", keyInfo.String()), mapType.Key))
-- 
2.43.0


From 7ce9c1d5b79dfed34aede5e09a7f33b9d554460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 14/80] fix: report anonymous structs as errors instead of
 panicking

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 5020a36..0875490 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -423,7 +423,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From 4ce40945e1656090e8fd0937fed87617ce3bec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 15/80] fix: resolve dot-imported aliases where they are
 declared

---
 pkg/crd/schema.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 0875490..c2e7dc4 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -105,6 +105,17 @@ func (c *schemaContext) requestSchema(pkgPath, typeName string) {
 	})
 }
 
+// pathOf returns the import path by which the package of the given type is known
+// to the current package ("" for the current package itself), and whether the
+// current package knows it at all.
+func (c *schemaContext) pathOf(typeName *types.TypeName) (path string, reachable bool) {
+	if typeName.Pkg() == c.pkg.Types {
+		return "", true
+	}
+	path = loader.NonVendorPath(typeName.Pkg().Path())
+	return path, c.pkg.Imports()[path] != nil
+}
+
 // infoToSchema creates a schema for the type in the given set of type information.
 func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
 	if obj := ctx.pkg.Types.Scope().Lookup(ctx.info.Name); obj != nil {
@@ -275,8 +286,13 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 		// > Otherwise, the alias information is only in the type name, which
 		// > points directly to the actual (aliased) type.
 		if basicInfo.Name() != ident.Name {
-			ctx.requestSchema("", ident.Name)
-			link := TypeRefLink("", ident.Name)
+			pkgPath := ""
+			if aliasName, isTypeName := ctx.pkg.TypesInfo.Uses[ident].(*types.TypeName); isTypeName && aliasName.Pkg() != nil {
+				// NB: the alias might be dot-imported
+				pkgPath, _ = ctx.pathOf(aliasName)
+			}
+			ctx.requestSchema(pkgPath, ident.Name)
+			link := TypeRefLink(pkgPath, ident.Name)
 			return &apiext.JSONSchemaProps{
 				Type:   typ,
 				Format: fmt,
@@ -295,17 +311,18 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 		typeNameInfo = namedInfo.Obj()
 	} else {
 		// the target of an alias needn't have a name, so refer to the alias itself
-		typeNameInfo, _ = ctx.pkg.TypesInfo.ObjectOf(ident).(*types.TypeName)
+		typeNameInfo, _ = ctx.pkg.TypesInfo.Uses[ident].(*types.TypeName)
 	}
 	if typeNameInfo == nil || typeNameInfo.Pkg() == nil {
 		// predeclared non-basic types, like any and error
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
 		return &apiext.JSONSchemaProps{}
 	}
-	pkg := typeNameInfo.Pkg()
-	pkgPath := loader.NonVendorPath(pkg.Path())
-	if pkg == ctx.pkg.Types {
-		pkgPath = ""
+	pkgPath, reachable := ctx.pathOf(typeNameInfo)
+	if aliasName, isTypeName := ctx.pkg.TypesInfo.Uses[ident].(*types.TypeName); !reachable && isTypeName {
+		// the target of a (dot-imported) alias needn't be in a package that we import ourselves
+		typeNameInfo = aliasName
+		pkgPath, _ = ctx.pathOf(typeNameInfo)
 	}
 	ctx.requestSchema(pkgPath, typeNameInfo.Name())
 	link := TypeRefLink(pkgPath, typeNameInfo.Name())
-- 
2.43.0


From 802847fdbd9887f00b751198bebc675e5ca5e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 16/80] fix: do not require the empty name for required inline
 fields

---
 pkg/crd/schema.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index c2e7dc4..893e6cf 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -486,29 +486,32 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			defaultMode = "optional"
 		}
 
+		required := false
 		switch {
 		case field.Markers.Get("kubebuilder:validation:Optional") != nil:
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
 			// explicitly required - kubebuilder
-			props.Required = append(props.Required, fieldName)
+			required = true
 		case field.Markers.Get("optional") != nil:
 			// explicitly optional - kubernetes
 		case field.Markers.Get("required") != nil:
 			// explicitly required - kubernetes
-			props.Required = append(props.Required, fieldName)
+			required = true
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
 			// ...everything that's not inline / omitempty is required
-			if !inline && !omitEmpty {
-				props.Required = append(props.Required, fieldName)
-			}
+			required = !omitEmpty
 
 		// if this package isn't set to required default...
 		case defaultMode == "optional":
 			// implicitly optional
 		}
+		// inline fields have no name that could be required
+		if required && !inline {
+			props.Required = append(props.Required, fieldName)
+		}
 
 		var propSchema *apiext.JSONSchemaProps
 		if field.Markers.Get(crdmarkers.SchemalessName) != nil {
-- 
2.43.0


From f3bbcfdb334672b10af7e9538ffbfc033b0db53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 17/80] fix: describe fields with the string option as strings

---
 pkg/crd/schema.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 893e6cf..6245924 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -432,6 +432,19 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 	}
 }
 
+// encodesAsQuoted checks if encoding/json respects the "string" option, which puts the
+// encoded value into a string, for fields of the given type.
+func encodesAsQuoted(typ types.Type) bool {
+	if ptr, isPtr := typ.(*types.Pointer); isPtr {
+		typ = ptr.Elem()
+	}
+	if typ == nil || implements(typ, jsonMarshaler) || implements(typ, textMarshaler) {
+		return false
+	}
+	basicInfo, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basicInfo.Info()&(types.IsBoolean|types.IsString|types.IsInteger|types.IsFloat) != 0
+}
+
 // structToSchema creates a schema for the given struct.  Embedded fields are placed in AllOf,
 // and can be flattened later with a Flattener.
 func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSONSchemaProps {
@@ -465,12 +478,15 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		inline := false
 		omitEmpty := false
+		asString := false
 		for _, opt := range jsonOpts[1:] {
 			switch opt {
 			case "inline":
 				inline = true
 			case "omitempty", "omitzero":
 				omitEmpty = true
+			case "string":
+				asString = encodesAsQuoted(ctx.pkg.TypesInfo.TypeOf(field.RawField.Type))
 			}
 		}
 		fieldName := jsonOpts[0]
@@ -514,9 +530,12 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		}
 
 		var propSchema *apiext.JSONSchemaProps
-		if field.Markers.Get(crdmarkers.SchemalessName) != nil {
+		switch {
+		case field.Markers.Get(crdmarkers.SchemalessName) != nil:
 			propSchema = &apiext.JSONSchemaProps{}
-		} else {
+		case asString:
+			propSchema = &apiext.JSONSchemaProps{Type: "string"}
+		default:
 			propSchema = typeToSchema(ctx.ForInfo(&markers.TypeInfo{}), field.RawField.Type)
 		}
 		propSchema.Description = field.Doc
-- 
2.43.0


From 33c6a28845a4e1740d6b4ce3b3e403b167b88b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 18/80] fix: apply schema markers in a deterministic order

Markers of the same priority were applied in the iteration order of a map,
sorted unstably, so that repeated markers (like XValidation) beside a dozen
others ended up in random order.
---
 pkg/crd/schema.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 6245924..6e15bb6 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -154,8 +154,15 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	// be deterministic, and keep the markers of one name in the order they're written in
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -195,8 +202,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From a1a1983851e2cdd24392e8b81561112bf1a00002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 19/80] fix: apply the Type marker before ListType

Both had the same priority, so that whether a listType marker on a field
with an overridden type was accepted depended on chance.
---
 pkg/crd/markers/validation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..b7cc4dc 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -515,7 +515,8 @@ func (m Type) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
 }
 
 func (m Type) ApplyPriority() ApplyPriority {
-	return ApplyPriorityDefault - 1
+	// go before markers that check the type, even if those go before the others (like ListType)
+	return ApplyPriorityDefault - 2
 }
 
 func (m Nullable) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
-- 
2.43.0


From fcbbecaaa769f2d65ca3a2bfc27717113bf692d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 20/80] fix: keep integers in +default markers exact

They were read as floating point numbers, which changed integers that need
more than 53 bits (up to making them invalid for int64 fields).
---
 pkg/crd/markers/validation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index b7cc4dc..c0498b3 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -561,7 +561,14 @@ func (m *KubernetesDefault) ParseMarker(_ string, _ string, restFields string) e
 		// See https://github.com/kubernetes-sigs/controller-tools/pull/938#issuecomment-2096790018
 		return nil
 	}
-	return json.Unmarshal([]byte(restFields), &m.Value)
+	if !json.Valid([]byte(restFields)) {
+		// get the error
+		return json.Unmarshal([]byte(restFields), &m.Value)
+	}
+	// keep numbers as they're written, floats can't represent all integers
+	decoder := json.NewDecoder(strings.NewReader(restFields))
+	decoder.UseNumber()
+	return decoder.Decode(&m.Value)
 }
 
 // Defaults are only valid CRDs created with the v1 API
-- 
2.43.0


From dd12fd0f096fd78064daa3162ba1b25774036718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 21/80] fix: let the format marker on an alias of a builtin
 override its format

References to such an alias repeated the format of the builtin, so that both
formats ended up in allOf.
---
 pkg/crd/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 6e15bb6..f4b82bc 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -300,10 +300,10 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 			}
 			ctx.requestSchema(pkgPath, ident.Name)
 			link := TypeRefLink(pkgPath, ident.Name)
+			// NB: the format comes from the alias, which might override it
 			return &apiext.JSONSchemaProps{
-				Type:   typ,
-				Format: fmt,
-				Ref:    &link,
+				Type: typ,
+				Ref:  &link,
 			}
 		}
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From 85f10a887661857c0cc16e89fd2b8cb89d3b7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 22/80] fix: apply the markers on a pointer type once

They were applied to the schema of the type pointed to, and then again,
which repeated the ones that accumulate.
---
 pkg/crd/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f4b82bc..928600b 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -237,7 +237,8 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 	case *ast.MapType:
 		props = mapToSchema(ctx, expr)
 	case *ast.StarExpr:
-		props = typeToSchema(ctx, expr.X)
+		// NB: the markers are applied once, below
+		props = typeToSchema(ctx.ForInfo(&markers.TypeInfo{}), expr.X)
 	case *ast.StructType:
 		props = structToSchema(ctx, expr)
 	default:
-- 
2.43.0


From 627944f4f628470cea83d2bd0153dd601777c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 23/80] fix: accept markers on types with a JSON marshaler but
 no Type marker

Their markers were first applied to an empty schema, where those that need
a certain type of value failed.
---
 pkg/crd/markers/validation.go | 1 +
 pkg/crd/schema.go             | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index c0498b3..fb51a91 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -30,6 +30,7 @@ const (
 	validationPrefix = "kubebuilder:validation:"
 
 	SchemalessName        = "kubebuilder:validation:Schemaless"
+	ValidationTypeName    = validationPrefix + "Type"
 	ValidationItemsPrefix = validationPrefix + "items:"
 )
 
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 928600b..ee6e318 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -124,6 +124,9 @@ func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
 		// markers value and do not traverse as the marshaler could be doing
 		// anything. If there is no marker, fall back to traversing.
 		case implements(obj.Type(), jsonMarshaler):
+			if ctx.info.Markers.Get(crdmarkers.ValidationTypeName) == nil {
+				break
+			}
 			schema := &apiext.JSONSchemaProps{}
 			applyMarkers(ctx, ctx.info.Markers, schema, ctx.info.RawSpec.Type)
 			if schema.Type != "" {
-- 
2.43.0


From 8e97b72bd207fe5e0c1ba69d982bd4cef880519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 24/80] fix: keep the markers of text marshalers used through
 an alias

The schema of an alias (in another package) of a type with a MarshalText
method was made from the markers of the alias, without those of the type.
---
 pkg/crd/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index ee6e318..ab70664 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -118,7 +118,8 @@ func (c *schemaContext) pathOf(typeName *types.TypeName) (path string, reachable
 
 // infoToSchema creates a schema for the type in the given set of type information.
 func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
-	if obj := ctx.pkg.Types.Scope().Lookup(ctx.info.Name); obj != nil {
+	// NB: aliases have the methods of their target, but not its markers, so they just refer to it
+	if obj := ctx.pkg.Types.Scope().Lookup(ctx.info.Name); obj != nil && !ctx.info.RawSpec.Assign.IsValid() {
 		switch {
 		// If the obj implements a JSON marshaler and has a marker, use the
 		// markers value and do not traverse as the marshaler could be doing
-- 
2.43.0


From df1a9c3b4d6c1a7c018cfa7a713da861dc6c75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 25/80] fix: write no empty CRD for kinds without versions

Kinds in packages without a group name, and kinds whose versions are all
skipped, led to a file called _.yaml with an empty CRD.
---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..41e0d29 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, exists := parser.CustomResourceDefinitions[groupKind]
+		if !exists {
+			// nothing to write: no group is known for the kind, or all its versions are skipped
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From d30d22b6e35a3e172da3d3fed6754020fa76b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 26/80] fix: report malformed labels in metadata markers
 instead of panicking

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From 3668279ef6fc3264fbb47fae9727374aba1dc08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 27/80] fix: apply CRD markers in a deterministic order

Versions and the markers on them were visited in the iteration order of maps.
With conflicting markers on several versions the outcome was random, and so
was whether other markers on a skipped version were reported as errors (they
no longer are).
---
 pkg/crd/markers/crd.go |  5 ++++-
 pkg/crd/spec.go        | 26 ++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index d4a035d..f8057a0 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -24,6 +24,9 @@ import (
 	"sigs.k8s.io/controller-tools/pkg/markers"
 )
 
+// SkipVersionName is the name of the marker that removes a version from a CRD.
+const SkipVersionName = "kubebuilder:skipversion"
+
 // CRDMarkers lists all markers that directly modify the CRD (not validation
 // schemas).
 var CRDMarkers = []*definitionWithHelp{
@@ -43,7 +46,7 @@ var CRDMarkers = []*definitionWithHelp{
 	must(markers.MakeDefinition("kubebuilder:storageversion", markers.DescribesType, StorageVersion{})).
 		WithHelp(StorageVersion{}.Help()),
 
-	must(markers.MakeDefinition("kubebuilder:skipversion", markers.DescribesType, SkipVersion{})).
+	must(markers.MakeDefinition(SkipVersionName, markers.DescribesType, SkipVersion{})).
 		WithHelp(SkipVersion{}.Help()),
 
 	must(markers.MakeDefinition("kubebuilder:unservedversion", markers.DescribesType, UnservedVersion{})).
diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..94eef46 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,6 +24,7 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
@@ -60,6 +61,14 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// be deterministic: markers may conflict, and errors are put on the first package
+	sort.Slice(packages, func(i, j int) bool {
+		iVer, jVer := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version
+		if iVer != jVer {
+			return iVer < jVer
+		}
+		return packages[i].ID < packages[j].ID
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +122,21 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		// be deterministic, and only skip versions after everything else was applied to them
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for name := range typeInfo.Markers {
+			markerNames = append(markerNames, name)
+		}
+		sort.Slice(markerNames, func(i, j int) bool {
+			iSkips, jSkips := markerNames[i] == crdmarkers.SkipVersionName, markerNames[j] == crdmarkers.SkipVersionName
+			if iSkips != jSkips {
+				return jSkips
+			}
+			return markerNames[i] < markerNames[j]
+		})
+
+		for _, name := range markerNames {
+			for _, val := range typeInfo.Markers[name] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
-- 
2.43.0


From e45d92b47c19afd34da9b82d70bc0b82c15f3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 28/80] fix: don't add versions from packages that roots merely
 refer to

Whether the CRD of a kind had a version from such a package depended on
whether the CRD of a kind before it (in alphabetical order) referred to it.
---
 pkg/crd/gen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 41e0d29..598a7cc 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/types"
+	"maps"
 	"sort"
 	"strings"
 
@@ -177,7 +178,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		yamlOpts = append(yamlOpts, genall.WithTransform(transformPreserveUnknownFields(*g.DeprecatedV1beta1CompatibilityPreserveUnknownFields)))
 	}
 
+	// only the roots contribute versions, not the packages that get loaded because schemas refer to them
+	groupVersions := parser.GroupVersions
+
 	for _, groupKind := range kubeKinds {
+		parser.GroupVersions = maps.Clone(groupVersions)
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
 		crdRaw, exists := parser.CustomResourceDefinitions[groupKind]
 		if !exists {
-- 
2.43.0


From d9118e8f2ce12e539f15ae32f85dcce3302f49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 29/80] fix: report conflicting webhook configuration names of
 several packages

The name of the package that happened to come last was used.
---
 pkg/webhook/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..27369cf 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -463,6 +463,9 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 				if hasMutatingWebhookConfig {
 					return fmt.Errorf("duplicate mutating %s with name %s", WebhookConfigDefinition.Name, webhookCfg.Name)
 				}
+				if name := mutatingWebhookCfgs.Name; name != "" && name != webhookCfg.Name {
+					return fmt.Errorf("conflicting mutating %s with names %s and %s", WebhookConfigDefinition.Name, name, webhookCfg.Name)
+				}
 
 				if mutatingWebhookCfgs, err = webhookCfg.ToMutatingWebhookConfiguration(); err != nil {
 					return err
@@ -473,6 +476,9 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 				if hasValidatingWebhookConfig {
 					return fmt.Errorf("duplicate validating %s with name %s", WebhookConfigDefinition.Name, webhookCfg.Name)
 				}
+				if name := validatingWebhookCfgs.Name; name != "" && name != webhookCfg.Name {
+					return fmt.Errorf("conflicting validating %s with names %s and %s", WebhookConfigDefinition.Name, name, webhookCfg.Name)
+				}
 
 				if validatingWebhookCfgs, err = webhookCfg.ToValidatingWebhookConfiguration(); err != nil {
 					return err
-- 
2.43.0


From e91bc929e084354cabc4860fc6adc9c5e8e4de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 30/80] fix: order the webhooks of all packages by name

They were only ordered within their package, so that the manifest depended on
the order of the roots. Don't sort the collector's markers in place either.
---
 pkg/webhook/parser.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 27369cf..81c461e 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -488,12 +488,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			}
 		}
 
-		cfgs := markerSet[ConfigDefinition.Name]
-		sort.SliceStable(cfgs, func(i, j int) bool {
-			return cfgs[i].(Config).Name < cfgs[j].(Config).Name
-		})
-
-		for _, cfg := range cfgs {
+		for _, cfg := range markerSet[ConfigDefinition.Name] {
 			cfg := cfg.(Config)
 			webhookVersions, err := cfg.webhookVersions()
 			if err != nil {
@@ -519,6 +514,18 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		}
 	}
 
+	// sort over all roots, so that their order doesn't matter
+	for _, cfgs := range mutatingCfgs {
+		sort.SliceStable(cfgs, func(i, j int) bool {
+			return cfgs[i].Name < cfgs[j].Name
+		})
+	}
+	for _, cfgs := range validatingCfgs {
+		sort.SliceStable(cfgs, func(i, j int) bool {
+			return cfgs[i].Name < cfgs[j].Name
+		})
+	}
+
 	versionedWebhooks := make(map[string][]interface{}, len(supportedWebhookVersions))
 	for _, version := range supportedWebhookVersions {
 		if cfgs, ok := mutatingCfgs[version]; ok {
-- 
2.43.0


From 718834b18b66486c01ddeb78203c0871dde4ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 31/80] fix: don't change the groups of webhook markers

The markers are shared with everything else that asks the collector for them.
---
 pkg/webhook/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 81c461e..17d2590 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strings"
 
@@ -268,7 +269,7 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 func (c Config) rules() []admissionregv1.RuleWithOperations {
 	whConfig := admissionregv1.RuleWithOperations{
 		Rule: admissionregv1.Rule{
-			APIGroups:   c.Groups,
+			APIGroups:   slices.Clone(c.Groups),
 			APIVersions: c.Versions,
 			Resources:   c.Resources,
 		},
-- 
2.43.0


From 41fb84fa63ce2e64e17d5c629f336bce8c018388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 32/80] fix: reject webhook timeouts that overflow

---
 pkg/webhook/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 17d2590..92461ef 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"strings"
@@ -383,7 +384,8 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
 func (c Config) timeoutSeconds() *int32 {
 	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
+		// don't let values that overflow an int32 look like valid ones
+		timeoutSeconds := int32(max(min(c.TimeoutSeconds, math.MaxInt32), math.MinInt32))
 		return &timeoutSeconds
 	}
 	return nil
-- 
2.43.0


From 06817884cc5c12f2235afcaaaafd473df19bc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 33/80] fix: give the type of numeric and map arguments in
 marker help

---
 pkg/genall/help/types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..68deb99 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,11 +33,11 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, float64, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice item or map value, if this is a slice or map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
@@ -47,6 +47,11 @@ func (a Argument) typeString(out *strings.Builder) {
 		a.ItemType.typeString(out)
 		return
 	}
+	if a.Type == "map" {
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+		return
+	}
 
 	out.WriteString(a.Type)
 }
@@ -120,6 +125,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "float64"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +135,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From 68bc6465225248b14fe044c4d97e4e3701ed46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 34/80] fix: list markers with the same name in a deterministic
 order

---
 pkg/genall/help/types.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index 68deb99..5e25f0c 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -206,7 +206,17 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
 		sort.Slice(markers, func(i, j int) bool {
-			return sorter.Less(markers[i], markers[j])
+			if sorter.Less(markers[i], markers[j]) {
+				return true
+			}
+			if sorter.Less(markers[j], markers[i]) {
+				return false
+			}
+			// the same marker for different targets
+			if markers[i].Name != markers[j].Name {
+				return markers[i].Name < markers[j].Name
+			}
+			return markers[i].Target < markers[j].Target
 		})
 
 		markerDocs := make([]MarkerDoc, len(markers))
-- 
2.43.0


From b8dc6c01b6b0c2b72b2e236a74cf8e40fb883326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 35/80] fix: show the help of the webhookconfiguration marker

---
 pkg/webhook/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 92461ef..f5198d3 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -439,7 +439,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
-- 
2.43.0


From c2b95027cc8366c7a2078401120621e89aa4ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 36/80] fix: lock the registry while listing all definitions

---
 pkg/markers/reg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 7dcd458..5e49466 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -124,6 +124,9 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 
 // AllDefinitions returns all marker definitions known to this registry.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	res := make([]*Definition, 0, len(r.forPkg)+len(r.forType)+len(r.forField))
 	for _, def := range r.forPkg {
 		res = append(res, def)
-- 
2.43.0


From 2b741fd587df86fadbd121e54998e6a95d0c6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 37/80] fix: show the webhookconfiguration marker in its
 category

---
 pkg/webhook/parser.go                  | 2 +-
 pkg/webhook/zz_generated.markerhelp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index f5198d3..8dd5a29 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -58,7 +58,7 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..7c79ca6 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,7 +130,7 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
 			Summary: "",
 			Details: "",
-- 
2.43.0


From d7c658a73dc6b74e5ed342afab1e9e978d33d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 38/80] fix: don't change the groups of RBAC markers

The markers are shared with everything else that asks the collector for them.
---
 pkg/rbac/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index f4a3c9e..1c04a52 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -24,6 +24,7 @@ package rbac
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -217,7 +218,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			if len(rule.Resources) == 0 {
 				// Add a rule without any resource if Resources is empty.
 				r := Rule{
-					Groups:        rule.Groups,
+					Groups:        slices.Clone(rule.Groups),
 					Resources:     []string{},
 					ResourceNames: rule.ResourceNames,
 					URLs:          rule.URLs,
@@ -230,7 +231,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			}
 			for _, resource := range rule.Resources {
 				r := Rule{
-					Groups:        rule.Groups,
+					Groups:        slices.Clone(rule.Groups),
 					Resources:     []string{resource},
 					ResourceNames: rule.ResourceNames,
 					URLs:          rule.URLs,
-- 
2.43.0


From 1e3de95cb68afd58a96c16612fa8f468d80bd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 39/80] fix: don't cut characters in half when limiting
 descriptions

---
 pkg/crd/desc_visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..b460b3a 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,16 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
+	// Don't cut characters in half.
+	for maxLen > 0 && !utf8.RuneStart(desc[maxLen]) {
+		maxLen--
+	}
 	desc = desc[0:maxLen]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
@@ -76,7 +82,7 @@ func truncateString(desc string, maxLen int) string {
 		return desc[0:n] + "..."
 	}
 
-	return desc[0:maxLen] + "..."
+	return desc + "..."
 }
 
 // helper function to determine if given rune is a sentence terminal or not.
-- 
2.43.0


From 12da36fc3324c6adb6aeb64f31a6b6cdb29fa5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 40/80] fix: write strings with control characters and
 next-line characters to YAML

---
 pkg/genall/genall.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..0e4c44d 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"unicode/utf8"
 
 	"golang.org/x/tools/go/packages"
 	rawyaml "gopkg.in/yaml.v2"
@@ -189,7 +190,7 @@ func yamlJSONToYAMLWithFilter(j []byte, options ...*WriteYAMLOptions) ([]byte, e
 	// etc.) when unmarshalling to interface{}, it just picks float64
 	// universally. go-yaml does go through the effort of picking the right
 	// number type, so we can preserve number type throughout this process.
-	if err := rawyaml.Unmarshal(j, &jsonObj); err != nil {
+	if err := rawyaml.Unmarshal(escapeForYAML(j), &jsonObj); err != nil {
 		return nil, err
 	}
 
@@ -205,6 +206,20 @@ func yamlJSONToYAMLWithFilter(j []byte, options ...*WriteYAMLOptions) ([]byte, e
 	return rawyaml.Marshal(jsonObj)
 }
 
+// escapeForYAML escapes the characters that JSON allows in strings, but that
+// YAML rejects (control characters, byte-order marks) or takes for line breaks.
+func escapeForYAML(j []byte) []byte {
+	res := make([]byte, 0, len(j))
+	for _, r := range string(j) {
+		if r >= 0x7f && r <= 0x9f || r == 0xfeff || r == 0xfffe || r == 0xffff {
+			res = fmt.Appendf(res, "\\u%04x", r)
+		} else {
+			res = utf8.AppendRune(res, r)
+		}
+	}
+	return res
+}
+
 // ReadFile reads the given boilerplate artifact using the context's InputRule.
 func (g GenerationContext) ReadFile(path string) ([]byte, error) {
 	file, err := g.OpenForRead(path)
-- 
2.43.0


From ddc0904dd36547ed8b3871ab04699a41460d1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 41/80] fix: keep the space before the year in helpgen's header

---
 cmd/helpgen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..416edcb 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -121,7 +121,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		}
 		headerText = string(headerBytes)
 	}
-	headerText = strings.ReplaceAll(headerText, " YEAR", g.Year)
+	headerText = strings.ReplaceAll(headerText, " YEAR", " "+g.Year)
 
 	for _, root := range ctx.Roots {
 		byType := make(map[string]string)
-- 
2.43.0


From 351a58b4b4b95c46b1fcc7eafa6968ee7216fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 42/80] fix: don't panic in helpgen without a header file

---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index 416edcb..b62ae85 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From 943b32b302c93ef6578975fd7f6ee13e2f110477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 43/80] fix: show the default marker's argument as it is parsed

---
 pkg/crd/markers/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index fb51a91..d5ceb18 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -93,7 +93,7 @@ var FieldOnlyMarkers = []*definitionWithHelp{
 
 	must(markers.MakeAnyTypeDefinition("kubebuilder:default", markers.DescribesField, Default{})).
 		WithHelp(Default{}.Help()),
-	must(markers.MakeDefinition("default", markers.DescribesField, KubernetesDefault{})).
+	must(markers.MakeAnyTypeDefinition("default", markers.DescribesField, KubernetesDefault{})).
 		WithHelp(KubernetesDefault{}.Help()),
 
 	must(markers.MakeAnyTypeDefinition("kubebuilder:example", markers.DescribesField, Example{})).
-- 
2.43.0


From bb9c3ff00b4badeeb75a24c6c70467b61f4d9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 44/80] fix: don't lose errors when several files of a package
 don't parse

---
 pkg/loader/loader.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..2f752be 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +113,18 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From 14a50c5dec265eec5e40c51e6e71f09f15664a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 45/80] fix: allocate the pointed-to named type when copying
 pointers

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..57bb3f9 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -545,7 +545,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
 			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
-- 
2.43.0


From 537ebc21afcec81f3c0785340b5a997619b8761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 46/80] fix: deep-copy slices of pointers to types with
 hand-written copy methods

---
 pkg/deepcopy/traverse.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 57bb3f9..4387192 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -405,14 +405,16 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 // underlying type is the given slice.
 func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *types.Slice) {
 	underlyingElem := eventualUnderlyingType(sliceType.Elem())
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 
 	// make the actual type (not the underlying)
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
-		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+		// just use deepcopy if it's present (deepcopyinto will be filled in by our code),
+		// except for pointers, which might be nil, and are handled below
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
 		})
@@ -519,10 +521,11 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
-	// if we have a manually written deepcopy, just use that
+	// if we have a manually written deepcopy, just use that (it's not on
+	// pointers to pointers, though)
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if _, elemIsPtr := underlyingElem.(*types.Pointer); !elemIsPtr && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
-- 
2.43.0


From 249d65df3ddad9be227a4bdc1298cb09e0dbe792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:35 +0000
Subject: [PATCH 47/80] fix: generate DeepCopyObject for types with a
 hand-written DeepCopy

---
 pkg/deepcopy/traverse.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 4387192..554e91a 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -265,16 +265,18 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		} else {
 			c.Linef(bareDeepCopy, info.Name)
 		}
+	}
 
-		// maybe also generate DeepCopyObject, if asked.
-		if genObjectInterface(info) {
-			// we always need runtime.Object for DeepCopyObject
-			runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
-			if ptrReceiver {
-				c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
-			} else {
-				c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
-			}
+	// maybe also generate DeepCopyObject, if asked.
+	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+		// we always need runtime.Object for DeepCopyObject
+		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
+		if ptrReceiver && hasManualDeepCopy && !deepCopyOnPtr {
+			c.Linef(valueDeepCopyObj, info.Name, runtimeAlias)
+		} else if ptrReceiver {
+			c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
+		} else {
+			c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
 		}
 	}
 }
@@ -735,6 +737,13 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 	return methodSig.Recv().Type() == paramPtr.Elem()
 }
 
+// hasDeepCopyObjectMethod checks if this type itself has a manual DeepCopyObject method.
+func hasDeepCopyObjectMethod(pkg *loader.Package, typeInfo types.Type) bool {
+	obj, ind, _ := types.LookupFieldOrMethod(typeInfo, true /* check pointers too */, pkg.Types, "DeepCopyObject")
+	// ignore embedded methods
+	return obj != nil && len(ind) == 1
+}
+
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
 // (either of which implies the other will exist eventually).
 func hasAnyDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) bool {
@@ -831,6 +840,15 @@ func (in *%[1]s) DeepCopyObject() %[2]s.Object {
 	}
 	return nil
 }
+`
+	// valueDeepCopyObj is a DeepCopyObject for a type whose existing DeepCopy returns a value.
+	valueDeepCopyObj = `
+// DeepCopyObject is an autogenerated deepcopy function, copying the receiver, creating a new runtime.Object.
+func (in *%[1]s) DeepCopyObject() %[2]s.Object {
+	if in == nil { return nil }
+	c := in.DeepCopy()
+	return &c
+}
 `
 	// ptrDeepCopy is a DeepCopyObject for a type with an existing DeepCopyInto and a non-pointer receiver.
 	bareDeepCopyObj = `
-- 
2.43.0


From b52f5e1a001735fe3ae1f9f589ff076071fe043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 48/80] fix: leave blank struct fields out of deep copies

---
 pkg/deepcopy/traverse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 554e91a..08e3753 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -454,6 +454,11 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 	for i := 0; i < structType.NumFields(); i++ {
 		field := structType.Field(i)
 
+		// blank fields can't be referred to, and hold nothing anyone could read
+		if field.Name() == "_" {
+			continue
+		}
+
 		// if we have a manual deepcopy, use that
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, field.Type())
 		hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, field.Type())
-- 
2.43.0


From bb064fbc6b088a287719ba0608d06472e0a9c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 49/80] fix: shallow-copy aliases of basic types in maps

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 08e3753..e77a09e 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -781,7 +781,7 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 		default:
 			return true
 		}
-	case *types.Named:
+	case *types.Named, *types.Alias:
 		// aliases are fine to shallow-copy as long as they resolve to a shallow-copyable type
 		return fineToShallowCopy(typeInfo.Underlying())
 	case *types.Struct:
-- 
2.43.0


From ec55463a2bd625e64098a89956d6db15fd9caaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 50/80] fix: choose import names in deep-copy code that nothing
 else uses

---
 pkg/deepcopy/gen.go      |  7 +++++++
 pkg/deepcopy/traverse.go | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..f1da82d 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -215,6 +215,13 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) []byte {
 	}
 	// avoid confusing aliases by "reserving" the root package's name as an alias
 	imports.byAlias[root.Name] = ""
+	// ...and avoid conflicts with the names that generated code uses, or that are declared in the package
+	for _, name := range reservedNames {
+		imports.byAlias[name] = ""
+	}
+	for _, name := range root.Types.Scope().Names() {
+		imports.byAlias[name] = ""
+	}
 
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
 		outContent := new(bytes.Buffer)
diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index e77a09e..d137203 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,6 +19,7 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
@@ -79,6 +80,9 @@ func (c *codeWriter) For(setup string, block func()) {
 	c.Line("}")
 }
 
+// reservedNames are the identifiers (other than types) that generated code uses, so imports can't.
+var reservedNames = []string{"in", "out", "key", "val", "inVal", "outVal", "i", "x", "c", "clone", "copy", "len", "make", "new", "nil"}
+
 // importsList keeps track of required imports, automatically assigning aliases
 // to import statement.
 type importsList struct {
@@ -106,7 +110,7 @@ func (l *importsList) NeedImport(importPath string) string {
 	// otherwise, calculate an import alias by joining path parts till we get something unique
 	restPath, nextWord := path.Split(importPath)
 
-	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.byAlias[alias] {
+	for otherPath, exists := "", true; (exists && otherPath != importPath) || !usableAlias(alias); otherPath, exists = l.byAlias[alias] {
 		if restPath == "" {
 			// do something else to disambiguate if we're run out of parts and
 			// still have duplicates, somehow
@@ -137,6 +141,16 @@ func (l *importsList) NeedImport(importPath string) string {
 	return alias
 }
 
+// usableAlias checks if an import can go by the given name (i.e. if it's an
+// identifier that isn't a keyword or predeclared type).
+func usableAlias(alias string) bool {
+	if !token.IsIdentifier(alias) {
+		return false
+	}
+	_, isType := types.Universe.Lookup(alias).(*types.TypeName)
+	return !isType
+}
+
 // ImportSpecs returns a string form of each import spec
 // (i.e. `alias "path/to/import").  Aliases are only present
 // when they don't match the package name.
-- 
2.43.0


From 17557f68e629c09d7a8271a15dc794ba3e3038a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 51/80] fix: treat aliases of pointers as pointers in deep
 copies

---
 pkg/deepcopy/traverse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index d137203..1d67d90 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -363,7 +363,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -484,7 +484,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -612,7 +612,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 	}
 
 	// otherwise, we'll need to check its type
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		// NB(directxman12): we don't have to worry about the elem having a deepcopy,
 		// since hasManualDeepCopy would've caught that.
-- 
2.43.0


From 18095b18dcde527a776c0f75f6740764292aa618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 52/80] fix: keep all documents of a manifest when patching
 schemas

---
 pkg/schemapatcher/gen.go | 133 ++++++++++++++++++++++++---------------
 1 file changed, 82 insertions(+), 51 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..b7fd5ce 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,7 +17,10 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -183,14 +186,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
+	written := make(map[*manifestFile]struct{})
 	for _, set := range partialCRDSets {
-		// We assume all CRD versions came from different files, since this
-		// is how controller-gen works.  If they came from the same file,
-		// it'd be non-sensical, since you couldn't reasonably use kubectl
-		// with them against older servers.
 		for _, crd := range set.CRDVersions {
+			// several CRDs can come from the same file
+			if _, done := written[crd.File]; done {
+				continue
+			}
+			written[crd.File] = struct{}{}
+
 			if err := func() error {
-				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
+				outWriter, err := ctx.OutputRule.Open(nil, crd.File.Name)
 				if err != nil {
 					return err
 				}
@@ -201,7 +207,12 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 				// so be compatible with everything else in k8s and choose 2.
 				enc.SetIndent(2)
 
-				return enc.Encode(crd.Yaml)
+				for _, doc := range crd.File.Docs {
+					if err := enc.Encode(doc); err != nil {
+						return err
+					}
+				}
+				return enc.Close()
 			}(); err != nil {
 				return err
 			}
@@ -234,18 +245,26 @@ type partialCRDSet struct {
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
-	// FileName is the source name of the file that this was read from.
+	// File is the file that this was read from.
 	//
 	// This isn't on partialCRDSet because we could have different CRD versions
 	// stored in the same file (like controller-tools does by default) or in
 	// different files.
-	FileName string
+	File *manifestFile
 
 	// CRDVersion is the version of the CRD object itself, from
 	// apiextensions (currently apiextensions/v1 or apiextensions/v1beta1).
 	CRDVersion string
 }
 
+// manifestFile represents all YAML documents of a file, with CRDs among them.
+type manifestFile struct {
+	// Name is the source name of the file.
+	Name string
+	// Docs are the raw YAML structures of the documents.
+	Docs []*yaml.Node
+}
+
 // setGlobalSchema sets the versioned schemas (as per setVersionedSchemata).
 func (e *partialCRDSet) setGlobalSchema() error {
 	for _, crdInfo := range e.CRDVersions {
@@ -349,58 +368,70 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 			return nil, err
 		}
 
-		// NB(directxman12): we could use the universal deserializer for this, but it's
-		// really pretty clunky, and the alternative is actually kinda easier to understand
-
-		// ensure that this is a CRD
-		var typeMeta metav1.TypeMeta
-		if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
-			continue
+		// unmarshal in a manner that preserves ordering, etc
+		file := &manifestFile{Name: fileInfo.Name()}
+		dec := yaml.NewDecoder(bytes.NewReader(rawContent))
+		for {
+			var yamlNodeTree yaml.Node
+			if err = dec.Decode(&yamlNodeTree); err != nil {
+				break
+			}
+			file.Docs = append(file.Docs, &yamlNodeTree)
 		}
-
-		if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
-			// If there's no API version this file probably isn't a CRD.
-			// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+		if !errors.Is(err, io.EOF) {
+			// not YAML
 			continue
 		}
 
-		if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
-			return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
-		}
+		for _, doc := range file.Docs {
+			// NB(directxman12): we could use the universal deserializer for this, but it's
+			// really pretty clunky, and the alternative is actually kinda easier to understand
 
-		// collect the group-kind and versions from the actual structured form
-		var actualCRD crdIsh
-		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
-		}
-		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
-		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
-		for _, ver := range actualCRD.Spec.Versions {
-			versions[ver.Name] = struct{}{}
-		}
+			rawDoc, err := yaml.Marshal(doc)
+			if err != nil {
+				return nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
+			}
 
-		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
-		}
+			// ensure that this is a CRD
+			var typeMeta metav1.TypeMeta
+			if err := kyaml.Unmarshal(rawDoc, &typeMeta); err != nil {
+				continue
+			}
 
-		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-		if res[groupKind] == nil {
-			res[groupKind] = &partialCRDSet{
-				GroupKind:   groupKind,
-				NewSchemata: make(map[string]apiext.JSONSchemaProps),
-				Versions:    make(map[string]struct{}),
+			if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
+				// If there's no API version this file probably isn't a CRD.
+				// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+				continue
 			}
+
+			if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
+				return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
+			}
+
+			// collect the group-kind and versions from the actual structured form
+			var actualCRD crdIsh
+			if err := kyaml.Unmarshal(rawDoc, &actualCRD); err != nil {
+				continue
+			}
+			groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
+
+			// then store this CRDVersion of the CRD in a set, populating the set if necessary
+			if res[groupKind] == nil {
+				res[groupKind] = &partialCRDSet{
+					GroupKind:   groupKind,
+					NewSchemata: make(map[string]apiext.JSONSchemaProps),
+					Versions:    make(map[string]struct{}),
+				}
+			}
+			for _, ver := range actualCRD.Spec.Versions {
+				res[groupKind].Versions[ver.Name] = struct{}{}
+			}
+			res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
+				Yaml:       doc,
+				File:       file,
+				CRDVersion: typeMeta.APIVersion,
+			})
 		}
-		for ver := range versions {
-			res[groupKind].Versions[ver] = struct{}{}
-		}
-		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
-			FileName:   fileInfo.Name(),
-			CRDVersion: typeMeta.APIVersion,
-		})
 	}
 	return res, nil
 }
-- 
2.43.0


From a9e000836932b61f597cebb6ece426a07bc294c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 53/80] fix: write strings that YAML 1.1 takes for booleans in
 quotes when patching schemas

---
 pkg/schemapatcher/gen.go                   |  3 ++
 pkg/schemapatcher/internal/yaml/convert.go | 35 +++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index b7fd5ce..c33ce4d 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -340,6 +340,9 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 			}
 			schemaNodeTree = schemaNodeTree.Content[0] // get rid of the document node
 			yamlop.SetStyle(schemaNodeTree, 0)         // clear the style so it defaults to an auto-chosen one
+			if err := yamlop.QuoteStrings(schemaNodeTree); err != nil {
+				return fmt.Errorf("failed to convert schema to YAML: %w", err)
+			}
 			if err := yamlop.SetNode(verNode, *schemaNodeTree, "schema", "openAPIV3Schema"); err != nil {
 				return fmt.Errorf("spec.versions[%d]: %w", i, err)
 			}
diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index b0ac001..8c72810 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -19,6 +19,7 @@ package yaml
 import (
 	"encoding/json"
 	"fmt"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 )
@@ -37,12 +38,26 @@ func ToYAML(rawObj interface{}) (*yaml.Node, error) {
 	}
 
 	var out yaml.Node
-	if err := yaml.Unmarshal(rawJSON, &out); err != nil {
+	if err := yaml.Unmarshal(escapeForYAML(rawJSON), &out); err != nil {
 		return nil, fmt.Errorf("unable to unmarshal marshalled object: %w", err)
 	}
 	return &out, nil
 }
 
+// escapeForYAML escapes the characters that JSON allows in strings, but that
+// YAML rejects (control characters, byte-order marks) or takes for line breaks.
+func escapeForYAML(j []byte) []byte {
+	res := make([]byte, 0, len(j))
+	for _, r := range string(j) {
+		if r >= 0x7f && r <= 0x9f || r == 0xfeff || r == 0xfffe || r == 0xffff {
+			res = fmt.Appendf(res, "\\u%04x", r)
+		} else {
+			res = utf8.AppendRune(res, r)
+		}
+	}
+	return res
+}
+
 // changeAll calls the given callback for all nodes in
 // the given YAML node tree.
 func changeAll(root *yaml.Node, cb func(*yaml.Node)) {
@@ -59,3 +74,21 @@ func SetStyle(root *yaml.Node, style yaml.Style) {
 		node.Style = style
 	})
 }
+
+// QuoteStrings quotes the strings of the given node tree that YAML 1.1 readers
+// (such as those of Kubernetes) would otherwise take for something else, like "yes".
+func QuoteStrings(root *yaml.Node) error {
+	var err error
+	changeAll(root, func(node *yaml.Node) {
+		if node.Kind != yaml.ScalarNode || node.ShortTag() != "!!str" {
+			return
+		}
+		var encoded yaml.Node
+		if encodeErr := encoded.Encode(node.Value); encodeErr != nil {
+			err = encodeErr
+			return
+		}
+		node.Style |= encoded.Style & yaml.DoubleQuotedStyle
+	})
+	return err
+}
-- 
2.43.0


From 2398425675b71f92643575977edb6c71837f99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 54/80] fix: patch kinds that not every version of their group
 has

---
 pkg/schemapatcher/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index c33ce4d..7c53b86 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -130,6 +130,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if _, known := parser.Types[typeIdent]; !known {
+				// not every version has to have this kind
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From c45d63af5dcfb84860c74025b08c731702193a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 55/80] x

fix: quote strings that YAML block style doesn't keep when patching schemas
---
 pkg/schemapatcher/internal/yaml/convert.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index 8c72810..d009696 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -19,6 +19,7 @@ package yaml
 import (
 	"encoding/json"
 	"fmt"
+	"unicode"
 	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
@@ -76,13 +77,21 @@ func SetStyle(root *yaml.Node, style yaml.Style) {
 }
 
 // QuoteStrings quotes the strings of the given node tree that YAML 1.1 readers
-// (such as those of Kubernetes) would otherwise take for something else, like "yes".
+// (such as those of Kubernetes) would otherwise take for something else, like "yes",
+// or that the encoder doesn't write properly without quotes.
 func QuoteStrings(root *yaml.Node) error {
 	var err error
 	changeAll(root, func(node *yaml.Node) {
 		if node.Kind != yaml.ScalarNode || node.ShortTag() != "!!str" {
 			return
 		}
+
+		// block style doesn't reliably keep leading line breaks, tabs and spaces
+		if first, _ := utf8.DecodeRuneInString(node.Value); unicode.IsSpace(first) {
+			node.Style |= yaml.DoubleQuotedStyle
+			return
+		}
+
 		var encoded yaml.Node
 		if encodeErr := encoded.Encode(node.Value); encodeErr != nil {
 			err = encodeErr
-- 
2.43.0


From eb8331d304620e336285b75ab977dbd9b1c78f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 56/80] fix: leave versions of packages that are merely
 referred to out of schema patching

---
 pkg/schemapatcher/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 7c53b86..18cc927 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"path/filepath"
 
@@ -114,6 +115,9 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		return err
 	}
 
+	// only the roots contribute versions, not the packages that get loaded because schemas refer to them
+	groupVersions := maps.Clone(parser.GroupVersions)
+
 	// generate schemata for the types we care about, and save them to be written later.
 	for _, groupKind := range crdgen.FindKubeKinds(parser, metav1Pkg) {
 		existingSet, wanted := partialCRDSets[groupKind]
@@ -121,7 +125,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			continue
 		}
 
-		for pkg, gv := range parser.GroupVersions {
+		for pkg, gv := range groupVersions {
 			if gv.Group != groupKind.Group {
 				continue
 			}
-- 
2.43.0


From 265c3408af23d7a4e9f963f8320c9c0ef4c07239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 57/80] fix: report versions without a name when patching
 schemas

---
 pkg/schemapatcher/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 18cc927..d8ee884 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -328,8 +328,11 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
-		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
+		nameNode, found, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !found || nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
 		name := nameNode.Value
-- 
2.43.0


From 3f348688b7847ef65a114bb7cfc28e7d572daede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 58/80] fix: report empty options instead of crashing

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From a7ff7856b2d14419c679c22e4d050d18e85f9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 59/80] fix: report outputs that fail when closed

---
 pkg/deepcopy/gen.go      | 7 ++++++-
 pkg/genall/genall.go     | 9 +++++++--
 pkg/schemapatcher/gen.go | 9 +++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index f1da82d..263231d 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -298,7 +298,12 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		// closing can still fail to write
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index 0e4c44d..3a36a51 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -142,12 +142,17 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (result error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		// closing can still fail to write
+		if err := out.Close(); err != nil && result == nil {
+			result = err
+		}
+	}()
 
 	_, err = out.Write([]byte(headerText))
 	if err != nil {
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index d8ee884..ffcd383 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -203,12 +203,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 			written[crd.File] = struct{}{}
 
-			if err := func() error {
+			if err := func() (result error) {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.File.Name)
 				if err != nil {
 					return err
 				}
-				defer outWriter.Close()
+				defer func() {
+					// closing can still fail to write
+					if err := outWriter.Close(); err != nil && result == nil {
+						result = err
+					}
+				}()
 
 				enc := yaml.NewEncoder(outWriter)
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From 3f290e9b7bfe7ab4b2a8193bea0d1c8d311c22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 60/80] fix: don't hang on an import cycle between packages
 loaded separately

---
 pkg/loader/loader.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 2f752be..46c7995 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -615,7 +615,9 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 	for importedPkgID, importedPkg := range pkg.Imports() {
 		for i := range rootPkgs {
-			if importedPkgID == rootPkgs[i].ID {
+			// leave the import alone when replacing it would make the graph
+			// cyclic: each load cuts an import cycle at a different place
+			if importedPkgID == rootPkgs[i].ID && importedPkg != rootPkgs[i] && !reaches(rootPkgs[i], pkg, nil) {
 				pkg.imports[importedPkgID] = rootPkgs[i]
 			}
 		}
@@ -626,6 +628,23 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 }
 
+// reaches returns true if target is pkg or one of its transitive imports.
+func reaches(pkg, target *Package, seen sets.Set[*Package]) bool {
+	if pkg == target {
+		return true
+	}
+	if seen == nil {
+		seen = sets.Set[*Package]{}
+	}
+	seen.Insert(pkg)
+	for _, importedPkg := range pkg.Imports() {
+		if !seen.Has(importedPkg) && reaches(importedPkg, target, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 // importFunc is an implementation of the single-method
 // types.Importer interface based on a function value.
 type importerFunc func(path string) (*types.Package, error)
-- 
2.43.0


From a9f9133926a32f41c4b6a57a30c012eefe4fee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 61/80] fix: load path roots with a wildcard that isn't the
 last element

---
 pkg/loader/loader.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 46c7995..19c95b1 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -26,6 +26,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strings"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -550,7 +551,7 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		// specified we also want to traverse the path manually to determine if
 		// there are any nested Go modules we want to add to the list of file-
 		// system path roots to process
-		if b == "..." {
+		if b == "..." && isDir(d) {
 			if err := filepath.WalkDir(
 				d,
 				addNestedGoModulesToRoots); err != nil {
@@ -566,29 +567,30 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	//    2. update the loader config's Dir property to be the directory from
 	//       step one
 	//
-	//    3. determine whether the root passed to the loader should be "./."
-	//       or "./..."
+	//    3. determine the root passed to the loader relative to that directory,
+	//       ex. "./." or "./..."
 	//
 	//    4. execute the loader with the value from step three
 	for _, r := range fspRoots {
-		b, d := filepath.Base(r), filepath.Dir(r)
-
-		// we want the base part of the path to be either "..." or ".", except
-		// Go's filepath utilities clean paths during manipulation, removing the
-		// ".". thus, if not "...", let's update the path components so that:
+		// the directory to load from is the root itself, less any wildcards:
 		//
-		//   d = r
-		//   b = "."
-		if b != "..." {
-			d = r
-			b = "."
+		//   ./foo          --> d = ./foo, b = .
+		//   ./foo/...      --> d = ./foo, b = ...
+		//   ./foo/ba.../qux --> d = ./foo, b = ba.../qux
+		d := r
+		for strings.Contains(d, "...") && !isDir(d) {
+			d = filepath.Dir(d)
+		}
+		b, err := filepath.Rel(d, r)
+		if err != nil {
+			return nil, err
 		}
 
 		// update the loader configuration's Dir field to the directory part of
 		// the root
 		l.cfg.Dir = d
 
-		// update the root to be "./..." or "./."
+		// update the root to be relative to that directory, ex. "./..." or "./."
 		// (with OS-specific filepath separator). please note filepath.Join
 		// would clean up the trailing "." character that we want preserved,
 		// hence the more manual path concatenation logic
@@ -628,6 +630,12 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 }
 
+// isDir returns true if the path is that of a directory.
+func isDir(path string) bool {
+	info, err := os.Stat(path)
+	return err == nil && info.IsDir()
+}
+
 // reaches returns true if target is pkg or one of its transitive imports.
 func reaches(pkg, target *Package, seen sets.Set[*Package]) bool {
 	if pkg == target {
-- 
2.43.0


From d6a54a8a0a26ad1cc339055761bde025032a3ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 62/80] fix: load path roots that are Go files

---
 pkg/loader/loader.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 19c95b1..a9b93b7 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -26,6 +26,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"slices"
 	"strings"
 	"sync"
 
@@ -421,9 +422,14 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		var pkgs []*Package
 		for _, rp := range rawPkgs {
 			p := l.packageFor(rp)
-			if !uniquePkgIDs.Has(p.ID) {
+			id := p.ID
+			if id == "command-line-arguments" {
+				// the ID of any package made up of Go files
+				id = l.cfg.Dir
+			}
+			if !uniquePkgIDs.Has(id) {
 				pkgs = append(pkgs, p)
-				uniquePkgIDs.Insert(p.ID)
+				uniquePkgIDs.Insert(id)
 			}
 		}
 		return pkgs, nil
@@ -571,7 +577,30 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	//       ex. "./." or "./..."
 	//
 	//    4. execute the loader with the value from step three
+	//
+	// as with the "go" command, the roots that are Go files from one directory
+	// make up a single package with just those files
+	fileRoots := map[string][]string{}
+	for _, r := range fspRoots {
+		if d := filepath.Dir(r); isGoFile(r) && !slices.Contains(fileRoots[d], r) {
+			fileRoots[d] = append(fileRoots[d], r)
+		}
+	}
 	for _, r := range fspRoots {
+		if isGoFile(r) {
+			l.cfg.Dir = filepath.Dir(r)
+			if r != fileRoots[l.cfg.Dir][0] {
+				// loaded along with the first file from its directory
+				continue
+			}
+			pkgs, err := loadPackages(fileRoots[l.cfg.Dir]...)
+			if err != nil {
+				return nil, err
+			}
+			l.Roots = append(l.Roots, pkgs...)
+			continue
+		}
+
 		// the directory to load from is the root itself, less any wildcards:
 		//
 		//   ./foo          --> d = ./foo, b = .
@@ -636,6 +665,12 @@ func isDir(path string) bool {
 	return err == nil && info.IsDir()
 }
 
+// isGoFile returns true if the path is that of a Go file.
+func isGoFile(path string) bool {
+	info, err := os.Stat(path)
+	return filepath.Ext(path) == ".go" && err == nil && !info.IsDir()
+}
+
 // reaches returns true if target is pkg or one of its transitive imports.
 func reaches(pkg, target *Package, seen sets.Set[*Package]) bool {
 	if pkg == target {
-- 
2.43.0


From a35930f2bda2fd64c43c6bd6e8caf6f263b6dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 63/80] fix: a selector on a package-level variable in a type
 isn't an unimported package

---
 pkg/loader/refs.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..1d65f1a 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -96,6 +96,31 @@ func (r *referenceSet) init() {
 // when true is returned and rejecting them when false is returned.
 type NodeFilter func(ast.Node) bool
 
+// declaredLocally checks if the given name is a package-level variable or constant
+// in the current package.
+func (r *referenceSet) declaredLocally(name string) bool {
+	for _, file := range r.pkg.Syntax {
+		for _, decl := range file.Decls {
+			genDecl, isGenDecl := decl.(*ast.GenDecl)
+			if !isGenDecl {
+				continue
+			}
+			for _, spec := range genDecl.Specs {
+				valueSpec, isValue := spec.(*ast.ValueSpec)
+				if !isValue {
+					continue
+				}
+				for _, ident := range valueSpec.Names {
+					if ident.Name == name {
+						return true
+					}
+				}
+			}
+		}
+	}
+	return false
+}
+
 // collectReferences saves all references to external types in the given info.
 func (r *referenceSet) collectReferences(rawType ast.Expr, filterNode NodeFilter) {
 	r.init()
@@ -110,6 +135,10 @@ func (r *referenceSet) collectReferences(rawType ast.Expr, filterNode NodeFilter
 func (r *referenceSet) external(pkgName string) {
 	pkg := r.imports.byName[pkgName]
 	if pkg == nil {
+		if r.declaredLocally(pkgName) {
+			// a field of a package-level variable or constant
+			return
+		}
 		r.pkg.AddError(fmt.Errorf("use of unimported package %q", pkgName))
 		return
 	}
-- 
2.43.0


From bced35649c96049399245e8b67dacb0086580ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 64/80] fix: initialize the registry before listing its
 definitions

Listing the definitions of a zero-value registry raced with the first
registration.
---
 pkg/markers/reg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 5e49466..4fc1a2f 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -124,6 +124,8 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 
 // AllDefinitions returns all marker definitions known to this registry.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.init()
+
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 
-- 
2.43.0


From 2e5462e2cc202884292dd6553f3b8105546df057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 65/80] fix: lock imported packages to see whether they are
 ill-typed

A package that is imported, but not referenced, may be checked at the same
time because of another package.
---
 pkg/loader/loader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index a9b93b7..7caa344 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -294,8 +294,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
-				illTyped = true
+			// as above, the import may be being checked right now
+			importedPkg.Lock()
+			illTyped = importedPkg.IllTyped
+			importedPkg.Unlock()
+			if illTyped {
 				break
 			}
 		}
-- 
2.43.0


From cb1d83b386e6bb11684f7bc9c1022e1f9bd1ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 66/80] fix: let type checkers be used from several goroutines

Every check had a mutex of its own for the packages that all checks of a
type checker share.
---
 pkg/loader/refs.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index 1d65f1a..e1bf000 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -236,12 +236,7 @@ type TypeChecker struct {
 // that pass through (have true returned by) any of the NodeFilters.
 func (c *TypeChecker) Check(root *Package) {
 	c.init()
-
-	// use a sub-checker with the appropriate settings
-	(&TypeChecker{
-		NodeFilters:     c.NodeFilters,
-		checkedPackages: c.checkedPackages,
-	}).check(root)
+	c.check(root)
 }
 
 func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
@@ -260,6 +255,9 @@ func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
 }
 
 func (c *TypeChecker) init() {
+	c.Lock()
+	defer c.Unlock()
+
 	if c.checkedPackages == nil {
 		c.checkedPackages = make(map[*Package]struct{})
 	}
-- 
2.43.0


From 0b7edba89c65fdad1490a520941b9c462e53dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 67/80] fix: scaffold the resource and the scope that were
 asked for

The resource only showed up in a comment, and nothing made resources
cluster-scoped, so that CRDs for the scaffold had the default plural and
namespaced scope.
---
 pkg/typescaffold/resource.go | 23 ++++++++++++++++++++++-
 pkg/typescaffold/scaffold.go |  3 +++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 7024a7c..148be16 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -35,6 +35,27 @@ type Resource struct {
 	Resource string
 }
 
+// defaultResource is the API Resource for the Kind, unless another one is specified.
+func (r *Resource) defaultResource() string {
+	return flect.Pluralize(strings.ToLower(r.Kind))
+}
+
+// Marker returns the marker that sets the API Resource and its scope, without
+// the leading plus, or nothing if they are the default ones.
+func (r *Resource) Marker() string {
+	var args []string
+	if r.Resource != "" && r.Resource != r.defaultResource() {
+		args = append(args, "path="+r.Resource)
+	}
+	if !r.Namespaced {
+		args = append(args, "scope=Cluster")
+	}
+	if len(args) == 0 {
+		return ""
+	}
+	return "kubebuilder:resource:" + strings.Join(args, ",")
+}
+
 // Validate checks the Resource values to make sure they are valid.
 func (r *Resource) Validate() error {
 	if len(r.Kind) == 0 {
@@ -42,7 +63,7 @@ func (r *Resource) Validate() error {
 	}
 
 	if len(r.Resource) == 0 {
-		r.Resource = flect.Pluralize(strings.ToLower(r.Kind))
+		r.Resource = r.defaultResource()
 	}
 
 	if r.Kind != flect.Pascalize(r.Kind) {
diff --git a/pkg/typescaffold/scaffold.go b/pkg/typescaffold/scaffold.go
index f3640b9..065fed6 100644
--- a/pkg/typescaffold/scaffold.go
+++ b/pkg/typescaffold/scaffold.go
@@ -54,6 +54,9 @@ type {{.Resource.Kind}}Status struct {
 
 // {{.Resource.Kind}} is the Schema for the {{ .Resource.Resource }} API
 // +k8s:openapi-gen=true
+{{- with .Resource.Marker }}
+// +{{.}}
+{{- end }}
 type {{.Resource.Kind}} struct {
 	metav1.TypeMeta   ` + "`" + `json:",inline"` + "`" + `
 	metav1.ObjectMeta ` + "`" + `json:"metadata,omitempty"` + "`" + `
-- 
2.43.0


From 140b99bdc2fa1ae706134aeeaf16cf53bb5fee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 68/80] fix: reject scaffolds for kinds and resources that
 cannot be used

Kinds that don't start with a letter or have non-ASCII letters, and any text
as the resource, were accepted, and the scaffold was no Go or no valid API.
---
 pkg/typescaffold/resource.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 148be16..03a3047 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -21,6 +21,7 @@ import (
 	"strings"
 
 	"github.com/gobuffalo/flect"
+	"k8s.io/apimachinery/pkg/util/validation"
 )
 
 // Resource contains the information required to scaffold files for a resource.
@@ -70,5 +71,13 @@ func (r *Resource) Validate() error {
 		return fmt.Errorf("kind must be CamelCase (expected %s was %s)", flect.Pascalize(r.Kind), r.Kind)
 	}
 
+	// the list kind is the longer one
+	if errs := validation.IsDNS1035Label(strings.ToLower(r.Kind + "List")); len(errs) > 0 {
+		return fmt.Errorf("kind %q is not valid: %s", r.Kind, strings.Join(errs, ", "))
+	}
+	if errs := validation.IsDNS1035Label(r.Resource); len(errs) > 0 {
+		return fmt.Errorf("resource %q is not valid: %s", r.Resource, strings.Join(errs, ", "))
+	}
+
 	return nil
 }
-- 
2.43.0


From 42d5ccd5759ad3c636bc42a25f71df47c54ce0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 69/80] fix: report markers that cannot be read to the user of
 applyconfiguration

A marker with a value that cannot be parsed made the package count as one
that does not ask for apply configurations, so that nothing was generated,
and the run succeeded.
---
 pkg/applyconfiguration/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..84c01b2 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -169,7 +169,11 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		root.AddError(err)
+		return nil
+	}
 	if !enabled {
 		return nil
 	}
-- 
2.43.0


From c24122565e6301fde15cca7f1b8b710f949b8df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:29 +0000
Subject: [PATCH 70/80] fix: let types ask for apply configurations in packages
 that do not

+kubebuilder:ac:generate=true on a type was ignored unless the package had
the marker as well, contrary to its documentation.
---
 pkg/applyconfiguration/gen.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 84c01b2..00ee089 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -93,11 +93,11 @@ func enabledOnPackage(col *markers.Collector, pkg *loader.Package) (bool, error)
 	return false, nil
 }
 
-func enabledOnType(info *markers.TypeInfo) bool {
+func enabledOnType(allTypes bool, info *markers.TypeInfo) bool {
 	if typeMarker := info.Markers.Get(enableTypeMarker.Name); typeMarker != nil {
 		return typeMarker.(bool)
 	}
-	return isCRD(info)
+	return allTypes && isCRD(info)
 }
 
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
@@ -169,12 +169,22 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, err := enabledOnPackage(ctx.Collector, root)
+	allTypes, err := enabledOnPackage(ctx.Collector, root)
 	if err != nil {
 		root.AddError(err)
 		return nil
 	}
-	if !enabled {
+
+	// A type may ask for its apply configuration in a package that doesn't.
+	enabledTypes := sets.New[string]()
+	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
+		if enabledOnType(allTypes, info) {
+			enabledTypes.Insert(info.Name)
+		}
+	}); err != nil {
+		return err
+	}
+	if !allTypes && enabledTypes.Len() == 0 {
 		return nil
 	}
 	if len(root.GoFiles) == 0 {
@@ -211,14 +221,10 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
-	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(info) {
-			return
-		}
-
-		typ, ok := pkg.Types[info.Name]
+	for name := range enabledTypes {
+		typ, ok := pkg.Types[name]
 		if !ok {
-			return
+			continue
 		}
 
 		comments := sets.NewString(typ.CommentLines...)
@@ -227,8 +233,6 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		if !comments.Has("// +genclient") {
 			typ.CommentLines = append(typ.CommentLines, "+genclient")
 		}
-	}); err != nil {
-		return err
 	}
 
 	targets := generators.GetTargets(c, arguments)
-- 
2.43.0


From d5d8f6baf61c5cf6858051a39b1b38d3b28af3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 71/80] fix: generate apply configurations of enabled types
 without ObjectMeta

Such a type got the genclient marker, with which the generator skips it, so
that the apply configurations of the types that use it did not compile.
---
 pkg/applyconfiguration/gen.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 00ee089..d5d6997 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -29,6 +29,7 @@ import (
 	"k8s.io/gengo/v2"
 	"k8s.io/gengo/v2/generator"
 	"k8s.io/gengo/v2/parser"
+	"k8s.io/gengo/v2/types"
 
 	kerrors "k8s.io/apimachinery/pkg/util/errors"
 	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
@@ -46,6 +47,8 @@ var (
 	enableTypeMarker = markers.Must(markers.MakeDefinition("kubebuilder:ac:generate", markers.DescribesType, false))
 )
 
+var objectMeta = types.Name{Package: "k8s.io/apimachinery/pkg/apis/meta/v1", Name: "ObjectMeta"}
+
 const defaultOutputPackage = "applyconfiguration"
 
 // +controllertools:marker:generateHelp
@@ -120,6 +123,16 @@ func isCRD(info *markers.TypeInfo) bool {
 	return objectEnabled != nil
 }
 
+// hasObjectMeta checks whether a type is that of an API object.
+func hasObjectMeta(typ *types.Type) bool {
+	for _, member := range typ.Members {
+		if member.Embedded && member.Type.Name == objectMeta {
+			return true
+		}
+	}
+	return false
+}
+
 func (d Generator) Generate(ctx *genall.GenerationContext) error {
 	headerFilePath := d.HeaderFile
 
@@ -227,6 +240,12 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 			continue
 		}
 
+		// The generator skips types with the genclient marker that cannot be
+		// applied by themselves, even if others refer to them.
+		if !hasObjectMeta(typ) {
+			continue
+		}
+
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
 
-- 
2.43.0


From f8573e5b9288a906b6e0ee101c853a0e4ea23c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 72/80] fix: let types with a genclient marker opt out of apply
 configurations

+kubebuilder:ac:generate=false had no effect on types that also have the
genclient marker.
---
 pkg/applyconfiguration/gen.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index d5d6997..71a454b 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -21,6 +21,7 @@ import (
 	"go/ast"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/util/sets"
 	"k8s.io/code-generator/cmd/applyconfiguration-gen/args"
@@ -133,6 +134,17 @@ func hasObjectMeta(typ *types.Type) bool {
 	return false
 }
 
+// withoutGenclient drops the marker that makes the apply generator generate a type.
+func withoutGenclient(comments []string) []string {
+	var kept []string
+	for _, line := range comments {
+		if strings.TrimSpace(line) != "+genclient" {
+			kept = append(kept, line)
+		}
+	}
+	return kept
+}
+
 func (d Generator) Generate(ctx *genall.GenerationContext) error {
 	headerFilePath := d.HeaderFile
 
@@ -189,10 +201,13 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	}
 
 	// A type may ask for its apply configuration in a package that doesn't.
-	enabledTypes := sets.New[string]()
+	// It may also opt out of its own, even if it has a client.
+	enabledTypes, disabledTypes := sets.New[string](), sets.New[string]()
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
 		if enabledOnType(allTypes, info) {
 			enabledTypes.Insert(info.Name)
+		} else if !allTypes || info.Markers.Get(enableTypeMarker.Name) != nil {
+			disabledTypes.Insert(info.Name)
 		}
 	}); err != nil {
 		return err
@@ -254,6 +269,13 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		}
 	}
 
+	for name := range disabledTypes {
+		if typ, ok := pkg.Types[name]; ok {
+			typ.CommentLines = withoutGenclient(typ.CommentLines)
+			typ.SecondClosestCommentLines = withoutGenclient(typ.SecondClosestCommentLines)
+		}
+	}
+
 	targets := generators.GetTargets(c, arguments)
 	if err := c.ExecuteTargets(targets); err != nil {
 		return fmt.Errorf("failed executing generator: %w", err)
-- 
2.43.0


From d6846d9f600852433a05fe1329d6135115928142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 73/80] fix: refer to types of packages with a tilde in their
 path

Import paths such as git.sr.ht/~user/api/v1 were split at the wrong place
when resolving references, which crashed the generator.
---
 pkg/crd/flatten.go | 10 +++++-----
 pkg/crd/schema.go  |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 9461c4a..5cdb809 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -306,14 +306,14 @@ func RefParts(ref string) (typ string, pkgName string, err error) {
 	// decode the json pointer encodings
 	ref = strings.ReplaceAll(ref, "~1", "/")
 	ref = strings.ReplaceAll(ref, "~0", "~")
-	nameParts := strings.SplitN(ref, "~", 2)
-
-	if len(nameParts) == 1 {
+	// NB: package paths may contain the separator, type names can't
+	sep := strings.LastIndex(ref, "~")
+	if sep < 0 {
 		// local reference
-		return nameParts[0], "", nil
+		return ref, "", nil
 	}
 	// cross-package reference
-	return nameParts[1], nameParts[0], nil
+	return ref[sep+1:], ref[:sep], nil
 }
 
 // identFromRef converts the given schema ref from the given package back
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index ab70664..398814d 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -260,11 +260,11 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 
 // qualifiedName constructs a JSONSchema-safe qualified name for a type
 // (`<typeName>` or `<safePkgPath>~0<typeName>`, where `<safePkgPath>`
-// is the package path with `/` replaced by `~1`, according to JSONPointer
-// escapes).
+// is the package path with `~` replaced by `~0` and `/` replaced by `~1`,
+// according to JSONPointer escapes).
 func qualifiedName(pkgName, typeName string) string {
 	if pkgName != "" {
-		return strings.ReplaceAll(pkgName, "/", "~1") + "~0" + typeName
+		return strings.NewReplacer("~", "~0", "/", "~1").Replace(pkgName) + "~0" + typeName
 	}
 	return typeName
 }
-- 
2.43.0


From 6500fb5ea099798bf01a597c6979875345bbe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:02 +0000
Subject: [PATCH 74/80] fix: find kinds that embed their metadata through an
 alias

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 598a7cc..03af2ff 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -293,7 +293,7 @@ func FindKubeKinds(parser *Parser, metav1Pkg *loader.Package) []schema.GroupKind
 			}
 
 			fieldType := typesInfo.TypeOf(field.RawField.Type)
-			namedField, isNamed := fieldType.(*types.Named)
+			namedField, isNamed := types.Unalias(fieldType).(*types.Named)
 			if !isNamed {
 				// ObjectMeta and TypeMeta are named types
 				continue
@@ -305,6 +305,10 @@ func FindKubeKinds(parser *Parser, metav1Pkg *loader.Package) []schema.GroupKind
 			}
 			fieldPkgPath := loader.NonVendorPath(namedField.Obj().Pkg().Path())
 			fieldPkg := pkg.Imports()[fieldPkgPath]
+			if fieldPkg == nil && fieldPkgPath == loader.NonVendorPath(metav1Pkg.PkgPath) {
+				// an alias can come from a package that imports metav1 itself
+				fieldPkg = metav1Pkg
+			}
 
 			// Compare the metav1 package by ID and not by the actual instance
 			// of the object. The objects in memory could be different due to
-- 
2.43.0


From 15685c3815d7f3f03c9bcde49bd39c1666a3f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:04 +0000
Subject: [PATCH 75/80] fix: report fields with universe types instead of
 crashing

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 1d67d90..295e4b9 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -212,8 +212,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// universe type (like any or error), or local import
 		return typeName.Name()
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-- 
2.43.0


From bd2d9fc0aa7bd6616c15d6d3093908e0becc9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 76/80] fix: copy fields of instantiated generic types

Refer to instantiated types by their type arguments, too, and recognize
the methods of such types.
---
 pkg/deepcopy/traverse.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 295e4b9..66f3ea8 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -188,11 +188,12 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// NB(directxman12): typeInfo.String gets us most of the way there,
 	// but fails (for us) on named imports, since it uses the full package path.
 	var typeName *types.TypeName
+	var typeArgs *types.TypeList
 	switch typeInfo := n.typeInfo.(type) {
 	case *types.Alias:
-		typeName = typeInfo.Obj()
+		typeName, typeArgs = typeInfo.Obj(), typeInfo.TypeArgs()
 	case *types.Named:
-		typeName = typeInfo.Obj()
+		typeName, typeArgs = typeInfo.Obj(), typeInfo.TypeArgs()
 	case *types.Basic:
 		return typeInfo.String()
 	case *types.Pointer:
@@ -211,13 +212,21 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
+	name := typeName.Name()
 	otherPkg := typeName.Pkg()
-	if otherPkg == nil || otherPkg == basePkg.Types {
-		// universe type (like any or error), or local import
-		return typeName.Name()
+	if otherPkg != nil && otherPkg != basePkg.Types {
+		// neither a universe type (like any or error), nor a local import
+		name = imports.NeedImport(loader.NonVendorPath(otherPkg.Path())) + "." + name
 	}
-	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-	return alias + "." + typeName.Name()
+	if typeArgs.Len() == 0 {
+		return name
+	}
+
+	args := make([]string, typeArgs.Len())
+	for i := range args {
+		args[i] = (&namingInfo{typeInfo: typeArgs.At(i)}).Syntax(basePkg, imports)
+	}
+	return name + "[" + strings.Join(args, ", ") + "]"
 }
 
 // copyMethodMakers makes DeepCopy (and related) methods for Go types,
@@ -713,10 +722,10 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 			return false, false
 		}
 
-		if recvAsPtr.Elem() != resultPtr.Elem() {
+		if !types.Identical(recvAsPtr.Elem(), resultPtr.Elem()) {
 			return false, false
 		}
-	} else if methodSig.Results().At(0).Type() != methodSig.Recv().Type() {
+	} else if !types.Identical(methodSig.Results().At(0).Type(), methodSig.Recv().Type()) {
 		return false, false
 	}
 
@@ -751,9 +760,9 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// have the same underlying type, for some reason (probably that
 		// LookupFieldOrMethod calls types.NewPointer for us), so check the
 		// underlying values.
-		return paramPtr.Elem() == recvPtr.Elem()
+		return types.Identical(paramPtr.Elem(), recvPtr.Elem())
 	}
-	return methodSig.Recv().Type() == paramPtr.Elem()
+	return types.Identical(methodSig.Recv().Type(), paramPtr.Elem())
 }
 
 // hasDeepCopyObjectMethod checks if this type itself has a manual DeepCopyObject method.
-- 
2.43.0


From ff7758e08594d59a6c8d3830c791d8a31d301e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:09 +0000
Subject: [PATCH 77/80] fix: report generic types that would need generated
 deepcopy methods

The generated code did not compile.
---
 pkg/deepcopy/traverse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 66f3ea8..eb0f0a5 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -253,6 +253,13 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 	hasManualDeepCopyInto := hasDeepCopyIntoMethod(root, typeInfo)
 	hasManualDeepCopy, deepCopyOnPtr := hasDeepCopyMethod(root, typeInfo)
 
+	needsObject := genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo)
+	if info.RawSpec.TypeParams != nil && (!hasManualDeepCopyInto || !hasManualDeepCopy || needsObject) {
+		// we don't know how to copy values of a type parameter
+		root.AddError(loader.ErrFromNode(fmt.Errorf("unable to generate deepcopy methods for generic type: %s", info.Name), info.RawSpec))
+		return
+	}
+
 	// only generate each method if it hasn't been implemented.
 	if !hasManualDeepCopyInto {
 		c.Line("// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.")
@@ -291,7 +298,7 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 	}
 
 	// maybe also generate DeepCopyObject, if asked.
-	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+	if needsObject {
 		// we always need runtime.Object for DeepCopyObject
 		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
 		if ptrReceiver && hasManualDeepCopy && !deepCopyOnPtr {
-- 
2.43.0


From aa64adefd4a06b715ea041849f1a1834451fc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:23 +0000
Subject: [PATCH 78/80] fix: report anonymous structs that deepcopy methods
 can't copy

The generated code called methods that anonymous structs don't have.
---
 pkg/deepcopy/traverse.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index eb0f0a5..e52bbbf 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -423,6 +423,10 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 			// otherwise...
 			switch underlyingElem := underlyingElem.(type) {
 			case *types.Struct:
+				if isAnonymousStruct(mapType.Elem()) {
+					c.pkg.AddError(fmt.Errorf("invalid map value type: %s", underlyingElem))
+					return
+				}
 				// structs will have deepcopy generated for them, so use that
 				c.Line("(*out)[key] = *val.DeepCopy()")
 			default:
@@ -467,6 +471,10 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 
 			switch underlyingElem.(type) {
 			case *types.Struct:
+				if isAnonymousStruct(sliceType.Elem()) {
+					c.pkg.AddError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
+					return
+				}
 				// structs will always have deepcopy
 				c.Linef("(*in)[i].DeepCopyInto(&(*out)[i])")
 			default:
@@ -543,6 +551,9 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 		case *types.Struct:
 			if fineToShallowCopy(field.Type()) {
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
+			} else if isAnonymousStruct(field.Type()) {
+				c.pkg.AddError(loader.ErrFromNode(fmt.Errorf("invalid field type: %s", underlyingField), field))
+				return
 			} else {
 				c.Linef("in.%[1]s.DeepCopyInto(&out.%[1]s)", field.Name())
 			}
@@ -596,6 +607,10 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	// otherwise...
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
+		if isAnonymousStruct(pointerType.Elem()) {
+			c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
+			return
+		}
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.Line("(*in).DeepCopyInto(*out)")
 	default:
@@ -828,6 +843,13 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 	}
 }
 
+// isAnonymousStruct checks if the given type is a struct type literal (or an
+// alias of one), which has no methods that could copy it.
+func isAnonymousStruct(typeInfo types.Type) bool {
+	_, isStruct := types.Unalias(typeInfo).(*types.Struct)
+	return isStruct
+}
+
 // passesByReference checks if the given type passesByReference
 // (except for interfaces, which are handled separately).
 func passesByReference(typeInfo types.Type) bool {
-- 
2.43.0


From 36ced164c0f02a2f03bf35f29b957ea2a778fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:16 +0000
Subject: [PATCH 79/80] fix: report types with fields named like deepcopy
 methods

A field called DeepCopy, DeepCopyInto or DeepCopyObject was taken for a
method of that name, which made the generator panic, or leave out
DeepCopyObject. Go allows no method of that name beside it, so report it.
---
 pkg/deepcopy/traverse.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index e52bbbf..9750968 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -260,6 +260,12 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		return
 	}
 
+	if !hasManualDeepCopyInto && !checkNoField(root, info, "DeepCopyInto") ||
+		!hasManualDeepCopy && !checkNoField(root, info, "DeepCopy") ||
+		needsObject && !checkNoField(root, info, "DeepCopyObject") {
+		return
+	}
+
 	// only generate each method if it hasn't been implemented.
 	if !hasManualDeepCopyInto {
 		c.Line("// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.")
@@ -719,7 +725,8 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 		// ignore embedded methods
 		return false, false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
+		// missing, or a field that's called like the method
 		return false, false
 	}
 
@@ -761,7 +768,8 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// ignore embedded methods
 		return false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
+		// missing, or a field that's called like the method
 		return false
 	}
 
@@ -790,8 +798,20 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 // hasDeepCopyObjectMethod checks if this type itself has a manual DeepCopyObject method.
 func hasDeepCopyObjectMethod(pkg *loader.Package, typeInfo types.Type) bool {
 	obj, ind, _ := types.LookupFieldOrMethod(typeInfo, true /* check pointers too */, pkg.Types, "DeepCopyObject")
-	// ignore embedded methods
-	return obj != nil && len(ind) == 1
+	// ignore embedded methods, and fields that are called like the method
+	_, isMethod := obj.(*types.Func)
+	return isMethod && len(ind) == 1
+}
+
+// checkNoField reports if the given type has a field of its own that is called like a
+// method that we're about to generate, and checks that it doesn't.
+func checkNoField(root *loader.Package, info *markers.TypeInfo, methodName string) bool {
+	obj, ind, _ := types.LookupFieldOrMethod(root.TypesInfo.TypeOf(info.RawSpec.Name), true /* check pointers too */, root.Types, methodName)
+	if _, isField := obj.(*types.Var); !isField || len(ind) != 1 {
+		return true
+	}
+	root.AddError(loader.ErrFromNode(fmt.Errorf("unable to generate %[1]s for type %[2]s, which has a field of that name", methodName, info.Name), info.RawSpec))
+	return false
 }
 
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
-- 
2.43.0


From 895efac7e0f717f30e0e73dd3cfb00a1492b3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:15 +0000
Subject: [PATCH 80/80] fix: keep the content of metav1.FieldsV1 fields

Since Kubernetes 1.16 the type of managed fields is FieldsV1, no longer
Fields. Its schema was an object without properties, so an API server
would drop whatever such a field held.
---
 pkg/crd/known_types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/known_types.go b/pkg/crd/known_types.go
index fd2a663..27e12bc 100644
--- a/pkg/crd/known_types.go
+++ b/pkg/crd/known_types.go
@@ -40,11 +40,11 @@ var KnownPackages = map[string]PackageOverride{
 			// TODO(directxman12): regexp validation for this (or get kube to support it as a format value)
 			Type: "string",
 		}
-		p.Schemata[TypeIdent{Name: "Fields", Package: pkg}] = apiext.JSONSchemaProps{
+		p.Schemata[TypeIdent{Name: "FieldsV1", Package: pkg}] = apiext.JSONSchemaProps{
 			// this is a recursive structure that can't be flattened or, for that matter, properly generated.
-			// so just treat it as an arbitrary map
-			Type:                 "object",
-			AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Allows: true},
+			// so just treat it as an arbitrary object
+			Type:                   "object",
+			XPreserveUnknownFields: ptr.To(true),
 		}
 		p.AddPackage(pkg) // get the rest of the types
 	},
-- 
2.43.0

