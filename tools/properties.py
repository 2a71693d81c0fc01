#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))

p("C01", "Marker arguments parse to exactly the values written",
  "A marker comment whose arguments are written in the documented syntax (quoted, raw-quoted or bare strings, numbers, booleans, {…} or ;-separated lists, maps, any-typed values, in any argument order and spacing) is read back as exactly those typed values. A marker that misses a required argument, names an unknown one, is followed by extra text, or gives a value of the wrong type is reported as an error and never accepted with a different value.",
  ["inputs"], "every marker definition shape (scalar, list, map, any, pointer and optional fields, anonymous or named) and every value of those types, in every documented spelling",
  "parse_test.go holds about sixty hand-written strings; escapes, nesting, delimiters inside strings, sign/size limits and combinations of spellings are unbounded.",
  ["pkg/markers/parse.go", "pkg/markers/reg.go"],
  [("typed recursive-descent argument parser", "pkg/markers/parse.go Definition.Parse, Argument.parse"), ("name/argument splitting", "pkg/markers/parse.go splitMarker"), ("lookup by longest registered name", "pkg/markers/reg.go Registry.Lookup")],
  ["return value and error of parsing one marker comment against its definition"])
p("C02", "Any marker text yields a value or an error, never a crash",
  "For every text a comment can hold, looking up and parsing it against any definition, including every definition the tool ships, terminates with either a value of the definition's type or an error. The result depends only on the text and the definition: repeating the parse gives the same value or the same error.",
  ["inputs"], "all comment strings (valid UTF-8 and not), against all shipped definitions and generated ones",
  "Comments are user input of unbounded shape; the tests feed a fixed list of well-formed ones.",
  ["pkg/markers/parse.go", "pkg/markers/reg.go", "pkg/crd/markers", "pkg/webhook/parser.go", "pkg/rbac/parser.go"],
  [("error collection in the scanner callback", "pkg/markers/parse.go"), ("custom marker parsers", "pkg/crd/markers")],
  ["panic or error at the parse call"])
p("C03", "Markers and docs belong to the declaration they are written on",
  "Each marker comment is attached to exactly the package, type or field the documented association rule names (doc comment, closest comment group above, otherwise the package), with its written order kept, and no marker is lost, duplicated or attached elsewhere. A declaration's documentation is its doc comment without its markers.",
  ["programs"], "all layouts of comments, declarations, struct fields, grouped declarations and files in a package",
  "collect_test.go checks one fixed file; association depends on the interplay of every comment group with every neighbouring declaration.",
  ["pkg/markers/collect.go", "pkg/markers/zip.go"],
  [("AST walk that assigns comment groups to nodes", "pkg/markers/collect.go markerSubVisitor.Visit"), ("re-association of package-level markers", "pkg/markers/collect.go associateFileMarkers"), ("doc extraction", "pkg/markers/zip.go extractDoc")],
  ["collected markers per type/field/package, and type/field documentation"])
p("C04", "A generated schema has the structure of the Go type",
  "For every supported Go type the generated schema has exactly the properties the type's JSON encoding uses (renamed, inlined, embedded or skipped as the tags say), each of the kind the Go type has, with optional and required fields told apart as documented, at every nesting level and across packages (for types whose fields have distinct JSON names). Unsupported types are reported as errors.",
  ["programs"], "all Go type declarations built from the supported kinds, tags, embedding, aliases, and cross-package references",
  "The golden test covers one large hand-written API; the set of type/tag/embedding combinations is unbounded.",
  ["pkg/crd/schema.go", "pkg/crd/parser.go", "pkg/crd/known_types.go"],
  [("type to schema translation", "pkg/crd/schema.go infoToSchema, typeToSchema, structToSchema"), ("well-known types", "pkg/crd/known_types.go")],
  ["openAPIV3Schema of the generated CRD"])
p("C05", "What Go encodes, the schema accepts; what it decodes, the schema names",
  "Every value of an API type whose slices, maps, pointers and times without omitempty are set, encoded by Go's JSON encoder, validates against the schema generated for that type, and no part of the encoding is outside the schema's named properties (so nothing would be pruned). Conversely a value of the wrong JSON type for a property is rejected by the schema whenever the Go decoder rejects it.",
  ["programs", "inputs"], "all supported Go types, and all values of them",
  "The tests compare YAML text with golden files and never encode a value of the types they describe.",
  ["pkg/crd/schema.go", "pkg/crd/known_types.go", "pkg/crd/flatten.go"],
  [("builtin kind to JSON type/format mapping", "pkg/crd/schema.go builtinToType"), ("well-known type schemas", "pkg/crd/known_types.go")],
  ["validity of encoded values against the generated schema"])
p("C06", "Each validation marker adds exactly its own constraint",
  "A validation or schema marker on a field, type or array item changes exactly the schema keyword it documents, to exactly the value written, at exactly that place, whatever other markers stand beside it and in whatever order they are written. A marker that cannot apply to the annotated field's or type's own (builtin, list, map or struct) type is reported as an error.",
  ["inputs", "programs"], "all sets of markers with all argument values on all applicable places, in all orders",
  "The golden API uses each marker a few times with one value; combinations, orders and boundary values are not explored.",
  ["pkg/crd/markers/validation.go", "pkg/crd/markers/topology.go", "pkg/crd/schema.go"],
  [("marker application with priorities", "pkg/crd/schema.go applyMarkers"), ("per-marker schema edits", "pkg/crd/markers/*.go")],
  ["keywords of the generated schema"])
p("C07", "Flattening keeps the meaning of a schema and leaves no references",
  "The schema placed in a CRD contains no references and no merge leftovers, and accepts exactly the values that the referenced schemas together with the constraints written beside each reference accept; documentation written beside a reference wins over that of the type. Flattening changes no schema it reads from, and its result does not depend on what was flattened before.",
  ["programs", "histories", "inputs"], "all acyclic reference graphs of types with constraints on types and fields, all values, all flattening orders",
  "flatten tests compare about a dozen hand-written cases; equivalence must hold for every combination of merged keywords and every value.",
  ["pkg/crd/flatten.go", "pkg/crd/schema_visitor.go"],
  [("allOf merging", "pkg/crd/flatten.go flattenAllOf, FlattenEmbedded"), ("reference inlining", "pkg/crd/flatten.go FlattenSchema"), ("schema traversal", "pkg/crd/schema_visitor.go EditSchema")],
  ["flattened schema versus resolved unflattened schema on generated values"])
p("C08", "A CRD manifest states exactly what the type's markers ask for",
  "For every kind found, the manifest has the documented names, scope, group, categories, printer columns, subresources, annotations, labels, conversion-relevant version list with served, storage and deprecation flags, one entry per version and in order, exactly as the markers on its versions say. Kinds without a root object, skipped versions and missing storage versions are handled as documented, and a manifest is written for every kind and for nothing else.",
  ["programs", "configurations"], "all combinations of kinds, versions, resource/version markers and generator options",
  "The golden tests cover a handful of kinds; marker combinations over several versions are not sampled.",
  ["pkg/crd/spec.go", "pkg/crd/gen.go", "pkg/crd/markers/crd.go", "pkg/crd/parser.go"],
  [("CRD assembly", "pkg/crd/spec.go NeedCRDFor"), ("kind discovery", "pkg/crd/gen.go FindKubeKinds"), ("version conversion and defaulting", "pkg/crd/conv.go")],
  ["written CRD manifests"])
p("C09", "The same input always generates the same bytes",
  "Running any generator or the help output again on the same sources, in the same or another process, gives byte-identical artifacts. Naming the root packages in another order changes no artifact's content.",
  ["schedules", "programs", "histories"], "all inputs, repeated runs, process restarts and root orders",
  "Go map iteration and goroutine scheduling differ between runs; each test runs once and inputs large enough to expose ordering are rare.",
  ["pkg/crd/schema.go", "pkg/crd/spec.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/deepcopy/gen.go", "pkg/genall/help", "pkg/loader/loader.go"],
  [("sorting before output", "pkg/crd/spec.go, pkg/crd/gen.go, pkg/rbac/parser.go, pkg/webhook/parser.go"), ("priority order of markers", "pkg/crd/schema.go applyMarkers")],
  ["bytes of all artifacts over repeated runs"])
p("C10", "Generated roles grant exactly what the RBAC markers ask for",
  "For every set of RBAC markers over all root packages, the generated cluster role and per-namespace roles together permit exactly the requests that at least one marker of that namespace permits. No permission is lost and none is added by merging, splitting, sorting or deduplicating.",
  ["inputs", "programs"], "all finite sets of RBAC markers (groups, resources, resource names, URLs, verbs, namespaces)",
  "One golden file; the merge steps interact only for particular overlaps of several markers.",
  ["pkg/rbac/parser.go"],
  [("rule merging by key", "pkg/rbac/parser.go GenerateRoles NormalizeRules"), ("rule keys", "pkg/rbac/parser.go ruleKey")],
  ["requests permitted by the generated roles under Kubernetes RBAC semantics"])
p("C11", "Role manifests are normalised and independent of marker order",
  "The generated roles depend only on the set of RBAC markers, not on their order, their file or package, or the order of roots. Every list in a rule is sorted and free of duplicates, a wildcard verb stands alone, no two rules of a role have the same target, and roles come in namespace order.",
  ["inputs", "histories"], "all permutations and distributions of all marker sets",
  "The golden test has one order; merging passes through maps whose order changes per run.",
  ["pkg/rbac/parser.go"],
  [("normalisation of rules and sorting", "pkg/rbac/parser.go normalize, ruleKeys")],
  ["bytes and shape of the role manifest"])
p("C12", "Webhook manifests state exactly what the webhook markers ask for",
  "Every valid webhook marker yields exactly one webhook entry, in the mutating or validating configuration it names, with the documented service, path, rules, policies, versions and defaults, ordered by name, under the configuration name that applies. Markers that break a documented constraint (incomplete, contradictory or repeated settings), and conflicting configuration names, are reported as errors and yield no manifest.",
  ["inputs", "programs"], "all sets of webhook markers and configuration markers with all argument combinations",
  "About twenty hand-written test packages; argument combinations and conflicts between markers are not sampled.",
  ["pkg/webhook/parser.go"],
  [("marker to webhook conversion", "pkg/webhook/parser.go Config.ToMutatingWebhook, ToValidatingWebhook"), ("configuration assembly", "pkg/webhook/parser.go Generate")],
  ["written webhook manifests, errors"])
p("C13", "Written YAML reads back as the object that was generated",
  "Every generated manifest parses as YAML whose documents are equal to the generated objects (for any strings, numbers and nested values they hold), apart from the documented removal of fields only a server sets. Numbers keep their value as 64-bit integers or floats. The header text comes first, verbatim with the year filled in, and documents are separated so that their count and order are kept.",
  ["inputs"], "all objects with all string contents (quotes, newlines, unicode, YAML-like scalars), numbers and header texts",
  "Golden files hold friendly strings; YAML scalars that look like other types and control characters are unbounded.",
  ["pkg/genall/genall.go", "pkg/crd/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go"],
  [("YAML writer", "pkg/genall/genall.go WriteYAML, yamlMarshal"), ("transforms", "pkg/crd/gen.go transformRemoveCRDStatus, pkg/genall/genall.go")],
  ["bytes written to the output rule"])
p("C14", "Generated deep copies are equal, complete and independent",
  "For every set of Go structs, slices and maps over builtin, named, imported and hand-copied types the generated deep-copy code compiles, and copying any value gives a value equal to the original (nil and empty kept apart) that shares no mutable memory with it. The original is never modified, and hand-written copy methods on member types are honoured. A type that cannot be copied (of interface, array, function or channel type, say) is reported, never miscopied.",
  ["programs", "inputs"], "all supported type declarations and all values of them",
  "One golden package is compared as text; whether the text compiles and copies correctly for other shapes is not tested.",
  ["pkg/deepcopy/gen.go", "pkg/deepcopy/traverse.go"],
  [("copy code emitter", "pkg/deepcopy/traverse.go copyMethodMaker"), ("manual method detection", "pkg/deepcopy/traverse.go hasDeepCopyMethod")],
  ["behaviour of the compiled generated methods"])
p("C15", "Deep copies are generated for exactly the selected types",
  "Deep-copy methods are generated for exactly the types that the package and type markers select and that do not have their own, and a runtime-object method exactly for types marked as such. Packages with nothing selected get no file.",
  ["programs", "configurations"], "all combinations of package/type markers (new and legacy forms), exported and unexported types and hand-written methods",
  "One golden package; the marker precedence table is not covered.",
  ["pkg/deepcopy/gen.go"],
  [("selection of types", "pkg/deepcopy/gen.go shouldBeCopied, enabledOnType, genObjectInterface")],
  ["set of methods in the generated file"])
p("C16", "Schema patching replaces the schemas and nothing else",
  "Patching a directory of CRD manifests gives every version whose Go type is among the roots exactly the schema the CRD generator gives that type; other versions of those kinds, and the legacy top-level validation, lose theirs, as documented. Every other field of every document, its order and its comments are kept, files without CRDs are left unwritten, and patching again changes nothing. Manifests of any other shape are reported or left as they are.",
  ["inputs", "histories"], "all existing CRD manifests (fields, comments, several versions, other kinds) and all roots",
  "The golden directories hold a few manifests; arbitrary surrounding content and repeated patching are not sampled.",
  ["pkg/schemapatcher/gen.go", "pkg/schemapatcher/internal/yaml"],
  [("YAML node surgery", "pkg/schemapatcher/internal/yaml/nested.go, set.go"), ("per-version patching", "pkg/schemapatcher/gen.go")],
  ["patched manifests versus the originals"])
p("C17", "Roots load each named package exactly once, errors included",
  "For any mix of root patterns, working directories and nested modules, loading yields exactly the packages the patterns name, each once, and a package that is a root is the same one wherever an import of another package reaches it. A package that fails to parse, list or type-check is reported with its position, and a root that names nothing is reported.",
  ["configurations", "inputs"], "all directory layouts with nested modules and all root patterns",
  "Tests use one test module tree with fixed patterns.",
  ["pkg/loader/loader.go", "pkg/loader/errors.go", "pkg/loader/paths.go"],
  [("root partitioning, nested module discovery and de-duplication", "pkg/loader/loader.go LoadRootsWithConfig"), ("import identity", "pkg/loader/loader.go packageFor, visitImports")],
  ["set and identity of loaded packages, recorded errors"])
p("C18", "A bad input makes the run fail, and a good one never does",
  "If any source or marker given to a generator is invalid (malformed marker, unsupported type, conflicting or incomplete declaration, unreadable file, failing output), the run reports failure with a message naming the marker's or declaration's position where it has one, and errors in other packages' sources are not hidden by it (a webhook that cannot be used ends the webhook generator's run). A run on valid input reports success.",
  ["fault_sequences", "programs"], "all valid programs with any one fault injected anywhere in them",
  "Few tests exercise errors, each at one fixed place.",
  ["pkg/genall/genall.go", "pkg/loader/loader.go", "pkg/crd/gen.go", "pkg/crd/schema.go", "cmd/controller-gen/main.go"],
  [("error recording on packages", "pkg/loader/loader.go AddError, PrintErrors"), ("run result", "pkg/genall/genall.go Runtime.Run")],
  ["exit status and messages of a run"])
p("C19", "Artifacts go where the output rules say and nowhere else",
  "For every list of command-line options, each generator's artifacts are written by the most specific output rule given for it (its own, else the default, else the documented fallback), with the documented file names and contents, and nothing else is created or changed. Unknown generators, unknown rules and malformed options are errors.",
  ["configurations"], "all option lists over generators, rules, arguments and orders",
  "Options tests exist for a few lists; precedence among rules is not covered.",
  ["pkg/genall/options.go", "pkg/genall/output.go", "pkg/genall/input.go", "cmd/controller-gen/main.go"],
  [("option parsing into generators and rules", "pkg/genall/options.go protoFromOptions"), ("output rules", "pkg/genall/output.go")],
  ["file tree after a run"])
p("C20", "Descriptions are the doc comments, cut only at safe places",
  "A schema's description is the Go documentation of the field or type it describes (without markers), and a length limit (in bytes) yields a prefix of that text within the limit that is still valid text, ending at the last sentence terminal or, failing that, whitespace that fits, else anywhere between characters, with an ellipsis (beyond the limit) where no sentence ends; a limit of zero removes descriptions everywhere. Limiting descriptions changes nothing else.",
  ["inputs"], "all documentation texts (any Unicode) and all limits",
  "The truncation tests are a dozen ASCII sentences.",
  ["pkg/crd/desc_visitor.go", "pkg/markers/zip.go", "pkg/crd/schema.go"],
  [("truncation", "pkg/crd/desc_visitor.go truncateString"), ("doc extraction", "pkg/markers/zip.go extractDoc")],
  ["description fields of the generated schema"])
p("C21", "Scaffolded types are valid Go and generate a valid CRD",
  "For every accepted kind and resource name, the scaffold is well-formed Go that compiles in an API package, and the generators produce from it a CRD of exactly that kind, plural and scope. Names that cannot be used in Go or in an API are rejected.",
  ["inputs"], "all kind and resource strings, with and without a namespace",
  "The test scaffolds one resource.",
  ["pkg/typescaffold/scaffold.go", "pkg/typescaffold/resource.go", "cmd/type-scaffold/main.go"],
  [("template", "pkg/typescaffold/scaffold.go"), ("validation and pluralisation", "pkg/typescaffold/resource.go")],
  ["scaffold text, compiled and fed to the generators"])
p("C22", "Marker help describes every marker as the parser understands it",
  "Help output, printed or as JSON, lists every registered marker and generator option once per target with its documentation at the requested level of detail, and with every argument under the name and kind the parser accepts for it and marked optional exactly when leaving it out parses. The help text generator emits the documentation of the annotated type and its fields, in Go that compiles.",
  ["inputs", "programs"], "all registries of marker definitions and all annotated marker types",
  "The tests compare nothing of the help model with the parser.",
  ["pkg/markers/help.go", "pkg/genall/help", "cmd/helpgen/main.go"],
  [("help model", "pkg/genall/help/types.go, sort.go"), ("helpgen", "cmd/helpgen/main.go")],
  ["help documents versus parse results"])
p("C23", "Shared marker registries and collectors answer as fresh ones do",
  "Any history of registering, looking up, collecting markers and loading types, from one or several goroutines, answers every query as a fresh registry, collector or parser would for the same packages and the definitions registered when a package was first asked about. Nothing the tool's generators do with one answer changes a later one, lookups always find the most specific definition for the target, and concurrent use has no data race.",
  ["histories", "schedules"], "all sequences and interleavings of registry, collector, parser and checker operations",
  "Tests use each object once, from one goroutine.",
  ["pkg/markers/reg.go", "pkg/markers/collect.go", "pkg/loader/loader.go", "pkg/crd/parser.go"],
  [("locks and caches", "pkg/markers/reg.go, pkg/markers/collect.go, pkg/loader/loader.go")],
  ["answers over a history, race reports"])
p("C24", "Referenced packages are type-checked, unreferenced ones are not loaded",
  "After checking a root, type information is complete for every package that a type selected by the filters refers to, directly or through other selected types, so that generation never lacks a type. Packages that only unselected code refers to are not checked, so that errors in them do not fail a run.",
  ["programs"], "all import graphs with references from selected and unselected declarations",
  "The loader tests do not cover the reference collector.",
  ["pkg/loader/refs.go", "pkg/loader/loader.go"],
  [("reference collection", "pkg/loader/refs.go collectReferences, TypeChecker.Check")],
  ["type information and errors of packages after a check"])
p("C25", "Apply configurations are generated for exactly the selected types",
  "For every API package that asks for them (or that has a type which asks by its own marker), apply-configuration code is generated below the output package named, beginning with the header file, and compiles. The types it covers are the selected objects (kubebuilder:resource types of enabled packages and types with ac:generate=true, less those with ac:generate=false) and the structs of the package they refer to, with one setter per JSON field that sets that field and leaves the others alone. Packages and types that do not ask get none, nothing else is written, a second run over the result changes nothing, and markers that cannot be read fail the run.",
  ["programs", "configurations"], "all API packages with enabling/disabling markers on packages and types",
  "One golden package is compared as text.",
  ["pkg/applyconfiguration/gen.go"],
  [("selection of types", "pkg/applyconfiguration/gen.go enabledOnPackage, enabledOnType, generateForPackage"), ("code generation", "pkg/applyconfiguration/gen.go, k8s.io/code-generator")],
  ["compiled generated code"])

p("C26", "A command line runs exactly the generators it names, as told",
  "Every accepted list of options runs exactly the generators named, in that order, each with exactly the argument values written and nothing set that was not; on exactly the packages of the paths given (all paths options together, the current directory when there are none), loaded with the build tags given; with the output rule given for that generator, else the default rule given, else the documented directory for it. Marker help for the same options knows exactly the markers of those generators. An unknown option or argument, a missing or ill-typed argument, a repeated generator, a rule for a generator that is not run or options that name no generator at all are errors: nothing runs, the exit code is not 0 and the usage is shown; a run that fails exits with 1 and no usage.",
  ["inputs", "configurations"], "all lists of command-line options and flags",
  "The tests never build a run from options.",
  ["cmd/controller-gen/main.go", "pkg/genall/options.go", "pkg/genall/genall.go", "pkg/markers/parse.go"],
  [("options to runtime", "pkg/genall/options.go protoFromOptions, FromOptionsWithConfig"), ("command line", "cmd/controller-gen/main.go")],
  ["the runtime built, exit code, standard output and error, files"])

p("C27", "Generators run together produce what each produces alone",
  "Running several generators in one run over one set of packages writes, for every generator and in any order of them, exactly the files the same generator with the same arguments writes when it runs alone over freshly loaded packages, and reports the run as failed exactly when one of them fails alone: no generator sees or disturbs what another has read, cached, normalised or generated.",
  ["inputs", "configurations"], "all sets of packages, subsets and orders of generators",
  "The tests run one generator at a time on freshly loaded packages.",
  ["pkg/genall/genall.go", "pkg/markers/collect.go", "pkg/crd/parser.go", "pkg/deepcopy/gen.go", "pkg/webhook/parser.go", "pkg/rbac/parser.go", "pkg/loader/loader.go"],
  [("the shared run", "pkg/genall/genall.go Runtime.Run, GenerationContext"), ("shared caches", "pkg/markers/collect.go Collector, pkg/loader Package")],
  ["files written, run status"])

p("C28", "Regenerating over earlier output gives what a clean tree gives",
  "Running the command over a tree that holds the output of an earlier version of the sources (or of other arguments) succeeds exactly when it does on a tree without that output, and leaves every file it writes with exactly the bytes it would have there: nothing of longer earlier files remains, earlier generated Go code does not change what is generated, and files the run does not write stay as they were. A further run changes nothing.",
  ["histories", "inputs"], "all pairs of source versions and argument lists",
  "The tests generate into memory or into fresh files.",
  ["pkg/genall/output.go", "pkg/deepcopy/gen.go", "pkg/applyconfiguration/gen.go", "pkg/genall/genall.go"],
  [("writing files", "pkg/genall/output.go OutputToDirectory.Open, OutputArtifacts.Open, OutputToNothing"), ("generated code read back", "pkg/deepcopy/gen.go shouldBeCopied, hasDeepCopyMethod")],
  ["files on disk after each run, exit code"])

p("C29", "The layout of the sources does not matter",
  "Two layouts of the same declarations generate the same: whatever the order of declarations in a file, their distribution over the files of a package and the files' names, whether types are declared one by one or in a group, the names imports go by, line endings, further functions, variables and constants, and files that are no part of the package (tests, unmet build constraints), every generator succeeds or fails alike and writes the same files with the same bytes (generated Go code up to the names it gives its imports), as long as each comment stays with the declaration it is written on.",
  ["inputs"], "all packages and all layouts of their declarations",
  "The tests read each source in one layout.",
  ["pkg/markers/collect.go", "pkg/markers/zip.go", "pkg/loader/visit.go", "pkg/loader/refs.go", "pkg/crd/parser.go", "pkg/crd/schema.go", "pkg/deepcopy/gen.go", "pkg/rbac/parser.go"],
  [("walking declarations", "pkg/loader/visit.go EachType, pkg/markers/collect.go"), ("resolving names", "pkg/loader/refs.go mapImports, pkg/crd/schema.go namedToSchema"), ("order of generated code", "pkg/deepcopy/gen.go generateForPackage")],
  ["files written, run status"])

p("C30", "Schemas of generated manifests are structural, as API servers demand",
  "For every set of packages of supported Go types (own types of every shape, embedded and inlined structs, aliases, text and JSON marshalers, types of the Kubernetes libraries) and every set of validation markers, default and required modes, description limits and metadata options, each version of each manifest written holds a schema that an API server of the Kubernetes version built against accepts as structural: complete types outside of value validations, nothing but validations inside allOf and anyOf, no restrictions on the root's metadata. The only exceptions are those a marker asks for in so many words.",
  ["inputs", "configurations"], "all packages of supported types and markers",
  "The tests compare with fixed manifests of a few packages; whether a server takes a manifest is never asked.",
  ["pkg/crd/flatten.go", "pkg/crd/schema.go", "pkg/crd/known_types.go", "pkg/crd/spec.go", "pkg/crd/gen.go", "pkg/crd/markers/validation.go"],
  [("flattening", "pkg/crd/flatten.go flattenAllOfInto, FlattenEmbedded"), ("schemas of types", "pkg/crd/schema.go typeToSchema, structToSchema"), ("top level metadata", "pkg/crd/gen.go removeDescriptionFromMetadata")],
  ["generated manifests, as the API server's own code judges them"])

p("C31", "Packages generated in one run produce what each produces alone",
  "For every set of packages given to one run that succeed on their own, each version of a kind in only one of them, the run over all of them yields exactly what the runs over each one yield together: the same deep copy file for each package, the same version of each kind (schema, columns, subresources, deprecation and serving; only what is stored depends on the other versions), the union of the permissions granted, and all of the webhooks. Nothing of one package (types of the same name, markers, import names, groups, caches) shows in what is generated for another that does not refer to it.",
  ["inputs", "configurations"], "all sets of packages",
  "The tests give one or two fixed packages to a run and compare with fixed files.",
  ["pkg/crd/parser.go", "pkg/crd/spec.go", "pkg/crd/flatten.go", "pkg/deepcopy/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/markers/collect.go", "pkg/genall/genall.go"],
  [("caches by type and package", "pkg/crd/parser.go NeedSchemaFor, NeedFlattenedSchemaFor, NeedPackage"), ("generators over roots", "Generate of pkg/crd, pkg/deepcopy, pkg/rbac, pkg/webhook")],
  ["manifests and code of runs over one and over all packages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
