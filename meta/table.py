prop("C01", "Version numbers are totally ordered and print/parse as inverses",
 "Versions are ordered by major number, then minor number, and exactly one of less, equal, greater holds for any two. Printing a version and parsing the text gives the version back. A text parses exactly when it is MAJOR.MINOR in decimal digits (32-bit values), with the value written, and any other text is reported as a malformed version.",
 ["inputs"], "every pair and triple of versions; every text within the length bound",
 "Parsing is tested with a dozen texts and ordering with a few pairs; boundary digits, embedded bytes and overflow are not reached.",
 ["surface.go", "errors/errors.go"],
 [("SyntacticVersion.Less", "surface.go"), ("SyntacticVersion.String", "surface.go"), ("ParseSyntacticVersion", "surface.go")],
 "order: every 64-bit number; print/parse: numbers up to 1200 (thorough 120000); parse: every text of up to 4 (thorough 5) printable bytes, and D.D with up to 11 digits on either side and fewer than 3 on the other (thorough: up to 11 on both).")

prop("C02", "Only lineages with contiguous versions from 0.0 bind",
 "Binding accepts a lineage's version numbers exactly when the first is 0.0 and each next one is the following minor version of the same major, or minor 0 of the following major. Every declared schema is then in the lineage under its declared version and in order; otherwise binding fails with a classified error and no lineage.",
 ["inputs", "configurations"], "every assignment of version numbers to the schemas of a lineage",
 "Tests bind a fixed set of well-formed lineages; gaps, repeats and wrong starts were accepted before the fix recorded here.",
 ["bind.go", "lineage.cue", "lineage.go"],
 [("BindLineage schema checks", "bind.go"), ("#Lineage.schemas ordering constraints", "lineage.cue")],
 "1 and 2 schemas with version numbers 0..1000, 3 schemas with 0..5 (thorough 0..1000), 4 schemas with 0..3 (thorough 0..6) after a fixed pair.")

prop("C03", "Minors are backwards compatible, majors are breaking, at bind",
 "A lineage binds only if each minor version accepts everything its immediate predecessor accepts, and each new major version does not. A lineage that meets both conditions binds, and one that breaks either is rejected as an invalid lineage with no lineage returned.",
 ["inputs", "configurations"], "every pair of schemas in the domain: integer ranges, optional/required fields, nested structs, and chains of versions",
 "Tests hold some twenty fixed schema pairs; the boundary between compatible and incompatible ranges is not explored, nor chains where only one link is bad.",
 ["bind.go", "internal/compat/compat.go", "lineage.go"],
 [("compat.ThemaCompatible", "internal/compat/compat.go"), ("BindLineage compat loop", "bind.go")],
 "two schemas with one integer range each (bounds 0..60, thorough 0..100000) at three positions; chains of 3 (thorough 4) upper bounds; every pair of 8 forms of one field at two depths; two fields changing at once; open-list elements.",
 note="Known finding: narrowing the elements of an open list is not noticed (CUE's Subsume).")

prop("C04", "Looking up a schema finds exactly the declared version",
 "Asking a lineage for a version returns the schema declared with that version if there is one, and otherwise an error classified as version-not-exist. First, latest, latest-in-sequence and the list of all schemas agree with the declared versions, and what the list returns can be changed by the caller without affecting the lineage.",
 ["inputs", "configurations"], "every requested version or sequence number, on every lineage shape in the bound",
 "Tests look up versions that exist in a few fixed lineages.",
 ["lineage.go", "surface.go", "bind.go"],
 [("baseLineage.Schema", "lineage.go"), ("SchemaP", "surface.go"), ("LatestVersion", "surface.go"), ("LatestVersionInSequence", "surface.go")],
 "12 (thorough 15) lineage shapes of up to 7 schemas and 5 majors; requested numbers 0..99 (thorough 0..99999), sequences 0..999 (thorough 0..99999).")

prop("C05", "Walking from schema to schema visits the lineage in order",
 "The successor of a schema is the next declared version and its predecessor the previous one, each inverse to the other, with none past either end. The latest-in-major of a schema is the newest schema of that same major version. Walking from first to last and back visits every schema exactly once.",
 ["inputs", "configurations"], "every schema of every lineage shape in the bound",
 "Tests walk fixed lineages with few majors; positions in later majors are not reached.",
 ["schema.go", "lineage.go"],
 [("schemaDef.Successor", "schema.go"), ("schemaDef.Predecessor", "schema.go"), ("schemaDef.LatestInMajor", "schema.go")],
 "13 (thorough 15) lineage shapes of up to 7 schemas and 5 majors; version numbers 0..5.")

prop("C06", "Validation accepts exactly the data that conforms to the schema",
 "Validating data against a schema succeeds exactly when every required field is present, every value present satisfies its constraint, and no undeclared field occurs at any depth, join-schema constraints included. Success yields an instance holding that data and that schema; failure yields no instance and an invalid-data error. Validating does not change later answers.",
 ["inputs", "configurations"], "every data value and constraint constant within the bounds",
 "Tests validate fixed example data; the boundary of each constraint and combinations of absent, defaulted and extra fields are not covered.",
 ["schema.go", "validate.go", "instance.go", "bind.go", "lineage.cue"],
 [("schemaDef.Validate", "schema.go"), ("mungeValidateErr", "validate.go")],
 "one constrained integer (bounds and data 0..200, thorough 0..100000) at five positions, of a schema at 0.0, 0.1, 1.0 and 1.1; constants, exclusions, enumerations; all presence combinations of a 5-field schema; 11 field types against 8 values; join schemas; three validations in a row.")

prop("C07", "Searching for a matching schema returns the oldest one that accepts",
 "Validating data against a whole lineage returns an instance of the oldest schema the data conforms to, holding the data unchanged, and nothing when it conforms to none.",
 ["inputs", "configurations"], "every assignment of accepted ranges to the schemas of a lineage, and every data value",
 "Tests use data that matches one schema of a fixed lineage.",
 ["lineage.go", "schema.go", "bind.go"],
 [("baseLineage.ValidateAny", "lineage.go")],
 "8 (thorough 15) lineage shapes of up to 4 (thorough 7) schemas, each accepting an arbitrary range of three-digit integers; 11 (15) shapes told apart by constants and optional fields.")

prop("C08", "Translation applies exactly the lenses on the path, in order",
 "Translating an instance to any version of its lineage applies exactly the lenses between the two versions, in order, forward or backward, and only those. The result validates against, and is labelled with, the target schema; minor steps forward keep every field; the source instance is unchanged.",
 ["inputs", "configurations", "histories"], "every (from, to) pair of every lineage shape in the bound, and every data value",
 "Tests translate fixed data through a handful of lineages; lineages with four majors translated backward wrongly before the fix recorded here.",
 ["instance.go", "translate.cue", "lineage.cue", "lineage.go", "bind.go"],
 [("Instance.Translate", "instance.go"), ("#Translate", "translate.cue"), ("_counts/_basis/implicitLenses", "lineage.cue")],
 "14 (thorough 15) lineage shapes of up to 7 schemas and 5 majors, every from and to; each lens adds its own symbolic amount; data 100..199 (thorough 100..99999).",
 quick=240)

prop("C09", "Binding accepts exactly the required set of Go lenses",
 "When Go lenses are supplied, binding succeeds exactly when they are one lens with a function for each required pair of versions (each backward step, and the forward step between majors), with none missing, repeated or extra, in any order. A missing lens is reported as missing and a surplus one as erroneous, with no lineage returned.",
 ["inputs", "configurations"], "every replacement, addition and subset of lenses on every lineage shape in the bound",
 "Tests bind complete sets and two or three fixed faulty ones.",
 ["bind.go", "lineage.go", "surface.go"],
 [("checkGoLensCompleteness", "bind.go"), ("ImperativeLenses", "bind.go")],
 "6 (thorough 12) lineage shapes; one lens replaced by or added with arbitrary version numbers 0..3; every subset, order forward and reversed, with any one function nil.")

prop("C10", "Go-lens translation composes the functions and contains their faults",
 "Translation through Go lenses calls exactly the functions on the path between the versions, in order, each with an instance of its source version and its target schema, and returns the last one's result labelled with the target version. If a function fails, returns nothing or returns the wrong version, translation stops and fails with an invalid-lens error carrying the function's error. Instances handed to functions, and the source instance, are never changed.",
 ["inputs", "configurations", "fault_sequences"], "every (from, to) pair and every single faulty lens with each kind of fault",
 "Tests translate one fixed lineage with functions that all succeed.",
 ["instance.go", "bind.go", "lineage.go"],
 [("Instance.translateGo", "instance.go"), ("baseLineage.lensmap", "lineage.go")],
 "10 lineage shapes of up to 7 schemas, every from and to, lenses given forward or reversed, each adding its own amount 100..199; faults: 3 (thorough 10) shapes, any lens, 4 kinds.",
 quick=240)

prop("C11", "CUE lenses listed out of order are rejected",
 "Binding a lineage with lenses written in CUE succeeds only if they are listed in ascending order by target version, then source version. Lenses out of order are reported with the lens-order error and no lineage is returned.",
 ["inputs", "configurations"], "every assignment of target and source versions to the listed lenses",
 "Tests hold two or three misordered lineages.",
 ["bind.go", "lineage.go"],
 [("checkLensesOrder", "bind.go")],
 "two lenses with version numbers 0..9, three lenses with 0..1 (thorough 0..3).",
 quick=240)

prop("C12", "Hydrate fills in defaults and dehydrate removes them, losing nothing else",
 "Hydrating an instance adds each absent field that has a default, with that default, and changes nothing else; dehydrating removes each field equal to its default and changes nothing else, in nested structs and lists too. Each undoes the other, both results stay valid under the same schema, and the original instance is unchanged.",
 ["inputs"], "every combination of present and absent fields and every value relative to the default",
 "Tests of hydration compare some fixed documents; both functions worked on the wrong value before the fix recorded here.",
 ["hydrate.go", "instance.go"],
 [("doHydrate", "hydrate.go"), ("doDehydrate", "hydrate.go"), ("Instance.Hydrate/Dehydrate", "instance.go")],
 "defaults and data 0..9; a flat and a nested defaulted field, an optional and a required one; lists of up to two structs with a default; defaults of every kind of value; conditional fields; fields and defaults computed from other fields.",
 note="Outside the claim: dehydrating within pattern constraints, struct disjunctions and lists of fixed positions, and defaults that are structs. Known finding: a default that depends on another field is not restored.")

prop("C13", "A schema is assignable to a Go type exactly when its data always fits",
 "A schema is reported assignable to a Go struct exactly when the documented field-by-field rules hold, integer ranges included, and a typed schema can be bound exactly then. Every valid instance of an assignable schema decodes into the Go type with the same values.",
 ["inputs", "programs"], "every integer range, every data value in it, and every pair of field form and Go field type in the bound",
 "Tests check some forty fixed pairs of schema and type; the edges of integer ranges and decoding of every valid value are not covered.",
 ["assignable.go", "surface.go", "schema.go", "instance.go"],
 [("AssignableTo", "assignable.go"), ("assignable", "assignable.go"), ("BindType", "surface.go"), ("TypedInstance.Value", "instance.go")],
 "ranges and data 0..1000 (thorough 0..70000) against uint8, int8, uint16, int64, nested, optional-pointer and slice fields; 26 schema field forms against 23 Go field types, to a depth of two; 5 kinds of argument.")

prop("C14", "The append-only check reports every change to a published schema",
 "Comparing an old and a new version of a lineage reports no problem exactly when every schema of the old lineage is in the new one under the same version and unchanged; new schemas may only follow.",
 ["inputs", "histories"], "every pair of lineages in the bound",
 "Tests hold about ten fixed pairs of lineages.",
 ["surface.go", "internal/cuetil/equal.go"],
 [("IsAppendOnly", "surface.go"), ("cuetil.Equal", "internal/cuetil/equal.go")],
 "old and new lineages of 1 to 3 schemas in four forms with constants 0..99 (thorough 0..9999); every pair of 12 schema forms as first, middle or last schema; every division of up to four schemas into majors; joinSchemas.",
 note="Known findings: changes of the elements of an open list, and of a schema's openness, are not noticed.")

prop("C15", "A version mux accepts any version's data and returns it at the target one",
 "A version multiplexer accepts encoded data exactly when it is valid against some schema of the lineage. Data valid against the target schema passes through unchanged; other data is translated to the target from the newest version it is valid against. All four kinds of mux (untyped, typed, value, byte) and both codecs (JSON, YAML) agree. Data that fits no version, or does not decode, is an error and never a crash.",
 ["inputs", "configurations"], "every data value, every set of versions accepting it, every target version, and every short byte string",
 "Tests feed some fixed documents to a few lineages.",
 ["vmux/mux.go", "vmux/untyped.go", "vmux/typed.go", "vmux/value.go", "vmux/byte.go", "lineage.go"],
 [("NewUntypedMux", "vmux/untyped.go"), ("baseLineage.ValidateAny", "lineage.go"), ("Codec", "vmux/mux.go")],
 "9 (thorough 13) lineage shapes with Go lenses and 3 (thorough 11) with CUE lenses, symbolic upper limit per schema and data 100..999, every target, 4 muxes, 2 codecs; all printable byte strings up to 2 (thorough 3) bytes.",
 quick=240)

prop("C16", "Typed schemas decode valid data exactly, over the schema's defaults",
 "A typed schema accepts exactly the data its schema accepts. A decoded value holds the data's fields, the schema's defaults where the data has none, and Go zero values otherwise; a new value holds just the defaults. Values are independent: writing to one shows in no other. An instance can be given a typed schema exactly when it is an instance of that very schema, and instances that did not come from validation are unusable.",
 ["inputs", "configurations"], "every combination of defaults, present fields and values in the bound, and every pair of instance and typed schema",
 "Tests decode a handful of fixed instances.",
 ["schema.go", "instance.go", "lineage.go"],
 [("BindType", "schema.go"), ("TypedInstance.Value", "instance.go"), ("BindInstanceType", "instance.go"), ("Instance.check", "instance.go")],
 "one type with defaulted integer, nested, list and string fields, a required and an optional one, as struct and as pointer; lists of 0 to 3 (thorough 5); structs with defaults in lists, default lists and optional structs; integers 100..299; instance/typed-schema pairs over 9 (thorough 15) lineage shapes.")

prop("C17", "Every operation gives the runtime's lock back, whatever its outcome",
 "However an operation on a runtime ends (success, error or panic, also of a Go lens), the runtime stays usable: binding, validating, translating and checking assignability still complete with correct results. No operation waits for the runtime's lock while holding it, not even for reading, and none holds it while calling a Go lens; so concurrent users of one runtime cannot deadlock.",
 ["inputs", "fault_sequences", "schedules"], "every operation with every outcome, every data value, and a writer waiting for the lock at any moment",
 "Tests run operations that succeed, one at a time.",
 ["runtime.go", "lineage.go", "schema.go", "assignable.go", "instance.go"],
 [("Runtime.rl/ru/l/u", "runtime.go"), ("cueArgs.make/call", "runtime.go"), ("BindLineage", "lineage.go"), ("schemaDef.Validate", "schema.go")],
 "23 kinds of operation with up to 11 variants each, data 100..999 deciding the outcome, on a lineage of two majors with CUE lenses and one with Go lenses that succeed, fail, panic, return the wrong version or bind a lineage.",
 note="Schedules are reduced to one fact per thread: with a single lock, no deadlock is possible if no operation requests it while holding it and each releases it. Freedom from data races is not claimed: CUE does not promise it.",
 quick=240)

prop("C18", "Validation errors name every faulty field and tell schema from data",
 "Data that fails validation yields an invalid-data error that names each faulty field, and no other, by lineage name, version and full path, with what the schema wanted and what the data held, not swapped, and source positions of each. Missing fields are reported when nothing conflicts. No failure has an empty message.",
 ["inputs", "configurations"], "every pair of faults in the bound, every value, and every version and path",
 "Tests compare the messages of some thirty fixed failures; several kinds of failure had an empty or swapped message before the fixes recorded here.",
 ["validate.go", "schema.go"],
 [("mungeValidateErr", "validate.go"), ("splitTokens/trimThemaPath", "validate.go"), ("coords.String", "validate.go")],
 "up to two faults among seven fields (absent, wrong kind, out of bounds, excess; nested and in lists), limits and data 100..999; coordinates: 7 (thorough 15) lineage shapes, 10 paths up to depth 4, some with thema's own field names.",
 assume=["data comes from files not named .cue, as thema's error splitting assumes"])

prop("C19", "Translation reports every applicable lacuna and every lens that fails",
 "Translating through CUE lenses returns one lacuna for each whose condition holds on its lens's input, for all lenses on the path, in order, with its message, type and field values, and none otherwise. If a lens on the path gives an incomplete or invalid result for the instance, translation fails with an invalid-lens error and no result; otherwise it succeeds.",
 ["inputs", "configurations"], "every (from, to) pair, every condition outcome, every faulty lens and kind of fault, and every data value",
 "Tests translate without lacunas and with lenses that deliver; lacunas made translation fail before the fix recorded here.",
 ["instance.go", "lacuna.go", "lacuna.cue", "translate.cue"],
 [("Instance.Translate", "instance.go"), ("multiTranslationLacunas", "instance.go"), ("#Translate.out.lacunas", "translate.cue"), ("markLensErr", "instance.go")],
 "5 (thorough 10) lineage shapes with three lacunas per lens; faults: 3 (thorough 6) shapes, any one lens, 5 kinds; limits and data 100..399.",
 note="An excess field that a later lens on the path drops again is not counted as a fault.",
 quick=240)

prop("C20", "Translating in steps or with stops gives the same result as in one go",
 "Moving an instance to its schema's successor or predecessor gives what translating to that version gives, and leaves the original unchanged. Translating through any version on the way gives what translating directly gives, and repeating a translation gives the same result. This holds for CUE and Go lenses.",
 ["inputs", "configurations", "histories"], "every walk of single steps, and every (from, via, to) triple in one direction",
 "Tests translate between fixed pairs of versions.",
 ["instance.go", "translate.cue", "schema.go"],
 [("Instance.AsSuccessor/AsPredecessor", "instance.go"), ("Instance.Translate", "instance.go"), ("Instance.translateGo", "instance.go")],
 "CUE lenses: 3 shapes with walks of 2 steps and triples (thorough 9 shapes and 3 steps, 11 shapes for triples); Go lenses: 9 shapes with 3 steps, 12 for triples (thorough 15 and 4); data and amounts 100..199. Steps beyond the first or last schema are not covered.",
 quick=240)

prop("C21", "Exactly the well-formed lineages bind, whichever way they are written",
 "A CUE value binds as a lineage exactly when it has a concrete string name and a non-empty list of conflict-free schemas, and nothing that a lineage may not have. It makes no difference whether it is plain, nested, already unified with thema's lineage definition once or twice, or split into parts. A bound lineage has the declared name and schemas, and its own value binds again to the same. What does not bind is refused with the error class that fits (absent, not a lineage, invalid), never a crash.",
 ["inputs", "configurations"], "every form, every kind of malformed part, and every constant in it",
 "Tests bind a set of fixed lineages, and a few malformed ones.",
 ["lineage.go", "bind.go", "lineage.cue", "internal/cuetil/split.go"],
 [("BindLineage", "lineage.go"), ("maybeLineage.checkExists/checkLineageShape/checkNativeValidity", "bind.go"), ("AppendSplit", "internal/cuetil/split.go")],
 "14 forms of writing one lineage, in up to three parts; 5 kinds of name, 15 of schemas, 8 of other parts, in 3 (thorough 8) forms; constants 0..9 in versions, 100..299 in schemas.",
 note="For values already unified with the definition, a missing part may be reported as invalid instead of not a lineage.")

prop("C22", "OpenAPI and JSON Schema documents accept exactly what the schema accepts",
 "The OpenAPI document generated for a schema, and the JSON Schema document, accept data made of the schema's fields exactly when the schema does: same bounds, types, alternatives, nulls, required and optional fields, definitions and joinSchema fields. The header and the components have the right names and version; configuring a root name, a subpath or a group selects exactly that part, and an unknown subpath is an error.",
 ["inputs", "configurations"], "every kind of field in every place, every constant, and every data value in the bound",
 "Tests compare the documents of some twenty fixed lineages with golden files.",
 ["encoding/openapi/oapi.go", "encoding/jsonschema/jschema.go"],
 [("openapi.GenerateSchema", "encoding/openapi/oapi.go"), ("jsonschema.GenerateSchema", "encoding/jsonschema/jschema.go")],
 "26 kinds of field in 7 places, 18 data values each; constants and data 100..299; 8 configurations; 7 lineage shapes.",
 note="Undeclared fields are outside the claim (the documents do not forbid them), as are fields with a value of their own being absent. Known finding: the joinSchema's demands on fields the schema declares too are lost.")

prop("C23", "Rewriting a legacy lineage keeps its schemas, lenses and lacunas",
 "A lineage in the old sequence form, rewritten, prints as a file that binds and has the same schemas at the same versions, accepting what they accepted. Its lenses between major versions, both directions, map values and report lacunas as the old ones did, however they spell references to the old and new data. A new lineage made of a CUE value has the given name and package, and that value as its only schema, 0.0. What is no legacy lineage is refused, never mangled.",
 ["inputs", "configurations"], "every division into sequences, every spelling of references, every constant in schemas and lenses, every pair of versions and every data value in the bound",
 "Tests compare a handful of fixed rewritten files with golden files; references such as from.a.b were left behind before the fix recorded here.",
 ["encoding/cue/rewrite.go", "encoding/cue/encode.go", "internal/astutil/get.go"],
 [("RewriteLegacyLineage", "encoding/cue/rewrite.go"), ("NewLineage", "encoding/cue/encode.go"), ("FmtNode/Format/ToExpr", "internal/astutil/get.go")],
 "6 (thorough 10) divisions into sequences, 4 (thorough 12) combinations of spelling and place of the lineage; data and constants 100..999; 6 kinds of schema for new lineages.",
 note="Lenses between minor versions did not exist in the old form and are left as bottom for the author; the check fills them in with identities.")

prop("C24", "Examples are exactly those declared, by name, and instances of their schema",
 "Schema.Examples returns, for every schema, exactly the examples declared for it, under their names (quoted ones included), each an instance of that schema with the declared data, valid, and fit to be hydrated and translated like other instances. A lineage with an example that conflicts with its schema does not bind.",
 ["inputs", "configurations"], "every schema, every kind of name, every constant of the examples and schemas in the bound",
 "Tests look at one fixed lineage with examples; names that need quotes were returned with the quotes before the fix recorded here.",
 ["schema.go", "lineage.cue", "bind.go"],
 [("schemaDef.Examples", "schema.go"), ("#SchemaDef.examples", "lineage.cue")],
 "8 (thorough 13) lineage shapes, up to three examples with 6 kinds of name at any schema; 7 kinds of conflict; data and limits 100..999.",
 note="Known finding: an example that lacks a required field is accepted.")

prop("C25", "The functions of thema's CUE package agree with the Go API",
 "#SearchAndValidate, #LatestVersion, #Translate, #ValidFor and the version comparisons of thema's CUE package, evaluated by CUE, give for every lineage, version and datum what ValidateAny, Latest, Translate, Validate and SyntacticVersion.Less give: the same version, data, lacunas and refusals.",
 ["inputs", "configurations"], "every lineage shape, schema limits, pair of versions and data value in the bound",
 "No test evaluates these functions against the Go API; the linked instance of a search had no data before the fix recorded here.",
 ["traverse.cue", "translate.cue", "lineage.cue"],
 [("#SearchAndValidate", "traverse.cue"), ("#Translate", "translate.cue"), ("#LatestVersion", "traverse.cue"), ("SyntacticVersion.Less", "surface.go")],
 "6 to 10 lineage shapes; limits and data 100..999; version numbers 0..9.")

prop("C26", "What a lineage does never depends on what was done before",
 "Validating, translating, hydrating, dehydrating, binding types and instances, checking assignability and append-onlyness, generating documents, muxing, listing examples and binding again never change the lineage, schemas, instances or runtime: every operation gives the same result and message after any such history as on a fresh lineage.",
 ["histories", "inputs"], "every operation before every operation (thorough: pairs of operations), and every constant and data value in the bound",
 "Tests run each operation on a fresh lineage, once.",
 ["lineage.go", "schema.go", "instance.go", "runtime.go", "assignable.go", "encoding/openapi/oapi.go"],
 [("BindLineage", "lineage.go"), ("schemaDef.Validate", "schema.go"), ("Instance.Translate", "instance.go"), ("openapi.GenerateSchema", "encoding/openapi/oapi.go"), ("Instance.Hydrate", "hydrate.go")],
 "16 kinds of operation before 16 (thorough: one of 5 more before those), on a lineage of two majors; constants and data of three digits.",
 quick=300)

prop("C27", "Loading a file tree gives the lineage as written, or an error that fits",
 "load.InstanceWithThema gives, for a module in any fs.FS, the package in the given directory with all its files, the imports of thema, of the module itself and of cue.mod/pkg resolved, and nothing of other packages and directories. AsModFS supplies the module name only where there is none. A tree that is no module, or shadows thema, is refused as such. ToOverlay maps every file under its prefix, unchanged, and touches nothing else.",
 ["inputs", "configurations"], "every directory, way of splitting the package, way of naming the module, and every constant in the files",
 "Tests load fixed trees, nearly all with one file in one directory.",
 ["load/load.go", "internal/util/util.go"],
 [("InstanceWithThema", "load/load.go"), ("AsModFS", "load/load.go"), ("ToOverlay", "internal/util/util.go")],
 "3 (thorough 4) module names with the root, ., a directory and a nested one, 7 ways of distributing the files; 7 faults; overlays of up to four files under 5 prefixes; limits and data 100..999.",
 assume=["no file on the real disk shadows the overlaid tree"])

prop("C28", "Generated Go types have exactly the schema's fields, with fitting types",
 "The Go file generated for a schema parses, and has for every field at every depth one exported Go field with the field's JSON name, of the type that fits (references, enumerations, lists, maps, nested structs), a pointer and omitempty as optionality and nullability demand, no pointers if so configured. Enumerations have a constant of its own for every value. Package and type names are as configured, or follow the lineage's name. Generated bindings load, look up and bind what the configuration says. A configuration can be used again.",
 ["inputs", "configurations"], "every kind of field in every place, every field name and enumeration value in the bound, every configuration",
 "Tests compare the files for some twenty fixed lineages with golden files; an enumeration value could lose its constant, and a configuration was changed by its use, before the fixes recorded here.",
 ["encoding/gocode/gen.go", "encoding/gocode/decorators.go", "encoding/gocode/postprocessing.go", "encoding/gocode/binding.tmpl", "internal/deepmap/oapi-codegen/pkg/codegen"],
 [("GenerateTypesOpenAPI", "encoding/gocode/gen.go"), ("GenerateLineageBinding", "encoding/gocode/gen.go"), ("PostprocessGoFile", "encoding/gocode/postprocessing.go"), ("SanitizeEnumNames", "internal/deepmap/oapi-codegen/pkg/codegen/utils.go")],
 "39 kinds of field in 2 (thorough 6) places, required and optional, with and without pointers; field names of a letter and up to 1 (thorough 2) printable bytes; three enumeration values of two bytes each; 5 configurations of types, 192 (thorough 384) of bindings with any version of up to three digits.",
 note="Names with a comma, quote, backquote or backslash are outside the claim. Known findings: names that start with certain signs, and names that differ in signs only.",
 quick=700)

prop("C29", "Generated TypeScript types have exactly the schema's fields and defaults",
 "The TypeScript file generated for a schema has an interface of the configured name, or the lineage's in title case, with every field of that schema, its type, and ? exactly if it is optional; the declared interfaces and types; and a constant with the schema's defaults if there are any. A group has no root type. A configuration can be used again.",
 ["inputs", "configurations"], "every kind of field, every field name, constant and default in the bound, every configuration",
 "Tests compare the files for fixed lineages with golden files, all with the same configuration; the root name of one lineage was carried over to the next before the fix recorded here.",
 ["encoding/typescript/gen.go"],
 [("GenerateTypes", "encoding/typescript/gen.go")],
 "18 kinds of field, required and optional, of two lineages with three schemas, 5 configurations; names of two letters; defaults 100..999. RootAsType, which the generator behind it refuses for every struct, is outside the claim.")

prop("C30", "thema data gives what the library gives, however lineage and data come",
 "thema data validate, validate-any, translate, hydrate and dehydrate exit 0 exactly if the library's operation succeeds and print exactly its result (the version, the translated data with its lacunas, the hydrated or dehydrated data); else they exit 1, say why on stderr and print nothing on stdout. That holds for a lineage in a file, a directory, at a path or in a module, for data in a file or on stdin, as JSON or YAML, recognised or declared. -v picks the schema; without it hydrate, dehydrate and validate-any search all of them. -q prints nothing. No file is ever written.",
 ["inputs", "configurations"], "every way of giving lineage, data, version and format, and every bound, default and datum in the range",
 "The repository has no test of the command; -q did nothing, only the latest schema was tried without -v, and -e could not be used with stdin before the fixes recorded here.",
 ["cmd/thema/data.go", "cmd/thema/load.go", "cmd/thema/main.go"],
 [("dataCommand.validateDataInput", "cmd/thema/data.go"), ("dataCommand.runTranslate", "cmd/thema/data.go"), ("dataCommand.runHydrate", "cmd/thema/data.go"), ("dataCommand.runValidateAny", "cmd/thema/data.go"), ("lineageLoadArgs.dynLoad", "cmd/thema/load.go")],
 "lineages of three schemas, in 1 to 3 places; JSON and YAML, file and stdin; each version and none; 4 texts, 5 extensions and 4 formats; 10 faults with each command; bounds, defaults and data 100..999.",
 assume=["the command's sources run with stand-ins for package os and CUE's loader that keep files in memory"],
 quick=400, thorough=800)

prop("C31", "thema lineage generates and rewrites what the library does",
 "thema lineage gen openapi and jsonschema print the library's document for the schema asked for, in the format asked for or the documented default, byte for byte; gotypes and gobindings write the library's code, with a header, next to the lineage and nowhere else, or print it with --stdout, as the flags say. init makes a lineage of the given name and package whose schema accepts exactly what the empty, JSON Schema or OpenAPI input accepts. fix rewrites the file in place, keeping what the schemas accept. What cannot be done is reported and exits 1.",
 ["inputs", "configurations"], "every combination of flags and every constant in the range",
 "The repository has no test of the command; a % in a schema was mangled, --stdout was ignored and bad input crashed before the fixes recorded here.",
 ["cmd/thema/lineage_subgen.go", "cmd/thema/lineage_init.go", "cmd/thema/lineage_fix.go", "cmd/thema/load.go"],
 [("genCommand.runOpenAPI", "cmd/thema/lineage_subgen.go"), ("genCommand.runGoTypes", "cmd/thema/lineage_subgen.go"), ("genCommand.runGoBindings", "cmd/thema/lineage_subgen.go"), ("initCommand.runOpenAPI", "cmd/thema/lineage_init.go"), ("initCommand.runJSONSchema", "cmd/thema/lineage_init.go"), ("fixCommand.do", "cmd/thema/lineage_fix.go")],
 "lineages of three schemas in 2 (thorough 3) places; each version, format and default; 9 sets of binding flags with and without go.mod and cue.mod; 3 kinds of init with 4 inputs and 6 sets of names; limits and data 100..999, a field name of two letters.",
 assume=["the command's sources run with stand-ins for package os and CUE's loader that keep files in memory", "CUE's table of file extensions is a stub"],
 quick=400)

prop("C90", "Concurrent users of one lineage cause no data races",
 "Any number of goroutines may bind, validate, translate and generate with one runtime and its lineages at the same time, with the results each would get alone.",
 ["schedules"], "every interleaving of every set of operations",
 "Tests run one goroutine; the race detector sees only the schedules that happen.",
 ["runtime.go", "lineage.go", "schema.go"],
 [("Runtime.rl/ru/l/u", "runtime.go")], "",
 na="The code that would race is CUE's evaluator, which memoises in shared values without promising concurrent use; thema only guards calls with one lock, whose use C17 decides. The engine's interpreter has no memory model and schedules goroutines deterministically, so interleavings at the level of memory accesses are out of reach.")

prop("C91", "Every operation ends in reasonable time",
 "Binding, validating, translating and generating end, and their cost is in proportion to the lineage and the data.",
 ["inputs"], "every lineage and datum",
 "Tests use small lineages.",
 ["lineage.go", "translate.cue"],
 [("BindLineage", "lineage.go"), ("#Translate", "translate.cue")], "",
 na="A statement about cost without bounds. Within the bounds of the other checks every explored path ends (a path that does not end is reported as incomplete), but nothing follows for larger inputs: CUE evaluation is exponential in the worst case.")
