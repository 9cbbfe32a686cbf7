#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids stay stable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "String constraints accept exactly the strings their keywords allow",
  "A string constraint accepts a value if and only if it is a Go string (a named string type or a pointer to a string included) whose number of characters lies within the configured minimum and maximum length, which matches the configured pattern and which is one of the configured enumeration values; unset keywords restrict nothing. Every value that is not a string is rejected.",
  ["inputs", "configurations"], "every combination of string keywords and every Go value",
  "the tests try one maxLength/minLength pair on two ASCII strings; no boundary, no multi-byte text, no pattern/enum/length combination, no non-string value",
  ["string.go", "enum.go"], [("keyword checks in sequence", "string.go Validate"), ("enumeration lookup", "enum.go Validate")],
  ["error/nil result of validating a value"])

p("C02", "Named string formats accept exactly the strings of their grammar",
  "A string constraint with the format date-time (also spelled datetime), email, hostname, ipv4, ipv6 or uri accepts a string if and only if it is an RFC 3339 timestamp as parsed by Go's time package, an RFC 5322 address as parsed by Go's net/mail, a DNS name (labels of 1 to 63 letters, digits, '-' or '_', no label starting or ending with '-', at least one letter or '_', at most 255 bytes, an optional trailing dot), an IPv4 dotted quad without leading zeros, an IPv6 literal in any of its textual forms without a zone, or a URI reference as parsed by Go's net/url, respectively. Any other format name restricts nothing, and the format check is combined with all other string keywords.",
  ["inputs"], "every string over the alphabets of each format, up to the stated length, for every format name",
  "no test validates any formatted string; the schema tests only mention 'uri' without exercising it",
  ["string.go"], [("format dispatch", "string.go Validate"), ("hostname scanner", "string.go isDomainName")],
  ["error/nil result of validating a string"])

p("C03", "Number and integer constraints accept exactly the numbers allowed",
  "A number constraint accepts a value if and only if it is a Go floating-point value (or pointer to one) that satisfies the minimum and maximum (exclusive when so configured), is an exact multiple of the configured divisor (a zero divisor restricts nothing) and equals one of the configured enumeration values. An integer constraint does the same for any Go integer kind and for integral floating-point values, and keeps doing so whichever of its configuration calls are chained; everything else is rejected (finite numbers; values of Go integer kinds of magnitudes up to 2^53).",
  ["inputs", "configurations"], "every combination of numeric keywords and every numeric or non-numeric Go value of magnitude up to 2^53",
  "the tests try maximum 15 and minimum 5 on the values 0 and 10 only: no boundary, exclusive, multipleOf, enum, integer kind or chaining case",
  ["number.go", "enum.go"], [("bound checks", "number.go NumberConstraint.Validate"), ("integer conversion", "number.go IntegerConstraint.Validate")],
  ["error/nil result of validating a value"])

p("C04", "Boolean, null, enum, empty constraints and the validator wrapper are exact",
  "The boolean constraint accepts exactly boolean values, the null constraint exactly nil (an untyped nil or a nil pointer, map, slice, function, channel), the empty constraint everything, and an enumeration exactly the values equal to one of its members (deeply equal for lists and maps). A complete validator, named or unnamed, succeeds if and only if its root constraint does, and a failure is always reported as a non-nil error with a non-empty message.",
  ["inputs", "configurations"], "every Go value of the value alphabet against every such constraint",
  "no test validates a boolean, null or bare enumeration value at all",
  ["bool.go", "basic.go", "enum.go", "jsval.go"], [("kind switch", "bool.go / basic.go Validate"), ("equality loop", "enum.go Validate"), ("error wrapping", "jsval.go Validate")],
  ["error/nil result of validating a value"])

p("C05", "Array constraints accept exactly the slices their keywords allow",
  "An array constraint accepts a value if and only if it is a Go slice whose length lies within the configured bounds, whose elements are pairwise different JSON values when uniqueness is demanded, and whose elements satisfy the item constraint; with positional constraints instead, the element at each position satisfies the constraint of that position and every later element satisfies the additional-items constraint, none being allowed when that constraint is nil. An item constraint, when given, takes precedence over positional and additional ones, and arrays shorter than the positional list are acceptable.",
  ["inputs", "configurations"], "every combination of array keywords and every slice up to the bound over the element alphabet",
  "no test validates a tuple, an additional item, an item bound or a duplicate; one test only greps generated source text",
  ["array.go"], [("length, uniqueness, item, positional and additional checks", "array.go Validate")],
  ["error/nil result of validating a slice"])

p("C06", "Object constraints accept exactly the objects their keywords allow",
  "An object constraint accepts a value if and only if it is a string-keyed map or a struct (or pointer to one) with a number of properties within the configured bounds, in which every required property is present, every declared property that is present satisfies its constraint, every other property satisfies the constraints of all patterns its name matches, and every property neither declared nor matched satisfies the additional-properties constraint, none being allowed when that constraint is nil. Declared properties take precedence over patterns and additional properties, and a property whose value is null counts as present.",
  ["inputs", "configurations"], "every combination of object keywords over a small property alphabet and every map over that alphabet",
  "the tests sample a dozen maps against three schemas; required-but-undeclared properties, overlapping patterns and property counts are never exercised",
  ["object.go"], [("remaining/seen property bookkeeping", "object.go Validate"), ("required set", "object.go Required, IsPropRequired")],
  ["error/nil result of validating a map"],
  state=[("remaining properties", "input properties not yet claimed by a declaration or pattern", "object.go Validate"), ("seen properties", "input properties that were claimed", "object.go Validate")])

p("C07", "Object dependencies hold whenever the triggering property is present",
  "If a property with property dependencies is present in a validated object, validation succeeds only if all its dependencies are present too; if a property with a schema dependency is present, validation succeeds only if the whole object also satisfies that schema. For a property that has both, the property dependencies count. Absent properties trigger nothing, and presence counts alike for declared, pattern-matched and additional properties.",
  ["inputs", "configurations"], "every dependency graph over a small property alphabet, every way those properties are declared, every subset of properties present",
  "two tests exercise one dependency each between declared properties; dependencies on or from undeclared properties and dependency chains are not reached",
  ["object.go", "builder/object.go"], [("dependency pass over present properties", "object.go Validate"), ("dependency registries", "object.go PropDependency, SchemaDependency")],
  ["error/nil result of validating a map"])

p("C08", "Combinators decide exactly as their logical definition",
  "For every combination of child constraints and every value: 'any' succeeds if and only if at least one child succeeds, 'all' if and only if every child does, 'one of' if and only if exactly one does, and 'not' if and only if its child fails, at any nesting depth. Reducing a combinator never changes its verdict.",
  ["inputs", "configurations"], "every combinator tree up to the depth and arity bound over leaf constraints with all verdict patterns",
  "no test validates through any combinator except indirectly through a single-type schema",
  ["combinations.go", "basic.go"], [("verdict counting", "combinations.go Validate"), ("negation", "basic.go NotConstraint.Validate"), ("single-child reduction", "combinations.go reduceCombined")],
  ["error/nil result of validating a value"])

p("C09", "Defaults fill exactly the absent optional properties",
  "When validation of an object (map or pointer to struct) succeeds, every declared property that was absent and whose constraint has a default now holds that default (converted to the field's numeric type for structs), and nothing else in the input has changed: properties that were present are never overwritten, whatever their value. A required property that is absent makes validation fail even if it has a default, and a default that cannot be stored makes validation fail with an error.",
  ["inputs", "configurations"], "every combination of declared/required/defaulted properties, every subset present, every target (map, struct field kinds, Maybe types)",
  "one test sets one string default on one Maybe field",
  ["object.go", "maybe.go", "reference.go"], [("default application", "object.go Validate, setProp"), ("numeric coercion", "object.go coerceValue"), ("default lookup through references", "reference.go HasDefault, DefaultValue")],
  ["content of the validated map or struct after the call"])

p("C10", "A struct validates exactly like the map of its JSON properties",
  "Validating a struct (or a pointer to it) gives the same verdict as validating the map from JSON property names to field values: names come from json tags (options ignored, '-' and unexported fields skipped, Go field name when untagged), untagged embedded structs and pointers to structs contribute their fields, and Maybe fields appear with their value if and only if they are set. This holds for declared, pattern, additional, required, counted and dependent properties alike, and a struct that supplies its own property names and values is judged by those.",
  ["inputs", "configurations"], "every struct type of a bounded field/tag/embedding grammar, every assignment of set/unset and value per field, every object constraint of the alphabet",
  "two tests validate one struct type with one Maybe field and declared properties only",
  ["object.go", "structinfo.go", "maybe.go"], [("property extraction from struct types", "structinfo.go extract"), ("present-property list per instance", "structinfo.go PropNames"), ("property lookup", "object.go getProp")],
  ["verdict for a struct compared with the verdict for the equivalent map"],
  state=[("struct registry", "cached property table per struct type", "structinfo.go StructInfoRegistry")])

p("C11", "Maybe values follow set, reset and JSON decoding exactly",
  "After any sequence of operations on a Maybe value it is valid if and only if the last successful set or JSON decoding came after the last reset, and it then yields the value last stored: integer and unsigned kinds widen, JSON numbers (float64) convert, times may be given as RFC 3339 text. An operation that fails reports an error and leaves validity and value unchanged, and encoding a valid value and decoding it again reproduces it (times to the whole second).",
  ["histories"], "every sequence of set/reset/decode/encode operations up to the depth bound over an alphabet of well-typed and ill-typed arguments, for every Maybe type",
  "the tests set a MaybeInt twice and encode one MaybeTime; no sequence, no failing set, no decode of a MaybeTime into itself",
  ["maybe.go", "internal/cmd/genmaybe/genmaybe.go"], [("validity flag", "maybe.go ValidFlag"), ("typed setters", "maybe.go Set"), ("JSON hooks", "maybe.go MarshalJSON, UnmarshalJSON")],
  ["Valid, Value, error results, JSON text"],
  state=[("valid flag", "whether a value has been supplied", "maybe.go ValidFlag")])

p("C12", "References behave as the constraint registered under their name",
  "A reference constraint gives the same verdict, default and has-default answer as the constraint registered under its name, through any chain of references and in recursive structures; as long as nothing is registered it fails with an error and reports no default, and it works as soon as the name is registered; once it has found a constraint it stays with that one, also when the name is registered anew. A constraint map returns for each name the last constraint registered, an error for unknown names, and its length is the number of distinct names.",
  ["histories", "inputs"], "every sequence of register/look-up/validate/default operations up to the depth bound over a small set of names and constraints",
  "one test builds a schema with a reference but never validates through it",
  ["reference.go", "jsval.go"], [("lazy resolution", "reference.go Resolved"), ("name table", "reference.go ConstraintMap")],
  ["verdicts, defaults and errors of references; Len and GetReference of the map"],
  state=[("resolved constraint", "cached target of a reference", "reference.go ReferenceConstraint")])

p("C13", "Verdicts are deterministic and validation leaves no trace",
  "The verdict for a constraint and a value is always the same: it does not depend on map iteration order, on which values were validated before by this or another validator, or on how often validation ran. Apart from filling defaults, validation modifies neither the value nor the validator.",
  ["schedules", "histories"], "every map iteration order the runtime can produce during validation and every sequence of validations up to the depth bound, over the object and combinator alphabets",
  "iteration order is chosen randomly by the runtime, so a run samples one order per loop; no test repeats a validation or compares sequences",
  ["object.go", "array.go", "combinations.go", "reference.go", "structinfo.go"], [("map-driven loops over declarations, patterns, properties", "object.go Validate"), ("caches", "reference.go Resolved, structinfo.go Register")],
  ["verdict per iteration order / per history; deep comparison of the input"],
  hook="Go map iteration start is decided by the explorer through a build overlay of the Go runtime, no change to the repository")

p("C14", "Validation always returns a verdict and never panics",
  "For every constraint that can be built through the public API and every Go value - nil, nil pointers, pointers to pointers or interfaces, unexpected kinds, maps with any key type, unaddressable structs, Maybe implementations with pointer methods - validating returns either success or an error; it never panics, deadlocks or runs forever (constraint graphs whose reference cycles consume no input, missing constraints and values that contain themselves are excluded).",
  ["inputs", "configurations"], "every pair of constraint and Go value from a wide alphabet of kinds, including defaults that do not fit the target, and every failing prefix followed by another validation",
  "tests only pass values of the expected kind",
  ["object.go", "array.go", "string.go", "number.go", "basic.go", "enum.go", "structinfo.go"], [("kind guards before reflection", "Validate methods"), ("lock release on every path", "object.go, reference.go")],
  ["return or panic/hang of Validate"])

p("C15", "A validator built from a schema accepts exactly what the schema allows",
  "For every JSON Schema (draft 4) that states its types, the built validator accepts a decoded JSON document if and only if the document satisfies every keyword of the schema at every level - string, numeric, array, object, dependency, enum and all combinations of allOf, anyOf, oneOf and not side by side - with the library's stated precedence of declared properties over patterns. References to any JSON pointer anywhere in the schema, its root included, also recursive ones, behave as the schema they point to within the document supplied as context, and default values of scalar property schemas are carried over.",
  ["inputs", "programs"], "every schema of a bounded grammar (each keyword, all pairs and selected triples of keywords per type, nesting, references) against every document of the value alphabet",
  "the tests build six schemas; most keywords, their combinations, references and numeric or boolean enums are never validated through a built validator",
  ["builder/builder.go", "builder/object.go", "builder/array.go", "builder/number.go", "builder/string.go", "builder/bool.go", "builder/reference.go"], [("schema to constraint translation", "builder/builder.go buildFromSchema"), ("reference compilation", "builder/builder.go compileReferences")],
  ["verdict of the built validator on decoded JSON"])

p("C16", "Schemas without a type are constrained to the types their keywords imply",
  "When a schema states no type, the built validator accepts values of exactly those types that the keywords present belong to (object, array, string, number or integer keywords, the types of enum members), each subject to its keywords; numeric keywords imply integer when the first of multipleOf, minimum, maximum that is present is integral, and number otherwise. A schema with no type-specific keyword accepts every value that its remaining keywords accept.",
  ["inputs", "programs"], "every untyped schema made of up to three keywords (and enum lists) against every document of the value alphabet",
  "one test compares the guessed type list for nine schemas; it never validates a value",
  ["builder/builder.go"], [("type guessing", "builder/builder.go guessSchemaType and schemaLooksLike*")],
  ["verdict of the built validator on decoded JSON"])

p("C17", "Building is total, repeatable and leaves the schema unchanged",
  "Building a validator from any readable schema returns either a working validator or an error - a reference that cannot be resolved, leads only back to itself, or does not lead to a schema, and a type that JSON does not have, are errors - and never panics. The schema and the context document are not modified, and building again, with the same or another builder and whatever the map iteration order, gives a validator with the same verdicts.",
  ["inputs", "programs", "schedules"], "every schema of the bounded grammar, including dangling, mistyped, chained and recursive references, under every map iteration order of the build",
  "tests only build schemas that resolve, once",
  ["builder/builder.go", "builder/reference.go"], [("reference worklist", "builder/builder.go BuildWithCtx, compileReferences")],
  ["error/validator result of building, serialised schema before and after"],
  state=[("pending reference names", "references still to compile", "builder/builder.go buildctx")])

p("C18", "Generated Go code rebuilds an equivalent validator",
  "For every set of validators made through the public API or from schemas, if code generation succeeds, the emitted Go code compiles and the validators it defines give, for every value, the same verdict and apply the same defaults (numerically equal) as the originals, with references shared between them resolving to the same constraints (a name that only some of the validators register becomes known to all).",
  ["programs", "inputs"], "every constraint tree of a bounded grammar covering each keyword with boundary values (fractions, large and small numbers, quotes, percent signs, backslashes), and every schema of the bounded grammar, against every document of the value alphabet",
  "one generated file is compiled and one value validated with it; another test greps two method names in the output",
  ["generator.go"], [("constraint to source translation", "generator.go generate*Code"), ("shared reference table", "generator.go Process")],
  ["verdicts of the compiled generated code compared with the source validator"])

p("C19", "Code generation is deterministic and reports every failure",
  "Generating code for the same validators twice, or for validators built again in the same way, under any map iteration order and, if they all have names, passed in any order, gives byte-identical output. Generation succeeds only if the complete code was delivered to the writer, on failure nothing but an error results, and a validator made only of the library's own constraints, with enumeration values and defaults of the constraint's own JSON type, is never refused except where two validators give conflicting meanings to one reference name or bear the same name.",
  ["programs", "schedules", "fault_sequences"], "every validator of the bounded grammar under every map iteration order, and every failing or short write position of the output",
  "map iteration order and writer failures are never varied by the tests",
  ["generator.go"], [("sorted emission", "generator.go Process, generateObjectCode"), ("formatted output write", "generator.go Process")],
  ["bytes written and error returned"],
  hook="Go map iteration start is decided by the explorer through a build overlay of the Go runtime, no change to the repository")

p("C20", "Concurrent validation is safe and gives sequential verdicts",
  "Any number of goroutines may validate different values with the same validator at the same time - including first uses that resolve references or meet a struct type for the first time - without data races, deadlocks or panics, and each call returns the verdict, and applies the defaults, it would alone.",
  ["schedules"], "every interleaving, up to the preemption bound, of two and three goroutines validating through shared constraints of every kind",
  "no test starts a goroutine",
  ["reference.go", "object.go", "structinfo.go", "string.go", "array.go"], [("reference lock", "reference.go Resolved"), ("object locks", "object.go"), ("registry lock", "structinfo.go")],
  ["verdicts, race detector, scheduler deadlock detection"],
  state=[("registry map", "shared across all validators of the process", "structinfo.go structInfoRegistry"), ("resolved constraint", "written by the first user", "reference.go")],
  hook="synchronisation calls are redirected to a controlled scheduler by a build overlay generated from the working tree, no change to the repository")

p("C21", "Configuration calls may run concurrently with validation and lookups",
  "Registering references, counting and looking them up, and declaring properties, pattern properties, required properties and dependencies of an object constraint may overlap with each other and with validations without data races or deadlocks. No registration is lost, and each lookup or validation answers according to the state before or after each overlapping call.",
  ["schedules"], "every interleaving, up to the preemption bound, of two and three goroutines issuing registration, lookup and validation calls on shared names",
  "no test starts a goroutine",
  ["reference.go", "object.go"], [("constraint map lock", "reference.go SetReference, GetReference, Len"), ("property, requirement and dependency locks", "object.go")],
  ["call results checked against all sequential orders, race detector, deadlock detection"],
  hook="synchronisation calls are redirected to a controlled scheduler by a build overlay generated from the working tree, no change to the repository")

p("C22", "Concurrent builds, code generations and requests do not interfere",
  "Goroutines that build validators (also from one shared schema and builder), generate code (also with one shared generator) or send requests to one playground server at the same time, also while the same validators are used for validation, do so without data races, deadlocks or panics, and each obtains exactly the result it would obtain alone.",
  ["schedules"], "every interleaving, up to the preemption bound, of two and three goroutines building, generating and serving",
  "no test starts a goroutine and the server has no tests",
  ["builder/builder.go", "generator.go", "server/server.go"], [("per-call build and generation context", "builder/builder.go buildctx, generator.go genctx"), ("template lock", "server/server.go getTemplates")],
  ["results compared with sequential ones, race detector, deadlock detection"],
  hook="synchronisation calls are redirected to a controlled scheduler by a build overlay generated from the working tree, no change to the repository")

p("C23", "The playground server answers every request correctly and independently",
  "A request to the index path yields the HTML page, one to the generation path yields a JSON object whose success flag is true together with exactly the code the library generates for the posted schema if reading, building and generating succeed, and false with a non-empty message otherwise; any other path yields 404. The answer depends only on the request, not on earlier requests, whatever they were.",
  ["histories", "inputs"], "every sequence of requests up to the depth bound over an alphabet of paths and well-formed, malformed, unbuildable and ungeneratable bodies",
  "the server package has no tests",
  ["server/server.go"], [("request dispatch", "server/server.go ServeHTTP"), ("generation pipeline", "server/server.go httpGenerateValidator"), ("cached templates", "server/server.go getTemplates")],
  ["status, headers and body of each response"],
  state=[("templates", "parsed once, reused by later requests", "server/server.go Server")])

p("C24", "The command line tool emits the validators asked for or fails",
  "Run on a schema document, the tool exits 0 if and only if it has written, to standard output or to the requested file, exactly the code the library generates for the whole document or for the sub-schemas selected by the pointers in the given order, named with the given prefix; references resolve against the whole document. In every other case - unreadable or malformed input, bad pointer, unbuildable schema, failing output - it exits non-zero.",
  ["inputs", "configurations", "fault_sequences"], "every combination of document, pointer list, prefix and output destination of the alphabet, including failing destinations",
  "the command has no tests",
  ["cmd/jsval/jsval.go", "builder/builder.go", "generator.go"], [("option handling and pipeline", "cmd/jsval/jsval.go _cli"), ("pointer resolution", "cmd/jsval/jsval.go _cli")],
  ["exit status, standard output, output file"])

p("C25", "The repository's source generators produce code equivalent to what is shipped",
  "The Maybe types that the generator command produces obey the same laws as the shipped ones, operation for operation, and the validator that the schema generator command produces from the bundled meta-schema gives, for every candidate schema document, the same verdict as the meta-schema itself; from any other schema file, of whatever size, it either writes a complete Go file whose validator decides as the schema does or fails. Running them does not depend on map iteration order.",
  ["histories", "inputs", "programs"], "every operation sequence up to the depth bound on the regenerated types; every candidate schema of the bounded grammar against the regenerated validator",
  "the tests compile the checked-in outputs and never run the generators",
  ["internal/cmd/genmaybe/genmaybe.go", "internal/cmd/gentest/gentest.go", "maybe.go", "schema.json"], [("source templates", "internal/cmd/genmaybe/genmaybe.go genMaybe"), ("schema to validator source", "internal/cmd/gentest/gentest.go")],
  ["behaviour of the regenerated sources compiled in place of the shipped ones"])

p("C26", "Configuration calls compose: last value wins, lists accumulate, order is free",
  "The behaviour of a constraint is a function of its configuration only: for a keyword set several times the last setting counts, required names, declared properties, patterns, dependencies and combinator children accumulate (redeclaring a property replaces it), the order of calls on different keywords does not matter, every configuration call returns the constraint it was made on so that chaining continues on the same constraint, calls made after a constraint was placed in another one take effect there, and validations made in between change nothing. The same holds for where a reference points and for a validator's root and name, which its failure messages carry.",
  ["histories"], "every sequence of configuration and validation calls up to the depth bound, for every constraint kind",
  "the tests configure each constraint once, in one order",
  ["string.go", "number.go", "array.go", "object.go", "combinations.go", "enum.go", "bool.go", "reference.go", "jsval.go"], [("fluent setters", "all constraint files")],
  ["verdict vector over the value alphabet after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
