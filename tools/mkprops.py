#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

prop("C01", "Executable documents are parsed exactly as the GraphQL grammar says",
 "Parsing an executable document succeeds exactly when its text is derivable from the GraphQL executable grammar (October 2021 plus variable-definition directives), with integers restricted to 32 bits and floats to finite doubles. "
 "On success the parsed document has exactly the operations, variables, selections, arguments, directives, types and values that were written, in order, with nothing added, lost or attached elsewhere; ignorable text (whitespace, commas, comments, BOM) never matters.",
 ["inputs"], "every source text: generated documents in every layout, token-level and byte-level mutations of them, and short token strings enumerated",
 "The parser tests snapshot a few dozen fixed documents; acceptance and faithfulness are claims about every text.",
 ["bluejay-parser/src/lexer/logos_lexer.rs", "bluejay-parser/src/ast/executable/executable_document.rs", "bluejay-parser/src/ast/executable/selection.rs", "bluejay-parser/src/ast/executable/field.rs", "bluejay-parser/src/ast/tokens.rs"],
 [("logos tokenizer", "bluejay-parser/src/lexer/logos_lexer.rs"), ("recursive descent over Tokens", "bluejay-parser/src/ast")],
 observe=["ExecutableDocument::parse and the bluejay-core accessor traits"])

prop("C02", "Schema documents are parsed exactly as the type-system grammar says",
 "Parsing a schema document succeeds exactly when its text is derivable from the GraphQL type-system definition grammar (definitions, no extensions). "
 "On success every definition is readable back with exactly the descriptions, directives, implemented interfaces, fields, arguments, types, default values, union members, enum values, directive locations, repeatability and root operation types that were written, in order, and the only additions are the specification's built-in scalars, directives, introspection types and meta-fields.",
 ["inputs"], "every source text: generated schema documents in every layout and token/byte mutations of them",
 "The tests parse a handful of fixed schemas; optional parts (leading pipes and ampersands, descriptions at every position, repeatable, empty sets) combine far beyond those samples.",
 ["bluejay-parser/src/ast/definition/definition_document.rs", "bluejay-parser/src/ast/definition/object_type_definition.rs", "bluejay-parser/src/ast/definition/union_type_definition.rs", "bluejay-parser/src/ast/definition/directive_definition.rs"],
 [("definition parser", "bluejay-parser/src/ast/definition"), ("built-in insertion", "bluejay-parser/src/ast/definition/definition_document.rs")])

prop("C03", "Literals decode to exactly the value they denote, or are rejected",
 "Every string literal (escapes, surrogate pairs, braced code points), block string (common indentation, blank-line trimming, line terminators, escaped triple quotes), integer and float literal that is accepted yields exactly the value the GraphQL specification assigns to it. "
 "Literals that denote no representable value (invalid escapes, lone surrogates, raw newlines, integers outside 32 bits, floats beyond double range, malformed numbers) are rejected, never silently altered.",
 ["inputs"], "every literal text, in values and in descriptions",
 "Tests decode about thirty literals; indentation, escape and terminator interactions are combinatorial.",
 ["bluejay-parser/src/lexer/logos_lexer.rs", "bluejay-parser/src/lexer/logos_lexer/string_lexer.rs", "bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs"],
 [("string sub-lexer", "bluejay-parser/src/lexer/logos_lexer/string_lexer.rs"), ("block string sub-lexer", "bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs"), ("parse_integer / parse_float", "bluejay-parser/src/lexer/logos_lexer.rs")])

prop("C04", "No input makes the library panic, abort or hang",
 "For every text of bounded nesting, parsing either yields a document or at least one error; and every document that parses can then be printed, turned into a schema, validated, analysed, compared or filtered without a panic, an abort or non-termination, however malformed its references are.",
 ["inputs"], "arbitrary bytes-as-text, mutated documents and semantically broken but parseable documents, pushed through the whole public pipeline",
 "Panics hide behind unwraps on cross-references that only unusual inputs violate; the tests use well-formed inputs.",
 ["bluejay-parser/src/ast", "bluejay-validator/src/executable", "bluejay-schema-comparator/src", "bluejay-visibility/src", "bluejay-printer/src"],
 [("error accumulation instead of unwraps", "bluejay-parser/src/ast/definition/definition_document.rs"), ("cycle guards", "bluejay-validator/src/executable")])

prop("C05", "Errors are reported, located and rendered at the offending text",
 "Whenever parsing, schema construction or validation fails, converting the failure for a user yields at least one GraphQL error, and each one's line and column are those of the offending token counted over the actual text (tokens after multi-byte characters, tabs and CRLF included). "
 "Every error of the failure is converted and rendered exactly once with its message, and the rendered form shows the file name, the position of the error's primary annotation and the source lines of every annotated position; the same tokens in another layout give the same errors at the same tokens.",
 ["inputs"], "every failing document of every layout: syntax errors at any token, reference errors, validation errors, multi-byte text around them",
 "Snapshots cover ASCII one-error documents with a fixed layout.",
 ["bluejay-parser/src/error.rs", "bluejay-parser/src/error/annotation.rs", "bluejay-parser/src/span.rs", "bluejay-parser/src/ast/parse_error.rs"],
 [("Error::into_graphql_errors / format_errors", "bluejay-parser/src/error.rs"), ("spans carried by every AST node", "bluejay-parser/src/span.rs")])

prop("C06", "Printing an executable document and parsing it back changes nothing",
 "For every executable document and every value, the printed text parses, and the parse is equal to the original in every operation, variable, selection, argument, directive and value. Printing is stable: printing the re-parsed document gives the same text.",
 ["inputs"], "every parseable executable document and every value, including unusual strings, floats, nested lists/objects and directives at all positions",
 "The printer tests compare a few fixed documents that avoid escapes, extreme floats and directive positions.",
 ["bluejay-printer/src/executable", "bluejay-printer/src/value.rs", "bluejay-printer/src/string.rs"],
 [("ExecutableDocumentPrinter", "bluejay-printer/src/executable/executable_document.rs"), ("ValuePrinter / StringValuePrinter", "bluejay-printer/src/value.rs")])

prop("C07", "Printing a schema and building it back changes nothing",
 "For every schema that can be built, its printed text parses and builds a schema equal to the original: same root operations, types, fields, arguments, defaults, descriptions, directives, interfaces, members, enum values and directive definitions. Built-ins are not printed, and printing again gives the same text.",
 ["inputs"], "every buildable schema, including unusual root names, descriptions of any content, and all default values",
 "The tests round-trip three fixed schemas with simple descriptions.",
 ["bluejay-printer/src/definition", "bluejay-printer/src/string.rs"],
 [("SchemaDefinitionPrinter", "bluejay-printer/src/definition/schema_definition.rs"), ("implicit schema detection", "bluejay-printer/src/definition/schema_definition.rs")])

prop("C08", "A schema is built exactly when its references resolve, and shows what is written",
 "Building a schema from a parsed document succeeds exactly when root operations are unambiguous and name objects, names are unique, every referenced type, interface, union member and directive exists with a kind permitted there. "
 "The built schema resolves every reference to the right definition, enumerates every defined and built-in type and directive once, and lists exactly the object types that implement each interface.",
 ["inputs"], "every parseable schema document: valid ones and ones with duplicated, missing or wrong-kind references at any position",
 "Tests try one instance of a few reference errors; every position and combination can be wrong.",
 ["bluejay-parser/src/ast/definition/definition_document.rs", "bluejay-parser/src/ast/definition/schema_definition.rs"],
 [("resolve_* passes in SchemaDefinition::try_from", "bluejay-parser/src/ast/definition/definition_document.rs"), ("interface implementors index", "bluejay-parser/src/ast/definition/definition_document.rs")])

prop("C09", "Document validation accepts exactly the documents the specification accepts",
 "For a schema and a parseable document, validation reports an error exactly when some section-5 validation rule of the GraphQL specification is violated (operations, fields, leaf selections, arguments, fragments, spreads, directives, locations, uniqueness), and the reported errors are of the kinds of the rules that are violated: a planted violation is reported as itself and a valid document is never rejected.",
 ["inputs"], "every (schema, document) pair: random valid pairs and pairs with one or several planted violations",
 "The validator tests have one or two documents per rule over fixed schemas; rules interact with nesting, fragments and abstract types.",
 ["bluejay-validator/src/executable/document/rules", "bluejay-validator/src/executable/document/orchestrator.rs"],
 [("rule set", "bluejay-validator/src/executable/document/rules.rs"), ("shared traversal", "bluejay-validator/src/executable/document/orchestrator.rs")])

prop("C10", "Overlapping fields are rejected exactly when they cannot be merged",
 "Two selections of the same response name in one scope, reached directly or through any chain of inline fragments and fragment spreads, are rejected exactly when the specification's field-merging rule rejects them: differing fields or arguments on possibly-overlapping parents, incompatible response shapes anywhere, and conflicts among their merged sub-selections.",
 ["inputs"], "every schema with interfaces and unions and every document with repeated response names across fragments",
 "The conflict may lie arbitrarily deep and be spread over several fragments; tests list a few shapes.",
 ["bluejay-validator/src/executable/document/rules/field_selection_merging.rs"],
 [("FieldSelectionMerging", "bluejay-validator/src/executable/document/rules/field_selection_merging.rs")])

prop("C11", "Variable rules hold across fragments for every operation",
 "An operation is accepted only if every variable it uses, directly or through any chain of fragments and at any depth inside argument values, is defined by it with a type usable at that position (nullability, list depth, default values), every variable it defines is used and of input type, and names are unique; and it is never rejected when all of that holds.",
 ["inputs"], "every document with variables in arguments, lists, input objects and directives, in several operations sharing fragments",
 "Position (nesting, list, default) and sharing vary independently; tests fix a few positions.",
 ["bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs", "bluejay-validator/src/executable/document/rules/all_variables_used.rs", "bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs"],
 [("variable usage collection per path root", "bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs")])

prop("C12", "Literal input values are accepted exactly when they coerce to the expected type",
 "A constant value (in a document, as a default, or supplied to the coercion API) is accepted for an input type exactly when the GraphQL coercion rules accept it: scalars, custom scalars, enums, non-null, lists with single-item promotion, input objects with required, unknown and repeated fields, and one-of input objects. Every rejection names the path of a part of the value that is really wrong.",
 ["inputs"], "every (schema, input type, value) triple",
 "Coercion recurses over both type and value; tests give single examples per scalar.",
 ["bluejay-validator/src/value/input_coercion.rs", "bluejay-validator/src/executable/document/rules/value_is_valid.rs"],
 [("CoerceInput", "bluejay-validator/src/value/input_coercion.rs")])

prop("C13", "Variable payloads are accepted exactly when they fit the operation",
 "For an operation and a JSON variables payload, the variable-values check reports a missing, an invalid or an unused variable exactly when the payload lacks a required variable, supplies a value that does not coerce to the declared type, or supplies a name the operation does not define; a payload that fits is never rejected.",
 ["inputs"], "every (schema, operation, JSON object) triple",
 "Payload values, declared types and defaults combine freely; tests list a dozen payloads.",
 ["bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs", "bluejay-validator/src/value/input_coercion.rs", "bluejay-core/src/value/serde_json.rs"],
 [("VariableValuesAreValid", "bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs")])

prop("C14", "Query depth equals the deepest field path that can execute",
 "The depth computed for an operation is the length of the longest chain of nested fields obtained by expanding its fragments, ignoring selections that skip/include exclude under the given variables, and is the same for any equivalent way of writing the operation with or without fragments.",
 ["inputs"], "every valid document, operation and variables payload, including cyclic or unused fragments",
 "Tests check three documents; a limit built on this number is bypassed by any shape that is undercounted.",
 ["bluejay-validator/src/executable/operation/analyzers/query_depth.rs", "bluejay-validator/src/executable/operation/orchestrator.rs"],
 [("QueryDepth", "bluejay-validator/src/executable/operation/analyzers/query_depth.rs")])

prop("C15", "Complexity cost equals the costliest result shape the operation can request",
 "The complexity computed for an operation is the maximum, over the concrete types each abstract selection can resolve to, of the summed cost of the merged response fields (each response name once), with skipped selections free and multipliers applied to connection children (a page size counts as written or as the variable's value, and as 0 when absent); it never wraps around or fails and repeating, reordering or moving selections into fragments does not change it.",
 ["inputs"], "every valid document, cost annotation, operation and variables payload",
 "Merging across fragments, aliases and type conditions is combinatorial; a rate limit depends on never undercounting.",
 ["bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs", "bluejay-validator/src/executable/operation/analyzers/complexity_cost"],
 [("ComplexityCost over a scoped selection arena", "bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs"), ("cost computers", "bluejay-validator/src/executable/operation/analyzers/complexity_cost/cost_computer.rs")])

prop("C16", "Oversized list inputs are always reported",
 "Every list longer than the configured maximum that an executing operation supplies to an argument, written literally, nested in other lists or objects, or supplied through a variable's payload or default, is reported with its real length, and nothing is reported when every list is within the maximum; lists inside an already reported list need no report of their own.",
 ["inputs"], "every valid document, operation, variables payload and maximum",
 "The list may be anywhere in a value or behind a variable; tests place it in three positions.",
 ["bluejay-validator/src/executable/operation/analyzers/input_size.rs"],
 [("InputSize", "bluejay-validator/src/executable/operation/analyzers/input_size.rs")])

prop("C17", "Every use of a deprecated schema element is reported",
 "Every use, by an executing operation, of a field, argument, input field or enum value that the schema marks deprecated is reported with its name (for an enum value: the argument or variable that carries it) and reason, whether it occurs in a literal, a variable payload or a variable default, directly or through fragments; nothing is reported for elements that are not deprecated or not used.",
 ["inputs"], "every schema with deprecations and every valid document, operation and variables payload",
 "Usage sites nest through fragments, lists and input objects; tests list one of each.",
 ["bluejay-validator/src/executable/operation/analyzers/deprecation.rs"],
 [("Deprecation analyzer", "bluejay-validator/src/executable/operation/analyzers/deprecation.rs")])

prop("C18", "Analyses are independent, repeatable and pick the requested operation",
 "Analysing by operation name picks exactly that operation, analysing without a name succeeds exactly when there is one operation, and every result depends only on the schema, document, operation and variables: it is the same alone, combined with any other analyses in any order, in a combined validate-and-analyse run, run again, or run on several threads sharing one schema.",
 ["inputs", "histories", "schedules"], "every document, operation name, tuple of analyzers, sequence and interleaving of runs over a shared schema and cache",
 "Shared caches and a shared traversal can leak state between analyses only for particular combinations; tests run each analyzer alone once.",
 ["bluejay-validator/src/executable/operation/orchestrator.rs", "bluejay-validator/src/executable/document/orchestrator.rs", "bluejay-validator/src/executable/cache.rs", "bluejay-validator/src/executable/operation/analyzers.rs"],
 [("tuple composition", "bluejay-validator/src/executable/operation/visitor.rs"), ("Cache", "bluejay-validator/src/executable/cache.rs")])

prop("C19", "Schema comparison reports exactly the differences between two schemas",
 "Comparing a schema with an equivalent one (same definitions in any order) reports nothing. For any two schemas, each added, removed or altered type, field, argument, input field, enum value, union member, interface, directive, directive location, default value, description and nullability is reported, in the right direction, with the path of the element that differs, and nothing else is reported.",
 ["inputs"], "every pair of schemas: random schemas and random sequences of edits to them",
 "A missed change is an unnoticed break; the tests compare one pair of schemas per change kind.",
 ["bluejay-schema-comparator/src/diff", "bluejay-schema-comparator/src/changes.rs"],
 [("SchemaDiff and nested diffs", "bluejay-schema-comparator/src/diff")])

prop("C20", "A comparison without breaking changes never breaks a client",
 "If comparing an old and a new schema reports no breaking change, then every operation valid against the old schema is valid against the new one and each response type it selects stays compatible; conversely edits that only extend the schema for clients are not reported as breaking.",
 ["inputs"], "every pair of schemas and every operation valid against the old one",
 "Soundness of a classification relates every schema pair with every client document; tests check labels of individual changes.",
 ["bluejay-schema-comparator/src/changes.rs", "bluejay-schema-comparator/src/result.rs"],
 [("Change::criticality", "bluejay-schema-comparator/src/changes.rs")])

prop("C21", "Hidden schema elements never leak through the filtered view",
 "Nothing reachable through a filtered schema, by enumeration, lookup by name, resolution of references, printing or validation, exposes an element the warden hides, a field, argument, member or interface whose type is hidden, or a type that is only reachable through hidden elements of its root operations; using a hidden element in a document is an error.",
 ["inputs", "histories"], "every schema, every warden and every order of access",
 "Hiding must hold for every path to an element; tests hide a few elements of one schema.",
 ["bluejay-visibility/src/schema_definition.rs", "bluejay-visibility/src/cache.rs", "bluejay-visibility/src"],
 [("visible wrappers", "bluejay-visibility/src"), ("reachability visitor", "bluejay-visibility/src/schema_definition.rs")])

prop("C22", "The filtered view keeps everything visible and is the same in any access order",
 "With a warden that hides nothing, the filtered schema is indistinguishable from the original restricted to reachable definitions. With any warden, each visible element is present with its own description, type, default, directives and order, lookups agree with enumerations, and the answers do not depend on the order or repetition of accesses.",
 ["inputs", "histories"], "every schema, every warden and every sequence of accesses",
 "The view is computed lazily into caches; only particular access orders and cyclic type graphs exercise partially filled caches.",
 ["bluejay-visibility/src/cache.rs", "bluejay-visibility/src/schema_definition.rs", "bluejay-visibility/src/type_definition.rs"],
 [("lazy caches", "bluejay-visibility/src/cache.rs")],
 state=[("Cache", "memoised visible wrappers per definition", "bluejay-visibility/src/cache.rs")])

prop("C23", "Schema definition rules are reported exactly when broken",
 "Validating a schema reports an error exactly when an enum repeats a value, an input object repeats a field, or input objects require each other in an unbreakable cycle of non-null fields; nullable or list links break such cycles, and every offending element is reported.",
 ["inputs"], "every buildable schema, including overlapping and long input-object cycles",
 "Cycle detection must hold for every graph of input objects; tests try three graphs.",
 ["bluejay-validator/src/definition/rules"],
 [("definition rules", "bluejay-validator/src/definition/rules")])

prop("C24", "Generated client types decode every response and encode every input faithfully",
 "For every schema and every valid operation of the supported subset, the code the typegen macro generates compiles, with each codec (serde owned and borrowed, miniserde), and decodes every response the operation allows into values that carry exactly its data: aliases, nulls, lists, enums with values unknown at build time, type-conditioned unions with members unknown at build time, fields left out by skip and include. "
 "A response in which a field is missing, null where it may not be, or of another shape is refused rather than decoded to something else. Input objects, enums and one-of inputs encode to exactly the corresponding JSON, with optional fields that were not given left out. "
 "Documents the macro cannot represent (invalid against the schema, or outside its documented subset) are rejected at compile time.",
 ["inputs", "programs"], "every supported schema, operation, codec, response and input value",
 "The generated code differs per schema and operation; the tests compile a handful of hand-written ones.",
 ["bluejay-typegen-macro/src/executable_definition", "bluejay-typegen-macro/src/input_object_type_definition.rs", "bluejay-typegen-macro/src/enum_type_definition.rs", "bluejay-typegen-macro/src/names.rs", "bluejay-typegen-macro/src/validation", "bluejay-typegen/src/lib.rs"],
 [("intermediate representation of an operation", "bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs"), ("type and impl builders", "bluejay-typegen-macro/src/executable_definition"), ("input builders", "bluejay-typegen-macro/src/input_object_type_definition.rs"), ("subset rules", "bluejay-typegen-macro/src/validation")])

prop("C25", "A custom rule or analyzer sees every node exactly once with its true type",
 "During validation and analysis a user-supplied visitor is told of every operation, variable definition, selection, argument and directive of the document exactly once per place it occurs, in document order, with the enclosing type, definition and skip/include status the schema and variables give it; selections of fields or types the schema does not define are passed over.",
 ["inputs"], "every schema and document",
 "User rules are only as sound as the traversal that feeds them; no test observes the event stream.",
 ["bluejay-validator/src/executable/document/orchestrator.rs", "bluejay-validator/src/executable/operation/orchestrator.rs", "bluejay-validator/src/executable/document/visitor.rs", "bluejay-validator/src/executable/operation/visitor.rs"],
 [("visitor callbacks", "bluejay-validator/src/executable/document/visitor.rs")])

prop("C26", "No undefined behaviour, data race or dependence on the order of use",
 "Any use of the public API (parsing, printing, schema construction, validation, analysis, comparison, visibility) performs no invalid memory access, aliasing violation, use of uninitialised or freed memory, or data race, in every order of lazy initialisation, on schemas of any size, and when everything that claims to be shareable is shared by several threads. "
 "The results do not depend on that order, on what was asked before, or on what other threads do meanwhile; references handed out earlier keep their meaning.",
 ["inputs", "schedules", "histories"], "every workload, access order and thread interleaving, explored under AddressSanitizer, ThreadSanitizer and the Miri interpreter",
 "Undefined behaviour, races and order dependence do not fail ordinary tests; they need instrumented execution and comparison across orders and threads.",
 ["bluejay-visibility/src/cache.rs", "bluejay-visibility/src/schema_definition.rs", "bluejay-visibility/src/object_type_definition.rs", "bluejay-validator/src/executable/cache.rs", "bluejay-parser/src/lexer/logos_lexer.rs", "bluejay-parser/src/ast/definition/schema_definition.rs"],
 [("lazily filled caches behind shared references", "bluejay-visibility/src/cache.rs"), ("once cells of a filtered view", "bluejay-visibility/src/schema_definition.rs"), ("per-document cache of the validator", "bluejay-validator/src/executable/cache.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
