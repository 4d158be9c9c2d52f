#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
GR, GT = "src/generate_rust.rs", "src/generate_typescript.rs"

p("C01", "Generated Rust encoders emit exactly the documented bytes",
  "For every schema the tool accepts and every value of every type in it, the generated Rust serializer writes exactly the byte string the README's binary format prescribes (field headers, size modes, varints, omitted trailing content, array layouts, fallback chains). The reported size equals the number of bytes written.",
  ["programs", "inputs"], "all schemas (types nested to any depth, all field rules and indices up to 2^62-1), all values",
  "The golden test fixes the generated text for one schema set and the integration tests round-trip a handful of values; other shapes (high indices, deep arrays, boundary sizes, many fields) are never encoded.",
  [GR], [("size and serialize code generation", GR + ": write_size_calculation_invocation, write_serialization_invocation, write_schema"), ("runtime helpers for headers and varints", GR + ": generate()")],
  ["bytes written by generated serialize", "number returned by generated size"])
p("C02", "Generated TypeScript encoders emit the same documented bytes",
  "For every accepted schema and every value, the generated TypeScript serializer returns exactly the byte string the README's binary format prescribes, hence the same bytes the generated Rust code writes for that value. The reported size equals the length of those bytes.",
  ["programs", "inputs"], "all schemas, all values",
  "No repository test executes the generated TypeScript against the Rust output; the golden test only pins its text for one schema set.",
  [GT], [("size and serialize code generation", GT + ": write_size_calculation_invocation, write_serialization_invocation, write_schema"), ("runtime helpers", GT + ": generate()")],
  ["bytes returned by generated serialize", "number returned by generated size"])
p("C03", "Every value survives serialization, within and across languages",
  "Serializing a value with either generated language and deserializing the bytes with either generated language under the same schema yields the original value (each optional field present or absent as written, each choice with its case and fallback). In Rust the conversion from the outgoing to the incoming type gives that same result without going through bytes.",
  ["programs", "inputs"], "all schemas, all values, all four writer/reader language pairs",
  "Integration tests round-trip a few hand-written values of one schema set in one language at a time, and never cross languages.",
  [GR, GT], [("deserialize code generation", GR + ": write_deserialization_invocation"), ("deserialize code generation", GT + ": write_deserialization_invocation"), ("Out to In conversion", GR + ": write_schema (From impls)")],
  ["result of generated deserialize", "result of the Out-to-In conversion"])
p("C04", "Rust decoders give the prescribed result on every byte string",
  "For every type and every byte string, the generated Rust deserializer either returns the value the binary format assigns to it (fields in any order, unknown fields skipped, the first of repeated fields kept, reads confined to each field's declared size) or returns an error, exactly when the format calls for one: a required field is missing, a payload is cut short, a string is not UTF-8, or no case of a choice is recognised. It never returns a wrong value.",
  ["programs", "inputs"], "all schemas, all byte strings (valid, foreign, truncated, corrupted)",
  "Tests decode only bytes produced by the matching encoder plus a few fixed strings; the space of foreign and damaged messages is unbounded.",
  [GR], [("deserialize code generation", GR + ": write_deserialization_invocation, write_schema"), ("field header and varint readers, skip", GR + ": generate()")],
  ["result of generated deserialize"])
p("C05", "TypeScript decoders give the prescribed result and never throw",
  "For every type and every byte string, the generated TypeScript deserializer returns either the value the binary format assigns to it (fields in any order, unknown fields skipped, the last of repeated fields kept) or an Error object, exactly when a required field is missing, a payload is cut short or no case of a choice is recognised. It never throws and never returns a wrong value.",
  ["programs", "inputs"], "all schemas, all byte strings",
  "No repository test feeds the TypeScript decoder foreign, truncated or corrupted messages beyond a few fixed ones, and none for schemas other than the fixed set.",
  [GT], [("deserialize code generation", GT + ": write_deserialization_invocation, write_schema"), ("runtime helpers", GT + ": generate()")],
  ["result of generated deserialize"])
p("C06", "Safe schema changes keep old and new programs interoperable",
  "If one schema becomes another by the changes the README calls safe (adding or removing optional or asymmetric fields, moving a field between required, asymmetric and optional one step at a time, promoting the sole required field's struct to a choice and back, renaming), programs generated from either version decode every message written by the other, and the shared fields keep their values. A rollout that never lets non-adjacent versions coexist therefore never produces a message that cannot be decoded.",
  ["programs", "inputs", "histories", "schedules"], "all adjacent version pairs, all deployment orders of writers and readers with messages in flight, all values",
  "The integration tests contain one fixed before/after pair per kind of change; longer histories, mixed deployments and other field types are not exercised.",
  [GR, GT, "README.md"], [("asymmetric fields are required in outgoing and optional in incoming types", GR + ", " + GT + ": write_schema"), ("unknown fields skipped", GR + ", " + GT)],
  ["result of deserializing another version's message"],
  [("deployed[service]", "schema version each service runs", "abstract"), ("inFlight", "messages sent and not yet received", "abstract")])
p("C07", "A choice is decoded to the first case the reader understands",
  "When a writer sends an optional or asymmetric case of a choice together with its fallback chain, a reader whose schema lacks the leading cases decodes the first case it knows, whichever its position in the chain. It fails only when it knows none of them, and a required case, when known, is always taken without looking further.",
  ["programs", "inputs"], "all fallback chains of any length, all subsets of cases known to the reader, both languages",
  "Tests use chains of length at most two for a fixed choice.",
  [GR, GT], [("choice serialization with fallback", GR + ", " + GT + ": write_schema (choice)"), ("choice deserialization loop", GR + ", " + GT)],
  ["result of generated deserialize for choices"])
p("C08", "Names and declaration order never affect the wire format",
  "Renaming types, fields, cases, imports or schema files, or reordering declarations, never changes the bytes written for corresponding values nor the result of decoding a byte string. Reordering the fields of a type at most permutes the field records of the messages it writes and never changes the result of decoding; only indices, rules and types matter.",
  ["programs", "inputs"], "all accepted schemas and all renamings and reorderings of them",
  "The golden schemas have one fixed naming and declare fields in index order; tests cannot compare against renamed variants.",
  [GR, GT], [("headers carry only the index", GR + ", " + GT + ": write_schema")],
  ["bytes written by renamed or reordered schemas' encoders"])
p("C09", "Field rules are enforced by the generated types",
  "In the generated code of both languages an outgoing struct must supply every required and asymmetric field and may omit optional ones (in TypeScript: give undefined), while an incoming struct guarantees only required fields; an outgoing optional or asymmetric case must carry a fallback, an incoming optional case exposes one, and an incoming asymmetric case never does. Programs violating this are rejected by the Rust or TypeScript compiler, and programs respecting it are accepted.",
  ["programs", "inputs"], "all field and case shapes (rule x type), all attempts to omit, supply or match them",
  "Tests only compile programs that are correct for one schema set; a field that became omittable would still compile.",
  [GR, GT], [("Out/In/Atlas type definitions", GR + ", " + GT + ": write_schema, write_type")],
  ["acceptance of client programs by rustc and tsc"])
p("C10", "Accepted schemas always generate Rust code that compiles",
  "Whenever the tool accepts a schema it generates a Rust module that compiles without errors, whatever the identifiers (including Rust keywords), directory layout, imports, recursion of namespaces, field rules and types. The public items are found under the module path derived from the schema's path, in snake case, with type names in Pascal case.",
  ["programs", "configurations"], "all accepted schema sets: names, paths, imports, shapes",
  "The repository compiles only its golden schemas' output.",
  [GR, "src/identifier.rs", "src/schema.rs"], [("keyword escaping and casing", GR + ": write_identifier"), ("relative module paths", "src/schema.rs: relativize_namespace")],
  ["exit status of rustc on generated code"])
p("C11", "Accepted schemas always generate TypeScript that type-checks",
  "Whenever the tool accepts a schema it generates a TypeScript module that passes the compiler in strict mode, whatever the identifiers (including reserved words), directory layout, imports, field rules and types. The exported namespaces follow the schema's path in Pascal case.",
  ["programs", "configurations"], "all accepted schema sets: names, paths, imports, shapes",
  "The repository type-checks only its golden schemas' output (and not in the offline test suite).",
  [GT, "src/identifier.rs", "src/schema.rs"], [("keyword escaping and casing", GT + ": write_identifier"), ("relative namespaces", "src/schema.rs: relativize_namespace")],
  ["exit status of tsc on generated code"])
p("C12", "Name and index rules are enforced exactly",
  "A schema is rejected if two types, two fields of a type or two imports have the same name ignoring case style (foo_bar, fooBar, FooBar; likewise names that coincide once written in the case style of generated code, such as foo_1 and foo1), if two fields share an index, if a field uses an index marked deleted or listed twice as deleted, if an index exceeds the maximum, or if the used and deleted indices do not cover 0 up to some bound without gaps. Otherwise these rules never cause a rejection.",
  ["inputs", "programs"], "all schemas: names in any casing, any index assignment, any deleted list",
  "Validator unit tests hold a few hand-written schemas per rule.",
  ["src/validator.rs", "src/parser.rs", "src/identifier.rs"], [("uniqueness and gap checks", "src/validator.rs: validate"), ("name equality", "src/identifier.rs: PartialEq")],
  ["accept or reject verdict of typical generate"])
p("C13", "Type references resolve to exactly the named declaration",
  "A reference without an import name denotes the type of that name in the same file; one with an import name denotes the type of that name in the file that this file imports under that name or alias. A reference to anything else (unknown import, unknown type, a type only reachable through another file's imports) is rejected, and the generated code of both languages uses exactly the denoted type.",
  ["inputs", "programs", "configurations"], "all multi-file schema sets, aliases, same-named types in different files, directory nesting",
  "Tests contain a few imports; shadowing, aliases swapping names and deep relative namespaces are not sampled.",
  ["src/validator.rs", "src/schema_loader.rs", "src/schema.rs", GR, GT], [("import resolution", "src/schema_loader.rs: load_schemas"), ("reference check", "src/validator.rs"), ("relative namespaces", "src/schema.rs: relativize_namespace")],
  ["accept or reject verdict", "which type's encoding generated code uses"])
p("C14", "Self-referential types are rejected, and only those",
  "An otherwise valid schema set is rejected if and only if some type refers to itself, directly or through a chain of field types (element types of arrays included), within one file or across imports. Files importing each other in a cycle are accepted as long as no type does.",
  ["inputs", "programs"], "all type reference graphs over all files",
  "Unit tests have a handful of fixed graphs.",
  ["src/validator.rs"], [("cycle detection", "src/validator.rs: check_type_for_cycles")],
  ["accept or reject verdict", "reported cycle"])
p("C15", "Exactly the schemas reachable by imports are loaded",
  "The set of schema files loaded for a given entry file (that is no symbolic link) is exactly the set reachable through import statements, each path being interpreted relative to the importing file's directory, each file once, however imports overlap or form cycles; listing schemas prints that set. A missing or unreadable import, or an import that leaves the entry file's directory, is reported as an error, never silently dropped or replaced by another file.",
  ["inputs", "configurations"], "all import graphs over files and directories, all path spellings (./, ../, repeated, cyclic, through links)",
  "Loader behaviour is tested only through one fixed directory of schemas.",
  ["src/schema_loader.rs"], [("work list with visited set", "src/schema_loader.rs: load_schemas"), ("containment and namespaces", "src/schema_loader.rs: path_to_namespace, strip_prefix")],
  ["output of --list-schemas", "exit status"],
  [("schemas_to_load", "files found but not loaded yet", "src/schema_loader.rs"), ("visited", "files or namespaces already seen", "src/schema_loader.rs"), ("schemas", "files loaded", "src/schema_loader.rs")])
p("C16", "Exactly the documented schema grammar is accepted",
  "A schema file is accepted by the tokenizer and parser exactly when it conforms to the schema language (comments, imports with optional alias, structs and choices, optional and asymmetric rules, optional type for unit fields, arrays, qualified names, escaped identifiers, deleted lists), independent of whitespace and line structure. When accepted, every declaration, rule, name, type, index, deleted index is taken as written.",
  ["inputs"], "all token sequences and all layouts of them",
  "Tokenizer and parser unit tests hold a few dozen fixed inputs.",
  ["src/tokenizer.rs", "src/parser.rs", "src/token.rs", "src/schema.rs"], [("tokenizer", "src/tokenizer.rs: tokenize"), ("parser", "src/parser.rs: parse")],
  ["accept or reject verdict", "canonical rendering printed by typical format"])
p("C17", "No input makes the tool panic or hang",
  "For every content of the schema files (any bytes), every arrangement of files and every combination of arguments, each command terminates and exits either with status 0 or with status 1 and an error message; it never panics, aborts or loops.",
  ["inputs", "configurations"], "all file contents including malformed, truncated and non-UTF-8, all commands",
  "Tests run the parser on well-formed and slightly malformed samples only.",
  ["src/main.rs", "src/tokenizer.rs", "src/parser.rs", "src/schema_loader.rs", "src/error.rs", "src/format.rs"], [("error results propagated to the exit status", "src/main.rs: main"), ("token position checks", "src/parser.rs")],
  ["exit status and stderr of typical"])
p("C18", "Errors point at the offending file and lines",
  "Every syntax, import, name, index and reference error of a schema names the file that contains the problem and shows the source lines, with correct line numbers, of the construct at fault, marks exactly that construct within these lines, and (for names, indices and references) names what is at fault; an error about types that refer to themselves names the types of an actual cycle. All independent name, index and reference errors of a schema set are reported in one run, each once.",
  ["inputs"], "all schemas with one or several errors at any position, in any file, with any layout",
  "Unit tests check messages of single-line samples.",
  ["src/error.rs", "src/validator.rs", "src/parser.rs", "src/error_merger.rs"], [("source range listing", "src/error.rs: listing, SourceRange"), ("error accumulation", "src/validator.rs, src/error_merger.rs")],
  ["stderr of typical"])
p("C19", "Formatting never changes what a schema means",
  "For every valid schema, the formatted file is valid and denotes the same schema: the same imports, declarations, rules, names, types, indices, deleted indices and comment text in the same order, so the code generated from it is the same up to source order. Formatting touches only the schema files reachable from the given one.",
  ["inputs", "programs"], "all valid schemas, layouts and comments",
  "The formatter has unit tests for a few sample declarations only.",
  ["src/schema.rs", "src/format.rs", "src/main.rs"], [("pretty printer", "src/schema.rs: Display impls"), ("comment reflow", "src/schema.rs / src/format.rs")],
  ["file contents after typical format", "code generated before and after"])
p("C20", "Formatting is idempotent and --check agrees with it",
  "Formatting an already formatted schema changes nothing, two schemas that differ only in layout format to the same text, and format --check succeeds exactly when format would change no file. With --check no file is ever modified.",
  ["inputs"], "all valid schemas and layouts",
  "The command line is not covered by the tests; idempotence is not tested.",
  ["src/schema.rs", "src/format.rs", "src/main.rs"], [("pretty printer", "src/schema.rs: Display impls"), ("format command", "src/main.rs: format_schema")],
  ["file contents and exit status of typical format [--check]"])
p("C21", "Failed commands leave every output file untouched",
  "If any schema fails to load, parse or validate, the generate and format commands exit with status 1, print the error, and neither create nor modify any file. On success generate writes exactly the requested output files, creating missing parent directories, and format writes exactly the schemas whose formatting differs.",
  ["inputs", "configurations", "fault_sequences"], "all schema sets valid or not (error in any file at any stage), all argument combinations, any file-system fault when writing",
  "There are no tests of the commands' file effects.",
  ["src/main.rs"], [("load, validate, then write", "src/main.rs: generate_code, format_schema")],
  ["file system before and after, exit status"])
p("C22", "Generated code depends only on the schemas",
  "The generated Rust and TypeScript are determined by the contents and relative paths of the reachable schemas: repeating a run, changing the working directory or the way the path is spelled, requesting one or both languages, or adding unrelated files gives identical bytes. Layout of the source and comments other than documentation do not affect it either.",
  ["inputs", "configurations"], "all schema sets and invocations",
  "Golden tests run one invocation of one schema set.",
  ["src/main.rs", "src/schema_loader.rs", GR, GT], [("ordered maps keyed by namespace", "src/schema_loader.rs, " + GR + ", " + GT)],
  ["bytes of generated files"])
p("C23", "Rust decoding is independent of how the reader delivers bytes",
  "For every message, the generated Rust deserializer gives the same result whether the reader delivers the bytes at once or in arbitrary pieces with interruptions. If the reader fails with an error other than an interruption before the message has been read to its end (or found malformed), deserialization returns that error rather than a value.",
  ["inputs", "fault_sequences", "schedules"], "all messages, all partitions into reads, a failure at every read",
  "Tests deserialize from complete in-memory slices only.",
  [GR], [("read_exact / take based reading", GR + ": generate(), write_deserialization_invocation")],
  ["result of generated deserialize over an instrumented reader"])
p("C24", "Rust encoding survives partial writes and reports write failures",
  "For every value, the generated Rust serializer delivers the same bytes in the same order whether the writer accepts them whole or in arbitrary pieces with interruptions. If the writer fails at any point, serialization returns that error and what was accepted is a prefix of the encoding.",
  ["inputs", "fault_sequences", "schedules"], "all values, all partial-write schedules, a failure at every write",
  "Tests serialize into vectors only.",
  [GR], [("write_all and error propagation", GR + ": generate(), write_serialization_invocation")],
  ["bytes accepted by an instrumented writer, result of serialize"])
p("C25", "Decoders stay within time and memory proportional to the input",
  "On every byte string the generated decoders of both languages terminate after work proportional to its length, and allocate memory proportional to its length, whatever sizes the message claims for its parts. (An array of Unit, whose elements take no bytes, is excepted in TypeScript, as the README says.)",
  ["inputs", "programs"], "all byte strings, in particular those claiming sizes far beyond the data present",
  "Tests never present hostile sizes.",
  [GR, GT], [("skip and payload allocation", GR + ": generate() (skip), write_deserialization_invocation"), ("offset advance", GT)],
  ["reads past the end, allocation requests, elapsed steps of the decoders"])
p("C26", "Formatting produces exactly the one canonical layout",
  "Whatever the layout and letter case of a valid schema, format writes it in one way: fields and imports in snake_case and types in PascalCase, keywords used as names escaped; imports sorted by name, with 'as' only where the name is not that of the file; four spaces of indentation, one field per line, with Unit left out and numbers without leading zeros; the deleted indices last, in ascending order on one line; an empty line between the parts of a file, around fields with comments and before deleted indices; comments above what they describe, in paragraphs broken between words, where needed to fit 79 columns (long words may stick out). Nothing else is in the file, and it ends with a line feed.",
  ["inputs"], "all schemas, layouts, letter cases and comments",
  "The unit tests print a few sample declarations; most combinations of comments, imports, keywords and deleted indices do not occur in them.",
  ["src/schema.rs", "src/format.rs", "src/main.rs"], [("pretty printer", "src/schema.rs: Display impls"), ("comment reflow", "src/schema.rs: write_comment")],
  ["file contents after typical format"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
