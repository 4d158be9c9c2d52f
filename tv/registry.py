"""Property -> (module, function, level, technique, level note)."""
MC = "model_checking"
REGISTRY = {
    "C01": ("checks_wire", "c01", MC, "TLA+ wire-format specification (TLC), spec-generated cases replayed into and random traces validated from generated Rust",
            "Exhaustive over a catalogue of type shapes and boundary values in the specification, each case replayed; random schemas and values beyond it, judged by TLC."),
    "C02": ("checks_wire", "c02", MC, "TLA+ wire-format specification (TLC), spec-generated cases replayed into and random traces validated from generated TypeScript",
            "As C01 for TypeScript (bundled by esbuild, run by node)."),
    "C03": ("checks_wire", "c03", MC, "TLA+ round-trip invariant (TLC) and trace validation across Rust and TypeScript",
            "Round trip is an invariant checked exhaustively over the catalogue; all four language pairs and the Rust conversion are validated on catalogue and random values."),
    "C04": ("checks_wire", "c04", MC, "TLA+ reader specification with named deviations (TLC) judging recorded decodings of generated Rust",
            "Mutated, truncated, reordered, extended and overclaiming messages; TLC computes the prescribed result of each. Listed deviations are modelled exactly, so anything else is reported."),
    "C05": ("checks_wire", "c05", MC, "TLA+ reader specification with named deviations (TLC) judging recorded decodings of generated TypeScript",
            "As C04 for TypeScript, with messages also embedded in larger buffers."),
    "C06": ("checks_evolve", "c06", MC, "TLA+ specification of safe changes and rollouts: TLC checks all small version pairs (replayed) and all small rollouts, and validates recorded rollouts of random histories",
            "All versions of small structs and choices with all small values, four language pairs; all careful rollouts of four histories; random histories of random schemas with messages in flight, in both languages."),
    "C07": ("checks_evolve", "c07", MC, "TLA+ specification of what a reader sees of a fallback chain: TLC enumerates (replayed), and validates recorded rollouts between arbitrary versions",
            "All pairs of versions of small choices and all chains up to a length, four language pairs; random versions and long chains beyond."),
    "C08": ("checks_evolve", "c08", MC, "TLA+ permutation law: TLC checks it on the wire specification and judges recorded encodings and decodings of renamed and reordered schemas",
            "Random schemas, each in three variants with names, files and order of their own; written values and mutated messages in both languages."),
    "C23": ("checks_stream", "c23", MC, "TLA+ stream specification: TLC enumerates deliveries for replay, and judges recorded deliveries",
            "All partitions, interruptions and failure points of short messages are enumerated by TLC and replayed; longer messages and mutants under random plans are validated by TLC."),
    "C24": ("checks_stream", "c24", MC, "TLA+ writer machine: TLC enumerates acceptances for replay, and validates the recorded write calls",
            "Each recorded call of write is a step of the specified machine (offers exactly the next bytes), for enumerated and random writers."),
    "C09": ("checks_api", "c09", MC, "TLA+ specification of what clients may do with fields: TLC enumerates programs (compiled), and judges compilers' verdicts on random programs",
            "Every rule, a range of types and every way of supplying, omitting, reading and matching a field, given to rustc and to tsc; random types and programs beyond."),
    "C10": ("checks_paths", "c10", MC, "TLA+ specification of public paths and of what each name becomes, judging recorded projects; clients written from it are given to rustc",
            "Every reserved word, global and identifier of generated code as file, directory, import, type, field and case; all namespaces over two names up to a depth, each referring to each; random layouts. The compilers decide; TLC decides the paths and what the listed findings explain."),
    "C11": ("checks_paths", "c11", MC, "TLA+ specification of public paths and of what each name becomes, judging recorded projects; clients written from it are given to tsc in strict mode",
            "As C10, with the strict TypeScript compiler and exact types of every field."),
    "C12": ("checks_tool", "c12", MC, "TLA+ validation rules: TLC enumerates declarations (replayed) and judges recorded verdicts on random ones",
            "Every declaration with up to three fields, indices 0..3 and deleted sets, and every pair of names of a pool, as fields, types, imports; random larger ones judged by TLC."),
    "C13": ("checks_tool", "c13", MC, "TLA+ reference resolution: TLC enumerates import/reference patterns (replayed), judges random ones; denoted types seen in bytes judged by the wire specification",
            "Patterns over three files are enumerated; larger directory layouts are random; generated code is run for schemas whose files, imports and types are named alike."),
    "C14": ("checks_tool", "c14", MC, "TLA+ cyclicity rule: TLC checks it against orderability and enumerates all graphs of three types over files and forms (replayed); random graphs judged by TLC",
            "Exhaustive for three types; random graphs up to 30 types."),
    "C15": ("checks_tool", "c15", MC, "TLA+ specification of loading (file system, links, path resolution) judging recorded runs and listings",
            "Random file systems with links, unreadable, missing and outside files, and random import graphs."),
    "C16": ("checks_tool", "c16", MC, "TLA+ lexer and grammar machine: TLC enumerates token sequences (replayed) and judges random texts, formatted texts and generated code pairs",
            "All viable token prefixes up to the bound with each next token; random and mutated texts; pairs of texts for what is read."),
    "C17": ("checks_files", "c17", MC, "TLA+ specification of permitted outcomes judging recorded runs on arbitrary bytes, file systems and arguments",
            "Random exploration; listed stack exhaustions are recognised by their cause."),
    "C18": ("checks_tool", "c18", MC, "TLA+ specification of the bag of errors with places and lines judging recorded error output",
            "Random schema sets with several mistakes each; TLC computes which errors must be reported where."),
    "C19": ("checks_files", "c19", MC, "TLA+ grammar applied to the text before and after formatting; recorded runs judged by TLC",
            "Random schemas with comments everywhere; the code generated before and after is compared as well."),
    "C20": ("checks_files", "c20", MC, "TLA+ specification of format and format --check histories judging recorded runs and pairs of layouts",
            "Random schemas; histories check, format, check, format; pairs of texts with equal or different content."),
    "C21": ("checks_files", "c21", MC, "TLA+ specification of the file system after generate and format judging recorded snapshots",
            "Random worlds, argument orders and pre-existing outputs; half of them must fail in loading, parsing or validation."),
    "C22": ("checks_files", "c22", MC, "TLA+ specification of what code depends on (Meaning), judging pairs of recorded runs",
            "Repeated, relocated, respelled, re-laid and extended runs must agree; runs on schemas of different meaning must differ."),
    "C26": ("checks_files", "c26", MC, "TLA+ printer: TLC checks that it inverts the grammar, enumerates schemas with their texts (replayed) and judges recorded formatted files",
            "Every shape of small schemas, given in random layouts, must be formatted to the text TLC computed; random schemas with comments, odd names and imports are judged line by line."),
    "C25": ("checks_cost", "c25", MC, "TLA+ cost bounds over the reader specification: TLC checks all short messages and judges recorded costs of generated readers",
            "All byte strings up to a length over an alphabet in the specification; recorded allocations and input calls of mutated messages against the specified linear bound; families of messages that grow, timed."),
}
