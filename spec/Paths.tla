-------------------------------- MODULE Paths --------------------------------
(* Where the items of a schema are found in generated code: the module path    *)
(* follows the path of the schema, in the case style of the language; a name   *)
(* the language reserves is marked. Also which layouts the listed findings of  *)
(* C10 and C11 spoil.                                                         *)
(* A project is [files, decls]: files is a sequence of paths (tuples of         *)
(* components without the ending), a declaration is [file, name, kind, fields], *)
(* file being a number, fields a sequence of names.                           *)
EXTENDS Names, TLC

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Figures == <<"0","1","2","3","4","5","6","7","8","9">>
Ascii(c) == c \in LowerAscii \/ c \in UpperAscii \/ c \in DigitChars \/ c = Underscore
Letter(c) == CASE c \in LowerAscii -> Lower[c - 96] [] c \in UpperAscii -> Upper[c - 64] [] c \in DigitChars -> Figures[c - 47] [] c = Underscore -> "_"
\* A name of ASCII characters as a string; other names are not reserved anywhere.
Spelled(s) == IF \A i \in 1..Len(s) : Ascii(s[i]) THEN FoldLeft(LAMBDA acc, c : acc \o Letter(c), "", s) ELSE ""

\* Names Rust cannot have even as raw identifiers. (The others stand for themselves, as raw identifiers.)
NeverRust == {"self", "super", "crate", "Self"}
\* Words with a meaning in TypeScript, what generated code uses of the environment, and what every object has.
TsWords == {"abstract", "any", "as", "assert", "asserts", "async", "await", "bigint", "boolean", "break", "case", "catch", "class", "const",
    "constructor", "continue", "debugger", "declare", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally",
    "for", "from", "function", "get", "global", "if", "implements", "import", "in", "infer", "instanceof", "interface", "intrinsic", "is",
    "keyof", "let", "module", "namespace", "never", "new", "null", "number", "object", "of", "out", "override", "package", "private",
    "protected", "public", "readonly", "require", "return", "satisfies", "set", "static", "string", "super", "switch", "symbol", "this",
    "throw", "true", "try", "type", "typeof", "undefined", "unique", "unknown", "using", "var", "void", "while", "with", "yield",
    "arguments", "eval", "accessor"}
TsGlobals == {"Array", "ArrayBuffer", "BigInt", "DataView", "Error", "Number", "Object", "RangeError", "TextDecoder", "TextEncoder",
    "Uint8Array", "String", "Boolean", "Symbol", "Function", "Math", "JSON", "Map", "Set", "Promise", "Proxy", "Reflect", "Date", "RegExp"}
Members == {"toString", "toLocaleString", "valueOf", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "constructor"}
MayMark(s) == Spelled(s) \in TsWords \cup TsGlobals \cup Members

RustName(s) == IF Spelled(s) \in NeverRust THEN s \o <<Underscore>> ELSE s
TsNames(s) == IF MayMark(s) THEN {s, <<Underscore>> \o s} ELSE {s}

RustSpace(file) == [i \in 1..Len(file) |-> RustName(Snake(file[i]))]
RustType(name, suffix) == RustName(Pascal(name) \o suffix)
RustField(kind, name) == RustName(IF kind = "struct" THEN Snake(name) ELSE Pascal(name))

In == <<73, 110>>
Out == <<79, 117, 116>>

\* Whether what generated TypeScript was found to use is where the items are.
TsRight(proj, used) ==
    /\ \A f \in 1..Len(proj.files) : /\ Len(used.files[f]) = Len(proj.files[f])
                                     /\ \A i \in 1..Len(proj.files[f]) : used.files[f][i] \in TsNames(Pascal(proj.files[f][i]))
    /\ \A k \in 1..Len(proj.decls) :
         /\ used.decls[k].name \in TsNames(Pascal(proj.decls[k].name))
         /\ used.decls[k].inn \in TsNames(Pascal(proj.decls[k].name) \o In)
         /\ used.decls[k].out \in TsNames(Pascal(proj.decls[k].name) \o Out)
         /\ \A j \in 1..Len(proj.decls[k].fields) : used.decls[k].fields[j] \in TsNames(Camel(proj.decls[k].fields[j]))

\* What to write for an item in Rust.
RustItems(proj) ==
    [files |-> [f \in 1..Len(proj.files) |-> RustSpace(proj.files[f])],
     decls |-> [k \in 1..Len(proj.decls) |->
        LET d == proj.decls[k]
        IN [inn |-> RustType(d.name, In), out |-> RustType(d.name, Out),
            fields |-> [j \in 1..Len(d.fields) |-> RustField(d.kind, d.fields[j])]]]]

-----------------------------------------------------------------------------
(* The listed findings, by their cause.                                       *)
\* Numeric characters that neither language has in identifiers.
Unfit == {189, 178}
Fit(s) == s # <<>> /\ IsAlpha(s[1]) /\ \A i \in 1..Len(s) : (IsAlnum(s[i]) \/ s[i] = Underscore) /\ s[i] \notin Unfit
AllNames(proj) == UNION { {proj.decls[k].name} \cup {proj.decls[k].fields[j] : j \in 1..Len(proj.decls[k].fields)} : k \in 1..Len(proj.decls) }
NumericNames(proj) == \E n \in AllNames(proj) : \E i \in 1..Len(n) : n[i] \in Unfit
NoIdentifiers(proj) == \E f \in 1..Len(proj.files) : \E i \in 1..Len(proj.files[f]) : ~Fit(Snake(proj.files[f][i]))

\* Rust takes names for the same that Unicode composes to the same (here: an ideograph for compatibility, and a Hangul syllable).
RECURSIVE Composed(_)
Composed(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) > 1 /\ s[1] = 4352 /\ s[2] = 4449 THEN <<44032>> \o Composed(SubSeq(s, 3, Len(s)))
    ELSE <<IF s[1] = 63744 THEN 35912 ELSE s[1]>> \o Composed(Tail(s))
OneComposed(names) == \E a, b \in names : a # b /\ Composed(Pascal(a)) = Composed(Pascal(b))
NotComposed(proj) ==
    \/ \E k \in 1..Len(proj.decls) : OneComposed({proj.decls[k].fields[j] : j \in 1..Len(proj.decls[k].fields)})
    \/ \E f \in 1..Len(proj.files) : OneComposed({proj.decls[k].name : k \in {m \in 1..Len(proj.decls) : proj.decls[m].file = f}})
    \/ OneComposed(UNION {{proj.files[f][i] : i \in 1..Len(proj.files[f])} : f \in 1..Len(proj.files)})

\* Rust modules that hide what the generated code refers to: std and io at the top, and std inside a module with types.
HidesStd(proj) ==
    \E f \in 1..Len(proj.files) :
        LET p == proj.files[f]
        IN \/ Spelled(Snake(p[1])) \in {"std", "io"}
           \/ \E i \in 2..Len(p) : \E k \in 1..Len(proj.decls) :
                 LET q == proj.files[proj.decls[k].file]
                 IN /\ Spelled(Snake(p[i])) = "std"
                    /\ Len(q) = i - 1
                    /\ \A j \in 1..Len(q) : Snake(q[j]) = Snake(p[j])

\* All namespaces: of files and of the directories above them.
Namespaces(proj, style(_)) == UNION { {[i \in 1..n |-> style(proj.files[f][i])] : n \in 1..Len(proj.files[f])} : f \in 1..Len(proj.files) }
\* Different namespaces that are one in TypeScript.
Merged(proj) == Cardinality(Namespaces(proj, Snake)) # Cardinality(Namespaces(proj, Pascal))
\* The functions of a type go to a namespace that is also the one of a file, which has a type of that name again.
Absorbed(proj) ==
    \E k \in 1..Len(proj.decls) : \E m \in 1..Len(proj.decls) :
        LET d == proj.decls[k]  e == proj.decls[m]
            whole(x) == [i \in 1..Len(proj.files[x.file]) |-> Pascal(proj.files[x.file][i])]
        IN whole(e) = Append(whole(d), Pascal(d.name)) /\ Pascal(e.name) = Pascal(d.name)

Troubles(proj, lang) ==
    (IF NumericNames(proj) THEN {"NUMERIC"} ELSE {})
    \cup (IF NoIdentifiers(proj) THEN {"NONIDENT"} ELSE {})
    \cup (IF lang = "rust" /\ HidesStd(proj) THEN {"STDMODULE"} ELSE {})
    \cup (IF lang = "rust" /\ NotComposed(proj) THEN {"COMPOSED"} ELSE {})
    \cup (IF lang = "ts" /\ Merged(proj) THEN {"TSNSMERGE"} ELSE {})
    \cup (IF lang = "ts" /\ Absorbed(proj) THEN {"TSMERGE"} ELSE {})
=============================================================================
