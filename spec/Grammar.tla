------------------------------- MODULE Grammar -------------------------------
(* From tokens to a schema, as a machine that reads one token at a time        *)
(* (README, "Schema reference"; the grammar is small enough to need a state    *)
(* and a count of open brackets only).                                        *)
(*                                                                           *)
(* A schema is [comment, imports, decls]; an import [name, path, a, z], a       *)
(* declaration [comment, k, name, fields, deleted, a, z], a field              *)
(* [comment, r, name, t, i, a, z] with a..z where it is in the text. Types are  *)
(* <<"Bool">>, ..., <<"Array", t>> and <<"Name", import, name, a, z>> (import   *)
(* <<>> for none). Indices are tuples of decimal digits.                       *)
EXTENDS Lexer

Builtin == {"Bool", "Bytes", "F64", "S64", "String", "U64", "Unit"}
Rules == {"asymmetric", "optional"}

-----------------------------------------------------------------------------
(* The name an import gets from its path: the stem of the last component.      *)
SplitPath(path) ==
    LET r == FoldLeft(LAMBDA acc, c : IF c = 47 THEN <<Append(acc[1], acc[2]), <<>> >> ELSE <<acc[1], Append(acc[2], c)>>,
                      << <<>>, <<>> >>, path)
    IN Append(r[1], r[2])
Dot == <<46>>
DotDot == <<46, 46>>
Components(path) == SelectSeq(SplitPath(path), LAMBDA c : c # <<>> /\ c # Dot)
\* A file name without what follows its last dot.
Stem(file) ==
    LET dots == {i \in 1..Len(file) : file[i] = 46}
    IN IF dots = {} \/ dots = {1} THEN file
       ELSE SubSeq(file, 1, (CHOOSE i \in dots : \A j \in dots : j <= i) - 1)
HasStem(path) == LET c == Components(path) IN c # <<>> /\ c[Len(c)] # DotDot
PathStem(path) == LET c == Components(path) IN Stem(c[Len(c)])

-----------------------------------------------------------------------------
NoField == [comment |-> <<>>, r |-> "required", name |-> <<>>, t |-> <<"Unit">>, i |-> <<>>, a |-> 0, z |-> 0]
NoDecl == [comment |-> <<>>, k |-> "struct", name |-> <<>>, fields |-> <<>>, deleted |-> <<>>, a |-> 0, z |-> 0]
NoImport == [name |-> <<>>, path |-> <<>>, a |-> 0, z |-> 0]

DigitText(i) == [k \in 1..Len(i) |-> i[k] + 48]

\* ph: what is expected next; bad: the token that could not be accepted (or {} while there is none); dup: places of imports
\* and deleted indices that are repeated or nameless, with the name or index.
Parse0 == [ph |-> "start", comment |-> <<>>, imports |-> <<>>, decls |-> <<>>, d |-> NoDecl, f |-> NoField, im |-> NoImport,
           depth |-> 0, ty |-> <<"Unit">>, ta |-> 0, bad |-> <<>>, dup |-> <<>>, last |-> 0]

Refuse(p, tok) == [p EXCEPT !.ph = "refused", !.bad = tok]
To(p, ph) == [p EXCEPT !.ph = ph]

StartDecl(p, tok) == [p EXCEPT !.ph = "declname", !.d.k = tok.k, !.d.a = IF p.d.a = 0 THEN tok.a ELSE p.d.a]
StartImport(p, tok) == [p EXCEPT !.ph = "importpath", !.im = [NoImport EXCEPT !.a = tok.a]]
EndImport(p) ==
    LET dup == \E j \in 1..Len(p.imports) : SameName(p.imports[j].name, p.im.name)
        nameless == p.im.name = <<>> /\ ~HasStem(p.im.path)
    IN [p EXCEPT !.ph = "head", !.imports = Append(@, p.im),
                 !.dup = IF nameless \/ dup THEN Append(@, <<p.im.a, p.im.z, IF nameless THEN <<>> ELSE p.im.name>>) ELSE @]
EndDecl(p, tok) == [p EXCEPT !.ph = "body", !.decls = Append(@, [p.d EXCEPT !.z = tok.z]), !.d = NoDecl]
StartField(p, tok) == [p EXCEPT !.f.a = IF @ = 0 THEN tok.a ELSE @]
EndField(p, tok) == [p EXCEPT !.ph = "field", !.d.fields = Append(@, [p.f EXCEPT !.i = tok.v, !.z = tok.z]), !.f = NoField]

RECURSIVE Nest(_, _)
Nest(t, n) == IF n = 0 THEN t ELSE Nest(<<"Array", t>>, n - 1)

\* Between declarations (and imports, while those may come).
Outside(p, tok, imports) ==
    CASE tok.k = "comment" -> [p EXCEPT !.ph = "declcomment", !.d.comment = tok.v, !.d.a = tok.a]
      [] tok.k \in {"struct", "choice"} -> StartDecl(p, tok)
      [] tok.k = "import" /\ imports -> StartImport(p, tok)
      [] OTHER -> Refuse(p, tok)

AfterType(p, tok) ==
    IF p.depth > 0
    THEN IF tok.k = "]" THEN [p EXCEPT !.depth = @ - 1, !.ty = <<"Array", p.ty>>, !.ph = "aftertype"] ELSE Refuse(p, tok)
    ELSE IF tok.k = "=" THEN [p EXCEPT !.ph = "index", !.f.t = p.ty] ELSE Refuse(p, tok)

FieldRule(p, tok) ==
    CASE tok.k \in Rules -> [StartField(p, tok) EXCEPT !.ph = "fieldname", !.f.r = tok.k]
      [] tok.k = "name" -> [StartField(p, tok) EXCEPT !.ph = "afterfieldname", !.f.name = tok.v]
      [] OTHER -> Refuse(p, tok)

ParseToken(p, tok) ==
    CASE p.ph = "refused" -> p
      [] p.ph = "start" ->
            IF tok.k = "comment" THEN [p EXCEPT !.ph = "firstcomment", !.comment = tok.v, !.d.a = tok.a]
            ELSE Outside(p, tok, TRUE)
      \* The first comment belongs to the declaration that follows it, unless an empty line comes between.
      [] p.ph = "firstcomment" ->
            IF tok.k \in {"struct", "choice"} /\ tok.n <= 1
            THEN StartDecl([p EXCEPT !.d.comment = p.comment, !.comment = <<>>], tok)
            ELSE Outside([p EXCEPT !.d.a = 0], tok, TRUE)
      [] p.ph = "head" -> Outside(p, tok, TRUE)
      [] p.ph = "body" -> Outside(p, tok, FALSE)
      [] p.ph = "importpath" ->
            IF tok.k = "path"
            THEN [p EXCEPT !.ph = "afterimport", !.im.path = tok.v, !.im.z = tok.z,
                           !.im.name = IF HasStem(tok.v) THEN PathStem(tok.v) ELSE <<>>]
            ELSE Refuse(p, tok)
      [] p.ph = "afterimport" ->
            IF tok.k = "as" THEN To(p, "importname") ELSE Outside(EndImport(p), tok, TRUE)
      [] p.ph = "importname" ->
            IF tok.k = "name" THEN EndImport([p EXCEPT !.im.name = tok.v, !.im.z = tok.z]) ELSE Refuse(p, tok)
      [] p.ph = "declcomment" -> IF tok.k \in {"struct", "choice"} THEN StartDecl(p, tok) ELSE Refuse(p, tok)
      [] p.ph = "declname" -> IF tok.k = "name" THEN [p EXCEPT !.ph = "open", !.d.name = tok.v] ELSE Refuse(p, tok)
      [] p.ph = "open" -> IF tok.k = "{" THEN To(p, "field") ELSE Refuse(p, tok)
      [] p.ph = "field" ->
            CASE tok.k = "}" -> EndDecl(p, tok)
              [] tok.k = "deleted" -> To(p, "deleted")
              [] tok.k = "comment" -> [StartField(p, tok) EXCEPT !.ph = "fieldcomment", !.f.comment = tok.v]
              [] OTHER -> FieldRule(p, tok)
      [] p.ph = "fieldcomment" -> FieldRule(p, tok)
      [] p.ph = "fieldname" -> IF tok.k = "name" THEN [p EXCEPT !.ph = "afterfieldname", !.f.name = tok.v] ELSE Refuse(p, tok)
      [] p.ph = "afterfieldname" ->
            CASE tok.k = ":" -> [p EXCEPT !.ph = "type", !.depth = 0]
              [] tok.k = "=" -> To(p, "index")
              [] OTHER -> Refuse(p, tok)
      [] p.ph = "type" ->
            CASE tok.k = "[" -> [p EXCEPT !.depth = @ + 1]
              [] tok.k \in Builtin -> [p EXCEPT !.ph = "aftertype", !.ty = <<tok.k>>]
              [] tok.k = "name" -> [p EXCEPT !.ph = "aftername", !.ty = <<"Name", <<>>, tok.v, tok.a, tok.z>>]
              [] OTHER -> Refuse(p, tok)
      [] p.ph = "aftername" -> IF tok.k = "." THEN To(p, "qualified") ELSE AfterType(p, tok)
      [] p.ph = "qualified" ->
            IF tok.k = "name" THEN [p EXCEPT !.ph = "aftertype", !.ty = <<"Name", p.ty[3], tok.v, p.ty[4], tok.z>>]
            ELSE Refuse(p, tok)
      [] p.ph = "aftertype" -> AfterType(p, tok)
      [] p.ph = "index" -> IF tok.k = "int" THEN EndField(p, tok) ELSE Refuse(p, tok)
      [] p.ph = "deleted" ->
            CASE tok.k = "int" -> [p EXCEPT !.d.deleted = Append(@, tok.v),
                                            !.dup = IF \E j \in 1..Len(p.d.deleted) : p.d.deleted[j] = tok.v
                                                    THEN Append(@, <<tok.a, tok.z, DigitText(tok.v)>>) ELSE @]
              [] tok.k = "}" -> EndDecl(p, tok)
              [] OTHER -> Refuse(p, tok)

ParseStep(p, tok) == [ParseToken(p, tok) EXCEPT !.last = tok.z]

\* Where a schema may end.
MayEnd(p) == p.ph \in {"start", "firstcomment", "head", "body", "afterimport"}
AtEnd(p) == IF p.ph = "afterimport" THEN EndImport(p) ELSE p

ParseTokens(toks) == AtEnd(FoldLeft(ParseStep, Parse0, toks))

\* The outcome for a text: [ok, schema, errs]; errs are the <<from, to, subject>> of the errors that must be reported,
\* where subject is the name or index that must be named (<<>> for none). A text that is not
\* made of tokens is not parsed; what follows a token that cannot be accepted is not judged.
Schema(text) ==
    LET l == Lex(text) IN
    IF l.e # <<>> THEN [ok |-> FALSE, schema |-> <<>>, errs |-> [i \in 1..Len(l.e) |-> <<l.e[i][1], l.e[i][2], <<>> >>], all |-> TRUE]
    ELSE LET p == ParseTokens(l.t)
             syntax == CASE p.ph = "refused" -> << <<p.bad.a, p.bad.z, <<>> >> >>
                         [] p.ph # "refused" /\ ~MayEnd(p) -> << <<p.last, p.last, <<>> >> >>
                         [] OTHER -> <<>>
         IN IF syntax = <<>> /\ p.dup = <<>>
            THEN [ok |-> TRUE, schema |-> [comment |-> p.comment, imports |-> p.imports, decls |-> p.decls], errs |-> <<>>, all |-> TRUE]
            ELSE [ok |-> FALSE, schema |-> <<>>, errs |-> p.dup \o syntax, all |-> syntax = <<>>]

-----------------------------------------------------------------------------
(* What a schema says, leaving aside where it says it and how names are cased. *)
RECURSIVE PlainType(_)
PlainType(t) ==
    CASE t[1] = "Array" -> <<"Array", PlainType(t[2])>>
      [] t[1] = "Name" -> <<"Name", Snake(t[2]), Pascal(t[3])>>
      [] OTHER -> t
PlainField(f) == [comment |-> f.comment, r |-> f.r, name |-> Snake(f.name), t |-> PlainType(f.t), i |-> f.i]
PlainDecl(d) == [comment |-> d.comment, k |-> d.k, name |-> Pascal(d.name), fields |-> [i \in 1..Len(d.fields) |-> PlainField(d.fields[i])],
                 deleted |-> {d.deleted[i] : i \in 1..Len(d.deleted)}]
Plain(s) == [comment |-> s.comment, imports |-> {<<Snake(s.imports[i].name), s.imports[i].path>> : i \in 1..Len(s.imports)},
             decls |-> [i \in 1..Len(s.decls) |-> PlainDecl(s.decls[i])]]
=============================================================================
