------------------------------ MODULE GrammarMC ------------------------------
(* Every sequence of tokens, up to a length, that a schema could begin with,    *)
(* and each way to go wrong from there; source of the cases replayed against   *)
(* the tool. A case is the kinds of the tokens, with the kinds of a shortest    *)
(* way to finish the schema unless the last token cannot be accepted.          *)
EXTENDS Grammar, Json, TLC

CONSTANTS MaxLen, PrintFrom, PrintTo   \* lengths, and between which lengths cases are printed

Kinds == <<"comment", "import", "path", "as", "name", "struct", "choice", "{", "}", "deleted", "optional", "asymmetric", ":", "=", ".",
           "[", "]", "int", "Bool", "Unit">>

VARIABLES ks, p

\* Token k at position i: all names, paths and numbers of a sequence are different.
Tok(k, i) ==
    [k |-> k, a |-> i, z |-> i, n |-> 1,
     v |-> CASE k = "name" -> <<110, 48 + (i \div 10), 48 + (i % 10)>>
             [] k = "path" -> <<112, 48 + (i \div 10), 48 + (i % 10), 46, 116>>
             [] k = "int" -> Normal(<<i \div 10, i % 10>>)
             [] OTHER -> <<>>]

\* A shortest way to the end of a schema.
Close(ph, depth) ==
    LET idx == <<"=", "int", "}">>
    IN CASE ph \in {"start", "firstcomment", "head", "body", "afterimport"} -> <<>>
         [] ph = "importpath" -> <<"path">>
         [] ph = "importname" -> <<"name">>
         [] ph = "declcomment" -> <<"struct", "name", "{", "}">>
         [] ph = "declname" -> <<"name", "{", "}">>
         [] ph = "open" -> <<"{", "}">>
         [] ph \in {"field", "deleted"} -> <<"}">>
         [] ph \in {"fieldcomment", "fieldname"} -> <<"name">> \o idx
         [] ph = "afterfieldname" -> idx
         [] ph = "type" -> <<"Bool">> \o [i \in 1..depth |-> "]"] \o idx
         [] ph = "qualified" -> <<"name">> \o [i \in 1..depth |-> "]"] \o idx
         [] ph \in {"aftertype", "aftername"} -> [i \in 1..depth |-> "]"] \o idx
         [] ph = "index" -> <<"int", "}">>

Finish(q, from) ==
    LET c == Close(q.ph, q.depth)
    IN FoldLeft(LAMBDA r, i : ParseStep(r, Tok(c[i], from + i)), q, [i \in 1..Len(c) |-> i])

Init == ks = <<>> /\ p = Parse0
Next == /\ Len(ks) < MaxLen
        /\ p.ph # "refused"
        /\ \E i \in 1..Len(Kinds) :
              \* Consecutive comments are one comment.
              /\ ~(ks # <<>> /\ ks[Len(ks)] = "comment" /\ Kinds[i] = "comment")
              /\ ks' = Append(ks, Kinds[i])
              /\ p' = ParseStep(p, Tok(Kinds[i], Len(ks) + 1))
        /\ IF Len(ks') \in PrintFrom..PrintTo
           THEN PrintT("TVCASE " \o ToJson([k |-> ks', c |-> IF p'.ph = "refused" THEN <<>> ELSE Close(p'.ph, p'.depth), bad |-> p'.ph = "refused"]))
           ELSE TRUE
Spec == Init /\ [][Next]_<<ks, p>>

\* Every schema that has begun well can be finished.
CanFinish == p.ph # "refused" => LET q == Finish(p, Len(ks)) IN q.ph # "refused" /\ MayEnd(q)
\* What has been read stays: nothing is dropped, and in order.
NamesKept ==
    p.ph # "refused" =>
        LET q == AtEnd(Finish(p, Len(ks)))
            Fields(ds) == FoldLeft(LAMBDA acc, d : acc + Len(d.fields) + Len(d.deleted), 0, ds)
            all == ks \o Close(p.ph, p.depth)
            ints == Cardinality({i \in 1..Len(all) : all[i] = "int"})
            decls == Cardinality({i \in 1..Len(all) : all[i] \in {"struct", "choice"}})
            imports == Cardinality({i \in 1..Len(all) : all[i] = "import"})
        IN Fields(q.decls) = ints /\ Len(q.decls) = decls /\ Len(q.imports) = imports
=============================================================================
