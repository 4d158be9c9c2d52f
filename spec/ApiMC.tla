------------------------------- MODULE ApiMC -------------------------------
(* Every way of dealing with a field of every rule and type, and the laws the  *)
(* README states about rules; emits the cases for the compilers.              *)
EXTENDS Api, Json, IOUtils, TLC
CONSTANT Types
VARIABLES lang, kind, rule, type, attempt
vars == <<lang, kind, rule, type, attempt>>
Init == /\ lang \in Languages /\ kind \in {"struct", "choice"} /\ rule \in Rules /\ type \in 1..Types
        /\ attempt \in Attempts(lang, kind)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == ~Unspecified(lang, kind, rule, attempt) =>
    PrintT("TVCASE " \o ToJson([lang |-> lang, kind |-> kind, rule |-> rule, type |-> type, attempt |-> attempt,
                                accepted |-> Accepts(lang, kind, rule, attempt)]))

\* Duality (README): asymmetric is required for the writers of a struct and optional for its readers, and the other
\* way round for a choice.
Dual == /\ Writer("asym") = Writer("req") /\ Reader("asym") = Reader("opt")
        /\ Backed("asym") = Backed("opt") /\ Exposed("asym") = Exposed("req")
\* A single step of a rule (Evolve) breaks the programs of at most one side.
Steps == {<<"req", "asym">>, <<"asym", "opt">>}
OneSide == \A p \in Steps :
    LET same(as) == \A a \in as : Accepts(lang, kind, p[1], a) = Accepts(lang, kind, p[2], a)
        writer == Attempts(lang, kind) \cap (Supplying \cup {"bare", "fallback"})
        reader == Attempts(lang, kind) \ writer
    IN same(writer) \/ same(reader)
=============================================================================
