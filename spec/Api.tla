-------------------------------- MODULE Api --------------------------------
(* What client programs of generated code may do with a field (README, "A      *)
(* struct's fields ...", "A choice's fields ..."): which ways of supplying and  *)
(* using it the compiler of each language accepts, by the rule of the field.   *)
EXTENDS Naturals, Sequences, FiniteSets

Rules == {"req", "opt", "asym"}
Languages == {"rust", "ts"}

\* Ways of dealing with one field.
Attempts(lang, kind) ==
    CASE kind = "struct" /\ lang = "rust" -> {"value", "some", "none", "omit", "wrong", "plain", "maybe", "incoming", "leaveout"}
      [] kind = "struct" /\ lang = "ts"   -> {"value", "undefined", "omit", "wrong", "plain", "maybe", "leaveout"}
      [] kind = "choice" /\ lang = "rust" -> {"bare", "fallback", "wrongfallback", "wrong", "match", "matchfallback", "forget", "forgetout", "catchall"}
      [] kind = "choice" /\ lang = "ts"   -> {"bare", "fallback", "wrongfallback", "wrong", "match", "matchfallback", "forget", "catchall"}

\* Which of them are accepted.
Writer(r) == IF r = "opt" THEN "may" ELSE "must"       \* must an outgoing struct supply it?
Reader(r) == IF r = "req" THEN "has" ELSE "may"        \* is it in every incoming struct?
Backed(r) == r # "req"                                 \* does an outgoing case carry a fallback?
Exposed(r) == r = "opt"                                \* does an incoming case offer its fallback?

Accepts(lang, kind, r, a) ==
    CASE a = "value"         -> lang = "ts" \/ Writer(r) = "must"
      [] a = "some"          -> Writer(r) = "may"
      [] a \in {"none", "undefined"} -> Writer(r) = "may"
      [] a = "omit"          -> lang = "ts" /\ Writer(r) = "may"
      [] a \in {"wrong", "wrongfallback"} -> FALSE
      [] a = "plain"         -> Reader(r) = "has"
      [] a = "maybe"         -> lang = "ts" \/ Reader(r) = "may"
      [] a = "incoming"      -> TRUE                   \* an incoming struct is built like the type says
      [] a = "leaveout"      -> lang = "ts" /\ Reader(r) = "may" \* an incoming struct without the field
      [] a = "bare"          -> ~Backed(r)
      [] a = "fallback"      -> Backed(r)
      [] a = "match"         -> lang = "ts" \/ ~Exposed(r)
      [] a = "matchfallback" -> Exposed(r)
      [] a \in {"forget", "forgetout"} -> FALSE        \* a match without the case is not exhaustive
      [] a = "catchall"      -> TRUE                   \* a match with a default is

\* In TypeScript a case with a needless fallback is an excess property, which is accepted or not depending on
\* the other cases; and a field that may be undefined has to be mentioned in an object or not. The README does not ask
\* for either.
Unspecified(lang, kind, r, a) ==
    lang = "ts" /\ \/ kind = "choice" /\ a = "fallback" /\ ~Backed(r)
                   \/ a = "omit" /\ Writer(r) = "may"
                   \/ a = "leaveout" /\ Reader(r) = "may"

-----------------------------------------------------------------------------
(* A program that does something with each of several fields is accepted if    *)
(* all of it is. rs and as are sequences of rules and attempts.               *)
Supplying == {"value", "some", "none", "undefined", "omit", "wrong"}
Whole(lang, kind, rs, as) == \A i \in 1..Len(rs) : Accepts(lang, kind, rs[i], as[i])
=============================================================================
