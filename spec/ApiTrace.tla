------------------------------ MODULE ApiTrace ------------------------------
(* Judges recorded verdicts of compilers on programs that deal with several    *)
(* fields at once: [lang, kind, rs, as, accepted].                            *)
EXTENDS Api, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict
Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec" /\ UNCHANGED l
        /\ LET r == Trace[l] IN
           /\ verdict' = (IF r.accepted = Whole(r.lang, r.kind, r.rs, r.as) THEN "ok" ELSE "bad")
           /\ (verdict' = "bad" => PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(~r.accepted)))
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
