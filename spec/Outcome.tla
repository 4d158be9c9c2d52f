------------------------------- MODULE Outcome -------------------------------
(* How a command may end. A record is [rc, timed, said, panicked, texts, chain]: *)
(* the exit status (negative for a signal), whether it had to be stopped,       *)
(* whether it printed an error, whether it printed a panic, the schema texts it  *)
(* was given (code points), and the length of the longest chain of types in     *)
(* them. Deviations that are listed are recognised by their cause.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict

\* How deeply brackets nest in a text.
Nesting(x) ==
    FoldLeft(LAMBDA acc, ch : IF ch = 91 THEN <<acc[1] + 1, IF acc[1] + 1 > acc[2] THEN acc[1] + 1 ELSE acc[2]>>
                              ELSE IF ch = 93 THEN <<acc[1] - 1, acc[2]>> ELSE acc, <<0, 0>>, x)[2]
Deepest(r) == LET d == {Nesting(r.texts[i]) : i \in 1..Len(r.texts)} IN IF d = {} THEN 0 ELSE CHOOSE m \in d : \A n \in d : n <= m

Ends(r) == ~r.timed /\ ~r.panicked /\ (r.rc = 0 \/ (r.rc = 1 /\ r.said))
Aborted(r) == ~r.timed /\ ~r.panicked /\ r.rc \in {-6, -11}
Verdict(r) ==
    IF Ends(r) THEN "ok"
    ELSE IF Aborted(r) /\ Deepest(r) > 1000 THEN "DEEPNEST"
    ELSE IF Aborted(r) /\ r.chain > 3000 THEN "DEEPCHAIN"
    ELSE "bad"

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ verdict' = Verdict(Trace[l])
        /\ CASE verdict' = "ok" -> PrintT("TVKIND " \o ToString(Trace[l].rc))
             [] verdict' = "bad" -> PrintT("TVBAD " \o ToString(l))
             [] OTHER -> PrintT("TVDEV " \o verdict' \o " " \o ToString(l))
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
