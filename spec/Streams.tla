------------------------------ MODULE Streams -------------------------------
(* Readers that deliver bytes in pieces and writers that accept them in       *)
(* pieces, with interruptions and failures.                                   *)
EXTENDS Decode

FAIL == 999999        \* the stream fails from here on
INTERRUPTED == 999997 \* answer of a writer that was interrupted
NOTHING == 0          \* answer of a writer that accepts nothing

(* A reader plan is a sequence of steps: k > 0 delivers k bytes, 0 is an      *)
(* interruption, FAIL is a failure. After it the rest comes at once.          *)
ReadPlan(b, plan) ==
    LET x == FoldLeft(LAMBDA st, k :
                 IF ~st.ends THEN st
                 ELSE CASE k = FAIL -> [st EXCEPT !.ends = FALSE]
                        [] k = 0 -> IF st.pos < Len(b) THEN [st EXCEPT !.intr = @ \cup {st.pos}] ELSE st
                        [] OTHER -> [st EXCEPT !.pos = IF st.pos + k > Len(b) THEN Len(b) ELSE st.pos + k],
                 [pos |-> 0, ends |-> TRUE, intr |-> {}], plan)
    IN [b |-> IF x.ends THEN b ELSE SubSeq(b, 1, x.pos), ends |-> x.ends, intr |-> x.intr]

DecodePlanned(dv, env, n, b, plan) ==
    LET s == ReadPlan(b, plan) IN DecodeStream(dv, env, n, s.b, s.ends, s.intr)

(* A writer: done bytes of b were accepted; "open" until the last was or the  *)
(* writer failed. Each call offers bytes that come next, and is answered.     *)
WriterInit == [done |-> 0, st |-> "open"]
Offers(w, b, chunk) == /\ w.st = "open" /\ Len(chunk) > 0
                       /\ chunk = SubSeq(b, w.done + 1, w.done + Len(chunk))
Answered(w, chunk, a) ==
    CASE a = FAIL -> [w EXCEPT !.st = "TimedOut"]
      [] a = INTERRUPTED -> w
      [] a = NOTHING -> [w EXCEPT !.st = "WriteZero"]
      [] OTHER -> [w EXCEPT !.done = @ + a]

Bad == [done |-> -1, st |-> "bad"]
WriterRun(b, events) ==
    FoldLeft(LAMBDA w, ev : IF w # Bad /\ Offers(w, b, ev[1]) THEN Answered(w, ev[1], ev[2]) ELSE Bad, WriterInit, events)

\* Is a recorded run of the serializer (events, then its result) one of the machine?
WriterAccepts(b, events, st, kind) ==
    LET w == WriterRun(b, events)
    IN CASE w = Bad -> FALSE
         [] w.st = "open" -> st = "ok" /\ w.done = Len(b)
         [] OTHER -> st = "err" /\ kind = w.st
=============================================================================
