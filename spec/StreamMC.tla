------------------------------ MODULE StreamMC ------------------------------
(* All ways of delivering short messages, and all ways of accepting them.     *)
(* TV_ENV: environments; TV_MSGS: [t, b] messages of the first environment.   *)
EXTENDS Streams, Json, IOUtils, TLC

CONSTANTS MaxIntr,  \* interruptions per run
          Mode      \* "read" or "write"

Env  == JsonDeserialize(IOEnv.TV_ENV)[1]
Msgs == JsonDeserialize(IOEnv.TV_MSGS)

VARIABLES m, pos, plan, phase, w

B == Msgs[m].b
vars == <<m, pos, plan, phase, w>>

Init == m \in 1..Len(Msgs) /\ pos = 0 /\ plan = <<>> /\ phase = "on" /\ w = WriterInit

Interrupts == Cardinality({i \in 1..Len(plan) : plan[i] = 0})
CanInterrupt == phase = "on" /\ Interrupts < MaxIntr /\ (IF plan = <<>> THEN TRUE ELSE plan[Len(plan)] # 0)

(* Reading *)
Deliver == /\ Mode = "read" /\ phase = "on"
           /\ \E k \in 1..(Len(B) - pos) : pos' = pos + k /\ plan' = Append(plan, k)
           /\ UNCHANGED <<m, phase, w>>
Interrupt == /\ Mode = "read" /\ CanInterrupt /\ pos < Len(B)
             /\ plan' = Append(plan, 0) /\ UNCHANGED <<m, pos, phase, w>>
Break == Mode = "read" /\ phase = "on" /\ plan' = Append(plan, FAIL) /\ phase' = "broken" /\ UNCHANGED <<m, pos, w>>
End == Mode = "read" /\ phase = "on" /\ pos = Len(B) /\ phase' = "ended" /\ UNCHANGED <<m, pos, plan, w>>

(* Writing: the serializer offers a chunk of what remains, the writer answers. *)
Write == /\ Mode = "write" /\ phase = "on" /\ w.done < Len(B) /\ w.st = "open"
         /\ \E c \in 1..(Len(B) - w.done) :
               LET chunk == SubSeq(B, w.done + 1, w.done + c) IN
               \E a \in 1..c \cup {FAIL, NOTHING} \cup (IF CanInterrupt THEN {INTERRUPTED} ELSE {}) :
                  /\ Offers(w, B, chunk)
                  /\ w' = Answered(w, chunk, a)
                  /\ plan' = IF a = INTERRUPTED THEN Append(plan, 0) ELSE Append(plan, a)
         /\ UNCHANGED <<m, pos, phase>>

Next == Deliver \/ Interrupt \/ Break \/ End \/ Write
Spec == Init /\ [][Next]_vars

Rust == Deviations("rust")
Result(dv) == DecodePlanned(dv, Env, Msgs[m].t, B, plan)

\* Delivery does not matter: what ends gives what the whole message gives.
Independent == phase = "ended" =>
    Result(Rust \ {"INTR"}) = DecodeWith(Rust, Env, Msgs[m].t, B, 0, Len(B))
\* A broken reader never leads to a value.
BrokenFails == phase = "broken" => Result(Rust)[1] \in {"fail", "err", "intr"}
\* Whatever was accepted is a prefix; a writer that never fails gets everything.
Prefix == w.done \in 0..Len(B)

\* The cases for replay.
Case == (phase \in {"ended", "broken"} /\ Mode = "read") =>
    LET x == Result(Rust) IN
    PrintT("TVCASE " \o ToJson([t |-> Msgs[m].t, b |-> B, plan |-> plan, st |-> x[1], r |-> x[3],
                                d |-> IF x = Result(Rust \ {"INTR"}) THEN 0 ELSE 1]))
WriteCase == (Mode = "write" /\ (w.st # "open" \/ w.done = Len(B))) =>
    PrintT("TVCASE " \o ToJson([t |-> Msgs[m].t, m |-> m, plan |-> plan]))
=============================================================================
