------------------------------ MODULE PathsTrace ------------------------------
(* For each recorded project: whether the TypeScript names seen in its          *)
(* generated code are right, what to write in Rust, and the listed findings    *)
(* that may keep it from compiling.                                           *)
EXTENDS Paths, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, done
Init == l \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED l
        /\ LET r == Trace[l] IN
           PrintT("TVCASE " \o ToJson([l |-> l, ts |-> TsRight(r.proj, r.ts), rust |-> RustItems(r.proj),
                                       troubles |-> [rust |-> Troubles(r.proj, "rust"), ts |-> Troubles(r.proj, "ts")]]))
Spec == Init /\ [][Next]_<<l, done>>
=============================================================================
