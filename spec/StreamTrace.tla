---------------------------- MODULE StreamTrace -----------------------------
(* Validates recorded stream runs of generated Rust code against Streams.    *)
(*   [op |-> "rd", t, b, plan, st, r]  decoding b delivered by plan            *)
(*   [op |-> "wr", t, v, ev, st, kind] serializing v; ev the calls to write    *)
EXTENDS Streams, Json, IOUtils, TLC

Envs  == JsonDeserialize(IOEnv.TV_ENV)
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict

Rust == Deviations("rust")
Expected(r) == DecodePlanned(Rust, Envs[r.g], r.t, r.b, r.plan)
Agrees(r, x) == r.st = x[1] /\ (x[1] = "ok" => r.r = x[3])

Verdict(r) ==
    IF r.op = "wr"
    THEN IF WriterAccepts(EncodeMessage(Envs[r.g], r.t, r.v), r.ev, r.st, r.kind) THEN "ok" ELSE "bad"
    ELSE LET x == Expected(r)
             y == DecodePlanned(Rust \ {"INTR"}, Envs[r.g], r.t, r.b, r.plan)
         IN IF Agrees(r, y) THEN "ok" ELSE IF Agrees(r, x) THEN "ok+INTR" ELSE "bad"
Explain(r) == IF r.op = "wr" THEN EncodeMessage(Envs[r.g], r.t, r.v) ELSE Expected(r)

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ verdict' = Verdict(Trace[l])
        /\ (verdict' = "bad" => PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(Explain(Trace[l]))))
Spec == Init /\ [][Next]_<<l, verdict>>
Note == verdict \notin {"rec", "bad", "ok"} => PrintT("TVDEV " \o verdict \o " " \o ToString(l))
=============================================================================
