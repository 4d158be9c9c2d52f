------------------------------ MODULE CostTrace ------------------------------
(* Judges what recorded decodings cost.                                       *)
(*    [g, t, i, b, st, tot, calls]: reader i read b as type t with status st,   *)
(*    allocated tot bytes in all, and asked the input calls times.             *)
EXTENDS Cost, Json, IOUtils, TLC

Envs  == JsonDeserialize(IOEnv.TV_ENV)
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict

\* Types whose values may hold many units (README, "Security").
RECURSIVE Units(_, _), TypeUnits(_, _)
TypeUnits(env, t) == IF t[1] = "Ref" THEN Units(env, t[2]) ELSE t[1] = "Array" /\ (t[2][1] = "Unit" \/ TypeUnits(env, t[2]))
Units(env, n) == \E j \in 1..Len(env[n].f) : TypeUnits(env, env[n].f[j].t)

As(dv, r) == DecodeWith(dv, Envs[r.g], r.t, r.b, 0, Len(r.b))[1]
Verdict(r) ==
    LET small == r.tot <= Space(Envs[r.g], r.t, Len(r.b)) IN
    IF r.i = "rust"
    THEN CASE r.st \in {"ok", "err"} ->
                 IF r.calls > Calls(Len(r.b)) THEN "bad"
                 ELSE IF small THEN "ok"
                 ELSE IF As({"CLAMP", "HANG", "CLAIM"}, r) = "huge" THEN "ok+HUGE" ELSE "bad"
           [] r.st = "huge" -> IF As({"CLAMP", "HANG", "HUGE"}, r) = "huge" THEN "ok+HUGE" ELSE "bad"
           [] r.st = "hang" -> IF As({"CLAMP", "HANG", "HUGE"}, r) = "hang" THEN "ok+HANG" ELSE "bad"
           [] OTHER -> "bad"
    ELSE CASE r.st \in {"ok", "err"} ->
                 IF r.calls > Calls(Len(r.b)) THEN "bad"
                 ELSE IF small \/ Units(Envs[r.g], r.t) THEN "ok" ELSE "bad"
           [] r.st = "huge" -> IF Units(Envs[r.g], r.t) THEN "ok" ELSE "bad"
           [] OTHER -> "bad"

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ verdict' = Verdict(Trace[l])
        /\ (verdict' = "bad" => PrintT("TVBAD " \o ToString(l) \o " " \o
               ToJson([space |-> Space(Envs[Trace[l].g], Trace[l].t, Len(Trace[l].b)), calls |-> Calls(Len(Trace[l].b))])))
        /\ (verdict' \notin {"ok", "bad"} => PrintT("TVDEV " \o verdict' \o " " \o ToString(l)))
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
