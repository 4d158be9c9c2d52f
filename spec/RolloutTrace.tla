---------------------------- MODULE RolloutTrace ----------------------------
(* Validates recorded rollouts of real programs. A log is                     *)
(*    [g, size, services, guarded, ev]: environment, types, what happened:     *)
(*    ["up", s, ver], ["send", s, t, v, b, id], ["recv", s, id, lang, st, r]. *)
(* The bytes are what the real program wrote; they are not judged here (C01, *)
(* C02), only what becomes of them.  *)
(* An event is a step of Rollout, or the log is wrong at that point.           *)
EXTENDS Rollout, Json, IOUtils, TLC

Envs == JsonDeserialize(IOEnv.TV_ENV)
Logs == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, k, ids, verdict
vars == <<live, net, l, k, ids, verdict>>

Log == Logs[l]
Env == Envs[Log.g]
Ev == Log.ev[k]

Init ==
    /\ l \in 1..Len(Logs)
    /\ k = 1 /\ net = {} /\ verdict = "run"
    /\ live = [s \in 1..Log.services |-> 0]
    /\ ids = <<>>

Bad(what) == verdict' = "bad" /\ PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(what)) /\ UNCHANGED <<live, net, ids, k, l>>
Step == k' = k + 1 /\ verdict' = "run" /\ UNCHANGED l

\* Not a step of a careful rollout: the driver is wrong, not the program.
Up == IF ~(Log.guarded => Careful([live EXCEPT ![Ev[2]] = Ev[3]], net)) \/ live[Ev[2]] = Ev[3] THEN Bad(<<"unsound", k>>)
      ELSE IF Log.guarded /\ ~(\A t \in 1..Log.size : Adjacent(Env, Decl(Log.size, live[Ev[2]], t), Decl(Log.size, Ev[3], t)))
      THEN Bad(<<"unsound", k>>)
      ELSE Change(Ev[2], Ev[3], Log.guarded) /\ Step /\ UNCHANGED ids
Sent == LET m == Message(Ev[2], Ev[3], Ev[4], Ev[5]) IN
        IF m \in net THEN Bad(<<"unsound", k>>)
        ELSE Send(Ev[2], Ev[3], Ev[4], Ev[5]) /\ ids' = Append(ids, <<Ev[6], m>>) /\ Step
Taken ==
    LET m == ids[CHOOSE i \in 1..Len(ids) : ids[i][1] = Ev[3]][2]
        x == Decl(Log.size, m.ver, m.t)
        y == Decl(Log.size, live[Ev[2]], m.t)
        w == View(Env, x, y, m.v)
        got == IF Ev[5] = "ok" THEN Yes(Ev[6]) ELSE IF Ev[5] = "err" THEN No ELSE <<"other">>
    IN IF Log.guarded /\ w = No THEN Bad(<<"unsound", k>>)
       ELSE IF got # w THEN Bad(<<"result", k, w>>)
       ELSE Receive(m) /\ Step /\ UNCHANGED ids

Next ==
    /\ verdict = "run"
    /\ IF k > Len(Log.ev)
       THEN verdict' = "done" /\ PrintT("TVKIND done") /\ UNCHANGED <<live, net, ids, k, l>>
       ELSE CASE Ev[1] = "up" -> Up [] Ev[1] = "send" -> Sent [] Ev[1] = "recv" -> Taken
Spec == Init /\ [][Next]_vars
=============================================================================
