---------------------------- MODULE ReorderTrace ----------------------------
(* Judges recorded runs of pairs of schemas that differ only in names, files   *)
(* and order.                                                                 *)
(*   [op |-> "enc", g, x, y, keep, v, w, b, c, n, m]: b is v written as x (of  *)
(*       size n), c is w written as y (m); keep says the order of fields is    *)
(*       the same.                                                            *)
(*   [op |-> "dec", g, i, x, y, b, st, r, su, s]: b read as x gave st, r; as y *)
(*       su, s.                                                               *)
EXTENDS Evolve, Json, IOUtils, TLC

Envs  == JsonDeserialize(IOEnv.TV_ENV)
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)

VARIABLES l, verdict

Bag(s) == [e \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = e})]
Env(q) == Envs[q.g]
Sound(q) == Permuted(Env(q), q.x, q.y) /\ (q.op = "enc" => Moved(Env(q), q.x, q.y, q.v) = q.w)
Same(q) ==
    CASE q.op = "enc" -> /\ Len(q.b) = Len(q.c) /\ q.n = q.m /\ Bag(q.b) = Bag(q.c)
                         /\ (q.keep => q.b = q.c)
      [] q.op = "dec" -> /\ q.st = q.su
                         /\ (q.st = "ok" => LET w == Moved(Env(q), q.x, q.y, q.r) IN
                                          q.s = w \/ (q.i = "ts" /\ SameSeenMessage(Env(q), q.y, w, q.s))) \* bits of NaNs
Explain(q) == CASE q.op = "enc" -> <<"the same bytes", q.keep>>
                [] q.op = "dec" -> IF q.st = "ok" THEN <<"ok", Moved(Env(q), q.x, q.y, q.r)>> ELSE <<q.st>>

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ verdict' = (IF ~Sound(Trace[l]) THEN "unsound" ELSE IF Same(Trace[l]) THEN "ok" ELSE "bad")
        /\ (verdict' = "unsound" => PrintT("TVUNSOUND " \o ToString(l)))
        /\ (verdict' = "bad" => PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(Explain(Trace[l]))))
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
