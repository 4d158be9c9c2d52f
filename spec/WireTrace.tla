------------------------------ MODULE WireTrace ------------------------------
(* Validates recorded calls of generated code against Wire and Decode.       *)
(*                                                                           *)
(* Env.json: the schema environments. Trace.ndjson: one record per call,      *)
(*   [op |-> "enc",  t, v, b, n]        serializing v wrote b; size said n     *)
(*   [op |-> "conv", t, v, r]           converting outgoing v gave r           *)
(*   [op |-> "rt",   t, v, i, st, r]    encoding v and decoding it gave r      *)
(*   [op |-> "dec",  t, i, b, p, e, st, r]                                     *)
(*        reader i ("rust"/"ts") decoding bytes b[p..e) gave status st, value r *)
(* r.g says which environment. Every record is one behaviour: rec -> ok | bad; a bad one is printed with   *)
(* what the specification allows, and the run goes on.                        *)
EXTENDS Decode, Json, IOUtils, TLC

Envs  == JsonDeserialize(IOEnv.TV_ENV)
Trace == ndJsonDeserialize(IOEnv.TV_TRACE)

VARIABLES l, verdict

EncOK(r) == LET b == EncodeMessage(Envs[r.g], r.t, r.v) IN r.b = b /\ r.n = Len(b)

Expected(r) == Decode(r.i, Envs[r.g], r.t, r.b, r.p, r.e)
Agrees(r, x) ==
    /\ r.st = x[1]
    /\ (x[1] = "ok" => IF r.i = "ts" THEN SameSeenMessage(Envs[r.g], r.t, x[3], r.r) ELSE x[3] = r.r)

\* The named deviations of the reader from the README that a conforming record shows: those without which
\* the result would be another one.
Shown(r, x) ==
    LET all == Deviations(r.i) \ ByDesign IN
    IF x = DecodeWith(Deviations(r.i) \ all, Envs[r.g], r.t, r.b, r.p, r.e) THEN {}
    ELSE LET one == {f \in all : x # DecodeWith(Deviations(r.i) \ {f}, Envs[r.g], r.t, r.b, r.p, r.e)}
         IN IF one = {} THEN all ELSE one
Deviation(r, x) == FoldLeft(LAMBDA acc, f : acc \o "+" \o f, "", SetToSeq(Shown(r, x)))

\* Agreement with the README where the generated reader is known to deviate from it is as good.
DecVerdict(r) ==
    LET x == Expected(r)
    IN IF Agrees(r, x) THEN "ok" \o Deviation(r, x)
       ELSE IF Agrees(r, DecodeWith(Deviations(r.i) \cap ByDesign, Envs[r.g], r.t, r.b, r.p, r.e)) THEN "ok"
       ELSE "bad"

\* A value written and read back.
RtVerdict(r) ==
    LET x == ReceivedMessage(Envs[r.g], r.t, r.v)
        y == Decode(r.i, Envs[r.g], r.t, EncodeMessage(Envs[r.g], r.t, r.v), 0, Len(EncodeMessage(Envs[r.g], r.t, r.v)))
    IN IF r.st # "ok" THEN "bad"
       ELSE IF r.r = x \/ (r.i = "ts" /\ SameSeenMessage(Envs[r.g], r.t, x, r.r)) THEN "ok"
       ELSE IF r.i = "ts" /\ SameSeenMessage(Envs[r.g], r.t, y[3], r.r) THEN "ok+BOM"
       ELSE "bad"

Verdict(r) ==
    CASE r.op = "enc"  -> IF EncOK(r) THEN "ok" ELSE "bad"
      [] r.op = "conv" -> IF r.r = ReceivedMessage(Envs[r.g], r.t, r.v) THEN "ok" ELSE "bad"
      [] r.op = "rt"   -> RtVerdict(r)
      [] r.op = "dec"  -> DecVerdict(r)

Explain(r) ==
    CASE r.op = "enc"  -> EncodeMessage(Envs[r.g], r.t, r.v)
      [] r.op \in {"conv", "rt"} -> ReceivedMessage(Envs[r.g], r.t, r.v)
      [] r.op = "dec"  -> Expected(r)

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ verdict' = Verdict(Trace[l])
        /\ (verdict' = "bad" => PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(Explain(Trace[l]))))
Spec == Init /\ [][Next]_<<l, verdict>>

\* Counts for the evidence file.
Note == verdict \notin {"rec", "bad", "ok"} => PrintT("TVDEV " \o verdict \o " " \o ToString(l))
=============================================================================
