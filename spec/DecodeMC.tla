------------------------------ MODULE DecodeMC ------------------------------
(* All byte strings over an alphabet up to a length, read as every type of a   *)
(* small environment: a message arrives byte by byte, and at each point the    *)
(* readers' results are determined. Emits every case for replay.              *)
EXTENDS Cost, Json, IOUtils, TLC

CONSTANTS MaxLen, Emit
Env == JsonDeserialize(IOEnv.TV_ENV)
Alphabet == ToSet(JsonDeserialize(IOEnv.TV_ALPHABET))

VARIABLES t, b

Init == t \in 1..Len(Env) /\ b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, b>>

Doc == Decode("doc", Env, t, b, 0, Len(b))
Short(r) == <<r[1], r[3]>>

\* The README's reader always comes to a result, reads nothing beyond the message, and builds nothing out of
\* proportion to it. Where a generated reader gives another result, the deviation is a named one.
Ends == Doc[1] \in {"ok", "err"} /\ (IsOk(Doc) => Doc[2] = Len(b))
Bounded == IsOk(Doc) => Weight(Env, t, Doc[3]) <= ValueBound(Env, t, Len(b))
\* What is accepted is a value, and writing it again gives something that reads the same.
Known == IsOk(Doc) => Typed(Env, t, Doc[3])
Case ==
    LET r == Decode("rust", Env, t, b, 0, Len(b))
        s == Decode("ts", Env, t, b, 0, Len(b))
        lf == DecodeWith({"LAST"}, Env, t, b, 0, Len(b))
    IN Emit => PrintT("TVCASE " \o ToJson([t |-> t, b |-> b, doc |-> Short(Doc), rust |-> Short(r), ts |-> Short(s), last |-> Short(lf)]))
=============================================================================
