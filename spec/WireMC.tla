------------------------------- MODULE WireMC -------------------------------
(* Exhaustive check of the wire format over a catalogue of declarations and   *)
(* boundary values, and source of the cases replayed against generated code.  *)
(*                                                                           *)
(* TV_ENV holds the catalogue (every type shape under every rule in structs   *)
(* and choices). A state is a declaration n and a value v a writer may        *)
(* construct; the one step writes it, leaving the bytes.                      *)
EXTENDS Decode, Json, IOUtils, TLC

CONSTANT Rich  \* whether arrays and nested values take many values or few

Env == JsonDeserialize(IOEnv.TV_ENV)[1]

VARIABLES n, v, bytes, phase

-----------------------------------------------------------------------------
(* Boundary values.                                                          *)
Below(x) == Sub8(x, One8)
U64s == {Zero8, One8, <<2, 0, 0, 0, 0, 0, 0, 0>>, <<63, 0, 0, 0, 0, 0, 0, 0>>, Max8, Below(Max8),
         <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<1, 2, 3, 4, 5, 6, 0, 0>>,
         <<255, 254, 253, 252, 251, 250, 249, 248>>}
        \cup {VarBase[k] : k \in 2..9} \cup {Below(VarBase[k]) : k \in 2..9} \cup {Add8(VarBase[k], One8) : k \in 2..9}
F64s == {Zero8, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 240, 63>>,
         <<0, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, <<255, 255, 255, 255, 255, 255, 239, 127>>,
         <<24, 45, 68, 84, 251, 33, 9, 64>>}
Run(x, k) == [i \in 1..k |-> x]
Byteses == {<<>>, <<0>>, <<255>>, <<0, 1, 127, 128, 255>>, Run(7, 7), Run(8, 8), Run(9, 9), Run(1, 127), Run(2, 128)}
Texts == {<<>>, <<97>>, <<0>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<237, 159, 191, 238, 128, 128>>,
          <<120, 239, 187, 191>>, Run(97, 7), Run(97, 8), Run(97, 9), Run(98, 127), Run(98, 128), <<244, 143, 191, 191>>}
Lengths == {Zero8, One8, <<2, 0, 0, 0, 0, 0, 0, 0>>, <<127, 0, 0, 0, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 0>>,
            <<127, 64, 0, 0, 0, 0, 0, 0>>, <<128, 64, 0, 0, 0, 0, 0, 0>>}

Few(t) ==
    CASE t[1] = "Unit" -> { <<>> }
      [] t[1] = "Bool" -> { <<0>>, <<1>> }
      [] t[1] = "U64" -> {Zero8, <<128, 0, 0, 0, 0, 0, 0, 0>>, Max8}
      [] t[1] = "S64" -> {Zero8, Max8, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<64, 0, 0, 0, 0, 0, 0, 0>>}
      [] t[1] = "F64" -> {Zero8, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<24, 45, 68, 84, 251, 33, 9, 64>>}
      [] t[1] = "Bytes" -> {<<>>, <<0>>, Run(8, 8)}
      [] t[1] = "String" -> {<<>>, <<97>>, <<195, 169, 98, 99, 100, 101, 102, 103>>}

\* A fixed small value of a type, and a set of values. Depth counts nested messages.
RECURSIVE Plain(_), PlainMessage(_), Values(_, _), Messages(_, _), Elements(_, _)
Plain(t) ==
    CASE t[1] = "Array" -> IF t[2][1] = "Unit" THEN <<3, 0, 0, 0, 0, 0, 0, 0>> ELSE <<Plain(t[2])>>
      [] t[1] = "Ref" -> PlainMessage(t[2])
      [] t[1] \in {"U64", "S64"} -> <<5, 0, 0, 0, 0, 0, 0, 0>>
      [] t[1] = "F64" -> <<0, 0, 0, 0, 0, 0, 240, 63>>
      [] t[1] = "Bool" -> <<1>>
      [] t[1] = "Unit" -> <<>>
      [] OTHER -> <<104, 105>>
FirstReq(d) == CHOOSE j \in 1..Len(d.f) : d.f[j].r = "req" /\ \A k \in 1..(j - 1) : d.f[k].r # "req"
PlainMessage(m) ==
    LET d == Env[m] IN
    IF d.k = "struct" THEN [j \in 1..Len(d.f) |-> IF d.f[j].r = "opt" THEN <<>> ELSE <<Plain(d.f[j].t)>>]
    ELSE <<FirstReq(d), Plain(d.f[FirstReq(d)].t)>>

Elements(t, depth) == IF t[1] \in {"Array", "Ref"} THEN Values(t, depth + 1) ELSE Few(t)
Values(t, depth) ==
    CASE t[1] = "Array" ->
            IF t[2][1] = "Unit" THEN Lengths
            ELSE LET es == IF Rich /\ depth = 0 /\ t[2][1] \notin {"Array", "Ref"} THEN Values(t[2], 1) ELSE Elements(t[2], depth)
                     p  == Plain(t[2])
                 IN { <<>> } \cup {<<x>> : x \in es} \cup {<<x, p>> : x \in es}
                    \cup (IF depth < 2 THEN {<<p, x, p>> : x \in es} ELSE {})
                    \cup (IF depth = 0 THEN {Run(p, 9), Run(p, 130)} ELSE {})
      [] t[1] = "Ref" -> IF depth < 2 THEN Messages(t[2], depth + 1) ELSE {PlainMessage(t[2])}
      [] t[1] = "U64" -> U64s
      [] t[1] = "S64" -> {UnZigZag(u) : u \in U64s} \cup {Zero8, One8, Max8}
      [] t[1] = "F64" -> F64s
      [] t[1] = "Bytes" -> Byteses
      [] t[1] = "String" -> Texts
      [] OTHER -> Few(t)

\* One field varies, the others are plain (or all optional ones are present).
Messages(m, depth) ==
    LET d == Env[m] IN
    IF d.k = "struct"
    THEN LET p == PlainMessage(m)
             full == [j \in 1..Len(d.f) |-> <<Plain(d.f[j].t)>>]
         IN {p, full} \cup UNION { {[p EXCEPT ![j] = <<x>>] : x \in Values(d.f[j].t, depth)} : j \in 1..Len(d.f) }
    ELSE UNION { LET vs == Values(d.f[j].t, depth)
                     last == PlainMessage(m)
                     \* A chain through every other optional or asymmetric case.
                     mid == IF \E k \in 1..Len(d.f) : k # j /\ d.f[k].r # "req"
                            THEN LET k == CHOOSE k \in 1..Len(d.f) : k # j /\ d.f[k].r # "req"
                                 IN {<<k, Plain(d.f[k].t), last>>}
                            ELSE {}
                 IN IF d.f[j].r = "req" THEN {<<j, x>> : x \in vs}
                    ELSE {<<j, x, last>> : x \in vs} \cup {<<j, Plain(d.f[j].t), y>> : y \in mid}
                 : j \in 1..Len(d.f) }

-----------------------------------------------------------------------------
Init ==
    /\ n \in 1..Len(Env)
    /\ v \in Messages(n, 0)
    /\ bytes = <<>> /\ phase = "value"

Write ==
    /\ phase = "value"
    /\ phase' = "written"
    /\ bytes' = EncodeMessage(Env, n, v)
    /\ PrintT("TVCASE " \o ToJson([t |-> n, v |-> v, b |-> bytes']))
    /\ UNCHANGED <<n, v>>
Next == Write
Spec == Init /\ [][Next]_<<n, v, bytes, phase>>

IsWritable == WritableMessage(Env, n, v)

\* Reading what was written gives what should be received, for the README's reader and for both generated ones.
RoundTrip ==
    phase = "written" =>
        LET x == DecodeWith({}, Env, n, bytes, 0, Len(bytes))
        IN /\ x = <<"ok", Len(bytes), ReceivedMessage(Env, n, v)>>
           /\ Decode("rust", Env, n, bytes, 0, Len(bytes)) = x
           /\ Decode("ts", Env, n, bytes, 0, Len(bytes)) = x

\* A message embedded in a larger buffer reads the same.
Embedded ==
    phase = "written" =>
        LET b == <<254, 1>> \o bytes \o <<3, 255, 255>>
            x == DecodeWith({}, Env, n, b, 2, 2 + Len(bytes))
        IN x = <<"ok", 2 + Len(bytes), ReceivedMessage(Env, n, v)>> /\ Decode("ts", Env, n, b, 2, 2 + Len(bytes)) = x

\* The announced sizes add up: headers alone delimit the message.
RECURSIVE Skeleton(_, _)
Skeleton(p, e) ==
    IF p = e THEN TRUE
    ELSE LET hd == ReadHeader({}, Whole(bytes), p, e) IN hd[1] = "ok" /\ hd[2] + hd[4] <= e /\ Skeleton(hd[2] + hd[4], e)
WellFormed == phase = "written" => Skeleton(0, Len(bytes))
=============================================================================
