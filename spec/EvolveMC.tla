------------------------------ MODULE EvolveMC ------------------------------
(* All pairs of versions of a small struct and a small choice, and all values  *)
(* of small domains: what decoding the encoded value gives is View, it never   *)
(* fails between adjacent versions, and adjacency is reflexive and symmetric.  *)
(* TV_ENV: [env, groups]; groups is a sequence of sequences of declarations    *)
(* that are versions of one another. Emits every case for replay.             *)
EXTENDS Evolve, Json, IOUtils, TLC

CONSTANT Chain \* how long fallback chains get

In == JsonDeserialize(IOEnv.TV_ENV)
Env == In.env
Groups == In.groups

VARIABLES x, y, v, phase

RECURSIVE Small(_), SmallMessages(_, _)
Small(t) ==
    CASE t[1] = "Unit" -> { <<>> }
      [] t[1] = "Bool" -> { <<0>>, <<1>> }
      [] t[1] \in {"U64", "S64"} -> {Zero8, <<128, 0, 0, 0, 0, 0, 0, 0>>}
      [] t[1] = "F64" -> {<<24, 45, 68, 84, 251, 33, 9, 64>>}
      [] t[1] \in {"Bytes", "String"} -> { <<104>> }
      [] t[1] = "Array" -> IF t[2][1] = "Unit" THEN {<<3, 0, 0, 0, 0, 0, 0, 0>>} ELSE { <<x1>> : x1 \in Small(t[2]) }
      [] t[1] = "Ref" -> SmallMessages(t[2], 1)

\* A value per field, or none where it may be missing.
Options(f) == {<<x1>> : x1 \in Small(f.t)} \cup (IF f.r = "opt" THEN { <<>> } ELSE {})
RECURSIVE Product(_)
Product(sets) == IF sets = <<>> THEN { <<>> } ELSE {<<a>> \o b : a \in Head(sets), b \in Product(Tail(sets))}

SmallMessages(n, depth) ==
    LET d == Env[n] IN
    IF d.k = "struct" THEN Product([j \in 1..Len(d.f) |-> Options(d.f[j])])
    ELSE UNION { IF d.f[j].r = "req" THEN {<<j, x1>> : x1 \in Small(d.f[j].t)}
                 ELSE IF depth > Chain THEN {}
                 ELSE {<<j, x1, fb>> : x1 \in {CHOOSE z \in Small(d.f[j].t) : TRUE}, fb \in SmallMessages(n, depth + 1)}
                 : j \in 1..Len(d.f) }

Init == \E g \in 1..Len(Groups) : \E i, k \in 1..Len(Groups[g]) :
            /\ x = Groups[g][i] /\ y = Groups[g][k]
            /\ Comparable(Env, x, y)
            /\ v \in SmallMessages(x, 1)
            /\ phase = "value"
Next ==
    /\ phase = "value" /\ phase' = "sent"
    /\ PrintT("TVCASE " \o ToJson([x |-> x, y |-> y, v |-> v, w |-> View(Env, x, y, v), adj |-> Adjacent(Env, x, y)]))
    /\ UNCHANGED <<x, y, v>>
Spec == Init /\ [][Next]_<<x, y, v, phase>>

Faithful == phase = "sent" => LET w == View(Env, x, y, v) IN
    /\ Through({}, Env, x, y, v) = w
    /\ Through(Deviations("rust"), Env, x, y, v) = w
    /\ Through(Deviations("ts"), Env, x, y, v) = w
Safe == Adjacent(Env, x, y) => LET w == View(Env, x, y, v) IN w # No /\ Kept(Env, x, y, v, w[2])
Symmetric == Adjacent(Env, x, y) = Adjacent(Env, y, x)
Reflexive == Adjacent(Env, x, x) /\ View(Env, x, x, v) = Yes(ReceivedMessage(Env, x, v))
\* Order permutes the parts of an encoding, no more.
Bag(s) == [e \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = e})]
Orderless == phase = "value" /\ Permuted(Env, x, y) =>
    LET w == Moved(Env, x, y, v)
        a == EncodeMessage(Env, x, v)
        b == EncodeMessage(Env, y, w)
    IN /\ Len(a) = Len(b) /\ Bag(a) = Bag(b)
       /\ Through({}, Env, x, y, v) = Yes(ReceivedMessage(Env, y, w))
       /\ Through({}, Env, y, x, w) = Yes(ReceivedMessage(Env, x, v))
       /\ Moved(Env, y, x, w) = v
=============================================================================
