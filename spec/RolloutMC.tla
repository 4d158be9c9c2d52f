----------------------------- MODULE RolloutMC -----------------------------
(* All rollouts of a few histories (TV_ENV: a sequence of [env, size,          *)
(* versions]) over a few services. Without the guard a message can fail.       *)
EXTENDS Rollout, Json, IOUtils, TLC

CONSTANTS Services, InFlight, Guarded

Histories == JsonDeserialize(IOEnv.TV_ENV)
VARIABLE h
vars == <<live, net, h>>

Env == Histories[h].env
Size == Histories[h].size

RECURSIVE Small(_), SmallMessages(_, _)
Small(t) ==
    CASE t[1] = "Unit" -> { <<>> }
      [] t[1] = "Bool" -> { <<1>> }
      [] t[1] \in {"U64", "S64"} -> {Zero8, <<128, 0, 0, 0, 0, 0, 0, 0>>}
      [] t[1] = "F64" -> {<<24, 45, 68, 84, 251, 33, 9, 64>>}
      [] t[1] \in {"Bytes", "String"} -> { <<104>> }
      [] t[1] = "Array" -> IF t[2][1] = "Unit" THEN {<<3, 0, 0, 0, 0, 0, 0, 0>>} ELSE { <<x1>> : x1 \in Small(t[2]) }
      [] t[1] = "Ref" -> SmallMessages(t[2], 1)
RECURSIVE Product(_)
Product(sets) == IF sets = <<>> THEN { <<>> } ELSE {<<a>> \o b : a \in Head(sets), b \in Product(Tail(sets))}
SmallMessages(n, depth) ==
    LET d == Env[n] IN
    IF d.k = "struct" THEN Product([j \in 1..Len(d.f) |-> {<<x1>> : x1 \in Small(d.f[j].t)} \cup (IF d.f[j].r = "opt" THEN { <<>> } ELSE {})])
    ELSE UNION { IF d.f[j].r = "req" THEN {<<j, x1>> : x1 \in Small(d.f[j].t)}
                 ELSE IF depth > 2 THEN {}
                 ELSE {<<j, x1, fb>> : x1 \in {CHOOSE z \in Small(d.f[j].t) : TRUE}, fb \in SmallMessages(n, depth + 1)}
                 : j \in 1..Len(d.f) }

Init ==
    /\ h \in 1..Len(Histories)
    /\ live = [s \in 1..Services |-> 0]
    /\ net = {}
Next ==
    /\ UNCHANGED h
    /\ \/ \E s \in 1..Services : \E d \in {-1, 1} :
            live[s] + d \in 0..(Histories[h].versions - 1) /\ Change(s, live[s] + d, Guarded)
       \/ \E s \in 1..Services : \E t \in 1..Size :
            Cardinality(net) < InFlight /\ \E v \in SmallMessages(Decl(Size, live[s], t), 1) : Send(s, t, v, EncodeMessage(Env, Decl(Size, live[s], t), v))
       \/ \E m \in net : Receive(m)
Spec == Init /\ [][Next]_vars

Readable == AllReadable(Env, Size)
\* Each change of the history is one the README calls safe.
Single == \A k \in 0..(Histories[h].versions - 2) : \A t \in 1..Size : Adjacent(Env, Decl(Size, k, t), Decl(Size, k + 1, t))
=============================================================================
