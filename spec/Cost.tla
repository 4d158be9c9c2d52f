-------------------------------- MODULE Cost --------------------------------
(* What a reader may spend on a message: a bound linear in the length of the   *)
(* message, with a factor that depends on the type alone.                     *)
EXTENDS Decode

-----------------------------------------------------------------------------
(* The space of a value in memory (64 bits; generous for any layout).         *)
RECURSIVE Width(_, _), MessageWidth(_, _)
Width(env, t) ==
    CASE t[1] \in {"Unit", "Bool", "U64", "S64", "F64"} -> 16
      [] t[1] \in {"Bytes", "String", "Array"} -> 32
      [] t[1] = "Ref" -> MessageWidth(env, t[2])
Total(ws) == FoldLeft(LAMBDA acc, w : acc + w, 0, ws)
MessageWidth(env, n) == 16 + Total([j \in 1..Len(env[n].f) |-> 8 + Width(env, env[n].f[j].t)])

\* The widest thing of which a message of type n can hold many.
RECURSIVE Widest(_, _), WidestType(_, _)
Larger(a, b) == IF a > b THEN a ELSE b
WidestType(env, t) ==
    CASE t[1] = "Array" -> Larger(Width(env, t[2]), WidestType(env, t[2]))
      [] t[1] = "Ref" -> Widest(env, t[2])
      [] OTHER -> 32
Widest(env, n) == FoldLeft(LAMBDA acc, w : Larger(acc, w), MessageWidth(env, n), [j \in 1..Len(env[n].f) |-> WidestType(env, env[n].f[j].t)])

\* Every byte of a message begins at most one value, whose place is taken from a vector that doubles when
\* it is full and holds at least a few elements; byte strings are as long as they are in the message.
\* Errors take a constant.
Space(env, n, len) == 16 * (len + 1) * Widest(env, n) + 1024
\* Calls of the reader: each byte is asked for by a constant number of calls.
Calls(len) == 6 * len + 16

-----------------------------------------------------------------------------
(* The weight of a decoded value: its parts and the bytes of its texts. Arrays *)
(* of units weigh nothing (README, "Security").                               *)
RECURSIVE Weight(_, _, _), TypeWeight(_, _, _)
TypeWeight(env, t, v) ==
    CASE t[1] \in {"Bytes", "String"} -> 1 + Len(v)
      [] t[1] = "Array" -> IF t[2][1] = "Unit" THEN 1 ELSE 1 + Total([i \in 1..Len(v) |-> TypeWeight(env, t[2], v[i])])
      [] t[1] = "Ref" -> Weight(env, t[2], v)
      [] OTHER -> 1
Weight(env, n, v) ==
    LET d == env[n] IN
    IF d.k = "struct" THEN 1 + Total([j \in 1..Len(d.f) |-> IF v[j] = <<>> THEN 1 ELSE 1 + TypeWeight(env, d.f[j].t, v[j][1])])
    ELSE 1 + TypeWeight(env, d.f[v[1]].t, v[2]) + (IF Len(v) = 3 THEN Weight(env, n, v[3]) ELSE 0)

RECURSIVE Parts(_, _), TypeParts(_, _)
TypeParts(env, t) == IF t[1] = "Ref" THEN Parts(env, t[2]) ELSE IF t[1] = "Array" THEN 1 + TypeParts(env, t[2]) ELSE 1
Parts(env, n) == 1 + Total([j \in 1..Len(env[n].f) |-> 1 + TypeParts(env, env[n].f[j].t)])
ValueBound(env, n, len) == (len + 1) * Parts(env, n)

\* Is v a value of the type as readers see it?
RECURSIVE Typed(_, _, _), OfType(_, _, _)
OfType(env, t, v) ==
    CASE t[1] = "Unit" -> v = <<>>
      [] t[1] = "Bool" -> v \in {<<0>>, <<1>>}
      [] t[1] \in {"U64", "S64", "F64"} -> Len(v) = 8
      [] t[1] = "Bytes" -> \A i \in 1..Len(v) : v[i] \in 0..255
      [] t[1] = "String" -> IsUtf8(v)
      [] t[1] = "Array" -> IF t[2][1] = "Unit" THEN Len(v) = 8 ELSE \A i \in 1..Len(v) : OfType(env, t[2], v[i])
      [] t[1] = "Ref" -> Typed(env, t[2], v)
Typed(env, n, v) ==
    LET d == env[n] IN
    IF d.k = "struct"
    THEN /\ Len(v) = Len(d.f)
         /\ \A j \in 1..Len(d.f) : IF v[j] = <<>> THEN d.f[j].r # "req" ELSE OfType(env, d.f[j].t, v[j][1])
    ELSE /\ v[1] \in 1..Len(d.f)
         /\ OfType(env, d.f[v[1]].t, v[2])
         /\ IF d.f[v[1]].r = "opt" THEN Len(v) = 3 /\ Typed(env, n, v[3]) ELSE Len(v) = 2
=============================================================================
