------------------------------- MODULE Evolve -------------------------------
(* How schemas may change (README, "Summary of what kinds of schema changes   *)
(* are safe"), and what a reader of one version sees of a value written by     *)
(* another version. Declarations x and y of one environment are two versions   *)
(* of a type; what they refer to are versions too.                            *)
(*                                                                           *)
(* View says it in terms of values only, without bytes: EvolveMC shows that it *)
(* is what decoding the encoded value gives.                                  *)
EXTENDS Decode

Rule(d, index) == LET j == FieldAt(d, index) IN IF j = 0 THEN "none" ELSE d.f[j].r
Indices(d) == {d.f[j].i : j \in 1..Len(d.f)}

\* Changes of the rule of a field that are safe as a single change.
SafeStep(r, s) ==
    r = s \/ {r, s} \in {{"none", "opt"}, {"none", "asym"}, {"opt", "asym"}, {"asym", "req"}}

RECURSIVE Adjacent(_, _, _), AdjacentTypes(_, _, _)
AdjacentTypes(env, t, u) ==
    IF t[1] # u[1] THEN FALSE
    ELSE CASE t[1] = "Array" -> AdjacentTypes(env, t[2], u[2])
           [] t[1] = "Ref" -> Adjacent(env, t[2], u[2])
           [] OTHER -> TRUE
\* One safe change (or several, of different fields) leads from one to the other. Names and order are not looked at.
Adjacent(env, x, y) ==
    LET a == env[x] b == env[y]
        shared == Indices(a) \cap Indices(b)
        TypesAgree == \A i \in shared : AdjacentTypes(env, a.f[FieldAt(a, i)].t, b.f[FieldAt(b, i)].t)
    IN IF x = y THEN TRUE
       ELSE IF a.k = b.k THEN TypesAgree /\ \A i \in Indices(a) \cup Indices(b) : SafeStep(Rule(a, i), Rule(b, i))
       ELSE Len(a.f) = 1 /\ Len(b.f) = 1 /\ a.f[1].r = "req" /\ b.f[1].r = "req" /\ shared # {} /\ TypesAgree

\* The weaker relation under which View is defined: what is shared has the same kind of type.
RECURSIVE Comparable(_, _, _), ComparableTypes(_, _, _)
ComparableTypes(env, t, u) ==
    IF t[1] # u[1] THEN FALSE
    ELSE CASE t[1] = "Array" -> ComparableTypes(env, t[2], u[2])
           [] t[1] = "Ref" -> Comparable(env, t[2], u[2])
           [] OTHER -> TRUE
Comparable(env, x, y) ==
    LET a == env[x] b == env[y] IN
    /\ a.k = b.k \/ Adjacent(env, x, y)
    /\ \A i \in Indices(a) \cap Indices(b) : ComparableTypes(env, a.f[FieldAt(a, i)].t, b.f[FieldAt(b, i)].t)

-----------------------------------------------------------------------------
\* <<"ok", value>> or <<"err">>.
No == <<"err">>
Yes(v) == <<"ok", v>>
\* All of a sequence of results, or none.
All(rs) == IF \E i \in 1..Len(rs) : rs[i] = No THEN No ELSE Yes([i \in 1..Len(rs) |-> rs[i][2]])

RECURSIVE View(_, _, _, _), ViewType(_, _, _, _)
ViewType(env, t, u, v) ==
    CASE t[1] = "Array" /\ t[2][1] \in {"Array", "Ref"} /\ ~IsUnitArray(t) ->
            All([i \in 1..Len(v) |-> ViewType(env, t[2], u[2], v[i])])
      [] t[1] = "Ref" -> View(env, t[2], u[2], v)
      [] OTHER -> Yes(v)

\* What a reader of y sees of the value v of x.
View(env, x, y, v) ==
    LET a == env[x] b == env[y] IN
    CASE a.k = "struct" /\ b.k = "struct" ->
            All([j \in 1..Len(b.f) |->
                   LET m == FieldAt(a, b.f[j].i) IN
                   IF m = 0 \/ v[m] = <<>> THEN (IF b.f[j].r = "req" THEN No ELSE Yes(<<>>))
                   ELSE LET r == ViewType(env, a.f[m].t, b.f[j].t, v[m][1]) IN IF r = No THEN No ELSE Yes(<<r[2]>>)])
      [] a.k = "choice" /\ b.k = "choice" ->
            LET f == a.f[v[1]]
                j == FieldAt(b, f.i)
            IN IF j = 0
               \* The first case of the chain that the reader knows.
               THEN (IF Len(v) = 3 THEN View(env, x, y, v[3]) ELSE No)
               ELSE LET r == ViewType(env, f.t, b.f[j].t, v[2]) IN
                    IF r = No THEN No
                    ELSE IF b.f[j].r # "opt" THEN Yes(<<j, r[2]>>)
                    ELSE IF Len(v) # 3 THEN No
                    ELSE LET fb == View(env, x, y, v[3]) IN IF fb = No THEN No ELSE Yes(<<j, r[2], fb[2]>>)
      [] a.k = "struct" /\ b.k = "choice" ->
            LET r == ViewType(env, a.f[1].t, b.f[1].t, v[1][1]) IN IF r = No THEN No ELSE Yes(<<1, r[2]>>)
      [] a.k = "choice" /\ b.k = "struct" ->
            LET r == ViewType(env, a.f[1].t, b.f[1].t, v[2]) IN IF r = No THEN No ELSE Yes(<< <<r[2]>> >>)

\* Whether the fields that both versions of a struct have kept their values (needed of View itself).
Kept(env, x, y, v, w) ==
    LET a == env[x] b == env[y] IN
    a.k = "struct" /\ b.k = "struct" =>
        \A j \in 1..Len(b.f) : LET m == FieldAt(a, b.f[j].i) IN
            m # 0 => (v[m] = <<>> <=> w[j] = <<>>) /\ (v[m] # <<>> /\ b.f[j].t[1] \notin {"Ref", "Array"} => v[m] = w[j])

\* Versions that differ only in names and in the order of what is declared.
RECURSIVE Permuted(_, _, _), PermutedTypes(_, _, _)
PermutedTypes(env, t, u) ==
    IF t[1] # u[1] THEN FALSE
    ELSE CASE t[1] = "Array" -> PermutedTypes(env, t[2], u[2])
           [] t[1] = "Ref" -> Permuted(env, t[2], u[2])
           [] OTHER -> TRUE
Permuted(env, x, y) ==
    LET a == env[x] b == env[y] IN
    /\ a.k = b.k /\ Indices(a) = Indices(b)
    /\ \A i \in Indices(a) : LET f == a.f[FieldAt(a, i)] g == b.f[FieldAt(b, i)] IN f.r = g.r /\ PermutedTypes(env, f.t, g.t)

\* The value of y that corresponds to a value of x.
RECURSIVE Moved(_, _, _, _), MovedType(_, _, _, _)
MovedType(env, t, u, v) ==
    CASE t[1] = "Array" /\ t[2][1] \in {"Array", "Ref"} /\ ~IsUnitArray(t) -> [i \in 1..Len(v) |-> MovedType(env, t[2], u[2], v[i])]
      [] t[1] = "Ref" -> Moved(env, t[2], u[2], v)
      [] OTHER -> v
Moved(env, x, y, v) ==
    LET a == env[x] b == env[y] IN
    IF a.k = "struct"
    THEN [j \in 1..Len(b.f) |-> LET m == FieldAt(a, b.f[j].i) IN
             IF v[m] = <<>> THEN <<>> ELSE <<MovedType(env, a.f[m].t, b.f[j].t, v[m][1])>>]
    ELSE LET j == FieldAt(b, a.f[v[1]].i)
             w == MovedType(env, a.f[v[1]].t, b.f[j].t, v[2])
         IN IF Len(v) = 3 THEN <<j, w, Moved(env, x, y, v[3])>> ELSE <<j, w>>

\* What decoding gives.
Through(devs, env, x, y, v) ==
    LET b == EncodeMessage(env, x, v)
        r == DecodeWith(devs, env, y, b, 0, Len(b))
    IN IF IsOk(r) THEN Yes(r[3]) ELSE IF r = Err THEN No ELSE <<r[1]>>
=============================================================================
